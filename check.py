#!/usr/bin/env python3
"""check.py PROPERTY -- discharges every proof obligation of one property's contracts against /repo's current source.

exit 0  every obligation discharged (or only listed known findings fail)
exit 1  VIOLATION line
        (ending no-failing-input-found when obligations merely fail to be discharged)
exit 2  the machinery itself failed: an error, never reported as a violation"""
import sys, os, json, re, subprocess, tempfile, shutil, time, hashlib
from concurrent.futures import ThreadPoolExecutor
HERE=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,HERE)
from checks_cfg import CHECKS, TRUSTED
REPO=os.environ.get("DSGA_REPO","/repo"); HEADER=os.path.join(REPO,"include/dsga.hxx")
SEED=int(os.environ.get("VERIF_SEED","1") or 1); TIER=os.environ.get("VERIF_TIER","quick"); NC=os.cpu_count() or 4
VCGEN=os.path.join(HERE,"vcgen/build/vcgen")
CLANG=["clang++-18","-std=c++20","-O0","-ffp-contract=off","-Xclang","-disable-O0-optnone","-w","-fno-discard-value-names","-ferror-limit=5","-ftemplate-backtrace-limit=0"]
def sh(cmd,timeout=None,**k): return subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=timeout,errors="replace",**k)
class Undecided(Exception): pass
SAFETY=False
def flags(mod): return ['-DV_HEADER="%s"'%HEADER,"-I"+os.path.join(HERE,"contracts"),"-I"+os.path.join(HERE,"contracts/gen")]+mod["defs"]
def modules(cfg):
    ms=[]
    for m in cfg["modules"]:
        parts=m.get("parts",1); th=m.get("thorough_parts",0) if TIER=="thorough" else 0
        for p in range(parts+th): ms.append({"src":os.path.join(HERE,"contracts",m["file"]),"defs":["-DPART=%d"%p]+m.get("defs",[]),"name":"%s[%d]%s"%(m["file"],p,"".join(m.get("tag",""))),"real":m.get("real",False)})
    return ms
def compile_bc(m,work,i):
    m["bc"]=os.path.join(work,"m%d.bc"%i); t=time.time()
    r=sh(CLANG+flags(m)+["-c","-emit-llvm",m["src"],"-o",m["bc"]],timeout=600); m["ctime"]=time.time()-t; m["cerr"]=r.stdout if r.returncode else ""; return m
def compile_native(m,work,san=False):
    exe=m["bc"]+(".san" if san else ".exe")
    if os.path.exists(exe): return exe
    f=["-fsanitize=undefined"+(",address" if SAFETY else ""),"-fno-sanitize-recover=all"] if san else []
    r=sh(["g++","-std=gnu++20","-O0","-w","-DV_NATIVE"]+f+flags(m)+[m["src"],os.path.join(HERE,"runtime/runtime.cpp"),"-o",exe],timeout=800)
    if r.returncode: r=sh(["clang++-18","-std=c++20","-O0","-w","-ffp-contract=off","-DV_NATIVE"]+f+flags(m)+[m["src"],os.path.join(HERE,"runtime/runtime.cpp"),"-o",exe],timeout=800)
    return exe if r.returncode==0 else None
def run_vcgen(m,work,tmo,jobs):
    out=m["bc"]+".jsonl"; smt=m["bc"]+".smt"; os.makedirs(smt,exist_ok=True)
    r=sh([VCGEN,m["bc"],out,"-j",str(jobs),"-t",str(tmo),"-smt",smt,"-sem",os.path.dirname(m["bc"]),"-slots",str(NC)]+(["-safety"] if SAFETY and m["name"]!="canary" else []),timeout=3000)
    if r.returncode: raise Undecided("vcgen failed on %s: %s"%(m["name"],r.stdout[-400:]))
    m["res"]=[json.loads(l) for l in open(out) if l.strip()]; return m
def cvc5(f,tmo=60):
    """race the second solver and a longer z3 run on one exported obligation; unsat means discharged"""
    import select
    ps=[(n,subprocess.Popen(c,stdout=subprocess.PIPE,stderr=subprocess.DEVNULL,text=True)) for n,c in (("cvc5",["cvc5","--tlimit=%d"%(tmo*1000),"--fp-exp","--nl-cov",f]),("z3-long",["z3-new","-T:%d"%tmo,f]))]
    end=time.time()+tmo+10; live=list(ps); got=None
    while live and time.time()<end and got is None:
        for n,q in list(live):
            if q.poll() is not None:
                live.remove((n,q)); o=(q.stdout.read() or "").strip().split("\n")
                if "unsat" in o and not any("error" in l for l in o): got=n; break
        else: time.sleep(0.1)
    for n,q in ps:
        if q.poll() is None: q.kill()
        q.wait()
    return got
def main():
    global SAFETY
    prop=sys.argv[1]; cfg=CHECKS[prop]; t0=time.time(); SAFETY=cfg.get("safety_only",False)
    if SAFETY: os.environ["V_SAFETY"]="1"; os.environ["ASAN_OPTIONS"]="detect_leaks=0:detect_stack_use_after_return=0"
    r=sh(["bash",os.path.join(HERE,"vcgen/build.sh")]); 
    if r.returncode: print("error: cannot build vcgen\n"+r.stdout[-2000:]); return 2
    known=[k for k in json.load(open(os.path.join(HERE,"known_findings.json")))["findings"] if k["property"]==prop and k["status"]=="known"]
    work=tempfile.mkdtemp(prefix="vchk."); rep=os.path.join(HERE,"evidence","replay"); os.makedirs(rep,exist_ok=True)
    try: return go(prop,cfg,t0,known,work,rep)
    finally: shutil.rmtree(work,ignore_errors=True)
def save_replay(rep,prop,name,text):
    p=os.path.join(rep,"%s-%s.txt"%(prop,hashlib.sha1((name).encode()).hexdigest()[:10])); open(p,"w").write(text); return p
def go(prop,cfg,t0,known,work,rep):
    errs=[]; open_=[]; viol=[]; knownhit=[]
    ms=modules(cfg); can={"src":os.path.join(HERE,"contracts/canary.cxx"),"defs":["-DPART=0"],"name":"canary","real":False}
    with ThreadPoolExecutor(NC) as ex: list(ex.map(lambda a: compile_bc(a[1],work,a[0]),enumerate(ms+[can])))
    tc=time.time()
    for m in ms+[can]:
        if m["cerr"]:
            es=[l for l in m["cerr"].split("\n") if (" error: " in l or "fatal error" in l) and "too many errors" not in l]
            stat=[l for l in es if "static assertion failed" in l or "static_assert" in l]
            if es and len(stat)==len(es) and all(l.startswith(HERE) for l in stat):
                g=sh(["g++","-std=gnu++20","-O0","-w","-fsyntax-only"]+flags(m)+[m["src"]],timeout=800)
                if g.returncode and "static assertion failed" in g.stdout:
                    p=save_replay(rep,prop,m["name"],"A contract decided by the C++ type checker fails in %s.\nReproduce: g++ -std=gnu++20 -fsyntax-only %s %s\n\n%s"%(m["name"]," ".join(flags(m)),m["src"],m["cerr"])); viol.append((m["name"],p,True)); continue
            (open_ if es else errs).append((m["name"],"(whole module)","does not compile against the header: "+es[0][:500]) if es else "contract module %s: compiler failed: %s"%(m["name"],m["cerr"][-300:]))
    # lemmas over the contracts, machine-checked by Rocq
    lem=0
    for v in cfg.get("proofs",[]):
        d=os.path.join(work,"proofs"); os.makedirs(d,exist_ok=True); shutil.copy(os.path.join(HERE,"proofs",v),d)
        r=sh(["coqc","-q",os.path.join(d,v)],timeout=600); txt=open(os.path.join(d,v)).read()
        if r.returncode or "Admitted" in txt or "Axiom" in txt: errs.append("proofs/%s is not accepted by coqc: %s"%(v,r.stdout[-300:]))
        else: lem+=len(re.findall(r"^(?:Lemma|Theorem) ",txt,re.M))
    good=[m for m in ms if not m["cerr"]]; tmo=cfg.get("timeout_ms",20000)*(6 if TIER=="thorough" else 1)
    if not can["cerr"]: good=good+[can]
    workers=max(1,min(len(good),NC)); jobs=NC
    def one(m):
        try: return run_vcgen(m,work,tmo,jobs)
        except Undecided as e: m["res"]=None; errs.append(str(e)); return m
        except subprocess.TimeoutExpired: m["res"]=None; errs.append("vcgen time limit on "+m["name"]); return m
    with ThreadPoolExecutor(workers) as ex: list(ex.map(one,good))
    # the generator must still refute contracts that are false
    if not can["cerr"] and can.get("res") is not None:
        for x in can["res"]:
            if x["status"]!="fail": errs.append("canary contract '%s' was not refuted (%s)"%(x["name"],x["status"]))
        if len(can["res"])<6: errs.append("canary contracts missing")
    good=[m for m in good if m is not can and m.get("res") is not None]
    tv=time.time(); nob=ndis=0; back={"coqc":lem} if lem else {}; nob+=lem; ndis+=lem; fns=set(); ext=set(); asm=set(); st=0.0; ncon=0; triv=0; bad=[]
    for m in good:
        for x in m["res"]:
            ncon+=1; nob+=x["obligations"]; ndis+=x["discharged"]; st+=x.get("solver_time",0); triv+=x.get("safety_trivial",0)
            for k,v in x.get("backends",{}).items(): back[k]=back.get(k,0)+v
            fns.update(x.get("functions",[])); ext.update(x.get("externs",[])); asm.update(x.get("assumed",[]))
            if SAFETY: nob+=x.get("safety_trivial",0); ndis+=x.get("safety_trivial",0)
            if x["status"]!="ok": bad.append((m,x))
    # a cheap native search on what is open: a concrete failing input makes long solver runs pointless
    unk=[(m,x) for m,x in bad if x["status"]=="unknown"]
    if unk and not any(x["status"]=="fail" for m,x in bad):
        byx={}
        for m,x in unk: byx.setdefault(id(m),(m,[]))[1].append(x)
        def presearch(a):
            m,xs=a; exe=compile_native(m,work,True)
            if not exe: return None
            for x in xs[:6]:
                try: r=sh([exe,"search",str(SEED),"60000","4",x["name"]],timeout=30)
                except subprocess.TimeoutExpired: continue
                if any(l.startswith("FOUND") for l in r.stdout.split("\n")): x["status"]="fail"; x["pre"]=True; return x
            return None
        with ThreadPoolExecutor(4) as ex: list(ex.map(presearch,list(byx.values())[:8]))
    # second solver and longer limits on what the first pass left open
    anyfail=any(x["status"]=="fail" for m,x in bad); todo=[(x,f) for m,x in bad if x["status"]=="unknown" for f in x["failures"] if "smt" in f]
    lim=0 if any(x.get("pre") for m,x in bad) else 45 if anyfail else (1500 if TIER=="thorough" else cfg.get("long_s",240)); deadline=t0+(5400 if TIER=="thorough" else 600)
    def race(a):
        left=int(min(lim,deadline-time.time())); return a if left<5 else (a[0],a[1],cvc5(a[1]["smt"],left))
    with ThreadPoolExecutor(max(1,NC//2)) as ex: rr=list(ex.map(race,todo[:200]))
    for a in rr:
        if len(a)>2 and a[2]: a[1]["closed"]=a[2]; ndis+=1; back[a[2]]=back.get(a[2],0)+1
    for m,x in bad:
        if x["status"]=="unknown":
            x["failures"]=[f for f in x["failures"] if "closed" not in f]
            if not x["failures"]: x["status"]="ok"
    bad=[(m,x) for m,x in bad if x["status"]!="ok"]
    # known findings: identified by contract name and failing obligation
    def is_known(x):
        for k in known:
            if re.fullmatch(k["contract"],x["name"]) and x["failures"] and all(re.search(k["obligation"],f["kind"]+": "+f["label"]) for f in x["failures"]): return k
        return None
    rest=[]
    for m,x in bad:
        k=is_known(x) if x["status"] in("fail","unknown") else None
        if k: knownhit.append((k,x)); nob-=len(x["failures"])
        else: rest.append((m,x))
    # confirm failures natively: solver counterexample first, then a directed search
    rest.sort(key=lambda a:{"fail":0,"unknown":1}.get(a[1]["status"],2)); tried=0; confirmed=0; unconf=[]
    bymod={}
    for m,x in rest:
        if x["status"] in("fail","unknown","error") and x["name"]!="?": bymod.setdefault(id(m),(m,[]))[1].append(x)
        elif x["name"]=="?": errs.append("%s: %s"%(m["name"],x.get("error","")))
        else: open_.append((m["name"],x["name"],"%s %s"%(x["status"],x.get("error",""))))
    for m,xs in bymod.values():
        if confirmed or time.time()-t0>600: unconf+= [(m,x) for x in xs]; continue
        exes=[e for e in (compile_native(m,work,True),) if e]
        if not exes: unconf+=[(m,x) for x in xs]; continue
        exe=exes[0]
        for x in xs[:12]:
            if confirmed or (x["status"]=="error" and time.time()-t0>500): break
            hit=None
            for f in x["failures"]:
                if "model" in f:
                    try: r=sh([exe,"replay",x["name"]]+f["model"],timeout=60)
                    except subprocess.TimeoutExpired: continue
                    if r.returncode not in(0,77,3): hit=(f["model"],r.stdout,"the solver's counterexample, replayed natively"); break
            if not hit:
                try: r=sh([exe,"search",str(SEED),"200000" ,"8",x["name"]],timeout=90); s=[l for l in r.stdout.split("\n") if l.startswith("FOUND")]
                except subprocess.TimeoutExpired: s=[]
                if s: hit=(s[0].split("|")[-1].split(),s[0],"an input found by native search directed at the failed obligation")
            if hit:
                confirmed+=1; fl="\n".join("  failed obligation: %s: %s  [%s]\n    at %s\n    goal %s"%(f["kind"],f["label"],f["result"],f["where"],f["goal"]) for f in x["failures"])
                p=save_replay(rep,prop,x["name"],"property %s, contract '%s' in %s\n%s\n\nfailing input (%s): %s\n%s\n\nreproduce:\n  g++ -std=gnu++20 -O0 -w -DV_NATIVE -fsanitize=undefined -fno-sanitize-recover=all %s %s %s -o /tmp/replay && /tmp/replay replay '%s' %s\n"%(prop,x["name"],m["name"],fl,hit[2]," ".join(hit[0]),hit[1].strip()," ".join("'%s'"%q for q in flags(m)),m["src"],os.path.join(HERE,"runtime/runtime.cpp"),x["name"]," ".join(hit[0])))
                viol.append((x["name"],p,True))
            else: unconf.append((m,x))
        unconf+=[(m,x) for x in xs[12:]]
    if not confirmed:
        for m,x in unconf:
            ref=[f for f in x["failures"] if f["result"]=="refuted"]
            if ref:
                p=save_replay(rep,prop,x["name"],"property %s, contract '%s' in %s: the verifier refutes these obligations; no concrete failing execution was found\n%s"%(prop,x["name"],m["name"],json.dumps(ref,indent=1))); viol.append((x["name"],p,False))
            elif x["status"]=="error": open_.append((m["name"],x["name"],"error "+x.get("error","")))
            else: open_.append((m["name"],x["name"],"undecided: "+"; ".join(f["kind"]+": "+f["label"]+" "+f.get("note","") for f in x["failures"])[:300]))
    if open_ and not viol:
        p=save_replay(rep,prop,open_[0][0]+open_[0][1],"property %s: the verifier no longer accepts these contracts (not discharged; no failing input found)\n%s"%(prop,"\n".join("%s: '%s': %s"%o for o in open_[:50]))); viol.append((open_[0][1],p,False))
    for o in open_[:20]: print("not discharged: %s: %s: %s"%o)
    native=None
    if TIER=="thorough" and not viol and not errs:
        native={"contracts":0,"inputs_tried":0,"inputs_accepted":0}
        def nat(m):
            exe=compile_native(m,work,True)
            if not exe: errs.append("native build of %s failed"%m["name"]); return
            r=sh([exe,"search",str(SEED),"4000","2","*"],timeout=2400)
            for l in r.stdout.split("\n"):
                if l.startswith("FOUND"):
                    n=l.split("|")[0][6:].strip()
                    if any(re.fullmatch(k["contract"],n) for k in known) : continue
                    p=save_replay(rep,prop,n,"native execution violates a contract the verifier accepted\n"+l); viol.append((n,p,True))
                g=re.search(r"tries=(\d+) accepted=(\d+)",l)
                if g: native["contracts"]+=1; native["inputs_tried"]+=int(g[1]); native["inputs_accepted"]+=int(g[2])
        with ThreadPoolExecutor(max(1,NC//2)) as ex: list(ex.map(nat,good))
    if not ncon and not viol: errs.append("no contracts were checked")
    dm=sorted(fns); tm=[]
    try:
        def strip(n):
            o="";d=0
            n=re.sub(r"operator(<=>|<<=|>>=|->|<=|>=|<<|>>|<|>)",lambda g:"operator"+g[1].translate({60:"\x01",62:"\x02"}),n)
            for c in n:
                if c=="<": d+=1
                elif c==">": d-=1
                elif d==0: o+=c
            o=o.split("(")[0] if "operator()" not in o else o.split("operator()")[0]+"operator()"
            return re.sub(r"^.* (?=dsga)","",o).translate({1:"<",2:">"}).strip()
        q=subprocess.run(["llvm-cxxfilt-18"] if shutil.which("llvm-cxxfilt-18") else ["c++filt"],input="\n".join(dm),stdout=subprocess.PIPE,text=True,errors="replace").stdout.split("\n")
        tm=sorted(set(strip(n) for n in q if n))
    except Exception: pass
    ev={"property":prop,"tier":TIER,"seed":SEED,"level":cfg.get("level","proof"),"coverage":{
        "obligations":nob,"discharged":ndis,"checker_cmd":"python3 /verif/check.py %s"%prop,
        "trusted_base":TRUSTED+cfg.get("trusted",[]),
        "contracts":ncon,"safety_obligations_discharged_by_constant_propagation":triv,"by_back_end":back,"solver_time_s":round(st,1),
        "functions_under_contract":len(dm),"function_templates":len(tm),"function_template_names":tm[:400],"external_functions_assumed":sorted(ext),"lemmas_and_callee_contracts_used":sorted(asm),
        "modules":[{"name":m["name"],"contracts":len(m["res"]),"compile_s":round(m["ctime"],1)} for m in good],
        "undecided":len(errs),"known_findings_hit":len(knownhit),"compile_s":round(tc-t0,1),"prove_s":round(tv-tc,1)},
        "assumptions":cfg.get("assumptions",[]),"wall_s":round(time.time()-t0,1),"violations":len(viol)}
    if native: ev["coverage"]["native_cross_check"]=native
    json.dump(ev,open(os.path.join(HERE,"evidence",prop+".json"),"w"),indent=1)
    print("%s: %d contracts, %d/%d obligations discharged (%s), %d library functions, %.0f s"%(prop,ncon,ndis,nob,", ".join("%s %d"%kv for kv in sorted(back.items())),len(dm),time.time()-t0))
    seen=set()
    for k,x in knownhit:
        if k["id"] not in seen: print("KNOWN-FINDING: property=%s %s"%(prop,k["what"])); seen.add(k["id"])
    for e in errs[:20]: print("undecided:",e)
    if viol:
        viol.sort(key=lambda v:not v[2])
        for n,p,c in viol[:5]: print("failed contract:",n)
        n,p,c=viol[0]; print("VIOLATION property=%s replay=%s%s"%(prop,p,"" if c else " no-failing-input-found")); return 1
    return 2 if errs else 0
if __name__=="__main__": sys.exit(main())
