#!/usr/bin/env python3
"""Enumerates the argument shapes accepted by the constructors (component counts whose prefix is too short and whose total suffices)
times the kinds of each argument, and writes the contract tables for C07 (vectors) and C08 (matrices)."""
import itertools, os
OUT=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","contracts","gen")
def shapes(N,mx=4):
    res=[]
    def go(pre,s):
        for n in range(1,mx+1):
            if s+n>=N: res.append(pre+[n])
            else: go(pre+[n],s+n)
    go([],0); return res
KS={1:["SC","OWN","SWZ"],2:["OWN","SWZ"],3:["OWN","SWZ"],4:["OWN","SWZ"]}
def desc(k,t,n): return "AS<%s>"%t if k=="SC" else "AV<%s,%s,%d>"%(k,t,n)
def nm(k,t,n): return {"SC":"s","OWN":"v","SWZ":"z","VIEW":"w","OVIEW":"o","VSWZ":"q","OVSWZ":"p"}[k]+("" if k=="SC" else str(n))+("" if t=="float" else "_"+t.replace("long long","ll"))
ent=[]
# full product of kinds, float
for N in (2,3,4):
    for sh in shapes(N):
        if sum(sh)==len(sh)==1: continue
        for ks in itertools.product(*[KS[n] for n in sh]):
            if len(sh)==1 and sh[0]==1: continue
            a=list(zip(ks,["float"]*9,sh)); ent.append(("float",N,a))
# mixed component types, pseudo-random but fixed
types=["int","double","bool","unsigned","float","long long"]; r=12345
def rnd(n):
    global r; r=(r*1103515245+12345)&0x7fffffff; return (r>>8)%n
mixed=[]
for N in (2,3,4):
    for sh in shapes(N):
        for rep in range(2):
            a=[(KS[n][rnd(len(KS[n]))],types[rnd(6)],n) for n in sh]; T=["float","double","int","unsigned","bool","long long"][rnd(6)]; mixed.append((T,N,a))
def line(M,e): T,N,a=e; return 'E("%s%d<%s>(%s)",%s<%s,%d,%s>)'%(M,N,T,",".join(nm(*x) for x in a),M,T,N,",".join(desc(*x) for x in a))
seen=set(); parts=[[] for _ in range(6)]; i=0
for M,L in (("vec",ent),("ovec",ent),("vec",mixed),("ovec",mixed)):
    for e in L:
        l=line(M,e)
        if l in seen: continue
        seen.add(l); parts[i%6].append(l); i+=1
with open(OUT+"/ctor7.h","w") as f:
    f.write("// generated by tools/gen_ctor.py\n")
    for p,L in enumerate(parts): f.write("#define CT7_%d \\\n %s\n"%(p," \\\n ".join(L)))
# matrices: shapes are far too many for the full product; every partition of the element count into scalars and vectors with varied order is sampled deterministically,
# plus the structured ones (all scalars, all columns, column swizzles, views)
KM={1:["SC","OWN","SWZ","VIEW"],2:["OWN","SWZ","VIEW","VSWZ"],3:["OWN","SWZ","OVIEW","VSWZ"],4:["OWN","SWZ","VIEW","OVSWZ"]}
mp=[[] for _ in range(5)]; i=0; seen=set()
for C in (2,3,4):
    for R in (2,3,4):
        cand=[[1]*(C*R),[R]*C]
        for rep in range(14):
            sh=[]; s=0
            while s<C*R:
                n=1+rnd(4); sh.append(n); s+=n
            cand.append(sh)
        for q,sh in enumerate(cand):
            for T in ("float","double"):
                for rep in range(2 if q<2 else 1):
                    ty=["float","float","double","int"] if q>7 else [T]
                    a=[(KM[n][rnd(len(KM[n]))],ty[rnd(len(ty))],n) for n in sh]
                    if q==0 and rep==0: a=[("SC",T,1) for n in sh]
                    if q==1 and rep==0: a=[("OWN",T,n) for n in sh]
                    l='E("mat%dx%d<%s>(%s)",mat<%s,%d,%d,%s>)'%(C,R,T,",".join(nm(*x) for x in a),T,C,R,",".join(desc(*x) for x in a))
                    if l in seen: continue
                    seen.add(l); mp[i%5].append(l); i+=1
with open(OUT+"/ctor8.h","w") as f:
    f.write("// generated by tools/gen_ctor.py\n")
    for p,L in enumerate(mp): f.write("#define CT8_%d \\\n %s\n"%(p," \\\n ".join(L)))
print(len(ent),len(mixed),sum(map(len,mp)))
