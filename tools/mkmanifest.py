#!/usr/bin/env python3
# regenerates MANIFEST.json from checks_cfg.py and properties.jsonl
import json,sys,os
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,H)
from checks_cfg import CHECKS, NOT_APPLICABLE
ids=[json.loads(l)["id"] for l in open(H+"/properties.jsonl") if l.strip()]
T="deductive verification: contracts on the real header functions, verification conditions from clang's IR of /repo discharged by z3/cvc5/ring normalisation"
m={"version":1,"setup_cmd":"bash vcgen/build.sh","checks":[],"not_applicable":[],"notes":"every check regenerates all obligations from /repo/include/dsga.hxx on each run; see DESIGN.md"}
for i in ids:
    if i in CHECKS:
        c=CHECKS[i]; m["checks"].append({"property":i,"quick_cmd":"python3 check.py "+i,"thorough_cmd":"VERIF_TIER=thorough python3 check.py "+i,"technique":c.get("technique",T),"level":c.get("level","proof"),"level_note":c["note"]})
    else: m["not_applicable"].append({"property":i,"reason":NOT_APPLICABLE.get(i,"contracts under construction")})
json.dump(m,open(H+"/MANIFEST.json","w"),indent=1); open(H+"/MANIFEST.json","a").write("\n")
