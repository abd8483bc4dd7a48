#!/usr/bin/env python3
# writes contracts/gen/swz.h: one accessor per swizzle name, and lists of the names by source length and word length
import itertools,os
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
o=["// generated by tools/gen_swz.py: what each swizzle name spells","#pragma once","#include <cstddef>"]
L="xyzw"
for k in range(1,5):
    for w in itertools.product(range(4),repeat=k):
        n="".join(L[i] for i in w)
        o.append("struct S_%s { template<class V> static constexpr auto& get(V&v) noexcept { return v.%s; } static constexpr std::size_t p[%d]={%s}; static constexpr std::size_t n=%d, need=%d; static constexpr bool w=%s; };"%(n,n,k,",".join(map(str,w)),k,max(w)+1,"true" if len(set(w))==k else "false"))
for s in range(1,5):
    for k in range(1,5):
        ws=list(itertools.product(range(s),repeat=k))
        for nm,f in(("R",lambda w:True),("W",lambda w:len(set(w))==k),("N",lambda w:len(set(w))<k)):
            o.append("#define %s%d_%d(M,...) %s"%(nm,s,k," ".join("M(__VA_ARGS__,S_%s)"%"".join(L[i] for i in w) for w in ws if f(w))))
open(H+"/contracts/gen/swz.h","w").write("\n".join(o)+"\n")
