TRUSTED=["clang 18 front end (-O0, no FP contraction) as the extraction of the header to LLVM IR","vcgen: symbolic semantics of LLVM IR and its term simplifier (/verif/vcgen)","z3 5.x (bit-vector, floating-point and nonlinear real arithmetic), cvc5 where a goal is exported to it, vcgen's ring normaliser for real-arithmetic identities","IEEE-754 binary32/64 without excess precision; NaN payloads of arithmetic results unspecified","objects of one contract have pairwise distinct, concrete addresses (the memory layout is not quantified over)"]
A="all component values quantified; instantiated element types, lengths and operand kinds are those listed in contracts/%s; callee bodies expanded to the scalar operations, constant-trip loops unrolled exactly"
def L(f,extra=""): return A%f+(". "+extra if extra else "")
LIBM="standard library functions are uninterpreted (assumed pure and total), so the lift is proved for whatever they return"
REAL="floating-point operations are read as operations on the reals (rounding and overflow not modelled)"
CHECKS={}
def c(id,parts,note,file=None,**k):
    f=file or id.lower()+".cxx"; CHECKS[id]=dict(modules=[{"file":f,"parts":parts}],note=L(f,note),**k)
c("C01",8,"floating-point arithmetic is IEEE bit-exact")
c("C02",11,"every writable left operand kind against independent and overlapping right operands; preconditions exclude operands the scalar operation does not define")
c("C03",6,"all 340 swizzle words of owning vectors and of views are under contract, for float and one narrower/wider type per part")
c("C04",8,"known finding KF1 (same-named swizzle of another vector) is listed and not discharged")
c("C05",7,"views are placed at every offset of a guarded buffer, whose other elements are part of the postcondition")
c("C06",8,"iterator positions and offsets are symbolic within the documented range")
c("C07",9,"argument shapes: every way to compose lengths 1-4 that compiles, from scalars, vectors, swizzles and matrices")
c("C08",8,"81 resize pairs, array and pointer sources, float/double mixes")
c("C09",3,"indices symbolic within the shape")
c("C10",6,"floating-point comparisons are IEEE-exact, NaN included")
c("C11",4,"rounding against an SMT-LIB roundToIntegral specification; at run time the library functions floor/ceil/trunc/round have their IEEE meaning by assumption")
c("C12",7,"the constant-evaluated branch is selected by defining __builtin_is_constant_evaluated before the header is included; fmod's loops are cut by invariants (partial correctness: that they terminate is not proved), first exactly and then over the reals with rounding, no overflow included",proofs=["fmod.v","round.v"])
c("C13",7,"integer abs excludes the minimum of a signed type")
c("C14",5,REAL+" for the interpolation formula; the selection and boundary behaviour is IEEE-exact")
c("C15",6,LIBM)
c("C16",3,"bit-exact")
c("C17",2,"bit-exact, both the run-time and the constant-evaluated branch")
c("C18",6,REAL+"; the square root is an uninterpreted nonnegative root")
c("C19",6,REAL)
c("C20",1,REAL)
c("C21",5,"floating-point arithmetic is IEEE bit-exact")
c("C22",6,"all 2^32 shift counts symbolic; floating-point sums "+REAL)
c("C23",2,"view offsets symbolic inside one buffer; exceptional exits are part of the contract")
c("C24",5,"parts 0-3 with assertions compiled out (std::out_of_range is the specified exit), part 4 with assertions enabled")
c("C25",2,"bit-exact element moves")
c("C26",4,"special values, domain, exactness of the scaling and the lifts on every bit pattern; run-time std::sqrt is assumed correctly rounded. Part 2: accuracy of the reciprocal root by interval branch and bound over every normal argument; the iterations are pinned to formulas whose precision (2^-48, float 2^-22) proofs/rsqrt.v proves; that of the double-double correction is only measured natively. Part 3: whatever the constant-evaluated root returns is a root to the stated error (invariants on the Newton loops, reals with rounding, facts about one step from proofs/sqrt.v); that the iteration terminates is not proved",proofs=["eft.v","sqrt.v","rsqrt.v"])
c("C27",13,"the type rules are predicates of the C++ type system (requires-expressions over every swizzle word, component-type pair and length), evaluated by the compiler on the current header; known finding KF2 is listed")
NOSAFE=("C02","C10","C15","C27","C28","C29")
CHECKS["C28"]={"safety_only":True,"modules":[{"file":"c28.cxx","parts":2}]+[dict(m) for p in sorted(CHECKS) if p not in NOSAFE for m in CHECKS[p]["modules"]],"note":"every memory access, signed overflow, shift, division, conversion, assertion and exceptional exit reached by the contracts of the listed modules generates an obligation; only these are checked here. Trusted: the contract preconditions describe the documented preconditions. Modules of C02, C10, C15 check the same obligations in their own checks"}
for _m in CHECKS["C28"]["modules"]:
    if _m["file"]=="c26.cxx": _m["parts"]=2 # the loop contracts of parts 2 and 3 check their own memory accesses
c("C29",3,"part 0: exact-arithmetic identities (ring normaliser), "+REAL+"; part 1: the same with the error-free transformations replaced by their contract (leading term arbitrary, error exact), which proofs/eft.v proves of the formulas the code is pinned to; part 2: the operands of quick_two_sum are ordered in every product of normalised operands (rounded reals); in sums and quotients that is assumed",proofs=["eft.v"])
NOT_APPLICABLE={}
