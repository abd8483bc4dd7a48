// Hash-consed term DAG used by the verification-condition generator.
// Sorts: Bool, BV(w<=128 via structure; constants <=64), F32, F64, Ptr.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <functional>
#include <stdexcept>

enum class Sk : uint8_t { Bool, BV, F32, F64, Ptr };
struct Sort { Sk k; uint16_t w; bool operator==(const Sort&o) const {return k==o.k&&w==o.w;} bool operator!=(const Sort&o) const {return !(*this==o);} };
inline Sort SBool(){return {Sk::Bool,1};} inline Sort SBV(unsigned w){return {Sk::BV,(uint16_t)w};}
inline Sort SF32(){return {Sk::F32,32};} inline Sort SF64(){return {Sk::F64,64};} inline Sort SPtr(){return {Sk::Ptr,64};}
inline bool isF(Sort s){return s.k==Sk::F32||s.k==Sk::F64;}

enum class Op : uint8_t {
  VAR, CONST,                       // CONST: Bool/BV/F (bits in val)
  PTR,                              // val=object id, arg0 = BV64 offset
  NOT, AND, OR, EQ, ITE,            // EQ on any sort (F: SMT '=' i.e. NaN==NaN, +0!=-0)
  ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, BAND, BOR, BXOR, SHL, LSHR, ASHR,
  CONCAT, EXTRACT, ZEXT, SEXT, ULT, ULE, SLT, SLE,
  FADD, FSUB, FMUL, FDIV, FREM, FNEG, FABS, FSQRT, FMA, FRTI, FEQ, FLT, FLE, FISNAN,
  FCVT, SITOF, UITOF, FTOSI, FTOUI, BITS2F, F2BITS, UF, REQ // REQ: equality as real numbers (native: approximate)
};

struct Term {
  Op op; Sort s; uint64_t val=0; uint32_t id=0; std::string name; std::vector<const Term*> a;
};
typedef const Term* T;

struct Unsupported : std::runtime_error { using std::runtime_error::runtime_error; };

struct TermMgr {
  std::unordered_multimap<size_t,T> tab; std::vector<T> all; uint32_t fresh=0;
  static TermMgr& g(){ static TermMgr m; return m; }
  T mk(Op op, Sort s, std::vector<T> a, uint64_t val=0, const std::string&name="");
};

// raw constructors / simplifying constructors
T mkVar(const std::string&, Sort);
T mkFresh(const std::string&, Sort);
T mkBool(bool); T mkBV(uint64_t, unsigned w); T mkF(uint64_t bits, Sort);
inline bool isConst(T t){return t->op==Op::CONST;}
inline bool isTrue(T t){return t->op==Op::CONST&&t->s.k==Sk::Bool&&t->val==1;}
inline bool isFalse(T t){return t->op==Op::CONST&&t->s.k==Sk::Bool&&t->val==0;}
T mkNot(T); T mkAnd(T,T); T mkOr(T,T); T mkEq(T,T); T mkIte(T,T,T);
T mkBin(Op,T,T);         // BV binary
T mkCmp(Op,T,T);         // ULT..SLE
T mkConcat(T hi,T lo); T mkExtract(T,unsigned hi,unsigned lo); T mkZext(T,unsigned w); T mkSext(T,unsigned w);
T mkB2BV(T b,unsigned w); T mkBV2B(T bv1or8); // bool <-> bv (bv!=0 on bit 0)
T mkFBin(Op,T,T); T mkFNeg(T); T mkFAbs(T); T mkFSqrt(T); T mkFma(T,T,T); T mkRti(unsigned mode,T);
T mkFCmp(Op,T,T); T mkIsNan(T);
T mkFcvt(T,Sort); T mkIToF(Op,T,Sort); T mkFToI(Op,T,unsigned w);
T mkBits2F(T); T mkF2Bits(T); T mkUF(const std::string&,Sort,std::vector<T>); T mkReq(T,T);
T mkPtr(uint64_t obj,T off); inline T mkNull(){return mkPtr(0,mkBV(0,64));}
std::string show(T,int depth=6);
bool lessSigned(uint64_t,uint64_t,unsigned);
inline uint64_t maskw(unsigned w){return w>=64?~0ull:((1ull<<w)-1);}
inline int64_t sx(uint64_t v,unsigned w){ if(w>=64) return (int64_t)v; uint64_t m=1ull<<(w-1); v&=maskw(w); return (int64_t)((v^m)-m);}
