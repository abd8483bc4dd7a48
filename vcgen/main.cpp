#include <fcntl.h>
#include <sys/file.h>
#include <unistd.h>
// vcgen: reads clang bitcode of a contract module, generates and discharges verification conditions.
#include "exec.h"
#include "poly.h"
#include "ibb.h"
#include <z3++.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Constants.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <chrono>
#include <iostream>
#include <fstream>
#include <sstream>
#include <regex>
#include <cstring>
#include <cmath>
using namespace std;
static double now(){ return chrono::duration<double>(chrono::steady_clock::now().time_since_epoch()).count(); }
static unsigned TMO=20000; static double solverTime=0;
static long* failCount; // shared between workers: once several contracts are refuted the tree is broken, and further counterexamples are not worth long searches
static unsigned ptmo(){ return failCount&&*failCount>=4?std::min(TMO,1500u):TMO; }

static thread_local bool lightRound=false; // first attempt of round mode: error bounds only
enum Mode { ABS, PRECISE, REAL, UFM, ROUND }; // ROUND: reals, each operation followed by a rounding of which only theorems of IEEE 754 arithmetic are used
// ABS: floating-point arithmetic results are arbitrary values; UFM: arbitrary functions of their arguments (both sound over-approximations); PRECISE: IEEE; REAL: real arithmetic
struct Z {
  z3::context& c; Mode m; unordered_map<T,z3::expr> memo; z3::expr_vector side; map<string,z3::func_decl> fd; z3::expr rne; bool rnd=false,light=false;
  Z(z3::context&c_,Mode m_):c(c_),m(m_==ROUND?REAL:m_),side(c_),rne(c_),rnd(m_==ROUND),light(lightRound){ rne=z3::expr(c,Z3_mk_fpa_rne(c)); }
  z3::sort srt(Sort s){ switch(s.k){case Sk::Bool:return c.bool_sort();case Sk::BV:return c.bv_sort(s.w);case Sk::F32:return m==REAL?c.real_sort():c.fpa_sort(8,24);case Sk::F64:return m==REAL?c.real_sort():c.fpa_sort(11,53);default:throw Unsupported("pointer term in VC");} }
  z3::expr W(Z3_ast a){ c.check_error(); return z3::expr(c,a); }
  z3::expr rmode(unsigned k){ return W(k==0?Z3_mk_fpa_rne(c):k==1?Z3_mk_fpa_rna(c):k==2?Z3_mk_fpa_rtp(c):k==3?Z3_mk_fpa_rtn(c):Z3_mk_fpa_rtz(c)); }
  z3::expr freshOf(T t){ return c.constant(("t!"+to_string(t->id)).c_str(),srt(t->s)); }
  z3::expr tr(T t){ auto it=memo.find(t); if(it!=memo.end()) return it->second; vector<T> st{t}; // iterative post-order to avoid deep recursion
    while(!st.empty()){ T x=st.back(); if(memo.count(x)){st.pop_back();continue;} bool ready=true; if(!(m==ABS&&isArith(x))&&!(m==REAL&&x->op==Op::BITS2F)) for(T y:x->a) if(!memo.count(y)&&y->s.k!=Sk::Ptr){ st.push_back(y); ready=false; } if(!ready) continue; memo.emplace(x,tr0(x)); st.pop_back(); }
    return memo.at(t); }
  static bool isArith(T t){ switch(t->op){case Op::FADD:case Op::FSUB:case Op::FMUL:case Op::FDIV:case Op::FREM:case Op::FSQRT:case Op::FMA:return true; default:return false;} }
  z3::expr A(T t,int i){ return memo.at(t->a[i]); }
  static double fv(T t){ if(t->s.k==Sk::F32){ uint32_t u=t->val; float f; memcpy(&f,&u,4); return f;} double d; uint64_t u=t->val; memcpy(&d,&u,8); return d; }
  z3::expr uf(T t,const string&n){ z3::sort_vector d(c); vector<z3::expr> as; string key=n; for(T x:t->a){ d.push_back(srt(x->s)); as.push_back(memo.at(x)); key+="_"+to_string((int)x->s.k)+"_"+to_string(x->s.w); } if(as.empty()) return c.constant(n.c_str(),srt(t->s)); auto it=fd.find(key); if(it==fd.end()) it=fd.emplace(key,c.function(key.c_str(),d,srt(t->s))).first; z3::expr_vector ev(c); for(auto&e:as) ev.push_back(e); return it->second(ev); }
  z3::expr tr0(T t){
    Op o=t->op; if(m==REAL&&(isF(t->s)||o==Op::FEQ||o==Op::FLT||o==Op::FLE||o==Op::FISNAN||o==Op::REQ||(o==Op::EQ&&isF(t->a[0]->s))||o==Op::F2BITS||o==Op::FTOSI||o==Op::FTOUI)) return trReal(t);
    switch(o){
      case Op::VAR: return c.constant(t->name.c_str(),srt(t->s));
      case Op::CONST: if(t->s.k==Sk::Bool) return c.bool_val(t->val!=0); if(t->s.k==Sk::BV) return c.bv_val((uint64_t)t->val,t->s.w); { z3::expr b=c.bv_val((uint64_t)t->val,t->s.w); return W(Z3_mk_fpa_to_fp_bv(c,b,srt(t->s))); }
      case Op::NOT: return !A(t,0); case Op::AND: return A(t,0)&&A(t,1); case Op::OR: return A(t,0)||A(t,1); case Op::EQ: return A(t,0)==A(t,1); case Op::ITE: return z3::ite(A(t,0),A(t,1),A(t,2));
      case Op::ADD: return A(t,0)+A(t,1); case Op::SUB: return A(t,0)-A(t,1); case Op::MUL: return A(t,0)*A(t,1); case Op::UDIV: return z3::udiv(A(t,0),A(t,1)); case Op::SDIV: return A(t,0)/A(t,1); case Op::UREM: return z3::urem(A(t,0),A(t,1)); case Op::SREM: return z3::srem(A(t,0),A(t,1));
      case Op::BAND: return A(t,0)&A(t,1); case Op::BOR: return A(t,0)|A(t,1); case Op::BXOR: return A(t,0)^A(t,1); case Op::SHL: return z3::shl(A(t,0),A(t,1)); case Op::LSHR: return z3::lshr(A(t,0),A(t,1)); case Op::ASHR: return z3::ashr(A(t,0),A(t,1));
      case Op::CONCAT: return z3::concat(A(t,0),A(t,1)); case Op::EXTRACT: return A(t,0).extract(t->val>>16,t->val&0xffff); case Op::ZEXT: return z3::zext(A(t,0),t->s.w-t->a[0]->s.w); case Op::SEXT: return z3::sext(A(t,0),t->s.w-t->a[0]->s.w);
      case Op::ULT: return z3::ult(A(t,0),A(t,1)); case Op::ULE: return z3::ule(A(t,0),A(t,1)); case Op::SLT: return z3::slt(A(t,0),A(t,1)); case Op::SLE: return z3::sle(A(t,0),A(t,1));
      case Op::FADD: case Op::FSUB: case Op::FMUL: case Op::FDIV: case Op::FSQRT: case Op::FMA: case Op::FREM:
        if(m==ABS) return freshOf(t); if(m==UFM) return uf(t,"fp."+to_string((int)o));
        if(o==Op::FADD) return W(Z3_mk_fpa_add(c,rne,A(t,0),A(t,1))); if(o==Op::FSUB) return W(Z3_mk_fpa_sub(c,rne,A(t,0),A(t,1))); if(o==Op::FMUL) return W(Z3_mk_fpa_mul(c,rne,A(t,0),A(t,1))); if(o==Op::FDIV) return W(Z3_mk_fpa_div(c,rne,A(t,0),A(t,1))); if(o==Op::FSQRT) return W(Z3_mk_fpa_sqrt(c,rne,A(t,0))); if(o==Op::FMA) return W(Z3_mk_fpa_fma(c,rne,A(t,0),A(t,1),A(t,2))); throw Unsupported("frem");
      case Op::FNEG: return W(Z3_mk_fpa_neg(c,A(t,0))); case Op::FABS: return W(Z3_mk_fpa_abs(c,A(t,0))); case Op::FRTI: return W(Z3_mk_fpa_round_to_integral(c,rmode(t->val),A(t,0)));
      case Op::FEQ: return W(Z3_mk_fpa_eq(c,A(t,0),A(t,1))); case Op::FLT: return W(Z3_mk_fpa_lt(c,A(t,0),A(t,1))); case Op::FLE: return W(Z3_mk_fpa_leq(c,A(t,0),A(t,1))); case Op::FISNAN: return W(Z3_mk_fpa_is_nan(c,A(t,0)));
      case Op::REQ: return W(Z3_mk_fpa_eq(c,A(t,0),A(t,1)));
      case Op::FCVT: return W(Z3_mk_fpa_to_fp_float(c,rne,A(t,0),srt(t->s))); case Op::SITOF: return W(Z3_mk_fpa_to_fp_signed(c,rne,A(t,0),srt(t->s))); case Op::UITOF: return W(Z3_mk_fpa_to_fp_unsigned(c,rne,A(t,0),srt(t->s)));
      case Op::FTOSI: return W(Z3_mk_fpa_to_sbv(c,rmode(4),A(t,0),t->s.w)); case Op::FTOUI: return W(Z3_mk_fpa_to_ubv(c,rmode(4),A(t,0),t->s.w));
      case Op::BITS2F: return W(Z3_mk_fpa_to_fp_bv(c,A(t,0),srt(t->s)));
      case Op::F2BITS: { z3::expr y=c.constant(("bits!"+to_string(t->id)).c_str(),srt(t->s)); side.push_back(W(Z3_mk_fpa_to_fp_bv(c,y,srt(t->a[0]->s)))==A(t,0)); return y; }
      case Op::UF: return uf(t,"uf."+t->name);
      default: throw Unsupported("smt translation of "+show(t,2)); } }
  // round to nearest, unbounded exponent range (that no operation of the code overflows is a separate obligation)
  z3::expr q2(int k){ T t=mkF(0,SF64()); (void)t; string p="1"; vector<int> d{1}; for(int i=0;i<abs(k);i++){ int cy=0; for(auto&x:d){ x=x*2+cy; cy=x/10; x%=10; } if(cy) d.push_back(cy); } p=""; for(auto it=d.rbegin();it!=d.rend();++it) p+=char('0'+*it); z3::expr q=c.real_val(p.c_str()); return k>=0?q:(c.real_val(1)/q).simplify(); }
  void finite(z3::expr x,Sort s){ if(!rnd) return; z3::expr mx=s.k==Sk::F32?(q2(128)-q2(104)).simplify():(q2(1024)-q2(971)).simplify(); side.push_back(x<=mx&&x>=-mx); }
  z3::expr rounded(T t,z3::expr e,vector<z3::expr> ops,bool tiny){ Sort s=t->s; if(light) ops.clear(); z3::expr o=c.constant(("rd!"+to_string(t->id)).c_str(),c.real_sort()); z3::expr u=q2(s.k==Sk::F32?-24:-53), z=c.real_val(0); z3::expr ae=z3::ite(e>=0,e,-e); z3::expr eta=tiny?q2(s.k==Sk::F32?-150:-1075):z;
    side.push_back(o-e<=u*ae+eta&&e-o<=u*ae+eta); if(!light) ops.push_back(z); for(auto&x:ops){ side.push_back(z3::implies(e>=x,o>=x)&&z3::implies(e<=x,o<=x)); side.push_back(z3::implies(e>=-x,o>=-x)&&z3::implies(e<=-x,o<=-x)); } return o; }
  static int pow2of(T t,bool&ok){ ok=false; if(!isConst(t)) return 0; double v=fabs(fv(t)); int e; if(v>0&&std::isfinite(v)&&frexp(v,&e)==0.5){ ok=true; return e-1; } return 0; }
  z3::expr trRound(T t){ z3::expr a=A(t,0); z3::expr b=t->a.size()>1?A(t,1):a; switch(t->op){
      case Op::FADD: { z3::expr e=a+b; z3::expr o=rounded(t,e,{a,b},false); if(!light) side.push_back(z3::implies((-b<=2*a&&a<=-2*b)||(b<=-2*a&&-a<=2*b)||a==b,o==e)); return o; }
      case Op::FSUB: { z3::expr e=a-b; z3::expr o=rounded(t,e,{a,b},false); if(!light) side.push_back(z3::implies((b<=2*a&&a<=2*b)||(-b<=-2*a&&-a<=-2*b)||a==-b,o==e)); return o; }
      case Op::FMUL: { bool k1,k0; int p1=pow2of(t->a[1],k1),p0=pow2of(t->a[0],k0); z3::expr e=a*b; if((k1&&p1>=0)||(k0&&p0>=0)) return e; z3::expr o=rounded(t,e,{},true); if(k1&&p1==-1) side.push_back(z3::implies(tr(mkUF(t->s.k==Sk::F32?"v_uf_halfrep_f":"v_uf_halfrep_d",SBool(),{t->a[0]})),o==e)); if(k0&&p0==-1) side.push_back(z3::implies(tr(mkUF(t->s.k==Sk::F32?"v_uf_halfrep_f":"v_uf_halfrep_d",SBool(),{t->a[1]})),o==e)); return o; }
      case Op::FDIV: { bool k1; int p1=pow2of(t->a[1],k1); z3::expr e=a/b; if(k1&&p1<=0) return e; z3::expr o=rounded(t,e,{},true); if(k1&&p1==1) side.push_back(z3::implies(tr(mkUF(t->s.k==Sk::F32?"v_uf_halfrep_f":"v_uf_halfrep_d",SBool(),{t->a[0]})),o==e)); return o; }
      case Op::FSQRT: { z3::expr q=c.constant(("sqrt!"+to_string(t->id)).c_str(),c.real_sort()); side.push_back(z3::implies(a>=0,q>=0&&q*q==a)); return rounded(t,q,{},true); }
      case Op::FCVT: return rounded(t,a,{},true);
      default: throw Unsupported("no rounding rule: "+show(t,2)); } }
  static bool isInf(T t){ return isConst(t)&&std::isinf(fv(t)); }
  z3::expr trReal(T t){ if(rnd&&(t->op==Op::FADD||t->op==Op::FSUB||t->op==Op::FMUL||t->op==Op::FDIV||t->op==Op::FSQRT||t->op==Op::FMA||(t->op==Op::FCVT&&t->s.k==Sk::F32&&t->a[0]->s.k==Sk::F64))) return trRound(t);
    if(rnd&&(t->op==Op::VAR||t->op==Op::BITS2F)){ z3::expr v=t->op==Op::VAR?c.constant(t->name.c_str(),c.real_sort()):t->a[0]->op==Op::VAR?c.constant(("r_"+t->a[0]->name).c_str(),c.real_sort()):c.constant(("r!"+to_string(t->id)).c_str(),c.real_sort()); finite(v,t->s); return v; }
    switch(t->op){
      case Op::CONST: { double v=fv(t); if(!std::isfinite(v)) return c.constant(("nonfinite!"+to_string(t->id)).c_str(),c.real_sort()); int e; double mm=frexp(v,&e); long long mi=(long long)ldexp(mm,53); int sh=e-53; z3::expr r=c.real_val(to_string(mi).c_str()); if(sh==0) return r; z3::expr two=c.real_val("2"); string p="1"; // big power of two as decimal string
          { vector<int> d{1}; for(int i=0;i<abs(sh);i++){ int cy=0; for(auto&x:d){ x=x*2+cy; cy=x/10; x%=10; } if(cy) d.push_back(cy); } p=""; for(auto it=d.rbegin();it!=d.rend();++it) p+=char('0'+*it); }
          z3::expr q=c.real_val(p.c_str()); return (sh>0?r*q:r/q).simplify(); }
      case Op::BITS2F: if(t->a[0]->op==Op::VAR) return c.constant(("r_"+t->a[0]->name).c_str(),c.real_sort()); return c.constant(("r!"+to_string(t->id)).c_str(),c.real_sort());
      case Op::VAR: return c.constant(t->name.c_str(),c.real_sort()); case Op::ITE: return z3::ite(A(t,0),A(t,1),A(t,2));
      case Op::FADD: return A(t,0)+A(t,1); case Op::FSUB: return A(t,0)-A(t,1); case Op::FMUL: return A(t,0)*A(t,1); case Op::FDIV: return A(t,0)/A(t,1); case Op::FNEG: return -A(t,0); case Op::FABS: return z3::ite(A(t,0)>=0,A(t,0),-A(t,0)); case Op::FMA: return A(t,0)*A(t,1)+A(t,2);
      case Op::FSQRT: { z3::expr s=c.constant(("sqrt!"+to_string(t->id)).c_str(),c.real_sort()); side.push_back(z3::implies(A(t,0)>=0,s>=0&&s*s==A(t,0))); return s; }
      case Op::FCVT: if(t->s.k==Sk::F32&&t->a[0]->s.k==Sk::F64) return c.function("narrow",c.real_sort(),c.real_sort())(A(t,0)); return A(t,0); case Op::FRTI: { z3::expr x=A(t,0); z3::expr fl=z3::to_real(z3::expr(c,Z3_mk_real2int(c,x))); z3::expr ce=-z3::to_real(z3::expr(c,Z3_mk_real2int(c,-x))); if(t->val==3) return fl; if(t->val==2) return ce; if(t->val==4) return z3::ite(x>=0,fl,ce); throw Unsupported("real rounding"); }
      case Op::SITOF: case Op::UITOF: { z3::expr b=A(t,0); return z3::to_real(z3::expr(c,Z3_mk_bv2int(c,b,t->op==Op::SITOF))); }
      case Op::FISNAN: return c.bool_val(false); 
      case Op::FEQ: case Op::EQ: case Op::REQ: if(isInf(t->a[0])||isInf(t->a[1])) return c.bool_val(false); return A(t,0)==A(t,1);
      case Op::FLT: case Op::FLE: { if(isInf(t->a[0])) return c.bool_val(fv(t->a[0])<0); if(isInf(t->a[1])) return c.bool_val(fv(t->a[1])>0); return t->op==Op::FLT?A(t,0)<A(t,1):A(t,0)<=A(t,1); }
      case Op::UF: if(rnd&&t->a.size()==2&&t->name=="v_uf_xmul") return A(t,0)*A(t,1); if(rnd&&t->a.size()==2&&t->name=="v_uf_xadd") return A(t,0)+A(t,1); if(rnd&&t->a.size()==2&&t->name=="v_uf_xsub") return A(t,0)-A(t,1); return uf(t,"uf."+t->name); // exact real arithmetic of a specification
      default: throw Unsupported("no real-arithmetic meaning: "+show(t,2)); } }
};

struct Result { int r=-1; string backend; vector<uint64_t> model; bool hasModel=false; string note; }; // r: 0 proved 1 refuted -1 unknown
static int z3check(const vector<T>&hyp,T goal,Mode m,unsigned tmo,const vector<Input>*ins,Result*res){
  double t0=now(); int out=-1;
  try { z3::context c; Z z(c,m); if(m==ROUND) m=REAL; z3::solver s=(m==REAL)?z3::tactic(c,"qfnra-nlsat").mk_solver():z3::solver(c);
    bool hasUf=false; if(m==REAL){ s=z3::solver(c); }
    (void)hasUf; z3::params p(c); p.set("timeout",tmo); s.set(p);
    for(T h:hyp) s.add(z.tr(h)); if(goal) s.add(!z.tr(goal)); for(auto e:z.side) s.add(e);
    auto r=s.check(); out=r==z3::unsat?0:r==z3::sat?1:-1;
    if(out==1&&ins&&res){ auto mo=s.get_model(); res->hasModel=true; for(auto&i:*ins){ uint64_t bits=0; if(m==REAL&&(i.type=="f32"||i.type=="f64")){ z3::expr v=mo.eval(c.constant(("r_"+i.var->name).c_str(),c.real_sort()),true); double d=0; try { d=v.as_double(); } catch(...) { try { string q=v.get_decimal_string(17); if(!q.empty()&&q.back()=='?') q.pop_back(); d=strtod(q.c_str(),nullptr);} catch(...){} } if(i.type=="f32"){ float f=d; uint32_t u; memcpy(&u,&f,4); bits=u; } else memcpy(&bits,&d,8); }
        else { z3::expr v=mo.eval(c.constant(i.var->name.c_str(),c.bv_sort(i.var->s.w)),true); uint64_t u=0; if(v.is_numeral_u64(u)) bits=u; } res->model.push_back(bits); } }
  } catch(z3::exception&e){ out=-1; if(res) res->note=e.msg(); } catch(Unsupported&e){ out=-1; if(res) res->note=e.what(); }
  solverTime+=now()-t0; return out; }

// substitute decided boolean atoms
static T subst(T t,const unordered_map<T,T>&m,unordered_map<T,T>&memo){ auto it=memo.find(t); if(it!=memo.end()) return it->second; auto k=m.find(t); if(k!=m.end()) return memo[t]=k->second; if(t->a.empty()) return memo[t]=t; vector<T> a; bool ch=false; for(T x:t->a){ T y=subst(x,m,memo); a.push_back(y); ch|=y!=x; } T r=t; if(ch) switch(t->op){
    case Op::NOT:r=mkNot(a[0]);break;case Op::AND:r=mkAnd(a[0],a[1]);break;case Op::OR:r=mkOr(a[0],a[1]);break;case Op::EQ:r=mkEq(a[0],a[1]);break;case Op::ITE:r=mkIte(a[0],a[1],a[2]);break;
    case Op::FADD:case Op::FSUB:case Op::FMUL:case Op::FDIV:r=mkFBin(t->op,a[0],a[1]);break;case Op::FNEG:r=mkFNeg(a[0]);break;case Op::FABS:r=mkFAbs(a[0]);break;case Op::FSQRT:r=mkFSqrt(a[0]);break;case Op::FMA:r=mkFma(a[0],a[1],a[2]);break;case Op::FRTI:r=mkRti(t->val,a[0]);break;
    case Op::FEQ:case Op::FLT:case Op::FLE:r=mkFCmp(t->op,a[0],a[1]);break;case Op::FISNAN:r=mkIsNan(a[0]);break;case Op::FCVT:r=mkFcvt(a[0],t->s);break;case Op::SITOF:case Op::UITOF:r=mkIToF(t->op,a[0],t->s);break;case Op::REQ:r=mkReq(a[0],a[1]);break;case Op::UF:r=mkUF(t->name,t->s,a);break;
    case Op::ADD:case Op::SUB:case Op::MUL:case Op::UDIV:case Op::SDIV:case Op::UREM:case Op::SREM:case Op::BAND:case Op::BOR:case Op::BXOR:case Op::SHL:case Op::LSHR:case Op::ASHR: r=mkBin(t->op,a[0],a[1]);break; case Op::CONCAT:r=mkConcat(a[0],a[1]);break;case Op::EXTRACT:r=mkExtract(a[0],t->val>>16,t->val&0xffff);break;case Op::ZEXT:r=mkZext(a[0],t->s.w);break;case Op::SEXT:r=mkSext(a[0],t->s.w);break;case Op::ULT:case Op::ULE:case Op::SLT:case Op::SLE:r=mkCmp(t->op,a[0],a[1]);break;
    case Op::FTOSI:case Op::FTOUI:r=mkFToI(t->op,a[0],t->s.w);break;case Op::BITS2F:r=mkBits2F(a[0]);break;case Op::F2BITS:r=mkF2Bits(a[0]);break;
    default: r=t; } return memo[t]=r; }
static T substM(T t,const unordered_map<T,T>&m);
// vacuity guard: a concrete input that satisfies the precondition, if an easy one exists
static bool easyCover(T pc,const vector<Input>&ins){ for(int k=0;k<10;k++){ unordered_map<T,T> m; int i=0; for(auto&in:ins){ i++; uint64_t v; int q=k==0?1:k==1?0:k==2?i:k==3?-1:k==4?(i%2):k==5?2:(i*(k*7+3)+k)%5; if(in.type=="f32"){ float f=q; uint32_t u; memcpy(&u,&f,4); v=u; } else if(in.type=="f64"){ double d=q; memcpy(&v,&d,8); } else v=(uint64_t)(int64_t)q; m[in.var]=mkBV(v,in.var->s.w); } if(isTrue(substM(pc,m))) return true; } return false; }
static T substM(T t,const unordered_map<T,T>&m){ unordered_map<T,T> memo; return subst(t,m,memo); }
// real semantics clean-up: isnan -> false, comparisons with infinities decided
static void realAtoms(T t,unordered_map<T,T>&m,unordered_set<T>&seen){ if(!seen.insert(t).second) return; if(t->op==Op::FISNAN) m[t]=mkBool(false); if(t->op==Op::FEQ&&(Z::isInf(t->a[0])||Z::isInf(t->a[1]))) m[t]=mkBool(false); if((t->op==Op::FLT||t->op==Op::FLE)){ if(Z::isInf(t->a[0])) m[t]=mkBool(Z::fv(t->a[0])<0); else if(Z::isInf(t->a[1])) m[t]=mkBool(Z::fv(t->a[1])>0); } if(t->op==Op::EQ&&isF(t->a[0]->s)&&(Z::isInf(t->a[0])||Z::isInf(t->a[1]))) m[t]=mkBool(false); for(T x:t->a) realAtoms(x,m,seen); }
static T findAtom(T t,unordered_set<T>&seen){ // an ITE condition's atom, outermost first
  if(!seen.insert(t).second) return nullptr; if(t->op==Op::ITE){ T c=t->a[0]; while(true){ if(c->op==Op::NOT) c=c->a[0]; else if((c->op==Op::AND||c->op==Op::OR)) c=c->a[0]; else if(c->op==Op::EQ&&c->a[0]->s.k==Sk::Bool) c=c->a[0]; else if(c->op==Op::ITE) c=c->a[0]; else break; } unordered_set<T> s2; T inner=nullptr; for(T x:c->a){ inner=findAtom(x,s2); if(inner) return inner; } return c; }
  for(T x:t->a) if(T r=findAtom(x,seen)) return r; return nullptr; }
static map<string,long> backends;
static double realDeadline=0;
static void conjuncts(T h,vector<T>&o){ if(h->op==Op::AND){ conjuncts(h->a[0],o); conjuncts(h->a[1],o);} else o.push_back(h); }
static bool divisorsOk(const vector<T>&hyp,T goal,Result&res,const vector<Input>*ins){ vector<T> ds; collectDivisors(goal,ds); set<T> done; vector<T> hs; for(T h:hyp) conjuncts(h,hs);
  for(T d:ds){ if(!done.insert(d).second) continue; if(isConst(d)&&Z::fv(d)!=0) continue; T nz=mkNot(mkFCmp(Op::FEQ,d,mkF(0,d->s))); bool ok=isTrue(nz); for(T h:hs){ if(ok) break; if(h==nz) ok=true; 
      try { if(h->op==Op::NOT&&h->a[0]->op==Op::FEQ&&isConst(h->a[0]->a[1])&&Z::fv(h->a[0]->a[1])==0&&polyEqual(h->a[0]->a[0],d)) ok=true; else if(h->op==Op::FLT&&isConst(h->a[0])&&Z::fv(h->a[0])>=0&&polyEqual(h->a[1],d)) ok=true; else if(h->op==Op::NOT&&h->a[0]->op==Op::FEQ&&isConst(h->a[0]->a[1])&&Z::fv(h->a[0]->a[1])==0&&(polyEqual(mkFNeg(h->a[0]->a[0]),d)||polyEqual(h->a[0]->a[0],mkFBin(Op::FMUL,d,d)))) ok=true; 
        else if(d->op==Op::FSQRT&&h->op==Op::NOT&&h->a[0]->op==Op::FEQ&&isConst(h->a[0]->a[1])&&Z::fv(h->a[0]->a[1])==0&&polyEqual(h->a[0]->a[0],d->a[0])) ok=true;
        else if(d->op==Op::FSQRT&&h->op==Op::FLT&&isConst(h->a[0])&&Z::fv(h->a[0])>=0&&polyEqual(h->a[1],d->a[0])) ok=true; } catch(NotPoly&){} }
    if(ok){ backends["ring"]++; continue; }
    Result r2; int r=z3check(hyp,nz,REAL,TMO/2,ins,&r2); if(r==0){ backends["z3-nra"]++; continue; } if(r==1){ res=r2; res.note="divisor may be zero: "+show(d,4); res.r=1; } else { res.r=-1; res.note="cannot show divisor nonzero: "+show(d,4)+" "+r2.note; } return false; }
  return true; }
static Result proveReal(vector<T> hyp,T goal,const vector<Input>*ins,int depth){ Result res;
  unordered_map<T,T> m; unordered_set<T> seen; for(T h:hyp) realAtoms(h,m,seen); realAtoms(goal,m,seen); if(!m.empty()){ for(T&h:hyp) h=substM(h,m); goal=substM(goal,m); }
  if(isTrue(goal)){ res.r=0; res.backend="normal form"; return res; } for(T h:hyp) if(isFalse(h)){ res.r=0; res.backend="normal form"; return res; }
  if(goal->op==Op::AND){ Result a=proveReal(hyp,goal->a[0],ins,depth); if(a.r!=0) return a; return proveReal(hyp,goal->a[1],ins,depth); }
  // decide atoms already known from hypotheses
  { unordered_map<T,T> k; vector<T> hs; for(T h:hyp) conjuncts(h,hs); for(T h:hs){ if(h->op==Op::NOT) k[h->a[0]]=mkBool(false); else if(h->op!=Op::CONST) k[h]=mkBool(true); } T g2=substM(goal,k); if(g2!=goal) return proveReal(hyp,g2,ins,depth); }
  unordered_set<T> s2; T at=findAtom(goal,s2); 
  if(at){ if(depth>24){ res.note="case split depth"; return res; } for(int v=1;v>=0;v--){ unordered_map<T,T> k{{at,mkBool(v)}}; vector<T> h2; for(T h:hyp) h2.push_back(substM(h,k)); bool dead=false; for(T h:h2) dead|=isFalse(h); if(dead) continue; h2.push_back(v?at:mkNot(at)); 
      if(depth>2){ int f=z3check(h2,nullptr,REAL,3000,nullptr,nullptr); if(f==0){ backends["z3-nra"]++; continue; } }
      Result r=proveReal(h2,substM(goal,k),ins,depth+1); if(r.r!=0) return r; } res.r=0; res.backend="case split"; return res; }
  auto atomicEq=[&](T g){ return g->op==Op::REQ||((g->op==Op::EQ||g->op==Op::FEQ)&&isF(g->a[0]->s)); };
  if(atomicEq(goal)){ if(!divisorsOk(hyp,goal,res,ins)){ // an infeasible case may still discharge it
      if(z3check(hyp,nullptr,REAL,TMO/2,nullptr,nullptr)==0){ res=Result(); res.r=0; res.backend="z3-nra"; backends["z3-nra"]++; } return res; }
    try { if(polyEqual(goal->a[0],goal->a[1])){ res.r=0; res.backend="ring"; backends["ring"]++; return res; } } catch(NotPoly&e){ res.note=e.what(); } }
  int r=z3check(hyp,goal,REAL,TMO,ins,&res); res.r=r==0?0:r==1?1:-1; res.backend="z3-nra"; if(r==0) backends["z3-nra"]++; return res; }

// exact mode: split on the conditions inside the goal, simplify, and prove every leaf
static double splitEnd=0;
static Result proveSplit(vector<T> hyp,T goal,const vector<Input>&ins,int depth){ Result res;if(now()>splitEnd){ res.note="case split time limit"; return res; }
  if(isTrue(goal)){ res.r=0; res.backend="case split"; return res; } for(T h:hyp) if(isFalse(h)){ res.r=0; res.backend="case split"; return res; }
  if(goal->op==Op::AND){ Result a=proveSplit(hyp,goal->a[0],ins,depth); if(a.r!=0) return a; return proveSplit(hyp,goal->a[1],ins,depth); }
  { unordered_map<T,T> k; vector<T> hs; for(T h:hyp) conjuncts(h,hs); for(T h:hs){ if(h->op==Op::NOT) k[h->a[0]]=mkBool(false); else if(h->op!=Op::CONST) k[h]=mkBool(true); } T g2=substM(goal,k); if(g2!=goal) return proveSplit(hyp,g2,ins,depth); }
  unordered_set<T> s2; T at=depth<14?findAtom(goal,s2):nullptr;
  if(!at){ res.r=z3check(hyp,goal,PRECISE,std::min(TMO,6000u),&ins,&res); res.backend="z3-fp"; if(res.r==0) backends["case split + z3-fp"]++; return res; }
  for(int v=1;v>=0;v--){ unordered_map<T,T> k{{at,mkBool(v)}}; vector<T> h2; bool dead=false; for(T h:hyp){ h2.push_back(substM(h,k)); dead|=isFalse(h2.back()); } if(dead) continue; h2.push_back(v?at:mkNot(at));
    if(z3check(h2,nullptr,PRECISE,2000,nullptr,nullptr)==0) continue; Result r=proveSplit(h2,substM(goal,k),ins,depth+1); if(r.r!=0) return r; }
  res.r=0; res.backend="case split"; return res; }
static Result discharge(const Obligation&o,const vector<Input>&ins){ Result res; 
  if(isTrue(o.cond)){ res.r=0; res.backend="normal form"; backends[res.backend]++; return res; }
  if(o.ibb){ if(ins.size()!=1){ res.note="interval branch and bound needs exactly one input"; return res; } uint64_t mo=0,bx=0; double t0=now(); int r=ibb(o.hyp,o.cond,ins[0].var,TMO/1000.0*12,8,mo,res.note,bx); solverTime+=now()-t0; res.r=r; res.backend="interval branch and bound"; if(r==0){ backends[res.backend]++; backends["boxes"]+=bx; } if(r==1){ res.hasModel=true; res.model.push_back(mo); } return res; }
  if(o.round){ if(o.cond->op==Op::AND){ Obligation a=o; a.cond=o.cond->a[0]; Result r1=discharge(a,ins); if(r1.r!=0) return r1; a.cond=o.cond->a[1]; return discharge(a,ins); } lightRound=true; int r=z3check(o.hyp,o.cond,ROUND,TMO/3,nullptr,nullptr); lightRound=false; if(r!=0) r=z3check(o.hyp,o.cond,ROUND,TMO,nullptr,&res); res.r=r==0?0:-1; if(r==1) res.note="not implied by the rounding theorems used"; res.backend="z3-round"; if(r==0) backends[res.backend]++; return res; }
  if(o.real&&(o.kind=="ensures"||o.kind=="invariant")){ res=proveReal(o.hyp,o.cond,&ins,0); if(res.r==0&&res.backend=="normal form") backends[res.backend]++; if(res.r==-1){ } return res; }
  if(o.cond->op==Op::AND&&!isFalse(o.cond)){ Obligation a=o; a.cond=o.cond->a[0]; Result r1=discharge(a,ins); if(r1.r!=0) return r1; a.cond=o.cond->a[1]; return discharge(a,ins); }
  int r=z3check(o.hyp,o.cond,ABS,TMO,nullptr,&res); if(r==0){ res.r=0; res.backend="z3-bvfp"; backends[res.backend]++; return res; }
  if(r==1){ Result t; int u=z3check(o.hyp,o.cond,UFM,std::min(TMO,3000u),nullptr,&t); if(u==0){ res=Result(); res.r=0; res.backend="z3-ufbv"; backends[res.backend]++; return res; } }
  res=Result(); r=z3check(o.hyp,o.cond,PRECISE,ptmo(),&ins,&res); res.r=r; res.backend="z3-fp"; if(r==0) backends[res.backend]++;
  if(r==-1&&!(failCount&&*failCount>=4)) { splitEnd=now()+15; return proveSplit(o.hyp,o.cond,ins,0); }
  return res; }

static string jstr(const string&s){ string r="\""; for(char ch:s){ if(ch=='"'||ch=='\\'){r+='\\';r+=ch;} else if((unsigned char)ch<32) { char b[8]; snprintf(b,8,"\\u%04x",ch); r+=b; } else r+=ch; } return r+"\""; }

// SMT-LIB export of an undecided obligation, for the second solver
static string smt2(const Obligation&o){ try { z3::context c; Z z(c,o.round?ROUND:o.real?REAL:PRECISE); z3::solver s(c); for(T h:o.hyp) s.add(z.tr(h)); s.add(!z.tr(o.cond)); for(auto e:z.side) s.add(e); return "(set-logic ALL)\n"+s.to_smt2(); } catch(...){ return ""; } }

extern bool gSafetyOnly;
int main(int argc,char**argv){
  if(argc<3){ cerr<<"usage: vcgen module.bc out.jsonl [-j N] [-t ms] [-only regex] [-smt dir]\n"; return 3; }
  int J=8,slots=8; string only,smtdir,semdir; bool verbose=false; for(int i=3;i<argc;i++){ string a=argv[i]; if(a=="-j") J=atoi(argv[++i]); else if(a=="-t") TMO=atoi(argv[++i]); else if(a=="-only") only=argv[++i]; else if(a=="-smt") smtdir=argv[++i]; else if(a=="-sem") semdir=argv[++i]; else if(a=="-slots") slots=atoi(argv[++i]); else if(a=="-v") verbose=true; else if(a=="-safety") gSafetyOnly=true; }
  llvm::LLVMContext ctx; llvm::SMDiagnostic err; auto M=llvm::parseIRFile(argv[1],err,ctx); if(!M){ cerr<<"cannot read module: "<<err.getMessage().str()<<"\n"; return 3; }
  auto*tab=M->getNamedGlobal("v_table"); if(!tab||!tab->hasInitializer()){ cerr<<"no v_table\n"; return 3; }
  vector<pair<string,const llvm::Function*>> hs; auto*ca=llvm::dyn_cast<llvm::ConstantArray>(tab->getInitializer()); if(!ca){ cerr<<"bad v_table\n"; return 3; }
  regex re(only.empty()?".*":only);
  for(unsigned i=0;i<ca->getNumOperands();i++){ auto*st=llvm::dyn_cast<llvm::ConstantStruct>(ca->getOperand(i)); if(!st) continue; auto*np=st->getOperand(0)->stripPointerCasts(); string nm; if(auto*gv=llvm::dyn_cast<llvm::GlobalVariable>(np)) if(auto*cd=llvm::dyn_cast<llvm::ConstantDataSequential>(gv->getInitializer())) nm=cd->getAsCString().str(); auto*fn=llvm::dyn_cast<llvm::Function>(st->getOperand(1)->stripPointerCasts()); if(fn&&regex_search(nm,re)) hs.push_back({nm,fn}); }
  failCount=(long*)mmap(nullptr,4096,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  const int CH=4; int nch=(hs.size()+CH-1)/CH; string out=argv[2]; ofstream(out).close();
  auto work=[&](int chunk){ ofstream os(out,ios::app); Exec E(*M); E.feasible=[&](const vector<T>&v){ return z3check(v,nullptr,ABS,3000,nullptr,nullptr); }; E.feasibleP=[&](const vector<T>&v){ return z3check(v,nullptr,E.roundMode?ROUND:E.realMode?REAL:PRECISE,8000,nullptr,nullptr); };
    for(int i=chunk*CH;i<min<int>((chunk+1)*CH,hs.size());i++){ double t0=now(); solverTime=0; backends.clear(); stringstream js; js<<"{\"name\":"<<jstr(hs[i].first); string status="ok"; string errm; stringstream fl; bool ff=true; long nob=0,ndis=0; string cover="trivial"; bool uncov=false;
      try { E.runHarness(hs[i].second); if(!E.anyEnsures) { status="error"; errm="no postcondition reached"; }
        if(status=="ok"&&E.coverPc&&!isTrue(E.coverPc)){ uint64_t mo,bx; string nt; int c=E.ibbMode&&E.inputs.size()==1?ibb({E.coverPc},mkBool(false),E.inputs[0].var,5,1,mo,nt,bx):easyCover(E.coverPc,E.inputs)?1:z3check({E.coverPc},nullptr,E.roundMode?ROUND:E.realMode?REAL:PRECISE,5000,nullptr,nullptr); cover=c==1?"sat":c==0?"unsat":"unknown"; if(c==0&&!E.realMode) uncov=true; } 
        if(!E.coverPc) uncov=true;
        int k=0; for(auto&o:E.obls){ nob++; Result r=discharge(o,E.inputs); if(r.r==0){ ndis++; continue; } if(r.r==1){ status="fail"; } else if(status!="fail") status="unknown"; 
          if(verbose){ cerr<<hs[i].first<<" "<<o.kind<<" "<<o.label<<"\n"; for(T h:o.hyp) cerr<<"  hyp "<<show(h,12)<<"\n"; cerr<<"  goal "<<show(o.cond,14)<<"\n"; }
          fl<<(ff?"":",")<<"{\"kind\":"<<jstr(o.kind)<<",\"label\":"<<jstr(o.label)<<",\"where\":"<<jstr(o.where)<<",\"mode\":"<<(o.real?"\"real\"":"\"exact\"")<<",\"result\":"<<(r.r==1?"\"refuted\"":"\"unknown\"")<<",\"note\":"<<jstr(r.note); ff=false; if(r.hasModel){ fl<<",\"model\":["; for(size_t q=0;q<r.model.size();q++) fl<<(q?",":"")<<"\""<<hex<<r.model[q]<<dec<<"\""; fl<<"]"; }
          if(r.r==-1&&!smtdir.empty()){ string s=smt2(o); if(!s.empty()){ string fn=smtdir+"/"+to_string(i)+"_"+to_string(k)+".smt2"; ofstream(fn)<<s; fl<<",\"smt\":"<<jstr(fn); } } fl<<",\"goal\":"<<jstr(show(o.cond,5).substr(0,400))<<"}"; k++; if(k>6) break; }
        if(status=="fail"&&failCount) __sync_fetch_and_add(failCount,1);
        if(uncov&&status=="ok"){ status="vacuous"; }
      } catch(Unsupported&e){ status="error"; errm=e.what(); errm+=" @ "+E.where(); } catch(z3::exception&e){ status="error"; errm=string("z3: ")+e.msg(); } catch(exception&e){ status="error"; errm=e.what(); }
      E.stack.clear(); E.depth=0;
      long triv=0; js<<",\"status\":"<<jstr(status)<<",\"error\":"<<jstr(errm)<<",\"obligations\":"<<nob<<",\"discharged\":"<<ndis<<",\"safety_trivial\":"<<(long)E.structural<<",\"real\":"<<(E.realMode?"true":"false")<<",\"cover\":"<<jstr(cover)<<",\"time\":"<<now()-t0<<",\"solver_time\":"<<solverTime<<",\"steps\":"<<E.steps<<",\"inputs\":["; (void)triv; for(size_t q=0;q<E.inputs.size();q++) js<<(q?",":"")<<jstr(E.inputs[q].type); js<<"],\"backends\":{"; bool b1=true; for(auto&b:backends){ js<<(b1?"":",")<<jstr(b.first)<<":"<<b.second; b1=false; } js<<"},\"externs\":["; b1=true; for(auto&x:E.externs){ js<<(b1?"":",")<<jstr(x); b1=false; } js<<"],\"assumed\":["; b1=true; for(auto&x:E.assumed){ js<<(b1?"":",")<<jstr(x); b1=false; } js<<"],\"functions\":["; b1=true; for(auto*f:E.touched){ string n=f->getName().str(); if(n.rfind("_ZN4dsga",0)&&n.rfind("_ZNK4dsga",0)) continue; js<<(b1?"":",")<<jstr(n); b1=false; } js<<"],\"failures\":["<<fl.str()<<"]}\n"; string line=js.str(); os<<line; os.flush(); } };
  if(J<=1){ for(int i=0;i<nch;i++) work(i); return 0; }
  int next=0,run=0; while(next<nch||run>0){ while(run<J&&next<nch){ pid_t p=fork(); if(p==0){ if(!semdir.empty()) for(int k=0;;k++){ if(k%slots==0&&k) usleep(4000); int fd=open((semdir+"/"+to_string(k%slots)).c_str(),O_CREAT|O_RDWR|O_CLOEXEC,0600); if(fd<0) break; if(flock(fd,LOCK_EX|LOCK_NB)==0) break; close(fd); } work(next); _exit(0); } next++; run++; } int st; pid_t p=wait(&st); if(p>0) run--; if(p>0&&(!WIFEXITED(st)||WEXITSTATUS(st))) { ofstream(out,ios::app)<<"{\"name\":\"?\",\"status\":\"error\",\"error\":\"worker died\",\"obligations\":0,\"discharged\":0}\n"; } }
  return 0; }
