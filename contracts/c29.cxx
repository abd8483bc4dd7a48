// C29: double-double arithmetic equals the real operation in exact arithmetic (up to the products of trailing terms it is documented to drop)
#include "vspec.h"
#include V_HEADER
namespace dd=dsga::cxcm::dd_real; using D=dd::dd_real;
static double val(const D&a){ return a.x[0]+a.x[1]; }
#ifdef V_NATIVE
// natively, where rounding happens, only moderate normalised operands
static double mod_(double x){ return x==x&&x<1e3&&x>-1e3?(x<1e-3&&x>-1e-3?0.0:x):1.5; } static double sc(){ return mod_(v_in_f64()); } static D in(){ double h=sc(),l=mod_(v_in_f64()); return D(h,h*0x1p-54*(l/(1.0+(l<0?-l:l)))); }
#else
static double sc(){ return v_in_f64(); } static D in(){ double h=v_in_f64(),l=v_in_f64(); return D(h,l); }
#endif
void c_two_sum(){ v_mode_real(); double a=sc(),b=sc(),e=sc(); double s=dd::two_sum(a,b,e); v_ensures(v_req(s+e,a+b),"sum and error add up to the sum of the operands"); v_ensures(v_req(s,a+b),"the leading term is the sum"); }
void c_quick(){ v_mode_real(); double a=sc(),b=sc(),e=sc(); double s=dd::quick_two_sum(a,b,e); v_ensures(v_req(s+e,a+b),"sum and error add up to the sum of the operands"); v_ensures(v_req(s,a+b),"the leading term is the sum"); }
void c_quick_alias(){ v_mode_real(); double a=sc(),b=sc(),b0=b; double s=dd::quick_two_sum(a,b,b); v_ensures(v_req(s+b,a+b0),"error stored over the second operand"); }
void c_split(){ v_mode_real(); double a=sc(),h=sc(),l=sc(); dd::split(a,h,l); v_ensures(v_req(h+l,a),"halves add up to the number"); }
void c_two_prod(){ v_mode_real(); double a=sc(),b=sc(),e=sc(); double p=dd::two_prod(a,b,e); v_ensures(v_req(p+e,a*b),"product and error add up to the product of the operands"); v_ensures(v_req(p,a*b),"the leading term is the product"); }
void c_add(){ v_mode_real(); D a=in(),b=in(),a0=a,b0=b; D r=a+b; v_ensures(v_req(val(r),val(a0)+val(b0)),"sum"); v_ensures(v_req(r.x[0],val(a0)+val(b0)),"the leading term carries the sum"); v_ensures(v_and(v_and(v_req(a.x[0],a0.x[0]),v_req(a.x[1],a0.x[1])),v_and(v_req(b.x[0],b0.x[0]),v_req(b.x[1],b0.x[1]))),"operands unmodified"); D q=dd::ieee_add(a,b); v_ensures(v_req(val(q),val(a)+val(b)),"ieee_add"); D d=a+a; v_ensures(v_req(val(d),2.0*val(a)),"an operand with itself"); }
void c_add1(){ v_mode_real(); D a=in(); double b=sc(); D r=a+b; v_ensures(v_req(val(r),val(a)+b),"sum with a double"); v_ensures(v_req(r.x[0],val(a)+b),"the leading term carries the sum"); }
void c_sub(){ v_mode_real(); D a=in(),b=in(); D r=a-b; v_ensures(v_req(val(r),val(a)-val(b)),"difference"); v_ensures(v_req(r.x[0],val(a)-val(b)),"the leading term carries the difference"); D t=a; D&u=(t-=b); v_ensures(v_req(val(t),val(a)-val(b)),"compound difference"); v_ensures(&u==&t,"returns its left operand"); D z=a; z-=z; v_ensures(v_req(val(z),0.0),"minus itself"); }
void c_sub1(){ v_mode_real(); double a=sc(); D b=in(); D r=a-b; v_ensures(v_req(val(r),a-val(b)),"difference from a double"); v_ensures(v_req(r.x[0],a-val(b)),"the leading term carries the difference"); }
void c_mul(){ v_mode_real(); D a=in(),b=in(),b0=b; D r=a*b; v_ensures(v_req(val(r)+a.x[1]*b.x[1],val(a)*val(b)),"product but for the product of the trailing terms"); v_ensures(v_req(r.x[0]+a.x[1]*b.x[1],val(a)*val(b)),"the leading term carries the product"); D t=a; D&u=(t*=b); v_ensures(v_req(val(t)+a.x[1]*b0.x[1],val(a)*val(b0)),"compound product"); v_ensures(&u==&t,"returns its left operand"); D q=a; q*=q; v_ensures(v_req(val(q)+a.x[1]*a.x[1],val(a)*val(a)),"square in place"); }
void c_mul1(){ v_mode_real(); D a=in(); double b=sc(); D r=a*b; v_ensures(v_req(val(r),val(a)*b),"product with a double"); D s=b*a; v_ensures(v_req(val(s),val(a)*b),"product of a double"); v_ensures(v_req(r.x[0],val(a)*b),"the leading term carries the product"); }
// three corrections: the quotient times the divisor is the dividend but for the third power of the relative size of the divisor's trailing term
void c_div(){ v_mode_real(); double a=sc(); D b=in(); v_requires(!v_req(b.x[0],0.0)); D r=a/b; double h=b.x[0],l=b.x[1]; v_ensures(v_req(val(r)*val(b)*h*h*h,a*(h*h*h+l*l*l)),"quotient of a double but for third-order terms"); v_ensures(v_req(r.x[0],val(r)),"the leading term carries the quotient"); D q=dd::accurate_div(a,b); v_ensures(v_req(val(q),val(r)),"accurate_div"); }
void c_div2(){ v_mode_real(); D a=in(); D b=in(); v_requires(!v_req(b.x[0],0.0)); D r=a/b; double h=b.x[0],l=b.x[1]; v_ensures(v_req((val(a)-val(r)*val(b))*h*h*h,-(l*l*(a.x[0]*l-a.x[1]*h))),"quotient but for third-order terms"); v_ensures(v_req(r.x[0],val(r)),"the leading term carries the quotient"); }
void c_exactdiv(){ v_mode_real(); D a=in(); double h=sc(); v_requires(!v_req(h,0.0)); D r=a/D(h); v_ensures(v_req(val(r)*h,val(a)),"division by a divisor without trailing term is exact"); double x=sc(); D q=x/D(h); v_ensures(v_req(val(q)*h,x),"of a double"); }
// conversions: bit-exact
void c_conv(){ double h=v_in_f64(),l=v_in_f64(); D a(h,l); v_ensures(v_and(v_same(a[0],h),v_same(a[1],l)),"constructed from the terms"); v_ensures(v_same(static_cast<double>(a),h),"a double is the leading term"); v_ensures(v_same(static_cast<float>(a),static_cast<float>(h)),"a float is the leading term rounded"); D b(h); v_ensures(v_and(v_same(b[0],h),v_same(b[1],0.0)),"a double has no trailing term"); D z; v_ensures(v_and(v_same(z[0],0.0),v_same(z[1],0.0)),"default is zero"); a[0]=l; a[1]=h; v_ensures(v_and(v_same(a.x[0],l),v_same(a.x[1],h)),"terms are assignable"); }

// ---- part 1: the rounding errors are carried. The error-free transformations are replaced by their contract: the leading term is an arbitrary
// function of the operands and the error is what is missing from it (proofs/eft.v proves this contract of the formulas that c_f_* pin the code to).
// Natively the same contracts compare against 113-bit arithmetic.
#ifdef V_NATIVE
using Rl=__float128; static Rl qabs(Rl x){ return x<0?-x:x; } static double sane(double x){ if(!(x==x)||x>1e60||x<-1e60) return 1.25; if(x<1e-60&&x>-1e-60) return 0.0; return x; }
static D dn(double h,double l){ h=sane(h); l=sane(l); return D(h,h*0x1p-54*(l/(1.0+(l<0?-l:l)))); }
static bool req(Rl a,Rl b,Rl mag){ return qabs(a-b)<=mag*(Rl)0x1p-98; }
#else
using Rl=double; static Rl qabs(Rl x){ return x; } static double sane(double x){ return x; } static D dn(double h,double l){ return D(h,l); } static bool req(Rl a,Rl b,Rl){ return v_req(a,b); }
#endif
static Rl vq(const D&a){ return (Rl)a.x[0]+(Rl)a.x[1]; } static Rl mg(const D&a){ return qabs((Rl)a.x[0]); } static Rl mg(double a){ return qabs((Rl)a); } static Rl vq(double a){ return a; }
static double st_sum(double a,double b,double&e) noexcept { double s=v_uf_d2(a,b); e=(a+b)-s; return s; }
static double st_prod(double a,double b,double&e) noexcept { double p=v_uf_d3(a,b,1.0); e=a*b-p; return p; }
static void eft(){ v_replace("dsga::cxcm::dd_real::two_sum",(void*)st_sum); v_replace("dsga::cxcm::dd_real::quick_two_sum",(void*)st_sum); v_replace("dsga::cxcm::dd_real::two_prod",(void*)st_prod); }
#define DIN(a) double a##h=v_in_f64(),a##l=v_in_f64(); D a=dn(a##h,a##l);
#define SIN(a) double a##r=v_in_f64(); double a=sane(a##r);
void e_add(){ v_mode_real(); DIN(a) DIN(b) eft(); D r=a+b; v_ensures(req(vq(r),vq(a)+vq(b),mg(a)+mg(b)),"sum"); D q=dd::ieee_add(a,b); v_ensures(req(vq(q),vq(a)+vq(b),mg(a)+mg(b)),"ieee_add"); D t=a+a; v_ensures(req(vq(t),2*vq(a),mg(a)),"an operand with itself"); }
void e_add1(){ v_mode_real(); DIN(a) SIN(b) eft(); D r=a+b; v_ensures(req(vq(r),vq(a)+vq(b),mg(a)+mg(b)),"sum with a double"); D q=dd::ieee_add(a,b); v_ensures(req(vq(q),vq(a)+vq(b),mg(a)+mg(b)),"ieee_add with a double"); }
void e_sub(){ v_mode_real(); DIN(a) DIN(b) eft(); D r=a-b; v_ensures(req(vq(r),vq(a)-vq(b),mg(a)+mg(b)),"difference"); D q=dd::ieee_subtract(a,b); v_ensures(req(vq(q),vq(a)-vq(b),mg(a)+mg(b)),"ieee_subtract"); D t=a; t-=b; v_ensures(req(vq(t),vq(a)-vq(b),mg(a)+mg(b)),"compound difference"); D z=a; z-=z; v_ensures(req(vq(z),0,mg(a)),"minus itself"); }
void e_sub1(){ v_mode_real(); SIN(a) DIN(b) eft(); D r=a-b; v_ensures(req(vq(r),vq(a)-vq(b),mg(a)+mg(b)),"difference from a double"); D q=dd::ieee_subtract(a,b); v_ensures(req(vq(q),vq(a)-vq(b),mg(a)+mg(b)),"ieee_subtract from a double"); }
void e_mul(){ v_mode_real(); DIN(a) DIN(b) eft(); D r=a*b; Rl z=(Rl)a.x[1]*b.x[1]; v_ensures(req(vq(r)+z,vq(a)*vq(b),mg(a)*mg(b)),"product but for the product of the trailing terms"); D t=a; t*=b; v_ensures(req(vq(t)+z,vq(a)*vq(b),mg(a)*mg(b)),"compound product"); D q=a; q*=q; v_ensures(req(vq(q)+(Rl)a.x[1]*a.x[1],vq(a)*vq(a),mg(a)*mg(a)),"square in place"); }
void e_mul1(){ v_mode_real(); DIN(a) SIN(b) eft(); D r=a*b,s=b*a; v_ensures(req(vq(r),vq(a)*vq(b),mg(a)*mg(b)),"product with a double"); v_ensures(req(vq(s),vq(a)*vq(b),mg(a)*mg(b)),"product of a double"); }
// long division: the quotient is the sum of three partial quotients, each the leading term of the exact running remainder over the leading term of the divisor
template<class X> static void e_div_(const X&a,double a0,const D&b){ eft(); v_requires(!v_req(b.x[0],0.0)); D r=a/b, s=dd::accurate_div(a,b);
#ifdef V_NATIVE
  if(b.x[0]==0) return; v_ensures(req(vq(r)*vq(b),vq(a),mg(a)),"quotient"); v_ensures(req(vq(s)*vq(b),vq(a),mg(a)),"accurate_div"); (void)a0;
#else
  double q1=a0/b.x[0]; D r1=a-q1*b; double q2=r1.x[0]/b.x[0]; D r2=r1-q2*b; double q3=r2.x[0]/b.x[0]; v_ensures(v_req(vq(r),q1+q2+q3),"quotient"); v_ensures(v_req(vq(s),q1+q2+q3),"accurate_div"); v_ensures(v_req(vq(r1),vq(a)-q1*vq(b)),"first remainder"); v_ensures(v_req(vq(r2),vq(a)-(q1+q2)*vq(b)),"second remainder");
#endif
}
void e_div(){ v_mode_real(); SIN(a) DIN(b) e_div_(a,a,b); }
void e_div2(){ v_mode_real(); DIN(a) DIN(b) e_div_(a,a.x[0],b); }
// the formulas of the transformations
void c_f_sum(){ double ar=v_in_f64(),br=v_in_f64(),e=v_in_f64(); double a=sane(ar),b=sane(br); double s=dd::two_sum(a,b,e),S=a+b,v=S-a; v_ensures(v_same(s,S),"leading term"); v_ensures(v_same(e,(a-(S-v))+(b-v)),"error term"); }
void c_f_quick(){ double ar=v_in_f64(),br=v_in_f64(),e=v_in_f64(); double a=sane(ar),b=sane(br); 
#ifdef V_NATIVE
  b=a*0.5*(b/(1.0+(b<0?-b:b)));
#endif
  double s=dd::quick_two_sum(a,b,e),S=a+b; v_ensures(v_same(s,S),"leading term"); v_ensures(v_same(e,b-(S-a)),"error term"); }
void c_f_split(){ double ar=v_in_f64(),h=v_in_f64(),l=v_in_f64(); double a=sane(ar); dd::split(a,h,l); double t=134217729.0*a,H=t-(t-a); v_ensures(v_same(h,H),"high half"); v_ensures(v_same(l,a-H),"low half"); }
void c_f_prod(){ double ar=v_in_f64(),br=v_in_f64(),e=v_in_f64(); double a=sane(ar),b=sane(br); double s=dd::two_prod(a,b,e); double p=a*b,ta=134217729.0*a,ha=ta-(ta-a),la=a-ha,tb=134217729.0*b,hb=tb-(tb-b),lb=b-hb; v_ensures(v_same(s,p),"leading term"); v_ensures(v_same(e,((ha*hb-p)+ha*lb+la*hb)+la*lb),"error term"); }
// ---- part 2: quick_two_sum is used inside its precondition (ordered operands) by every product of normalised operands. Reals with rounding
static double X(double a,double b){ return v_uf_xmul(a,b); }
static double Ab(double x){ return std::fabs(x); }
extern "C" double v_uf_oq(double,double) noexcept; extern "C" double v_uf_op(double,double) noexcept;
#ifdef V_NATIVE
extern "C" double v_uf_oq(double,double) noexcept { return 0; } extern "C" double v_uf_op(double,double) noexcept { return 0; }
#endif
static double so_quick(double a,double b,double&e) noexcept { v_ensures(Ab(b)<=Ab(a),"the operands of quick_two_sum are ordered"); e=v_uf_oq(a,b); return a+b; }
static double so_prod(double a,double b,double&e) noexcept { double p=a*b; e=v_uf_op(a,b); v_lemma(Ab(v_uf_xsub(X(a,b),v_uf_xadd(p,e)))<=0x1p-1072,"eft.v two_prod_error_full"); return p; }
static void ord(){ v_replace("dsga::cxcm::dd_real::quick_two_sum",(void*)so_quick); v_replace("dsga::cxcm::dd_real::two_prod",(void*)so_prod); }
static bool nrm(double h,double l){ return v_and(Ab(l)<=X(0x1p-52,Ab(h)),Ab(h)<=0x1p+400); }
#define OIN(a) double a##h=v_in_f64(),a##l=v_in_f64(); v_requires(nrm(a##h,a##l)); D a(a##h,a##l);
static bool big(double x,double y){ return Ab(X(x,y))>=0x1p-900; }
void o_mul(){ v_mode_round(); OIN(a) OIN(b) v_requires(big(ah,bh)); ord(); v_ensures(Ab(X(ah,bh))<=0x1p+800,"size of the product"); v_ensures(Ab(X(ah,bl))<=X(0x1p-52,Ab(X(ah,bh))),"size of the first cross product"); v_ensures(Ab(X(al,bh))<=X(0x1p-52,Ab(X(ah,bh))),"size of the second cross product"); D r=a*b; v_ensures(Ab(v_uf_xsub(r.x[0],X(ah,bh)))<=X(0x1p-50,Ab(X(ah,bh))),"leading term"); D t=a; t*=b; v_ensures(Ab(v_uf_xsub(t.x[0],X(ah,bh)))<=X(0x1p-50,Ab(X(ah,bh))),"leading term in place"); }
void o_mul1(){ v_mode_round(); OIN(a) double b=v_in_f64(); v_requires(v_and(Ab(b)<=0x1p+400,big(ah,b))); ord(); D r=a*b; v_ensures(Ab(v_uf_xsub(r.x[0],X(ah,b)))<=X(0x1p-50,Ab(X(ah,b))),"leading term"); D q=b*a; v_ensures(Ab(v_uf_xsub(q.x[0],X(ah,b)))<=X(0x1p-50,Ab(X(ah,b))),"leading term from the left"); }
#ifndef PART
#define PART 0
#endif
extern "C" const v_entry v_table[] = {
#if PART==1
 E("carried add",e_add) E("carried add double",e_add1) E("carried subtract",e_sub) E("carried subtract from double",e_sub1) E("carried multiply",e_mul) E("carried multiply double",e_mul1) E("carried divide double",e_div) E("carried divide",e_div2) E("formula two_sum",c_f_sum) E("formula quick_two_sum",c_f_quick) E("formula split",c_f_split) E("formula two_prod",c_f_prod)
#elif PART==2
 E("ordered multiply",o_mul) E("ordered multiply double",o_mul1)
#else
 E("two_sum",c_two_sum) E("quick_two_sum",c_quick) E("quick_two_sum aliased",c_quick_alias) E("split",c_split) E("two_prod",c_two_prod) E("add",c_add) E("add double",c_add1) E("subtract",c_sub) E("subtract from double",c_sub1) E("multiply",c_mul) E("multiply double",c_mul1) E("divide double",c_div) E("divide",c_div2) E("divide exactly",c_exactdiv) E("conversions",c_conv)
#endif
 V_END };
