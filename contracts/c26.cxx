// C26: sqrt, inversesqrt and fast_inversesqrt: domain and special values on every bit pattern, correctly rounded run-time root, lifts over every kind
// part 0: as called at run time; part 1: the constant-evaluated branch of sqrt; part 2: accuracy of the inverse root; part 3: accuracy of the constant-evaluated root (loops cut by invariants)
constexpr bool v_is_consteval() noexcept { return true; }
constexpr bool v_is_runtime() noexcept { return false; }
#ifndef PART
#define PART 0
#endif
#if PART==1||PART==3
#define __builtin_is_constant_evaluated v_is_consteval
#else
#define __builtin_is_constant_evaluated v_is_runtime
#endif
#include "lift.h"
namespace cm=dsga::cxcm; namespace rx=dsga::cxcm::relaxed::detail;
template<class T> constexpr T INF=std::numeric_limits<T>::infinity();
// run-time square root
template<class T> void s_sqrt(){ T x=v_in<T>(); T r=dsga::sqrt(x); v_ensures(v_same<T>(r,v_sqrt(x)),"the correctly rounded root"); v_ensures(v_iff(v_isnan(r),v_or(v_isnan(x),x<T(0))),"NaN exactly for a negative or NaN argument"); v_ensures(v_imp(x==T(0),v_same<T>(r,x)),"zero keeps its sign"); v_ensures(v_imp(x==INF<T>,r==INF<T>),"root of infinity"); v_ensures(v_same<T>(cm::sqrt(x),r),"scalar layer"); }
// constant-evaluated square root: everything that is decided before the iteration
template<class T> void s_csqrt(){ T x=v_in<T>(); v_requires(v_or(v_or(v_isnan(x),x<=T(0)),x==INF<T>)); T r=cm::sqrt(x); v_ensures(v_iff(v_isnan(r),v_or(v_isnan(x),x<T(0))),"NaN for a negative or NaN argument"); v_ensures(v_imp(x==T(0),v_same<T>(r,x)),"zero keeps its sign"); v_ensures(v_imp(x==INF<T>,r==INF<T>),"root of infinity"); v_ensures(v_same<T>(dsga::sqrt(x),r),"function layer"); }
struct f_inv{ template<class T> static T f(T x){ return dsga::inversesqrt(x); } }; struct f_fast{ template<class T> static T f(T x){ return dsga::fast_inversesqrt(x); } }; struct f_rs{ template<class T> static T f(T x){ return cm::rsqrt(x); } }; struct f_frs{ template<class T> static T f(T x){ return cm::fast_rsqrt(x); } };
template<class F,class T> void s_inv(){ T x=v_in<T>(); v_requires(v_or(v_or(v_isnan(x),x<=T(0)),x==INF<T>)); T r=F::f(x); v_ensures(v_iff(v_isnan(r),v_or(v_isnan(x),x<T(0))),"NaN for a negative or NaN argument"); v_ensures(v_imp(x==T(0),r==INF<T>),"infinity at either zero"); v_ensures(v_imp(x==INF<T>,v_same<T>(r,T(0))),"positive zero at infinity"); }
template<class T> void s_same(){ T x=v_in<T>(); v_ensures(v_same<T>(dsga::fast_inversesqrt(x),cm::fast_rsqrt(x)),"fast_inversesqrt is the scalar layer's fast_rsqrt"); if constexpr(std::is_same_v<T,double>) v_ensures(v_same<T>(dsga::inversesqrt(x),cm::rsqrt(x)),"inversesqrt is the scalar layer's rsqrt"); }
// the exact scaling in front of the extended precision iterations
void s_scale(){ double x=v_in_f64(); v_requires(v_and(x>0.0,x<INF<double>)); double s=v_in_f64(); double y=rx::scale_to_safe_range(x,s); v_ensures(v_and(y>=0x1p-900,y<=0x1p+900),"scaled into the safe range"); v_ensures(v_or(v_or(s==1.0,s==0x1p+150),s==0x1p-150),"the scale is a power of two"); v_ensures(v_same<double>(y/s/s,x),"the scaling is exact"); }
// accuracy: interval branch and bound over every bit pattern. The double-double transformations are replaced by their contract (proofs/eft.v):
// the leading term is the rounded result, the error term at most half an ulp of it
static double st_sum(double a,double b,double&e) noexcept { double s=a+b; e=v_uf_err_d(s); return s; }
static double st_prod(double a,double b,double&e) noexcept { double p=a*b; e=v_uf_err_d(p); return p; }
static void eft(){ v_replace("dsga::cxcm::dd_real::two_sum",(void*)st_sum); v_replace("dsga::cxcm::dd_real::quick_two_sum",(void*)st_sum); v_replace("dsga::cxcm::dd_real::two_prod",(void*)st_prod); }
template<class F,class T> void b_inv(){ using U=std::conditional_t<sizeof(T)==4,unsigned,unsigned long long>; v_mode_ibb(); T x=v_in<T>(); v_requires(v_and(x>T(0),x<INF<T>)); eft(); T r=F::f(x); v_ensures(v_and(r>T(0),r<INF<T>),"finite and positive"); }
template<class F,class T> void b_acc(){ v_mode_ibb(); T x=v_in<T>(); v_requires(v_and(x>=std::numeric_limits<T>::min(),x<INF<T>)); eft(); T r=F::f(x); double d=x,q=(double)r*d*(double)r; v_ensures(v_and(q>=0.998,q<=1.002),"the reciprocal root to within a tenth of a percent"); }
// precision: the iterations are pinned, bit for bit, to formulas whose relative error proofs/rsqrt.v bounds (fast_rsqrt_precision: 2^-48 from the start that "estimate" bounds; rsqrt_float_precision: 2^-22);
// natively the same contracts measure the error
#ifdef V_NATIVE
static bool prec(double y,double x,double eps){ if(!(x>=0x1p-1022&&x<INF<double>)) return true; __float128 t=(__float128)y*y*x-1; return t<=eps&&-t<=eps; }
#define PIN(y,x,eps,f) prec(y,x,eps)
#else
#define PIN(y,x,eps,f) v_same(y,f)
#endif
static double newton4(double x){ double h=0.5*x; long long i=0x5FE6ED2102DCBFDA-(std::bit_cast<long long>(x)>>1); double y=std::bit_cast<double>(i); y=y*(1.50087895511633457-h*y*y); y=y*(1.50000057967625766-h*y*y); y=y*(1.5000000000002520-h*y*y); y=y*(1.5-h*y*y); return y; }
void p_est(){ v_mode_ibb(); double x=v_in_f64(); v_requires(v_and(x>=0x1p-1020,x<INF<double>)); long long i=0x5FE6ED2102DCBFDA-(std::bit_cast<long long>(x)>>1); double y=std::bit_cast<double>(i),q=y*x*y; v_ensures(v_and(y>0.0,v_and(q>=0.9301,q<=1.0699)),"the initial estimate to within seven percent"); }
namespace ddr=dsga::cxcm::dd_real;
static double rs_d(double x,double s){ double b=x*s*s; ddr::dd_real y(rx::fast_rsqrt(b)); y=y*(1.5-(0.5*b)*(y*y)); return y.x[0]*s; }
static double rs_f(double b){ double y=rx::fast_rsqrt(b); y=y*(1.5-0.5*b*y*y); y=y*(1.5-0.5*b*y*y); y=y*(1.5-0.5*b*y*y); return y; }
void p_fast(){ double x=v_in_f64(); v_requires(v_and(x>0.0,x<INF<double>)); v_ensures(PIN(rx::fast_rsqrt(x),x,0x1p-49,newton4(x)),"four corrections of the initial estimate"); }
void p_fastf(){ float x=v_in_f32(); v_requires(v_and(x>0.0f,x<INF<float>)); v_ensures(PIN((double)cm::fast_rsqrt(x),(double)x,0x1p-21,(double)(float)rx::fast_rsqrt((double)x)),"the double result rounded"); }
void p_fastd(){ double x=v_in_f64(); v_requires(v_and(x>0.0,x<INF<double>)); v_ensures(PIN(cm::fast_rsqrt(x),x,0x1p-49,rx::fast_rsqrt(x)),"the estimate of the scalar layer"); }
void p_rsd(){ double x=v_in_f64(); v_requires(v_and(x>0.0,x<INF<double>)); double s=v_ite(x<0x1p-900,0x1p+150,v_ite(x>0x1p+900,0x1p-150,1.0)); v_ensures(PIN(cm::rsqrt(x),x,0x1p-51,rs_d(x,s)),"a double-double correction of the scaled estimate, scaled back"); }
void p_rsf(){ float x=v_in_f32(); v_requires(v_and(x>0.0f,x<INF<float>)); v_ensures(PIN((double)cm::rsqrt(x),(double)x,0x1p-22,(double)(float)rs_f((double)x)),"three more corrections, rounded"); }
// the values the contracts below leave open: one function symbol per result
#define VU(n) extern "C" double n(double,double,double) noexcept;
VU(v_uf_ds0) VU(v_uf_ds1) VU(v_uf_da0) VU(v_uf_da1) VU(v_uf_dq0) VU(v_uf_dq1) VU(v_uf_dm0) VU(v_uf_dm1) VU(v_uf_dd0) VU(v_uf_dd1) extern "C" double v_uf_sc1(double) noexcept; extern "C" double v_uf_pe2(double,double) noexcept;
#ifdef V_NATIVE
#undef VU
#define VU(n) extern "C" double n(double,double,double) noexcept { return 0; }
VU(v_uf_ds0) VU(v_uf_ds1) VU(v_uf_da0) VU(v_uf_da1) VU(v_uf_dq0) VU(v_uf_dq1) VU(v_uf_dm0) VU(v_uf_dm1) VU(v_uf_dd0) VU(v_uf_dd1) extern "C" double v_uf_sc1(double) noexcept { return 0; } extern "C" double v_uf_pe2(double,double) noexcept { return 0; }
#endif
// the iterations of the constant-evaluated root, over the reals with rounding: what is returned is a root to within a few ulps (that they terminate is not proved).
// fast_rsqrt is replaced by its contract (part 2); so are the double-double operations (part 3, "dd ..."), with a bound far weaker than what they deliver
static double X(double a,double b){ return v_uf_xmul(a,b); }
static bool within(double a,double b,double e){ return v_and(a>=X(b,1-e),a<=X(b,1+e)); }
static double st_frs(double x) noexcept { v_ensures(v_and(x>=0x1p-1022,x<=0x1.fffffffffffffp+1023),"fast_rsqrt is called inside its contract"); double y=v_uf_d1(x); v_lemma(y>0.0,"c26 positive fast_rsqrt double"); v_lemma(within(X(X(y,x),y),1.0,0x1p-8),"c26 accuracy fast_rsqrt double"); return y; }
template<int K> static double st_scale(double x,double&s) noexcept { v_ensures(K==0?v_and(x>=0x1p-900,x<=0x1p+900):K==1?v_and(x>=0x1p-1074,x<0x1p-900):v_and(x>0x1p+900,x<=0x1.fffffffffffffp+1023),"scale_to_safe_range is called inside its contract"); s=K==0?1.0:K==1?0x1p+150:0x1p-150; double y=K==0?x:v_uf_sc1(x); v_lemma(v_and(v_and(y>=0x1p-900,y<=0x1p+900),y==X(x,K==0?1.0:K==1?0x1p+300:0x1p-300)),"c26 scale to safe range"); return y; }
static double A(double a,double b){ return v_uf_xadd(a,b); } static double D(double a,double b){ return v_uf_xsub(a,b); }
static bool err(double r,double t,double e){ return v_and(D(r,t)<=e,D(t,r)<=e); }
static double mean(double b,double c){ return 0.5*(c+b/c); }
static bool safe(double b){ return v_and(b>=0x1p-900,b<=0x1p+900); }
static bool near(double b,double c){ return v_and(c>0.0,within(X(c,c),b,0x1p-6)); }
static bool rng(double x,double l,double h){ return v_and(x>=l,x<=h); }
static void inv_sqf(){ double c=v_local_f64("current_value",0),p=v_local_f64("previous_value",0),b=v_local_f64("boosted_arg",0),n=mean(b,c);
 v_lemma(v_imp(v_and(safe(b),near(b,c)),v_and(within(X(n,n),b,0x1p-7),rng(n,0x1p-451,0x1p+451))),"sqrt.v newton_near"); v_lemma(v_imp(v_and(near(b,c),rng(b,0x1p-150,0x1p+128)),rng(c,0x1p-76,0x1p+65)),"sqrt.v near_range");
 double mp=mean(b,p); v_lemma(v_imp(v_and(v_and(safe(b),near(b,p)),err(p,mp,X(0x1p-35,mp))),within(X(p,p),b,0x1p-33)),"sqrt.v fixed_point");
 v_inv(c>0.0,"positive"); v_inv(near(b,c),"near the root"); v_inv(rng(c,0x1p-76,0x1p+65),"in range"); v_inv(v_or(p==0.0,v_and(near(b,p),c==mean(b,p))),"the mean of the previous value and the quotient by it"); v_inv(v_imp(c==p,within(X(c,c),b,0x1p-32)),"unchanged only at the root"); }
void c_sqf(){ float x=v_in_f32(); v_mode_round(); v_requires(v_and(x>=0x1p-149f,x<=std::numeric_limits<float>::max())); v_replace("dsga::cxcm::relaxed::detail::fast_rsqrt",(void*)st_frs); v_replace("dsga::cxcm::relaxed::detail::scale_to_safe_range",(void*)st_scale<0>); v_loop("dsga::cxcm::relaxed::detail::converging_sqrt",0,inv_sqf); float r=cm::sqrt(x); double d=r; v_ensures(within(X(d,d),x,0x1p-22),"the root to within an ulp"); }
// the double-double operations of the double iteration, over the reals with rounding; two_prod is replaced by its contract (proofs/eft.v, two_prod_error_full)
static double Ab(double x){ return std::fabs(x); }
static double low(double hi){ double l=v_in_f64();
#ifdef V_NATIVE
 l=std::fmod(l,1.0)*0x1p-60*hi;
#endif
 v_requires(Ab(l)<=X(0x1p-48,Ab(hi))); return l; }
static double st_tprod(double a,double b,double&e) noexcept { v_ensures(v_and(Ab(a)<=0x1p+900,Ab(b)<=0x1p+900),"two_prod is called inside its contract"); double p=a*b; e=v_uf_pe2(a,b); v_lemma(err(A(p,e),X(a,b),0x1p-1072),"eft.v two_prod_error_full"); return p; }
template<int Q> void w_tsum(){ v_mode_round(); double a=v_in_f64(),b=v_in_f64(),e; v_requires(v_and(Ab(a)<=0x1p+1000,Ab(b)<=0x1p+1000)); double s=Q?ddr::quick_two_sum(a,b,e):ddr::two_sum(a,b,e); v_ensures(s==a+b,"the rounded sum"); v_ensures(Ab(e)<=X(0x1p-50,A(Ab(a),Ab(b))),"a small error term"); }
static double st_tsum(double a,double b,double&e) noexcept { v_ensures(v_and(Ab(a)<=0x1p+1000,Ab(b)<=0x1p+1000),"two_sum is called inside its contract"); double s=a+b; e=v_uf_d3(a,b,1.0); v_lemma(Ab(e)<=X(0x1p-50,A(Ab(a),Ab(b))),"c26 dd two_sum, dd quick_two_sum"); return s; }
static double st_qsum(double a,double b,double&e) noexcept { v_ensures(v_and(Ab(a)<=0x1p+1000,Ab(b)<=0x1p+1000),"quick_two_sum is called inside its contract"); double s=a+b; e=v_uf_d3(a,b,2.0); v_lemma(Ab(e)<=X(0x1p-50,A(Ab(a),Ab(b))),"c26 dd two_sum, dd quick_two_sum"); return s; }
static void sums(){ v_replace("dsga::cxcm::dd_real::two_sum",(void*)st_tsum); v_replace("dsga::cxcm::dd_real::quick_two_sum",(void*)st_qsum); }
static bool apre(double a0,double a1,double b0,double b1){ return v_and(v_and(rng(a0,0x1p-500,0x1p+500),rng(b0,0x1p-500,0x1p+500)),v_and(Ab(a1)<=X(0x1p-40,a0),Ab(b1)<=X(0x1p-40,b0))); }
void w_add(){ v_mode_round(); sums(); double a0=v_in_f64(),b0=v_in_f64(),a1=v_in_f64(),b1=v_in_f64(); v_requires(apre(a0,a1,b0,b1)); ddr::dd_real a(a0,a1),b(b0,b1),r=a+b; double s=A(a0,b0); v_ensures(err(r.x[0],s,X(0x1p-38,s)),"the sum of the high parts"); v_ensures(Ab(r.x[1])<=X(0x1p-49,r.x[0]),"normalised"); }
static ddr::dd_real st_add(const ddr::dd_real&a,const ddr::dd_real&b) noexcept { double a0=a.x[0],b0=b.x[0]; v_ensures(apre(a0,a.x[1],b0,b.x[1]),"dd + dd is called inside its contract"); ddr::dd_real r(v_uf_da0(a0,b0,A(a.x[1],b.x[1])),v_uf_da1(a0,b0,A(a.x[1],b.x[1]))); double s=A(a0,b0); v_lemma(v_and(err(r.x[0],s,X(0x1p-38,s)),Ab(r.x[1])<=X(0x1p-49,r.x[0])),"c26 dd sum"); return r; }
// a - b with a double a: the low part of b may be anything small compared with a and b
static bool spre(double a,double b0,double b1){ return v_and(v_and(Ab(a)<=0x1p+950,Ab(b0)<=0x1p+950),Ab(b1)<=A(X(0x1p-47,A(Ab(a),Ab(b0))),0x1p-990)); }
static double sbnd(double a,double b0){ return A(X(0x1p-45,A(Ab(a),Ab(b0))),0x1p-980); }
void w_sub(){ v_mode_round(); sums(); double a=v_in_f64(),b0=v_in_f64(),b1=v_in_f64(); v_requires(spre(a,b0,b1)); ddr::dd_real b(b0,b1),r=a-b; v_ensures(err(r.x[0],D(a,b0),sbnd(a,b0)),"the difference of the high parts"); v_ensures(Ab(r.x[1])<=sbnd(a,b0),"low part"); }
static ddr::dd_real st_sub(double a,const ddr::dd_real&b) noexcept { v_ensures(spre(a,b.x[0],b.x[1]),"double - dd is called inside its contract"); ddr::dd_real r(v_uf_ds0(a,b.x[0],b.x[1]),v_uf_ds1(a,b.x[0],b.x[1])); v_lemma(v_and(err(r.x[0],D(a,b.x[0]),sbnd(a,b.x[0])),Ab(r.x[1])<=sbnd(a,b.x[0])),"c26 dd difference"); return r; }
// k * b: any factor not much bigger than b
static double bigr(double b,double k,double e){ return A(X(e,Ab(X(b,k))),0x1p-1000); }
static bool kpre(double b0,double b1,double k){ return v_and(v_and(rng(b0,0x1p-460,0x1p+460),Ab(b1)<=X(0x1p-47,b0)),Ab(k)<=0x1p+461); }
void w_mulk(){ v_mode_round(); sums(); double b0=v_in_f64(),k=v_in_f64(); ddr::dd_real b(b0,low(b0)); v_requires(kpre(b0,b.x[1],k)); v_replace("dsga::cxcm::dd_real::two_prod",(void*)st_tprod); ddr::dd_real r=k*b; v_ensures(err(r.x[0],X(b0,k),bigr(b0,k,0x1p-46)),"the product of the high part"); v_ensures(Ab(r.x[1])<=bigr(b0,k,0x1p-49),"low part"); }
static ddr::dd_real st_mulk(double k,const ddr::dd_real&b) noexcept { double b0=b.x[0]; v_ensures(kpre(b0,b.x[1],k),"k * dd is called inside its contract"); ddr::dd_real r(v_uf_dm0(b0,b.x[1],k),v_uf_dm1(b0,b.x[1],k)); v_lemma(v_and(err(r.x[0],X(b0,k),bigr(b0,k,0x1p-46)),Ab(r.x[1])<=bigr(b0,k,0x1p-49)),"c26 dd multiple"); return r; }
// dd - dd
static bool sbound(double x){ return Ab(x)<=0x1p+950; }
void w_subdd(){ v_mode_round(); sums(); double a0=v_in_f64(),b0=v_in_f64(),a1=v_in_f64(),b1=v_in_f64(); v_requires(v_and(v_and(sbound(a0),sbound(b0)),v_and(sbound(a1),sbound(b1)))); ddr::dd_real a(a0,a1),b(b0,b1),r=a-b; v_ensures(Ab(r.x[0])<=X(1.5,A(A(Ab(a0),Ab(b0)),A(Ab(a1),Ab(b1)))),"bounded high part"); v_ensures(Ab(r.x[1])<=X(1.5,A(A(Ab(a0),Ab(b0)),A(Ab(a1),Ab(b1)))),"bounded low part"); }
static ddr::dd_real st_subdd(const ddr::dd_real&a,const ddr::dd_real&b) noexcept { v_ensures(v_and(v_and(sbound(a.x[0]),sbound(b.x[0])),v_and(sbound(a.x[1]),sbound(b.x[1]))),"dd - dd is called inside its contract"); ddr::dd_real r(v_uf_dd0(a.x[0],b.x[0],A(a.x[1],b.x[1])),v_uf_dd1(a.x[0],b.x[0],A(a.x[1],b.x[1]))); double m=X(1.5,A(A(Ab(a.x[0]),Ab(b.x[0])),A(Ab(a.x[1]),Ab(b.x[1])))); v_lemma(v_and(Ab(r.x[0])<=m,Ab(r.x[1])<=m),"c26 dd minus dd"); return r; }
// a / b near the root of a
static bool dpre(double a,double b0,double b1){ return v_and(v_and(rng(a,0x1p-900,0x1p+900),rng(b0,0x1p-455,0x1p+455)),v_and(Ab(b1)<=X(0x1p-47,b0),within(X(b0,b0),a,0x1p-6))); }
// inside the division every correction is small against what it corrects (stronger than what quick_two_sum needs)
static double cut2(double a,double b,double&e,double k) noexcept { v_ensures(v_and(Ab(a)<=0x1p+1000,Ab(b)<=X(0x1p-38,Ab(a))),"a small correction of the quotient"); double s=a+b; e=v_uf_d3(a,b,k); v_lemma(Ab(e)<=X(0x1p-50,A(Ab(a),Ab(b))),"c26 dd two_sum, dd quick_two_sum"); return s; }
static double st_tsumd(double a,double b,double&e) noexcept { return cut2(a,b,e,1.0); } static double st_qsumd(double a,double b,double&e) noexcept { return cut2(a,b,e,2.0); }
void w_div(){ v_mode_round(); v_replace("dsga::cxcm::dd_real::two_sum",(void*)st_tsumd); v_replace("dsga::cxcm::dd_real::quick_two_sum",(void*)st_qsumd); v_replace("dsga::cxcm::dd_real::operator*(double, dsga::cxcm::dd_real::dd_real const&)",(void*)st_mulk); v_replace("dsga::cxcm::dd_real::operator-(double, dsga::cxcm::dd_real::dd_real const&)",(void*)st_sub); v_replace("dsga::cxcm::dd_real::operator-(dsga::cxcm::dd_real::dd_real const&, dsga::cxcm::dd_real::dd_real const&)",(void*)st_subdd);
 double a=v_in_f64(),b0=v_in_f64(),b1=v_in_f64(); v_requires(dpre(a,b0,b1)); ddr::dd_real b(b0,b1),r=a/b; double q=a/b0; v_ensures(err(r.x[0],q,X(0x1p-36,q)),"quotient"); v_ensures(Ab(r.x[1])<=X(0x1p-40,r.x[0]),"low part"); }
static ddr::dd_real st_div(double a,const ddr::dd_real&b) noexcept { v_ensures(dpre(a,b.x[0],b.x[1]),"double / dd is called inside its contract"); double q=a/b.x[0]; ddr::dd_real r(v_uf_dq0(a,b.x[0],b.x[1]),v_uf_dq1(a,b.x[0],b.x[1])); v_lemma(v_and(err(r.x[0],q,X(0x1p-38,q)),Ab(r.x[1])<=X(0x1p-40,r.x[0])),"c26 dd quotient"); return r; }
// the double iteration
static void inv_sqd(){ double c=v_local_f64("current_value",0),c1=v_local_f64("current_value",8),p=v_local_f64("previous_value",0),b=v_local_f64("boosted_arg",0);
 double m=mean(b,c),q=b/c,q0=v_uf_dq0(b,c,c1),q1=v_uf_dq1(b,c,c1),s0=v_uf_da0(c,q0,A(c1,q1)),s1=v_uf_da1(c,q0,A(c1,q1)),n=v_uf_dm0(s0,s1,0.5); // what the contracts of the operations return
 v_lemma(v_imp(v_and(safe(b),near(b,c)),v_and(X(32,q)>=X(31,c),X(32,q)<=X(33,c))),"sqrt.v quotient_near");
 v_lemma(v_imp(v_and(v_and(safe(b),near(b,c)),v_and(err(n,m,X(0x1p-20,m)),err(n,m,X(0x1p-20,m)))),v_and(within(X(n,n),b,0x1p-6),rng(n,0x1p-452,0x1p+452))),"sqrt.v newton_near_dd"); v_lemma(v_imp(v_and(near(b,c),safe(b)),rng(c,0x1p-451,0x1p+451)),"sqrt.v near_range");
 double mp=mean(b,p); v_lemma(v_imp(v_and(v_and(safe(b),near(b,p)),err(p,mp,X(0x1p-35,mp))),within(X(p,p),b,0x1p-33)),"sqrt.v fixed_point");
 v_inv(c>0.0,"positive"); v_inv(near(b,c),"near the root"); v_inv(rng(c,0x1p-452,0x1p+452),"in range"); v_inv(Ab(c1)<=X(0x1p-47,c),"normalised"); v_inv(v_or(p==0.0,v_and(near(b,p),err(c,mean(b,p),X(0x1p-35,mean(b,p))))),"close to the mean of the previous value and the quotient by it"); v_inv(v_imp(c==p,within(X(c,c),b,0x1p-32)),"unchanged only at the root"); }
#ifdef V_NATIVE
static bool isroot(double r,double x,double e){ __float128 t=(__float128)r*r-x; return t<=(__float128)e*x&&-t<=(__float128)e*x; }
#else
static bool isroot(double r,double x,double e){ return within(X(r,r),x,e); }
#endif
template<int K> void c_sqd(){ double x=v_in_f64(); v_mode_round(); v_requires(K==0?v_and(x>=0x1p-900,x<=0x1p+900):K==1?v_and(x>=0x1p-1074,x<0x1p-900):v_and(x>0x1p+900,x<=0x1.fffffffffffffp+1023)); v_replace("dsga::cxcm::relaxed::detail::fast_rsqrt",(void*)st_frs); v_replace("dsga::cxcm::relaxed::detail::scale_to_safe_range",(void*)st_scale<K>);
 v_replace("dsga::cxcm::dd_real::operator*(double, dsga::cxcm::dd_real::dd_real const&)",(void*)st_mulk); v_replace("dsga::cxcm::dd_real::operator+(dsga::cxcm::dd_real::dd_real const&, dsga::cxcm::dd_real::dd_real const&)",(void*)st_add); v_replace("dsga::cxcm::dd_real::operator/(double, dsga::cxcm::dd_real::dd_real const&)",(void*)st_div);
 v_loop("dsga::cxcm::relaxed::detail::converging_sqrt",0,inv_sqd); double r=cm::sqrt(x); v_ensures(isroot(r,x,0x1p-30),"the root to within a relative error of 2^-31"); }
Q(sqrt) Q(inversesqrt) Q(fast_inversesqrt)
extern "C" const v_entry v_table[] = {
#if PART==0
 E("sqrt float",s_sqrt<float>) E("sqrt double",s_sqrt<double>) E("scale to safe range",s_scale)
 E("inversesqrt float",s_inv<f_inv,float>) E("inversesqrt double",s_inv<f_inv,double>) E("fast_inversesqrt float",s_inv<f_fast,float>) E("fast_inversesqrt double",s_inv<f_fast,double>) E("rsqrt float",s_inv<f_rs,float>) E("rsqrt double",s_inv<f_rs,double>) E("fast_rsqrt float",s_inv<f_frs,float>) E("fast_rsqrt double",s_inv<f_frs,double>)
 E("same float",s_same<float>) E("same double",s_same<double>)
 L1(sqrt,float) L1(sqrt,double) L1(inversesqrt,float) L1(inversesqrt,double) L1(fast_inversesqrt,float) L1(fast_inversesqrt,double)
#elif PART==2
 E("estimate",p_est) E("formula fast_rsqrt",p_fast) E("formula fast_rsqrt float",p_fastf) E("formula fast_rsqrt double",p_fastd) E("formula rsqrt double",p_rsd) E("formula rsqrt float",p_rsf) E("positive fast_rsqrt double",b_inv<f_frs,double>) E("accuracy fast_rsqrt double",b_acc<f_frs,double>) E("positive fast_rsqrt float",b_inv<f_frs,float>) E("accuracy fast_rsqrt float",b_acc<f_frs,float>) E("positive rsqrt double",b_inv<f_rs,double>) E("accuracy rsqrt double",b_acc<f_rs,double>) E("positive rsqrt float",b_inv<f_rs,float>) E("accuracy rsqrt float",b_acc<f_rs,float>)
#elif PART==1
 E("constant sqrt float",s_csqrt<float>) E("constant sqrt double",s_csqrt<double>) E("constant inversesqrt float",s_inv<f_inv,float>) E("constant inversesqrt double",s_inv<f_inv,double>) E("constant fast_inversesqrt float",s_inv<f_fast,float>) E("constant fast_inversesqrt double",s_inv<f_fast,double>) E("constant rsqrt float",s_inv<f_rs,float>) E("constant rsqrt double",s_inv<f_rs,double>)
#elif PART==3
 E("loop sqrt float",c_sqf) E("dd two_sum",w_tsum<0>) E("dd quick_two_sum",w_tsum<1>) E("dd sum",w_add) E("dd difference",w_sub) E("dd multiple",w_mulk) E("dd minus dd",w_subdd) E("dd quotient",w_div) E("loop sqrt double",c_sqd<0>) E("loop sqrt double small",c_sqd<1>) E("loop sqrt double big",c_sqd<2>)
#endif
 V_END };
