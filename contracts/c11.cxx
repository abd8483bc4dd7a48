// C11: rounding functions return the exact mathematical integer for every input (run-time forms; c12.cxx proves the constant-evaluated forms)
#include "args.h"
#include "expsplit.h"
namespace cm=dsga::cxcm;
#define FN(name,mode) struct q_##name { template<class X> static auto f(const X&x){ return dsga::name(x); } static constexpr int m=mode; }; 
FN(floor,3) FN(ceil,2) FN(trunc,4) FN(round,1) FN(roundEven,0)
struct q_fract { template<class X> static auto f(const X&x){ return dsga::fract(x); } };
// the scalar function is the IEEE rounding to integral, with every special case
template<class F,class T,int K=0> void scal(){ T x=xin<T,K>(); T r=F::f(x); v_ensures(v_same<T>(r,v_rti(F::m,x)),"the mathematically defined integer"); v_ensures(v_imp(v_isnan(x),v_isnan(r)),"NaN is preserved"); constexpr T big=sizeof(T)==4?T(8388608):T(4503599627370496); v_ensures(v_imp(v_or(x>=big,x<=-big),v_same<T>(r,x)),"values too large to have a fraction, and infinities, are unchanged"); }
// independent characterisation by inequalities
template<class F,class T,int K=0> void ineq(){ T x=xin<T,K>(); constexpr T big=sizeof(T)==4?T(8388608):T(4503599627370496); v_requires(v_and(x<big,x>-big)); T r=F::f(x); v_ensures(v_same<T>(v_rti(4,r),r),"integral"); T d=x-r; if constexpr(F::m==3) v_ensures(v_and(r<=x,d<=T(1)),"floor: the largest integer not above x"); if constexpr(F::m==2) v_ensures(v_and(r>=x,d>=-T(1)),"ceil: the smallest integer not below x"); if constexpr(F::m==4) v_ensures(v_and(v_imp(x>=T(0),v_and(r<=x,d<T(1))),v_imp(x<=T(0),v_and(r>=x,d>-T(1)))),"trunc: towards zero"); if constexpr(F::m==1||F::m==0) v_ensures(v_and(d<=T(0.5),d>=T(-0.5)),"round: nearest"); if constexpr(F::m==1) v_ensures(v_imp(v_or(d==T(0.5),d==T(-0.5)),v_iff(r>x,x>T(0))),"halfway cases away from zero"); }
template<class T,int K=0> void fr(){ T x=xin<T,K>(); T r=q_fract::f(x); v_ensures(v_imp(v_isnan(x),v_isnan(r)),"NaN is preserved"); if(v_and(x<=std::numeric_limits<T>::max(),x>=std::numeric_limits<T>::lowest())){ v_ensures(r==x-v_rti(3,x),"fract is x - floor(x)"); v_ensures(v_and(r>=T(0),r<=T(1)),"never negative"); } }
// vector forms apply the scalar function to every component, whatever the kind
template<class F,int K,class T,std::size_t N> void vec(){ auto a=v_arr<T,N>(); auto f=v_arr<T,4>(); Opd<K,T,N> x(a,f); Snap sx(x); auto r=F::f(x.get()); static_assert(std::is_same_v<decltype(r),std::conditional_t<N==1,T,VV<T,N>>>); bool ok=true; for(std::size_t i=0;i<N;i++) ok=v_and(ok,v_same<T>(v_comp(r,i),F::f(a[i]))); v_ensures(ok,"component i is the scalar function of component i"); v_ensures(sx.same(x),"argument unmodified"); }
#define XSRE(k) E("scalar roundEven double, exponent class " #k,scal<q_roundEven,double,k>)
#define XSFR(k) E("scalar fract double, exponent class " #k,fr<double,k>)
#define XIRE(k) E("inequalities roundEven double, exponent class " #k,ineq<q_roundEven,double,k>)
#define XIRO(k) E("inequalities round double, exponent class " #k,ineq<q_round,double,k>)
#define SF(F) E("scalar " #F " float",scal<q_##F,float>) E("inequalities " #F " float",ineq<q_##F,float>)
#define S(F) E("scalar " #F " float",scal<q_##F,float>) E("scalar " #F " double",scal<q_##F,double>) E("inequalities " #F " float",ineq<q_##F,float>) E("inequalities " #F " double",ineq<q_##F,double>)
#define V1(F,K,T) E("vector " #F " " #K " " #T " 1",vec<q_##F,K,T,1>) E("vector " #F " " #K " " #T " 2",vec<q_##F,K,T,2>) E("vector " #F " " #K " " #T " 3",vec<q_##F,K,T,3>) E("vector " #F " " #K " " #T " 4",vec<q_##F,K,T,4>)
#define VK(F,T) V1(F,OWN,T) V1(F,SWZ,T) V1(F,VIEW,T) V1(F,VSWZ,T) V1(F,OVIEW,T) V1(F,OVSWZ,T) V1(F,CVIEW,T)
#define VT(F) VK(F,float) VK(F,double)
#ifndef PART
#define PART 0
#endif
extern "C" const v_entry v_table[] = {
#if PART==0
 S(floor) S(ceil) S(trunc) SF(round) E("scalar round double",scal<q_round,double>) SF(roundEven) E("scalar fract float",fr<float>) XALL(XSRE) XALL(XSFR) XIN(XIRE) XIN(XIRO)
#elif PART==1
 VT(floor) VT(ceil) VT(trunc) VT(round)
#elif PART==2
 VK(roundEven,float) VT(fract)
#elif PART==3
 VK(roundEven,double)
#endif
 V_END };
