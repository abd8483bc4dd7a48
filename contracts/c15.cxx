// C15: transcendental and similar functions are componentwise lifts of the standard scalar functions (left uninterpreted), in documented argument order
#include "lift.h"
// S::f is dsga's function on vectors, and the standard function on scalars: the lift contract then compares component i with std::
#define Q1(name,stdname) struct q_##name { template<class X> static auto f(const X&x){ if constexpr(std::is_floating_point_v<X>) return std::stdname(x); else return dsga::name(x); } }; struct d_##name { template<class T> static void go(){ T x=v_in<T>(); auto r=dsga::name(x); v_ensures(v_same<T>(r,std::stdname(x)),"scalar form is the standard function"); } };
Q1(sin,sin) Q1(cos,cos) Q1(tan,tan) Q1(asin,asin) Q1(acos,acos) Q1(sinh,sinh) Q1(cosh,cosh) Q1(tanh,tanh) Q1(asinh,asinh) Q1(acosh,acosh) Q1(atanh,atanh) Q1(exp,exp) Q1(log,log) Q1(exp2,exp2) Q1(log2,log2) Q1(sqrt,sqrt)
struct q_atan { template<class X> static auto f(const X&x){ if constexpr(std::is_floating_point_v<X>) return std::atan(x); else return dsga::atan(x); } template<class X,class Y> static auto f(const X&x,const Y&y){ if constexpr(std::is_floating_point_v<X>) return std::atan2(x,y); else return dsga::atan(x,y); } };
struct d_atan { template<class T> static void go(){ T x=v_in<T>(),y=v_in<T>(); auto r=dsga::atan(x); v_ensures(v_same<T>(r,std::atan(x)),"one argument: arc tangent"); auto q=dsga::atan(y,x); v_ensures(v_same<T>(q,std::atan2(y,x)),"two arguments (y, x): atan2(y, x)"); } };
struct q_pow { template<class X,class Y> static auto f(const X&x,const Y&y){ if constexpr(std::is_floating_point_v<X>) return std::pow(x,y); else return dsga::pow(x,y); } template<class T> static bool pre(T b,T e){ return v_and(b>=T(0),!v_and(b==T(0),e<=T(0))); } };
struct d_pow { template<class T> static void go(){ T x=v_in<T>(),y=v_in<T>(); v_requires(q_pow::pre(x,y)); auto r=dsga::pow(x,y); v_ensures(v_same<T>(r,std::pow(x,y)),"base, exponent"); } };
struct q_fma { template<class X,class Y,class Z> static auto f(const X&x,const Y&y,const Z&z){ if constexpr(std::is_floating_point_v<X>) return std::fma(x,y,z); else return dsga::fma(x,y,z); } };
struct d_fma { template<class T> static void go(){ T x=v_in<T>(),y=v_in<T>(),z=v_in<T>(); auto r=dsga::fma(x,y,z); v_ensures(v_same<T>(r,std::fma(x,y,z)),"fused a*b+c"); } };
struct q_ldexp { template<class X,class Y> static auto f(const X&x,const Y&y){ if constexpr(std::is_floating_point_v<X>) return std::ldexp(x,y); else return dsga::ldexp(x,y); } };
struct d_ldexp { template<class T> static void go(){ T x=v_in<T>(); int e=v_in<int>(); auto r=dsga::ldexp(x,e); v_ensures(v_same<T>(r,std::ldexp(x,e)),"x times 2 to the exponent"); } };
Q(inversesqrt) Q(fast_inversesqrt)
template<class T> constexpr T rpd(){ return static_cast<T>(0.017453292519943295769236907684886127L); } template<class T> constexpr T dpr(){ return static_cast<T>(57.295779513082320876798154814105170L); }
Q(radians) Q(degrees)
template<class T> void near(T r,T x,T k,const char*l){ constexpr T e=T(2)*std::numeric_limits<T>::epsilon(); T m=x*k; if(x>=T(0)) v_ensures(v_and(r-m<=e*m,m-r<=e*m),l); else v_ensures(v_and(r-m<=-e*m,m-r<=-e*m),l); }
template<class T> void d_rad(){ v_mode_real(); T x=v_in<T>(); T r=dsga::radians(x),d=dsga::degrees(x); near<T>(r,x,rpd<T>(),"radians multiplies by pi/180"); near<T>(d,x,dpr<T>(),"degrees multiplies by 180/pi"); }
template<class T> void d_raddeg(){ v_mode_real(); T x=v_in<T>(); T a=dsga::radians(T(dsga::degrees(x))),b=dsga::degrees(T(dsga::radians(x))); constexpr T e=T(2)*std::numeric_limits<T>::epsilon(); if(x>=T(0)){ v_ensures(v_and(a-x<=e*x,x-a<=e*x),"radians undoes degrees up to rounding of the constants"); v_ensures(v_and(b-x<=e*x,x-b<=e*x),"degrees undoes radians up to rounding of the constants"); } else { v_ensures(v_and(a-x<=-e*x,x-a<=-e*x),"radians undoes degrees up to rounding of the constants"); v_ensures(v_and(b-x<=-e*x,x-b<=-e*x),"degrees undoes radians up to rounding of the constants"); } }
template<int K1,int K2,class T,std::size_t N> void c_frexp(){ auto a=v_arr<T,N>(); auto b=v_arr<int,N>(); auto f=v_arr<T,4>(); auto g=v_arr<int,4>(); Opd<K1,T,N> x(a,f); Opd<K2,int,N> y(b,g); Snap sx(x); auto&& w=y.get(); auto r=dsga::frexp(x.get(),w); static_assert(std::is_same_v<decltype(r),VV<T,N>>); bool ok=true,eo=true; for(std::size_t i=0;i<N;i++){ int e=0; T m=std::frexp(a[i],&e); ok=v_and(ok,v_same<T>(r[i],m)); eo=v_and(eo,w[i]==e); } v_ensures(ok,"significand of component i"); v_ensures(eo,"exponent of component i"); v_ensures(sx.same(x),"argument unmodified"); }
template<class T> void s_frexp(){ T x=v_in<T>(); int e=v_in<int>(),q=0; T r=dsga::frexp(x,e); T m=std::frexp(x,&q); v_ensures(v_and(v_same<T>(r,m),e==q),"standard frexp"); }
#define DG(F) E("scalar " #F " float",d_##F::go<float>) E("scalar " #F " double",d_##F::go<double>)
#define LL(F) L1(F,float) L1(F,double)
#define FX1(A,B,T,n) E("frexp " #A " " #B " " #T " " #n,c_frexp<A,B,T,n>)
#define FX(A,B,T) FX1(A,B,T,1) FX1(A,B,T,2) FX1(A,B,T,3) FX1(A,B,T,4)
#define FXT(T) FX(OWN,OWN,T) FX(SWZ,VIEW,T) FX(CVIEW,SWZ,T) FX(OVSWZ,VSWZ,T) FX(VIEW,OVIEW,T) FX(OWN,OVSWZ,T)
#define LD1(A,B,T,n) E("ldexp " #A " " #B " " #T " " #n,lift2<q_ldexp,A,B,T,n,int>)
#define LD(A,B,T) LD1(A,B,T,1) LD1(A,B,T,2) LD1(A,B,T,3) LD1(A,B,T,4)
#define LDT(T) LD(OWN,OWN,T) LD(SWZ,VIEW,T) LD(CVIEW,SWZ,T) LD(OVSWZ,VSWZ,T) LD(VIEW,OVIEW,T) LD(OWN,OVSWZ,T)
#ifndef PART
#define PART 0
#endif
extern "C" const v_entry v_table[] = {
#if PART==0
 DG(sin) DG(cos) DG(tan) DG(asin) DG(acos) DG(atan) DG(sinh) DG(cosh) DG(tanh) DG(asinh) DG(acosh) DG(atanh) DG(exp) DG(log) DG(exp2) DG(log2) DG(sqrt) DG(pow) DG(fma) DG(ldexp) E("scalar frexp float",s_frexp<float>) E("scalar frexp double",s_frexp<double>) E("scalar radians degrees float",d_rad<float>) E("scalar radians degrees double",d_rad<double>) E("radians degrees inverse float",d_raddeg<float>) E("radians degrees inverse double",d_raddeg<double>)
 FXT(float) FXT(double) LDT(float) LDT(double)
#elif PART==1
 LL(sin) LL(cos) LL(tan) LL(asin) LL(acos) LL(atan)
#elif PART==2
 LL(sinh) LL(cosh) LL(tanh) LL(asinh) LL(acosh) LL(atanh)
#elif PART==3
 LL(exp) LL(log) LL(exp2) LL(log2) LL(sqrt) LL(radians) LL(degrees)
#elif PART==4
 L2(atan,float) L2(atan,double) L2(pow,float) L2(pow,double) L3(fma,float) L3(fma,double)
#elif PART==5
 LL(inversesqrt) LL(fast_inversesqrt)
#endif
 V_END };
