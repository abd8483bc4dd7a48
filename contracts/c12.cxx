// C12: scalar functions of the cxcm layer and the vector functions built on them, compiled with the constant-evaluated branch selected,
// agree with the run-time library result for every argument, with no undefined conversion or overflow (float-to-int range obligations).
// PART 4 compiles the same contracts with the run-time branch selected.
constexpr bool v_is_consteval() noexcept { return true; }
constexpr bool v_is_runtime() noexcept { return false; }
#ifndef PART
#define PART 0
#endif
#if PART!=4
#define __builtin_is_constant_evaluated v_is_consteval
#else
#define __builtin_is_constant_evaluated v_is_runtime
#endif
#include "args.h"
#include "expsplit.h"
namespace cm=dsga::cxcm;
template<class T> void c_trunc(){ T x=v_in<T>(); v_ensures(v_same<T>(cm::trunc(x),v_rti(4,x)),"trunc"); }
template<class T> void c_floor(){ T x=v_in<T>(); v_ensures(v_same<T>(cm::floor(x),v_rti(3,x)),"floor"); }
template<class T> void c_ceil(){ T x=v_in<T>(); v_ensures(v_same<T>(cm::ceil(x),v_rti(2,x)),"ceil"); }
template<class T,int K=0> void c_round(){ T x=xin<T,K>(); v_ensures(v_same<T>(cm::round(x),v_rti(1,x)),"round"); }
template<class T,int K=0> void c_even(){ T x=xin<T,K>(); v_ensures(v_same<T>(cm::round_even(x),v_rti(0,x)),"round_even"); }
template<class T> void c_abs(){ T x=v_in<T>(); T r=cm::abs(x),q=cm::fabs(x); v_ensures(v_same<T>(r,std::fabs(x)),"abs"); v_ensures(v_same<T>(q,std::fabs(x)),"fabs"); }
template<class T> void c_iabs(){ T x=v_in<T>(); if constexpr(std::is_signed_v<T>) v_requires(x!=std::numeric_limits<T>::min()); T r=cm::abs(x); if constexpr(std::is_signed_v<T>){ v_ensures(v_and(r>=T(0),v_or(r==x,r==-x)),"integer abs"); v_ensures(v_same<double>(cm::fabs(x),static_cast<double>(r)),"integer fabs"); } else { v_ensures(r==x,"integer abs"); v_ensures(v_same<double>(cm::fabs(x),static_cast<double>(x)),"integer fabs"); } }
template<class T> void c_int(){ T x=v_in<T>(); double d=static_cast<double>(x); v_ensures(v_same<double>(cm::trunc(x),d),"trunc"); v_ensures(v_same<double>(cm::floor(x),d),"floor"); v_ensures(v_same<double>(cm::ceil(x),d),"ceil"); v_ensures(v_same<double>(cm::round(x),d),"round"); v_ensures(v_same<double>(cm::round_even(x),d),"round_even"); v_ensures(v_same<double>(cm::fract(x),0.0),"fract"); }
template<class T> struct Bt; template<> struct Bt<float>{ using U=unsigned; static constexpr U s=0x80000000u,e=0x7f800000u,m=0x007fffffu; }; template<> struct Bt<double>{ using U=unsigned long long; static constexpr U s=0x8000000000000000ull,e=0x7ff0000000000000ull,m=0x000fffffffffffffull; };
template<class T> void c_class(){ using B=Bt<T>; using U=typename B::U; U b=v_in<U>(); T x=std::bit_cast<T>(b); bool em=(b&B::e)==B::e,ez=(b&B::e)==0,mz=(b&B::m)==0; bool nan=v_and(em,!mz),inf=v_and(em,mz),zero=v_and(ez,mz),sub=v_and(ez,!mz);
  v_ensures(v_iff(cm::isnan(x),nan),"isnan"); v_ensures(v_iff(cm::isinf(x),inf),"isinf"); v_ensures(v_iff(cm::isfinite(x),!em),"isfinite"); v_ensures(v_iff(cm::isnormal(x),v_and(!em,!ez)),"isnormal"); v_ensures(v_iff(cm::signbit(x),(b&B::s)!=0),"signbit");
  int c=cm::fpclassify(x); v_ensures(v_and(v_and(v_iff(c==FP_NAN,nan),v_iff(c==FP_INFINITE,inf)),v_and(v_and(v_iff(c==FP_ZERO,zero),v_iff(c==FP_SUBNORMAL,sub)),v_iff(c==FP_NORMAL,v_and(!em,!ez)))),"fpclassify"); v_ensures(v_iff(cm::is_negative_zero(x),b==B::s),"is_negative_zero"); }
template<class T> void c_copysign(){ using B=Bt<T>; using U=typename B::U; U a=v_in<U>(),b=v_in<U>(); T r=cm::copysign(std::bit_cast<T>(a),std::bit_cast<T>(b)); v_ensures(std::bit_cast<U>(r)==((a&~B::s)|(b&B::s)),"magnitude of the first, sign of the second"); }
// remainder: the arguments with a fixed answer, and a divisor bigger than the dividend
template<class T> void c_fmod(){ T x=v_in<T>(),y=v_in<T>(); T ax=std::fabs(x),ay=std::fabs(y); constexpr T inf=std::numeric_limits<T>::infinity(); v_requires(v_or(v_or(v_or(v_isnan(x),v_isnan(y)),v_or(ax==inf,ay==inf)),v_or(y==T(0),ax<ay))); bool bad=v_or(v_or(v_isnan(x),v_isnan(y)),v_or(ax==inf,y==T(0))); T r=cm::fmod(x,y); v_ensures(v_iff(v_isnan(r),bad),"NaN exactly for NaN arguments, an infinite dividend or a zero divisor"); v_ensures(v_or(bad,v_same<T>(r,x)),"the dividend itself when it is smaller than the divisor"); }
// the long division itself: the loops of relaxed::fmod cut by invariants. P(m,d): m is d times a power of two >= 1; M(a,d): remainder of a by d
// (lemmas about both: proofs/fmod.v). First exactly (sign and range of the result), then over the reals with rounding (its value).
template<class T> T loc(const char*n){ if constexpr(std::is_same_v<T,float>) return v_local_f32(n,0); else return v_local_f64(n,0); }
template<class T> bool P(T m,T d){ if constexpr(std::is_same_v<T,float>) return v_uf_p2m_f(m,d); else return v_uf_p2m_d(m,d); }
template<class T> T M(T m,T d){ if constexpr(std::is_same_v<T,float>) return v_uf_rem_f(m,d); else return v_uf_rem_d(m,d); }
template<class T> bool half(T m){ if constexpr(std::is_same_v<T,float>) return v_uf_halfrep_f(m); else return v_uf_halfrep_d(m); }
template<class T> void invX0(){ T m=loc<T>("multiple"),d=loc<T>("divisor"),r=loc<T>("remainder"); v_inv(v_and(d>T(0),v_or(m==d,v_and(m>=d,m<=r))),"the multiple is the divisor or at most the remainder"); }
template<class T> void invX1(){ T m=loc<T>("multiple"),d=loc<T>("divisor"),r=loc<T>("remainder"); v_inv(v_and(r>=T(0),r<=std::numeric_limits<T>::max()),"the remainder is finite"); v_inv(std::bit_cast<typename Bt<T>::U>(r)<Bt<T>::s,"the remainder has a clear sign bit"); v_inv(v_and(m>=T(0),d>T(0)),"the multiple is not negative"); }
template<class T> void c_fmodX(){ using B=Bt<T>; T x=v_in<T>(),y=v_in<T>(); constexpr T mx=std::numeric_limits<T>::max(); v_requires(v_and(std::fabs(x)<=mx,v_and(std::fabs(y)<=mx,y!=T(0)))); v_loop("dsga::cxcm::relaxed::fmod",0,invX0<T>); v_loop("dsga::cxcm::relaxed::fmod",1,invX1<T>);
  T r=cm::fmod(x,y); v_ensures(std::fabs(r)<std::fabs(y),"smaller than the divisor"); v_ensures((std::bit_cast<typename B::U>(r)&B::s)==(std::bit_cast<typename B::U>(x)&B::s),"sign of the dividend"); }
template<class T> void inv0(){ T m=loc<T>("multiple"),d=loc<T>("divisor"),r=loc<T>("remainder"); v_lemma(P(d,d),"fmod.v p2m_refl"); v_lemma(v_imp(P(m,d),P(m+m,d)),"fmod.v p2m_double"); v_inv(d>T(0),"divisor"); v_inv(P(m,d),"the multiple is a power of two times the divisor"); v_inv(v_or(m==d,m<=r),"and not bigger than the remainder"); v_lemma(v_imp(v_and(P(m,d),d>T(0)),m>=d),"fmod.v p2m_ge"); }
template<class T> void inv1(){ T m=loc<T>("multiple"),d=loc<T>("divisor"),r=loc<T>("remainder"),x=loc<T>("x"); v_lemma(v_imp(v_and(P(m,d),d>T(0)),m>=d),"fmod.v p2m_ge"); v_lemma(v_imp(v_and(d>T(0),v_and(P(m,d),m!=d)),v_and(half(m),v_and(P(m*T(0.5f),d),m*T(0.5f)>=d))),"fmod.v p2m_half, halfrep");
  v_lemma(v_imp(v_and(v_and(P(m,d),d>T(0)),v_and(m<=r,r<=m+m)),M(r-m,d)==M(r,d)),"fmod.v rem_sub"); v_lemma(v_imp(v_and(T(0)<=r,r<d),M(r,d)==r),"fmod.v rem_small");
  v_inv(d>T(0),"divisor"); v_inv(r>=T(0),"remainder"); v_inv(v_or(r<d,v_and(P(m,d),r<m+m)),"the remainder is less than twice the multiple"); v_inv(M(r,d)==M(std::fabs(x),d),"the remainder of the remainder is unchanged"); }
template<class T> void c_fmodR(){ T x=v_in<T>(),y=v_in<T>(); v_mode_round(); v_requires(y!=T(0)); v_loop("dsga::cxcm::relaxed::fmod",0,inv0<T>); v_loop("dsga::cxcm::relaxed::fmod",1,inv1<T>);
  T r=cm::relaxed::fmod(x,y); T e=M(T(std::fabs(x)),T(std::fabs(y))); v_ensures(r==v_ite(x<T(0),-e,e),"the exact remainder, with the sign of the dividend"); }
// the relaxed layer on its own domain (finite, no fraction bits lost in the conversion to an integer): same value as the run-time result, whatever the sign of zero
template<class T,int K=0> T rin(){ T x=xin<T,K>(); constexpr T lim=std::is_same_v<T,float>?T(8388608.0f):T(4503599627370496.0); v_requires(v_and(x<lim,x>-lim)); return x; }
template<class T> void r_trunc(){ T x=rin<T>(); v_ensures(cm::relaxed::trunc(x)==v_rti(4,x),"trunc"); }
template<class T> void r_floor(){ T x=rin<T>(); v_ensures(cm::relaxed::floor(x)==v_rti(3,x),"floor"); }
template<class T> void r_ceil(){ T x=rin<T>(); v_ensures(cm::relaxed::ceil(x)==v_rti(2,x),"ceil"); }
template<class T,int K=0> void r_round(){ T x=rin<T,K>(); v_ensures(cm::relaxed::round(x)==v_rti(1,x),"round"); }
template<class T,int K=0> void r_even(){ T x=rin<T,K>(); v_ensures(cm::relaxed::round_even(x)==v_rti(0,x),"round_even"); }
template<class T> void r_abs(){ T x=v_in<T>(); v_requires(!v_isnan(x)); T r=cm::relaxed::abs(x); v_ensures(v_and(r==std::fabs(x),cm::relaxed::fabs(x)==r),"abs"); }
template<class T> void r_iabs(){ T x=v_in<T>(); if constexpr(std::is_signed_v<T>) v_requires(x!=std::numeric_limits<T>::min()); T r=cm::relaxed::abs(x); if constexpr(std::is_signed_v<T>) v_ensures(v_and(r>=T(0),v_or(r==x,r==-x)),"integer abs"); else v_ensures(r==x,"integer abs"); v_ensures(v_same<double>(cm::relaxed::fabs(x),static_cast<double>(r)),"integer fabs"); }
// the vector functions in a constant expression
#define FN(name,mode) struct q_##name { template<class X> static constexpr auto f(const X&x){ return dsga::name(x); } static constexpr int m=mode; }; 
FN(floor,3) FN(ceil,2) FN(trunc,4) FN(round,1) FN(roundEven,0) FN(fract,5)
template<int M,class T> T scal(T x){ if constexpr(M==3) return cm::floor(x); else if constexpr(M==2) return cm::ceil(x); else if constexpr(M==4) return cm::trunc(x); else if constexpr(M==1) return cm::round(x); else if constexpr(M==0) return cm::round_even(x); else if constexpr(M==5) return cm::fract(x); else return cm::abs(x); }
struct q_abs { template<class X> static constexpr auto f(const X&x){ return dsga::abs(x); } static constexpr int m=9; };
template<class F,int K,class T,std::size_t N> void vec(){ auto a=v_arr<T,N>(); auto f=v_arr<T,4>(); Opd<K,T,N> x(a,f); auto r=F::f(x.get()); bool ok=true; for(std::size_t i=0;i<N;i++) ok=v_and(ok,v_same<T>(v_comp(r,i),scal<F::m,T>(a[i]))); v_ensures(ok,"component i is the scalar function of component i (which equals the run-time library result by its own contract)"); }
// results computed by the compiler itself in constant expressions
constexpr float Fi=std::numeric_limits<float>::infinity(),Fn=std::numeric_limits<float>::quiet_NaN();
#if PART!=4
static_assert(cm::fmod(5.5,2.0)==1.5&&cm::fmod(-5.5,2.0)==-1.5&&cm::fmod(1e300,7.0)==1.0&&cm::fmod(1e308,1e-300)<1e-300&&cm::fmod(-6.0f,3.0f)==0.0f,"fmod in a constant expression");
#endif
#define XR(k) E("round double, exponent class " #k,c_round<double,k>)
#define XE(k) E("even double, exponent class " #k,c_even<double,k>)
#define SF(F,T) E(#F " " #T,c_##F<T>)
#define S2(F) SF(F,float) SF(F,double)
#define SR(F,T) E("relaxed " #F " " #T,r_##F<T>)
#define XRR(k) E("relaxed round double, exponent class " #k,r_round<double,k>)
#define XRE(k) E("relaxed even double, exponent class " #k,r_even<double,k>)
#define SR2(F) SR(F,float) SR(F,double)
#define VV1(F,K,T) E("vector " #F " " #K " " #T " 1",vec<q_##F,K,T,1>) E("vector " #F " " #K " " #T " 3",vec<q_##F,K,T,3>) E("vector " #F " " #K " " #T " 4",vec<q_##F,K,T,4>)
#define VK(F) VV1(F,OWN,float) VV1(F,OWN,double) VV1(F,VIEW,float) VV1(F,SWZ,double)
extern "C" const v_entry v_table[] = {
#if PART==0 || PART==4
#if PART==4
 SF(round,double)
#endif
 S2(trunc) S2(floor) S2(ceil) SF(round,float) S2(abs) SF(iabs,int) SF(iabs,long long) SF(iabs,unsigned) SF(iabs,unsigned long long) SF(int,int) SF(int,long long) SF(int,unsigned) SF(int,unsigned long long) S2(class) S2(copysign)
#elif PART==1
 VK(floor) VK(ceil) VK(trunc) VK(round) VK(abs) VK(roundEven) VK(fract)
#elif PART==2
 SF(even,float)
#elif PART==5
 XALL(XE) XALL(XR)
#elif PART==3
 S2(fmod) S2(fmodX) S2(fmodR)
#elif PART==6
 SR2(trunc) SR2(floor) SR2(ceil) SR(round,float) SR(even,float) XIN(XRR) XIN(XRE) SR2(abs) SR(iabs,int) SR(iabs,long long) SR(iabs,unsigned) SR(iabs,unsigned long long)
#endif
 V_END };
