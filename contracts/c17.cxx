// C17: classification and sign functions decode the IEEE-754 class of every bit pattern: scalar, vector (every kind), run-time and constant-evaluated forms
constexpr bool v_is_consteval() noexcept { return true; }
constexpr bool v_is_runtime() noexcept { return false; }
#ifndef PART
#define PART 0
#endif
#if PART==1
#define __builtin_is_constant_evaluated v_is_consteval
#elif PART==0
#define __builtin_is_constant_evaluated v_is_runtime
#endif
#include "lift.h"
namespace cm=dsga::cxcm;
template<class T> struct Bt; template<> struct Bt<float>{ using U=unsigned; static constexpr U s=0x80000000u,e=0x7f800000u,m=0x007fffffu; }; template<> struct Bt<double>{ using U=unsigned long long; static constexpr U s=0x8000000000000000ull,e=0x7ff0000000000000ull,m=0x000fffffffffffffull; };
template<class T> using UB=typename Bt<T>::U;
template<class T> struct Cl { bool em,ez,mz,nan,inf,zero,sub,nrm,fin,neg; Cl(UB<T> b){ using B=Bt<T>; em=(b&B::e)==B::e; ez=(b&B::e)==0; mz=(b&B::m)==0; nan=v_and(em,!mz); inf=v_and(em,mz); zero=v_and(ez,mz); sub=v_and(ez,!mz); nrm=v_and(!em,!ez); fin=!em; neg=(b&B::s)!=0; } };
template<class T> void s_class(){ auto b=v_in<UB<T>>(); T x=std::bit_cast<T>(b); Cl<T> k(b);
  v_ensures(v_iff(cm::isnan(x),k.nan),"isnan"); v_ensures(v_iff(cm::isinf(x),k.inf),"isinf"); v_ensures(v_iff(dsga::isnan(x),k.nan),"dsga isnan"); v_ensures(v_iff(dsga::isinf(x),k.inf),"dsga isinf"); v_ensures(v_iff(cm::isfinite(x),k.fin),"isfinite"); v_ensures(v_iff(cm::isnormal(x),k.nrm),"isnormal"); v_ensures(v_iff(cm::signbit(x),k.neg),"signbit");
  int c=cm::fpclassify(x); v_ensures(v_and(v_and(v_iff(c==FP_NAN,k.nan),v_iff(c==FP_INFINITE,k.inf)),v_and(v_and(v_iff(c==FP_ZERO,k.zero),v_iff(c==FP_SUBNORMAL,k.sub)),v_iff(c==FP_NORMAL,k.nrm))),"fpclassify");
  v_ensures(v_iff(cm::is_negative_zero(x),b==Bt<T>::s),"is_negative_zero"); }
template<class T> void s_copysign(){ using B=Bt<T>; auto a=v_in<UB<T>>(),b=v_in<UB<T>>(); T r=cm::copysign(std::bit_cast<T>(a),std::bit_cast<T>(b)); v_ensures(std::bit_cast<UB<T>>(r)==((a&~B::s)|(b&B::s)),"magnitude of the first, sign of the second"); }
template<int K,class T,std::size_t N> void v_class(){ auto b=v_arr<UB<T>,N>(); Arr<T,4> f; v_for<4>([&](auto i){ f[i]=std::bit_cast<T>(v_in<UB<T>>()); }); Arr<T,N> a; v_for<N>([&](auto i){ a[i]=std::bit_cast<T>(b[i]); }); Opd<K,T,N> x(a,f); auto n=dsga::isnan(x.get()),q=dsga::isinf(x.get()); static_assert(l_rtype<decltype(n),bool,N>&&l_rtype<decltype(q),bool,N>,"result type"); bool ok=true,oi=true,un=true; for(std::size_t i=0;i<N;i++){ Cl<T> k(b[i]); ok=v_and(ok,v_iff(v_comp(n,i),k.nan)); oi=v_and(oi,v_iff(v_comp(q,i),k.inf)); } v_ensures(ok,"isnan of each component"); v_ensures(oi,"isinf of each component"); v_for<N>([&](auto i){ un=v_and(un,std::bit_cast<UB<T>>(x.raw(x.at(i)))==b[i]); }); v_ensures(un,"argument unmodified"); }
// the scalar classifiers applied to a vector through query
template<int K,class T,std::size_t N> void v_query(){ auto b=v_arr<UB<T>,N>(); Arr<T,4> f; v_for<4>([&](auto i){ f[i]=T(0); }); Arr<T,N> a; v_for<N>([&](auto i){ a[i]=std::bit_cast<T>(b[i]); }); Opd<K,T,N> x(a,f);
  auto n=x.get().query([](T v){ return cm::isnormal(v); }); auto g=x.get().query([](T v){ return cm::isfinite(v); }); auto s=x.get().query([](T v){ return cm::signbit(v); }); bool on=true,og=true,os=true; for(std::size_t i=0;i<N;i++){ Cl<T> k(b[i]); on=v_and(on,v_iff(v_comp(n,i),k.nrm)); og=v_and(og,v_iff(v_comp(g,i),k.fin)); os=v_and(os,v_iff(v_comp(s,i),k.neg)); } v_ensures(on,"isnormal of each component"); v_ensures(og,"isfinite of each component"); v_ensures(os,"signbit of each component"); }
// evaluated by the compiler in constant expressions
template<class T> constexpr bool ce(){ using L=std::numeric_limits<T>; constexpr T i=L::infinity(),n=L::quiet_NaN(),d=L::denorm_min(),m=L::min(),M=L::max(); return cm::isnan(n)&&!cm::isnan(i)&&!cm::isnan(T(1))&&cm::isinf(-i)&&cm::isinf(i)&&!cm::isinf(M)&&cm::fpclassify(d)==FP_SUBNORMAL&&cm::fpclassify(-(m-d))==FP_SUBNORMAL&&cm::fpclassify(m)==FP_NORMAL&&cm::fpclassify(T(-0.0))==FP_ZERO&&cm::fpclassify(-i)==FP_INFINITE&&cm::fpclassify(n)==FP_NAN&&cm::signbit(T(-0.0))&&!cm::signbit(T(0.0))&&cm::signbit(-i)&&cm::isnormal(-M)&&!cm::isnormal(d)&&cm::isfinite(d)&&!cm::isfinite(n)&&cm::signbit(cm::copysign(T(3),T(-0.0)))&&!cm::signbit(cm::copysign(T(-0.0),T(1)))&&dsga::isnan(dsga::basic_vector<T,2>(n,i))[0]&&dsga::isinf(dsga::basic_vector<T,2>(n,i))[1]; }
static_assert(ce<float>()&&ce<double>(),"classification in a constant expression");
#define KN(fn,txt,K,T) E(txt " " #K " " #T " 1",fn<K,T,1>) E(txt " " #K " " #T " 2",fn<K,T,2>) E(txt " " #K " " #T " 3",fn<K,T,3>) E(txt " " #K " " #T " 4",fn<K,T,4>)
#define ALL(fn,txt,T) KN(fn,txt,OWN,T) KN(fn,txt,SWZ,T) KN(fn,txt,VIEW,T) KN(fn,txt,VSWZ,T) KN(fn,txt,OVIEW,T) KN(fn,txt,OVSWZ,T) KN(fn,txt,CVIEW,T)
extern "C" const v_entry v_table[] = {
 E("scalar class float",s_class<float>) E("scalar class double",s_class<double>) E("scalar copysign float",s_copysign<float>) E("scalar copysign double",s_copysign<double>)
 ALL(v_class,"isnan isinf",float) ALL(v_class,"isnan isinf",double)
 ALL(v_query,"query",float) ALL(v_query,"query",double)
 V_END };
