// modular contracts for functions lifted to vectors: component i of the result is the scalar function (under its own contract) of component i
// of every argument, for operands of any kind; the arguments are unmodified. F::f is the overloaded function, F::pre its precondition.
#pragma once
#include "args.h"
template<class F,class...T> bool l_pre(T...x){ if constexpr(requires{ F::pre(x...); }) return F::pre(x...); else return true; }
template<class R,class T,std::size_t N> constexpr bool l_rtype=std::is_same_v<R,std::conditional_t<N==1,T,VV<T,N>>>;
#define LIFT_END(RT,CALL) { static_assert(l_rtype<decltype(r),RT,N>,"the result is a vector of the argument length (a scalar for length one)"); bool ok=true; for(std::size_t i=0;i<N;i++) ok=v_and(ok,v_same<RT>(v_comp(r,i),CALL)); v_ensures(ok,"component i is the scalar function of component i"); }
template<class F,int K,class T,std::size_t N> void lift1(){ auto a=v_arr<T,N>(); auto f=v_arr<T,4>(); for(std::size_t i=0;i<N;i++) v_requires(l_pre<F>(a[i])); Opd<K,T,N> x(a,f); Snap sx(x); auto r=F::f(x.get()); using R=decltype(F::f(a[0])); LIFT_END(R,F::f(a[i])) v_ensures(sx.same(x),"argument unmodified"); }
template<class F,int K1,int K2,class T,std::size_t N,class U=T> void lift2(){ auto a=v_arr<T,N>(); auto b=v_arr<U,N>(); auto f=v_arr<T,4>(); auto g=v_arr<U,4>(); for(std::size_t i=0;i<N;i++) v_requires(l_pre<F>(a[i],b[i])); Opd<K1,T,N> x(a,f); Opd<K2,U,N> y(b,g); Snap sx(x); Snap sy(y); auto r=F::f(x.get(),y.get()); using R=decltype(F::f(a[0],b[0])); LIFT_END(R,F::f(a[i],b[i])) v_ensures(v_and(sx.same(x),sy.same(y)),"arguments unmodified"); }
template<class F,int K1,class T,std::size_t N> void lift2vs(){ auto a=v_arr<T,N>(); T b=v_in<T>(); auto f=v_arr<T,4>(); for(std::size_t i=0;i<N;i++) v_requires(l_pre<F>(a[i],b)); Opd<K1,T,N> x(a,f); Snap sx(x); auto r=F::f(x.get(),b); using R=decltype(F::f(a[0],b)); LIFT_END(R,F::f(a[i],b)) v_ensures(sx.same(x),"argument unmodified"); }
template<class F,int K1,class T,std::size_t N> void lift2sv(){ T a=v_in<T>(); auto b=v_arr<T,N>(); auto f=v_arr<T,4>(); for(std::size_t i=0;i<N;i++) v_requires(l_pre<F>(a,b[i])); Opd<K1,T,N> x(b,f); Snap sx(x); auto r=F::f(a,x.get()); using R=decltype(F::f(a,b[0])); LIFT_END(R,F::f(a,b[i])) v_ensures(sx.same(x),"argument unmodified"); }
template<class F,int K1,int K2,int K3,class T,std::size_t N,class W=T> void lift3(){ auto a=v_arr<T,N>(); auto b=v_arr<T,N>(); auto c=v_arr<W,N>(); auto f=v_arr<T,4>(); auto h=v_arr<W,4>(); for(std::size_t i=0;i<N;i++) v_requires(l_pre<F>(a[i],b[i],c[i])); Opd<K1,T,N> x(a,f); Opd<K2,T,N> y(b,f); Opd<K3,W,N> z(c,h); Snap sx(x); Snap sy(y); Snap sz(z); auto r=F::f(x.get(),y.get(),z.get()); using R=decltype(F::f(a[0],b[0],c[0])); LIFT_END(R,F::f(a[i],b[i],c[i])) v_ensures(v_and(sx.same(x),v_and(sy.same(y),sz.same(z))),"arguments unmodified"); }
template<class F,int K1,class T,std::size_t N> void lift3vss(){ auto a=v_arr<T,N>(); T b=v_in<T>(),c=v_in<T>(); auto f=v_arr<T,4>(); for(std::size_t i=0;i<N;i++) v_requires(l_pre<F>(a[i],b,c)); Opd<K1,T,N> x(a,f); Snap sx(x); auto r=F::f(x.get(),b,c); using R=decltype(F::f(a[0],b,c)); LIFT_END(R,F::f(a[i],b,c)) v_ensures(sx.same(x),"argument unmodified"); }
template<class F,int K1,class T,std::size_t N> void lift3ssv(){ T a=v_in<T>(),b=v_in<T>(); auto c=v_arr<T,N>(); auto f=v_arr<T,4>(); for(std::size_t i=0;i<N;i++) v_requires(l_pre<F>(a,b,c[i])); Opd<K1,T,N> x(c,f); Snap sx(x); auto r=F::f(a,b,x.get()); using R=decltype(F::f(a,b,c[0])); LIFT_END(R,F::f(a,b,c[i])) v_ensures(sx.same(x),"argument unmodified"); }
template<class F,int K1,int K2,class T,std::size_t N,class W=T> void lift3vvs(){ auto a=v_arr<T,N>(); auto b=v_arr<T,N>(); W c=v_in<W>(); auto f=v_arr<T,4>(); for(std::size_t i=0;i<N;i++) v_requires(l_pre<F>(a[i],b[i],c)); Opd<K1,T,N> x(a,f); Opd<K2,T,N> y(b,f); Snap sx(x); Snap sy(y); auto r=F::f(x.get(),y.get(),c); using R=decltype(F::f(a[0],b[0],c)); LIFT_END(R,F::f(a[i],b[i],c)) v_ensures(v_and(sx.same(x),sy.same(y)),"arguments unmodified"); }
#define Q(name) struct q_##name { template<class...X> static auto f(const X&...x){ return dsga::name(x...); } };
#define LE(fn,txt,...) E(txt,fn<__VA_ARGS__>)
#define L1N(F,K,T) LE(lift1,#F " " #K " " #T " 1",q_##F,K,T,1) LE(lift1,#F " " #K " " #T " 2",q_##F,K,T,2) LE(lift1,#F " " #K " " #T " 3",q_##F,K,T,3) LE(lift1,#F " " #K " " #T " 4",q_##F,K,T,4)
#define L1(F,T) L1N(F,OWN,T) L1N(F,SWZ,T) L1N(F,VIEW,T) L1N(F,VSWZ,T) L1N(F,OVIEW,T) L1N(F,OVSWZ,T) L1N(F,CVIEW,T)
#define L2N(F,A,B,T) LE(lift2,#F " " #A " " #B " " #T " 1",q_##F,A,B,T,1) LE(lift2,#F " " #A " " #B " " #T " 2",q_##F,A,B,T,2) LE(lift2,#F " " #A " " #B " " #T " 3",q_##F,A,B,T,3) LE(lift2,#F " " #A " " #B " " #T " 4",q_##F,A,B,T,4)
#define L2(F,T) L2N(F,OWN,OWN,T) L2N(F,SWZ,VIEW,T) L2N(F,VIEW,OVSWZ,T) L2N(F,VSWZ,OWN,T) L2N(F,OVIEW,SWZ,T) L2N(F,OVSWZ,VSWZ,T) L2N(F,OWN,CVIEW,T)
#define LXN(fn,F,K,T) LE(fn,#fn " " #F " " #K " " #T " 1",q_##F,K,T,1) LE(fn,#fn " " #F " " #K " " #T " 2",q_##F,K,T,2) LE(fn,#fn " " #F " " #K " " #T " 3",q_##F,K,T,3) LE(fn,#fn " " #F " " #K " " #T " 4",q_##F,K,T,4)
#define LX(fn,F,T) LXN(fn,F,OWN,T) LXN(fn,F,SWZ,T) LXN(fn,F,VIEW,T) LXN(fn,F,VSWZ,T) LXN(fn,F,OVSWZ,T)
#define L3N(F,A,B,C,T) LE(lift3,#F " " #A " " #B " " #C " " #T " 1",q_##F,A,B,C,T,1) LE(lift3,#F " " #A " " #B " " #C " " #T " 2",q_##F,A,B,C,T,2) LE(lift3,#F " " #A " " #B " " #C " " #T " 3",q_##F,A,B,C,T,3) LE(lift3,#F " " #A " " #B " " #C " " #T " 4",q_##F,A,B,C,T,4)
#define L3(F,T) L3N(F,OWN,OWN,OWN,T) L3N(F,SWZ,VIEW,VSWZ,T) L3N(F,VIEW,OVSWZ,OWN,T) L3N(F,OVIEW,SWZ,CVIEW,T) L3N(F,VSWZ,OWN,OVIEW,T)
#define LYN(fn,F,A,B,T) LE(fn,#fn " " #F " " #A " " #B " " #T " 1",q_##F,A,B,T,1) LE(fn,#fn " " #F " " #A " " #B " " #T " 2",q_##F,A,B,T,2) LE(fn,#fn " " #F " " #A " " #B " " #T " 3",q_##F,A,B,T,3) LE(fn,#fn " " #F " " #A " " #B " " #T " 4",q_##F,A,B,T,4)
#define LY(fn,F,T) LYN(fn,F,OWN,OWN,T) LYN(fn,F,SWZ,VIEW,T) LYN(fn,F,VIEW,OVSWZ,T) LYN(fn,F,OVIEW,VSWZ,T)
