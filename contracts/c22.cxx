// C22: shift, cshift, min, max, sum, apply and query act on the logical component sequence, for every shift count
#include "lift.h"
#define HEAD auto a=v_arr<T,N>(); auto f=v_arr<T,4>(); Opd<K,T,N> x(a,f); Snap s(x);
#define UNM v_ensures(s.same(x),"operand unmodified");
template<class T,std::size_t N> T pick(const Arr<T,N>&a,long long i){ T r=T(0); for(std::size_t k=0;k<N;k++) if constexpr(std::is_same_v<T,bool>) r=v_ite(i==(long long)k,(bool)a[k],(bool)r); else r=v_ite(i==(long long)k,a[k],r); return r; }
template<class C,class T,std::size_t N> void shifted(const C&c,const Arr<T,N>&a,int n){ auto r=c.shift(n); static_assert(std::is_same_v<decltype(r),VV<T,N>>); bool ok=true; for(std::size_t i=0;i<N;i++) ok=v_and(ok,v_same<T>(v_raw(r,i),pick<T,N>(a,(long long)i+(long long)n))); v_ensures(ok,"component i is component i+n, zero outside"); }
// the count is arbitrary; the cases only help the proof: every count of magnitude at most N by itself, all larger ones together
template<int K,class T,std::size_t N> struct q_shift { static void go(){ int n=v_in<int>(); HEAD const auto&c=x.get(); if(n>(int)N) shifted<decltype(c),T,N>(c,a,n); else if(n<-(int)N) shifted<decltype(c),T,N>(c,a,n); else { bool done=false; v_for<2*N+1>([&](auto i){ constexpr int k=(int)i-(int)N; if(!done&&n==k){ shifted<decltype(c),T,N>(c,a,k); done=true; } }); v_ensures(done,"every count covered"); } UNM } };
template<int K,class T,std::size_t N> struct q_cshift { static void go(){ int n=v_in<int>(); HEAD const auto&c=x.get(); auto r=c.cshift(n); static_assert(std::is_same_v<decltype(r),VV<T,N>>); bool ok=true; for(std::size_t i=0;i<N;i++){ long long q=((long long)i+(long long)n)%(long long)N; q=v_ite(q<0,q+(long long)N,q); ok=v_and(ok,v_same<T>(v_raw(r,i),pick<T,N>(a,q))); } v_ensures(ok,"component i is component (i+n) mod length"); UNM } };
template<int K,class T,std::size_t N> struct q_minmax { static void go(){ HEAD if constexpr(v_is_f<T>) for(std::size_t i=0;i<N;i++) v_requires(!v_isnan(a[i])); const auto&c=x.get(); T m=c.min(),M=c.max(); bool lo=true,hi=true,inm=false,inM=false; for(std::size_t i=0;i<N;i++){ lo=v_and(lo,m<=a[i]); hi=v_and(hi,M>=a[i]); inm=v_or(inm,v_same<T>(m,a[i])); inM=v_or(inM,v_same<T>(M,a[i])); } v_ensures(v_and(lo,inm),"min is a component and no component is smaller"); v_ensures(v_and(hi,inM),"max is a component and no component is larger"); UNM } };
template<int K,class T,std::size_t N> struct q_sum { static void go(){ if constexpr(v_is_f<T>) v_mode_real(); else v_no_arith_ub(); HEAD const auto&c=x.get(); auto r=c.sum(); static_assert(std::is_same_v<decltype(r),T>); T t=a[0]; for(std::size_t i=1;i<N;i++) t=static_cast<T>(t+a[i]); if constexpr(v_is_f<T>) v_ensures(v_req<T>(r,t),"sum of the components"); else v_ensures(r==t,"sum of the components"); UNM } };
// apply and query: an arbitrary function (uninterpreted), called once per component in index order with the component
inline int uf(int v){ return v_uf_i1(v); } inline float uf(float v){ return v_uf_f1(v); } inline double uf(double v){ return v_uf_d1(v); } inline ll uf(ll v){ return v_uf_l1(v); } inline uns uf(uns v){ return (uns)v_uf_i1((int)v); } inline ull uf(ull v){ return (ull)v_uf_l1((ll)v); } inline bool uf(bool v){ return v_uf_bi1(v); }
inline bool up(float v){ return v_uf_bf1(v); } inline bool up(int v){ return v_uf_bi1(v); } inline bool up(bool v){ return v_uf_bi1(v); } inline bool up(uns v){ return v_uf_bi1((int)v); }
template<int K,class T,std::size_t N> struct q_apply { static void go(){ HEAD const auto&c=x.get(); T seen[N]; std::size_t n=0; auto r=c.apply([&](T v)->T{ if(n<N) seen[n]=v; n++; return uf(v); }); static_assert(std::is_same_v<decltype(r),VV<T,N>>); v_ensures(n==N,"called once per component"); bool ok=true,od=true; for(std::size_t i=0;i<N;i++){ ok=v_and(ok,v_same<T>(v_raw(r,i),uf(a[i]))); od=v_and(od,v_same<T>(seen[i],a[i])); } v_ensures(od,"called in index order"); v_ensures(ok,"results collected in index order");
  auto q=c.apply([&](const T&v)->T{ return uf(v); }); bool o2=true; for(std::size_t i=0;i<N;i++) o2=v_and(o2,v_same<T>(v_raw(q,i),uf(a[i]))); v_ensures(o2,"callable taking a reference"); std::size_t cnt=0; auto z=c.apply([&](T v)->T{ cnt++; return cnt==1?v:T(0); }); bool o3=v_same<T>(v_raw(z,0),a[0]); for(std::size_t i=1;i<N;i++) o3=v_and(o3,v_same<T>(v_raw(z,i),T(0))); v_ensures(o3,"first call serves component 0"); UNM } };
template<int K,class T,std::size_t N> struct q_query { static void go(){ HEAD const auto&c=x.get(); T seen[N]; std::size_t n=0; auto r=c.query([&](T v)->bool{ if(n<N) seen[n]=v; n++; return up(v); }); static_assert(std::is_same_v<decltype(r),VV<bool,N>>); v_ensures(n==N,"called once per component"); bool ok=true,od=true; for(std::size_t i=0;i<N;i++){ ok=v_and(ok,v_iff(v_raw(r,i),up(a[i]))); od=v_and(od,v_same<T>(seen[i],a[i])); } v_ensures(od,"called in index order"); v_ensures(ok,"results collected in index order"); auto q=c.query([&](const T&v)->bool{ return !up(v); }); bool o2=true; for(std::size_t i=0;i<N;i++) o2=v_and(o2,v_iff(v_raw(q,i),!up(a[i]))); v_ensures(o2,"callable taking a reference"); UNM } };
#define N4(q,K,T) E(#q " " #K " " #T " 1",q<K,T,1>::go) E(#q " " #K " " #T " 2",q<K,T,2>::go) E(#q " " #K " " #T " 3",q<K,T,3>::go) E(#q " " #K " " #T " 4",q<K,T,4>::go)
#define ALL(q,T) N4(q,OWN,T) N4(q,SWZ,T) N4(q,VIEW,T) N4(q,VSWZ,T) N4(q,OVIEW,T) N4(q,OVSWZ,T) N4(q,CVIEW,T)
#ifndef PART
#define PART 0
#endif
extern "C" const v_entry v_table[] = {
#if PART==0
 ALL(q_shift,int) ALL(q_shift,float) ALL(q_shift,bool)
#elif PART==1
 ALL(q_shift,double) ALL(q_shift,ull) ALL(q_cshift,int)
#elif PART==2
 ALL(q_cshift,float) ALL(q_cshift,bool) ALL(q_cshift,double)
#elif PART==3
 ALL(q_minmax,int) ALL(q_minmax,uns) ALL(q_minmax,ll) ALL(q_minmax,ull) ALL(q_minmax,float) ALL(q_minmax,double)
#elif PART==4
 ALL(q_sum,int) ALL(q_sum,uns) ALL(q_sum,ll) ALL(q_sum,ull) ALL(q_sum,float) ALL(q_sum,double)
#elif PART==5
 ALL(q_apply,int) ALL(q_apply,float) ALL(q_apply,double) ALL(q_apply,ull) ALL(q_apply,bool) ALL(q_query,int) ALL(q_query,float) ALL(q_query,uns) ALL(q_query,bool)
#endif
 V_END };
