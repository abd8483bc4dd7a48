// C03: reading the swizzle spelled by a word gives the components the word names, in order
#include "vdsga.h"
#include "gen/swz.h"
template<class W,class T,class X> void reads(const X& sw,const T* s){ constexpr std::size_t n=W::n; 
  v_ensures(v_and(sw.length()==(int)n,sw.size()==n),"length of a swizzle is the length of its name");
  bool ix=true; for(std::size_t k=0;k<n;k++) ix=v_and(ix,v_same<T>(sw[k],s[W::p[k]])); v_ensures(ix,"component k is the component named by letter k (indexing)");
  bool it=true; std::size_t k=0; for(auto&&e:sw){ it=v_and(it,v_same<T>(e,s[W::p[k]])); k++; } v_ensures(v_and(it,k==n),"iteration visits the named components in order");
  VV<T,n> c(sw); bool cv=true; for(std::size_t q=0;q<n;q++) cv=v_and(cv,v_same<T>(c[q],s[W::p[q]])); v_ensures(cv,"conversion to a vector keeps the named components in order");
  dsga::view_vector<T,n> o(sw); bool ov=true; for(std::size_t q=0;q<n;q++) ov=v_and(ov,v_same<T>(o[q],s[W::p[q]])); v_ensures(ov,"conversion to an owning view keeps the named components in order");
  if constexpr(n==1){ T t=sw; v_ensures(v_same<T>(t,s[W::p[0]]),"scalar conversion reads the named component"); auto d=static_cast<double>(sw); v_ensures(v_same<double>(d,static_cast<double>(s[W::p[0]])),"explicit scalar conversion converts the named component"); } }
template<class T,std::size_t D,class W> void own(){ auto s=v_arr<T,D>(); VV<T,D> v; v_for<D>([&](auto i){ v[i]=s[i]; }); reads<W,T>(W::get(v),s.e); const VV<T,D> c=v; reads<W,T>(W::get(c),s.e); }
template<class T,std::size_t D,class W> void view(){ auto s=v_arr<T,D+2>(); Arr<T,D+2> b=s; dsga::basic_view<true,T,D> w(b.e+1); reads<W,T>(W::get(w),s.e+1); const dsga::basic_view<false,T,D> c(b.e+1); reads<W,T>(W::get(c),s.e+1); }
template<class T,std::size_t D,class W> void oview(){ auto s=v_arr<T,D>(); dsga::view_vector<T,D> w; v_for<D>([&](auto i){ w[i]=s[i]; }); reads<W,T>(W::get(w),s.e); const auto&c=w; reads<W,T>(W::get(c),s.e); }
// run-time selection of components agrees with the named ones (all index values)
template<class T,std::size_t D,std::size_t N> void rt(){ auto s=v_arr<T,D>(); auto ix=v_arr<int,N>(); for(std::size_t k=0;k<N;k++) v_requires(v_and(ix[k]>=0,ix[k]<(int)D)); VV<T,D> v; v_for<D>([&](auto i){ v[i]=s[i]; });
  auto r=[&]<std::size_t...I>(std::index_sequence<I...>){ return dsga::swizzle(v,ix[I]...); }(std::make_index_sequence<N>{}); bool ok=true; for(std::size_t k=0;k<N;k++) ok=v_and(ok,v_same<T>(v_comp(r,k),s[(std::size_t)ix[k]])); v_ensures(ok,"run-time swizzle selects the requested components"); }
#define RD(T,D,W) E("read vec" #D " " #W " " #T,own<T,D,W>) E("read view" #D " " #W " " #T,view<T,D,W>) E("read view_vector" #D " " #W " " #T,oview<T,D,W>)
#define ALLD(T,D) R##D##_1(RD,T,D) R##D##_2(RD,T,D) R##D##_3(RD,T,D) R##D##_4(RD,T,D)
#define RT(T,D) E("runtime vec" #D " 1 " #T,rt<T,D,1>) E("runtime vec" #D " 2 " #T,rt<T,D,2>) E("runtime vec" #D " 3 " #T,rt<T,D,3>) E("runtime vec" #D " 4 " #T,rt<T,D,4>)
#ifndef PART
#define PART 0
#endif
#define RDU(T,D,W) E("read vec" #D " " #W " " #T,own<T,D,W>)
extern "C" const v_entry v_table[] = {
#if PART==0
 ALLD(float,1) ALLD(float,2) ALLD(float,3)
#elif PART==1
 R4_1(RD,float,4) R4_2(RD,float,4) R4_3(RD,float,4)
#elif PART==2
 R4_4(RD,float,4)
#elif PART==3
 R4_1(RD,int,4) R4_2(RD,int,4) R4_3(RD,int,4) ALLD(int,1) ALLD(int,2)
#elif PART==4
 R4_4(RDU,int,4) ALLD(int,3)
#elif PART==5
 ALLD(double,1) ALLD(double,2) R3_3(RD,double,3) R4_2(RD,double,4) RT(float,1) RT(float,2) RT(float,3) RT(float,4) RT(int,4) RT(double,3)
#endif
 V_END };
