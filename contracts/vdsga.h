// Helpers shared by the contracts: ways to build each kind of operand from plain scalars and to read it back
// without going through the operation under contract.
#pragma once
#include "vspec.h"
#include V_HEADER
template<class T,std::size_t N> using VV = dsga::basic_vector<T,N>;
using ull = unsigned long long; using ll = long long; using uns = unsigned;
template<class T> inline constexpr bool v_is_f = std::is_floating_point_v<T>;
template<class A,class B> using CT = std::common_type_t<A,B>;
template<class T,std::size_t N> struct Arr { T e[N]; T& operator[](std::size_t i){return e[i];} const T& operator[](std::size_t i) const {return e[i];} };
template<class T,std::size_t N> inline Arr<T,N> v_arr(){ Arr<T,N> r; for(std::size_t i=0;i<N;i++) r.e[i]=v_in<T>(); return r; }
template<std::size_t N,class F> inline void v_for(F f){ [&]<std::size_t ...I>(std::index_sequence<I...>){ (f(std::integral_constant<std::size_t,I>{}),...); }(std::make_index_sequence<N>{}); }
// raw storage of an owning vector
template<class T,std::size_t N> inline T v_raw(const VV<T,N>&v,std::size_t i){ return v.base.store[i]; }
// Operand kinds. Opd<K,T,N> owns storage whose logical components (as seen through get()) are l[0..N-1]; `fill` provides the
// storage elements that the operand does not name, so that framing can be stated about them.
enum Kind { OWN, SWZ, VIEW, VSWZ, OVIEW, OVSWZ, CVIEW };
template<std::size_t N> inline constexpr std::size_t v_fill = 4; 
template<int K,class T,std::size_t N> struct Opd;
template<std::size_t N> struct SwzPos; // storage positions of the swizzle used for length N
template<> struct SwzPos<1>{ static constexpr std::size_t p[1]={2}; };
template<> struct SwzPos<2>{ static constexpr std::size_t p[2]={3,1}; };
template<> struct SwzPos<3>{ static constexpr std::size_t p[3]={2,0,3}; };
template<> struct SwzPos<4>{ static constexpr std::size_t p[4]={1,3,0,2}; };
template<std::size_t N,class V> inline auto& v_swz(V&v){ if constexpr(N==1) return v.z; else if constexpr(N==2) return v.wy; else if constexpr(N==3) return v.zxw; else return v.ywxz; }
template<class T,std::size_t N> struct Opd<OWN,T,N>{ VV<T,N> v; Arr<T,N> l;
  Opd(const Arr<T,N>&a,const Arr<T,4>&):l(a){ v_for<N>([&](auto i){ v[i]=a[i]; }); }
  auto& get(){ return v; } static constexpr std::size_t total=N; T raw(std::size_t i) const { return v[i]; } static constexpr std::size_t at(std::size_t k){ return k; } };
template<class T,std::size_t N> struct Opd<SWZ,T,N>{ VV<T,4> v;
  Opd(const Arr<T,N>&a,const Arr<T,4>&f){ v_for<4>([&](auto i){ v[i]=f[i]; }); v_for<N>([&](auto i){ v[SwzPos<N>::p[i]]=a[i]; }); }
  auto& get(){ return v_swz<N>(v); } static constexpr std::size_t total=4; T raw(std::size_t i) const { return v[i]; } static constexpr std::size_t at(std::size_t k){ return SwzPos<N>::p[k]; } };
template<class T,std::size_t N,bool M> struct OpdView{ T b[N+2]; dsga::basic_view<M,T,N> w;
  OpdView(const Arr<T,N>&a,const Arr<T,4>&f):w(b+1){ b[0]=f[0]; b[N+1]=f[1]; v_for<N>([&](auto i){ b[i+1]=a[i]; }); }
  auto& get(){ return w; } static constexpr std::size_t total=N+2; T raw(std::size_t i) const { return b[i]; } static constexpr std::size_t at(std::size_t k){ return k+1; } };
template<class T,std::size_t N> struct Opd<VIEW,T,N>:OpdView<T,N,true>{ using OpdView<T,N,true>::OpdView; };
template<class T,std::size_t N> struct Opd<CVIEW,T,N>:OpdView<T,N,false>{ using OpdView<T,N,false>::OpdView; };
template<class T,std::size_t N> struct Opd<VSWZ,T,N>{ T b[6]; dsga::basic_view<true,T,4> w;
  Opd(const Arr<T,N>&a,const Arr<T,4>&f):w(b+1){ b[0]=f[1]; b[5]=f[2]; v_for<4>([&](auto i){ b[i+1]=f[i]; }); v_for<N>([&](auto i){ b[SwzPos<N>::p[i]+1]=a[i]; }); }
  auto& get(){ return v_swz<N>(w); } static constexpr std::size_t total=6; T raw(std::size_t i) const { return b[i]; } static constexpr std::size_t at(std::size_t k){ return SwzPos<N>::p[k]+1; } };
template<class T,std::size_t N> struct Opd<OVIEW,T,N>{ dsga::view_vector<T,N> w;
  Opd(const Arr<T,N>&a,const Arr<T,4>&){ v_for<N>([&](auto i){ w[i]=a[i]; }); }
  auto& get(){ return w; } static constexpr std::size_t total=N; T raw(std::size_t i) const { return w[i]; } static constexpr std::size_t at(std::size_t k){ return k; } };
template<class T,std::size_t N> struct Opd<OVSWZ,T,N>{ dsga::view_vector<T,4> w;
  Opd(const Arr<T,N>&a,const Arr<T,4>&f){ v_for<4>([&](auto i){ w[i]=f[i]; }); v_for<N>([&](auto i){ w[SwzPos<N>::p[i]]=a[i]; }); }
  auto& get(){ return v_swz<N>(w); } static constexpr std::size_t total=4; T raw(std::size_t i) const { return w[i]; } static constexpr std::size_t at(std::size_t k){ return SwzPos<N>::p[k]; } };
// snapshot of the whole storage of an operand and the frame "everything is as in the snapshot"
template<class O> struct Snap { std::array<std::remove_cvref_t<decltype(std::declval<O>().raw(0))>,O::total> s; Snap(const O&o){ for(std::size_t i=0;i<O::total;i++) s[i]=o.raw(i); }
  bool same(const O&o) const { bool r=true; for(std::size_t i=0;i<O::total;i++) r=v_and(r,v_same(s[i],o.raw(i))); return r; } };
template<class T> struct VLen { static constexpr std::size_t n=1; using type=T; };
template<class T,std::size_t N> struct VLen<VV<T,N>> { static constexpr std::size_t n=N; using type=T; };
// result component i of an operation that returns a vector, or a scalar when the length is 1
template<class R> inline auto v_comp(const R&r,std::size_t i){ if constexpr(std::is_arithmetic_v<R>) return r; else return r[i]; }
// an arbitrary read-only selection of elements of existing memory, at symbolic indices: quantifies over every possible alias
template<class T,std::size_t N> struct Sym : dsga::vector_base<false,T,N,Sym<T,N>> { const T*p; Arr<int,N> ix; Sym(const T*q,const Arr<int,N>&i):p(q),ix(i){}
  template<class U> const T& operator[](const U&i) const noexcept { return p[ix.e[(std::size_t)i]]; } static constexpr std::size_t total=N; };
