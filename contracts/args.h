// constructor arguments: descriptors that draw their inputs, build the argument and know its flattening
#pragma once
#include "vdsga.h"
template<class T,class U> bool v_castok(U u){ if constexpr(std::is_floating_point_v<U>&&std::is_integral_v<T>&&!std::is_same_v<T,bool>) return v_and(std::is_signed_v<T>?u>U(-1e9):u>=U(0),u<U(1e9)); else return true; }
template<class U> struct AS { using type=U; static constexpr std::size_t n=1; U v; AS():v(v_in<U>()){} U at(std::size_t) const { return v; } const U& get(){ return v; } bool same(){ return true; } };
template<int K,class U,std::size_t N> struct AV { using type=U; static constexpr std::size_t n=N; Arr<U,N> l; Arr<U,4> f; Opd<K,U,N> o; Snap<Opd<K,U,N>> s; AV():l(v_arr<U,N>()),f(v_arr<U,4>()),o(l,f),s(o){} U at(std::size_t i) const { return l[i]; } const auto& get(){ return o.get(); } bool same(){ return s.same(o); } };
template<class U,std::size_t C,std::size_t R> struct AM { using type=U; static constexpr std::size_t n=C*R; Arr<U,C*R> l; dsga::basic_matrix<U,C,R> m; AM():l(v_arr<U,C*R>()){ v_for<C*R>([&](auto i){ m[i/R][i%R]=l[i]; }); } U at(std::size_t i) const { return l[i]; } const auto& get(){ return m; } bool same(){ bool ok=true; v_for<C*R>([&](auto i){ ok=v_and(ok,v_same<U>(m[i/R][i%R],l[i])); }); return ok; } };
// component q of the flattening of the arguments, converted to T
template<class T,std::size_t N,class...A> struct Flat { Arr<T,N> w; std::size_t k=0; template<class X> void add(X&x){ for(std::size_t i=0;i<X::n&&k<N;i++){ v_requires(v_castok<T>(x.at(i))); w[k++]=static_cast<T>(x.at(i)); } } Flat(A&...a){ (add(a),...); } };
