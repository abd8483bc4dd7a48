// matrices built from plain scalars, and their frame
#pragma once
#include "lift.h"
template<class T,std::size_t C,std::size_t R> using MM=dsga::basic_matrix<T,C,R>;
template<class T,std::size_t C,std::size_t R> struct Mat { Arr<T,C*R> l; MM<T,C,R> m; Mat():l(v_arr<T,C*R>()){ v_for<C*R>([&](auto i){ m.columns[i/R].base.store[i%R]=l[i]; }); } T at(std::size_t c,std::size_t r) const { return l[c*R+r]; } bool same() const { bool ok=true; v_for<C*R>([&](auto i){ ok=v_and(ok,v_same<T>(m.columns[i/R].base.store[i%R],l[i])); }); return ok; } };
template<class T,std::size_t C,std::size_t R> T el(const MM<T,C,R>&m,std::size_t c,std::size_t r){ return m.columns[c].base.store[r]; }
template<class M> struct MI; template<class T,std::size_t C,std::size_t R> struct MI<MM<T,C,R>>{ using type=T; static constexpr std::size_t c=C,r=R; };
// f(c,r) is the wanted element
template<class T,std::size_t C,std::size_t R,class F> void meq(const MM<T,C,R>&m,F f,const char*l){ for(std::size_t c=0;c<C;c++){ bool ok=true; for(std::size_t r=0;r<R;r++) ok=v_and(ok,v_same<T>(el(m,c,r),f(c,r))); v_ensures(ok,l); } }
template<class T,std::size_t C,std::size_t R,class F> void mreq(const MM<T,C,R>&m,F f,const char*l){ for(std::size_t c=0;c<C;c++){ bool ok=true; for(std::size_t r=0;r<R;r++) ok=v_and(ok,v_req<T>(el(m,c,r),f(c,r))); v_ensures(ok,l); } }
template<class T,std::size_t N,class F> void vreq(const VV<T,N>&v,F f,const char*l){ bool ok=true; for(std::size_t i=0;i<N;i++) ok=v_and(ok,v_req<T>(v_raw(v,i),f(i))); v_ensures(ok,l); }
template<std::size_t N,class F> auto sum(F f){ auto s=f(0); for(std::size_t i=1;i<N;i++) s=s+f(i); return s; }
#define SH9(M,...) M(2,2,##__VA_ARGS__) M(2,3,##__VA_ARGS__) M(2,4,##__VA_ARGS__) M(3,2,##__VA_ARGS__) M(3,3,##__VA_ARGS__) M(3,4,##__VA_ARGS__) M(4,2,##__VA_ARGS__) M(4,3,##__VA_ARGS__) M(4,4,##__VA_ARGS__)
