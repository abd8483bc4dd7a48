// C25: conversions between vectors, matrices and arrays keep the logical (column-major) order and are mutually inverse
#include "mat.h"
template<class T,std::size_t N> struct CArr { T e[N]; };
template<int K,class T,std::size_t N> void va(){ auto a=v_arr<T,N>(); auto f=v_arr<T,4>(); Opd<K,T,N> x(a,f); Snap s(x); auto r=dsga::to_array(x.get()); static_assert(std::is_same_v<decltype(r),std::array<T,N>>); bool ok=true; for(std::size_t i=0;i<N;i++) ok=v_and(ok,v_same<T>(r[i],a[i])); v_ensures(ok,"array element i is component i"); v_ensures(s.same(x),"argument unmodified");
  auto b=dsga::to_vector(r); static_assert(std::is_same_v<decltype(b),VV<T,N>>); ok=true; for(std::size_t i=0;i<N;i++) ok=v_and(ok,v_same<T>(v_raw(b,i),a[i])); v_ensures(ok,"to_vector(to_array(x)) is x");
  if constexpr(K==VIEW||K==OVIEW||K==SWZ||K==VSWZ||K==OVSWZ){ if constexpr(!std::is_same_v<T,bool>){ auto g=v_arr<T,N>(); std::array<T,N> ga; for(std::size_t i=0;i<N;i++) ga[i]=g[i]; x.get()=dsga::to_vector(ga); auto back=dsga::to_array(x.get()); ok=true; for(std::size_t i=0;i<N;i++) ok=v_and(ok,v_same<T>(back[i],g[i])); v_ensures(ok,"to_array of a view or swizzle assigned from to_vector(g) is g"); for(std::size_t j=0;j<x.total;j++){ bool named=false; for(std::size_t i=0;i<N;i++) named=named||x.at(i)==j; if(!named) v_ensures(v_same<T>(x.raw(j),s.s[j]),"unnamed storage unmodified"); } } } }
template<class T,std::size_t N> void av(){ auto a=v_arr<T,N>(); std::array<T,N> s; T c[N]; for(std::size_t i=0;i<N;i++){ s[i]=a[i]; c[i]=a[i]; } auto v=dsga::to_vector(s); auto w=dsga::to_vector(c); static_assert(std::is_same_v<decltype(v),VV<T,N>>&&std::is_same_v<decltype(w),VV<T,N>>); bool o1=true,o2=true,fr=true; for(std::size_t i=0;i<N;i++){ o1=v_and(o1,v_same<T>(v_raw(v,i),a[i])); o2=v_and(o2,v_same<T>(v_raw(w,i),a[i])); fr=v_and(fr,v_and(v_same<T>(s[i],a[i]),v_same<T>(c[i],a[i]))); } v_ensures(o1,"component i is element i of the standard array"); v_ensures(o2,"component i is element i of the C array"); v_ensures(fr,"arrays unmodified");
  auto r=dsga::to_array(v); bool o3=true; for(std::size_t i=0;i<N;i++) o3=v_and(o3,v_same<T>(r[i],a[i])); v_ensures(o3,"to_array(to_vector(s)) is s"); }
template<class T,std::size_t C,std::size_t R> void ma(){ Mat<T,C,R> m; auto a=dsga::to_array(m.m); static_assert(std::is_same_v<decltype(a),std::array<T,C*R>>); bool ok=true; for(std::size_t c=0;c<C;c++) for(std::size_t r=0;r<R;r++) ok=v_and(ok,v_same<T>(a[c*R+r],m.at(c,r))); v_ensures(ok,"column-major order"); v_ensures(m.same(),"matrix unmodified"); auto b=dsga::to_matrix<C,R>(a); static_assert(std::is_same_v<decltype(b),MM<T,C,R>>); meq(b,[&](std::size_t c,std::size_t r){ return m.at(c,r); },"to_matrix(to_array(m)) is m"); }
template<class T,std::size_t C,std::size_t R,std::size_t S> void am(){ auto a=v_arr<T,S>(); std::array<T,S> s; T c[S]; for(std::size_t i=0;i<S;i++){ s[i]=a[i]; c[i]=a[i]; } auto p=dsga::to_matrix<C,R>(s); auto q=dsga::to_matrix<C,R>(c); static_assert(std::is_same_v<decltype(p),MM<T,C,R>>&&std::is_same_v<decltype(q),MM<T,C,R>>); meq(p,[&](std::size_t x,std::size_t y){ return a[x*R+y]; },"standard array read in column-major order"); meq(q,[&](std::size_t x,std::size_t y){ return a[x*R+y]; },"C array read in column-major order"); bool fr=true; for(std::size_t i=0;i<S;i++) fr=v_and(fr,v_and(v_same<T>(s[i],a[i]),v_same<T>(c[i],a[i]))); v_ensures(fr,"arrays unmodified"); auto back=dsga::to_array(p); bool ok=true; for(std::size_t i=0;i<C*R;i++) ok=v_and(ok,v_same<T>(back[i],a[i])); v_ensures(ok,"to_array(to_matrix(s)) is s"); }
// vectors and matrices of equal element count: 4 and 2x2
template<int K,class T> void vm(){ auto a=v_arr<T,4>(); auto f=v_arr<T,4>(); Opd<K,T,4> x(a,f); Snap s(x); MM<T,2,2> m(x.get()); meq(m,[&](std::size_t c,std::size_t r){ return a[c*2+r]; },"matrix from a vector is column-major"); VV<T,4> v(m); bool ok=true; for(std::size_t i=0;i<4;i++) ok=v_and(ok,v_same<T>(v_raw(v,i),a[i])); v_ensures(ok,"vector from that matrix is the vector"); v_ensures(s.same(x),"argument unmodified"); }
template<class T> void mv(){ Mat<T,2,2> m; VV<T,4> v(m.m); bool ok=true; for(std::size_t i=0;i<4;i++) ok=v_and(ok,v_same<T>(v_raw(v,i),m.l[i])); v_ensures(ok,"vector from a matrix is column-major"); MM<T,2,2> b(v); meq(b,[&](std::size_t c,std::size_t r){ return m.at(c,r); },"matrix from that vector is the matrix"); v_ensures(m.same(),"matrix unmodified"); }
// a matrix is its columns: from column vectors and back
template<class T,std::size_t C,std::size_t R> void cols(){ Mat<T,C,R> m; MM<T,C,R> b; [&]<std::size_t...c>(std::index_sequence<c...>){ b=MM<T,C,R>(VV<T,R>(m.m[c])...); }(std::make_index_sequence<C>{}); meq(b,[&](std::size_t c,std::size_t r){ return m.at(c,r); },"matrix of its own columns"); bool ok=true; [&]<std::size_t...c>(std::index_sequence<c...>){ auto a=std::array<std::array<T,R>,C>{ dsga::to_array(m.m[c])... }; for(std::size_t x=0;x<C;x++) for(std::size_t y=0;y<R;y++) ok=v_and(ok,v_same<T>(a[x][y],m.at(x,y))); }(std::make_index_sequence<C>{}); v_ensures(ok,"arrays of the columns"); }
#define VA4(K,T) E("to_array " #K " " #T " 1",va<K,T,1>) E("to_array " #K " " #T " 2",va<K,T,2>) E("to_array " #K " " #T " 3",va<K,T,3>) E("to_array " #K " " #T " 4",va<K,T,4>)
#define AV4(T) E("to_vector " #T " 1",av<T,1>) E("to_vector " #T " 2",av<T,2>) E("to_vector " #T " 3",av<T,3>) E("to_vector " #T " 4",av<T,4>)
#define VAK(T) VA4(OWN,T) VA4(SWZ,T) VA4(VIEW,T) VA4(VSWZ,T) VA4(OVIEW,T) VA4(OVSWZ,T) VA4(CVIEW,T) AV4(T)
#define MA(c,r,T) E("to_array matrix " #T " " #c "x" #r,ma<T,c,r>) E("columns " #T " " #c "x" #r,cols<T,c,r>) E("to_matrix " #T " " #c "x" #r,am<T,c,r,c*r>) E("to_matrix " #T " " #c "x" #r " of longer",am<T,c,r,c*r+3>)
#define VM(T) E("vector/matrix OWN " #T,vm<OWN,T>) E("vector/matrix SWZ " #T,vm<SWZ,T>) E("vector/matrix VIEW " #T,vm<VIEW,T>) E("vector/matrix VSWZ " #T,vm<VSWZ,T>) E("vector/matrix OVIEW " #T,vm<OVIEW,T>) E("vector/matrix OVSWZ " #T,vm<OVSWZ,T>) E("vector/matrix CVIEW " #T,vm<CVIEW,T>) E("matrix/vector " #T,mv<T>)
#ifndef PART
#define PART 0
#endif
extern "C" const v_entry v_table[] = {
#if PART==0
 VAK(int) VAK(float) VAK(double) VAK(bool) VAK(uns) VAK(ll) VAK(ull)
#elif PART==1
 SH9(MA,float) SH9(MA,double) VM(float) VM(double)
#endif
 V_END };
