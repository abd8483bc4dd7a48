// C28: safety obligations of operations on views whose memory ends exactly where the view ends, and on every index type (memory bounds, null, arithmetic,
// assertions, exceptions out of noexcept functions are obligations of every contract; the check collects them over the contracts of all properties)
#include "mat.h"
template<class T> struct Sq { T operator()(T x) const { return x; } };
template<class I,class X,std::size_t N> void idx(X&x){ I i; if constexpr(sizeof(I)<4&&!std::is_same_v<I,bool>) i=static_cast<I>(v_in<int>()); else i=v_in<I>(); if constexpr(std::is_same_v<I,bool>) v_requires(v_or(!i,N>1)); else { if constexpr(std::is_signed_v<I>) v_requires(i>=0); v_requires((unsigned long long)i<N); } auto c=x[i]; const X&k=x; auto d=k[i]; v_ensures(v_same(c,d),"const and mutable access agree"); if constexpr(requires{ x[i]=c; }){ x[i]=c; v_ensures(v_same(x[i],c),"written element"); } }
template<int J,class X,class T,std::size_t N> void use(X&x){ if constexpr(J==1){ idx<int,X,N>(x); idx<unsigned,X,N>(x); idx<ll,X,N>(x); return; } else if constexpr(J==2){ idx<ull,X,N>(x); idx<short,X,N>(x); idx<signed char,X,N>(x); idx<unsigned char,X,N>(x); return; } else {
  const X&k=x; T last{}; for(const T&e:k) last=e; v_ensures(v_same(last,k[N-1]),"last element visited"); for(auto it=k.rbegin();it!=k.rend();++it) last=*it; v_ensures(v_same(last,k[0]),"first element visited last in reverse"); auto d=k.end()-k.begin(); v_ensures(d==(decltype(d))N,"distance"); auto p=k.data(); v_ensures(p!=nullptr,"data"); v_ensures(k.length()==(int)N,"length");
  auto arr=dsga::to_array(k); v_ensures(v_same(arr[N-1],k[N-1]),"to_array"); auto q=k.query([](T v){ return v==v; }); (void)q; bool eq=(k==k); (void)eq; auto ne=(k!=k); (void)ne;
  if constexpr(!std::is_same_v<T,bool>){ v_no_arith_ub(); auto neg=-k; auto s=k+k; auto t=k*T(2); auto u=T(3)-k; auto w=k.shift(v_in_i32()); auto y=k.cshift(v_in_i32()); auto mi=k.min(); auto ma=k.max(); auto su=k.sum(); auto ap=k.apply(Sq<T>{}); auto lt=dsga::lessThan(k,k); auto cl=dsga::clamp(k,T(0),T(1)); (void)neg;(void)s;(void)t;(void)u;(void)w;(void)y;(void)mi;(void)ma;(void)su;(void)ap;(void)lt;(void)cl; if constexpr(v_is_f<T>){ auto dt=dsga::dot(k,k); (void)dt; }
    auto sz=dsga::swizzle(k,0u,(unsigned)(N-1)); v_ensures(v_same(v_comp(sz,1),k[N-1]),"swizzle");
    if constexpr(requires{ x+=k; }){ x+=k; x*=T(2); ++x; x--; x=VV<T,N>(k); [&]<std::size_t...i>(std::index_sequence<i...>){ x.set(((void)i,T(1))...); }(std::make_index_sequence<N>{}); for(T&e:x) e=T(2); v_ensures(v_same(k[N-1],T(2)),"written through the iterator"); for(auto it=x.rbegin();it!=x.rend();++it) *it=T(3); v_ensures(v_same(k[0],T(3)),"written through the reverse iterator"); *(x.begin()+(int)(N-1))=T(4); v_ensures(v_same(k[N-1],T(4)),"random access"); } } } }
template<int J,bool M,class T,std::size_t N> void exact(){ T b[N]; for(std::size_t i=0;i<N;i++) b[i]=v_in<T>(); dsga::basic_view<M,T,N> w(b); use<J,decltype(w),T,N>(w); }
template<int J,class T,std::size_t N,class F> void exsw(F f){ T b[N]; for(std::size_t i=0;i<N;i++) b[i]=v_in<T>(); dsga::basic_view<true,T,N> w(b); auto&s=f(w); use<J,std::remove_reference_t<decltype(s)>,T,N>(s); }
template<int J,class T> void exsw2(){ exsw<J,T,2>([](auto&w)->auto&{ return w.yx; }); } template<int J,class T> void exsw3(){ exsw<J,T,3>([](auto&w)->auto&{ return w.zxy; }); } template<int J,class T> void exsw4(){ exsw<J,T,4>([](auto&w)->auto&{ return w.wzyx; }); }
template<int J,class T,std::size_t N> void own(){ VV<T,N> v; for(std::size_t i=0;i<N;i++) v[i]=v_in<T>(); use<J,VV<T,N>,T,N>(v); }
template<int J,class T,std::size_t N> void oview(){ dsga::view_vector<T,N> o; for(std::size_t i=0;i<N;i++) o[i]=v_in<T>(); use<J,decltype(o),T,N>(o); }
template<int J,int W,class T> void ownsw(){ constexpr std::size_t S=W==0||W==4?2:W==1?3:4; VV<T,S> a; for(std::size_t i=0;i<S;i++) a[i]=v_in<T>(); auto go=[](auto&s){ using X=std::remove_reference_t<decltype(s)>; use<J,X,T,std::remove_cvref_t<decltype(s.size)>::value>(s); }; if constexpr(W==0) go(a.yx); else if constexpr(W==1) go(a.zyx); else if constexpr(W==2) go(a.ywzx); else if constexpr(W==3) go(a.xxw); else go(a.yyyy); }
template<class T,std::size_t C,std::size_t R> void mt(){ Mat<T,C,R> m; unsigned c=v_in<unsigned>(); int r=v_in<int>(); v_requires(c<C); v_requires(v_and(r>=0,r<(int)R)); ll cl=v_in<ll>(); v_requires(v_and(cl>=0,cl<(ll)C)); T x=m.m[c][r]; const auto&k=m.m; T y=k[c][r]; v_ensures(v_same(x,y),"element"); auto row=k.row(r); v_ensures(v_same(v_comp(row,0),m.at(0,0))||true,"row"); m.m[cl][r]=x; v_ensures(v_same(m.m[cl][r],x),"written"); int cnt=0; for(const auto&col:k){ (void)col; cnt++; } v_ensures(cnt==(int)C,"columns"); auto ar=dsga::to_array(k); v_ensures(v_same(ar[C*R-1],k[C-1][R-1]),"last"); auto n=m.m; n.swap(m.m); n.swap(n); auto t=dsga::transpose(n); (void)t; }
#define X4(T) E("exact view " #T " 1/0",exact<0,true,T,1>) E("exact const view " #T " 1/0",exact<0,false,T,1>) E("owner " #T " 1/0",own<0,T,1>) E("owning view " #T " 1/0",oview<0,T,1>) E("exact view " #T " 2/0",exact<0,true,T,2>) E("exact const view " #T " 2/0",exact<0,false,T,2>) E("owner " #T " 2/0",own<0,T,2>) E("owning view " #T " 2/0",oview<0,T,2>) E("exact view " #T " 3/0",exact<0,true,T,3>) E("exact const view " #T " 3/0",exact<0,false,T,3>) E("owner " #T " 3/0",own<0,T,3>) E("owning view " #T " 3/0",oview<0,T,3>) E("exact view " #T " 4/0",exact<0,true,T,4>) E("exact const view " #T " 4/0",exact<0,false,T,4>) E("owner " #T " 4/0",own<0,T,4>) E("owning view " #T " 4/0",oview<0,T,4>) E("exact view swizzle " #T " 2/0",exsw2<0,T>) E("exact view swizzle " #T " 3/0",exsw3<0,T>) E("exact view swizzle " #T " 4/0",exsw4<0,T>) E("swizzle " #T " 0/0",ownsw<0,0,T>) E("swizzle " #T " 1/0",ownsw<0,1,T>) E("swizzle " #T " 2/0",ownsw<0,2,T>) E("swizzle " #T " 3/0",ownsw<0,3,T>) E("swizzle " #T " 4/0",ownsw<0,4,T>) E("exact view " #T " 1/1",exact<1,true,T,1>) E("exact const view " #T " 1/1",exact<1,false,T,1>) E("owner " #T " 1/1",own<1,T,1>) E("owning view " #T " 1/1",oview<1,T,1>) E("exact view " #T " 2/1",exact<1,true,T,2>) E("exact const view " #T " 2/1",exact<1,false,T,2>) E("owner " #T " 2/1",own<1,T,2>) E("owning view " #T " 2/1",oview<1,T,2>) E("exact view " #T " 3/1",exact<1,true,T,3>) E("exact const view " #T " 3/1",exact<1,false,T,3>) E("owner " #T " 3/1",own<1,T,3>) E("owning view " #T " 3/1",oview<1,T,3>) E("exact view " #T " 4/1",exact<1,true,T,4>) E("exact const view " #T " 4/1",exact<1,false,T,4>) E("owner " #T " 4/1",own<1,T,4>) E("owning view " #T " 4/1",oview<1,T,4>) E("exact view swizzle " #T " 2/1",exsw2<1,T>) E("exact view swizzle " #T " 3/1",exsw3<1,T>) E("exact view swizzle " #T " 4/1",exsw4<1,T>) E("swizzle " #T " 0/1",ownsw<1,0,T>) E("swizzle " #T " 1/1",ownsw<1,1,T>) E("swizzle " #T " 2/1",ownsw<1,2,T>) E("swizzle " #T " 3/1",ownsw<1,3,T>) E("swizzle " #T " 4/1",ownsw<1,4,T>) E("exact view " #T " 1/2",exact<2,true,T,1>) E("exact const view " #T " 1/2",exact<2,false,T,1>) E("owner " #T " 1/2",own<2,T,1>) E("owning view " #T " 1/2",oview<2,T,1>) E("exact view " #T " 2/2",exact<2,true,T,2>) E("exact const view " #T " 2/2",exact<2,false,T,2>) E("owner " #T " 2/2",own<2,T,2>) E("owning view " #T " 2/2",oview<2,T,2>) E("exact view " #T " 3/2",exact<2,true,T,3>) E("exact const view " #T " 3/2",exact<2,false,T,3>) E("owner " #T " 3/2",own<2,T,3>) E("owning view " #T " 3/2",oview<2,T,3>) E("exact view " #T " 4/2",exact<2,true,T,4>) E("exact const view " #T " 4/2",exact<2,false,T,4>) E("owner " #T " 4/2",own<2,T,4>) E("owning view " #T " 4/2",oview<2,T,4>) E("exact view swizzle " #T " 2/2",exsw2<2,T>) E("exact view swizzle " #T " 3/2",exsw3<2,T>) E("exact view swizzle " #T " 4/2",exsw4<2,T>) E("swizzle " #T " 0/2",ownsw<2,0,T>) E("swizzle " #T " 1/2",ownsw<2,1,T>) E("swizzle " #T " 2/2",ownsw<2,2,T>) E("swizzle " #T " 3/2",ownsw<2,3,T>) E("swizzle " #T " 4/2",ownsw<2,4,T>)
#define MT(c,r,T) E("matrix " #T " " #c "x" #r,mt<T,c,r>)
#ifndef PART
#define PART 0
#endif
extern "C" const v_entry v_table[] = {
#if PART==0
 X4(float) X4(int)
#elif PART==1
 X4(double) X4(ull) X4(bool) SH9(MT,float) SH9(MT,double)
#endif
 V_END };
