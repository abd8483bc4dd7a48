// C06: indexing, iterators, raw data and tuple access describe one sequence
#include "vdsga.h"
#include "gen/swz.h"
#include <iterator>
template<std::size_t...I> constexpr std::array<std::size_t,sizeof...(I)> sq(std::index_sequence<I...>){ return {I...}; }
// every way of enumerating x gives l[0..N-1], and they all designate the same memory
template<class T,std::size_t N,class X> void seq(X& x,const Arr<T,N>&l){ int i=v_in<int>(); v_requires(v_and(i>=0,i<(int)N)); std::size_t k;
  const T* ad[N]; for(k=0;k<N;k++) ad[k]=&x[k];
  v_ensures(v_and(x.length()==(int)N,v_and(std::size(x)==N,x.size()==N)),"length and size report the component count");
  v_ensures(v_same<T>(x[i],l[(std::size_t)i]),"indexing"); v_ensures(v_and(v_same<T>(x[(unsigned)i],l[(std::size_t)i]),v_same<T>(x[(long long)i],l[(std::size_t)i])),"indexing with other integer types");
  auto fw=[&](auto b,auto e,const char*m){ bool ok=true; std::size_t k=0; for(;b!=e;++b){ ok=v_and(ok,v_and(v_same<T>(*b,l[k]),&*b==ad[k])); k++; } v_ensures(v_and(ok,k==N),m); };
  auto rv=[&](auto b,auto e,const char*m){ bool ok=true; std::size_t k=0; for(;b!=e;b++){ ok=v_and(ok,v_and(v_same<T>(*b,l[N-1-k]),&*b==ad[N-1-k])); k++; } v_ensures(v_and(ok,k==N),m); };
  fw(x.begin(),x.end(),"forward iteration"); fw(x.cbegin(),x.cend(),"const forward iteration"); fw(std::begin(x),std::end(x),"std::begin/end"); fw(std::as_const(x).begin(),std::as_const(x).end(),"iteration of a const object");
  rv(x.rbegin(),x.rend(),"reverse iteration"); rv(x.crbegin(),x.crend(),"const reverse iteration"); rv(std::as_const(x).rbegin(),std::as_const(x).rend(),"reverse iteration of a const object");
  { auto e=x.end(),b=x.begin(); bool ok=true; k=0; while(e!=b){ --e; ok=v_and(ok,&*e==ad[N-1-k]); k++; } v_ensures(v_and(ok,k==N),"stepping back from the end"); }
  constexpr auto s=sq(decltype(X::sequence()){}); static_assert(s.size()==N); bool ok=true; for(k=0;k<N;k++) ok=v_and(ok,v_and(x.data()+s[k]==ad[k],std::as_const(x).data()+s[k]==ad[k])); v_ensures(ok,"raw data at the published index sequence");
  if constexpr(requires{ X::offsets[0]; }){ ok=true; for(k=0;k<N;k++) ok=v_and(ok,X::offsets[k]==s[k]); v_ensures(ok,"published offsets are the index sequence"); }
  ok=true; v_for<N>([&](auto q){ constexpr int Q=(int)q.value; ok=v_and(ok,v_and(&dsga::get<Q>(x)==ad[Q],&dsga::get<Q>(std::as_const(x))==ad[Q])); auto&&m=dsga::get<Q>(std::move(x)); ok=v_and(ok,&m==ad[Q]); const X&cx=x; auto&&cm=dsga::get<Q>(std::move(cx)); ok=v_and(ok,&cm==ad[Q]); }); v_ensures(ok,"tuple-style access");
  v_ensures(std::tuple_size<std::remove_const_t<X>>::value==N,"tuple size");
  auto& bb=x.as_base(); ok=true; for(k=0;k<N;k++) ok=v_and(ok,&bb[k]==ad[k]); fw(bb.begin(),bb.end(),"base forward iteration"); rv(bb.rbegin(),bb.rend(),"base reverse iteration"); fw(bb.cbegin(),bb.cend(),"base const forward iteration"); rv(bb.crbegin(),bb.crend(),"base const reverse iteration"); v_ensures(v_and(ok,v_and(bb.length()==(int)N,bb.data()==x.data())),"base access"); }
// random-access iterator arithmetic at symbolic positions
template<class T,std::size_t N,class It> void arith(It b,It e,const Arr<T,N>&l,int p,int q,bool rev){ using D=typename std::iterator_traits<It>::difference_type; const int d=q-p; auto at=[&](int i){ T r=l[0]; for(std::size_t k=0;k<N;k++) r=v_ite((rev?(int)N-1-(int)k:(int)k)==i,l[k],r); return r; };
  auto P=b+(D)p, Q=b+(D)q; v_ensures(v_and(b+(D)N==e,v_and(e-b==(D)N,e-(D)N==b)),"begin + size is end"); v_ensures(v_and(P-b==(D)p,v_and(e-P==(D)N-p,Q-P==(D)d)),"differences agree with positions");
  v_ensures(v_and(v_and((P==Q)==(p==q),(P!=Q)==(p!=q)),v_and(v_and((P<Q)==(p<q),(P<=Q)==(p<=q)),v_and((P>Q)==(p>q),(P>=Q)==(p>=q)))),"comparisons agree with positions");
  { auto c=P; auto&r=(c+=(D)d); v_ensures(v_and(c==Q,&r==&c),"+="); } { auto c=Q; auto&r=(c-=(D)d); v_ensures(v_and(c==P,&r==&c),"-="); } v_ensures(v_and(P+(D)d==Q,v_and((D)d+P==Q,Q-(D)d==P)),"+ and -");
  if(p<(int)N){ v_ensures(v_same<T>(*P,at(p)),"dereference"); v_ensures(v_and(v_same<T>(b[(D)p],at(p)),v_same<T>(Q[(D)(p-q)],at(p))),"subscript"); if constexpr(requires{ P.operator->(); }) v_ensures(P.operator->()==&*P,"arrow"); auto c=P; auto&r=++c; v_ensures(v_and(c==b+(D)(p+1),&r==&c),"pre-increment"); auto g=P; auto o=g++; v_ensures(v_and(o==P,g==c),"post-increment"); auto&r2=--c; v_ensures(v_and(c==P,&r2==&c),"pre-decrement"); auto h=g--; v_ensures(v_and(g==P,h==b+(D)(p+1)),"post-decrement"); }
  It z=P; z=Q; v_ensures(z==Q,"copies compare equal"); }
template<class T,std::size_t N,class X> void iters(X&x,const Arr<T,N>&l){ int p=v_in<int>(),q=v_in<int>(); v_requires(v_and(v_and(p>=0,p<=(int)N),v_and(q>=0,q<=(int)N)));
  arith<T,N>(x.begin(),x.end(),l,p,q,false); arith<T,N>(x.cbegin(),x.cend(),l,p,q,false); }
template<class T,std::size_t N,class X> void riters(X&x,const Arr<T,N>&l){ int p=v_in<int>(),q=v_in<int>(); v_requires(v_and(v_and(p>=0,p<=(int)N),v_and(q>=0,q<=(int)N)));
  arith<T,N>(x.rbegin(),x.rend(),l,p,q,true); arith<T,N>(x.crbegin(),x.crend(),l,p,q,true); if constexpr(requires{ x.begin()==x.cbegin(); }){ v_ensures(v_and(x.begin()==x.cbegin(),x.end()==x.cend()),"mutable and const iterators agree"); } }
template<int K,class T,std::size_t N> void nm(){ auto a=v_arr<T,N>(); auto f=v_arr<T,4>(); Opd<K,T,N> o(a,f); seq<T,N>(o.get(),a); }
template<int K,class T,std::size_t N> void cn(){ auto a=v_arr<T,N>(); auto f=v_arr<T,4>(); const Opd<K,T,N> o(a,f); const auto&x=const_cast<Opd<K,T,N>&>(o).get(); seq<T,N>(x,a); }
template<int K,class T,std::size_t N> void it(){ auto a=v_arr<T,N>(); auto f=v_arr<T,4>(); Opd<K,T,N> o(a,f); iters<T,N>(o.get(),a); }
template<int K,class T,std::size_t N> void rit(){ auto a=v_arr<T,N>(); auto f=v_arr<T,4>(); Opd<K,T,N> o(a,f); riters<T,N>(o.get(),a); }
template<int K,class T,std::size_t N> void cit(){ auto a=v_arr<T,N>(); auto f=v_arr<T,4>(); Opd<K,T,N> o(a,f); iters<T,N>(std::as_const(o.get()),a); riters<T,N>(std::as_const(o.get()),a); }
// writes through an iterator at a symbolic position
template<int K,class T,std::size_t N> void wr(){ auto a=v_arr<T,N>(); auto f=v_arr<T,4>(); int p=v_in<int>(); T t=v_in<T>(); int way=v_in<int>(); v_requires(v_and(v_and(p>=0,p<(int)N),v_and(way>=0,way<5))); Opd<K,T,N> o(a,f); Snap s(o); auto&x=o.get();
  if(way==0) *(x.begin()+p)=t; else if(way==1) x.begin()[p]=t; else if(way==2) *(x.end()-((int)N-p))=t; else if(way==3) x.rbegin()[(int)N-1-p]=t; else *(x.rend()-(p+1))=t; bool ok=true; for(std::size_t i=0;i<o.total;i++){ T e=s.s[i]; for(std::size_t k=0;k<N;k++) e=v_ite(v_and(o.at(k)==i,(int)k==p),t,e); ok=v_and(ok,v_same<T>(o.raw(i),e)); } v_ensures(ok,"a write through an iterator changes exactly that component"); }
// every swizzle word: the sequences agree
template<class T,std::size_t D,class W> void word(){ auto s=v_arr<T,D>(); VV<T,D> v; v_for<D>([&](auto i){ v[i]=s[i]; }); Arr<T,W::n> l; for(std::size_t k=0;k<W::n;k++) l[k]=s[W::p[k]]; auto& x=W::get(v); using X=std::remove_reference_t<decltype(x)>; const T* ad[W::n]; for(std::size_t k=0;k<W::n;k++) ad[k]=&std::as_const(x)[k];
  constexpr auto q=sq(decltype(X::sequence()){}); bool ok=true; for(std::size_t k=0;k<W::n;k++) ok=v_and(ok,v_and(ad[k]==&v[W::p[k]],std::as_const(x).data()+q[k]==ad[k])); v_ensures(ok,"raw data at the published index sequence"); ok=true; v_for<W::n>([&](auto k){ constexpr int Q=(int)k.value; ok=v_and(ok,&dsga::get<Q>(std::as_const(x))==ad[Q]); }); v_ensures(ok,"tuple-style access");
  ok=true; std::size_t k=0; for(auto r=x.rbegin();r!=x.rend();++r){ ok=v_and(ok,&*r==ad[W::n-1-k]); k++; } v_ensures(v_and(ok,k==W::n),"reverse iteration");
  dsga::basic_view<true,T,D> w(s.e); auto&y=W::get(w); using Y=std::remove_reference_t<decltype(y)>; constexpr auto u=sq(decltype(Y::sequence()){}); ok=true; for(k=0;k<W::n;k++) ok=v_and(ok,v_and(&std::as_const(y)[k]==s.e+W::p[k],std::as_const(y).data()+u[k]==s.e+W::p[k])); v_ensures(ok,"raw data of a view swizzle"); ok=true; k=0; for(auto r=y.rbegin();r!=y.rend();++r){ ok=v_and(ok,&*r==s.e+W::p[W::n-1-k]); k++; } v_ensures(v_and(ok,k==W::n),"reverse iteration of a view swizzle"); }
// wrappers and structured bindings
template<class T> void sbind(){ auto a=v_arr<T,4>(); VV<T,4> v(a[0],a[1],a[2],a[3]); { auto [p,q,r,s]=v; v_ensures(v_and(v_and(v_same<T>(p,a[0]),v_same<T>(q,a[1])),v_and(v_same<T>(r,a[2]),v_same<T>(s,a[3]))),"structured binding by value"); } { auto&[p,q,r,s]=v; v_ensures(v_and(v_and(&p==&v[0],&q==&v[1]),v_and(&r==&v[2],&s==&v[3])),"structured binding by reference"); } { const auto&[p,q]=v.wy; v_ensures(v_and(&p==&v[3],&q==&v[1]),"structured binding of a swizzle"); } dsga::basic_view<true,T,3> w(a.e); { auto&[p,q,r]=w; v_ensures(v_and(v_and(&p==a.e,&q==a.e+1),&r==a.e+2),"structured binding of a view"); } }
template<class T,std::size_t N> void wrap(){ auto a=v_arr<T,N>(); dsga::storage_wrapper<true,T,N> s{}; v_for<N>([&](auto i){ s[i]=a[i]; }); dsga::view_wrapper<true,T,N> w(a.e); 
  auto chk=[&](auto&x,const T*base,const char*m){ bool ok=x.size()==N&&x.length()==(int)N; for(std::size_t k=0;k<N;k++) ok=v_and(ok,v_and(v_same<T>(x[k],a[k]),v_and(&x[k]==base+k,x.data()+k==base+k))); std::size_t k=0; for(auto&e:x){ ok=v_and(ok,&e==base+k); k++; } k=0; for(auto r=x.rbegin();r!=x.rend();++r){ ok=v_and(ok,&*r==base+(N-1-k)); k++; } v_for<N>([&](auto q){ ok=v_and(ok,&dsga::get<(int)q.value>(x)==base+q.value); }); k=0; for(auto c=x.cbegin();c!=x.cend();++c){ ok=v_and(ok,&*c==base+k); k++; } k=0; for(auto r=x.crbegin();r!=x.crend();++r){ ok=v_and(ok,&*r==base+(N-1-k)); k++; } v_ensures(ok,m); };
  chk(s,s.data(),"storage wrapper"); chk(std::as_const(s),s.data(),"const storage wrapper"); chk(w,a.e,"view wrapper"); chk(std::as_const(w),a.e,"const view wrapper");
  [&]<std::size_t...I>(std::index_sequence<I...>){ auto b=v_arr<T,N>(); s.set(b[I]...); w.set(b[I]...); bool ok=true; for(std::size_t k=0;k<N;k++) ok=v_and(ok,v_and(v_same<T>(s[k],b[k]),v_same<T>(a[k],b[k]))); v_ensures(ok,"wrapper set"); }(std::make_index_sequence<N>{}); }
template<class T,std::size_t C,std::size_t R> void mat(){ auto a=v_arr<T,C*R>(); dsga::basic_matrix<T,C,R> m; v_for<C*R>([&](auto i){ m[i/R][i%R]=a[i]; }); int p=v_in<int>(),q=v_in<int>(); v_requires(v_and(v_and(p>=0,p<=(int)C),v_and(q>=0,q<=(int)C)));
  auto chk=[&](auto&x,const char*n){ bool ok=v_and(v_and(x.length()==(int)C,x.column_length()==(int)R),v_and(x.size()==C,x.column_size()==R)); std::size_t k=0; for(auto&c:x){ ok=v_and(ok,&c==&m[k]); k++; } ok=v_and(ok,k==C); k=0; for(auto r=x.rbegin();r!=x.rend();++r){ ok=v_and(ok,&*r==&m[C-1-k]); k++; } k=0; for(auto r=x.crbegin();r!=x.crend();++r){ ok=v_and(ok,&*r==&m[C-1-k]); k++; } for(auto c=x.cbegin();c!=x.cend();++c){ ok=v_and(ok,&*c==&m[C-k]); k--; } for(k=0;k<C;k++) ok=v_and(ok,v_and(x.data()+k==&m[k],&x[k]==&m[k])); v_for<C>([&](auto q){ ok=v_and(ok,&dsga::get<(int)q.value>(x)==&m[q.value]); }); v_ensures(ok,n); };
  chk(m,"matrix columns: one sequence"); chk(std::as_const(m),"const matrix columns: one sequence"); v_ensures(std::tuple_size<dsga::basic_matrix<T,C,R>>::value==C,"tuple size"); v_ensures(v_and(v_and(m.begin()+p-m.begin()==p,((m.begin()+p)<(m.begin()+q))==(p<q)),m.begin()+C==m.end()),"matrix iterator positions"); if(p<(int)C){ bool ok=true; for(std::size_t r=0;r<R;r++) ok=v_and(ok,v_same<T>((*(m.begin()+p))[r],a[(std::size_t)p*R+r])); v_ensures(ok,"iterator designates the column"); }
  { auto&[c0,c1]=*(std::array<VV<T,R>,2>*)m.data(); v_ensures(v_and(&c0==&m[0],&c1==&m[1]),"columns are contiguous"); } }
// the sequence utilities behind the published index sequences: ascending and descending ranges, arrays and reversal, for every pair of bounds up to 8
template<std::size_t A,std::size_t B> void range(){ constexpr std::size_t n=A<=B?B-A:A-B; auto at=[](std::size_t k){ return A<=B?A+k:A-k; }; bool ok=true; std::size_t k;
  constexpr auto h=sq(dsga::make_index_range<A,B>{}); v_ensures(h.size()==n,"half-open range: length"); for(k=0;k<h.size();k++) ok=v_and(ok,h[k]==at(k)); v_ensures(ok,"half-open range: from the start, towards the end, without it");
  constexpr auto c=sq(dsga::make_closed_index_range<A,B>{}); v_ensures(c.size()==n+1,"closed range: length"); ok=true; for(k=0;k<c.size();k++) ok=v_and(ok,c[k]==at(k)); v_ensures(ok,"closed range: both ends included"); }
template<std::size_t...I> void order(){ using S=std::index_sequence<I...>; constexpr std::size_t n=sizeof...(I); std::size_t k; bool ok=true; const Arr<std::size_t,n+1> l{{I...,0}};
  auto a=dsga::make_sequence_array(S{}); v_ensures(a.size()==n,"array of a sequence: length"); for(k=0;k<a.size();k++) ok=v_and(ok,a[k]==l[k]); v_ensures(ok,"array of a sequence: same order");
  constexpr auto r=sq(decltype(dsga::make_reverse_sequence(S{})){}); v_ensures(r.size()==n,"reversal: length"); ok=true; for(k=0;k<r.size();k++) ok=v_and(ok,r[k]==l[n-1-k]); v_ensures(ok,"reversal: opposite order");
  if constexpr(n>0){ constexpr std::array<int,n> vs{(int)I...}; constexpr auto m=sq(dsga::make_array_sequence<vs>{}); v_ensures(m.size()==n,"sequence of an array: length"); ok=true; for(k=0;k<m.size();k++) ok=v_and(ok,m[k]==l[k]); v_ensures(ok,"sequence of an array: same order"); } }
template<std::size_t A> void ranges(){ v_for<9>([](auto b){ range<A,b>(); }); }
void orders(){ order<>(); order<7>(); order<0,1>(); order<3,3>(); order<5,0,2>(); order<0,1,2,3>(); order<9,1,8,2,7>(); }
#define NMX(s,K,T,N) s " " #K " " #T " " #N
#define K1(K,T,N) E(NMX("sequence",K,T,N),nm<K,T,N>) E(NMX("const sequence",K,T,N),cn<K,T,N>) E(NMX("iterator arithmetic",K,T,N),it<K,T,N>) E(NMX("reverse iterator arithmetic",K,T,N),rit<K,T,N>) E(NMX("const iterator arithmetic",K,T,N),cit<K,T,N>) E(NMX("iterator write",K,T,N),wr<K,T,N>)
#define KC(K,T,N) E(NMX("sequence",K,T,N),nm<K,T,N>) E(NMX("const sequence",K,T,N),cn<K,T,N>) E(NMX("iterator arithmetic",K,T,N),it<K,T,N>) E(NMX("reverse iterator arithmetic",K,T,N),rit<K,T,N>)
#define K4(K,T) K1(K,T,1) K1(K,T,2) K1(K,T,3) K1(K,T,4)
#define KC4(T) KC(CVIEW,T,1) KC(CVIEW,T,2) KC(CVIEW,T,3) KC(CVIEW,T,4)
#define WD(T,D,W) E("word " #W " " #T " " #D,word<T,D,W>)
#define MT(T,C,R) E("matrix " #T " " #C "x" #R,mat<T,C,R>)
#define MT9(T) MT(T,2,2) MT(T,2,3) MT(T,2,4) MT(T,3,2) MT(T,3,3) MT(T,3,4) MT(T,4,2) MT(T,4,3) MT(T,4,4)
#ifndef PART
#define PART 0
#endif
extern "C" const v_entry v_table[] = {
#if PART==0
 K4(OWN,float) K4(SWZ,float)
#elif PART==1
 K4(VIEW,float) K4(VSWZ,float)
#elif PART==2
 K4(OVIEW,float) K4(OVSWZ,float) KC4(float)
#elif PART==3
 K4(OWN,int) K4(SWZ,int) K4(VSWZ,int)
#elif PART==4
 K4(SWZ,double) K4(VSWZ,double) K4(SWZ,bool) K4(VSWZ,bool)
#elif PART==5
 R1_1(WD,float,1) R1_2(WD,float,1) R1_3(WD,float,1) R1_4(WD,float,1) R2_1(WD,float,2) R2_2(WD,float,2) R2_3(WD,float,2) R2_4(WD,float,2) R3_1(WD,float,3) R3_2(WD,float,3) R3_3(WD,float,3) R3_4(WD,float,3) E("index ranges from 0",ranges<0>) E("index ranges from 1",ranges<1>) E("index ranges from 2",ranges<2>) E("index ranges from 3",ranges<3>) E("index ranges from 4",ranges<4>) E("index ranges from 5",ranges<5>) E("index ranges from 6",ranges<6>) E("index ranges from 7",ranges<7>) E("index ranges from 8",ranges<8>) E("index sequence order",orders) E("structured bindings float",sbind<float>) E("structured bindings int",sbind<int>) E("wrappers float 1",wrap<float,1>) E("wrappers float 2",wrap<float,2>) E("wrappers float 3",wrap<float,3>) E("wrappers float 4",wrap<float,4>) E("wrappers int 3",wrap<int,3>) MT9(float) MT9(double)
#elif PART==6
 R4_1(WD,float,4) R4_2(WD,float,4) R4_3(WD,float,4)
#elif PART==7
 R4_4(WD,float,4)
#endif
 V_END };
