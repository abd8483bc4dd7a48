// C27: writability, constness and conversion rules. The contracts here are about which programs exist: each predicate asks the type checker whether a
// use of the real types is well formed, and the obligation is that the answer is the one the property gives, for every swizzle word and type pair.
#include "vdsga.h"
#include "gen/swz.h"
template<class T> T&& dv();
// what can be done with the swizzle named S of an object of type V (possibly const)
template<class S,class V,class X> concept p_assign=requires(V&v,const X&x){ S::get(v)=x; };
template<class S,class V,class T> concept p_index=requires(V&v,T t){ S::get(v)[0]=t; };
template<class S,class V,class X> concept p_comp=requires(V&v,const X&x){ S::get(v)+=x; };
template<class S,class V,class X> concept p_comp2=requires(V&v,const X&x){ S::get(v)*=x; };
template<class S,class V> concept p_inc=requires(V&v){ ++S::get(v); };
template<class S,class V> concept p_dec=requires(V&v){ S::get(v)--; };
template<class S,class V,class T> concept p_iter=requires(V&v,T t){ *S::get(v).begin()=t; };
template<class S,class V,class T> concept p_riter=requires(V&v,T t){ *S::get(v).rbegin()=t; };
template<class S,class V,class T> concept p_data=requires(V&v,T t){ *S::get(v).data()=t; };
template<class S,class V,class T> concept p_set=[]<std::size_t...i>(std::index_sequence<i...>){ return requires(V&v,T t){ S::get(v).set((i,t)...); }; }(std::make_index_sequence<S::n>{});
template<class S,class V,class T> concept p_read=requires(V&v){ { S::get(v)[0] } -> std::convertible_to<T>; { +S::get(v) } -> std::convertible_to<VV<T,S::n>>; };
template<class S,class V,class U> concept p_self=requires(V&v,U&u){ S::get(v)=S::get(u); };
template<class S,class V,class T,std::size_t N> constexpr bool lens(){ return p_assign<S,V,VV<T,N>>; }
template<bool Mut,class S,class V,class T> void word(){ constexpr bool w=S::w&&Mut; constexpr std::size_t n=S::n; using X=VV<T,n>;
  v_ensures(p_index<S,V,T> ==w,"elements are assignable exactly when the word is writable"); v_ensures(p_iter<S,V,T> ==w,"iterators write exactly when the word is writable"); v_ensures(p_riter<S,V,T> ==w,"reverse iterators write exactly when the word is writable"); v_ensures(p_data<S,V,T> ==w,"data() writes exactly when the word is writable"); v_ensures(p_set<S,V,T> ==w,"set() exactly when the word is writable");
  if constexpr(!std::is_same_v<T,bool>){ v_ensures(p_assign<S,V,X> ==w,"vector assignment exactly when the word is writable"); v_ensures(p_comp<S,V,X> ==w,"compound assignment exactly when the word is writable"); v_ensures(p_comp2<S,V,T> ==w,"scalar compound assignment exactly when the word is writable"); v_ensures(p_inc<S,V> ==w,"increment exactly when the word is writable"); v_ensures(p_dec<S,V> ==w,"decrement exactly when the word is writable"); v_ensures(p_read<S,V,T>,"always readable");
    if constexpr(n==1) v_ensures(p_assign<S,V,T> ==w,"scalar assignment exactly when the word is writable"); else v_ensures(!p_assign<S,V,T>,"a longer word is not assignable from a scalar");
    v_ensures(!(n!=1&&lens<S,V,T,1>()),"not assignable from length 1"); v_ensures(!(n!=2&&lens<S,V,T,2>()),"not assignable from length 2"); v_ensures(!(n!=3&&lens<S,V,T,3>()),"not assignable from length 3"); v_ensures(!(n!=4&&lens<S,V,T,4>()),"not assignable from length 4"); } }
template<class S,class V> void self_(){ v_ensures(p_self<S,V,V>,"assignable from the same word of another vector"); v_ensures(p_self<S,V,const V>,"assignable from the same word of a const vector"); v_ensures(!p_self<S,const V,V>&&!p_self<S,const V,const V>,"never for a const vector"); }
template<class S,class V> void rep_(){ v_ensures(!p_self<S,const V,V>&&!p_self<S,const V,const V>,"never for a const vector"); v_ensures(!p_self<S,V,V>,"a word with a repeated letter is not assignable from the same word of another vector"); v_ensures(!p_self<S,V,const V>,"a word with a repeated letter is not assignable from the same word of a const vector"); }
#define W1(M,N,V,T,S) E("word " #S " of " #V #N " " #T,word<M,S,V(N,T),T>)
#define OWNV(N,T) dsga::basic_vector<T,N>
#define COWN(N,T) const dsga::basic_vector<T,N>
#define VIEWM(N,T) dsga::basic_view<true,T,N>
#define CVIEWM(N,T) const dsga::basic_view<true,T,N>
#define VIEWC(N,T) dsga::basic_view<false,T,N>
#define OVW(N,T) dsga::view_vector<T,N>
#define COVW(N,T) const dsga::view_vector<T,N>
#define ALLW(M,V,T) R1_1(W1,M,1,V,T) R1_2(W1,M,1,V,T) R1_3(W1,M,1,V,T) R1_4(W1,M,1,V,T) R2_1(W1,M,2,V,T) R2_2(W1,M,2,V,T) R2_3(W1,M,2,V,T) R2_4(W1,M,2,V,T) R3_1(W1,M,3,V,T) R3_2(W1,M,3,V,T) R3_3(W1,M,3,V,T) R3_4(W1,M,3,V,T) R4_1(W1,M,4,V,T) R4_2(W1,M,4,V,T) R4_3(W1,M,4,V,T) R4_4(W1,M,4,V,T)
#define SF(N,S) E("self " #S " of vec" #N,self_<S,VV<float,N>>)
#define RF(N,S) E("repeated " #S " of vec" #N,rep_<S,VV<float,N>>)
#define ALLSF W1_1(SF,1) W2_1(SF,2) W2_2(SF,2) W3_1(SF,3) W3_2(SF,3) W3_3(SF,3) W4_1(SF,4) W4_2(SF,4) W4_3(SF,4) W4_4(SF,4) N1_2(RF,1) N1_3(RF,1) N1_4(RF,1) N2_2(RF,2) N2_3(RF,2) N2_4(RF,2) N3_2(RF,3) N3_3(RF,3) N3_4(RF,3) N4_2(RF,4) N4_3(RF,4) N4_4(RF,4)
// whole objects
template<class V,class X> concept q_assign=requires(V&v,const X&x){ v=x; };
template<class V,class T> concept q_index=requires(V&v,T t){ v[0]=t; };
template<class V,class T> concept q_iter=requires(V&v,T t){ *v.begin()=t; };
template<class V,class T> concept q_riter=requires(V&v,T t){ *v.rbegin()=t; };
template<class V,class T> concept q_data=requires(V&v,T t){ *v.data()=t; };
template<class V,class X> concept q_comp=requires(V&v,const X&x){ v+=x; };
template<class V> concept q_inc=requires(V&v){ ++v; };
template<class V> concept q_swap=requires(V&v,V&u){ v.swap(u); };
template<class V,class T,std::size_t N> constexpr bool q_set(){ return []<std::size_t...i>(std::index_sequence<i...>){ return requires(V&v,T t){ v.set((i,t)...); }; }(std::make_index_sequence<N>{}); }
template<bool w,class V,class T,std::size_t N> void obj(){ v_ensures(q_index<V,T> ==w,"elements"); v_ensures(q_iter<V,T> ==w,"iterators"); v_ensures(q_riter<V,T> ==w,"reverse iterators"); v_ensures(q_data<V,T> ==w,"data()"); v_ensures(q_set<V,T,N>()==w,"set()"); v_ensures(q_swap<V> ==w,"swap()"); v_ensures(!q_set<V,T,N+1>(),"set() with too many"); if constexpr(N>1) v_ensures(!q_set<V,T,N-1>(),"set() with too few");
  if constexpr(!std::is_same_v<T,bool>){ v_ensures(q_assign<V,VV<T,N>> ==w,"assignment"); v_ensures(q_comp<V,VV<T,N>> ==w,"compound assignment"); v_ensures(q_inc<V> ==w,"increment"); } }
template<class T,std::size_t N> void views(){ using M=dsga::basic_view<true,T,N>; using C=dsga::basic_view<false,T,N>; v_ensures(std::is_constructible_v<M,T*>,"a mutable view of mutable data"); v_ensures(!std::is_constructible_v<M,const T*>,"no mutable view of const data"); v_ensures(std::is_constructible_v<C,T*>,"a const view of mutable data"); v_ensures(std::is_constructible_v<C,const T*>,"a const view of const data"); v_ensures(!std::is_constructible_v<M,C>,"no mutable view from a const view"); v_ensures(!std::is_convertible_v<const VV<T,N>&,M>,"no mutable view of a const vector"); v_ensures(!std::is_constructible_v<M,decltype(dv<const VV<T,N>&>().data())>,"data() of a const vector is const"); v_ensures(std::is_constructible_v<M,decltype(dv<VV<T,N>&>().data())>,"data() of a mutable vector is mutable");
  using OM=dsga::view_vector<T,N>; v_ensures(!std::is_constructible_v<M,decltype(dv<const OM&>().data())>,"data() of a const owning view is const"); v_ensures(!std::is_constructible_v<M,decltype(dv<C&>().data())>,"data() of a const view is const"); v_ensures(!std::is_constructible_v<M,decltype(dv<const M&>().data())>,"data() of a view that is const is const"); v_ensures(std::is_same_v<decltype(dv<C&>().begin()),decltype(dv<C&>().cbegin())>,"iterators of a const view are const iterators"); }
template<class T,std::size_t C,std::size_t R> void mats(){ using M=dsga::basic_matrix<T,C,R>; v_ensures(std::is_same_v<decltype(dv<M&>()[0]),VV<T,R>&>,"a column of a mutable matrix is mutable"); v_ensures(std::is_same_v<decltype(dv<const M&>()[0]),const VV<T,R>&>,"a column of a const matrix is const"); v_ensures(q_inc<M>&&!q_inc<const M>,"increment"); v_ensures(q_assign<M,M>&&!q_assign<const M,M>,"assignment"); }
// conversions between component types and lengths
template<class U,class T> constexpr bool nb=!std::is_same_v<U,bool>&&!std::is_same_v<T,bool>;
template<class U,class T> constexpr bool prom=nb<U,T>&&std::is_same_v<CT<U,T>,T>;
template<class U,class T,std::size_t M,std::size_t N> void cv2(){ using A=VV<U,M>; using B=VV<T,N>; constexpr bool eq=std::is_same_v<U,T>;
  v_ensures(std::is_convertible_v<A,B> ==((prom<U,T>&&M>=N)||(eq&&M==N)),"vector to vector: implicit only when the component type is preserved or promoted and the length does not grow");
  v_ensures(std::is_assignable_v<B&,A> ==((prom<U,T>&&M>=N)||(eq&&M==N)),"vector assignment follows the implicit conversions"); v_ensures(!std::is_assignable_v<const B&,A>,"a const vector is never assignable");
  v_ensures(std::is_constructible_v<B,A> ==(M>=N||M==1),"vector to vector: explicit conversion never invents components");
  using W=dsga::basic_view<true,T,N>; using C=dsga::basic_view<false,T,N>; using O=dsga::view_vector<T,N>; v_ensures(std::is_assignable_v<W&,const A&> ==(prom<U,T>&&M==N),"view assignment: same length, type preserved or promoted"); v_ensures(!std::is_assignable_v<C&,const A&>,"a view of const data is never assignable"); v_ensures(!std::is_assignable_v<const W&,const A&>,"a const view is never assignable"); v_ensures(!std::is_convertible_v<const A&,W>&&!std::is_convertible_v<A&,W>&&!std::is_convertible_v<const A&,C>,"no view springs from a vector");
  v_ensures(std::is_assignable_v<O&,const A&> ==(prom<U,T>&&M==N),"owning view assignment: same length, type preserved or promoted"); v_ensures(!std::is_convertible_v<const A&,O>,"owning views are built explicitly");
  using WU=dsga::basic_view<true,U,M>; using CU=dsga::basic_view<false,U,M>; using OU=dsga::view_vector<U,M>; v_ensures(std::is_convertible_v<WU,B> ==(prom<U,T>&&M>=N),"view to vector"); v_ensures(std::is_convertible_v<CU,B> ==(prom<U,T>&&M>=N),"const view to vector"); v_ensures(std::is_convertible_v<OU,B> ==(prom<U,T>&&M>=N),"owning view to vector"); v_ensures(std::is_assignable_v<W&,const CU&> ==(prom<U,T>&&M==N),"view assignment from a const view"); v_ensures(!std::is_convertible_v<CU,W>&&!std::is_convertible_v<WU,C>||M!=N||!eq,"views convert through pointers only");
  if constexpr(N<=4&&M<=4){ using S=std::remove_cvref_t<decltype(v_swz<M>(dv<VV<U,4>&>()))>; v_ensures(std::is_convertible_v<S,B> ==(prom<U,T>&&M>=N),"swizzle to vector"); using SB=std::remove_cvref_t<decltype(v_swz<N>(dv<VV<T,4>&>()))>; v_ensures(std::is_assignable_v<SB&,const A&> ==(prom<U,T>&&M==N),"swizzle assignment: same length, type preserved or promoted"); v_ensures(!std::is_assignable_v<const SB&,const A&>,"a swizzle of a const vector is never assignable"); using VB=std::remove_cvref_t<decltype(v_swz<N>(dv<dsga::basic_view<true,T,4>&>()))>; v_ensures(std::is_assignable_v<VB&,const A&> ==(prom<U,T>&&M==N),"view swizzle assignment: same length, type preserved or promoted"); using KB=std::remove_cvref_t<decltype(v_swz<N>(dv<dsga::basic_view<false,T,4>&>()))>; v_ensures(!std::is_assignable_v<KB&,const A&>,"a swizzle of a const view is never assignable"); } }
template<class U,class T> void conv(){ v_for<4>([](auto m){ v_for<4>([=](auto n){ cv2<U,T,m+1,n+1>(); }); });
  v_for<4>([](auto n){ constexpr std::size_t N=n+1; using B=VV<T,N>; v_ensures(std::is_convertible_v<U,B> ==(N==1&&prom<U,T>),"scalar to vector: implicit only for length one and a preserved or promoted type"); v_ensures(std::is_constructible_v<B,U>,"scalar to vector: explicit broadcast"); v_ensures(std::is_constructible_v<dsga::view_vector<T,N>,U>&&!(N>1&&std::is_convertible_v<U,dsga::view_vector<T,N>>),"scalar to owning view: explicit broadcast"); v_ensures(std::is_convertible_v<VV<U,N>,T> ==(N==1),"only length one converts to a scalar"); v_ensures(std::is_convertible_v<dsga::basic_view<true,U,N>,T> ==(N==1),"only a view of length one converts to a scalar"); v_ensures(!(N>1&&std::is_assignable_v<dsga::basic_view<true,T,N>&,U>),"no scalar assignment to longer views"); });
  v_ensures(dsga::promotes_to<U,T> ==std::is_same_v<CT<U,T>,T>,"promotes_to: the common type is the destination"); v_ensures(dsga::implicitly_convertible_to<U,T> ==prom<U,T>,"implicitly_convertible_to: non-bool and promoting"); }
template<class U,class T> void mconv(){ v_for<9>([](auto i){ constexpr std::size_t C=i/3+2,R=i%3+2; using A=dsga::basic_matrix<U,C,R>; using B=dsga::basic_matrix<T,C,R>; v_ensures(std::is_convertible_v<A,B> ==std::is_same_v<CT<U,T>,T>,"matrix to matrix: implicit only when the type is preserved or promoted"); v_ensures(std::is_constructible_v<B,A>,"matrix to matrix: explicit");
   v_for<9>([=](auto j){ constexpr std::size_t C2=j/3+2,R2=j%3+2; if constexpr(C2!=C||R2!=R) v_ensures(!std::is_convertible_v<dsga::basic_matrix<U,C2,R2>,dsga::basic_matrix<T,C,R>>&&!std::is_assignable_v<dsga::basic_matrix<T,C,R>&,dsga::basic_matrix<U,C2,R2>>,"no implicit change of shape"); });
   v_ensures(!std::is_convertible_v<U,B>&&!std::is_convertible_v<VV<U,R>,B>,"no implicit matrix from a scalar or vector"); using Cc=CT<U,T>; v_ensures(std::is_same_v<decltype(dv<A>()+dv<B>()),dsga::basic_matrix<Cc,C,R>>&&std::is_same_v<decltype(dv<A>()-dv<B>()),dsga::basic_matrix<Cc,C,R>>&&std::is_same_v<decltype(dv<A>()*dv<VV<T,C>>()),VV<Cc,R>>&&std::is_same_v<decltype(dv<VV<T,R>>()*dv<A>()),VV<Cc,C>>&&std::is_same_v<decltype(dv<A>()*dv<T>()),dsga::basic_matrix<Cc,C,R>>,"matrix results have the common element type"); }); }
// result types of binary operators
template<class A,class B> concept b_add=requires(const A&a,const B&b){ a+b; };
template<class A,class B> concept b_sub=requires(const A&a,const B&b){ a-b; };
template<class A,class B> concept b_mul=requires(const A&a,const B&b){ a*b; };
template<class A,class B> concept b_div=requires(const A&a,const B&b){ a/b; };
template<class A,class B> concept b_eq=requires(const A&a,const B&b){ a==b; };
template<class A,class B> concept b_adda=requires(A&a,const B&b){ a+=b; };
template<class A,class B> concept b_diva=requires(A&a,const B&b){ a/=b; };
template<class R,class C,std::size_t N> constexpr bool isr=std::is_same_v<R,std::conditional_t<N==1,C,VV<C,N>>>;
template<class A,class B,class C,std::size_t N> void ops4(){ v_ensures(isr<decltype(dv<A>()+dv<B>()),C,N>,"+ gives the common type"); v_ensures(isr<decltype(dv<A>()-dv<B>()),C,N>,"- gives the common type"); v_ensures(isr<decltype(dv<A>()*dv<B>()),C,N>,"* gives the common type"); v_ensures(isr<decltype(dv<A>()/dv<B>()),C,N>,"/ gives the common type"); }
template<int K,class T,std::size_t N> using OP=std::remove_cvref_t<decltype(dv<Opd<K,T,N>&>().get())>;
template<class T,class U,std::size_t N> void rtype1(){ using A=VV<T,N>; using B=VV<U,N>; if constexpr(nb<T,U>){ using C=CT<T,U>; ops4<A,B,C,N>(); ops4<A,U,C,N>(); ops4<T,B,C,N>(); ops4<OP<SWZ,T,N>,OP<VIEW,U,N>,C,N>(); ops4<OP<CVIEW,T,N>,OP<VSWZ,U,N>,C,N>(); ops4<OP<OVIEW,T,N>,OP<OVSWZ,U,N>,C,N>(); if constexpr(N>1){ ops4<A,VV<U,1>,C,N>(); ops4<VV<T,1>,B,C,N>(); }
    v_ensures(b_adda<A,B> ==prom<U,T>&&b_adda<A,U> ==prom<U,T>,"compound assignment only when the left type does not change"); v_ensures(b_diva<A,B> ==prom<U,T>&&b_diva<A,U> ==prom<U,T>,"compound division only when the left type does not change"); v_ensures(b_eq<A,B>,"comparable"); if constexpr(std::is_same_v<T,U>) v_ensures(isr<decltype(dsga::lessThan(dv<A>(),dv<B>())),bool,N>&&isr<decltype(dsga::equal(dv<A>(),dv<B>())),bool,N>,"comparisons give bool"); }
  else if constexpr(N>1){ v_ensures(!b_add<A,B>&&!b_sub<A,B>&&!b_mul<A,B>&&!b_div<A,B>,"no arithmetic on boolean vectors"); v_ensures(!b_adda<A,B>&&!b_diva<A,B>,"no compound arithmetic on boolean vectors"); }
  if constexpr(N>1&&N<4){ v_ensures(!b_add<A,VV<U,N+1>>&&!b_sub<VV<U,N+1>,A>&&!b_mul<A,VV<U,N+1>>&&!b_div<VV<U,N+1>,A>,"no arithmetic between different lengths"); v_ensures(!b_adda<A,VV<U,N+1>>&&!b_adda<VV<U,N+1>,A>,"no compound arithmetic between different lengths"); v_ensures(!b_eq<A,VV<U,N+1>>&&!b_eq<VV<U,N+1>,A>,"no equality between different lengths"); } }
template<class T,class U> void rtype(){ rtype1<T,U,1>(); rtype1<T,U,2>(); rtype1<T,U,3>(); rtype1<T,U,4>(); }
// which argument lists construct: enough components, and the last argument needed (kind 0 is a scalar, kind m a vector of length m)
template<class U,int K> struct arg_{ using type=VV<U,K>; }; template<class U> struct arg_<U,0>{ using type=U; }; template<class U,int K> using AR=typename arg_<U,K>::type;
constexpr std::size_t cnt(int k){ return k?k:1; }
constexpr bool fits(std::size_t n,std::size_t before,std::size_t last){ return before<n&&before+last>=n; }
template<class B,class U,std::size_t n> void lists(){ v_for<5>([](auto a){ constexpr int A=a; using X=AR<U,A>; v_for<5>([=](auto b){ constexpr int Bk=b; using Y=AR<U,Bk>; constexpr std::size_t p=cnt(A),q=cnt(Bk); v_ensures(std::is_constructible_v<B,X,Y> ==fits(n,p,q),"two arguments construct exactly when they supply enough and both are needed");
   v_for<5>([=](auto c){ constexpr int Ck=c; using Z=AR<U,Ck>; constexpr std::size_t r=cnt(Ck); v_ensures(std::is_constructible_v<B,X,Y,Z> ==fits(n,p+q,r),"three arguments construct exactly when they supply enough and the last is needed"); if constexpr(Ck==0||Ck==A||Ck==2) v_for<5>([=](auto d){ constexpr int Dk=d; v_ensures(std::is_constructible_v<B,X,Y,Z,AR<U,Dk>> ==fits(n,p+q+r,cnt(Dk)),"four arguments construct exactly when they supply enough and the last is needed"); }); }); }); }); }
template<class B,class U,std::size_t n,std::size_t...I> constexpr bool scal(std::index_sequence<I...>){ return std::is_constructible_v<B,decltype((void)I,U{})...>; }
template<class B,class U,std::size_t n> void scalars(){ v_for<20>([](auto k){ constexpr std::size_t K=k; if constexpr(K>1) v_ensures(scal<B,U,n>(std::make_index_sequence<K>{})==(K==n),"a list of scalars constructs exactly when it has one per component"); }); }
struct nothing{};
template<class B,class T> void misfit(){ v_ensures(!std::is_constructible_v<B,nothing>&&!std::is_constructible_v<B,nothing,T>&&!std::is_constructible_v<B,T,nothing>&&!std::is_constructible_v<B,VV<T,4>,nothing>&&!std::is_constructible_v<B,T,T,nothing>&&!std::is_constructible_v<B,T,T,T,nothing>,"only scalars, vectors and matrices supply components"); }
template<class T,class U> void vlists(){ v_for<4>([](auto i){ constexpr std::size_t N=i+1; lists<VV<T,N>,U,N>(); lists<dsga::view_vector<T,N>,U,N>(); scalars<VV<T,N>,U,N>(); scalars<dsga::view_vector<T,N>,U,N>(); misfit<VV<T,N>,T>(); misfit<dsga::view_vector<T,N>,T>(); }); }
template<class T,class U,std::size_t C,std::size_t R> void mlists(){ using B=dsga::basic_matrix<T,C,R>; lists<B,U,C*R>(); scalars<B,U,C*R>(); misfit<B,T>(); v_ensures(std::is_constructible_v<B,U> ==(C==R),"one scalar: the diagonal of a square matrix"); v_for<4>([](auto i){ constexpr std::size_t N=i+1; v_ensures(std::is_constructible_v<B,VV<U,N>> ==(N>=C*R)||N==1,"one vector constructs only when it supplies every element"); });
  using M=dsga::basic_matrix<T,2,2>; v_ensures(!std::is_constructible_v<B,M,M>&&!std::is_constructible_v<B,T,M>&&!std::is_constructible_v<B,M,VV<T,2>>&&!std::is_constructible_v<B,M,T,T>&&!std::is_constructible_v<B,M,T,T,T,T,T>&&!std::is_constructible_v<B,M,T,T,T,T>&&!std::is_constructible_v<B,VV<T,2>,M,M>,"matrices are not components of a matrix"); v_ensures(std::is_convertible_v<const T*,B>&&!std::is_constructible_v<B,const int*>,"a pointer to floating-point elements converts"); }
// operations that leave their operands alone take constants and temporaries, and the category of an operand does not change the result type
#define CALL1(n,e) struct k_##n { template<class A> static auto f(A&&a) requires requires{ e; } { return e; } };
#define CALL2(n,e) struct k_##n { template<class A,class B> static auto f(A&&a,B&&b) requires requires{ e; } { return e; } };
#define CALL3(n,e) struct k_##n { template<class A,class B,class C> static auto f(A&&a,B&&b,C&&c) requires requires{ e; } { return e; } };
template<class F,class...A> concept callable=requires{ F::f(dv<A>()...); };
template<int Q,class A> using CAT=std::conditional_t<Q==0,const A&,std::conditional_t<Q==1,A,A&>>;
template<class F,class...A> constexpr bool same_r(){ if constexpr(callable<F,A...>&&callable<F,const std::remove_cvref_t<A>&...>) return std::is_same_v<decltype(F::f(dv<A>()...)),decltype(F::f(dv<const std::remove_cvref_t<A>&>()...))>; else return false; }
template<class F,class A> void cat1(const char*m){ v_for<3>([=](auto q){ v_ensures(same_r<F,CAT<q,A>>(),m); }); }
template<class F,class A,class B> void cat2(const char*m){ v_for<9>([=](auto q){ constexpr int Q=q; v_ensures(same_r<F,CAT<Q/3,A>,CAT<Q%3,B>>(),m); }); }
template<class F,class A,class B,class C> void cat3(const char*m){ v_for<27>([=](auto q){ constexpr int Q=q; v_ensures(same_r<F,CAT<Q/9,A>,CAT<Q/3%3,B>,CAT<Q%3,C>>(),m); }); }
#define FN1(n) CALL1(n,dsga::n(std::forward<A>(a)))
#define FN2(n) CALL2(n,dsga::n(std::forward<A>(a),std::forward<B>(b)))
#define FN3(n) CALL3(n,dsga::n(std::forward<A>(a),std::forward<B>(b),std::forward<C>(c)))
#define XF1(M) M(radians) M(degrees) M(sin) M(cos) M(tan) M(asin) M(acos) M(atan) M(sinh) M(cosh) M(tanh) M(asinh) M(acosh) M(atanh) M(exp) M(log) M(exp2) M(log2) M(sqrt) M(fast_inversesqrt) M(inversesqrt) M(abs) M(sign) M(floor) M(trunc) M(round) M(roundEven) M(ceil) M(fract) M(length) M(normalize)
#define XB1(M) M(any) M(all) M(compNot) M(none)
#define XI1(M) M(intBitsToFloat) M(byteswap)
#define XG1(M) M(floatBitsToInt) M(floatBitsToUint)
#define XM1(M) M(transpose) M(determinant) M(inverse) M(to_array)
#define XF2(M) M(pow) M(mod) M(min) M(max) M(step) M(dot) M(distance) M(reflect) M(lessThan) M(lessThanEqual) M(greaterThan) M(greaterThanEqual) M(equal) M(notEqual)
#define XB2(M) M(compAnd) M(compOr) 
#define XF3(M) M(clamp) M(mix) M(smoothstep) M(faceforward) M(fma)
XF1(FN1) XB1(FN1) XI1(FN1) XG1(FN1) XM1(FN1) FN1(isnan) FN1(isinf) FN1(cross_matrix) FN1(diagonal_matrix) XF2(FN2) XB2(FN2) XF3(FN3) FN2(cross) FN2(outerProduct) FN2(matrixCompMult) FN2(ldexp) FN2(innerProduct) FN3(refract) CALL2(atan2,dsga::atan(std::forward<A>(a),std::forward<B>(b))) CALL2(swz,dsga::swizzle(std::forward<A>(a),std::forward<B>(b)))
#define OPR(n,o) CALL2(n,std::forward<A>(a) o std::forward<B>(b))
#define XOF(M) M(add,+) M(sub,-) M(mul,*) M(div,/) 
#define XOI(M) M(rem,%) M(band,&) M(bor,|) M(bxor,^) M(shl,<<) M(shr,>>)
XOF(OPR) XOI(OPR) OPR(eq,==) OPR(ne,!=) CALL1(plus,+std::forward<A>(a)) CALL1(minus,-std::forward<A>(a)) CALL1(comp,~std::forward<A>(a))
CALL1(mlen,std::forward<A>(a).length()) CALL1(msize,std::forward<A>(a).size()) CALL1(mmin,std::forward<A>(a).min()) CALL1(mmax,std::forward<A>(a).max()) CALL1(msum,std::forward<A>(a).sum()) CALL2(mshift,std::forward<A>(a).shift(b)) CALL2(mcshift,std::forward<A>(a).cshift(b)) CALL1(mto,dsga::to_array(std::forward<A>(a)))
#define D1_(n) cat1<k_##n,X>(#n " on constants and temporaries");
#define D2_(n) cat2<k_##n,X,Y>(#n " on constants and temporaries");
#define D3_(n) cat3<k_##n,X,Y,Z>(#n " on constants and temporaries");
#define DO_(n,o) cat2<k_##n,X,Y>(#o " on constants and temporaries");
#define DS_(n) cat2<k_##n,X,S>(#n " with a scalar, on constants and temporaries");
#define DOS(n,o) cat2<k_##n,X,S>(#o " with a scalar, on constants and temporaries"); cat2<k_##n,S,X>(#o " after a scalar, on constants and temporaries");
template<int K,int L,std::size_t N> void calls_f(){ using X=OP<K,float,N>; using Y=OP<L,float,N>; using Z=OP<K,float,N>; using S=float; XF1(D1_) XG1(D1_) XF2(D2_) XF3(D3_) D2_(atan2) D2_(innerProduct) D2_(outerProduct) XOF(DO_) XOF(DOS) DO_(eq,==) DO_(ne,!=) D1_(plus) D1_(minus) D1_(mlen) D1_(msize) D1_(mmin) D1_(mmax) D1_(msum) D1_(mto) cat2<k_mshift,X,int>("shift of constants and temporaries"); cat2<k_mcshift,X,int>("cshift of constants and temporaries"); cat2<k_swz,X,int>("run-time swizzle of constants and temporaries"); cat2<k_ldexp,X,OP<L,int,N>>("ldexp of constants and temporaries"); cat3<k_mix,X,Y,OP<L,bool,N>>("selecting mix of constants and temporaries"); cat3<k_mix,X,Y,S>("mix with a scalar weight of constants and temporaries"); cat3<k_clamp,X,S,S>("clamp between scalars of constants and temporaries"); cat3<k_refract,X,Y,S>("refract of constants and temporaries"); DS_(min) DS_(max) DS_(mod) cat2<k_step,S,X>("step with a scalar edge"); cat3<k_smoothstep,S,S,X>("smoothstep with scalar edges"); if constexpr(N==3){ D2_(cross) D1_(cross_matrix) } if constexpr(N>1) D1_(diagonal_matrix) D1_(isnan) D1_(isinf) }
template<int K,int L,std::size_t N> void calls_i(){ using X=OP<K,int,N>; using Y=OP<L,int,N>; using S=int; XI1(D1_) XOF(DO_) XOI(DO_) XOF(DOS) XOI(DOS) DO_(eq,==) D1_(plus) D1_(minus) D1_(comp) D1_(abs) D1_(sign) D2_(min) D2_(max) using B=OP<K,bool,N>; using C=OP<L,bool,N>; { using X=B; using Y=C; XB1(D1_) XB2(D2_) D2_(equal) D2_(notEqual) DO_(eq,==) } }
template<class T,std::size_t C,std::size_t R> void calls_m(){ using X=dsga::basic_matrix<T,C,R>; using Y=X; using S=T; D1_(transpose) D1_(to_array) if constexpr(C==R){ D1_(determinant) D1_(inverse) } D2_(matrixCompMult) DO_(add,+) DO_(sub,-) DO_(div,/) XOF(DOS) DO_(eq,==) D1_(plus) D1_(minus) cat2<k_mul,X,VV<T,C>>("matrix times vector"); cat2<k_mul,VV<T,R>,X>("vector times matrix"); cat2<k_mul,X,dsga::basic_matrix<T,R,C>>("matrix times matrix"); }
// tuple-style access keeps constness and value category
template<int I,class X,class T> void get1(){ v_ensures(std::is_same_v<decltype(dsga::get<I>(dv<X&>())),T&>,"get of a mutable object"); v_ensures(std::is_same_v<decltype(dsga::get<I>(dv<X>())),T&&>,"get of a temporary"); v_ensures(std::is_same_v<decltype(dsga::get<I>(dv<const X&>())),const T&>,"get of a constant"); v_ensures(std::is_same_v<decltype(dsga::get<I>(dv<const X>())),const T&&>,"get of a constant temporary"); }
template<class T> void gets(){ v_for<4>([](auto i){ constexpr int N=i+1; v_for<N>([=](auto k){ get1<k,VV<T,N>,T>(); get1<k,OP<SWZ,T,N>,T>(); get1<k,dsga::basic_view<true,T,N>,T>(); get1<k,OP<VSWZ,T,N>,T>(); get1<k,dsga::view_vector<T,N>,T>(); using C=dsga::basic_view<false,T,N>; v_ensures(std::is_same_v<decltype(dsga::get<k>(dv<C&>())),const T&>&&std::is_same_v<decltype(dsga::get<k>(dv<C>())),const T&&>,"get of a view of const data"); }); }); }
template<class T> void getm(){ v_for<9>([](auto i){ constexpr std::size_t C=i/3+2,R=i%3+2; v_for<C>([=](auto k){ get1<k,dsga::basic_matrix<T,C,R>,VV<T,R>>(); }); }); }
#define T7(M,T) M(T,bool) M(T,int) M(T,uns) M(T,ll) M(T,ull) M(T,float) M(T,double)
#define T77(M) T7(M,bool) T7(M,int) T7(M,uns) T7(M,ll) T7(M,ull) T7(M,float) T7(M,double)
#define CVE(U,T) E("convert " #U " to " #T,conv<U,T>)
#define RTE(U,T) E("result type " #U " " #T,rtype<U,T>)
#define OB(w,V,N,T) E("object " #V #N " " #T,obj<w,V(N,T),T,N>)
#define OB4(w,V,T) OB(w,V,1,T) OB(w,V,2,T) OB(w,V,3,T) OB(w,V,4,T)
#define OBT(T) OB4(true,OWNV,T) OB4(false,COWN,T) OB4(true,VIEWM,T) OB4(false,CVIEWM,T) OB4(false,VIEWC,T) OB4(true,OVW,T) OB4(false,COVW,T) E("views " #T "1",views<T,1>) E("views " #T "2",views<T,2>) E("views " #T "3",views<T,3>) E("views " #T "4",views<T,4>)
#define MA(c,r,T) E("matrix " #T " " #c "x" #r,mats<T,c,r>)
#define SH9(M,T) M(2,2,T) M(2,3,T) M(2,4,T) M(3,2,T) M(3,3,T) M(3,4,T) M(4,2,T) M(4,3,T) M(4,4,T)
#ifndef PART
#define PART 0
#endif
extern "C" const v_entry v_table[] = {
#if PART==0
 ALLW(true,OWNV,float) ALLSF
#elif PART==1
 ALLW(false,COWN,int)
#elif PART==2
 ALLW(true,VIEWM,float) 
#elif PART==3
 ALLW(false,CVIEWM,double)
#elif PART==4
 ALLW(false,VIEWC,float)
#elif PART==5
 ALLW(true,OVW,int) 
#elif PART==6
 ALLW(false,COVW,float) 
#elif PART==7
 ALLW(true,OWNV,bool) ALLW(true,VIEWM,bool)
#elif PART==8
 T77(CVE) E("convert matrix float float",mconv<float,float>) E("convert matrix float double",mconv<float,double>) E("convert matrix double float",mconv<double,float>) E("convert matrix double double",mconv<double,double>)
#elif PART==9
 T77(RTE) OBT(bool) OBT(int) OBT(uns) OBT(ll) OBT(ull) OBT(float) OBT(double) SH9(MA,float) SH9(MA,double)
#elif PART==10
 E("argument lists float float",vlists<float,float>) E("argument lists int double",vlists<int,double>) E("argument lists bool int",vlists<bool,int>)
#elif PART==11
#define ML(c,r,T) E("matrix argument lists " #T " " #c "x" #r,mlists<T,T,c,r>)
#define MLI(c,r,T) E("matrix argument lists int " #T " " #c "x" #r,mlists<T,int,c,r>)
 SH9(ML,float) SH9(MLI,double)
#elif PART==12
#define CLF(K,L,N) E("calls " #K " " #L " float " #N,calls_f<K,L,N>) E("calls " #K " " #L " int " #N,calls_i<K,L,N>)
#define CLM(c,r,T) E("matrix calls " #T " " #c "x" #r,calls_m<T,c,r>)
 CLF(OWN,OWN,2) CLF(OWN,SWZ,3) CLF(SWZ,VIEW,3) CLF(VIEW,OWN,4) CLF(VSWZ,CVIEW,2) CLF(CVIEW,OVIEW,3) CLF(OVIEW,OWN,3) CLF(OVSWZ,VSWZ,4) SH9(CLM,float) SH9(CLM,double) E("get float",gets<float>) E("get bool",gets<bool>) E("get matrix float",getm<float>) E("get matrix double",getm<double>)
#endif
 V_END };
