// C07: vector constructors lay out the flattened, converted arguments in order
#include "args.h"
#include "gen/ctor7.h"
template<class T,std::size_t N,class V> void is(const V&v,const Arr<T,N>&w,const char*l){ bool ok=true; for(std::size_t i=0;i<N;i++) ok=v_and(ok,v_same<T>(v[i],w[i])); v_ensures(ok,l); }
#define L "component i is entry i of the flattened, converted arguments"
template<class T,std::size_t N,class...A,std::size_t...I> void vec_(std::index_sequence<I...>){ std::tuple<A...> t{}; Flat<T,N,A...> f(std::get<I>(t)...); VV<T,N> v(std::get<I>(t).get()...); is<T,N>(v,f.w,L); bool s=true; ((s=v_and(s,std::get<I>(t).same())),...); v_ensures(s,"arguments unmodified"); }
template<class T,std::size_t N,class...A> void vec(){ vec_<T,N,A...>(std::index_sequence_for<A...>{}); }
template<class T,std::size_t N,class...A,std::size_t...I> void ovec_(std::index_sequence<I...>){ std::tuple<A...> t{}; Flat<T,N,A...> f(std::get<I>(t)...); if constexpr(std::is_constructible_v<dsga::view_vector<T,N>,decltype(std::get<I>(t).get())...>){ dsga::view_vector<T,N> v(std::get<I>(t).get()...); is<T,N>(v,f.w,L); v_ensures(v.data()==v.store,"refers to its own storage"); } else v_ensures(true,"rejected at compile time"); bool s=true; ((s=v_and(s,std::get<I>(t).same())),...); v_ensures(s,"arguments unmodified"); }
template<class T,std::size_t N,class...A> void ovec(){ ovec_<T,N,A...>(std::index_sequence_for<A...>{}); }
template<class T,class U,std::size_t N> void fill(){ U u=v_in<U>(); v_requires(v_castok<T>(u)); Arr<T,N> w; for(std::size_t i=0;i<N;i++) w[i]=static_cast<T>(u); VV<T,N> v(u); is<T,N>(v,w,"a single scalar fills every component"); if constexpr(std::is_convertible_v<U,T>){ dsga::view_vector<T,N> o(u); is<T,N>(o,w,"a single scalar fills every component of an owning view"); } VV<U,1> s(u); if constexpr(N>1&&std::is_convertible_v<VV<U,1>,T>){ VV<T,N> z(s); is<T,N>(z,w,"a one-component vector fills like a scalar"); } }
template<class T,std::size_t N> void dflt(){ T junk=v_in<T>(); (void)junk; Arr<T,N> z; for(std::size_t i=0;i<N;i++) z[i]=T(0); VV<T,N> v{}; is<T,N>(v,z,"value-initialised vector is zero"); auto v2=VV<T,N>(); is<T,N>(v2,z,"value-initialised vector is zero"); dsga::view_vector<T,N> o; is<T,N>(o,z,"default owning view is zero"); static constexpr VV<T,N> c{}; is<T,N>(c,z,"constant value-initialised vector is zero"); }
// conversion from a vector of any kind: same length and longer (truncation), explicit and implicit, and assignment
template<int K,class T,class U,std::size_t N,std::size_t M> void conv(){ AV<K,U,M> a; for(std::size_t i=0;i<N;i++) v_requires(v_castok<T>(a.at(i))); Arr<T,N> w; for(std::size_t i=0;i<N;i++) w[i]=static_cast<T>(a.at(i)); bool any=false;
  if constexpr(std::is_constructible_v<VV<T,N>,decltype(a.get())>){ VV<T,N> v(a.get()); is<T,N>(v,w,"construction keeps the leading components, converted"); any=true; }
  if constexpr(std::is_convertible_v<decltype(a.get()),VV<T,N>>){ VV<T,N> v=a.get(); is<T,N>(v,w,"implicit conversion keeps the leading components, converted"); any=true; }
  if constexpr(std::is_constructible_v<dsga::view_vector<T,N>,decltype(a.get())>){ dsga::view_vector<T,N> v(a.get()); is<T,N>(v,w,"owning view from a vector"); }
  if constexpr(N==M&&requires(VV<T,N> z){ z=a.get(); }){ auto o=v_arr<T,N>(); VV<T,N> v; v_for<N>([&](auto i){ v[i]=o[i]; }); auto&r=(v=a.get()); is<T,N>(v,w,"assignment stores the converted components"); v_ensures(&r==&v,"assignment returns the target"); if constexpr(requires(dsga::view_vector<T,N> q){ q=a.get(); }){ dsga::view_vector<T,N> x; x=a.get(); is<T,N>(x,w,"owning view assignment stores the converted components"); } }
  v_ensures(a.same(),"source unmodified"); if(!any) v_ensures(true,"not constructible"); }
template<class T,class U> void conv1(){ U u=v_in<U>(); v_requires(v_castok<T>(u)); VV<T,1> v(u); v_ensures(v_same<T>(v[0],static_cast<T>(u)),"one-component vector from a scalar"); T o=v_in<T>(); VV<T,1> x(o); if constexpr(requires{ x=u; }){ x=u; v_ensures(v_same<T>(x[0],static_cast<T>(u)),"assign scalar"); } T t=v; v_ensures(v_same<T>(t,static_cast<T>(u)),"one-component vector converts back to the scalar"); }
template<class T,std::size_t N> void copy(){ auto a=v_arr<T,N>(),b=v_arr<T,N>(); VV<T,N> v; v_for<N>([&](auto i){ v[i]=a[i]; }); VV<T,N> c(v),m(std::move(v)),x; is<T,N>(c,a,"copy"); is<T,N>(m,a,"move"); v_for<N>([&](auto i){ x[i]=b[i]; }); c=x; is<T,N>(c,b,"copy assignment"); is<T,N>(m,a,"copies are independent"); c=c; is<T,N>(c,b,"self assignment"); m=std::move(x); is<T,N>(m,b,"move assignment");
  [&]<std::size_t...I>(std::index_sequence<I...>){ VV<T,N> y(a[I]...); y.set(b[I]...); is<T,N>(y,b,"set stores the arguments in order"); VV<T,N> z{a[I]...}; is<T,N>(z,a,"braced construction"); z.set(z[N-1-I]...); bool ok=true; for(std::size_t i=0;i<N;i++) ok=v_and(ok,v_same<T>(z[i],a[N-1-i])); v_ensures(ok,"set from own components"); dsga::basic_vector d(a[I]...); v_ensures(std::is_same_v<decltype(d),VV<T,N>>,"deduced type"); is<T,N>(d,a,"deduced construction"); dsga::basic_vector e(m); v_ensures(std::is_same_v<decltype(e),VV<T,N>>,"deduced type from a vector"); dsga::view_vector o(a[I]...); v_ensures(std::is_same_v<decltype(o),dsga::view_vector<T,N>>,"deduced owning view"); is<T,N>(o,a,"deduced owning view construction"); }(std::make_index_sequence<N>{}); }
#define FL(T,U) E("fill " #T " " #U " 1",fill<T,U,1>) E("fill " #T " " #U " 2",fill<T,U,2>) E("fill " #T " " #U " 3",fill<T,U,3>) E("fill " #T " " #U " 4",fill<T,U,4>)
#define FLA(T) FL(T,float) FL(T,double) FL(T,int) FL(T,unsigned) FL(T,bool) FL(T,ll) FL(T,ull)
#define DF(T) E("default " #T " 1",dflt<T,1>) E("default " #T " 2",dflt<T,2>) E("default " #T " 3",dflt<T,3>) E("default " #T " 4",dflt<T,4>) 
#define CP(T) E("copy " #T " 1",copy<T,1>) E("copy " #T " 2",copy<T,2>) E("copy " #T " 3",copy<T,3>) E("copy " #T " 4",copy<T,4>)
#define CV(K,T,U,N,M) E("convert " #K " " #U #M " to " #T #N,conv<K,T,U,N,M>)
#define CVM(K,T,U) CV(K,T,U,1,1) CV(K,T,U,1,2) CV(K,T,U,1,3) CV(K,T,U,1,4) CV(K,T,U,2,2) CV(K,T,U,2,3) CV(K,T,U,2,4) CV(K,T,U,3,3) CV(K,T,U,3,4) CV(K,T,U,4,4)
#define CVK(T,U) CVM(OWN,T,U) CVM(SWZ,T,U) CVM(VIEW,T,U) CVM(VSWZ,T,U) CVM(OVIEW,T,U) CVM(CVIEW,T,U)
#define CVT(U) CVM(OWN,float,U) CVM(OWN,double,U) CVM(OWN,int,U) CVM(OWN,unsigned,U) CVM(OWN,bool,U) CVM(OWN,ll,U)
#define C1(T) E("scalar1 " #T " float",conv1<T,float>) E("scalar1 " #T " int",conv1<T,int>) E("scalar1 " #T " double",conv1<T,double>) E("scalar1 " #T " bool",conv1<T,bool>)
#define MA(V,T,N,U,C,R) E(#V #N "<" #T ">(mat " #U " " #C "x" #R ")",V<T,N,AM<U,C,R>>)
#define MA2(V,T,N,U,C,R) E(#V #N "<" #T ">(s,mat " #U " " #C "x" #R ")",V<T,N,AS<T>,AM<U,C,R>>)
#define MA3(V,T,N,U,C,R) E(#V #N "<" #T ">(v2,mat " #U " " #C "x" #R ")",V<T,N,AV<OWN,U,2>,AM<U,C,R>>)
#define MAS(V,T,U) MA(V,T,2,U,2,2) MA(V,T,3,U,2,2) MA(V,T,4,U,2,2) MA(V,T,4,U,3,2) MA(V,T,4,U,2,3) MA(V,T,3,U,3,3) MA(V,T,4,U,4,4) MA(V,T,2,U,4,2) MA2(V,T,2,U,2,2) MA2(V,T,3,U,2,2) MA2(V,T,4,U,2,3) MA3(V,T,3,U,2,2) MA3(V,T,4,U,3,2) MA3(V,T,4,U,3,3)
#ifndef PART
#define PART 0
#endif
extern "C" const v_entry v_table[] = {
#if PART==0
 CT7_0
#elif PART==1
 CT7_1
#elif PART==2
 CT7_2
#elif PART==3
 CT7_3
#elif PART==4
 CT7_4
#elif PART==5
 CT7_5
#elif PART==6
 FLA(float) FLA(double) FLA(int) FLA(unsigned) FLA(bool) FLA(ll) FLA(ull) DF(float) DF(double) DF(int) DF(unsigned) DF(bool) DF(ll) DF(ull) CP(float) CP(double) CP(int) CP(bool) CP(unsigned) C1(float) C1(double) C1(int) C1(unsigned) C1(bool)
#elif PART==7
 CVK(float,float) CVK(double,float) CVK(float,int) CVK(int,int) CVK(double,int)
#elif PART==8
 CVT(float) CVT(double) CVT(int) CVT(unsigned) CVT(bool) CVT(ll) MAS(vec,float,float) MAS(vec,double,float) MAS(vec,float,double) MAS(vec,int,float) MAS(ovec,float,float) MAS(ovec,double,float) CVK(bool,bool) CVK(float,double)
#endif
 V_END };
