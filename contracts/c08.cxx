// C08: matrix constructors fill columns, diagonals and resize with identity
#include "args.h"
#include "gen/ctor8.h"
template<class T,std::size_t C,std::size_t R> using MM=dsga::basic_matrix<T,C,R>;
template<class T,std::size_t C,std::size_t R> void ism(const MM<T,C,R>&m,const Arr<T,C*R>&w,const char*l){ bool ok=true; for(std::size_t i=0;i<C*R;i++) ok=v_and(ok,v_same<T>(m.columns[i/R].base.store[i%R],w[i])); v_ensures(ok,l); }
template<class T,std::size_t C,std::size_t R,class...A,std::size_t...I> void mat_(std::index_sequence<I...>){ std::tuple<A...> t{}; Flat<T,C*R,A...> f(std::get<I>(t)...); MM<T,C,R> m(std::get<I>(t).get()...); ism<T,C,R>(m,f.w,"element (c,r) is entry c*R+r of the flattened, converted arguments"); bool s=true; ((s=v_and(s,std::get<I>(t).same())),...); v_ensures(s,"arguments unmodified"); }
template<class T,std::size_t C,std::size_t R,class...A> void mat(){ mat_<T,C,R,A...>(std::index_sequence_for<A...>{}); }
template<class T,class U,std::size_t N> void diag(){ U u=v_in<U>(); Arr<T,N*N> w; for(std::size_t i=0;i<N*N;i++) w[i]=(i/N==i%N)?static_cast<T>(u):T(0); MM<T,N,N> m(u); ism<T,N,N>(m,w,"the scalar on the diagonal, zero elsewhere"); if constexpr(requires{ MM<T,N,N>(VV<U,1>(u)); }){ MM<T,N,N> q{VV<U,1>(u)}; ism<T,N,N>(q,w,"a one-component vector acts like the scalar"); } }
template<class T,std::size_t C,std::size_t R> void dflt(){ T junk=v_in<T>(); (void)junk; Arr<T,C*R> z; for(std::size_t i=0;i<C*R;i++) z[i]=T(0); MM<T,C,R> m{}; ism<T,C,R>(m,z,"value-initialised matrix is zero"); static constexpr MM<T,C,R> c{}; ism<T,C,R>(c,z,"constant matrix is zero"); }
template<class T,std::size_t C,std::size_t R,class U,std::size_t C2,std::size_t R2> void resize(){ AM<U,C2,R2> a; Arr<T,C*R> w; for(std::size_t c=0;c<C;c++) for(std::size_t r=0;r<R;r++) w[c*R+r]=(c<C2&&r<R2)?static_cast<T>(a.l[c*R2+r]):(C==R&&c==r?T(1):T(0));
  MM<T,C,R> m(a.get()); ism<T,C,R>(m,w,"overlapping block copied, the rest completed with the identity"); v_ensures(a.same(),"source unmodified");
  if constexpr(C==C2&&R==R2){ auto o=v_arr<T,C*R>(); if constexpr(std::is_convertible_v<MM<U,C,R>,MM<T,C,R>>){ MM<T,C,R> n=a.get(); ism<T,C,R>(n,w,"implicit conversion copies every element"); } MM<T,C,R> x; v_for<C*R>([&](auto i){ x[i/R][i%R]=o[i]; }); if constexpr(requires{ x=a.get(); }){ auto&r=(x=a.get()); ism<T,C,R>(x,w,"assignment stores every element"); v_ensures(&r==&x,"assignment returns the target"); } v_ensures(a.same(),"source unmodified"); } }
template<class T,std::size_t C,std::size_t R> void copy(){ auto a=v_arr<T,C*R>(),b=v_arr<T,C*R>(); MM<T,C,R> x,y; v_for<C*R>([&](auto i){ x[i/R][i%R]=a[i]; y[i/R][i%R]=b[i]; }); MM<T,C,R> c(x),d(std::move(x)); ism<T,C,R>(c,a,"copy"); ism<T,C,R>(d,a,"move"); c=y; ism<T,C,R>(c,b,"copy assignment"); ism<T,C,R>(d,a,"copies are independent"); d=std::move(y); ism<T,C,R>(d,b,"move assignment"); c=c; ism<T,C,R>(c,b,"self assignment"); MM<T,C,R> e{c}; ism<T,C,R>(e,b,"braced copy"); }
// pointer: elements read column-major, exactly C*R of them (the array has exactly that many: one element more would be out of bounds), converted; null rejected by an exception
template<class T,std::size_t C,std::size_t R,class U> void ptr(){ auto a=v_arr<U,C*R>(); U e[C*R]; for(std::size_t i=0;i<C*R;i++) e[i]=a[i]; Arr<T,C*R> w; for(std::size_t i=0;i<C*R;i++) w[i]=static_cast<T>(a[i]); const U*p=e; MM<T,C,R> m(p); ism<T,C,R>(m,w,"element (c,r) is source element c*R+r"); bool ok=true; for(std::size_t i=0;i<C*R;i++) ok=v_and(ok,v_same<U>(e[i],a[i])); v_ensures(ok,"source unmodified"); MM<T,C,R> n=e; ism<T,C,R>(n,w,"array decays to the pointer form");
  const U*z=nullptr; bool thrown=false; try{ MM<T,C,R> q(z); (void)q; } catch(const std::invalid_argument&){ thrown=true; } v_ensures(thrown,"a null source is rejected by std::invalid_argument"); bool t2=false; try{ U*zz=nullptr; MM<T,C,R> q(zz); (void)q; } catch(const std::exception&){ t2=true; } v_ensures(t2,"a null source is rejected by an exception"); }
#define DG(T,U) E("diagonal " #T " " #U " 2",diag<T,U,2>) E("diagonal " #T " " #U " 3",diag<T,U,3>) E("diagonal " #T " " #U " 4",diag<T,U,4>)
#define SH1(M,T,...) M(T,2,2,##__VA_ARGS__) M(T,2,3,##__VA_ARGS__) M(T,2,4,##__VA_ARGS__) M(T,3,2,##__VA_ARGS__) M(T,3,3,##__VA_ARGS__) M(T,3,4,##__VA_ARGS__) M(T,4,2,##__VA_ARGS__) M(T,4,3,##__VA_ARGS__) M(T,4,4,##__VA_ARGS__)
#define DF(T,C,R) E("default " #T " " #C "x" #R,dflt<T,C,R>) E("copy " #T " " #C "x" #R,copy<T,C,R>)
#define PT(T,C,R,U) E("pointer " #T " " #C "x" #R " from " #U,ptr<T,C,R,U>)
#define RS(T,C,R,U,C2,R2) E("matrix " #T " " #C "x" #R " from " #U " " #C2 "x" #R2,resize<T,C,R,U,C2,R2>)
#define RSR(T,C,R,U) RS(T,C,R,U,2,2) RS(T,C,R,U,2,3) RS(T,C,R,U,2,4) RS(T,C,R,U,3,2) RS(T,C,R,U,3,3) RS(T,C,R,U,3,4) RS(T,C,R,U,4,2) RS(T,C,R,U,4,3) RS(T,C,R,U,4,4)
#ifndef PART
#define PART 0
#endif
extern "C" const v_entry v_table[] = {
#if PART==0
 CT8_0
#elif PART==1
 CT8_1
#elif PART==2
 CT8_2
#elif PART==3
 CT8_3
#elif PART==4
 CT8_4
#elif PART==5
 SH1(DF,float) SH1(DF,double) DG(float,float) DG(float,double) DG(float,int) DG(float,unsigned) DG(float,bool) DG(float,ll) DG(double,float) DG(double,double) DG(double,int) DG(double,ull) SH1(PT,float,float) SH1(PT,float,double) SH1(PT,double,float) SH1(PT,double,double)
#elif PART==6
 SH1(RSR,float,float) SH1(RSR,double,double)
#elif PART==7
 SH1(RSR,float,double) SH1(RSR,double,float)
#endif
 V_END };
