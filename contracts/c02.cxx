// C02: compound assignment and ++/-- update exactly the addressed components
#include "vdsga.h"
#include "vops.h"
#include "gen/swz.h"
// expected storage after `x op= y`: addressed elements get the scalar result computed from the values before, the rest is as before
template<class O,class A,std::size_t N> void expect(const O&x,const Snap<O>&before,const Arr<A,N>&want){
  std::array<A,O::total> e; for(std::size_t i=0;i<O::total;i++) e[i]=before.s[i]; for(std::size_t k=0;k<N;k++) e[O::at(k)]=want[k];
  bool ad=true,fr=true; for(std::size_t i=0;i<O::total;i++){ bool named=false; for(std::size_t k=0;k<N;k++) named=named||O::at(k)==i; if(named) ad=v_and(ad,v_same(e[i],x.raw(i))); else fr=v_and(fr,v_same(e[i],x.raw(i))); }
  v_ensures(ad,"each addressed component is the scalar operation on the previous values"); v_ensures(fr,"components not addressed keep their value"); }
template<class OP,int K1,class A,int K2,class B,std::size_t N> void cvv(){
  auto a=v_arr<A,N>(); auto b=v_arr<B,N>(); auto fa=v_arr<A,4>(); auto fb=v_arr<B,4>();
  for(std::size_t i=0;i<N;i++) v_requires(OP::pre(a[i],b[i]));
  Opd<K1,A,N> x(a,fa); Opd<K2,B,N> y(b,fb); Snap sx(x); Snap sy(y);
  auto&r=OP::impc(x.get(),std::as_const(y.get())); v_ensures((const void*)&r==(const void*)&x.get(),"returns the left operand");
  Arr<A,N> w; for(std::size_t i=0;i<N;i++) w[i]=static_cast<A>(OP::spec(a[i],b[i])); expect(x,sx,w); v_ensures(sy.same(y),"right operand unmodified"); }
template<class OP,int K1,class A,class B,std::size_t N> void cvs(){
  auto a=v_arr<A,N>(); B b=v_in<B>(); auto fa=v_arr<A,4>(); for(std::size_t i=0;i<N;i++) v_requires(OP::pre(a[i],b));
  Opd<K1,A,N> x(a,fa); Snap sx(x); auto&r=OP::impc(x.get(),b); v_ensures((const void*)&r==(const void*)&x.get(),"returns the left operand");
  Arr<A,N> w; for(std::size_t i=0;i<N;i++) w[i]=static_cast<A>(OP::spec(a[i],b)); expect(x,sx,w); }
template<class OP,int K1,class A,int K2,class B,std::size_t N> void cv1(){
  auto a=v_arr<A,N>(); auto b=v_arr<B,1>(); auto fa=v_arr<A,4>(); auto fb=v_arr<B,4>(); for(std::size_t i=0;i<N;i++) v_requires(OP::pre(a[i],b[0]));
  Opd<K1,A,N> x(a,fa); Opd<K2,B,1> y(b,fb); Snap sx(x); Snap sy(y); auto&r=OP::impc(x.get(),std::as_const(y.get())); v_ensures((const void*)&r==(const void*)&x.get(),"returns the left operand");
  Arr<A,N> w; for(std::size_t i=0;i<N;i++) w[i]=static_cast<A>(OP::spec(a[i],b[0])); expect(x,sx,w); v_ensures(sy.same(y),"right operand unmodified"); }
// --- the right operand reads the left operand's own storage
template<class T,std::size_t D,class W> void alias_post(const Arr<T,D>&s,const Arr<T,D>&now,const Arr<T,W::n>&want,std::size_t off){
  bool ad=true,fr=true; for(std::size_t i=0;i<D;i++){ int hit=-1; for(std::size_t k=0;k<W::n;k++) if(W::p[k]+off==i) hit=(int)k; if(hit>=0) ad=v_and(ad,v_same(now[i],want[hit])); else fr=v_and(fr,v_same(now[i],s[i])); }
  v_ensures(ad,"each addressed component is computed from the values before the statement"); v_ensures(fr,"components not addressed keep their value"); }
// left: swizzle W of a vector of length D; right: any selection of that vector's components (symbolic indices)
template<class OP,class T,std::size_t D,class W,std::size_t M> void asym(){ auto s=v_arr<T,D>(); Arr<int,M> ix=v_arr<int,M>(); for(std::size_t k=0;k<M;k++) v_requires(v_and(ix[k]>=0,ix[k]<(int)D));
  Arr<T,M> rv; for(std::size_t k=0;k<M;k++) rv[k]=s[(std::size_t)ix[k]]; for(std::size_t k=0;k<W::n;k++) v_requires(OP::pre(s[W::p[k]],rv[M==1?0:k]));
  VV<T,D> v; v_for<D>([&](auto i){ v[i]=s[i]; }); Sym<T,M> y(&v[0],ix); OP::impc(W::get(v),y);
  Arr<T,W::n> w; for(std::size_t k=0;k<W::n;k++) w[k]=static_cast<T>(OP::spec(s[W::p[k]],rv[M==1?0:k])); Arr<T,D> now; for(std::size_t i=0;i<D;i++) now[i]=v[i]; alias_post<T,D,W>(s,now,w,0); }
// left: swizzle W of a view; right: any selection of the whole buffer
template<class OP,class T,std::size_t D,class W,std::size_t M> void asymv(){ auto s=v_arr<T,D+2>(); Arr<int,M> ix=v_arr<int,M>(); for(std::size_t k=0;k<M;k++) v_requires(v_and(ix[k]>=0,ix[k]<(int)D+2));
  Arr<T,M> rv; for(std::size_t k=0;k<M;k++) rv[k]=s[(std::size_t)ix[k]]; for(std::size_t k=0;k<W::n;k++) v_requires(OP::pre(s[W::p[k]+1],rv[M==1?0:k]));
  Arr<T,D+2> b=s; dsga::basic_view<true,T,D> v(b.e+1); Sym<T,M> y(b.e,ix); OP::impc(W::get(v),y);
  Arr<T,W::n> w; for(std::size_t k=0;k<W::n;k++) w[k]=static_cast<T>(OP::spec(s[W::p[k]+1],rv[M==1?0:k])); alias_post<T,D+2,W>(s,b,w,1); }
// left and right are two named swizzles (or the vector itself, when the word is the identity) of one vector
template<class OP,class T,std::size_t D,class W,class R> void anam(){ auto s=v_arr<T,D>(); for(std::size_t k=0;k<W::n;k++) v_requires(OP::pre(s[W::p[k]],s[R::p[R::n==1?0:k]]));
  VV<T,D> v; v_for<D>([&](auto i){ v[i]=s[i]; }); OP::impc(W::get(v),R::get(v)); Arr<T,W::n> w; for(std::size_t k=0;k<W::n;k++) w[k]=static_cast<T>(OP::spec(s[W::p[k]],s[R::p[R::n==1?0:k]])); Arr<T,D> now; for(std::size_t i=0;i<D;i++) now[i]=v[i]; alias_post<T,D,W>(s,now,w,0); }
template<class OP,class T,std::size_t D,class W,class R> void anamv(){ auto s=v_arr<T,D>(); for(std::size_t k=0;k<W::n;k++) v_requires(OP::pre(s[W::p[k]],s[R::p[R::n==1?0:k]]));
  Arr<T,D> b=s; dsga::basic_view<true,T,D> v(b.e); OP::impc(W::get(v),R::get(v)); Arr<T,W::n> w; for(std::size_t k=0;k<W::n;k++) w[k]=static_cast<T>(OP::spec(s[W::p[k]],s[R::p[R::n==1?0:k]])); alias_post<T,D,W>(s,b,w,0); }
struct Self { template<class V> static auto& get(V&v){ return v; } };
// whole vector with a swizzle of itself, with itself, and a view over the vector's data
template<class OP,class T,std::size_t D,class R> void aself(){ auto s=v_arr<T,D>(); for(std::size_t k=0;k<D;k++) v_requires(OP::pre(s[k],s[R::p[R::n==1?0:k]]));
  VV<T,D> v; v_for<D>([&](auto i){ v[i]=s[i]; }); auto&r=OP::impc(v,R::get(v)); v_ensures(&r==&v,"returns the left operand"); bool ok=true; for(std::size_t k=0;k<D;k++) ok=v_and(ok,v_same(v[k],static_cast<T>(OP::spec(s[k],s[R::p[R::n==1?0:k]])))); v_ensures(ok,"each component is computed from the values before the statement"); }
template<class OP,class T,std::size_t D> void aself2(){ auto s=v_arr<T,D>(); for(std::size_t k=0;k<D;k++) v_requires(OP::pre(s[k],s[k]));
  VV<T,D> v; v_for<D>([&](auto i){ v[i]=s[i]; }); OP::impc(v,v); bool ok=true; for(std::size_t k=0;k<D;k++) ok=v_and(ok,v_same(v[k],static_cast<T>(OP::spec(s[k],s[k])))); v_ensures(ok,"x op= x");
  dsga::view_vector<T,D> o; v_for<D>([&](auto i){ o[i]=s[i]; }); OP::impc(o,o); ok=true; for(std::size_t k=0;k<D;k++) ok=v_and(ok,v_same(o[k],static_cast<T>(OP::spec(s[k],s[k])))); v_ensures(ok,"owning view op= itself"); }
template<class OP,class T,std::size_t D> void ascal(){ auto s=v_arr<T,D>(); int i=v_in<int>(); v_requires(v_and(i>=0,i<(int)D)); T e=s[(std::size_t)i]; for(std::size_t k=0;k<D;k++) v_requires(OP::pre(s[k],e));
  VV<T,D> v; v_for<D>([&](auto q){ v[q]=s[q]; }); OP::impc(v,v[i]); bool ok=true; for(std::size_t k=0;k<D;k++) ok=v_and(ok,v_same(v[k],static_cast<T>(OP::spec(s[k],e)))); v_ensures(ok,"scalar operand that is one of the vector's own components: its previous value is used"); }
// overlapping views over one buffer at symbolic distance
template<class OP,class T,std::size_t D> void aview(){ auto s=v_arr<T,2*D>(); int i=v_in<int>(),j=v_in<int>(); v_requires(v_and(v_and(i>=0,i<=(int)D),v_and(j>=0,j<=(int)D))); for(std::size_t k=0;k<D;k++) v_requires(OP::pre(s[i+k],s[j+k]));
  Arr<T,2*D> b=s; dsga::basic_view<true,T,D> x(b.e+i); dsga::basic_view<false,T,D> y(b.e+j); auto&r=OP::impc(x,y); v_ensures(&r==&x,"returns the left operand");
  bool ok=true; for(std::size_t q=0;q<2*D;q++){ T w=s[q]; for(std::size_t k=0;k<D;k++) w=v_ite((std::size_t)i+k==q,static_cast<T>(OP::spec(s[i+k],s[j+k])),w); ok=v_and(ok,v_same(b[q],w)); } v_ensures(ok,"overlapping views: every element as computed from the values before, nothing else changed"); }
// increment / decrement
template<int DIR,bool POST,int K,class T,std::size_t N> void inc(){ auto a=v_arr<T,N>(); auto f=v_arr<T,4>(); if constexpr(std::is_integral_v<T>&&std::is_signed_v<T>) for(std::size_t i=0;i<N;i++) v_requires(DIR>0?a[i]!=std::numeric_limits<T>::max():a[i]!=std::numeric_limits<T>::min());
  Opd<K,T,N> x(a,f); Snap sx(x); Arr<T,N> w; for(std::size_t i=0;i<N;i++) w[i]=DIR>0?static_cast<T>(a[i]+T(1)):static_cast<T>(a[i]-T(1));
  if constexpr(POST){ auto r=[&]{ if constexpr(DIR>0) return x.get()++; else return x.get()--; }(); expect(x,sx,w); static_assert(std::is_same_v<decltype(r),VV<T,N>>); for(std::size_t i=0;i<N;i++) v_ensures(v_same<T>(r[i],a[i]),"postfix returns the previous value"); }
  else { auto&r=[&]()->auto&{ if constexpr(DIR>0) return ++x.get(); else return --x.get(); }(); expect(x,sx,w); v_ensures((const void*)&r==(const void*)&x.get(),"prefix returns the operand"); } }

#define N4(M,...) M(__VA_ARGS__,1) M(__VA_ARGS__,2) M(__VA_ARGS__,3) M(__VA_ARGS__,4)
#define CV(O,A,B,N) E(#O "= own,own " #A "," #B " n=" #N,cvv<O,OWN,A,OWN,B,N>) E(#O "= swz,view " #A "," #B " n=" #N,cvv<O,SWZ,A,VIEW,B,N>) E(#O "= view,cview " #A "," #B " n=" #N,cvv<O,VIEW,A,CVIEW,B,N>) E(#O "= vswz,ovswz " #A "," #B " n=" #N,cvv<O,VSWZ,A,OVSWZ,B,N>) E(#O "= oview,swz " #A "," #B " n=" #N,cvv<O,OVIEW,A,SWZ,B,N>) E(#O "= ovswz,own " #A "," #B " n=" #N,cvv<O,OVSWZ,A,OWN,B,N>)
#define CS(O,A,B,N) E(#O "= own,s " #A "," #B " n=" #N,cvs<O,OWN,A,B,N>) E(#O "= swz,s " #A "," #B " n=" #N,cvs<O,SWZ,A,B,N>) E(#O "= view,s " #A "," #B " n=" #N,cvs<O,VIEW,A,B,N>) E(#O "= vswz,s " #A "," #B " n=" #N,cvs<O,VSWZ,A,B,N>) E(#O "= oview,s " #A "," #B " n=" #N,cvs<O,OVIEW,A,B,N>) E(#O "= ovswz,s " #A "," #B " n=" #N,cvs<O,OVSWZ,A,B,N>)
#define C1(O,A,B,N) E(#O "= own,1 " #A "," #B " n=" #N,cv1<O,OWN,A,OWN,B,N>) E(#O "= swz,1swz " #A "," #B " n=" #N,cv1<O,SWZ,A,SWZ,B,N>) E(#O "= view,1view " #A "," #B " n=" #N,cv1<O,VIEW,A,VIEW,B,N>) E(#O "= vswz,1vswz " #A "," #B " n=" #N,cv1<O,VSWZ,A,VSWZ,B,N>)
#define CF(O,A,B) N4(CV,O,A,B) N4(CS,O,A,B) C1(O,A,B,2) C1(O,A,B,3) C1(O,A,B,4)
#define CL(O,A,B) CV(O,A,B,1) CV(O,A,B,3) CS(O,A,B,2) CS(O,A,B,4) C1(O,A,B,3)
#define AS(O,T,D,M,W) E(#O "= alias vec" #D " " #W " any" #M " " #T,asym<O,T,D,W,M>) E(#O "= alias view" #D " " #W " any" #M " " #T,asymv<O,T,D,W,M>)
#define ASALL(O,T) W4_1(AS,O,T,4,1) W4_2(AS,O,T,4,2) W4_2(AS,O,T,4,1) W4_3(AS,O,T,4,3) W4_3(AS,O,T,4,1) W4_4(AS,O,T,4,4) W4_4(AS,O,T,4,1)
#define ASSOME(O,T) W2_2(AS,O,T,2,2) W2_2(AS,O,T,2,1) W3_3(AS,O,T,3,3) W3_2(AS,O,T,3,2) W2_1(AS,O,T,2,1) AS(O,T,4,4,S_wzyx) AS(O,T,4,4,S_yzwx) AS(O,T,4,3,S_wxz) AS(O,T,4,2,S_zx) AS(O,T,4,1,S_wzyx)
#define AN(O,T,D,R,W) E(#O "= alias vec" #D " " #W "," #R " " #T,anam<O,T,D,W,R>) E(#O "= alias view" #D " " #W "," #R " " #T,anamv<O,T,D,W,R>)
#define AN2(O,T,W) W2_2(AN,O,T,2,W)
#define AF(O,T,D,R) E(#O "= self vec" #D " " #R " " #T,aself<O,T,D,R>)
#define AV(O,T,D) E(#O "= x x " #T " n=" #D,aself2<O,T,D>) E(#O "= own component " #T " n=" #D,ascal<O,T,D>) E(#O "= overlapping views " #T " n=" #D,aview<O,T,D>)
#define ANX(O,T) R2_2(AN,O,T,2,S_yx) R2_2(AN,O,T,2,S_xy)
#define ALIAS(O,T) W2_2(AF,O,T,2) W3_3(AF,O,T,3) AF(O,T,4,S_wzyx) AF(O,T,4,S_yxwz) AF(O,T,4,S_yyxx) AF(O,T,4,S_wwww) AF(O,T,4,S_y) AF(O,T,2,S_y) AF(O,T,3,S_z) AV(O,T,1) AV(O,T,2) AV(O,T,3) AV(O,T,4) AN(O,T,2,S_yx,S_xy) AN(O,T,2,S_xy,S_yx) AN(O,T,3,S_xyz,S_zxy) AN(O,T,3,S_zxy,S_xyz) AN(O,T,4,S_xyzw,S_wzyx) AN(O,T,4,S_wzyx,S_xyzw) AN(O,T,4,S_xyz,S_yzw) AN(O,T,4,S_xy,S_wx) AN(O,T,4,S_x,S_wx) AN(O,T,4,S_z,S_zxyw) AN(O,T,4,S_zzz,S_xzy) AN(O,T,2,S_xx,S_yx)
#define INC(K,T,N) E("++pre " #K " " #T " n=" #N,inc<1,false,K,T,N>) E("--pre " #K " " #T " n=" #N,inc<-1,false,K,T,N>) E("post++ " #K " " #T " n=" #N,inc<1,true,K,T,N>) E("post-- " #K " " #T " n=" #N,inc<-1,true,K,T,N>)
#define INCT(T) N4(INC,OWN,T) N4(INC,SWZ,T) N4(INC,VIEW,T) N4(INC,VSWZ,T) N4(INC,OVIEW,T) N4(INC,OVSWZ,T)
#define ARI(O) CF(O,float,float) CF(O,int,int) CL(O,double,double) CL(O,unsigned,unsigned) CL(O,ll,ll) CL(O,double,float) CL(O,float,int) CL(O,double,int) CL(O,ll,int) ALIAS(O,float) ALIAS(O,int)
#define BIT(O) CF(O,int,int) CL(O,unsigned,unsigned) CL(O,ll,ll) CL(O,ull,ull) ALIAS(O,int)
#ifndef PART
#define PART 0
#endif
extern "C" const v_entry v_table[] = {
#if PART==0
 ARI(add)
#elif PART==1
 ARI(sub)
#elif PART==2
 ARI(mul)
#elif PART==3
 ARI(divi)
#elif PART==4
 BIT(mod) BIT(band) CL(mod,ll,int)
#elif PART==5
 BIT(bor) BIT(bxor)
#elif PART==6
 BIT(shl) BIT(shr) CL(shl,ll,int) CL(shr,ll,int)
#elif PART==7
 INCT(int) INCT(float) INCT(double) INCT(unsigned) INCT(ll)
#elif PART==8
 ASALL(sub,float) ASALL(add,int)
#elif PART==9
 ASSOME(mul,float) ASSOME(divi,float) ASSOME(mod,int) ASSOME(shl,int) ASSOME(shr,int)
#elif PART==10
 ASSOME(band,int) ASSOME(bor,int) ASSOME(bxor,int) ASSOME(mul,int) ASSOME(divi,int) ASSOME(add,double)
#endif
 V_END };
