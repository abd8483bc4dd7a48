// C04: assigning through a swizzle writes exactly the named components, alias-safely
#include "vdsga.h"
#include "gen/swz.h"
// storage after the write: element off+p[k] holds want[k], all others their previous value
template<class T,std::size_t D,class W> void post(const Arr<T,D>&s,const Arr<T,D>&now,const Arr<T,W::n>&want,std::size_t off){
  bool ad=true,fr=true; for(std::size_t i=0;i<D;i++){ int hit=-1; for(std::size_t k=0;k<W::n;k++) if(W::p[k]+off==i) hit=(int)k; if(hit>=0) ad=v_and(ad,v_same(now[i],want[hit])); else fr=v_and(fr,v_same(now[i],s[i])); }
  v_ensures(ad,"source component k is stored in the component named by letter k"); v_ensures(fr,"every other component keeps its value"); }
template<class T,std::size_t D> Arr<T,D> now(const VV<T,D>&v){ Arr<T,D> r; v_for<D>([&](auto i){ r[i]=v[i]; }); return r; }
template<class T,std::size_t D> VV<T,D> mk(const Arr<T,D>&s){ VV<T,D> v; v_for<D>([&](auto i){ v[i]=s[i]; }); return v; }
template<class T,std::size_t D> struct Buf { Arr<T,D+2> b; dsga::basic_view<true,T,D> w; Buf(const Arr<T,D+2>&s):b(s),w(b.e+1){} };
template<class T,class U,std::size_t N> Arr<T,N> conv(const Arr<U,N>&a){ Arr<T,N> r; for(std::size_t k=0;k<N;k++) r[k]=static_cast<T>(a[k]); return r; }
// independent source of any kind
template<int K,class T,class U,std::size_t D,class W> void ind(){ auto s=v_arr<T,D+2>(); auto a=v_arr<U,W::n>(); auto f=v_arr<U,4>(); Opd<K,U,W::n> y(a,f); Snap sy(y);
  if constexpr(!std::is_same_v<std::remove_cvref_t<decltype(W::get(std::declval<VV<T,D>&>()))>,std::remove_cvref_t<decltype(y.get())>>){ Arr<T,D> t; v_for<D>([&](auto i){ t[i]=s[i]; }); auto v=mk<T,D>(t); auto&r=(W::get(v)=std::as_const(y.get())); post<T,D,W>(t,now<T,D>(v),conv<T>(a),0); v_ensures((void*)&r==(void*)&W::get(v),"returns the swizzle"); }
  if constexpr(!std::is_same_v<std::remove_cvref_t<decltype(W::get(std::declval<Buf<T,D>&>().w))>,std::remove_cvref_t<decltype(y.get())>>){ Buf<T,D> q(s); auto&r=(W::get(q.w)=std::as_const(y.get())); post<T,D+2,W>(s,q.b,conv<T>(a),1); v_ensures((void*)&r==(void*)&W::get(q.w),"returns the swizzle"); }
  if constexpr(!std::is_same_v<std::remove_cvref_t<decltype(W::get(std::declval<Buf<T,D>&>().w))>,std::remove_cvref_t<decltype(y.get())>>){ Buf<T,D> q(s); auto t=q.w; std::move(W::get(t))=std::as_const(y.get()); post<T,D+2,W>(s,q.b,conv<T>(a),1); }
  v_ensures(sy.same(y),"source unmodified"); }
template<class T,class U,std::size_t D,class W> void scal(){ auto s=v_arr<T,D+2>(); U a=v_in<U>(); Arr<T,1> w; w[0]=static_cast<T>(a);
  { Arr<T,D> t; v_for<D>([&](auto i){ t[i]=s[i]; }); auto v=mk<T,D>(t); W::get(v)=a; post<T,D,W>(t,now<T,D>(v),w,0); }
  { Buf<T,D> q(s); W::get(q.w)=a; post<T,D+2,W>(s,q.b,w,1); } { Buf<T,D> q(s); std::move(W::get(q.w))=a; post<T,D+2,W>(s,q.b,w,1); } }
template<class T,std::size_t D,class W> void sets(){ auto s=v_arr<T,D+2>(); auto a=v_arr<T,W::n>();
  [&]<std::size_t...I>(std::index_sequence<I...>){ { Arr<T,D> t; v_for<D>([&](auto i){ t[i]=s[i]; }); auto v=mk<T,D>(t); W::get(v).set(a[I]...); post<T,D,W>(t,now<T,D>(v),a,0); } { Buf<T,D> q(s); W::get(q.w).set(a[I]...); post<T,D+2,W>(s,q.b,a,1); } }(std::make_index_sequence<W::n>{}); }
// source: an arbitrary selection of the destination's own components
template<class T,std::size_t D,class W> void asym(){ auto s=v_arr<T,D>(); auto ix=v_arr<int,W::n>(); for(std::size_t k=0;k<W::n;k++) v_requires(v_and(ix[k]>=0,ix[k]<(int)D)); auto v=mk<T,D>(s); Sym<T,W::n> y(&v[0],ix); W::get(v)=y; Arr<T,W::n> w; for(std::size_t k=0;k<W::n;k++) w[k]=s[(std::size_t)ix[k]]; post<T,D,W>(s,now<T,D>(v),w,0); }
template<class T,std::size_t D,class W> void asymv(){ auto s=v_arr<T,D+2>(); auto ix=v_arr<int,W::n>(); for(std::size_t k=0;k<W::n;k++) v_requires(v_and(ix[k]>=0,ix[k]<(int)D+2)); Arr<T,W::n> w; for(std::size_t k=0;k<W::n;k++) w[k]=s[(std::size_t)ix[k]];
  { Buf<T,D> q(s); Sym<T,W::n> y(q.b.e,ix); W::get(q.w)=y; post<T,D+2,W>(s,q.b,w,1); } { Buf<T,D> q(s); Sym<T,W::n> y(q.b.e,ix); std::move(W::get(q.w))=y; post<T,D+2,W>(s,q.b,w,1); } }
// source: a named swizzle of the destination
template<class T,std::size_t D,class W,class R> void nam(){ auto s=v_arr<T,D>(); Arr<T,W::n> w; for(std::size_t k=0;k<W::n;k++) w[k]=s[R::p[k]]; auto v=mk<T,D>(s); W::get(v)=R::get(v); post<T,D,W>(s,now<T,D>(v),w,0); }
template<class T,std::size_t D,class W,class R> void namv(){ auto s=v_arr<T,D+2>(); Arr<T,W::n> w; for(std::size_t k=0;k<W::n;k++) w[k]=s[R::p[k]+1]; if constexpr(!std::is_same_v<W,R>){ Buf<T,D> q(s); W::get(q.w)=R::get(q.w); post<T,D+2,W>(s,q.b,w,1); } Buf<T,D> q(s); dsga::view_vector<T,D> o; v_for<D>([&](auto i){ o[i]=s[i+1]; }); if constexpr(!std::is_same_v<W,R>) { W::get(o)=R::get(o); Arr<T,D> t,n; v_for<D>([&](auto i){ t[i]=s[i+1]; n[i]=o[i]; }); post<T,D,W>(t,n,w,0); } else v_ensures(true,"-"); }
// source: the whole destination vector, and destination: the whole vector
template<class T,std::size_t D,class W> void whole(){ auto s=v_arr<T,D>(); { auto v=mk<T,D>(s); W::get(v)=v; post<T,D,W>(s,now<T,D>(v),s,0); } }
template<class T,std::size_t D,class R> void towhole(){ auto s=v_arr<T,D>(); auto v=mk<T,D>(s); auto&r=(v=R::get(v)); bool ok=&r==&v; for(std::size_t k=0;k<D;k++) ok=v_and(ok,v_same<T>(v[k],s[R::p[k]])); v_ensures(ok,"v = v.word permutes the old values");
  Arr<T,D> b=s; dsga::basic_view<true,T,D> w(b.e); w=R::get(w); ok=true; for(std::size_t k=0;k<D;k++) ok=v_and(ok,v_same<T>(b[k],s[R::p[k]])); v_ensures(ok,"view = view.word permutes the old values"); }
// the same-named swizzle of another vector
template<class T,std::size_t D,class W> void same(){ auto s=v_arr<T,D>(); auto u=v_arr<T,D>(); auto v=mk<T,D>(s); auto x=mk<T,D>(u); Arr<T,W::n> w; for(std::size_t k=0;k<W::n;k++) w[k]=u[W::p[k]]; W::get(v)=W::get(x); post<T,D,W>(s,now<T,D>(v),w,0); }
template<class T,std::size_t D,class W> void samec(){ auto s=v_arr<T,D>(); auto u=v_arr<T,D>(); auto v=mk<T,D>(s); auto x=mk<T,D>(u); Arr<T,W::n> w; for(std::size_t k=0;k<W::n;k++) w[k]=u[W::p[k]]; W::get(v)=std::as_const(W::get(x)); post<T,D,W>(s,now<T,D>(v),w,0); }
// one component through index or iterator
template<class T,std::size_t D,class W> void one(){ auto s=v_arr<T,D+2>(); int i=v_in<int>(); T t=v_in<T>(); v_requires(v_and(i>=0,i<(int)W::n)); Arr<T,D> c; v_for<D>([&](auto q){ c[q]=s[q]; });
  auto chk=[&](const T*now,const T*old,std::size_t n,std::size_t off,const char*l){ bool ok=true; for(std::size_t q=0;q<n;q++){ T e=old[q]; for(std::size_t k=0;k<W::n;k++) if(W::p[k]+off==q) e=v_ite((std::size_t)i==k,t,e); ok=v_and(ok,v_same<T>(now[q],e)); } v_ensures(ok,l); };
  { auto v=mk<T,D>(c); W::get(v)[i]=t; chk(now<T,D>(v).e,c.e,D,0,"indexed write changes exactly that component"); }
  { auto v=mk<T,D>(c); auto it=W::get(v).begin(); for(int q=0;q<(int)W::n;q++){ if(q==i) *it=t; ++it; } chk(now<T,D>(v).e,c.e,D,0,"iterator write changes exactly that component"); }
  { auto v=mk<T,D>(c); W::get(v).begin()[i]=t; chk(now<T,D>(v).e,c.e,D,0,"iterator [] write changes exactly that component"); }
  { Buf<T,D> q(s); W::get(q.w)[i]=t; chk(q.b.e,s.e,D+2,1,"indexed write through a view swizzle"); } { Buf<T,D> q(s); *(W::get(q.w).begin()+i)=t; chk(q.b.e,s.e,D+2,1,"iterator write through a view swizzle"); } { Buf<T,D> q(s); W::get(q.w).begin()[i]=t; chk(q.b.e,s.e,D+2,1,"iterator [] write through a view swizzle"); } }
#define IND(T,D,W) E("assign vec" #D " " #W " from vec " #T,ind<OWN,T,T,D,W>) E("assign vec" #D " " #W " from swz " #T,ind<SWZ,T,T,D,W>) E("assign vec" #D " " #W " from view " #T,ind<CVIEW,T,T,D,W>) E("assign vec" #D " " #W " from vswz " #T,ind<VSWZ,T,T,D,W>) E("set vec" #D " " #W " " #T,sets<T,D,W>) E("write one vec" #D " " #W " " #T,one<T,D,W>) E("assign vec" #D " " #W " from any own components " #T,asym<T,D,W>) E("assign view" #D " " #W " from any buffer elements " #T,asymv<T,D,W>)
#define SAME(T,D,W) E("assign vec" #D " " #W " from same-named swizzle of another " #T,same<T,D,W>) E("assign vec" #D " " #W " from same-named swizzle of a const " #T,samec<T,D,W>)
#define SC(T,D,W) E("assign vec" #D " " #W " from scalar " #T,scal<T,T,D,W>)
#define SCX(T,U,D,W) E("assign vec" #D " " #W " from scalar " #U " to " #T,scal<T,U,D,W>) E("assign vec" #D " " #W " from vec " #U " to " #T,ind<OWN,T,U,D,W>)
#define CVX(T,U,D,W) E("assign vec" #D " " #W " from vec " #U " to " #T,ind<OWN,T,U,D,W>)
#define NAM(T,D,W,R) E("assign vec" #D " " #W " = " #R " " #T,nam<T,D,W,R>) E("assign view" #D " " #W " = " #R " " #T,namv<T,D,W,R>)
#define WH(T,D,W) E("assign vec" #D " " #W " = v " #T,whole<T,D,W>)
#define TW(T,D,R) E("assign vec" #D " v = " #R " " #T,towhole<T,D,R>)
#define WD(M,T,D) W##D##_1(M,T,D) W##D##_2(M,T,D) 
#define LR4_2(W) W4_2(NAM,float,4,W)
#ifndef PART
#define PART 0
#endif
extern "C" const v_entry v_table[] = {
#if PART==0
 W4_1(IND,float,4) W4_2(IND,float,4) W4_3(IND,float,4)
#elif PART==1
 W4_4(IND,float,4)
#elif PART==2
 W1_1(IND,float,1) W2_1(IND,float,2) W2_2(IND,float,2) W3_1(IND,float,3) W3_2(IND,float,3) W3_3(IND,float,3) W1_1(SC,float,1) W2_1(SC,float,2) W3_1(SC,float,3) W4_1(SC,float,4) W4_1(SC,int,4) W4_1(SCX,float,int,4) W4_1(SCX,double,float,4) W3_1(SCX,double,int,3) W3_3(CVX,double,float,3) W4_2(CVX,float,int,4)
#elif PART==3
 W2_2(IND,int,2) W3_1(IND,int,3) W3_3(IND,int,3) W4_1(IND,int,4) W4_2(IND,double,4) W4_4(SAME,float,4) W3_3(SAME,float,3) W2_2(SAME,float,2) W1_1(SAME,float,1)
#elif PART==4
 R2_2(NAM,float,2,S_xy) R2_2(NAM,float,2,S_yx) R3_2(NAM,float,3,S_xy) R3_2(NAM,float,3,S_zx) R3_3(NAM,float,3,S_xyz) R3_3(NAM,float,3,S_zxy) R3_3(NAM,float,3,S_yxz) R4_2(NAM,float,4,S_xy) R4_2(NAM,float,4,S_wz) R4_2(NAM,float,4,S_yw) R4_1(NAM,float,4,S_y) R3_1(NAM,float,3,S_z)
#elif PART==5
 R4_3(NAM,float,4,S_xyz) R4_3(NAM,float,4,S_wyx) R4_3(NAM,float,4,S_ywz) W4_4(NAM,float,4,S_wzyx) W4_4(NAM,float,4,S_xyzw) W4_4(NAM,float,4,S_yzwx) NAM(float,4,S_yxzw,S_xxyy) NAM(float,4,S_xwyz,S_wwww) W4_4(WH,float,4) W3_3(WH,float,3) W2_2(WH,float,2) W4_4(WH,int,4)
#elif PART==6
 R2_2(TW,float,2) R3_3(TW,float,3) R4_4(TW,float,4)
#elif PART==7
 W2_1(SAME,float,2) W3_1(SAME,float,3) W3_2(SAME,float,3) W4_1(SAME,float,4) W4_2(SAME,float,4) W4_3(SAME,float,4)
#endif
 V_END };
