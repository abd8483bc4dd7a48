// C05: views alias the wrapped data and touch nothing else; owning views are independent values
#include "vdsga.h"
#include "vops.h"
#include "gen/swz.h"
constexpr std::size_t PAD=3; // the buffer is longer than the view: the view starts at an arbitrary (symbolic) element
template<class T,std::size_t D> struct B { Arr<T,D+PAD> s,b; int o; B(){ s=v_arr<T,D+PAD>(); o=v_in<int>(); b=s; v_requires(v_and(o>=0,o<=(int)PAD)); }
  bool upd(int k,T t) const { return true; }
  // expected: element o+k is want(k), everything else as before
  template<class F> void post(F want,const char*l1,const char*l2) const { bool ad=true,fr=true; for(std::size_t q=0;q<D+PAD;q++){ bool in=false; T e=s[q]; for(std::size_t k=0;k<D;k++){ bool h=(std::size_t)o+k==q; e=v_ite(h,want(k),e); in=v_or(in,h); } ad=v_and(ad,v_imp(in,v_same<T>(b[q],e))); fr=v_and(fr,v_imp(!in,v_same<T>(b[q],s[q]))); } v_ensures(ad,l1); v_ensures(fr,l2); } 
  T at(std::size_t k) const { return s[(std::size_t)o+k]; } };
#define LW "the viewed elements hold the written values"
#define LF "memory outside the viewed range is unchanged"
template<class T,std::size_t D,bool M> void rd(){ B<T,D> q; int j=v_in<int>(); T t=v_in<T>(); v_requires(v_and(j>=0,j<(int)(D+PAD))); dsga::basic_view<M,T,D> w(q.b.e+q.o);
  auto chk=[&](const char*l){ bool ok=true; for(std::size_t k=0;k<D;k++) ok=v_and(ok,v_same<T>(w[k],q.b[(std::size_t)q.o+k])); std::size_t k=0; for(auto&&e:w) { ok=v_and(ok,v_same<T>(e,q.b[(std::size_t)q.o+k])); k++; } for(k=0;k<D;k++) ok=v_and(ok,v_same<T>(w.data()[k],q.b[(std::size_t)q.o+k])); VV<T,D> c(w); for(k=0;k<D;k++) ok=v_and(ok,v_same<T>(c[k],q.b[(std::size_t)q.o+k]));
    ok=v_and(ok,v_same<T>(w.x[0],q.b[(std::size_t)q.o])); if constexpr(D>=2){ ok=v_and(ok,v_and(v_same<T>(w.yx[0],q.b[(std::size_t)q.o+1]),v_same<T>(w.yx[1],q.b[(std::size_t)q.o]))); } v_ensures(ok,l); };
  chk("reading through a view gives the wrapped elements"); v_ensures(&w[0]==q.b.e+q.o,"the view refers to the wrapped memory itself"); q.b[(std::size_t)j]=t; chk("a write to the wrapped memory is seen through the view"); 
  auto c=w; v_ensures(c.data()==q.b.e+q.o,"a copy of a view refers to the same memory"); auto m=std::move(c); v_ensures(m.data()==q.b.e+q.o,"a moved view refers to the same memory"); }
template<class T,std::size_t D> void setr(){ B<T,D> q; auto a=v_arr<T,D>(); [&]<std::size_t...I>(std::index_sequence<I...>){ dsga::basic_view<true,T,D> w(q.b.e+q.o); w.set(a[I]...); }(std::make_index_sequence<D>{}); q.post([&](std::size_t k){return a[k];},LW,LF); }
template<class T,std::size_t D> void idx(){ B<T,D> q; int i=v_in<int>(); T t=v_in<T>(); v_requires(v_and(i>=0,i<(int)D)); int way=v_in<int>(); v_requires(v_and(way>=0,way<6)); dsga::basic_view<true,T,D> w(q.b.e+q.o);
  if(way==0) w[i]=t; else if(way==1) *(w.begin()+i)=t; else if(way==2) w.data()[i]=t; else if(way==3) w.rbegin()[(int)D-1-i]=t; else if(way==4) w.as_base()[i]=t; else w.as_base().begin()[i]=t; v_ensures(v_same<T>(w[i],t),"the written component reads back"); q.post([&](std::size_t k){return v_ite((std::size_t)i==k,t,q.at(k));},LW,LF); }
template<int K,class T,class U,std::size_t D> void asg(){ B<T,D> q; auto a=v_arr<U,D>(); auto f=v_arr<U,4>(); Opd<K,U,D> y(a,f); Snap sy(y); bool rv=v_in<bool>(); dsga::basic_view<true,T,D> w(q.b.e+q.o); if(rv) std::move(w)=std::as_const(y.get()); else { auto&r=(w=std::as_const(y.get())); v_ensures(&r==&w,"returns the view"); }
  v_ensures(w.data()==q.b.e+q.o,"assignment does not re-target the view"); q.post([&](std::size_t k){return static_cast<T>(a[k]);},LW,LF); v_ensures(sy.same(y),"source unmodified"); }
template<class T,class U> void asg1(){ B<T,1> q; U a=v_in<U>(); bool rv=v_in<bool>(); dsga::basic_view<true,T,1> w(q.b.e+q.o); if(rv) std::move(w)=a; else w=a; q.post([&](std::size_t){return static_cast<T>(a);},LW,LF); }
// assignment whose source is any selection of the buffer (possibly overlapping), and one view assigned from an overlapping view
template<class T,std::size_t D> void asym(){ B<T,D> q; auto ix=v_arr<int,D>(); for(std::size_t k=0;k<D;k++) v_requires(v_and(ix[k]>=0,ix[k]<(int)(D+PAD))); bool rv=v_in<bool>(); Sym<T,D> y(q.b.e,ix); dsga::basic_view<true,T,D> w(q.b.e+q.o); if(rv) std::move(w)=y; else w=y; q.post([&](std::size_t k){return q.s[(std::size_t)ix[k]];},"overlapping source: every element is read before any is written",LF); }
template<class T,std::size_t D> void aview(){ B<T,D> q; int p=v_in<int>(); v_requires(v_and(p>=0,p<=(int)PAD)); bool rv=v_in<bool>(); dsga::basic_view<true,T,D> w(q.b.e+q.o); dsga::basic_view<false,T,D> y(q.b.e+p); if(rv) std::move(w)=y; else w=y; q.post([&](std::size_t k){return q.s[(std::size_t)p+k];},"overlapping views: every element is read before any is written",LF); v_ensures(v_and(w.data()==q.b.e+q.o,y.data()==q.b.e+p),"no view is re-targeted"); }
template<class OP,class T,std::size_t D> void comp(){ B<T,D> q; auto a=v_arr<T,D>(); for(std::size_t k=0;k<D;k++) v_requires(OP::pre(q.at(k),a[k])); auto f=Arr<T,4>{}; Opd<OWN,T,D> y(a,f); dsga::basic_view<true,T,D> w(q.b.e+q.o); OP::impc(w,y.get()); q.post([&](std::size_t k){return static_cast<T>(OP::spec(q.at(k),a[k]));},LW,LF); }
template<class T,std::size_t D,class W> void swz(){ B<T,D> q; auto a=v_arr<T,W::n>(); Arr<T,4> f{}; Opd<OWN,T,W::n> y(a,f); dsga::basic_view<true,T,D> w(q.b.e+q.o); W::get(w)=y.get(); q.post([&](std::size_t k){ T e=q.at(k); for(std::size_t j=0;j<W::n;j++) if(W::p[j]==k) e=a[j]; return e; },LW,LF); }
template<class T,std::size_t D> void reset(){ B<T,D> q; int p=v_in<int>(); v_requires(v_and(p>=0,p<=(int)PAD)); auto a=v_arr<T,D>(); dsga::basic_view<true,T,D> w(q.b.e+p); w.reset(q.b.e+q.o); bool ok=w.data()==q.b.e+q.o; for(std::size_t k=0;k<D;k++) ok=v_and(ok,v_same<T>(w[k],q.at(k))); v_ensures(ok,"after reset the view refers to the new memory");
  dsga::basic_view<false,T,D> c; c.reset((const T*)(q.b.e+q.o)); v_ensures(c.data()==q.b.e+q.o,"reset of a read-only view"); dsga::basic_view<true,T,D> e; e.reset(q.b.e+q.o); v_for<D>([&](auto k){ e[k]=a[k]; }); q.post([&](std::size_t k){return a[k];},LW,LF); }
// two overlapping views: a write through one is seen through the other exactly where they share memory
template<class T,std::size_t D> void two(){ B<T,D> q; int p=v_in<int>(); v_requires(v_and(p>=0,p<=(int)PAD)); int i=v_in<int>(); T t=v_in<T>(); v_requires(v_and(i>=0,i<(int)D)); dsga::basic_view<true,T,D> w(q.b.e+q.o),u(q.b.e+p); w[i]=t; bool ok=true; for(std::size_t k=0;k<D;k++) ok=v_and(ok,v_same<T>(u[k],v_ite(q.o+i==p+(int)k,t,q.s[(std::size_t)p+k]))); v_ensures(ok,"a write through one view is seen through every overlapping view"); }
// views over the data of a vector and of a matrix
template<class T,std::size_t D> void overvec(){ auto s=v_arr<T,4>(); auto a=v_arr<T,D>(); int o=v_in<int>(); v_requires(v_and(o>=0,o<=4-(int)D)); VV<T,4> v; v_for<4>([&](auto i){ v[i]=s[i]; }); dsga::basic_view<true,T,D> w(v.data()+o); v_for<D>([&](auto k){ w[k]=a[k]; }); bool ok=true; for(int i=0;i<4;i++){ T e=s[(std::size_t)i]; for(std::size_t k=0;k<D;k++) e=v_ite(o+(int)k==i,a[k],e); ok=v_and(ok,v_same<T>(v[i],e)); } v_ensures(ok,"a view over a vector's data writes exactly those components of the vector"); }
template<class T,std::size_t C,std::size_t R> void overmat(){ auto s=v_arr<T,C*R>(); auto a=v_arr<T,R>(); dsga::basic_matrix<T,C,R> m; v_for<C*R>([&](auto i){ m[i/R][i%R]=s[i]; }); int c=v_in<int>(); v_requires(v_and(c>=0,c<(int)C)); dsga::basic_view<true,T,R> w(m[c].data()); v_for<R>([&](auto k){ w[k]=a[k]; }); bool ok=true; for(std::size_t i=0;i<C;i++) for(std::size_t r=0;r<R;r++) ok=v_and(ok,v_same<T>(m[i][r],v_ite((int)i==c,a[r],s[i*R+r]))); v_ensures(ok,"a view over a matrix column writes exactly that column"); }
// owning views
template<class T,std::size_t D> using OV=dsga::view_vector<T,D>;
template<class T,std::size_t D> OV<T,D> mko(const Arr<T,D>&a){ OV<T,D> r; v_for<D>([&](auto i){ r.store[i]=a[i]; }); return r; }
template<class T,std::size_t D> bool is(const OV<T,D>&v,const Arr<T,D>&a){ bool ok=true; for(std::size_t i=0;i<D;i++) ok=v_and(ok,v_and(v_same<T>(v[i],a[i]),v_same<T>(v.store[i],a[i]))); return v_and(ok,v.data()==v.store); }
template<class T,std::size_t D> void ocopy(){ auto a=v_arr<T,D>(),b=v_arr<T,D>(); int i=v_in<int>(); T t=v_in<T>(); v_requires(v_and(i>=0,i<(int)D)); auto x=mko(a); auto upd=[&](Arr<T,D> z){ for(std::size_t k=0;k<D;k++) z[k]=v_ite((int)k==i,t,z[k]); return z; };
  v_ensures(is(x,a),"an owning view refers to its own storage"); OV<T,D> d{}; bool z=true; for(std::size_t k=0;k<D;k++) z=v_and(z,v_same<T>(d[k],T(0))); v_ensures(v_and(z,d.data()==d.store),"a default owning view is zero and refers to its own storage");
  { OV<T,D> c(x); v_ensures(v_and(is(c,a),is(x,a)),"copy construction copies the values"); c[i]=t; v_ensures(v_and(is(c,upd(a)),is(x,a)),"writing to a copy leaves the original alone"); }
  { OV<T,D> c(x); x[i]=t; v_ensures(v_and(is(c,a),is(x,upd(a))),"writing to the original leaves a copy alone"); x=mko(a); }
  { auto y=mko(a); OV<T,D> c(std::move(y)); y[i]=t; v_ensures(is(c,a),"move construction does not share storage"); }
  { auto y=mko(b); auto&r=(y=x); v_ensures(v_and(&r==&y,v_and(is(y,a),is(x,a))),"copy assignment copies the values"); x[i]=t; v_ensures(v_and(is(y,a),is(x,upd(a))),"copy assignment does not share storage"); x=mko(a); v_ensures(is(x,a),"assignment from a temporary"); }
  { auto y=mko(b); auto u=mko(a); auto&r=(y=std::move(u)); u[i]=t; v_ensures(v_and(&r==&y,is(y,a)),"move assignment does not share storage"); }
  { auto y=mko(a); y=y; v_ensures(is(y,a),"self assignment"); y=std::move(y); v_ensures(is(y,a),"self move"); }
  { auto y=mko(a); auto u=mko(b); std::swap(y,u); v_ensures(v_and(is(y,b),is(u,a)),"exchanging through a temporary"); } 
  { OV<T,D> q[2]={mko(a),mko(b)}; q[0]=q[1]; q[1][i]=t; v_ensures(v_and(is(q[0],b),is(q[1],upd(b))),"elements of an array are independent"); }
  { auto y=mko(a); dsga::basic_view<true,T,D> w(y); w[i]=t; v_ensures(is(y,upd(a)),"a view sliced from an owning view refers to its storage"); } }
template<int K,class T,class U,std::size_t D> void oasg(){ auto a=v_arr<U,D>(); auto f=v_arr<U,4>(); auto b=v_arr<T,D>(); int i=v_in<int>(); T t=v_in<T>(); v_requires(v_and(i>=0,i<(int)D)); Opd<K,U,D> y(a,f); Snap sy(y); Arr<T,D> w; for(std::size_t k=0;k<D;k++) w[k]=static_cast<T>(a[k]);
  auto x=mko(b); { auto&r=(x=std::as_const(y.get())); v_ensures(v_and(&r==&x,is(x,w)),"assignment to an owning view stores the converted components"); } v_ensures(sy.same(y),"source unmodified"); auto z=mko(b); z=std::move(y.get()); v_ensures(is(z,w),"assignment from an expiring vector"); OV<T,D> c(std::as_const(y.get())); v_ensures(is(c,w),"construction copies the values"); x[i]=t; c[i]=t; z[i]=t; v_ensures(sy.same(y),"storage is not shared with the source"); }
// source: any selection of the destination's components, a named swizzle of it, or a view over it
template<class T,std::size_t D> void oasym(){ auto s=v_arr<T,D>(); auto ix=v_arr<int,D>(); for(std::size_t k=0;k<D;k++) v_requires(v_and(ix[k]>=0,ix[k]<(int)D)); auto x=mko(s); Sym<T,D> y(x.store,ix); x.as_derived().as_base(); [&]<std::size_t...I>(std::index_sequence<I...>){ OV<T,D> c(y); bool ok=true; for(std::size_t k=0;k<D;k++) ok=v_and(ok,v_same<T>(c[k],s[(std::size_t)ix[k]])); v_ensures(v_and(ok,is(x,s)),"construction from a selection"); }(std::make_index_sequence<D>{}); static_cast<dsga::basic_view<true,T,D>&>(x)=y; Arr<T,D> w; for(std::size_t k=0;k<D;k++) w[k]=s[(std::size_t)ix[k]]; v_ensures(is(x,w),"assignment through the view base from own components"); }
template<class T,std::size_t D,class R> void onam_lt(){ auto s=v_arr<T,D>(); Arr<T,D> w; for(std::size_t k=0;k<D;k++) w[k]=s[R::p[k]]; { auto x=mko(s); x=R::get(x); v_ensures(is(x,w),"owning view = swizzle of itself"); } { auto x=mko(s); x=std::move(R::get(x)); v_ensures(is(x,w),"owning view = expiring swizzle of itself"); } { auto x=mko(s); dsga::basic_view<true,T,D> p(x.store); x=R::get(p); v_ensures(is(x,w),"owning view = swizzle of a view over it"); } }
template<class T,std::size_t D> void oview(){ auto s=v_arr<T,D>(); { auto x=mko(s); dsga::basic_view<true,T,D> p(x.store); x=p; v_ensures(is(x,s),"owning view = view over itself"); } { auto x=mko(s); OV<T,D> c(static_cast<dsga::basic_view<true,T,D>&>(x)); c[0]=T(1); v_ensures(is(x,s),"owning view constructed from a view owns its storage"); } }
// scalar constructor and CTAD
#define D4(M,...) M(__VA_ARGS__,1) M(__VA_ARGS__,2) M(__VA_ARGS__,3) M(__VA_ARGS__,4)
#define NM(s,T,D) s " " #T " " #D
#define RDV(T,D) E(NM("read view",T,D),rd<T,D,true>) E(NM("read const view",T,D),rd<T,D,false>) E(NM("set",T,D),setr<T,D>) E(NM("write one",T,D),idx<T,D>) E(NM("two views",T,D),two<T,D>) E(NM("reset",T,D),reset<T,D>) E(NM("over vector",T,D),overvec<T,D>) E(NM("assign from own buffer",T,D),asym<T,D>) E(NM("assign from overlapping view",T,D),aview<T,D>)
#define AS(T,U,D) E(NM("assign from vec " #U,T,D),asg<OWN,T,U,D>) E(NM("assign from swz " #U,T,D),asg<SWZ,T,U,D>) E(NM("assign from view swz " #U,T,D),asg<VSWZ,T,U,D>) E(NM("assign from const view " #U,T,D),asg<CVIEW,T,U,D>) E(NM("assign from owning view swz " #U,T,D),asg<OVSWZ,T,U,D>)
#define CP(OP,T,D) E(NM("compound " #OP,T,D),comp<OP,T,D>)
#define SW(T,D,W) E("swizzle write " #W " " #T " " #D,swz<T,D,W>)
#define OC(T,D) E(NM("owning view value semantics",T,D),ocopy<T,D>) E(NM("owning view from selection",T,D),oasym<T,D>) E(NM("owning view over itself",T,D),oview<T,D>)
#define OA(T,U,D) E(NM("owning view from vec " #U,T,D),oasg<OWN,T,U,D>) E(NM("owning view from swz " #U,T,D),oasg<SWZ,T,U,D>) E(NM("owning view from view " #U,T,D),oasg<VIEW,T,U,D>) E(NM("owning view from view swz " #U,T,D),oasg<VSWZ,T,U,D>) E(NM("owning view from owning swz " #U,T,D),oasg<OVSWZ,T,U,D>)
#define ON(T,D,W) E("owning view = own " #W " " #T " " #D,onam_lt<T,D,W>)
#ifndef PART
#define PART 0
#endif
extern "C" const v_entry v_table[] = {
#if PART==0
 D4(RDV,float) D4(RDV,int) E("over matrix 2x3",overmat<float,2,3>) E("over matrix 4x4",overmat<float,4,4>) E("over matrix 3x2 double",overmat<double,3,2>) E("scalar float",asg1<float,float>) E("scalar float int",asg1<float,int>) E("scalar double float",asg1<double,float>)
#elif PART==1
 D4(RDV,double) D4(AS,float,float) D4(AS,double,float) D4(AS,int,int)
#elif PART==2
 D4(CP,add,float) D4(CP,sub,float) D4(CP,mul,float) D4(CP,add,int) D4(CP,bxor,int) D4(CP,divi,float) W1_1(SW,float,1) W2_1(SW,float,2) W2_2(SW,float,2) W3_1(SW,float,3) W3_2(SW,float,3) W3_3(SW,float,3) W4_1(SW,float,4) W4_2(SW,float,4) D4(RDV,unsigned)
#elif PART==3
 W4_3(SW,float,4) W4_4(SW,float,4) W3_3(SW,int,3) W3_3(SW,double,3)
#elif PART==4
 D4(OC,float) D4(OC,int) D4(OC,double) D4(OA,float,float) D4(OA,double,float) D4(OA,double,int) D4(OA,int,int) R2_2(ON,float,2) R3_3(ON,float,3)
#elif PART==5
 R4_4(ON,float,4)
#elif PART==6
 R2_2(ON,int,2) R3_3(ON,int,3) R3_3(ON,double,3) W4_4(ON,int,4)
#endif
 V_END };
