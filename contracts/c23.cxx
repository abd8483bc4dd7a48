// C23: swap exchanges two values completely and nothing else, or throws without modifying anything
#include "mat.h"
template<class A,class B> void way(int w,A&a,B&b){ if(w==0) a.swap(b); else if(w==1) swap(a,b); else std::ranges::swap(a,b); }
#define WAYS int w=v_in<int>(); v_requires(v_and(w>=0,w<3));
template<class T,std::size_t N> void vec(){ WAYS auto a=v_arr<T,N>(),b=v_arr<T,N>(); VV<T,N> m[4]; auto c=v_arr<T,N>(),d=v_arr<T,N>(); v_for<N>([&](auto i){ m[0].base.store[i]=c[i]; m[1].base.store[i]=a[i]; m[2].base.store[i]=b[i]; m[3].base.store[i]=d[i]; }); way(w,m[1],m[2]); bool ok=true,fr=true; for(std::size_t i=0;i<N;i++){ ok=v_and(ok,v_and(v_same<T>(v_raw(m[1],i),b[i]),v_same<T>(v_raw(m[2],i),a[i]))); fr=v_and(fr,v_and(v_same<T>(v_raw(m[0],i),c[i]),v_same<T>(v_raw(m[3],i),d[i]))); } v_ensures(ok,"all components exchanged"); v_ensures(fr,"neighbouring objects unmodified"); way(w,m[1],m[1]); bool s=true; for(std::size_t i=0;i<N;i++) s=v_and(s,v_same<T>(v_raw(m[1],i),b[i])); v_ensures(s,"swap with itself changes nothing"); }
template<class T,std::size_t C,std::size_t R> void mat(){ WAYS Mat<T,C,R> a,b; MM<T,C,R> m[2]={a.m,b.m}; way(w,m[0],m[1]); meq(m[0],[&](std::size_t c,std::size_t r){ return b.at(c,r); },"all elements exchanged"); meq(m[1],[&](std::size_t c,std::size_t r){ return a.at(c,r); },"all elements exchanged"); way(w,m[1],m[1]); meq(m[1],[&](std::size_t c,std::size_t r){ return a.at(c,r); },"swap with itself changes nothing"); swap(m[0][0],m[0][C-1]); meq(m[0],[&](std::size_t c,std::size_t r){ return b.at(c==0?C-1:c==C-1?0:c,r); },"two columns of one matrix"); }
template<class T,std::size_t N> void own(){ WAYS auto a=v_arr<T,N>(),b=v_arr<T,N>(); Arr<T,4> f{}; Opd<OVIEW,T,N> x(a,f),y(b,f); auto*px=x.w.data(); auto*py=y.w.data(); way(w,x.w,y.w); bool ok=true; for(std::size_t i=0;i<N;i++) ok=v_and(ok,v_and(v_same<T>(x.w[i],b[i]),v_same<T>(y.w[i],a[i]))); v_ensures(ok,"all components exchanged"); v_ensures(v_and(x.w.data()==px,y.w.data()==py),"each owning view still refers to its own storage"); T t=v_in<T>(); y.w[0]=t; v_ensures(v_same<T>(x.w[0],b[0]),"still independent values"); way(w,x.w,x.w); bool s=true; for(std::size_t i=0;i<N;i++) s=v_and(s,v_same<T>(x.w[i],b[i])); v_ensures(s,"swap with itself changes nothing"); }
// two views at arbitrary positions of one buffer: identical, disjoint or partially overlapping
template<class T,std::size_t N> void view(){ constexpr std::size_t L=2*N+2; WAYS auto s=v_arr<T,L>(); int o=v_in<int>(),p=v_in<int>(); v_requires(v_and(v_and(o>=0,o<=(int)(L-N)),v_and(p>=0,p<=(int)(L-N)))); auto b=s; dsga::basic_view<true,T,N> x(b.e+o),y(b.e+p); bool thrown=false; try{ if(w==2) w=1; way(w,x,y); } catch(const std::range_error&){ thrown=true; } bool over=v_and(o!=p,v_and(o-p<(int)N,p-o<(int)N)); v_ensures(v_iff(thrown,over),"throws exactly when the views overlap partially"); bool ok=true; for(std::size_t q=0;q<L;q++){ T e=s[q]; for(std::size_t k=0;k<N;k++){ e=v_ite(v_and(!over,(std::size_t)o+k==q),s[(std::size_t)p+k],e); } for(std::size_t k=0;k<N;k++) e=v_ite(v_and(v_and(!over,o!=p),(std::size_t)p+k==q),s[(std::size_t)o+k],e); ok=v_and(ok,v_same<T>(b[q],e)); } v_ensures(ok,"components exchanged, nothing else modified; nothing at all when it throws"); v_ensures(v_and(x.data()==b.e+o,y.data()==b.e+p),"no view is re-targeted"); }
// views over different objects, and a view with an owning view
template<class T,std::size_t N> void two(){ WAYS auto a=v_arr<T,N>(),b=v_arr<T,N>(); auto f=v_arr<T,4>(),g=v_arr<T,4>(); Opd<VIEW,T,N> x(a,f),y(b,g); if(w==2) w=1; bool thrown=false; try{ way(w,x.w,y.w); } catch(...){ thrown=true; } v_ensures(!thrown,"no exception for views of different objects"); bool ok=true,fr=true; for(std::size_t i=0;i<N;i++) ok=v_and(ok,v_and(v_same<T>(x.b[i+1],b[i]),v_same<T>(y.b[i+1],a[i]))); fr=v_and(v_and(v_same<T>(x.b[0],f[0]),v_same<T>(x.b[N+1],f[1])),v_and(v_same<T>(y.b[0],g[0]),v_same<T>(y.b[N+1],g[1]))); v_ensures(ok,"all components exchanged"); v_ensures(fr,"surrounding memory unmodified"); auto c=v_arr<T,N>(); Arr<T,4> z{}; Opd<OVIEW,T,N> v(c,z); dsga::basic_view<true,T,N>&vb=v.w; way(w,x.w,vb); bool o2=true; for(std::size_t i=0;i<N;i++) o2=v_and(o2,v_and(v_same<T>(x.b[i+1],c[i]),v_same<T>(v.w[i],b[i]))); v_ensures(o2,"a view and an owning view exchange components"); auto*d=v.w.data(); v_ensures(v_and(x.w.data()==x.b+1,v.w.data()==d),"no view is re-targeted"); }
// the storage wrappers themselves
template<class T,std::size_t N> void wrap(){ auto a=v_arr<T,N>(),b=v_arr<T,N>(); dsga::storage_wrapper<true,T,N> x,y; v_for<N>([&](auto i){ x[i]=a[i]; y[i]=b[i]; }); bool w=v_in<bool>(); if(w) x.swap(y); else swap(x,y); bool ok=true; for(std::size_t i=0;i<N;i++) ok=v_and(ok,v_and(v_same<T>(x[i],b[i]),v_same<T>(y[i],a[i]))); v_ensures(ok,"all components exchanged"); }
#define V4(f,T) E(#f " " #T " 1",f<T,1>) E(#f " " #T " 2",f<T,2>) E(#f " " #T " 3",f<T,3>) E(#f " " #T " 4",f<T,4>)
#define M1(c,r,T) E("matrix " #T " " #c "x" #r,mat<T,c,r>)
#define TY(f) V4(f,bool) V4(f,int) V4(f,uns) V4(f,ll) V4(f,ull) V4(f,float) V4(f,double)
#ifndef PART
#define PART 0
#endif
static_assert(noexcept(swap(std::declval<VV<int,3>&>(),std::declval<VV<int,3>&>())));
extern "C" const v_entry v_table[] = {
#if PART==0
 TY(vec) TY(own) TY(two) V4(wrap,int) V4(wrap,float) V4(wrap,bool) V4(wrap,double) SH9(M1,float) SH9(M1,double)
#elif PART==1
 V4(view,int) V4(view,float) V4(view,double) V4(view,bool) V4(view,ull)
#endif
 V_END };
