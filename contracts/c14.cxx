// C14: mix, smoothstep, mod
#include "lift.h"
Q(mod) Q(mix)
struct q_smoothstep { template<class...X> static auto f(const X&...x){ return dsga::smoothstep(x...); } template<class T> static bool pre(T a,T b,T){ return a<b; } };
struct q_mixb { template<class...X> static auto f(const X&...x){ return dsga::mix(x...); } };
template<class T> bool fin(T x){ return std::fabs(x)<=std::numeric_limits<T>::max(); }
template<class T> void r_mix(){ v_mode_real(); T x=v_in<T>(),y=v_in<T>(),a=v_in<T>(); T r=dsga::mix(x,y,a); v_ensures(v_req(r,x*(T(1)-a)+y*a),"the linear blend x*(1-a)+y*a"); }
template<class T> void e_mix(){ T x=v_in<T>(),y=v_in<T>(),a=v_in<T>(); v_requires(v_and(fin(x),fin(y))); v_requires(v_or(a==T(0),a==T(1))); T r=dsga::mix(x,y,a); v_ensures(v_imp(a==T(0),r==x),"exactly x at a=0"); v_ensures(v_imp(a==T(1),r==y),"exactly y at a=1"); }
template<class T> void s_mixb(){ T x=v_in<T>(),y=v_in<T>(); bool b=v_in<bool>(); T r=dsga::mix(x,y,b); if constexpr(std::is_same_v<T,bool>) v_ensures(r==v_ite(b,y,x),"selects y when true, x when false"); else v_ensures(v_same<T>(r,v_ite(b,y,x)),"selects y when true, x when false"); }
template<class T> void s_mod(){ T x=v_in<T>(),y=v_in<T>(); v_no_arith_ub(); T r=dsga::mod(x,y); v_ensures(v_same<T>(r,x-y*v_rti(3,x/y)),"x - y*floor(x/y)"); }
template<class T> void r_smooth(){ v_mode_real(); T a=v_in<T>(),b=v_in<T>(),x=v_in<T>(); v_requires(a<b); T r=dsga::smoothstep(a,b,x); T t=(x-a)/(b-a); if(x<=a) v_ensures(v_req(r,T(0)),"0 up to the first edge"); else if(x>=b) v_ensures(v_req(r,T(1)),"1 from the second edge on"); else v_ensures(v_req(r,t*t*(T(3)-T(2)*t)),"cubic Hermite between the edges"); }
template<class T> void e_smooth0(){ T a=v_in<T>(),b=v_in<T>(),x=v_in<T>(); v_requires(a<b); v_requires(v_and(fin(x-a),fin(b-a))); v_requires(x<=a); T r=dsga::smoothstep(a,b,x); v_ensures(r==T(0),"exactly 0 up to the first edge"); }
// boolean selector vectors: every component picks x or y without arithmetic, for every component type
template<int K1,int K2,int K3,class T,std::size_t N> void mixsel(){ auto a=v_arr<T,N>(); auto b=v_arr<T,N>(); auto c=v_arr<bool,N>(); auto f=v_arr<T,4>(); auto h=v_arr<bool,4>(); Opd<K1,T,N> x(a,f); Opd<K2,T,N> y(b,f); Opd<K3,bool,N> z(c,h); Snap sx(x); Snap sy(y); Snap sz(z); auto r=dsga::mix(x.get(),y.get(),z.get()); static_assert(l_rtype<decltype(r),T,N>); bool ok=true; for(std::size_t i=0;i<N;i++) ok=v_and(ok,v_same<T>(v_comp(r,i),v_ite(c[i],b[i],a[i]))); v_ensures(ok,"component i is y's where the selector is true, x's where it is false"); v_ensures(v_and(sx.same(x),v_and(sy.same(y),sz.same(z))),"arguments unmodified"); }
#define SF(F,T) E(#F " " #T,F<T>)
#define MS(A,B,C,T) E("select " #A " " #B " " #C " " #T " 1",mixsel<A,B,C,T,1>) E("select " #A " " #B " " #C " " #T " 2",mixsel<A,B,C,T,2>) E("select " #A " " #B " " #C " " #T " 3",mixsel<A,B,C,T,3>) E("select " #A " " #B " " #C " " #T " 4",mixsel<A,B,C,T,4>)
#define MST(T) MS(OWN,OWN,OWN,T) MS(SWZ,VIEW,OWN,T) MS(VIEW,OVSWZ,SWZ,T) MS(OVIEW,SWZ,VIEW,T) MS(VSWZ,OWN,OVSWZ,T)
#ifndef PART
#define PART 0
#endif
extern "C" const v_entry v_table[] = {
#if PART==0
 SF(r_mix,float) SF(r_mix,double) SF(s_mod,float) SF(s_mod,double) SF(r_smooth,float) SF(r_smooth,double) SF(e_smooth0,float) SF(e_mix,float) SF(e_mix,double) 
 SF(s_mixb,int) SF(s_mixb,long long) SF(s_mixb,unsigned) SF(s_mixb,unsigned long long) SF(s_mixb,float) SF(s_mixb,double) SF(s_mixb,bool)
#elif PART==1
 L3(mix,float) L3(mix,double) LY(lift3vvs,mix,float) LY(lift3vvs,mix,double)
#elif PART==2
 L2(mod,float) L2(mod,double) LX(lift2vs,mod,float) LX(lift2vs,mod,double)
#elif PART==3
 L3(smoothstep,float) L3(smoothstep,double) LX(lift3ssv,smoothstep,float) LX(lift3ssv,smoothstep,double)
#elif PART==4
 MST(int) MST(long long) MST(unsigned) MST(unsigned long long) MST(float) MST(double) MST(bool)
#endif
 V_END };
