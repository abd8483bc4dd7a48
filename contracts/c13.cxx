// C13: abs, sign, min, max, clamp, step, modf
#include "lift.h"
#include "expsplit.h"
Q(sign) Q(min) Q(max) Q(step)
struct q_abs { template<class X> static auto f(const X&x){ return dsga::abs(x); } template<class T> static bool pre(T x){ if constexpr(std::is_integral_v<T>) return x!=std::numeric_limits<T>::min(); else return true; } };
struct q_clamp { template<class...X> static auto f(const X&...x){ return dsga::clamp(x...); } template<class T> static bool pre(T,T lo,T hi){ return lo<=hi; } };
// scalar contracts
template<class T> void s_abs(){ T x=v_in<T>(); v_requires(l_pre<q_abs>(x)); T r=dsga::abs(x); if constexpr(std::is_floating_point_v<T>){ v_ensures(v_same<T>(r,std::fabs(x)),"abs clears the sign"); v_ensures(v_imp(!v_isnan(x),v_and(r>=T(0),v_or(r==x,r==-x))),"x or -x, never negative"); } else v_ensures(v_and(r>=T(0),v_or(r==x,r==-x)),"x or -x, never negative"); }
template<class T> void s_sign(){ T x=v_in<T>(); T r=dsga::sign(x); v_ensures(v_iff(r==T(1),x>T(0)),"1 exactly for positive"); v_ensures(v_iff(r==T(-1),x<T(0)),"-1 exactly for negative"); v_ensures(v_or(r==T(0),v_or(r==T(1),r==T(-1))),"otherwise 0"); }
template<class T> void s_min(){ T x=v_in<T>(),y=v_in<T>(); T r=dsga::min(x,y); v_ensures(v_or(v_same<T>(r,x),v_same<T>(r,y)),"one of the operands"); v_ensures(v_imp(!v_or(v_isnan(x),v_isnan(y)),v_and(r<=x,r<=y)),"not greater than either"); }
template<class T> void s_max(){ T x=v_in<T>(),y=v_in<T>(); T r=dsga::max(x,y); v_ensures(v_or(v_same<T>(r,x),v_same<T>(r,y)),"one of the operands"); v_ensures(v_imp(!v_or(v_isnan(x),v_isnan(y)),v_and(r>=x,r>=y)),"not smaller than either"); }
template<class T> void s_clamp(){ T x=v_in<T>(),lo=v_in<T>(),hi=v_in<T>(); v_requires(lo<=hi); T r=dsga::clamp(x,lo,hi); T e=dsga::min(dsga::max(x,lo),hi); if constexpr(std::is_floating_point_v<T>) v_ensures(v_imp(!v_isnan(x),r==e),"min(max(x,lo),hi)"); else v_ensures(r==e,"min(max(x,lo),hi)"); v_ensures(v_imp(!v_isnan(x),v_and(lo<=r,r<=hi)),"inside the limits"); v_ensures(v_imp(v_and(lo<=x,x<=hi),r==x),"values inside the limits unchanged"); }
template<class T> void s_step(){ T e=v_in<T>(),x=v_in<T>(); T r=dsga::step(e,x); v_ensures(v_same<T>(r,v_ite(x<e,T(0),T(1))),"0 when x < edge, 1 otherwise"); }
template<class T> void s_modf(){ T x=v_in<T>(),i=v_in<T>(); T f=dsga::modf(x,i); v_ensures(v_same<T>(i,v_rti(4,x)),"whole part"); v_ensures(v_same<T>(f,x-v_rti(4,x)),"fractional part"); }
template<class T,int K=0> void r_modf(){ T x=xin<T,K>(),i; T ax=std::fabs(x); v_requires(ax<=std::numeric_limits<T>::max()); T f=dsga::modf(x,i); v_ensures(i+f==x,"the parts reassemble the value"); v_ensures(v_and(v_imp(x>=T(0),v_and(f>=T(0),f<T(1))),v_imp(x<=T(0),v_and(f<=T(0),f>T(-1)))),"fraction below one with the sign of x"); }
// vector modf writes its second argument, whatever its kind, and nothing else
template<int K1,int K2,class T,std::size_t N> void v_modf(){ auto a=v_arr<T,N>(); auto b=v_arr<T,N>(); auto f=v_arr<T,4>(); Opd<K1,T,N> x(a,f); Opd<K2,T,N> y(b,f); Snap sx(x); auto&& w=y.get(); auto r=dsga::modf(x.get(),w); bool ok=true,wk=true; for(std::size_t i=0;i<N;i++){ T q; T g=dsga::modf(a[i],q); ok=v_and(ok,v_same<T>(v_comp(r,i),g)); wk=v_and(wk,v_same<T>(w[i],q)); } v_ensures(ok,"component i is the fraction of component i"); v_ensures(wk,"the second argument receives the whole parts"); v_ensures(sx.same(x),"first argument unmodified"); }
template<int K,class T,std::size_t N> void v_modf_self(){ auto a=v_arr<T,N>(); auto f=v_arr<T,4>(); Opd<K,T,N> x(a,f); auto&& w=x.get(); auto r=dsga::modf(w,w); bool ok=true,wk=true; for(std::size_t i=0;i<N;i++){ T q; T g=dsga::modf(a[i],q); ok=v_and(ok,v_same<T>(v_comp(r,i),g)); wk=v_and(wk,v_same<T>(w[i],q)); } v_ensures(ok,"component i is the fraction of component i"); v_ensures(wk,"the argument receives the whole parts"); }
template<class T> void modf_overlap(){ VV<T,4> v; T a=v_in<T>(),b=v_in<T>(),c=v_in<T>(),d=v_in<T>(); v[0]=a; v[1]=b; v[2]=c; v[3]=d; auto r=dsga::modf(v.xyz,v.wzy); v_ensures(v_and(v_same<T>(r[0],a-v_rti(4,a)),v_and(v_same<T>(r[1],b-v_rti(4,b)),v_same<T>(r[2],c-v_rti(4,c)))),"fractions of the previous values"); v_ensures(v_and(v_and(v_same<T>(v[0],a),v_same<T>(v[3],v_rti(4,a))),v_and(v_same<T>(v[2],v_rti(4,b)),v_same<T>(v[1],v_rti(4,c)))),"whole parts of the previous values"); }
#define SF(F,T) E("scalar " #F " " #T,s_##F<T>)
#define SS(F) SF(F,int) SF(F,long long) SF(F,float) SF(F,double)
#define SA(F) SS(F) SF(F,unsigned) SF(F,unsigned long long)
#define MO(A,B,T) E("modf " #A " " #B " " #T " 1",v_modf<A,B,T,1>) E("modf " #A " " #B " " #T " 2",v_modf<A,B,T,2>) E("modf " #A " " #B " " #T " 3",v_modf<A,B,T,3>) E("modf " #A " " #B " " #T " 4",v_modf<A,B,T,4>)
#define MS(A,T) E("modf self " #A " " #T " 1",v_modf_self<A,T,1>) E("modf self " #A " " #T " 2",v_modf_self<A,T,2>) E("modf self " #A " " #T " 3",v_modf_self<A,T,3>) E("modf self " #A " " #T " 4",v_modf_self<A,T,4>)
#define MOT(T) MO(OWN,OWN,T) MO(SWZ,VIEW,T) MO(VIEW,SWZ,T) MO(CVIEW,VSWZ,T) MO(OVSWZ,OVIEW,T) MO(OWN,OVSWZ,T) MS(OWN,T) MS(SWZ,T) MS(VIEW,T) MS(VSWZ,T) MS(OVIEW,T) E("modf overlap " #T,modf_overlap<T>)
#define EACH(M,F) M(F,int) M(F,long long) M(F,float) M(F,double)
#define EACHU(M,F) EACH(M,F) M(F,unsigned) M(F,unsigned long long)
#define EACHX(fn,F) LX(fn,F,int) LX(fn,F,long long) LX(fn,F,float) LX(fn,F,double) LX(fn,F,unsigned) LX(fn,F,unsigned long long)
#ifndef PART
#define PART 0
#endif
#define XMF(k) E("modf reassembles double, exponent class " #k,r_modf<double,k>)
extern "C" const v_entry v_table[] = {
#if PART==0
 SS(abs) SS(sign) SA(min) SA(max) SA(clamp) SF(step,float) SF(step,double) SF(modf,float) SF(modf,double) E("modf reassembles float",r_modf<float>) XALL(XMF)
#elif PART==1
 EACH(L1,abs) EACH(L1,sign)
#elif PART==2
 EACHU(L2,min) EACHX(lift2vs,min)
#elif PART==3
 EACHU(L2,max) EACHX(lift2vs,max)
#elif PART==4
 EACHU(L3,clamp)
#elif PART==5
 EACHX(lift3vss,clamp)
#elif PART==6
 L2(step,float) L2(step,double) LX(lift2sv,step,float) LX(lift2sv,step,double) MOT(float) MOT(double)
#endif
 V_END };
