// C18: geometric functions equal their defining formulas, in real arithmetic, for every vector kind and for scalar forms
#include "lift.h"
template<class A,class B,std::size_t N> CT<A,B> sdot(const Arr<A,N>&a,const Arr<B,N>&b){ CT<A,B> s=CT<A,B>(a[0])*CT<A,B>(b[0]); for(std::size_t i=1;i<N;i++) s=s+CT<A,B>(a[i])*CT<A,B>(b[i]); return s; }
#define TWO auto a=v_arr<A,N>(); auto b=v_arr<B,N>(); auto f=v_arr<A,4>(); auto g=v_arr<B,4>(); Opd<K1,A,N> x(a,f); Opd<K2,B,N> y(b,g); Snap sx(x); Snap sy(y); using C=CT<A,B>;
#define UNM2 v_ensures(v_and(sx.same(x),sy.same(y)),"arguments unmodified");
#define ONE auto a=v_arr<A,N>(); auto f=v_arr<A,4>(); Opd<K1,A,N> x(a,f); Snap sx(x);
template<class R,class C,std::size_t N> void vreq(const R&r,const Arr<C,N>&s,const char*l){ bool ok=true; for(std::size_t i=0;i<N;i++) ok=v_and(ok,v_req<C>(v_comp(r,i),s[i])); v_ensures(ok,l); }
template<int K1,int K2,class A,class B,std::size_t N> struct q_dot { static void go(){ v_mode_real(); TWO auto r=dsga::dot(x.get(),y.get()); static_assert(std::is_same_v<decltype(r),C>); v_ensures(v_req<C>(r,sdot(a,b)),"sum of the component products"); auto q=dsga::innerProduct(x.get(),y.get()); v_ensures(v_req<C>(q,sdot(a,b)),"innerProduct: sum of the component products"); UNM2 } };
template<int K1,int K2,class A,class B,std::size_t N> struct q_idot { static void go(){ v_no_arith_ub(); TWO auto r=dsga::innerProduct(x.get(),y.get()); static_assert(std::is_same_v<decltype(r),C>); v_ensures(r==sdot(a,b),"sum of the component products"); UNM2 } };
template<int K1,int K2,class A,class B,std::size_t N> struct q_cross { static void go(){ v_mode_real(); TWO auto r=dsga::cross(x.get(),y.get()); static_assert(std::is_same_v<decltype(r),VV<C,3>>); Arr<C,3> p,q; for(int i=0;i<3;i++){ p[i]=C(a[i]); q[i]=C(b[i]); }
  Arr<C,3> s{{p[1]*q[2]-p[2]*q[1],p[2]*q[0]-p[0]*q[2],p[0]*q[1]-p[1]*q[0]}}; vreq(r,s,"right-handed cross product"); Arr<C,3> z{{r[0],r[1],r[2]}}; v_ensures(v_and(v_req<C>(sdot(z,p),C(0)),v_req<C>(sdot(z,q),C(0))),"perpendicular to both arguments"); auto t=dsga::cross(y.get(),x.get()); Arr<C,3> n{{-r[0],-r[1],-r[2]}}; vreq(t,n,"anticommutative"); UNM2 } };
template<int K1,class A,std::size_t N> struct q_length { static void go(){ v_mode_real(); ONE auto r=dsga::length(x.get()); static_assert(std::is_same_v<decltype(r),A>); if constexpr(N==1){ if(a[0]>=A(0)) v_ensures(v_req<A>(r,a[0]),"absolute value"); else v_ensures(v_req<A>(r,-a[0]),"absolute value"); } else v_ensures(v_req<A>(r,v_sqrt(sdot(a,a))),"Euclidean norm"); v_ensures(sx.same(x),"argument unmodified"); } };
template<int K1,int K2,class A,class B,std::size_t N> struct q_distance { static void go(){ v_mode_real(); TWO auto r=dsga::distance(x.get(),y.get()); static_assert(std::is_same_v<decltype(r),C>); Arr<C,N> d; for(std::size_t i=0;i<N;i++) d[i]=C(a[i])-C(b[i]); if constexpr(N==1){ if(d[0]>=C(0)) v_ensures(v_req<C>(r,d[0]),"absolute difference"); else v_ensures(v_req<C>(r,-d[0]),"absolute difference"); } else v_ensures(v_req<C>(r,v_sqrt(sdot(d,d))),"Euclidean metric"); auto q=dsga::distance(y.get(),x.get()); v_ensures(v_req<C>(q,r),"symmetric"); UNM2 } };
template<class A,class B> void s_len(){ v_mode_real(); A a=v_in<A>(); B b=v_in<B>(); using C=CT<A,B>; C d=C(a)-C(b); auto r=dsga::distance(a,b); static_assert(std::is_same_v<decltype(r),C>); auto l=dsga::length(a); if(a>=A(0)) v_ensures(v_req<A>(l,a),"scalar length"); else v_ensures(v_req<A>(l,-a),"scalar length"); if(d>=C(0)) v_ensures(v_req<C>(r,d),"scalar distance"); else v_ensures(v_req<C>(r,-d),"scalar distance"); }
template<int K1,class A,std::size_t N> struct q_normalize { static void go(){ v_mode_real(); ONE A s=sdot(a,a); v_requires(s>A(0)); auto r=dsga::normalize(x.get()); static_assert(std::is_same_v<decltype(r),VV<A,N>>); A l=v_sqrt(s); Arr<A,N> e; for(std::size_t i=0;i<N;i++) e[i]=a[i]/l; vreq(r,e,"divided by its length"); A u=A(0); for(std::size_t i=0;i<N;i++) u=u+r[i]*r[i]; v_ensures(v_req<A>(u,A(1)),"unit length"); v_ensures(sx.same(x),"argument unmodified"); } };
template<int K1,class A,std::size_t N> struct q_normzero { static void go(){ Arr<A,N> a; auto f=v_arr<A,4>(); for(std::size_t i=0;i<N;i++) a[i]=v_ite(v_in<bool>(),A(-0.0),A(0.0)); Opd<K1,A,N> x(a,f); auto r=dsga::normalize(x.get()); bool ok=true; for(std::size_t i=0;i<N;i++) ok=v_and(ok,v_isnan(r[i])); v_ensures(ok,"the zero vector has no direction: NaN"); } };
template<int K1,int K2,int K3,class A,std::size_t N> struct q_face { static void go(){ v_mode_real(); auto a=v_arr<A,N>(),b=v_arr<A,N>(),c=v_arr<A,N>(); auto f=v_arr<A,4>(); Opd<K1,A,N> n(a,f); Opd<K2,A,N> i(b,f); Opd<K3,A,N> m(c,f); Snap sn(n); Snap si(i); Snap sm(m); auto r=dsga::faceforward(n.get(),i.get(),m.get()); static_assert(std::is_same_v<decltype(r),VV<A,N>>); A d=sdot(c,b); Arr<A,N> g; for(std::size_t k=0;k<N;k++) g[k]=-a[k]; if(d<A(0)) vreq(r,a,"n when dot(nref, i) < 0"); else vreq(r,g,"-n otherwise"); v_ensures(v_and(sn.same(n),v_and(si.same(i),sm.same(m))),"arguments unmodified"); } };
template<int K1,int K2,class A,std::size_t N> struct q_reflect { static void go(){ using B=A; v_mode_real(); TWO auto r=dsga::reflect(x.get(),y.get()); static_assert(std::is_same_v<decltype(r),VV<A,N>>); A d=sdot(b,a); Arr<A,N> e; for(std::size_t i=0;i<N;i++) e[i]=a[i]-C(2)*d*b[i]; vreq(r,e,"i - 2 dot(n,i) n"); UNM2 } };
template<int K1,int K2,class A,std::size_t N> struct q_refract { static void go(){ using B=A; v_mode_real(); A eta=v_in<A>(); TWO A d=sdot(b,a); A k=C(1)-eta*eta*(C(1)-d*d); auto r=dsga::refract(x.get(),y.get(),eta); static_assert(std::is_same_v<decltype(r),VV<A,N>>); Arr<A,N> e,z; A s=v_sqrt(k); for(std::size_t i=0;i<N;i++){ e[i]=eta*a[i]-(eta*d+s)*b[i]; z[i]=A(0); } if(k<A(0)) vreq(r,z,"zero at total internal reflection"); else vreq(r,e,"eta i - (eta dot(n,i) + sqrt(k)) n"); UNM2 } };
#define N4(q,txt,A,B,S,T) E(#q " " txt " 1",q<A,B,S,T,1>::go) E(#q " " txt " 2",q<A,B,S,T,2>::go) E(#q " " txt " 3",q<A,B,S,T,3>::go) E(#q " " txt " 4",q<A,B,S,T,4>::go)
#define NC(q,txt,A,B,S,T) E(#q " " txt,q<A,B,S,T,3>::go)
#define PAIRS(M,q,S,T) M(q,"OWN OWN " #S " " #T,OWN,OWN,S,T) M(q,"SWZ VIEW " #S " " #T,SWZ,VIEW,S,T) M(q,"VIEW VIEW " #S " " #T,VIEW,VIEW,S,T) M(q,"CVIEW OWN " #S " " #T,CVIEW,OWN,S,T) M(q,"OWN VSWZ " #S " " #T,OWN,VSWZ,S,T) M(q,"VSWZ OVIEW " #S " " #T,VSWZ,OVIEW,S,T) M(q,"OVIEW OVSWZ " #S " " #T,OVIEW,OVSWZ,S,T) M(q,"OVSWZ CVIEW " #S " " #T,OVSWZ,CVIEW,S,T) M(q,"OVIEW OVIEW " #S " " #T,OVIEW,OVIEW,S,T) M(q,"SWZ SWZ " #S " " #T,SWZ,SWZ,S,T)
#define FT(M,q) PAIRS(M,q,float,float) PAIRS(M,q,double,double) PAIRS(M,q,float,double) PAIRS(M,q,double,float)
#define I1(q,txt,K,T) E(#q " " txt " 1",q<K,T,1>::go) E(#q " " txt " 2",q<K,T,2>::go) E(#q " " txt " 3",q<K,T,3>::go) E(#q " " txt " 4",q<K,T,4>::go)
#define I2(q,txt,K,T) E(#q " " txt " 2",q<K,T,2>::go) E(#q " " txt " 3",q<K,T,3>::go) E(#q " " txt " 4",q<K,T,4>::go)
#define KINDS(M,q,T) M(q,"OWN " #T,OWN,T) M(q,"SWZ " #T,SWZ,T) M(q,"VIEW " #T,VIEW,T) M(q,"CVIEW " #T,CVIEW,T) M(q,"VSWZ " #T,VSWZ,T) M(q,"OVIEW " #T,OVIEW,T) M(q,"OVSWZ " #T,OVSWZ,T)
#define J2(q,txt,A,B,T) E(#q " " txt " 2",q<A,B,T,2>::go) E(#q " " txt " 3",q<A,B,T,3>::go) E(#q " " txt " 4",q<A,B,T,4>::go)
#define JP(q,T) J2(q,"OWN OWN " #T,OWN,OWN,T) J2(q,"SWZ VIEW " #T,SWZ,VIEW,T) J2(q,"VIEW OVSWZ " #T,VIEW,OVSWZ,T) J2(q,"CVIEW SWZ " #T,CVIEW,SWZ,T) J2(q,"VSWZ OVIEW " #T,VSWZ,OVIEW,T) J2(q,"OVIEW OWN " #T,OVIEW,OWN,T) J2(q,"OVSWZ CVIEW " #T,OVSWZ,CVIEW,T) J2(q,"OVIEW OVIEW " #T,OVIEW,OVIEW,T)
#define F2(txt,A,B,C,T) E("q_face " txt " 2",q_face<A,B,C,T,2>::go) E("q_face " txt " 3",q_face<A,B,C,T,3>::go) E("q_face " txt " 4",q_face<A,B,C,T,4>::go)
#define FP(T) F2("OWN OWN OWN " #T,OWN,OWN,OWN,T) F2("SWZ VIEW OVIEW " #T,SWZ,VIEW,OVIEW,T) F2("VIEW OVSWZ CVIEW " #T,VIEW,OVSWZ,CVIEW,T) F2("OVSWZ CVIEW VSWZ " #T,OVSWZ,CVIEW,VSWZ,T) F2("OVIEW OWN SWZ " #T,OVIEW,OWN,SWZ,T) F2("VSWZ SWZ VIEW " #T,VSWZ,SWZ,VIEW,T) F2("CVIEW OVIEW OVSWZ " #T,CVIEW,OVIEW,OVSWZ,T)
#ifndef PART
#define PART 0
#endif
extern "C" const v_entry v_table[] = {
#if PART==0
 FT(N4,q_dot)
#elif PART==1
 PAIRS(N4,q_idot,int,int) PAIRS(N4,q_idot,unsigned,unsigned) PAIRS(N4,q_idot,ll,int) PAIRS(N4,q_idot,int,unsigned) PAIRS(N4,q_idot,ull,ull)
#elif PART==2
 FT(NC,q_cross) KINDS(I1,q_length,float) KINDS(I1,q_length,double) E("scalar float",s_len<float,float>) E("scalar double",s_len<double,double>) E("scalar mixed",s_len<float,double>) E("scalar mixed2",s_len<double,float>)
#elif PART==3
 FT(N4,q_distance)
#elif PART==4
 KINDS(I2,q_normalize,float) KINDS(I2,q_normalize,double) KINDS(I2,q_normzero,float) KINDS(I2,q_normzero,double) FP(float) FP(double)
#elif PART==5
 JP(q_reflect,float) JP(q_reflect,double) JP(q_refract,float) JP(q_refract,double)
#endif
 V_END };
