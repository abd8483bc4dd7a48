// C20: determinant, inverse, cross-product and diagonal matrices, in real arithmetic
#include "mat.h"
template<class A,std::size_t N> A minor_det(const Arr<A,N*N>&m,unsigned rows,std::size_t col){ A s=A(0); bool neg=false; if(col+1==N){ for(std::size_t r=0;r<N;r++) if(!(rows>>r&1)) return m[col*N+r]; } for(std::size_t r=0;r<N;r++){ if(rows>>r&1) continue; A t=m[col*N+r]*minor_det<A,N>(m,rows|(1u<<r),col+1); s=neg?s-t:s+t; neg=!neg; } return s; }
template<class A,std::size_t N> A det(const Arr<A,N*N>&m){ return minor_det<A,N>(m,0,0); }
template<class A,std::size_t N> void d(){ v_mode_real(); Mat<A,N,N> a; auto r=dsga::determinant(a.m); static_assert(std::is_same_v<decltype(r),A>); v_ensures(v_req<A>(r,det<A,N>(a.l)),"Leibniz expansion"); v_ensures(v_req<A>(dsga::determinant(dsga::transpose(a.m)),r),"transpose has the same determinant"); v_ensures(v_req<A>(dsga::determinant(MM<A,N,N>(A(1))),A(1)),"determinant of the identity"); v_ensures(a.same(),"operand unmodified"); }
template<class A,std::size_t N> void dprod(){ v_mode_real(); Mat<A,N,N> a,b; v_ensures(v_req<A>(dsga::determinant(a.m*b.m),dsga::determinant(a.m)*dsga::determinant(b.m)),"determinant is multiplicative"); }
template<class A,std::size_t N> void inv(){ v_mode_real(); Mat<A,N,N> a; A q=det<A,N>(a.l); v_requires(q!=A(0)); auto r=dsga::inverse(a.m); static_assert(std::is_same_v<decltype(r),MM<A,N,N>>); auto p=r*a.m,s=a.m*r; auto id=[](std::size_t c,std::size_t k){ return c==k?A(1):A(0); }; mreq(p,id,"inverse times matrix is the identity"); mreq(s,id,"matrix times inverse is the identity"); v_ensures(a.same(),"operand unmodified"); auto t=a.m; t=dsga::inverse(t); mreq(t,[&](std::size_t c,std::size_t k){ return el(r,c,k); },"assigned to its own argument"); }
template<int K,int L,class A> void crossm(){ v_mode_real(); auto a=v_arr<A,3>(),b=v_arr<A,3>(); auto f=v_arr<A,4>(); Opd<K,A,3> x(a,f); Opd<L,A,3> y(b,f); Snap sx(x); Snap sy(y); auto m=dsga::cross_matrix(x.get()); static_assert(std::is_same_v<decltype(m),MM<A,3,3>>); A c[3]={a[1]*b[2]-a[2]*b[1],a[2]*b[0]-a[0]*b[2],a[0]*b[1]-a[1]*b[0]}; vreq(m*y.get(),[&](std::size_t i){ return c[i]; },"cross_matrix(u) * v is cross(u, v)"); vreq(y.get()*m,[&](std::size_t i){ return -c[i]; },"v * cross_matrix(u) is cross(v, u)"); auto t=dsga::transpose(m); mreq(t,[&](std::size_t i,std::size_t j){ return -el(m,i,j); },"skew-symmetric"); v_ensures(v_and(sx.same(x),sy.same(y)),"arguments unmodified"); }
template<int K,class A,std::size_t N> void diag(){ v_mode_real(); auto a=v_arr<A,N>(),b=v_arr<A,N>(); auto f=v_arr<A,4>(); Opd<K,A,N> x(a,f); Opd<OWN,A,N> y(b,f); Snap sx(x); auto m=dsga::diagonal_matrix(x.get()); static_assert(std::is_same_v<decltype(m),MM<A,N,N>>); mreq(m,[&](std::size_t c,std::size_t r){ return c==r?a[c]:A(0); },"components on the diagonal, zero elsewhere"); vreq(m*y.v,[&](std::size_t i){ return a[i]*b[i]; },"scales componentwise"); vreq(y.v*m,[&](std::size_t i){ return a[i]*b[i]; },"scales componentwise from the left"); A p=a[0]; for(std::size_t i=1;i<N;i++) p=p*a[i]; v_ensures(v_req<A>(dsga::determinant(m),p),"determinant is the product"); v_ensures(sx.same(x),"argument unmodified"); }
#define D3(f,A) E(#f " " #A " 2",f<A,2>) E(#f " " #A " 3",f<A,3>) E(#f " " #A " 4",f<A,4>)
#define CR(K,L,A) E("cross_matrix " #K " " #L " " #A,crossm<K,L,A>)
#define DI(K,A) E("diagonal_matrix " #K " " #A " 2",diag<K,A,2>) E("diagonal_matrix " #K " " #A " 3",diag<K,A,3>) E("diagonal_matrix " #K " " #A " 4",diag<K,A,4>)
#define ALLK(A) DI(OWN,A) DI(SWZ,A) DI(VIEW,A) DI(CVIEW,A) DI(VSWZ,A) DI(OVIEW,A) DI(OVSWZ,A) CR(OWN,OWN,A) CR(SWZ,VIEW,A) CR(VIEW,OVSWZ,A) CR(CVIEW,SWZ,A) CR(VSWZ,OVIEW,A) CR(OVIEW,OWN,A) CR(OVSWZ,CVIEW,A)
extern "C" const v_entry v_table[] = { D3(d,float) D3(d,double) D3(dprod,float) D3(dprod,double) D3(inv,float) D3(inv,double) ALLK(float) ALLK(double) V_END };
