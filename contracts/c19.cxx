// C19: matrix and vector products equal their textbook sums in real arithmetic, for every pair of compatible shapes; algebraic consequences
#include "mat.h"
template<class A,class B,std::size_t C1,std::size_t R1,std::size_t C2> void mm(){ v_mode_real(); using C=CT<A,B>; Mat<A,C1,R1> a; Mat<B,C2,C1> b; auto p=a.m*b.m; static_assert(std::is_same_v<decltype(p),MM<C,C2,R1>>); mreq(p,[&](std::size_t c,std::size_t r){ return sum<C1>([&](std::size_t k){ return C(a.at(k,r))*C(b.at(c,k)); }); },"sum of row times column"); v_ensures(v_and(a.same(),b.same()),"operands unmodified"); }
template<int K,class A,class B,std::size_t C1,std::size_t R1> void mv(){ v_mode_real(); using C=CT<A,B>; Mat<A,C1,R1> a; auto b=v_arr<B,C1>(); auto f=v_arr<B,4>(); Opd<K,B,C1> x(b,f); Snap s(x); auto p=a.m*x.get(); static_assert(std::is_same_v<decltype(p),VV<C,R1>>); vreq(p,[&](std::size_t r){ return sum<C1>([&](std::size_t k){ return C(a.at(k,r))*C(b[k]); }); },"sum of row times vector"); v_ensures(v_and(a.same(),s.same(x)),"operands unmodified"); }
template<int K,class A,class B,std::size_t C1,std::size_t R1> void vm(){ v_mode_real(); using C=CT<A,B>; Mat<A,C1,R1> a; auto b=v_arr<B,R1>(); auto f=v_arr<B,4>(); Opd<K,B,R1> x(b,f); Snap s(x); auto p=x.get()*a.m; static_assert(std::is_same_v<decltype(p),VV<C,C1>>); vreq(p,[&](std::size_t c){ return sum<R1>([&](std::size_t k){ return C(b[k])*C(a.at(c,k)); }); },"sum of vector times column"); v_ensures(v_and(a.same(),s.same(x)),"operands unmodified"); }
template<int K1,int K2,class A,class B,std::size_t N1,std::size_t N2> void outer(){ v_mode_real(); using C=CT<A,B>; auto a=v_arr<A,N1>(); auto b=v_arr<B,N2>(); auto f=v_arr<A,4>(); auto g=v_arr<B,4>(); Opd<K1,A,N1> x(a,f); Opd<K2,B,N2> y(b,g); Snap sx(x); Snap sy(y); auto p=dsga::outerProduct(x.get(),y.get()); static_assert(std::is_same_v<decltype(p),MM<C,N2,N1>>); mreq(p,[&](std::size_t c,std::size_t r){ return C(a[r])*C(b[c]); },"column vector times row vector"); v_ensures(v_and(sx.same(x),sy.same(y)),"operands unmodified"); }
template<class A,class B,std::size_t C1,std::size_t R1> void comp(){ using C=CT<A,B>; Mat<A,C1,R1> a; Mat<B,C1,R1> b; auto p=dsga::matrixCompMult(a.m,b.m); static_assert(std::is_same_v<decltype(p),MM<C,C1,R1>>); meq(p,[&](std::size_t c,std::size_t r){ return C(a.at(c,r))*C(b.at(c,r)); },"product of corresponding elements"); v_ensures(v_and(a.same(),b.same()),"operands unmodified"); }
template<class A,std::size_t C1,std::size_t R1> void transp(){ Mat<A,C1,R1> a; auto p=dsga::transpose(a.m); static_assert(std::is_same_v<decltype(p),MM<A,R1,C1>>); meq(p,[&](std::size_t c,std::size_t r){ return a.at(r,c); },"element (c,r) is element (r,c)"); auto q=dsga::transpose(p); meq(q,[&](std::size_t c,std::size_t r){ return a.at(c,r); },"transposing twice is the identity"); if constexpr(C1==R1){ auto s=a.m; s=dsga::transpose(s); meq(s,[&](std::size_t c,std::size_t r){ return a.at(r,c); },"assigned to its own argument"); } v_ensures(a.same(),"operand unmodified"); }
// algebra, over the real contracts above
template<class A,std::size_t I,std::size_t J,std::size_t K,std::size_t L> void assoc(){ v_mode_real(); Mat<A,J,I> a; Mat<A,K,J> b; Mat<A,L,K> c; auto p=(a.m*b.m)*c.m,q=a.m*(b.m*c.m); mreq(p,[&](std::size_t x,std::size_t y){ return el(q,x,y); },"products associate"); }
template<class A,std::size_t I,std::size_t J,std::size_t K> void trev(){ v_mode_real(); Mat<A,J,I> a; Mat<A,K,J> b; auto p=dsga::transpose(a.m*b.m); auto q=dsga::transpose(b.m)*dsga::transpose(a.m); mreq(p,[&](std::size_t x,std::size_t y){ return el(q,x,y); },"transpose reverses products"); auto v=v_arr<A,K>(); auto f=v_arr<A,4>(); Opd<OWN,A,K> x(v,f); auto s=(a.m*b.m)*x.v,t=a.m*(b.m*x.v); vreq(s,[&](std::size_t i){ return v_raw(t,i); },"matrix-vector associates"); auto w=v_arr<A,I>(); Opd<OWN,A,I> y(w,f); auto m=y.v*(a.m*b.m),n=(y.v*a.m)*b.m; vreq(m,[&](std::size_t i){ return v_raw(n,i); },"vector-matrix associates"); auto u=y.v*a.m,z=dsga::transpose(a.m)*y.v; vreq(u,[&](std::size_t i){ return v_raw(z,i); },"row vector times matrix is transpose times column vector"); }
template<class A,std::size_t C,std::size_t R> void ident(){ v_mode_real(); Mat<A,C,R> a; auto p=a.m*MM<A,C,C>(A(1)),q=MM<A,R,R>(A(1))*a.m; mreq(p,[&](std::size_t c,std::size_t r){ return a.at(c,r); },"identity on the right"); mreq(q,[&](std::size_t c,std::size_t r){ return a.at(c,r); },"identity on the left"); }
template<class A,std::size_t N> void alias(){ v_mode_real(); Mat<A,N,N> a,b; auto m=a.m; m=m*m; mreq(m,[&](std::size_t c,std::size_t r){ return sum<N>([&](std::size_t k){ return a.at(k,r)*a.at(c,k); }); },"product of an object with itself, assigned to it"); auto n=a.m; n=b.m*n; mreq(n,[&](std::size_t c,std::size_t r){ return sum<N>([&](std::size_t k){ return b.at(k,r)*a.at(c,k); }); },"assigned to the right operand"); auto o=a.m; o=o*b.m; mreq(o,[&](std::size_t c,std::size_t r){ return sum<N>([&](std::size_t k){ return a.at(k,r)*b.at(c,k); }); },"assigned to the left operand");
  auto t=a.m; t[0]=t*t[0]; vreq(t[0],[&](std::size_t r){ return sum<N>([&](std::size_t k){ return a.at(k,r)*a.at(0,k); }); },"a matrix times its own column, assigned to the column"); bool ok=true; for(std::size_t c=1;c<N;c++) for(std::size_t r=0;r<N;r++) ok=v_and(ok,v_same<A>(el(t,c,r),a.at(c,r))); v_ensures(ok,"other columns unmodified"); auto u=a.m; u[N-1]=u[N-1]*u; vreq(u[N-1],[&](std::size_t c){ return sum<N>([&](std::size_t k){ return a.at(N-1,k)*a.at(c,k); }); },"a column times its own matrix, assigned to the column");
  auto d=v_arr<A,N>(); auto f=v_arr<A,4>(); Opd<OWN,A,N> x(d,f); x.v=a.m*x.v; vreq(x.v,[&](std::size_t r){ return sum<N>([&](std::size_t k){ return a.at(k,r)*d[k]; }); },"vector assigned to itself"); Opd<OWN,A,N> w(d,f); auto op=dsga::outerProduct(w.v,w.v); mreq(op,[&](std::size_t c,std::size_t r){ return d[c]*d[r]; },"outer product of a vector with itself"); auto cm=dsga::matrixCompMult(a.m,a.m); mreq(cm,[&](std::size_t c,std::size_t r){ return a.at(c,r)*a.at(c,r); },"componentwise square"); }
#define MM1(c1,r1,A,B) E("mm " #A " " #B " 2x" #c1 " * " #c1 "x" #r1,mm<A,B,c1,r1,2>) E("mm " #A " " #B " 3x" #c1 " * " #c1 "x" #r1,mm<A,B,c1,r1,3>) E("mm " #A " " #B " 4x" #c1 " * " #c1 "x" #r1,mm<A,B,c1,r1,4>)
#define MV1(c1,r1,K,A,B) E("mv " #K " " #A " " #B " " #c1 "x" #r1,mv<K,A,B,c1,r1>) E("vm " #K " " #A " " #B " " #c1 "x" #r1,vm<K,A,B,c1,r1>)
#define OU1(c1,r1,K,L,A,B) E("outer " #K " " #L " " #A " " #B " " #c1 "x" #r1,outer<K,L,A,B,c1,r1>)
#define CO1(c1,r1,A,B) E("matrixCompMult " #A " " #B " " #c1 "x" #r1,comp<A,B,c1,r1>)
#define TR1(c1,r1,A) E("transpose " #A " " #c1 "x" #r1,transp<A,c1,r1>) E("identity " #A " " #c1 "x" #r1,ident<A,c1,r1>)
#define MVK(K,A,B) SH9(MV1,K,A,B)
#define AS1(c1,r1,A) E("assoc " #A " 2 3 " #c1 " " #r1,assoc<A,2,3,c1,r1>) E("assoc " #A " 4 2 " #c1 " " #r1,assoc<A,4,2,c1,r1>) E("assoc " #A " 3 4 " #c1 " " #r1,assoc<A,3,4,c1,r1>) E("assoc " #A " 4 4 " #c1 " " #r1,assoc<A,4,4,c1,r1>)
#define TV1(c1,r1,A) E("transpose product " #A " 2 " #c1 " " #r1,trev<A,2,c1,r1>) E("transpose product " #A " 3 " #c1 " " #r1,trev<A,3,c1,r1>) E("transpose product " #A " 4 " #c1 " " #r1,trev<A,4,c1,r1>)
#ifndef PART
#define PART 0
#endif
extern "C" const v_entry v_table[] = {
#if PART==0
 SH9(MM1,float,float) SH9(MM1,double,double) SH9(MM1,float,double) SH9(MM1,double,float)
#elif PART==1
 MVK(OWN,float,float) MVK(SWZ,float,float) MVK(VIEW,float,float) MVK(CVIEW,double,double) MVK(VSWZ,double,double) MVK(OVIEW,float,float) MVK(OVSWZ,double,double) MVK(OWN,double,float) MVK(OWN,float,double) MVK(OWN,double,double)
#elif PART==2
 SH9(OU1,OWN,OWN,float,float) SH9(OU1,SWZ,VIEW,double,double) SH9(OU1,VIEW,OVSWZ,float,double) SH9(OU1,OVIEW,SWZ,float,float) SH9(OU1,VSWZ,OVIEW,double,float) SH9(OU1,OVSWZ,CVIEW,double,double) SH9(OU1,CVIEW,VSWZ,float,float) SH9(OU1,OWN,OWN,int,float) SH9(OU1,OWN,OWN,double,uns)
 SH9(CO1,float,float) SH9(CO1,double,double) SH9(CO1,float,double) SH9(CO1,double,float) SH9(TR1,float) SH9(TR1,double)
#elif PART==3
 SH9(AS1,float) SH9(AS1,double)
#elif PART==4
 SH9(TV1,float) SH9(TV1,double) E("alias float 2",alias<float,2>) E("alias float 3",alias<float,3>) E("alias float 4",alias<float,4>) E("alias double 2",alias<double,2>) E("alias double 3",alias<double,3>) E("alias double 4",alias<double,4>)
#elif PART==5
 MVK(OWN,float,int) MVK(VIEW,double,ll) MVK(SWZ,float,uns) MVK(OWN,double,int) MVK(OVSWZ,float,ull)
#endif
 V_END };
