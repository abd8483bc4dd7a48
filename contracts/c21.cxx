// C21: matrix operators act element by element; scalars broadcast; operand order kept; operands unmodified
#include "mat.h"
#include "vops.h"
template<class OP,class A,class U,std::size_t C1,std::size_t R1> void ms(){ using C=CT<A,U>; Mat<A,C1,R1> a; U u=v_in<U>(); auto p=OP::impl(a.m,u); static_assert(std::is_same_v<decltype(p),MM<C,C1,R1>>); meq(p,[&](std::size_t c,std::size_t r){ return OP::spec(a.at(c,r),u); },"matrix op scalar"); auto q=OP::impl(u,a.m); static_assert(std::is_same_v<decltype(q),MM<C,C1,R1>>); meq(q,[&](std::size_t c,std::size_t r){ return OP::spec(u,a.at(c,r)); },"scalar op matrix"); v_ensures(a.same(),"operand unmodified");
  if constexpr(std::is_same_v<C,A>){ auto m=a.m; m=OP::impl(m,u); meq(m,[&](std::size_t c,std::size_t r){ return OP::spec(a.at(c,r),u); },"assigned to its own operand"); auto n=a.m; n=OP::impl(u,n); meq(n,[&](std::size_t c,std::size_t r){ return OP::spec(u,a.at(c,r)); },"assigned to its own operand"); } if constexpr(std::is_same_v<U,A>){ auto n=a.m; n=OP::impl(n,n[C1-1][0]); meq(n,[&](std::size_t c,std::size_t r){ return OP::spec(a.at(c,r),a.at(C1-1,0)); },"scalar is an element of the matrix"); } }
template<class OP,class A,class B,std::size_t C1,std::size_t R1> void mm(){ using C=CT<A,B>; Mat<A,C1,R1> a; Mat<B,C1,R1> b; auto p=OP::impl(a.m,b.m); static_assert(std::is_same_v<decltype(p),MM<C,C1,R1>>); meq(p,[&](std::size_t c,std::size_t r){ return OP::spec(a.at(c,r),b.at(c,r)); },"matrix op matrix"); v_ensures(v_and(a.same(),b.same()),"operands unmodified"); auto s=OP::impl(a.m,a.m); meq(s,[&](std::size_t c,std::size_t r){ return OP::spec(a.at(c,r),a.at(c,r)); },"both operands the same object"); if constexpr(std::is_same_v<C,B>){ auto n=b.m; n=OP::impl(a.m,n); meq(n,[&](std::size_t c,std::size_t r){ return OP::spec(a.at(c,r),b.at(c,r)); },"assigned to the right operand"); } }
template<class A,std::size_t C1,std::size_t R1> void un(){ Mat<A,C1,R1> a; auto id=[&](std::size_t c,std::size_t r){ return a.at(c,r); }; auto inc=[&](std::size_t c,std::size_t r){ return a.at(c,r)+A(1); }; auto dec=[&](std::size_t c,std::size_t r){ return a.at(c,r)-A(1); }; auto p=+a.m; static_assert(std::is_same_v<decltype(p),MM<A,C1,R1>>); meq(p,id,"unary plus"); auto n=-a.m; static_assert(std::is_same_v<decltype(n),MM<A,C1,R1>>); meq(n,[&](std::size_t c,std::size_t r){ return -a.at(c,r); },"unary minus"); v_ensures(a.same(),"operand unmodified");
  auto x=a.m; auto&rx=++x; static_assert(std::is_same_v<decltype(rx),MM<A,C1,R1>&>); meq(x,inc,"pre-increment"); v_ensures(&rx==&x,"returns the operand"); auto y=a.m; auto&ry=--y; meq(y,dec,"pre-decrement"); v_ensures(&ry==&y,"returns the operand"); auto z=a.m; auto oz=z++; static_assert(std::is_same_v<decltype(oz),MM<A,C1,R1>>); meq(z,inc,"post-increment"); meq(oz,id,"post-increment returns the previous value"); auto w=a.m; auto ow=w--; meq(w,dec,"post-decrement"); meq(ow,id,"post-decrement returns the previous value"); }
template<class A,class B,std::size_t C1,std::size_t R1> void eq(){ Mat<A,C1,R1> a; Mat<B,C1,R1> b; using C=CT<A,B>; bool e=true; for(std::size_t i=0;i<C1*R1;i++) e=v_and(e,C(a.l[i])==C(b.l[i])); v_ensures(v_iff(a.m==b.m,e),"equal when all elements are equal"); v_ensures(v_iff(a.m!=b.m,!e),"not equal otherwise"); v_ensures(v_and(a.same(),b.same()),"operands unmodified"); }
#define MS(c,r,A,U) E("add s " #A " " #U " " #c "x" #r,ms<add,A,U,c,r>) E("sub s " #A " " #U " " #c "x" #r,ms<sub,A,U,c,r>) E("mul s " #A " " #U " " #c "x" #r,ms<mul,A,U,c,r>) E("div s " #A " " #U " " #c "x" #r,ms<divi,A,U,c,r>)
#define M2(c,r,A,B) E("add m " #A " " #B " " #c "x" #r,mm<add,A,B,c,r>) E("sub m " #A " " #B " " #c "x" #r,mm<sub,A,B,c,r>) E("div m " #A " " #B " " #c "x" #r,mm<divi,A,B,c,r>)
#define UN(c,r,A) E("unary " #A " " #c "x" #r,un<A,c,r>)
#define EQ(c,r,A,B) E("equality " #A " " #B " " #c "x" #r,eq<A,B,c,r>)
#ifndef PART
#define PART 0
#endif
extern "C" const v_entry v_table[] = {
#if PART==0
 SH9(MS,float,float) SH9(MS,double,double)
#elif PART==1
 SH9(MS,float,double) SH9(MS,double,float) SH9(MS,float,int)
#elif PART==2
 SH9(MS,double,int) SH9(MS,float,uns) SH9(MS,double,ll) SH9(MS,float,ull)
#elif PART==3
 SH9(M2,float,float) SH9(M2,double,double) SH9(M2,float,double) SH9(M2,double,float)
#elif PART==4
 SH9(UN,float) SH9(UN,double) SH9(EQ,float,float) SH9(EQ,double,double) SH9(EQ,double,float)
#endif
 V_END };
