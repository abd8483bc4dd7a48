// C01: binary and unary operators act component by component
#include "vdsga.h"
#include "vops.h"
template<class OP,int K1,class A,int K2,class B,std::size_t N> void vv(){
  auto a=v_arr<A,N>(); auto b=v_arr<B,N>(); auto fa=v_arr<A,4>(); auto fb=v_arr<B,4>();
  for(std::size_t i=0;i<N;i++) v_requires(OP::pre(a[i],b[i]));
  Opd<K1,A,N> x(a,fa); Opd<K2,B,N> y(b,fb); Snap sx(x); Snap sy(y);
  auto r=OP::impl(std::as_const(x.get()),std::as_const(y.get()));
  using R=decltype(OP::spec(a[0],b[0])); static_assert(std::is_same_v<typename VLen<decltype(r)>::type,R>); static_assert(VLen<decltype(r)>::n==N);
  for(std::size_t i=0;i<N;i++) v_ensures(v_same<R>(v_comp(r,i),OP::spec(a[i],b[i])),"component of result is the scalar operation on the operands' components");
  v_ensures(v_and(sx.same(x),sy.same(y)),"operands unmodified"); }
template<class OP,int K1,class A,class B,std::size_t N> void vs(){
  auto a=v_arr<A,N>(); B b=v_in<B>(); auto fa=v_arr<A,4>();
  for(std::size_t i=0;i<N;i++) v_requires(OP::pre(a[i],b));
  Opd<K1,A,N> x(a,fa); Snap sx(x); auto r=OP::impl(std::as_const(x.get()),b);
  using R=decltype(OP::spec(a[0],b)); static_assert(std::is_same_v<typename VLen<decltype(r)>::type,R>); static_assert(VLen<decltype(r)>::n==N);
  for(std::size_t i=0;i<N;i++) v_ensures(v_same<R>(v_comp(r,i),OP::spec(a[i],b)),"vector op scalar broadcasts the scalar"); v_ensures(sx.same(x),"operand unmodified"); }
template<class OP,int K1,class A,class B,std::size_t N> void sv(){
  auto b=v_arr<B,N>(); A a=v_in<A>(); auto fb=v_arr<B,4>();
  for(std::size_t i=0;i<N;i++) v_requires(OP::pre(a,b[i]));
  Opd<K1,B,N> x(b,fb); Snap sx(x); auto r=OP::impl(a,std::as_const(x.get()));
  using R=decltype(OP::spec(a,b[0])); static_assert(std::is_same_v<typename VLen<decltype(r)>::type,R>); static_assert(VLen<decltype(r)>::n==N);
  for(std::size_t i=0;i<N;i++) v_ensures(v_same<R>(v_comp(r,i),OP::spec(a,b[i])),"scalar op vector broadcasts the scalar"); v_ensures(sx.same(x),"operand unmodified"); }
// vector with a one-component vector on either side
template<class OP,int K1,class A,int K2,class B,std::size_t N> void v1(){
  auto a=v_arr<A,N>(); auto b=v_arr<B,1>(); auto fa=v_arr<A,4>(); auto fb=v_arr<B,4>();
  for(std::size_t i=0;i<N;i++) v_requires(OP::pre(a[i],b[0]));
  Opd<K1,A,N> x(a,fa); Opd<K2,B,1> y(b,fb); Snap sx(x); Snap sy(y); auto r=OP::impl(std::as_const(x.get()),std::as_const(y.get()));
  using R=decltype(OP::spec(a[0],b[0])); static_assert(std::is_same_v<typename VLen<decltype(r)>::type,R>); static_assert(VLen<decltype(r)>::n==N);
  for(std::size_t i=0;i<N;i++) v_ensures(v_same<R>(v_comp(r,i),OP::spec(a[i],b[0])),"vector op one-component vector broadcasts"); v_ensures(v_and(sx.same(x),sy.same(y)),"operands unmodified"); }
template<class OP,int K1,class A,int K2,class B,std::size_t N> void ov(){
  auto a=v_arr<A,1>(); auto b=v_arr<B,N>(); auto fa=v_arr<A,4>(); auto fb=v_arr<B,4>();
  for(std::size_t i=0;i<N;i++) v_requires(OP::pre(a[0],b[i]));
  Opd<K1,A,1> x(a,fa); Opd<K2,B,N> y(b,fb); Snap sx(x); Snap sy(y); auto r=OP::impl(std::as_const(x.get()),std::as_const(y.get()));
  using R=decltype(OP::spec(a[0],b[0])); static_assert(std::is_same_v<typename VLen<decltype(r)>::type,R>); static_assert(VLen<decltype(r)>::n==N);
  for(std::size_t i=0;i<N;i++) v_ensures(v_same<R>(v_comp(r,i),OP::spec(a[0],b[i])),"one-component vector op vector broadcasts"); v_ensures(v_and(sx.same(x),sy.same(y)),"operands unmodified"); }
template<char O,int K,class A,std::size_t N> void un(){ auto a=v_arr<A,N>(); auto fa=v_arr<A,4>();
  if constexpr(O=='-'&&std::is_integral_v<A>&&std::is_signed_v<A>) for(std::size_t i=0;i<N;i++) v_requires(a[i]!=std::numeric_limits<A>::min());
  Opd<K,A,N> x(a,fa); Snap sx(x); const auto& cx=x.get();
  auto r=[&]{ if constexpr(O=='-') return -cx; else if constexpr(O=='+') return +cx; else return ~cx; }();
  auto sp=[](A t){ if constexpr(O=='-') return -t; else if constexpr(O=='+') return +t; else return ~t; };
  using R=decltype(sp(a[0])); static_assert(std::is_same_v<typename VLen<std::remove_cvref_t<decltype(r)>>::type,R>);
  for(std::size_t i=0;i<N;i++) v_ensures(v_same<R>(v_comp(r,i),sp(a[i])),"unary operator acts on each component"); v_ensures(sx.same(x),"operand unmodified"); }

#ifndef PART
#define PART 0
#endif
#define N4(M,...) M(__VA_ARGS__,1) M(__VA_ARGS__,2) M(__VA_ARGS__,3) M(__VA_ARGS__,4)
#define KVV(O,A,B,N) E(#O " own " #A "," #B " n=" #N, vv<O,OWN,A,OWN,B,N>) E(#O " swz,view " #A "," #B " n=" #N, vv<O,SWZ,A,VIEW,B,N>)
#define KVVX(O,A,B,N) KVV(O,A,B,N) E(#O " vswz,cview " #A "," #B " n=" #N, vv<O,VSWZ,A,CVIEW,B,N>) E(#O " oview,swz " #A "," #B " n=" #N, vv<O,OVIEW,A,SWZ,B,N>) E(#O " cview,ovswz " #A "," #B " n=" #N, vv<O,CVIEW,A,OVSWZ,B,N>)
#define KS(O,A,B,N) E(#O " v,s " #A "," #B " n=" #N, vs<O,OWN,A,B,N>) E(#O " s,v " #A "," #B " n=" #N, sv<O,OWN,A,B,N>) E(#O " swz,s " #A "," #B " n=" #N, vs<O,SWZ,A,B,N>) E(#O " s,view " #A "," #B " n=" #N, sv<O,VIEW,A,B,N>)
#define K1(O,A,B,N) E(#O " v,1 " #A "," #B " n=" #N, v1<O,OWN,A,OWN,B,N>) E(#O " 1,v " #A "," #B " n=" #N, ov<O,OWN,A,OWN,B,N>) E(#O " view,1swz " #A "," #B " n=" #N, v1<O,VIEW,A,SWZ,B,N>) E(#O " 1vswz,vswz " #A "," #B " n=" #N, ov<O,VSWZ,A,VSWZ,B,N>)
#define FULL(O,A,B) N4(KVVX,O,A,B) N4(KS,O,A,B) N4(K1,O,A,B)
#define LITE(O,A,B) N4(KVV,O,A,B) N4(KS,O,A,B) K1(O,A,B,3)
#define UN(O,A,N) E(#O " unary own " #A " n=" #N, un<*#O,OWN,A,N>) E(#O " unary swz " #A " n=" #N, un<*#O,SWZ,A,N>) E(#O " unary view " #A " n=" #N, un<*#O,VIEW,A,N>) E(#O " unary vswz " #A " n=" #N, un<*#O,VSWZ,A,N>)
#define ARITH(O) FULL(O,float,float) FULL(O,int,int) LITE(O,double,double) LITE(O,unsigned,unsigned) LITE(O,ll,ll) LITE(O,ull,ull) LITE(O,float,double) LITE(O,double,float) LITE(O,int,float) LITE(O,float,int) LITE(O,int,unsigned) LITE(O,unsigned,int) LITE(O,int,ll) LITE(O,double,ull)
#define BITS(O) FULL(O,int,int) LITE(O,unsigned,unsigned) LITE(O,ll,ll) LITE(O,ull,ull) LITE(O,int,unsigned) LITE(O,unsigned,int) LITE(O,ll,ull)
extern "C" const v_entry v_table[] = {
#if PART==0
 ARITH(add)
#elif PART==1
 ARITH(sub)
#elif PART==2
 ARITH(mul)
#elif PART==3
 ARITH(divi)
#elif PART==4
 BITS(mod) LITE(mod,int,ll) BITS(band)
#elif PART==5
 BITS(bor) BITS(bxor)
#elif PART==6
 BITS(shl) LITE(shl,ull,int) LITE(shl,ll,unsigned)
#elif PART==7
 BITS(shr) LITE(shr,ull,int) LITE(shr,ll,unsigned)
 N4(UN,+,float) N4(UN,+,int) N4(UN,-,float) N4(UN,-,double) N4(UN,-,int) N4(UN,-,unsigned) N4(UN,-,ll) N4(UN,~,int) N4(UN,~,unsigned) N4(UN,~,ull)
#endif
 V_END };
