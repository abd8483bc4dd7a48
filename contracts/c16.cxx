// C16: bit reinterpretation keeps every bit (NaN payloads included), there-and-back is the identity, byteswap reverses bytes and is an involution
#include "lift.h"
template<class T> using UB=std::conditional_t<sizeof(T)==1,unsigned char,std::conditional_t<sizeof(T)==2,unsigned short,std::conditional_t<sizeof(T)==4,unsigned,unsigned long long>>>;
template<class T> UB<T> bits(const T&x){ return std::bit_cast<UB<T>>(x); }
// F converts S to D, G converts D back to S; every bit pattern is drawn as an integer
#define CONV(name,F,G,S,D) struct k_##name { using From=S; using To=D; template<class X> static auto f(const X&x){ return dsga::F(x); } template<class X> static auto g(const X&x){ return dsga::G(x); } };
CONV(fi,floatBitsToInt,intBitsToFloat,float,int) CONV(fu,floatBitsToUint,uintBitsToFloat,float,unsigned) CONV(dl,doubleBitsToLongLong,longLongBitsToDouble,double,ll) CONV(du,doubleBitsToUlongLong,ulongLongBitsToDouble,double,ull)
CONV(if,intBitsToFloat,floatBitsToInt,int,float) CONV(uf,uintBitsToFloat,floatBitsToUint,unsigned,float) CONV(ld,longLongBitsToDouble,doubleBitsToLongLong,ll,double) CONV(ud,ulongLongBitsToDouble,doubleBitsToUlongLong,ull,double)
template<class F> void scal(){ using S=typename F::From; using D=typename F::To; auto b=v_in<UB<S>>(); S x=std::bit_cast<S>(b); auto r=F::f(x); static_assert(std::is_same_v<decltype(r),D>,"result type"); v_ensures(bits(r)==b,"every bit is kept"); auto q=F::g(r); static_assert(std::is_same_v<decltype(q),S>,"result type"); v_ensures(bits(q)==b,"there and back is the identity"); }
template<class F,int K,std::size_t N> void vec(){ using S=typename F::From; using D=typename F::To; auto b=v_arr<UB<S>,N>(); Arr<S,4> f; v_for<4>([&](auto i){ f[i]=std::bit_cast<S>(v_in<UB<S>>()); }); Arr<S,N> a; v_for<N>([&](auto i){ a[i]=std::bit_cast<S>(b[i]); }); Opd<K,S,N> x(a,f); auto r=F::f(x.get()); static_assert(l_rtype<decltype(r),D,N>,"result type"); bool ok=true,rt=true,un=true; for(std::size_t i=0;i<N;i++) ok=v_and(ok,bits<D>(v_comp(r,i))==b[i]); v_ensures(ok,"every bit of every component is kept");
  auto q=F::g(r); for(std::size_t i=0;i<N;i++) rt=v_and(rt,bits<S>(v_comp(q,i))==b[i]); v_ensures(rt,"there and back is the identity"); v_for<N>([&](auto i){ un=v_and(un,bits<S>(x.raw(x.at(i)))==b[i]); }); v_ensures(un,"argument unmodified"); }
// byteswap: byte j of the result is byte size-1-j of the argument
template<class T> bool reversed(T a,T r){ UB<T> x=(UB<T>)a,y=(UB<T>)r; bool ok=true; for(unsigned j=0;j<sizeof(T);j++) ok=v_and(ok,((y>>(8*j))&0xff)==((x>>(8*(sizeof(T)-1-j)))&0xff)); return ok; }
template<class T> void sbs(){ T x=(T)v_in<std::conditional_t<sizeof(T)<4,int,UB<T>>>(); auto r=dsga::byteswap(x); static_assert(std::is_same_v<decltype(r),T>,"result type"); v_ensures(reversed<T>(x,r),"bytes reversed"); v_ensures(dsga::byteswap(r)==x,"involution"); }
template<int K,class T,std::size_t N> void vbs(){ auto a=v_arr<T,N>(); auto f=v_arr<T,4>(); Opd<K,T,N> x(a,f); Snap sx(x); auto r=dsga::byteswap(x.get()); static_assert(l_rtype<decltype(r),T,N>,"result type"); bool ok=true,inv=true; for(std::size_t i=0;i<N;i++) ok=v_and(ok,reversed<T>(a[i],v_comp(r,i))); v_ensures(ok,"bytes of each component reversed"); auto q=dsga::byteswap(r); for(std::size_t i=0;i<N;i++) inv=v_and(inv,v_comp(q,i)==a[i]); v_ensures(inv,"involution"); v_ensures(sx.same(x),"argument unmodified"); }
enum class en8: signed char { a=-1 }; enum class en64: unsigned long long { a=1 };
template<class T,class I> void und(){ I i=v_in<I>(); T e=static_cast<T>(i); auto r=dsga::to_underlying(e); static_assert(std::is_same_v<decltype(r),std::underlying_type_t<T>>); v_ensures(r==static_cast<std::underlying_type_t<T>>(i),"value of the enumerator"); }
#define V4(txt,fn,F,K) E(txt " " #K " 1",fn<F,K,1>) E(txt " " #K " 2",fn<F,K,2>) E(txt " " #K " 3",fn<F,K,3>) E(txt " " #K " 4",fn<F,K,4>)
#define VF(F) E("scalar " #F,scal<k_##F>) V4(#F,vec,k_##F,OWN) V4(#F,vec,k_##F,SWZ) V4(#F,vec,k_##F,VIEW) V4(#F,vec,k_##F,VSWZ) V4(#F,vec,k_##F,OVIEW) V4(#F,vec,k_##F,OVSWZ) V4(#F,vec,k_##F,CVIEW)
#define B1(K,T) E("byteswap " #K " " #T " 1",vbs<K,T,1>) E("byteswap " #K " " #T " 2",vbs<K,T,2>) E("byteswap " #K " " #T " 3",vbs<K,T,3>) E("byteswap " #K " " #T " 4",vbs<K,T,4>)
#define BS(T) E("scalar byteswap " #T,sbs<T>) B1(OWN,T) B1(SWZ,T) B1(VIEW,T) B1(VSWZ,T) B1(OVIEW,T) B1(OVSWZ,T) B1(CVIEW,T)
#ifndef PART
#define PART 0
#endif
extern "C" const v_entry v_table[] = {
#if PART==0
 VF(fi) VF(fu) VF(dl) VF(du)
#elif PART==1
 VF(if) VF(uf) VF(ld) VF(ud)
#elif PART==2
 BS(int) BS(unsigned) BS(ll) BS(ull) BS(std::size_t) E("to_underlying 1",und<en8,int>) E("to_underlying 2",und<en64,ull>)
#endif
 V_END };
