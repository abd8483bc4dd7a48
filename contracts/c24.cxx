// C24: run-time swizzle returns the components at the given indices, or throws std::out_of_range when any index is outside the vector
// The assertion in front of the throw is compiled out in parts 0-3 (DSGA_DISABLE_ASSERTS, as documented in the README), so that the rejection is the
// documented exception; part 4 keeps the assertions and shows that for valid indices none of them can fire.
#if PART!=4
#define DSGA_DISABLE_ASSERTS
#endif
#include "lift.h"
template<class I> bool inr(I i,std::size_t N){ if constexpr(std::is_same_v<I,bool>) return v_or(!i,N>1); else if constexpr(std::is_signed_v<I>) return v_and(i>=0,i<(I)N); else return i<(I)N; }
template<class T,std::size_t N,class I> T at(const Arr<T,N>&a,I i){ T r=a[0]; for(std::size_t k=1;k<N;k++) if constexpr(std::is_same_v<T,bool>) r=v_ite(i==(I)k,(bool)a[k],(bool)r); else if constexpr(std::is_same_v<I,bool>) r=v_ite(k==1&&i,a[k],r); else r=v_ite(i==(I)k,a[k],r); return r; }
template<class T,std::size_t N> T atb(const Arr<T,N>&a,bool i){ if constexpr(N==1) return a[0]; else if constexpr(std::is_same_v<T,bool>) return v_ite(i,(bool)a[1],(bool)a[0]); else return v_ite(i,a[1],a[0]); }
template<class T,std::size_t N,class I> T pick(const Arr<T,N>&a,I i){ if constexpr(std::is_same_v<I,bool>) return atb<T,N>(a,i); else return at<T,N,I>(a,i); }
template<class I> I idx(){ if constexpr(sizeof(I)<4&&!std::is_same_v<I,bool>) return static_cast<I>(v_in<int>()); else return v_in<I>(); }
template<int K,class T,std::size_t N,class...I> void sw(){ auto a=v_arr<T,N>(); auto f=v_arr<T,4>(); std::tuple<I...> ix{idx<I>()...}; Opd<K,T,N> x(a,f); Snap s(x); constexpr std::size_t M=sizeof...(I); bool thrown=false; bool good=true; [&]<std::size_t...k>(std::index_sequence<k...>){ ((good=v_and(good,inr(std::get<k>(ix),N))),...);
#if PART==4
    v_requires(good);
#endif
    try { auto r=dsga::swizzle(x.get(),std::get<k>(ix)...); if constexpr(M==1) static_assert(std::is_same_v<decltype(r),T>); else static_assert(std::is_same_v<decltype(r),VV<T,M>>); v_ensures(good,"a result only for valid indices"); bool ok=true; ((ok=v_and(ok,v_same<T>(v_comp(r,k),pick<T,N>(a,std::get<k>(ix))))),...); v_ensures(ok,"component k is the component at index k"); } catch(const std::out_of_range&){ thrown=true; } }(std::make_index_sequence<M>{});
  v_ensures(v_iff(thrown,!good),"out_of_range exactly when an index is outside the vector"); v_ensures(s.same(x),"argument unmodified"); }
#define S1(K,T,N,...) E("swizzle " #K " " #T " " #N " (" #__VA_ARGS__ ")",sw<K,T,N,__VA_ARGS__>)
#define SI(K,T,N,I) S1(K,T,N,I) S1(K,T,N,I,I) S1(K,T,N,I,I,I) S1(K,T,N,I,I,I,I)
#define SN(K,T,I) SI(K,T,1,I) SI(K,T,2,I) SI(K,T,3,I) SI(K,T,4,I)
#define KS(T,I) SN(OWN,T,I) SN(SWZ,T,I) SN(VIEW,T,I) SN(VSWZ,T,I) SN(OVIEW,T,I) SN(OVSWZ,T,I) SN(CVIEW,T,I)
#ifndef PART
#define PART 0
#endif
extern "C" const v_entry v_table[] = {
#if PART==0
 KS(int,int) SN(OWN,float,unsigned) SN(SWZ,double,ll)
#elif PART==1
 KS(float,std::size_t) SN(VIEW,bool,int) SN(OVIEW,ull,short)
#elif PART==2
 KS(double,ll) SN(OWN,int,signed char) SN(OVSWZ,unsigned,bool)
#elif PART==3
 S1(OWN,int,4,int,unsigned) S1(VIEW,float,3,ll,int,std::size_t) S1(SWZ,double,4,short,ull,int,unsigned) S1(OVSWZ,bool,2,unsigned char,ll) S1(CVIEW,float,4,unsigned,unsigned short,ll,int) SN(CVIEW,int,unsigned) SN(VSWZ,bool,ull) SN(OWN,bool,std::size_t)
#elif PART==4
 SN(OWN,float,int) SN(SWZ,int,std::size_t) SN(VIEW,double,ll) SN(OVIEW,bool,unsigned) SN(VSWZ,float,short) SN(OVSWZ,int,unsigned) SN(CVIEW,ull,int)
#endif
 V_END };
