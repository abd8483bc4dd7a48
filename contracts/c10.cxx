// C10: comparisons are componentwise, NaN-aware and consistent with equality
#include "args.h"
template<class T,std::size_t C,std::size_t R> using MM=dsga::basic_matrix<T,C,R>;
#define CMP(name,fn,expr) struct name { template<class A,class B> static auto f(const A&a,const B&b){ return dsga::fn(a,b); } template<class T> static bool s(T a,T b){ return expr; } };
CMP(lt,lessThan,a<b) CMP(le,lessThanEqual,a<=b) CMP(gt,greaterThan,a>b) CMP(ge,greaterThanEqual,a>=b) CMP(eq,equal,a==b) CMP(ne,notEqual,a!=b)
CMP(band_,compAnd,a&&b) CMP(bor_,compOr,a||b)
template<class O,int K1,int K2,class T,std::size_t N> void cmp(){ auto a=v_arr<T,N>(),b=v_arr<T,N>(); auto f=v_arr<T,4>(),g=v_arr<T,4>(); Opd<K1,T,N> x(a,f); Opd<K2,T,N> y(b,g); Snap sx(x); Snap sy(y); auto r=O::f(x.get(),y.get()); static_assert(std::is_same_v<decltype(r),std::conditional_t<N==1,bool,VV<bool,N>>>); bool ok=true; for(std::size_t i=0;i<N;i++) ok=v_and(ok,v_comp(r,i)==O::s(a[i],b[i])); v_ensures(ok,"component i is the scalar comparison of components i"); v_ensures(v_and(sx.same(x),sy.same(y)),"operands unmodified"); }
template<class O,class T> void cmps(){ T a=v_in<T>(),b=v_in<T>(); bool r=O::f(a,b); v_ensures(r==O::s(a,b),"scalar form"); if constexpr(!std::is_same_v<T,bool>) v_ensures(v_imp(v_or(v_isnan(a),v_isnan(b)),r==std::is_same_v<O,ne>),"any comparison with NaN is false except notEqual"); }
template<int K,std::size_t N> void fold(){ auto a=v_arr<bool,N>(); auto f=v_arr<bool,4>(); Opd<K,bool,N> x(a,f); Snap sx(x); bool an=false,al=true; for(std::size_t i=0;i<N;i++){ an=v_or(an,a[i]); al=v_and(al,a[i]); } v_ensures(dsga::any(x.get())==an,"any"); v_ensures(dsga::all(x.get())==al,"all"); v_ensures(dsga::none(x.get())==!an,"none"); auto n=dsga::compNot(x.get()); static_assert(std::is_same_v<decltype(n),std::conditional_t<N==1,bool,VV<bool,N>>>); bool ok=true; for(std::size_t i=0;i<N;i++) ok=v_and(ok,v_comp(n,i)==!a[i]); v_ensures(ok,"compNot"); auto l=dsga::logicalNot(x.get()); ok=true; for(std::size_t i=0;i<N;i++) ok=v_and(ok,v_comp(l,i)==!a[i]); v_ensures(ok,"logicalNot"); v_ensures(sx.same(x),"operand unmodified"); }
void fold0(){ bool a=v_in<bool>(),b=v_in<bool>(); v_ensures(v_and(v_and(dsga::any(a)==a,dsga::all(a)==a),v_and(dsga::none(a)==!a,v_and(dsga::compNot(a)==!a,dsga::logicalNot(a)==!a))),"scalar folds"); v_ensures(v_and(dsga::compAnd(a,b)==(a&&b),dsga::compOr(a,b)==(a||b)),"scalar logical functions"); v_ensures(v_and(dsga::equal(a,b)==(a==b),dsga::notEqual(a,b)==(a!=b)),"scalar boolean equality"); }
template<int K1,class A,int K2,class B,std::size_t N> void eqv(){ auto a=v_arr<A,N>(); auto b=v_arr<B,N>(); auto f=v_arr<A,4>(); auto g=v_arr<B,4>(); Opd<K1,A,N> x(a,f); Opd<K2,B,N> y(b,g); Snap sx(x); Snap sy(y); using C=CT<A,B>; bool w=true,nan=false; for(std::size_t i=0;i<N;i++){ w=v_and(w,static_cast<C>(a[i])==static_cast<C>(b[i])); nan=v_or(nan,v_or(v_isnan(a[i]),v_isnan(b[i]))); } const auto&p=x.get(); const auto&q=y.get();
  bool e=(p==q); v_ensures(e==w,"true exactly when every component pair compares equal"); v_ensures((p!=q)==!w,"!= is the negation"); v_ensures(v_and((q==p)==w,(q!=p)==!w),"symmetric"); v_ensures(v_imp(nan,!e),"false when a component is NaN"); v_ensures(v_and(sx.same(x),sy.same(y)),"operands unmodified"); }
template<class T,std::size_t N> void self(){ auto a=v_arr<T,N>(); VV<T,N> v; v_for<N>([&](auto i){ v[i]=a[i]; }); bool w=true; for(std::size_t i=0;i<N;i++) w=v_and(w,!v_isnan(a[i])); v_ensures((v==v)==w,"a vector equals itself unless a component is NaN"); v_ensures(dsga::all(dsga::equal(v,v))==w,"equal agrees with =="); }
template<class A,class B> void eqs(){ auto a=v_arr<A,1>(); B b=v_in<B>(); auto f=v_arr<A,4>(); Opd<OWN,A,1> x(a,f); Opd<SWZ,A,1> y(a,f); using C=CT<A,B>; bool w=static_cast<C>(a[0])==static_cast<C>(b); v_ensures(v_and((x.get()==b)==w,(y.get()==b)==w),"one-component vector against a scalar"); v_ensures(v_and((x.get()!=b)==!w,(b==x.get())==w),"negation and symmetry"); v_ensures(v_and((b!=y.get())==!w,(b==y.get())==w),"negation and symmetry"); }
template<class A,class B,std::size_t N> void eqw(){ auto a=v_arr<A,N>(); auto b=v_arr<B,N>(); dsga::storage_wrapper<true,A,N> x{}; dsga::storage_wrapper<true,B,N> y{}; v_for<N>([&](auto i){ x[i]=a[i]; y[i]=b[i]; }); dsga::view_wrapper<true,A,N> p(a.e); dsga::view_wrapper<false,B,N> q(b.e); using C=CT<A,B>; bool w=true; for(std::size_t i=0;i<N;i++) w=v_and(w,static_cast<C>(a[i])==static_cast<C>(b[i])); if constexpr(requires{ x==y; }) v_ensures(v_and((x==y)==w,(x!=y)==!w),"storage wrappers"); if constexpr(requires{ p==q; }) v_ensures(v_and((p==q)==w,(p!=q)==!w),"view wrappers"); v_ensures(true,"compiled"); }
template<class A,class B,std::size_t C,std::size_t R> void eqm(){ AM<A,C,R> x; AM<B,C,R> y; using T=CT<A,B>; bool w=true,nan=false; for(std::size_t i=0;i<C*R;i++){ w=v_and(w,static_cast<T>(x.l[i])==static_cast<T>(y.l[i])); nan=v_or(nan,v_or(v_isnan(x.l[i]),v_isnan(y.l[i]))); } bool e=(x.get()==y.get()); v_ensures(e==w,"matrices are equal exactly when every element pair compares equal"); v_ensures(v_and((x.get()!=y.get())==!w,v_and((y.get()==x.get())==w,(y.get()!=x.get())==!w)),"negation and symmetry"); v_ensures(v_imp(nan,!e),"false when an element is NaN"); v_ensures(v_and(x.same(),y.same()),"operands unmodified"); }
// two-component values written through dsga and compared with signed zeros
template<class T,std::size_t N> void zero(){ VV<T,N> p(T(0)),q(-T(0)); auto a=v_arr<T,N>(); (void)a; v_ensures(v_and(p==q,v_and(!(p!=q),dsga::all(dsga::equal(p,q)))),"+0 equals -0"); }
#define P2(M,...) M(OWN,OWN,##__VA_ARGS__) M(SWZ,VIEW,##__VA_ARGS__) M(VSWZ,CVIEW,##__VA_ARGS__) M(OVIEW,OVSWZ,##__VA_ARGS__)
#define CM1(K1,K2,O,T,N) E(#O " " #T #N " " #K1 " " #K2,cmp<O,K1,K2,T,N>)
#define CMN(K1,K2,O,T) CM1(K1,K2,O,T,1) CM1(K1,K2,O,T,2) CM1(K1,K2,O,T,3) CM1(K1,K2,O,T,4)
#define CM(T) P2(CMN,lt,T) P2(CMN,le,T) P2(CMN,gt,T) P2(CMN,ge,T) P2(CMN,eq,T) P2(CMN,ne,T) E("scalar lt " #T,cmps<lt,T>) E("scalar le " #T,cmps<le,T>) E("scalar gt " #T,cmps<gt,T>) E("scalar ge " #T,cmps<ge,T>) E("scalar eq " #T,cmps<eq,T>) E("scalar ne " #T,cmps<ne,T>)
#define CMB P2(CMN,eq,bool) P2(CMN,ne,bool) P2(CMN,band_,bool) P2(CMN,bor_,bool)
#define FO(K) E("folds " #K " 1",fold<K,1>) E("folds " #K " 2",fold<K,2>) E("folds " #K " 3",fold<K,3>) E("folds " #K " 4",fold<K,4>)
#define EQ1(K1,K2,A,B,N) E("equality " #A #N " " #K1 " " #B #N " " #K2,eqv<K1,A,K2,B,N>)
#define EQN(K1,K2,A,B) EQ1(K1,K2,A,B,1) EQ1(K1,K2,A,B,2) EQ1(K1,K2,A,B,3) EQ1(K1,K2,A,B,4)
#define EQ(A,B) P2(EQN,A,B)
#define ES(A,B) E("equality with a scalar " #A " " #B,eqs<A,B>)
#define EW(A,B) E("wrapper equality " #A " " #B " 1",eqw<A,B,1>) E("wrapper equality " #A " " #B " 3",eqw<A,B,3>) E("wrapper equality " #A " " #B " 4",eqw<A,B,4>)
#define SH1(M,T,...) M(T,2,2,##__VA_ARGS__) M(T,2,3,##__VA_ARGS__) M(T,2,4,##__VA_ARGS__) M(T,3,2,##__VA_ARGS__) M(T,3,3,##__VA_ARGS__) M(T,3,4,##__VA_ARGS__) M(T,4,2,##__VA_ARGS__) M(T,4,3,##__VA_ARGS__) M(T,4,4,##__VA_ARGS__)
#define EM(A,C,R,B) E("matrix equality " #A " " #B " " #C "x" #R,eqm<A,B,C,R>)
#define SF(T) E("self equality " #T " 1",self<T,1>) E("self equality " #T " 2",self<T,2>) E("self equality " #T " 3",self<T,3>) E("self equality " #T " 4",self<T,4>)
#ifndef PART
#define PART 0
#endif
extern "C" const v_entry v_table[] = {
#if PART==0
 CM(float) CM(int)
#elif PART==1
 CM(double) CM(unsigned)
#elif PART==2
 CM(ll) CM(ull) CMB
#elif PART==3
 FO(OWN) FO(SWZ) FO(VIEW) FO(VSWZ) FO(OVIEW) FO(OVSWZ) FO(CVIEW) E("scalar folds",fold0) EQ(float,float) EQ(double,double) EQ(float,double) EQ(int,int) EQ(bool,bool)
#elif PART==4
 EQ(int,float) EQ(float,int) EQ(unsigned,int) EQ(int,double) EQ(ll,int) EQ(ull,ull) EQ(ll,ll) EQ(ll,float) EQ(unsigned,unsigned)
#elif PART==5
 ES(float,float) ES(float,double) ES(double,float) ES(int,float) ES(float,int) ES(int,int) ES(unsigned,int) ES(bool,bool) ES(ll,double) ES(int,ll) EW(float,float) EW(double,float) EW(float,double) EW(int,int) EW(int,float) EW(ll,ll) EW(bool,bool) SH1(EM,float,float) SH1(EM,float,double) SH1(EM,double,float) SH1(EM,double,double) SF(float) SF(double) SF(int) SF(ll) E("signed zeros float",zero<float,4>) E("signed zeros double",zero<double,3>)
#endif
 V_END };
