// scalar meaning of the operators: spec, the condition under which the scalar operation is defined, and the dsga call
#pragma once
#include "vdsga.h"
#include <limits>
template<class T> bool pre_add(T a,T b){ if constexpr(std::is_integral_v<T>&&std::is_signed_v<T>){ T r; return !__builtin_add_overflow(a,b,&r);} else return true; }
template<class T> bool pre_sub(T a,T b){ if constexpr(std::is_integral_v<T>&&std::is_signed_v<T>){ T r; return !__builtin_sub_overflow(a,b,&r);} else return true; }
template<class T> bool pre_mul(T a,T b){ if constexpr(std::is_integral_v<T>&&std::is_signed_v<T>){ T r; return !__builtin_mul_overflow(a,b,&r);} else return true; }
template<class T> bool pre_div(T a,T b){ if constexpr(std::is_integral_v<T>){ if constexpr(std::is_signed_v<T>) return v_and(b!=0,!v_and(a==std::numeric_limits<T>::min(),b==T(-1))); else return b!=0; } else return true; }
#define BINOP(name,op,PRE) struct name { template<class A,class B> static auto impl(const A&a,const B&b){ return a op b; } template<class A,class B> static auto& impc(A&a,B&&b){ return a op##= b; } \
  template<class A,class B> static bool pre(A a,B b){ using C=CT<A,B>; return PRE<C>(static_cast<C>(a),static_cast<C>(b)); } \
  template<class A,class B> static auto spec(A a,B b){ using C=CT<A,B>; return static_cast<C>(a) op static_cast<C>(b); } };
template<class T> bool pre_t(T,T){ return true; }
BINOP(add,+,pre_add) BINOP(sub,-,pre_sub) BINOP(mul,*,pre_mul) BINOP(divi,/,pre_div) BINOP(mod,%,pre_div) BINOP(band,&,pre_t) BINOP(bor,|,pre_t) BINOP(bxor,^,pre_t)
// shifts keep the type of their left operand
#define SHOP(name,op) struct name { template<class A,class B> static auto impl(const A&a,const B&b){ return a op b; } template<class A,class B> static auto& impc(A&a,B&&b){ return a op##= b; } \
  template<class A,class B> static bool pre(A,B b){ constexpr int w=sizeof(A)*8; if constexpr(std::is_signed_v<B>) return v_and(b>=0,b<B(w)); else return b<B(w); } \
  template<class A,class B> static A spec(A a,B b){ return static_cast<A>(a op b); } };
SHOP(shl,<<) SHOP(shr,>>)

