// Contract language. Every contract is a function `void c(...)` that draws arbitrary inputs, states a precondition
// (v_requires), calls the real dsga operation, and states the postcondition / frame (v_ensures). The builtins below are
// interpreted by /verif/vcgen as logic (inputs = universally quantified variables) and by /verif/runtime/runtime.cpp
// natively, so that a counterexample can be replayed against the compiled code.
#pragma once
#include <cstdint>
#include <type_traits>
#include <cstddef>
#include <utility>
#include <array>
#include <tuple>
#include <stdexcept>
extern "C" {
float v_in_f32(); double v_in_f64(); int v_in_i32(); long long v_in_i64(); bool v_in_bool();
void v_requires(bool) noexcept; void v_ensures(bool, const char*) noexcept;
void v_mode_real() noexcept; void v_no_arith_ub() noexcept; void v_arith_ub() noexcept;
bool v_same_f32(float,float) noexcept; bool v_same_f64(double,double) noexcept; bool v_req_f32(float,float) noexcept; bool v_req_f64(double,double) noexcept;
float v_rti_f32(int,float) noexcept; double v_rti_f64(int,double) noexcept; float v_sqrt_f32(float) noexcept; double v_sqrt_f64(double) noexcept;
bool v_isnan_f32(float) noexcept; bool v_isnan_f64(double) noexcept;
bool v_and(bool,bool) noexcept; bool v_or(bool,bool) noexcept; bool v_imp(bool,bool) noexcept; bool v_iff(bool,bool) noexcept;
float v_ite_f32(bool,float,float) noexcept; double v_ite_f64(bool,double,double) noexcept; int v_ite_i32(bool,int,int) noexcept; long long v_ite_i64(bool,long long,long long) noexcept; bool v_ite_b(bool,bool,bool) noexcept;
}
// uninterpreted functions used as arbitrary callees of apply/query; natively some fixed injective-looking functions
extern "C" { float v_uf_f1(float) noexcept; float v_uf_f2(float,float) noexcept; float v_uf_f3(float,float,float) noexcept; double v_uf_d1(double) noexcept; int v_uf_i1(int) noexcept; int v_uf_i2(int,int) noexcept; int v_uf_i3(int,int,int) noexcept; bool v_uf_bf1(float) noexcept; bool v_uf_bf2(float,float) noexcept; bool v_uf_bi1(int) noexcept; double v_uf_d2(double,double) noexcept; double v_uf_d3(double,double,double) noexcept; long long v_uf_l1(long long) noexcept; }

// modular contracts: a callee replaced by its contract (v_replace), a loop cut by an invariant (v_loop; the invariant function states
// its clauses with v_inv and reads the locals of the loop's function with v_local), lemmas about the mathematics (v_lemma; proved in proofs/)
extern "C" { void v_mode_round() noexcept; void v_mode_ibb() noexcept; double v_uf_err_d(double) noexcept; void v_replace(const char*,void*) noexcept; void v_loop(const char*,int,void(*)()) noexcept; void v_inv(bool,const char*) noexcept; void v_lemma(bool,const char*) noexcept; double v_local_f64(const char*,long long) noexcept; float v_local_f32(const char*,long long) noexcept;
double v_uf_xmul(double,double) noexcept; double v_uf_xadd(double,double) noexcept; double v_uf_xsub(double,double) noexcept; double v_uf_rem_d(double,double) noexcept; float v_uf_rem_f(float,float) noexcept; bool v_uf_p2m_d(double,double) noexcept; bool v_uf_p2m_f(float,float) noexcept; bool v_uf_halfrep_d(double) noexcept; bool v_uf_halfrep_f(float) noexcept; }

template<class T> inline T v_in();
template<> inline float v_in<float>(){ return v_in_f32(); }
template<> inline double v_in<double>(){ return v_in_f64(); }
template<> inline int v_in<int>(){ return v_in_i32(); }
template<> inline unsigned v_in<unsigned>(){ return (unsigned)v_in_i32(); }
template<> inline long long v_in<long long>(){ return v_in_i64(); }
template<> inline unsigned long long v_in<unsigned long long>(){ return (unsigned long long)v_in_i64(); }
template<> inline unsigned long v_in<unsigned long>(){ return (unsigned long)v_in_i64(); }
template<> inline long v_in<long>(){ return (long)v_in_i64(); }
template<> inline bool v_in<bool>(){ return v_in_bool(); }

// identity of values: same type, same value; for floating point: same real, or same infinity, or both NaN, and same sign of zero
template<class T> inline bool v_same(const T&a, const T&b){
  if constexpr (std::is_same_v<T,float>) return v_same_f32(a,b); else if constexpr (std::is_same_v<T,double>) return v_same_f64(a,b); else return a==b; }
template<class T> inline bool v_req(T a, T b){ if constexpr (std::is_same_v<T,float>) return v_req_f32(a,b); else return v_req_f64(a,b); }
inline float v_rti(int m,float x){ return v_rti_f32(m,x); } inline double v_rti(int m,double x){ return v_rti_f64(m,x); }
inline float v_sqrt(float x){ return v_sqrt_f32(x); } inline double v_sqrt(double x){ return v_sqrt_f64(x); }
inline bool v_isnan(float x){ return v_isnan_f32(x); } inline bool v_isnan(double x){ return v_isnan_f64(x); } template<class T> requires std::is_integral_v<T> inline bool v_isnan(T){ return false; }
inline float v_ite(bool c,float a,float b){ return v_ite_f32(c,a,b); } inline double v_ite(bool c,double a,double b){ return v_ite_f64(c,a,b); }
inline int v_ite(bool c,int a,int b){ return v_ite_i32(c,a,b); } inline long long v_ite(bool c,long long a,long long b){ return v_ite_i64(c,a,b); } inline bool v_ite(bool c,bool a,bool b){ return v_ite_b(c,a,b); }
inline unsigned v_ite(bool c,unsigned a,unsigned b){ return (unsigned)v_ite_i32(c,(int)a,(int)b); } inline unsigned long long v_ite(bool c,unsigned long long a,unsigned long long b){ return (unsigned long long)v_ite_i64(c,(long long)a,(long long)b); } inline unsigned long v_ite(bool c,unsigned long a,unsigned long b){ return (unsigned long)v_ite_i64(c,(long long)a,(long long)b); }

struct v_entry { const char* name; void (*fn)(); };
#define V_END { nullptr, nullptr }
#define E(name,...) { name, __VA_ARGS__ },
#define V_STR2(x) #x
#define V_STR(x) V_STR2(x)
