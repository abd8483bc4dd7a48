// Contracts that are false on purpose. Each must be refuted on every run, otherwise the check is broken.
#include "vdsga.h"
static void k_add(){ float a=v_in_f32(),b=v_in_f32(),c=v_in_f32(),d=v_in_f32(); dsga::vec2 x(a,b),y(c,d); auto r=x+y; v_ensures(v_same(r[0],a+d),"wrong component"); }
static void k_swz(){ int a=v_in_i32(),b=v_in_i32(),c=v_in_i32(); dsga::ivec3 x(a,b,c); dsga::ivec2 r=x.zx; v_ensures(r[1]==b,"wrong swizzle"); }
static void k_oob(){ int i=v_in_i32(); dsga::ivec3 x(1,2,3); v_requires(v_and(i>=0,i<=3)); int r=x[i]; v_ensures(v_or(r>0,r<=0),"index 3 must be refuted by the bounds assertion"); }
static void k_ovf(){ int a=v_in_i32(); dsga::ivec2 x(a,1); auto r=x+1; v_ensures(r[1]==2,"signed overflow must be refuted"); }
static void k_real(){ float a=v_in_f32(),b=v_in_f32(); v_mode_real(); dsga::vec2 x(a,b); v_ensures(v_req(dsga::dot(x,x),a*a-b*b),"wrong dot product"); }
static void k_div(){ int a=v_in_i32(); dsga::ivec2 x(7,9); auto r=x/a; v_ensures(v_same(r[0],r[0]),"division by zero must be refuted"); }
static void k_nan(){ float a=v_in_f32(); dsga::vec2 x(a,a); v_ensures(x==x,"NaN must be refuted"); }
extern "C" const v_entry v_table[]={ E("wrong add",k_add) E("wrong swizzle",k_swz) E("index out of range",k_oob) E("overflow",k_ovf) E("wrong dot",k_real) E("div by zero",k_div) E("nan equality",k_nan) V_END };
