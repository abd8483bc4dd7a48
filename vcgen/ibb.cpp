// Interval branch and bound: decides an obligation over one machine-word input by evaluating it over boxes of consecutive bit patterns.
// Round-to-nearest is monotone, so the endpoints of the operations' results are themselves computed with the operation; no outward rounding is needed.
#include "term.h"
#include "ibb.h"
#include <cmath>
#include <cstring>
#include <thread>
#include <atomic>
#include <mutex>
#include <chrono>
#include <algorithm>
using namespace std;
namespace {
typedef unsigned __int128 u128;
struct V { double lo,hi; uint64_t a,b; bool nan; uint8_t t; }; // FP: [lo,hi] and possibly NaN; BV: unsigned [a,b]; Bool: 1 true 2 false 3 either
struct Node { Op op; Sort s; uint64_t val; int x[3]; int n; T t; };
static double c2d(T t){ if(t->s.k==Sk::F32){ uint32_t u=t->val; float f; memcpy(&f,&u,4); return f; } double d; uint64_t u=t->val; memcpy(&d,&u,8); return d; }
static double b2d(uint64_t v,bool f32){ if(f32){ uint32_t u=v; float f; memcpy(&f,&u,4); return f; } double d; memcpy(&d,&v,8); return d; }
static uint64_t d2b(double d,bool f32){ if(f32){ float f=d; uint32_t u; memcpy(&u,&f,4); return u; } uint64_t u; memcpy(&u,&d,8); return u; }
static const double INF=INFINITY;
struct Prog { vector<Node> ns; unordered_map<T,int> id; bool ok=true; string why; int add(T t){ auto it=id.find(t); if(it!=id.end()) return it->second; vector<T> st{t}; while(!st.empty()){ T x=st.back(); if(id.count(x)){ st.pop_back(); continue; } bool rdy=true; for(T y:x->a) if(!id.count(y)){ st.push_back(y); rdy=false; } if(!rdy) continue; st.pop_back(); Node n; n.op=x->op; n.s=x->s; n.val=x->val; n.t=x; n.n=x->a.size(); if(n.n>3&&x->op!=Op::UF){ ok=false; why="arity"; } for(int i=0;i<3;i++) n.x[i]=i<n.n?id[x->a[i]]:-1; id[x]=ns.size(); ns.push_back(n); } return id[t]; } };
static inline double op2(Op o,double a,double b,bool f){ double r; if(f){ float x=a,y=b; r=o==Op::FADD?x+y:o==Op::FSUB?x-y:o==Op::FMUL?x*y:x/y; } else r=o==Op::FADD?a+b:o==Op::FSUB?a-b:o==Op::FMUL?a*b:a/b; return r; }
struct Eval { const Prog&p; T var; uint64_t A,B; vector<V> v; Eval(const Prog&q,T var_):p(q),var(var_),v(q.ns.size()){ A=B=0; for(size_t i=0;i<p.ns.size();i++) if(p.ns[i].op==Op::CONST) one(i); }
  V top(Sort s){ V r{-INF,INF,0,s.k==Sk::BV&&s.w<64?maskw(s.w):~0ull,true,3}; return r; }
  void one(int i){ const Node&n=p.ns[i]; V r{0,0,0,0,false,0}; bool f=n.s.k==Sk::F32; auto X=[&](int k)->V&{ return v[n.x[k]]; };
    switch(n.op){
      case Op::VAR: if(n.t==var){ r.a=A; r.b=B; } else r=top(n.s); break;
      case Op::CONST: if(n.s.k==Sk::Bool) r.t=n.val?1:2; else if(n.s.k==Sk::BV) r.a=r.b=n.val; else { r.lo=r.hi=c2d(n.t); if(std::isnan(r.lo)){ r.nan=true; r.lo=INF; r.hi=-INF; } } break;
      case Op::NOT: { int t=X(0).t; r.t=(t&1?2:0)|(t&2?1:0); break; }
      case Op::AND: { int a=X(0).t,b=X(1).t; r.t=((a&1)&&(b&1)?1:0)|((a&2)||(b&2)?2:0); break; }
      case Op::OR: { int a=X(0).t,b=X(1).t; r.t=((a&1)||(b&1)?1:0)|((a&2)&&(b&2)?2:0); break; }
      case Op::ITE: { int c=X(0).t; if(c==1) r=X(1); else if(c==2) r=X(2); else { V&q=X(1),&w=X(2); r.lo=min(q.lo,w.lo); r.hi=max(q.hi,w.hi); r.nan=q.nan||w.nan; r.a=min(q.a,w.a); r.b=max(q.b,w.b); r.t=q.t|w.t; } break; }
      case Op::EQ: { V&q=X(0),&w=X(1); Sort s=p.ns[n.x[0]].s; if(s.k==Sk::Bool){ r.t=0; for(int i1=1;i1<=2;i1++) for(int j=1;j<=2;j++) if((q.t&i1)&&(w.t&j)) r.t|=i1==j?1:2; } else if(s.k==Sk::BV) r.t=(q.b<w.a||w.b<q.a)?2:(q.a==q.b&&w.a==w.b&&s.w<=64)?1:3; else { bool qe=q.lo>q.hi,we=w.lo>w.hi; if(qe&&we&&q.nan&&w.nan) r.t=1; else if(!q.nan&&!w.nan&&(q.hi<w.lo||w.hi<q.lo)) r.t=2; else if(!q.nan&&!w.nan&&q.lo==q.hi&&w.lo==w.hi&&q.lo==w.lo&&q.lo!=0) r.t=1; else if((qe&&q.nan&&!w.nan)||(we&&w.nan&&!q.nan)) r.t=2; else r.t=3; } break; }
      case Op::ULT: case Op::ULE: { V&q=X(0),&w=X(1); r.t=n.op==Op::ULT?(q.b<w.a?1:q.a>=w.b?2:3):(q.b<=w.a?1:q.a>w.b?2:3); break; }
      case Op::SLT: case Op::SLE: { V&q=X(0),&w=X(1); unsigned wd=p.ns[n.x[0]].s.w; uint64_t h=1ull<<(wd-1); auto same=[&](V&z){ return (z.a&h)==(z.b&h); }; if(same(q)&&same(w)){ int64_t qa=sx(q.a,wd),qb=sx(q.b,wd),wa=sx(w.a,wd),wb=sx(w.b,wd); r.t=n.op==Op::SLT?(qb<wa?1:qa>=wb?2:3):(qb<=wa?1:qa>wb?2:3); } else r.t=3; break; }
      case Op::ADD: { V&q=X(0),&w=X(1); u128 m=(u128)1<<n.s.w; u128 lo=(u128)q.a+w.a,hi=(u128)q.b+w.b; if(lo>=m){ lo-=m; hi-=m; } if(hi>=m) r=top(n.s); else { r.a=lo; r.b=hi; } break; }
      case Op::SUB: { V&q=X(0),&w=X(1); __int128 m=(__int128)1<<n.s.w; __int128 lo=(__int128)q.a-w.b,hi=(__int128)q.b-w.a; if(hi<0){ lo+=m; hi+=m; } if(lo<0) r=top(n.s); else { r.a=lo; r.b=hi; } break; }
      case Op::MUL: { V&q=X(0),&w=X(1); u128 hi=(u128)q.b*w.b; if(hi>=((u128)1<<n.s.w)) r=top(n.s); else { r.a=q.a*w.a; r.b=hi; } break; }
      case Op::LSHR: { V&q=X(0),&w=X(1); if(w.a!=w.b||w.a>=n.s.w) r=top(n.s); else { r.a=q.a>>w.a; r.b=q.b>>w.a; } break; }
      case Op::ASHR: { V&q=X(0),&w=X(1); uint64_t h=1ull<<(n.s.w-1); if(w.a!=w.b||w.a>=n.s.w||(q.a&h)!=(q.b&h)) r=top(n.s); else { r.a=(uint64_t)(sx(q.a,n.s.w)>>w.a)&maskw(n.s.w); r.b=(uint64_t)(sx(q.b,n.s.w)>>w.a)&maskw(n.s.w); } break; }
      case Op::SHL: { V&q=X(0),&w=X(1); if(w.a!=w.b||w.a>=n.s.w||((u128)q.b<<w.a)>=((u128)1<<n.s.w)) r=top(n.s); else { r.a=q.a<<w.a; r.b=q.b<<w.a; } break; }
      case Op::BAND: case Op::BOR: case Op::BXOR: { V&q=X(0),&w=X(1); auto pt=[&](V&z){ return z.a==z.b; }; if(pt(q)&&pt(w)){ r.a=r.b=n.op==Op::BAND?q.a&w.a:n.op==Op::BOR?q.a|w.a:q.a^w.a; } else { uint64_t d=0; uint64_t x=(q.a^q.b)|(w.a^w.b); while(d<x) d=d*2+1; auto f2=[&](uint64_t k,uint64_t l){ return n.op==Op::BAND?k&l:n.op==Op::BOR?k|l:k^l; }; // common prefix is exact; where one side is constant below the prefix and the mask is monotone there, endpoints suffice
          uint64_t pre=f2(q.a,w.a)&~d; r.a=pre; r.b=pre|d; V&c=pt(w)?w:q; if(n.op==Op::BAND&&pt(c)){ uint64_t cm=c.a&d; r.b=pre|cm; if(cm==d){ r.a=pre|((pt(w)?q.a:w.a)&d); r.b=pre|((pt(w)?q.b:w.b)&d); } } if(n.op==Op::BXOR&&pt(c)&&(c.a&d)==0){ r.a=f2(q.a,w.a); r.b=f2(q.b,w.b); } if(n.op==Op::BOR&&pt(c)&&(c.a&d)==0){ r.a=f2(q.a,w.a); r.b=f2(q.b,w.b); } } break; }
      case Op::ZEXT: r=X(0); break;
      case Op::SEXT: { V&q=X(0); unsigned wd=p.ns[n.x[0]].s.w; uint64_t h=1ull<<(wd-1); if((q.a&h)!=(q.b&h)) r=top(n.s); else { r.a=(uint64_t)sx(q.a,wd)&maskw(n.s.w); r.b=(uint64_t)sx(q.b,wd)&maskw(n.s.w); } break; }
      case Op::EXTRACT: { V&q=X(0); unsigned hi=n.val>>16,lo=n.val&0xffff; unsigned w=hi-lo+1; uint64_t a=q.a>>lo,b=q.b>>lo; if(b-a>maskw(w)||(a&maskw(w))>(b&maskw(w))) r=top(n.s); else { r.a=a&maskw(w); r.b=b&maskw(w); } break; }
      case Op::CONCAT: { V&h=X(0),&l=X(1); unsigned lw=p.ns[n.x[1]].s.w; if(n.s.w>64) r=top(n.s); else if(h.a==h.b){ r.a=(h.a<<lw)|l.a; r.b=(h.b<<lw)|l.b; } else { r.a=(h.a<<lw)|l.a; r.b=(h.b<<lw)|l.b; if(r.a>r.b||!(l.a==0&&l.b==maskw(lw))){ r.a=h.a<<lw; r.b=(h.b<<lw)|maskw(lw); } } break; }
      case Op::BITS2F: { V&q=X(0); unsigned w=p.ns[n.x[0]].s.w; uint64_t h=1ull<<(w-1); uint64_t inf=w==32?0x7f800000ull:0x7ff0000000000000ull; if((q.a&h)!=(q.b&h)) r=top(n.s); else { uint64_t a=q.a&~h,b=q.b&~h; bool neg=q.a&h; r.nan=b>inf; if(a>inf){ r.lo=INF; r.hi=-INF; } else { uint64_t bb=min(b,inf); double x=b2d(a,w==32),y=b2d(bb,w==32); if(neg){ r.lo=-y; r.hi=-x; } else { r.lo=x; r.hi=y; } } } break; }
      case Op::F2BITS: { V&q=X(0); bool g=p.ns[n.x[0]].s.k==Sk::F32; if(q.nan||q.lo>q.hi||!(q.lo>0||q.hi<0)) r=top(n.s); else if(q.lo>0){ r.a=d2b(q.lo,g); r.b=d2b(q.hi,g); } else { r.a=d2b(q.hi,g); r.b=d2b(q.lo,g); } break; }
      case Op::FADD: case Op::FSUB: case Op::FMUL: case Op::FDIV: { V&q=X(0),&w=X(1); if(q.lo>q.hi||w.lo>w.hi){ r.nan=true; r.lo=INF; r.hi=-INF; break; } r.nan=q.nan||w.nan; Op o=n.op;
          if(o==Op::FADD){ r.lo=op2(o,q.lo,w.lo,f); r.hi=op2(o,q.hi,w.hi,f); if((q.lo==-INF&&w.hi==INF)||(q.hi==INF&&w.lo==-INF)) r=top(n.s); }
          else if(o==Op::FSUB){ r.lo=op2(o,q.lo,w.hi,f); r.hi=op2(o,q.hi,w.lo,f); if((q.lo==-INF&&w.lo==-INF)||(q.hi==INF&&w.hi==INF)) r=top(n.s); }
          else { if(o==Op::FDIV&&w.lo<=0&&w.hi>=0){ r=top(n.s); break; } bool qi=isinf(q.lo)||isinf(q.hi),wi=isinf(w.lo)||isinf(w.hi); if((o==Op::FMUL&&((qi&&w.lo<=0&&w.hi>=0)||(wi&&q.lo<=0&&q.hi>=0)))||(o==Op::FDIV&&qi&&wi)){ r=top(n.s); break; }
            double e[4]={op2(o,q.lo,w.lo,f),op2(o,q.lo,w.hi,f),op2(o,q.hi,w.lo,f),op2(o,q.hi,w.hi,f)}; if(n.x[0]==n.x[1]&&o==Op::FMUL){ r.lo=q.lo<=0&&q.hi>=0?0:min(e[0],e[3]); r.hi=max(e[0],e[3]); } else { r.lo=min(min(e[0],e[1]),min(e[2],e[3])); r.hi=max(max(e[0],e[1]),max(e[2],e[3])); } }
          if(std::isnan(r.lo)||std::isnan(r.hi)) r=top(n.s); break; }
      case Op::FSQRT: { V&q=X(0); if(q.lo>q.hi){ r=q; break; } r.nan=q.nan||q.lo<0; if(q.hi<0){ r.nan=true; r.lo=INF; r.hi=-INF; break; } double l=max(q.lo,0.0); if(f){ r.lo=sqrtf((float)l); r.hi=sqrtf((float)q.hi); } else { r.lo=sqrt(l); r.hi=sqrt(q.hi); } break; }
      case Op::FNEG: { V&q=X(0); r.lo=-q.hi; r.hi=-q.lo; r.nan=q.nan; if(q.lo>q.hi){ r.lo=INF; r.hi=-INF; } break; }
      case Op::FABS: { V&q=X(0); r.nan=q.nan; if(q.lo>q.hi){ r=q; break; } if(q.lo>=0){ r.lo=q.lo; r.hi=q.hi; } else if(q.hi<=0){ r.lo=-q.hi; r.hi=-q.lo; } else { r.lo=0; r.hi=max(-q.lo,q.hi); } break; }
      case Op::FRTI: { V&q=X(0); r=q; if(q.lo<=q.hi){ auto g=[&](double d){ switch(n.val){case 0:return nearbyint(d);case 1:return round(d);case 2:return ceil(d);case 3:return floor(d);default:return trunc(d);} }; r.lo=g(q.lo); r.hi=g(q.hi); } break; }
      case Op::FCVT: { V&q=X(0); r=q; if(f&&q.lo<=q.hi){ r.lo=(float)q.lo; r.hi=(float)q.hi; } break; }
      case Op::FISNAN: { V&q=X(0); r.t=q.lo>q.hi?(q.nan?1:2):q.nan?3:2; break; }
      case Op::FEQ: case Op::FLT: case Op::FLE: { V&q=X(0),&w=X(1); bool e=q.lo>q.hi||w.lo>w.hi; if(e){ r.t=2; break; } int t; if(n.op==Op::FLT) t=q.hi<w.lo?1:q.lo>=w.hi?2:3; else if(n.op==Op::FLE) t=q.hi<=w.lo?1:q.lo>w.hi?2:3; else t=(q.hi<w.lo||w.hi<q.lo)?2:(q.lo==q.hi&&w.lo==w.hi&&q.lo==w.lo)?1:3; if(n.x[0]==n.x[1]) t=n.op==Op::FLT?2:1; if(q.nan||w.nan) t|=2; r.t=t; break; }
      case Op::UF: if(n.t->name=="v_uf_err_d"&&n.n==1){ V&q=X(0); r.nan=q.nan; double m=max(fabs(q.lo),fabs(q.hi))*0x1p-53; if(q.lo>q.hi||isinf(m)) r=top(n.s); else { r.lo=-m-0x1p-1074; r.hi=m+0x1p-1074; } } else r=top(n.s); break;
      default: r=top(n.s); }
    v[i]=r; }
  void run(uint64_t a,uint64_t b){ A=a; B=b; for(size_t i=0;i<p.ns.size();i++) if(p.ns[i].op!=Op::CONST) one(i); } };
}
int ibb(const std::vector<T>&hyp,T goal,T var,double seconds,int threads,uint64_t&model,std::string&note,uint64_t&boxes){
  Prog p; vector<int> hs; for(T h:hyp) hs.push_back(p.add(h)); int g=p.add(goal); if(!p.ok){ note=p.why; return -1; } if(var->s.k!=Sk::BV){ note="input sort"; return -1; }
  unsigned w=var->s.w; uint64_t N=maskw(w); const int PARTS=4096; atomic<int> next{0}; atomic<int> out{0}; atomic<uint64_t> cnt{0}; mutex mu; auto t0=chrono::steady_clock::now();
  auto work=[&]{ Eval e(p,var); vector<pair<uint64_t,uint64_t>> st; while(out==0){ int k=next++; if(k>=PARTS) return; uint64_t step=(N/PARTS)+1; uint64_t lo=step*k, hi=k==PARTS-1?N:lo+step-1; st.push_back({lo,hi}); uint64_t c=0; while(!st.empty()&&out==0){ auto[a,b]=st.back(); st.pop_back(); if((++c&0x3fff)==0&&chrono::duration<double>(chrono::steady_clock::now()-t0).count()>seconds){ lock_guard<mutex> l(mu); out=2; note="box limit near "+to_string(a); break; } e.run(a,b); bool dead=false; bool maybe=false; for(int h:hs){ if(e.v[h].t==2){ dead=true; break; } if(e.v[h].t==3) maybe=true; } if(dead) continue; int t=e.v[g].t; if(t==1) continue; 
        if(a==b){ lock_guard<mutex> l(mu); if(out==0||out==2){ if(t==2&&!maybe){ out=1; model=a; } else { out=2; note="undecided at bit pattern "+to_string(a); } } break; }
        uint64_t m=a+(b-a)/2; st.push_back({m+1,b}); st.push_back({a,m}); } cnt+=c; st.clear(); } };
  vector<thread> ts; for(int i=0;i<threads;i++) ts.emplace_back(work); for(auto&t:ts) t.join(); boxes=cnt; return out==0?0:out==1?1:-1; }
