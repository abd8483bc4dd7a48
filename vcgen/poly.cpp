#include "poly.h"
#include <boost/multiprecision/cpp_int.hpp>
#include <cstring>
#include <cmath>
#include <algorithm>
#include <set>
typedef boost::multiprecision::cpp_rational Q; typedef boost::multiprecision::cpp_int Z;
typedef std::vector<std::pair<int,int>> Mono; // sorted (atom, exp)
typedef std::map<Mono,Q> Poly;
static size_t LIM=200000;
static Poly padd(const Poly&a,const Poly&b,const Q&k){ Poly r=a; for(auto&m:b){ auto it=r.find(m.first); if(it==r.end()) r[m.first]=m.second*k; else { it->second+=m.second*k; if(it->second==0) r.erase(it);} } return r; }
static Mono mmul(const Mono&a,const Mono&b){ Mono r; size_t i=0,j=0; while(i<a.size()||j<b.size()){ if(j==b.size()||(i<a.size()&&a[i].first<b[j].first)) r.push_back(a[i++]); else if(i==a.size()||b[j].first<a[i].first) r.push_back(b[j++]); else { r.push_back({a[i].first,a[i].second+b[j].second}); i++;j++; } } return r; }
struct Ctx;
struct Rat { Poly n; std::map<int,int> d; }; // numerator / product of denominator factors (ids into Ctx::facs)
struct Ctx {
  std::vector<Poly> facs; std::vector<T> atoms; std::map<T,int> atomOf; std::map<T,Rat> memo; std::map<int,Rat> sqrtArg; std::vector<std::pair<Rat,int>> sqrts; std::map<std::string,std::vector<std::pair<std::vector<Rat>,int>>> ufs; int nAtoms=0;
  Poly constant(Q q){ Poly p; if(q!=0) p[{}]=q; return p; }
  Poly atomP(int a){ Poly p; p[{{a,1}}]=1; return p; }
  Poly reduce(Poly p){ // replace s^2 by its argument for sqrt atoms with polynomial argument
    bool ch=true; while(ch){ ch=false; for(auto it=p.begin();it!=p.end();++it){ for(size_t k=0;k<it->first.size();k++){ auto ae=it->first[k]; if(ae.second>=2){ auto sa=sqrtArg.find(ae.first); if(sa!=sqrtArg.end()&&sa->second.d.empty()){ Mono rest=it->first; if(ae.second==2) rest.erase(rest.begin()+k); else rest[k].second-=2; Q c=it->second; Poly q; for(auto&m:sa->second.n) q[mmul(m.first,rest)]+=m.second*c; p.erase(it); p=padd(p,q,1); ch=true; goto again; } } } } again:; if(p.size()>LIM) throw NotPoly("poly too large"); } return p; }
  Poly pmul(const Poly&a,const Poly&b){ if(a.size()*b.size()>LIM*4) throw NotPoly("poly too large"); Poly r; for(auto&x:a) for(auto&y:b){ Mono m=mmul(x.first,y.first); auto it=r.find(m); if(it==r.end()) r[m]=x.second*y.second; else { it->second+=x.second*y.second; if(it->second==0) r.erase(it);} } return reduce(std::move(r)); }
  Poly ppow(const Poly&a,int k){ Poly r=constant(1); while(k-->0) r=pmul(r,a); return r; }
  int fac(const Poly&p,Q&lead){ // normalise leading coefficient to 1
    lead=p.begin()->second; Poly q; for(auto&m:p) q[m.first]=m.second/lead; for(size_t i=0;i<facs.size();i++) if(facs[i]==q) return i; facs.push_back(q); return facs.size()-1; }
  Rat radd(const Rat&a,const Rat&b,int sg){ if(a.d==b.d) return {padd(a.n,b.n,sg),a.d}; std::map<int,int> l=a.d; for(auto&f:b.d) l[f.first]=std::max(l[f.first],f.second); Poly x=a.n,y=b.n; for(auto&f:l){ int ea=0,eb=0; auto i=a.d.find(f.first); if(i!=a.d.end()) ea=i->second; i=b.d.find(f.first); if(i!=b.d.end()) eb=i->second; if(f.second>ea) x=pmul(x,ppow(facs[f.first],f.second-ea)); if(f.second>eb) y=pmul(y,ppow(facs[f.first],f.second-eb)); } return {padd(x,y,sg),l}; }
  void cancel(Rat&r){ // cheap cancellation: numerator equal to a multiple of a factor
    if(r.n.empty()){ r.d.clear(); return; } Q lead=r.n.begin()->second; for(auto it=r.d.begin();it!=r.d.end();++it){ const Poly&f=facs[it->first]; if(f.size()!=r.n.size()) continue; bool eq=true; auto i=r.n.begin(); for(auto j=f.begin();j!=f.end();++i,++j) if(i->first!=j->first||i->second!=j->second*lead){eq=false;break;} if(eq){ r.n=constant(lead); if(--it->second==0) r.d.erase(it); return; } } }
  Rat rmul(const Rat&a,const Rat&b){ Rat r; r.n=pmul(a.n,b.n); r.d=a.d; for(auto&f:b.d) r.d[f.first]+=f.second; cancel(r); return r; }
  Rat rdiv(const Rat&a,const Rat&b){ if(b.n.empty()) throw NotPoly("division by zero polynomial"); Rat inv; inv.n=constant(1); for(auto&f:b.d) inv.n=pmul(inv.n,ppow(facs[f.first],f.second)); 
    // monomial factors are split so that x/(s*s) etc. normalise
    Q lead; Poly bn=b.n; if(bn.size()==1){ Q c=bn.begin()->second; for(auto&m:inv.n) m.second/=c; for(auto&ae:bn.begin()->first){ int f=fac(atomP(ae.first),lead); inv.d[f]+=ae.second; } } else { int f=fac(bn,lead); for(auto&m:inv.n) m.second/=lead; inv.d[f]+=1; }
    return rmul(a,inv); }
  bool req(const Rat&a,const Rat&b){ Rat d=radd(a,b,-1); Poly p=reduce(d.n); return p.empty(); }
  Q constQ(T t){ double v; if(t->s.k==Sk::F32){ uint32_t u=t->val; float f; memcpy(&f,&u,4); v=f; } else { uint64_t u=t->val; memcpy(&v,&u,8);} if(!std::isfinite(v)) throw NotPoly("non-finite constant"); int e; double m=std::frexp(v,&e); long long mi=(long long)std::ldexp(m,53); Q q=Q(Z(mi)); int sh=e-53; Z p=1; p<<=std::abs(sh); return sh>=0?q*Q(p):q/Q(p); }
  Rat atom(T t){ auto it=atomOf.find(t); int a; if(it==atomOf.end()){ a=nAtoms++; atomOf[t]=a; } else a=it->second; return {atomP(a),{}}; }
  Rat conv(T t){ auto it=memo.find(t); if(it!=memo.end()) return it->second; Rat r=conv0(t); memo[t]=r; return r; }
  Rat conv0(T t){
    switch(t->op){
      case Op::CONST: return {constant(constQ(t)),{}};
      case Op::VAR: case Op::BITS2F: return atom(t);
      case Op::FADD: return radd(conv(t->a[0]),conv(t->a[1]),1); case Op::FSUB: return radd(conv(t->a[0]),conv(t->a[1]),-1); case Op::FMUL: return rmul(conv(t->a[0]),conv(t->a[1])); case Op::FDIV: return rdiv(conv(t->a[0]),conv(t->a[1]));
      case Op::FNEG: { Rat z; return radd(z,conv(t->a[0]),-1); } case Op::FMA: return radd(rmul(conv(t->a[0]),conv(t->a[1])),conv(t->a[2]),1);
      case Op::FCVT: if(!(t->s.k==Sk::F32&&t->a[0]->s.k==Sk::F64)) return conv(t->a[0]); [[fallthrough]]; // narrowing is not the identity: an arbitrary function
      case Op::FSQRT: { Rat a=conv(t->a[0]); for(auto&s:sqrts) if(req(s.first,a)) return {atomP(s.second),{}}; 
          if(a.n.empty()) return Rat{}; 
          if(a.d.empty()&&a.n.size()==1&&a.n.begin()->first.empty()){ Q q=a.n.begin()->second; Z n=boost::multiprecision::numerator(q),d=boost::multiprecision::denominator(q); if(n>0){ Z sn=boost::multiprecision::sqrt(n), sd=boost::multiprecision::sqrt(d); if(sn*sn==n&&sd*sd==d) return {constant(Q(sn)/Q(sd)),{}}; } }
          int k=nAtoms++; sqrtArg[k]=a; sqrts.push_back({a,k}); return {atomP(k),{}}; }
      case Op::FABS: case Op::FRTI: case Op::UF: { std::string key=std::to_string((int)t->op)+":"+t->name+":"+std::to_string(t->val); std::vector<Rat> as; for(T x:t->a){ if(!isF(x->s)) return atom(t); as.push_back(conv(x)); } for(auto&e:ufs[key]){ bool eq=true; for(size_t i=0;i<as.size()&&eq;i++) eq=req(e.first[i],as[i]); if(eq) return {atomP(e.second),{}}; } int k=nAtoms++; ufs[key].push_back({as,k}); return {atomP(k),{}}; }
      case Op::SITOF: case Op::UITOF: return atom(t);
      default: throw NotPoly("operator outside the ring fragment: "+show(t,2)); } }
};
bool polyEqual(T x,T y){ Ctx c; Rat a=c.conv(x),b=c.conv(y); return c.req(a,b); }
static void coll(T t,std::vector<T>&o,std::set<T>&seen){ if(!seen.insert(t).second) return; if(t->op==Op::FDIV) o.push_back(t->a[1]); for(T x:t->a) coll(x,o,seen); }
void collectDivisors(T t,std::vector<T>&o){ std::set<T> s; coll(t,o,s); }
