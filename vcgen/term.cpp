#include "term.h"
#include <cmath>
#include <cstring>
#include <cfenv>
#include <algorithm>

static size_t hcomb(size_t h,size_t v){ return h^(v+0x9e3779b97f4a7c15ull+(h<<6)+(h>>2)); }
T TermMgr::mk(Op op, Sort s, std::vector<T> a, uint64_t val, const std::string&name){
  size_t h=hcomb((size_t)op,((size_t)s.k<<16)|s.w); h=hcomb(h,val); for(T x:a) h=hcomb(h,x->id);
  if(!name.empty()) h=hcomb(h,std::hash<std::string>()(name));
  auto r=tab.equal_range(h);
  for(auto it=r.first;it!=r.second;++it){ T t=it->second; if(t->op==op&&t->s==s&&t->val==val&&t->a==a&&t->name==name) return t; }
  Term*t=new Term; t->op=op;t->s=s;t->val=val;t->a=std::move(a);t->name=name;t->id=all.size()+1; all.push_back(t); tab.emplace(h,t); return t;
}
static T K(Op op,Sort s,std::vector<T> a,uint64_t v=0,const std::string&n=""){return TermMgr::g().mk(op,s,std::move(a),v,n);}
T mkVar(const std::string&n,Sort s){return K(Op::VAR,s,{},0,n);}
T mkFresh(const std::string&n,Sort s){return mkVar(n+"!"+std::to_string(TermMgr::g().fresh++),s);}
T mkBool(bool b){return K(Op::CONST,SBool(),{},b);}
T mkBV(uint64_t v,unsigned w){ if(w>64) { if(v==0||true){ // build wide constants by zero extension
      return mkConcat(mkBV(0,w-64),mkBV(v,64)); } } return K(Op::CONST,SBV(w),{},v&maskw(w)); }
static bool isNanBits(uint64_t b,Sort s){ if(s.k==Sk::F32) return (b&0x7fffffff)>0x7f800000; return (b&0x7fffffffffffffffull)>0x7ff0000000000000ull; }
T mkF(uint64_t bits,Sort s){ return K(Op::CONST,s,{},bits); }
static double fval(T t){ if(t->s.k==Sk::F32){ uint32_t u=t->val; float f; memcpy(&f,&u,4); return f;} double d; uint64_t u=t->val; memcpy(&d,&u,8); return d; }
static T fromD(double d,Sort s){ if(s.k==Sk::F32){ float f=(float)d; uint32_t u; memcpy(&u,&f,4); return mkF(u,s);} uint64_t u; memcpy(&u,&d,8); return mkF(u,s);}

T mkNot(T x){ if(isConst(x)) return mkBool(!x->val); if(x->op==Op::NOT) return x->a[0]; return K(Op::NOT,SBool(),{x}); }
static bool conjHas(T c,T x,int d=0){ if(c==x) return true; if(c->op==Op::AND&&d<40) return conjHas(c->a[0],x,d+1)||conjHas(c->a[1],x,d+1); return false; }
static bool disjHas(T c,T x,int d=0){ if(c==x) return true; if(c->op==Op::OR&&d<40) return disjHas(c->a[0],x,d+1)||disjHas(c->a[1],x,d+1); return false; }
T mkAnd(T x,T y){
  if(isFalse(x)||isFalse(y)) return mkBool(false); if(isTrue(x)) return y; if(isTrue(y)) return x; if(x==y) return x;
  T nx=mkNot(x), ny=mkNot(y); if(conjHas(x,ny)||conjHas(y,nx)) return mkBool(false);
  if(conjHas(x,y)) return x; if(conjHas(y,x)) return y;
  // x && (!x || z)  -> x && z
  if(y->op==Op::OR){ if(y->a[0]==nx) return mkAnd(x,y->a[1]); if(y->a[1]==nx) return mkAnd(x,y->a[0]); if(y->a[0]==x||y->a[1]==x) return x; }
  if(x->op==Op::OR){ if(x->a[0]==ny) return mkAnd(x->a[1],y); if(x->a[1]==ny) return mkAnd(x->a[0],y); if(x->a[0]==y||x->a[1]==y) return y; }
  if(x->id>y->id) std::swap(x,y); return K(Op::AND,SBool(),{x,y});
}
T mkOr(T x,T y){
  if(isTrue(x)||isTrue(y)) return mkBool(true); if(isFalse(x)) return y; if(isFalse(y)) return x; if(x==y) return x;
  T nx=mkNot(x), ny=mkNot(y); if(disjHas(x,ny)||disjHas(y,nx)) return mkBool(true);
  if(disjHas(x,y)) return x; if(disjHas(y,x)) return y;
  if(conjHas(x,y)) return y; if(conjHas(y,x)) return x;
  if(y->op==Op::AND){ if(y->a[0]==nx) return mkOr(x,y->a[1]); if(y->a[1]==nx) return mkOr(x,y->a[0]); }
  if(x->op==Op::AND){ if(x->a[0]==ny) return mkOr(x->a[1],y); if(x->a[1]==ny) return mkOr(x->a[0],y); }
  // (c&a)|(c&b) -> c&(a|b)
  if(x->op==Op::AND&&y->op==Op::AND){ for(int i=0;i<2;i++)for(int j=0;j<2;j++) if(x->a[i]==y->a[j]) return mkAnd(x->a[i],mkOr(x->a[1-i],y->a[1-j])); }
  if(x->id>y->id) std::swap(x,y); return K(Op::OR,SBool(),{x,y});
}
static bool iteConstArms(T t){ return t->op==Op::ITE && (isConst(t->a[1])||isConst(t->a[2])); }
static bool iteAllConst(T t,int d=0){ if(isConst(t)) return true; if(t->op!=Op::ITE||d>6) return false; return iteAllConst(t->a[1],d+1)&&iteAllConst(t->a[2],d+1); }
// constants wider than 64 bits are ZEXT/SEXT/CONCAT of constants
static bool wideC(T t,__int128&v){ if(t->s.k!=Sk::BV||t->s.w!=128) return false; if(t->op==Op::ZEXT&&isConst(t->a[0])){ v=(__int128)(unsigned __int128)t->a[0]->val; return true; } if(t->op==Op::SEXT&&isConst(t->a[0])){ v=sx(t->a[0]->val,t->a[0]->s.w); return true; } if(t->op==Op::CONCAT&&isConst(t->a[0])&&isConst(t->a[1])&&t->a[1]->s.w==64){ v=(__int128)(((unsigned __int128)t->a[0]->val<<64)|t->a[1]->val); return true; } return false; }
static T wideK(__int128 v){ return K(Op::CONCAT,SBV(128),{mkBV((uint64_t)((unsigned __int128)v>>64),64),mkBV((uint64_t)v,64)}); }
T mkEq(T x,T y){
  { __int128 a,b; if(x->s.k==Sk::BV&&x->s.w==128&&wideC(x,a)&&wideC(y,b)) return mkBool(a==b); }
  if(x==y) return mkBool(true); if(x->s!=y->s) throw Unsupported("mkEq sorts");
  if(isConst(x)&&isConst(y)){ if(isF(x->s)&&isNanBits(x->val,x->s)&&isNanBits(y->val,y->s)) return mkBool(true); return mkBool(x->val==y->val); }
  if(x->s.k==Sk::Bool){ if(isTrue(x)) return y; if(isTrue(y)) return x; if(isFalse(x)) return mkNot(y); if(isFalse(y)) return mkNot(x);
    if(mkNot(x)==y) return mkBool(false);
    if(x->op==Op::NOT&&y->op==Op::NOT) return mkEq(x->a[0],y->a[0]); }
  if(x->s.k==Sk::Ptr){
    if(x->op==Op::ITE) return mkIte(x->a[0],mkEq(x->a[1],y),mkEq(x->a[2],y));
    if(y->op==Op::ITE) return mkIte(y->a[0],mkEq(x,y->a[1]),mkEq(x,y->a[2]));
    if(x->op==Op::PTR&&y->op==Op::PTR){ if(x->val!=y->val) return mkBool(false); return mkEq(x->a[0],y->a[0]); } }
  if(x->op==Op::ITE&&y->op==Op::ITE&&x->a[0]==y->a[0]) return mkIte(x->a[0],mkEq(x->a[1],y->a[1]),mkEq(x->a[2],y->a[2]));
  if(isConst(x)) std::swap(x,y);
  if(isConst(y)&&x->s.k!=Sk::Ptr){
    if(x->op==Op::ITE&&iteConstArms(x)) return mkIte(x->a[0],mkEq(x->a[1],y),mkEq(x->a[2],y));
    if(x->op==Op::ZEXT){ unsigned w=x->a[0]->s.w; if(y->val>maskw(w)) return mkBool(false); return mkEq(x->a[0],mkBV(y->val,w)); }
    if(x->op==Op::ADD&&isConst(x->a[1])) return mkEq(x->a[0],mkBin(Op::SUB,y,x->a[1]));
    if(x->op==Op::CONCAT){ unsigned lw=x->a[1]->s.w; if(lw<64&&x->s.w<=64) return mkAnd(mkEq(x->a[0],mkBV(y->val>>lw,x->a[0]->s.w)),mkEq(x->a[1],mkBV(y->val,lw))); }
  }
  if(x->op==Op::CONCAT&&y->op==Op::CONCAT&&x->a[0]->s==y->a[0]->s) return mkAnd(mkEq(x->a[0],y->a[0]),mkEq(x->a[1],y->a[1]));
  if(x->op==Op::ITE&&(x->a[1]==y||x->a[2]==y)) return x->a[1]==y? mkOr(x->a[0],mkEq(x->a[2],y)) : mkOr(mkNot(x->a[0]),mkEq(x->a[1],y));
  if(y->op==Op::ITE&&(y->a[1]==x||y->a[2]==x)) return y->a[1]==x? mkOr(y->a[0],mkEq(y->a[2],x)) : mkOr(mkNot(y->a[0]),mkEq(y->a[1],x));
  if(x->id>y->id&&!isConst(y)) std::swap(x,y);
  return K(Op::EQ,SBool(),{x,y});
}
T mkIte(T c,T x,T y){
  if(isTrue(c)) return x; if(isFalse(c)) return y; if(x==y) return x; if(c->op==Op::NOT) return mkIte(c->a[0],y,x);
  if(x->s!=y->s) throw Unsupported("mkIte sorts "+show(x,3)+" | "+show(y,3));
  if(x->s.k==Sk::Bool){ if(isTrue(x)) return mkOr(c,y); if(isFalse(x)) return mkAnd(mkNot(c),y); if(isTrue(y)) return mkOr(mkNot(c),x); if(isFalse(y)) return mkAnd(c,x);
    if(x==c) return mkOr(c,y); if(y==c) return mkAnd(c,x); if(mkNot(x)==y) return mkEq(c,x); }
  if(x->op==Op::ITE&&x->a[0]==c) return mkIte(c,x->a[1],y);
  if(y->op==Op::ITE&&y->a[0]==c) return mkIte(c,x,y->a[2]);
  if(y->op==Op::ITE&&y->a[1]==x) return mkIte(mkOr(c,y->a[0]),x,y->a[2]);
  if(y->op==Op::ITE&&y->a[2]==x) return mkIte(mkAnd(mkNot(c),y->a[0]),y->a[1],x);
  if(x->op==Op::ITE&&x->a[2]==y) return mkIte(mkAnd(c,x->a[0]),x->a[1],y);
  if(x->op==Op::ITE&&x->a[1]==y) return mkIte(mkAnd(c,mkNot(x->a[0])),x->a[2],y);
  if(x->op==Op::PTR&&y->op==Op::PTR&&x->val==y->val) return mkPtr(x->val,mkIte(c,x->a[0],y->a[0]));
  if(c->op==Op::EQ && isConst(c->a[1]) && c->a[0]->s.k!=Sk::Bool && !isF(c->a[0]->s)){ if(x==c->a[1]&&y==c->a[0]) return y; }
  if(x->op==Op::ZEXT&&y->op==Op::ZEXT&&x->a[0]->s==y->a[0]->s) return mkZext(mkIte(c,x->a[0],y->a[0]),x->s.w);
  return K(Op::ITE,x->s,{c,x,y});
}
bool lessSigned(uint64_t a,uint64_t b,unsigned w){return sx(a,w)<sx(b,w);}
static bool commut(Op o){return o==Op::ADD||o==Op::MUL||o==Op::BAND||o==Op::BOR||o==Op::BXOR;}
T mkBin(Op op,T x,T y){
  { __int128 a,b; if(x->s.k==Sk::BV&&x->s.w==128&&(op==Op::ADD||op==Op::SUB||op==Op::MUL)&&wideC(x,a)&&wideC(y,b)){ unsigned __int128 p=a,q=b; return wideK((__int128)(op==Op::ADD?p+q:op==Op::SUB?p-q:p*q)); } }
  if(x->s!=y->s||x->s.k!=Sk::BV) throw Unsupported("mkBin sorts "+show(x)+" / "+show(y));
  unsigned w=x->s.w;
  if(w<=64&&isConst(x)&&isConst(y)){ uint64_t a=x->val,b=y->val,r=0; bool ok=true;
    switch(op){case Op::ADD:r=a+b;break;case Op::SUB:r=a-b;break;case Op::MUL:r=a*b;break;
      case Op::UDIV: if(b) r=a/b; else r=~0ull;break; case Op::UREM: r=b?a%b:a;break;
      case Op::SDIV: if(!b||(sx(b,w)==-1)) {ok=b!=0; if(ok) r=-a;} else r=sx(a,w)/sx(b,w);break;
      case Op::SREM: if(!b) r=a; else if(sx(b,w)==-1) r=0; else r=sx(a,w)%sx(b,w);break;
      case Op::BAND:r=a&b;break;case Op::BOR:r=a|b;break;case Op::BXOR:r=a^b;break;
      case Op::SHL: r=b>=w?0:a<<b;break; case Op::LSHR: r=b>=w?0:a>>b;break; case Op::ASHR: r=sx(a,w)>>(b>=w?w-1:b);if(w==64&&b>=64) r=sx(a,w)>>63;break; default:ok=false;}
    if(ok) return mkBV(r,w); }
  // distribute over ite whose arms are all constants (keeps index/flag arithmetic concrete)
  if(isConst(y)&&x->op==Op::ITE&&iteAllConst(x)) return mkIte(x->a[0],mkBin(op,x->a[1],y),mkBin(op,x->a[2],y));
  if(isConst(x)&&y->op==Op::ITE&&iteAllConst(y)) return mkIte(y->a[0],mkBin(op,x,y->a[1]),mkBin(op,x,y->a[2]));
  if(commut(op)){ if(isConst(x)||(!isConst(y)&&x->id>y->id)) std::swap(x,y); }
  if(w<=64&&isConst(y)){ uint64_t b=y->val;
    if(b==0){ if(op==Op::ADD||op==Op::SUB||op==Op::BOR||op==Op::BXOR||op==Op::SHL||op==Op::LSHR||op==Op::ASHR) return x; if(op==Op::MUL||op==Op::BAND) return y; }
    if(b==1){ if(op==Op::MUL||op==Op::UDIV||op==Op::SDIV) return x; if(op==Op::UREM) return mkBV(0,w); }
    if(b==maskw(w)){ if(op==Op::BAND) return x; if(op==Op::BOR) return y; }
    if(op==Op::SUB) return mkBin(Op::ADD,x,mkBV(-b,w));
    if(op==Op::ADD&&x->op==Op::ADD&&isConst(x->a[1])) return mkBin(Op::ADD,x->a[0],mkBV(x->a[1]->val+b,w));
    if(op==Op::MUL&&x->op==Op::MUL&&isConst(x->a[1])) return mkBin(Op::MUL,x->a[0],mkBV(x->a[1]->val*b,w));
    if(op==Op::SHL&&b<w) return mkBin(Op::MUL,x,mkBV(1ull<<b,w));
    if(op==Op::BAND&&x->op==Op::BAND&&isConst(x->a[1])) return mkBin(Op::BAND,x->a[0],mkBV(x->a[1]->val&b,w));
    if(op==Op::BXOR&&x->op==Op::BXOR&&isConst(x->a[1])) return mkBin(Op::BXOR,x->a[0],mkBV(x->a[1]->val^b,w));
    if(op==Op::BAND&&b!=0&&(b&(b+1))==0){ unsigned n=0; while((b>>n)&1) n++; if(n<w) return mkZext(mkExtract(x,n-1,0),w); }
    if(op==Op::LSHR&&b<w) return mkZext(mkExtract(x,w-1,b),w);
  }
  if(x==y){ if(op==Op::SUB||op==Op::BXOR) return mkBV(0,w); if(op==Op::BAND||op==Op::BOR) return x; }
  if(op==Op::SUB&&isConst(x)&&false) return nullptr;
  if(op==Op::SUB){ // (a+c)-a -> c ; (a+c1)-(a+c2)
    T xb=x,yb=y; uint64_t cx=0,cy=0; if(w<=64){ if(x->op==Op::ADD&&isConst(x->a[1])){xb=x->a[0];cx=x->a[1]->val;} if(y->op==Op::ADD&&isConst(y->a[1])){yb=y->a[0];cy=y->a[1]->val;} if(xb==yb) return mkBV(cx-cy,w);
      if(xb->op==Op::ADD&&(cx||cy||true)){ if(xb->a[0]==yb) return mkBin(Op::ADD,xb->a[1],mkBV(cx-cy,w)); if(xb->a[1]==yb) return mkBin(Op::ADD,xb->a[0],mkBV(cx-cy,w)); } } }
  if(op==Op::BOR&&x->op==Op::ZEXT){ // or of disjoint pieces -> concat
    if(y->op==Op::MUL&&isConst(y->a[1])&&w<=64){ uint64_t m=y->a[1]->val; if(m&&(m&(m-1))==0){ unsigned k=__builtin_ctzll(m); if(x->a[0]->s.w<=k&&k<w) return mkConcat(mkExtract(y->a[0],w-k-1,0),mkZext(x->a[0],k)); } } }
  if(op==Op::BOR&&y->op==Op::ZEXT&&x->op==Op::MUL) { if(isConst(x->a[1])&&w<=64){ uint64_t m=x->a[1]->val; if(m&&(m&(m-1))==0){ unsigned k=__builtin_ctzll(m); if(y->a[0]->s.w<=k&&k<w) return mkConcat(mkExtract(x->a[0],w-k-1,0),mkZext(y->a[0],k)); } } }
  return K(op,x->s,{x,y});
}
T mkCmp(Op op,T x,T y){
  unsigned w=x->s.w; if(x->s!=y->s||x->s.k!=Sk::BV) throw Unsupported("mkCmp sorts");
  if(x==y) return mkBool(op==Op::ULE||op==Op::SLE);
  if(w<=64&&isConst(x)&&isConst(y)){ uint64_t a=x->val,b=y->val; switch(op){case Op::ULT:return mkBool(a<b);case Op::ULE:return mkBool(a<=b);case Op::SLT:return mkBool(sx(a,w)<sx(b,w));default:return mkBool(sx(a,w)<=sx(b,w));} }
  if(isConst(y)&&x->op==Op::ITE&&iteAllConst(x)) return mkIte(x->a[0],mkCmp(op,x->a[1],y),mkCmp(op,x->a[2],y));
  if(isConst(x)&&y->op==Op::ITE&&iteAllConst(y)) return mkIte(y->a[0],mkCmp(op,x,y->a[1]),mkCmp(op,x,y->a[2]));
  if(w<=64){
    if(op==Op::ULT&&isConst(y)&&y->val==0) return mkBool(false);
    if(op==Op::ULE&&isConst(x)&&x->val==0) return mkBool(true);
    if(op==Op::ULE&&isConst(y)&&y->val==maskw(w)) return mkBool(true);
    if(op==Op::ULE&&isConst(y)) return mkCmp(Op::ULT,x,mkBV(y->val+1,w));
    if(op==Op::ULE) return mkNot(mkCmp(Op::ULT,y,x));
    if(op==Op::SLE&&isConst(y)&&y->val!=(maskw(w)>>1)) return mkCmp(Op::SLT,x,mkBV(y->val+1,w));
    if(op==Op::SLE&&isConst(y)) return mkBool(true);
    if(op==Op::SLE) return mkNot(mkCmp(Op::SLT,y,x));
    if((op==Op::SLT)&&x->op==Op::ZEXT&&isConst(y)&&sx(y->val,w)<=0) return mkBool(false);
    if(op==Op::SLT&&y->op==Op::ZEXT&&isConst(x)&&sx(x->val,w)<0) return mkBool(true);
    if(op==Op::SLT&&x->op==Op::SEXT&&isConst(y)){ unsigned v=x->a[0]->s.w; int64_t c=sx(y->val,w); if(c>=-(1ll<<(v-1))&&c<(1ll<<(v-1))) return mkCmp(op,x->a[0],mkBV(c,v)); }
    if(op==Op::SLT&&y->op==Op::SEXT&&isConst(x)){ unsigned v=y->a[0]->s.w; int64_t c=sx(x->val,w); if(c>=-(1ll<<(v-1))&&c<(1ll<<(v-1))) return mkCmp(op,mkBV(c,v),y->a[0]); }
    if(op==Op::SLT&&x->op==Op::SEXT&&y->op==Op::SEXT&&x->a[0]->s==y->a[0]->s) return mkCmp(op,x->a[0],y->a[0]);
    if(op==Op::ULT&&x->op==Op::ZEXT&&y->op==Op::ZEXT&&x->a[0]->s==y->a[0]->s) return mkCmp(op,x->a[0],y->a[0]);
    if(op==Op::ULT&&x->op==Op::ZEXT&&isConst(y)){ unsigned v=x->a[0]->s.w; if(y->val>maskw(v)) return mkBool(true); return mkCmp(op,x->a[0],mkBV(y->val,v)); }
  }
  return K(op,SBool(),{x,y});
}
T mkConcat(T hi,T lo){
  unsigned w=hi->s.w+lo->s.w;
  if(w<=64&&isConst(hi)&&isConst(lo)) return mkBV((hi->val<<lo->s.w)|lo->val,w);
  if(hi->op==Op::EXTRACT&&lo->op==Op::EXTRACT&&hi->a[0]==lo->a[0]&&(unsigned)(hi->val&0xffff)==(unsigned)(lo->val>>16)+1)
    return mkExtract(hi->a[0],hi->val>>16,lo->val&0xffff);
  if(hi->op==Op::EXTRACT&&lo->op==Op::CONCAT&&lo->a[0]->op==Op::EXTRACT&&hi->a[0]==lo->a[0]->a[0]&&(hi->val&0xffff)==(lo->a[0]->val>>16)+1)
    return mkConcat(mkConcat(hi,lo->a[0]),lo->a[1]);
  if(isConst(hi)&&hi->val==0) return mkZext(lo,w);
  if(hi->op==Op::CONCAT) return mkConcat(hi->a[0],mkConcat(hi->a[1],lo)); // right-nested
  return K(Op::CONCAT,SBV(w),{hi,lo});
}
T mkExtract(T x,unsigned hi,unsigned lo){
  unsigned w=x->s.w; if(x->s.k!=Sk::BV||hi>=w||lo>hi) throw Unsupported("mkExtract");
  if(lo==0&&hi==w-1) return x; unsigned nw=hi-lo+1;
  if(isConst(x)) return mkBV(x->val>>lo,nw);
  switch(x->op){
    case Op::EXTRACT: { unsigned l0=x->val&0xffff; return mkExtract(x->a[0],hi+l0,lo+l0); }
    case Op::CONCAT: { unsigned lw=x->a[1]->s.w; if(hi<lw) return mkExtract(x->a[1],hi,lo); if(lo>=lw) return mkExtract(x->a[0],hi-lw,lo-lw);
        return mkConcat(mkExtract(x->a[0],hi-lw,0),mkExtract(x->a[1],lw-1,lo)); }
    case Op::ZEXT: { unsigned v=x->a[0]->s.w; if(hi<v) return mkExtract(x->a[0],hi,lo); if(lo>=v) return mkBV(0,nw>64?64:nw); return mkZext(mkExtract(x->a[0],v-1,lo),nw); }
    case Op::SEXT: { unsigned v=x->a[0]->s.w; if(hi<v) return mkExtract(x->a[0],hi,lo); if(lo<v) return mkSext(mkExtract(x->a[0],v-1,lo),nw); break; }
    case Op::ITE: if(iteConstArms(x)||x->a[1]->op==Op::ZEXT||x->a[2]->op==Op::ZEXT||x->a[1]->op==Op::CONCAT||x->a[2]->op==Op::CONCAT||x->a[1]->op==Op::ITE||x->a[2]->op==Op::ITE) return mkIte(x->a[0],mkExtract(x->a[1],hi,lo),mkExtract(x->a[2],hi,lo)); break;
    case Op::BAND: case Op::BOR: case Op::BXOR: return mkBin(x->op,mkExtract(x->a[0],hi,lo),mkExtract(x->a[1],hi,lo));
    case Op::ADD: case Op::SUB: case Op::MUL: if(lo==0&&nw<=64) return mkBin(x->op,mkExtract(x->a[0],hi,0),mkExtract(x->a[1],hi,0)); break;
    default: break;
  }
  return K(Op::EXTRACT,SBV(nw),{x},((uint64_t)hi<<16)|lo);
}
T mkZext(T x,unsigned w){ if(x->s.w==w) return x; if(x->s.w>w) throw Unsupported("zext"); if(isConst(x)&&w<=64) return mkBV(x->val,w);
  if(x->op==Op::ZEXT) return mkZext(x->a[0],w); if(x->op==Op::ITE&&iteAllConst(x)&&w<=64) return mkIte(x->a[0],mkZext(x->a[1],w),mkZext(x->a[2],w));
  return K(Op::ZEXT,SBV(w),{x}); }
T mkSext(T x,unsigned w){ if(x->s.w==w) return x; if(isConst(x)&&w<=64) return mkBV((uint64_t)sx(x->val,x->s.w),w);
  if(x->op==Op::ZEXT) return mkZext(x->a[0],w); if(x->op==Op::SEXT) return mkSext(x->a[0],w); if(x->op==Op::ITE&&iteAllConst(x)&&w<=64) return mkIte(x->a[0],mkSext(x->a[1],w),mkSext(x->a[2],w));
  return K(Op::SEXT,SBV(w),{x}); }
T mkB2BV(T b,unsigned w){ return mkIte(b,mkBV(1,w),mkBV(0,w)); }
T mkBV2B(T v){ T l=mkExtract(v,0,0); return mkEq(l,mkBV(1,1)); }

// ---- floating point
static bool nanC(T t){return isConst(t)&&isNanBits(t->val,t->s);}
static T NaN(Sort s){ return mkF(s.k==Sk::F32?0x7fc00000ull:0x7ff8000000000000ull,s); }
static uint64_t signBit(Sort s){return s.k==Sk::F32?0x80000000ull:0x8000000000000000ull;}
static uint64_t oneBits(Sort s){return s.k==Sk::F32?0x3f800000ull:0x3ff0000000000000ull;}
static bool fitsExact(Op op,T x,T y,T&out){ // fold only when the operation is exact, or produces nan/inf
  Sort s=x->s; std::feclearexcept(FE_ALL_EXCEPT); double r;
  if(s.k==Sk::F32){ volatile float a=fval(x),b=fval(y),q; switch(op){case Op::FADD:q=a+b;break;case Op::FSUB:q=a-b;break;case Op::FMUL:q=a*b;break;case Op::FDIV:q=a/b;break;default:return false;} r=q; }
  else { volatile double a=fval(x),b=fval(y),q; switch(op){case Op::FADD:q=a+b;break;case Op::FSUB:q=a-b;break;case Op::FMUL:q=a*b;break;case Op::FDIV:q=a/b;break;default:return false;} r=q; }
  if(std::fetestexcept(FE_INEXACT|FE_OVERFLOW|FE_UNDERFLOW)) return false;
  if(std::isnan(r)) {out=NaN(s);return true;} out=fromD(r,s); return true; }
T mkFBin(Op op,T x,T y){
  Sort s=x->s; if(!isF(s)||x->s!=y->s) throw Unsupported("mkFBin");
  if(nanC(x)||nanC(y)) return NaN(s);
  if(isConst(x)&&isConst(y)){ T o; if(fitsExact(op,x,y,o)) return o; }
  if(op==Op::FSUB&&y->op==Op::FNEG) return mkFBin(Op::FADD,x,y->a[0]);
  if(op==Op::FADD&&y->op==Op::FNEG) return mkFBin(Op::FSUB,x,y->a[0]);
  if(op==Op::FADD&&x->op==Op::FNEG) return mkFBin(Op::FSUB,y,x->a[0]);
  if(op==Op::FMUL){ if(isConst(x)) std::swap(x,y); if(isConst(y)){ if(y->val==oneBits(s)) return x; if(y->val==(oneBits(s)|signBit(s))) return mkFNeg(x);} 
    if(x->op==Op::FNEG&&y->op==Op::FNEG) return mkFBin(op,x->a[0],y->a[0]); if(x->op==Op::FNEG) return mkFNeg(mkFBin(op,x->a[0],y)); if(y->op==Op::FNEG) return mkFNeg(mkFBin(op,x,y->a[0])); }
  if(op==Op::FDIV){ if(isConst(y)){ if(y->val==oneBits(s)) return x; if(y->val==(oneBits(s)|signBit(s))) return mkFNeg(x);} 
    if(x->op==Op::FNEG&&y->op==Op::FNEG) return mkFBin(op,x->a[0],y->a[0]); if(x->op==Op::FNEG) return mkFNeg(mkFBin(op,x->a[0],y)); if(y->op==Op::FNEG) return mkFNeg(mkFBin(op,x,y->a[0])); }
  if(op==Op::FADD){ if(isConst(x)) std::swap(x,y); if(isConst(y)&&y->val==signBit(s)) return x; }
  if(op==Op::FSUB&&isConst(y)&&y->val==0) return x;
  if(op==Op::FSUB&&isConst(x)&&x->val==signBit(s)) return mkFNeg(y);
  if((op==Op::FADD||op==Op::FMUL)&&!isConst(y)&&x->id>y->id) std::swap(x,y);
  return K(op,s,{x,y});
}
T mkFNeg(T x){ if(isConst(x)) return mkF(x->val^signBit(x->s),x->s); if(x->op==Op::FNEG) return x->a[0]; return K(Op::FNEG,x->s,{x}); }
T mkFAbs(T x){ if(isConst(x)) return mkF(x->val&~signBit(x->s),x->s); if(x->op==Op::FNEG) return mkFAbs(x->a[0]); if(x->op==Op::FABS) return x; return K(Op::FABS,x->s,{x}); }
T mkFSqrt(T x){ if(isConst(x)){ double r=std::sqrt(fval(x)); if(std::isnan(r)) return NaN(x->s); T c=fromD(r,x->s); double rr=fval(c); if(rr*rr==fval(x)&&std::fma(rr,rr,-fval(x))==0) return c; } return K(Op::FSQRT,x->s,{x}); }
T mkFma(T x,T y,T z){ if(y->id<x->id) std::swap(x,y); return K(Op::FMA,x->s,{x,y,z}); }
T mkRti(unsigned mode,T x){ // 0 RNE 1 RNA 2 RTP 3 RTN 4 RTZ
  if(isConst(x)){ double d=fval(x),r; switch(mode){case 0:r=std::nearbyint(d);break;case 1:r=std::round(d);break;case 2:r=std::ceil(d);break;case 3:r=std::floor(d);break;default:r=std::trunc(d);} if(nanC(x)) return NaN(x->s); return fromD(r,x->s);} 
  if(x->op==Op::FRTI) return x;
  return K(Op::FRTI,x->s,{x},mode); }
T mkIsNan(T x){ if(isConst(x)) return mkBool(nanC(x)); if(x->op==Op::FNEG||x->op==Op::FABS||x->op==Op::FRTI||x->op==Op::FCVT) return mkIsNan(x->a[0]);
  if(x->op==Op::SITOF||x->op==Op::UITOF) return mkBool(false);
  if(x->op==Op::ITE) return mkIte(x->a[0],mkIsNan(x->a[1]),mkIsNan(x->a[2]));
  return K(Op::FISNAN,SBool(),{x}); }
T mkFCmp(Op op,T x,T y){
  if(x->s!=y->s) throw Unsupported("mkFCmp sorts");
  if(nanC(x)||nanC(y)) return mkBool(false);
  if(isConst(x)&&isConst(y)){ double a=fval(x),b=fval(y); return mkBool(op==Op::FEQ?a==b:op==Op::FLT?a<b:a<=b); }
  if(x==y) return op==Op::FLT?mkBool(false):mkNot(mkIsNan(x));
  if(x->op==Op::ITE&&iteAllConst(x)&&isConst(y)) return mkIte(x->a[0],mkFCmp(op,x->a[1],y),mkFCmp(op,x->a[2],y));
  if(y->op==Op::ITE&&iteAllConst(y)&&isConst(x)) return mkIte(y->a[0],mkFCmp(op,x,y->a[1]),mkFCmp(op,x,y->a[2]));
  if(op==Op::FEQ&&(isConst(x)||(!isConst(y)&&x->id>y->id))) std::swap(x,y);
  // canonical zero sign in comparisons
  if(isConst(y)&&y->val==signBit(y->s)) y=mkF(0,y->s); if(isConst(x)&&x->val==signBit(x->s)) x=mkF(0,x->s);
  if(x->op==Op::FNEG&&isConst(y)){ T ny=mkFNeg(y); return op==Op::FEQ?mkFCmp(op,x->a[0],ny):mkFCmp(op,ny,x->a[0]); }
  if(y->op==Op::FNEG&&isConst(x)){ T nx=mkFNeg(x); return op==Op::FEQ?mkFCmp(op,y->a[0],nx):mkFCmp(op,y->a[0],nx); }
  return K(op,SBool(),{x,y});
}
T mkFcvt(T x,Sort s){ if(x->s==s) return x; if(isConst(x)){ if(nanC(x)) return NaN(s); T c=fromD(fval(x),s); if(fval(c)==fval(x)) return c; } 
  if(x->op==Op::FCVT&&x->s.k==Sk::F64&&x->a[0]->s==s) return x->a[0]; // f32->f64->f32
  if(s.k==Sk::F64&&x->op==Op::FNEG) return mkFNeg(mkFcvt(x->a[0],s));
  return K(Op::FCVT,s,{x}); }
T mkIToF(Op op,T x,Sort s){ if(isConst(x)){ unsigned w=x->s.w; if(op==Op::SITOF){ int64_t v=sx(x->val,w); double d=(double)v; if(std::llabs(v)<(1ll<<24)) return fromD(d,s);} else if(x->val<(1ull<<24)) return fromD((double)x->val,s); }
  if(x->op==Op::ITE&&iteAllConst(x)) return mkIte(x->a[0],mkIToF(op,x->a[1],s),mkIToF(op,x->a[2],s));
  // converting back an in-range (a separate obligation) truncating conversion from the same type gives the truncated value, zero being +0
  if(op==Op::SITOF&&x->op==Op::FTOSI&&x->a[0]->s==s){ T r=mkRti(4,x->a[0]); return mkIte(mkFCmp(Op::FEQ,r,mkF(0,s)),mkF(0,s),r); }
  return K(op,s,{x}); }
T mkFToI(Op op,T x,unsigned w){ if(isConst(x)){ double d=std::trunc(fval(x)); if(op==Op::FTOSI&&std::fabs(d)<1e15&&(w==64||std::fabs(d)<std::ldexp(1,w-1))) return mkBV((uint64_t)(int64_t)d,w); if(op==Op::FTOUI&&d>=0&&d<1e15&&(w==64||d<std::ldexp(1,w))) return mkBV((uint64_t)d,w); }
  if(x->op==Op::ITE&&iteAllConst(x)) return mkIte(x->a[0],mkFToI(op,x->a[1],w),mkFToI(op,x->a[2],w));
  return K(op,SBV(w),{x}); }
T mkBits2F(T b){ Sort s=b->s.w==32?SF32():b->s.w==64?SF64():throw Unsupported("bits2f width"); if(isConst(b)) return mkF(b->val,s); if(b->op==Op::F2BITS&&b->a[0]->s==s) return b->a[0];
  if(b->op==Op::ITE) return mkIte(b->a[0],mkBits2F(b->a[1]),mkBits2F(b->a[2]));
  return K(Op::BITS2F,s,{b}); }
T mkF2Bits(T f){ unsigned w=f->s.w; if(isConst(f)) return mkBV(f->val,w); if(f->op==Op::BITS2F) return f->a[0];
  if(f->op==Op::FNEG) return mkBin(Op::BXOR,mkF2Bits(f->a[0]),mkBV(signBit(f->s),w));
  if(f->op==Op::FABS) return mkBin(Op::BAND,mkF2Bits(f->a[0]),mkBV(signBit(f->s)-1,w));
  if(f->op==Op::ITE) return mkIte(f->a[0],mkF2Bits(f->a[1]),mkF2Bits(f->a[2]));
  return K(Op::F2BITS,SBV(w),{f}); }
T mkUF(const std::string&n,Sort s,std::vector<T> a){ return K(Op::UF,s,std::move(a),0,n); }
T mkReq(T x,T y){ if(x==y) return mkBool(true); if(x->id>y->id) std::swap(x,y); return K(Op::REQ,SBool(),{x,y}); }
T mkPtr(uint64_t o,T off){ return K(Op::PTR,SPtr(),{off},o); }

static const char*opn[]={"var","const","ptr","not","and","or","=","ite","add","sub","mul","udiv","sdiv","urem","srem","band","bor","bxor","shl","lshr","ashr","concat","extract","zext","sext","ult","ule","slt","sle","fadd","fsub","fmul","fdiv","frem","fneg","fabs","fsqrt","fma","frti","feq","flt","fle","isnan","fcvt","sitof","uitof","ftosi","ftoui","bits2f","f2bits","uf","req"};
std::string show(T t,int d){
  if(t->op==Op::VAR) return t->name; if(t->op==Op::CONST){ if(isF(t->s)) return std::to_string(fval(t)); if(t->s.k==Sk::Bool) return t->val?"true":"false"; return std::to_string(sx(t->val,t->s.w)); }
  if(d==0) return "...";
  std::string r="("+std::string(opn[(int)t->op]); if(t->op==Op::UF) r+=":"+t->name; if(t->op==Op::PTR||t->op==Op::FRTI) r+=std::to_string(t->val); if(t->op==Op::EXTRACT) r+="["+std::to_string(t->val>>16)+":"+std::to_string(t->val&0xffff)+"]";
  for(T x:t->a) r+=" "+show(x,d-1); return r+")"; }
