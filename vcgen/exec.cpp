// Symbolic strongest-postcondition computation over LLVM IR (clang -O0 output).
#include "exec.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IR/Dominators.h>
#include <algorithm>
#include <cmath>
#include <cstring>
#include <iostream>
using namespace llvm;

std::string demangle(const std::string&s){ return llvm::demangle(s); }

struct FnInfo { std::map<const Value*,unsigned> num; std::map<const BasicBlock*,const BasicBlock*> ipdom; std::map<const BasicBlock*,bool> loop;
  bool inLoop(const BasicBlock*b){ auto it=loop.find(b); if(it!=loop.end()) return it->second; std::set<const BasicBlock*> seen; std::vector<const BasicBlock*> w{b}; bool r=false; while(!w.empty()&&!r){ auto*x=w.back(); w.pop_back(); for(auto*q:successors(x)){ if(q==b) r=true; if(seen.insert(q).second) w.push_back(q); } } return loop[b]=r; } };
struct Frame { const Function*f; FnInfo*fi; Exec::Rets* rets; std::vector<State>* unw; std::vector<uint64_t> allocas; std::map<const BasicBlock*,int> symVisits; };

static std::shared_ptr<FnInfo> analyse(const Function*f){
  auto fi=std::make_shared<FnInfo>(); unsigned n=0;
  for(auto&a:f->args()) fi->num[&a]=n++;
  for(auto&b:*f) for(auto&i:b) if(!i.getType()->isVoidTy()) fi->num[&i]=n++;
  // post-dominators w.r.t. normal returns only
  std::vector<const BasicBlock*> bl; std::map<const BasicBlock*,int> ix; for(auto&b:*f){ix[&b]=bl.size();bl.push_back(&b);}
  int N=bl.size(); std::vector<char> reach(N,0); std::vector<int> wl; for(int i=0;i<N;i++) if(isa<ReturnInst>(bl[i]->getTerminator())){reach[i]=1;wl.push_back(i);}
  while(!wl.empty()){int i=wl.back();wl.pop_back();for(auto*p:predecessors(bl[i])){int j=ix[p];if(!reach[j]){reach[j]=1;wl.push_back(j);}}}
  std::vector<std::vector<bool>> pd(N+1,std::vector<bool>(N,true)); bool ch=true;
  for(int i=0;i<N;i++) if(isa<ReturnInst>(bl[i]->getTerminator())){ std::fill(pd[i].begin(),pd[i].end(),false); pd[i][i]=true; }
  while(ch){ ch=false; for(int i=N-1;i>=0;i--) if(reach[i]&&!isa<ReturnInst>(bl[i]->getTerminator())){ std::vector<bool> m(N,true); bool any=false; for(auto*s:successors(bl[i])){int j=ix[s]; if(!reach[j]) continue; any=true; for(int k=0;k<N;k++) m[k]=m[k]&&pd[j][k];} if(!any) continue; m[i]=true; if(m!=pd[i]){pd[i]=m;ch=true;} } }
  for(int i=0;i<N;i++) if(reach[i]){ // immediate = the strict postdominator postdominated by all other strict ones
    const BasicBlock*best=nullptr; size_t bc=0; for(int k=0;k<N;k++) if(k!=i&&pd[i][k]&&reach[k]){ size_t c=std::count(pd[k].begin(),pd[k].end(),true); if(!best||c>bc){best=bl[k];bc=c;} } fi->ipdom[bl[i]]=best; }
  return fi;
}

// ------------------------------------------------------------------ path conditions
std::vector<T> Exec::pcv(const PC&p){ std::vector<T> v; for(auto q=p;q;q=q->up) v.push_back(q->lit); std::reverse(v.begin(),v.end()); return v; }
void Exec::assume(State&s,T c){ c=known(s,c); if(isTrue(c)) return; if(isFalse(c)){s.dead=true;return;} if(c->op==Op::AND){ assume(s,c->a[0]); if(!s.dead) assume(s,c->a[1]); return;} auto n=std::make_shared<PCN>(); n->up=s.pc;n->lit=c;n->depth=s.pc?s.pc->depth+1:1; s.pc=n; }
T Exec::known(State&s,T c){ if(isConst(c)) return c; T nc=mkNot(c); for(auto q=s.pc;q;q=q->up){ if(q->lit==c) return mkBool(true); if(q->lit==nc) return mkBool(false);
    if(q->lit->op==Op::OR){ // disjunction all of whose arms contain c, or nc
      T d=q->lit; (void)d; } }
  if(c->op==Op::AND){ T a=known(s,c->a[0]),b=known(s,c->a[1]); if(a!=c->a[0]||b!=c->a[1]) return mkAnd(a,b);} 
  if(c->op==Op::OR){ T a=known(s,c->a[0]),b=known(s,c->a[1]); if(a!=c->a[0]||b!=c->a[1]) return mkOr(a,b);} 
  if(c->op==Op::NOT){ T a=known(s,c->a[0]); if(a!=c->a[0]) return mkNot(a);} 
  return c; }
bool Exec::infeasible(State&s,T c){ if(!feasible) return false; auto v=pcv(s.pc); v.push_back(c); feasQueries++; return feasible(v)==0; }
std::string Exec::where(){ std::string r; int n=0; for(auto it=stack.rbegin();it!=stack.rend()&&n<3;++it,++n){ std::string d=demangle((*it)->getName().str()); if(d.size()>140) d=d.substr(0,140)+"..."; r+=(n?" <- ":"")+d; } return r; }
bool gSafetyOnly=false;
void Exec::oblige(State&s,const std::string&kind,T cond,const std::string&label,bool real){
  if(gSafetyOnly&&kind=="ensures") return;
  T c=known(s,cond); 
  if(isTrue(c)){ structural++; if(kind=="ensures"){ Obligation o; o.kind=kind;o.label=label;o.where="";o.cond=mkBool(true);o.real=real; obls.push_back(o);} return; }
  Obligation o; o.kind=kind;o.label=label;o.where=where();o.hyp=pcv(s.pc);o.cond=c;o.real=real; o.round=real&&roundMode; o.ibb=ibbMode; obls.push_back(o); assume(s,cond); }

// ------------------------------------------------------------------ types, values
Sort Exec::sortOf(Type*ty){ if(ty->isIntegerTy(1)) return SBool(); if(ty->isIntegerTy()) return SBV(ty->getIntegerBitWidth()); if(ty->isFloatTy()) return SF32(); if(ty->isDoubleTy()) return SF64(); if(ty->isPointerTy()) return SPtr(); std::string s; raw_string_ostream o(s); ty->print(o); throw Unsupported("type "+o.str()); }
Val Exec::undef(Type*ty){ Val v; if(ty->isStructTy()||ty->isArrayTy()||ty->isVectorTy()){ v.agg=std::make_shared<std::vector<Val>>(); unsigned n=ty->isStructTy()?ty->getStructNumElements():ty->isArrayTy()?ty->getArrayNumElements():cast<FixedVectorType>(ty)->getNumElements(); for(unsigned i=0;i<n;i++) v.agg->push_back(undef(ty->isStructTy()?ty->getStructElementType(i):ty->isArrayTy()?ty->getArrayElementType():cast<FixedVectorType>(ty)->getElementType())); return v; }
  Sort s=sortOf(ty); if(s.k==Sk::Ptr) v.t=mkPtr(0xdeadull<<32,mkBV(0,64)); else v.t=mkFresh("undef",s); return v; }
uint64_t Exec::newObj(State&s,uint64_t size,const std::string&name){ uint64_t id=nextObj++; auto o=std::make_shared<Object>(); o->size=size;o->name=name; s.mem[id]=o; objname[id]=name; objSize[id]=size; return id; }
uint64_t Exec::globalObj(const GlobalValue*g){ auto it=gobj.find(g); if(it!=gobj.end()) return it->second; uint64_t id=nextObj++; gobj[g]=id; objname[id]=g->getName().str();
  if(auto*f=dyn_cast<Function>(g)){ fobj[id]=f; objSize[id]=1; return id; }
  auto*gv=cast<GlobalVariable>(g); gvobj[id]=gv; auto o=std::make_shared<Object>(); o->size=DL.getTypeAllocSize(gv->getValueType()); o->name=objname[id]; o->isConst=gv->isConstant(); objSize[id]=o->size; globals0[id]=o;
  if(gv->hasInitializer()) initCells(*o,0,gv->getInitializer());
  return id; }
void Exec::initCells(Object&o,uint64_t off,const Constant*c){ Type*ty=c->getType();
  if(isa<UndefValue>(c)) return;
  if(c->isNullValue()){ if(ty->isAggregateType()||ty->isVectorTy()){ uint64_t n=DL.getTypeAllocSize(ty);
      if(auto*st=dyn_cast<StructType>(ty)){ auto*sl=DL.getStructLayout(st); for(unsigned i=0;i<st->getNumElements();i++) initCells(o,off+sl->getElementOffset(i),Constant::getNullValue(st->getElementType(i))); }
      else if(auto*at=dyn_cast<ArrayType>(ty)){ uint64_t es=DL.getTypeAllocSize(at->getElementType()); for(uint64_t i=0;i<at->getNumElements();i++) initCells(o,off+i*es,Constant::getNullValue(at->getElementType())); } 
      else for(uint64_t i=0;i<n;i++) o.cells[off+i]={1,mkBV(0,8)}; return; } }
  if(auto*cs=dyn_cast<ConstantStruct>(c)){ auto*sl=DL.getStructLayout(cs->getType()); for(unsigned i=0;i<cs->getNumOperands();i++) initCells(o,off+sl->getElementOffset(i),cs->getOperand(i)); return; }
  if(auto*ca=dyn_cast<ConstantArray>(c)){ uint64_t es=DL.getTypeAllocSize(ca->getType()->getElementType()); for(unsigned i=0;i<ca->getNumOperands();i++) initCells(o,off+i*es,ca->getOperand(i)); return; }
  if(auto*cd=dyn_cast<ConstantDataSequential>(c)){ uint64_t es=DL.getTypeAllocSize(cd->getElementType()); for(unsigned i=0;i<cd->getNumElements();i++) initCells(o,off+i*es,cd->getElementAsConstant(i)); return; }
  Val v=evalC(c); if(v.agg) throw Unsupported("const aggregate init"); unsigned sz=DL.getTypeStoreSize(ty); T t=v.t; if(t->s.k==Sk::Bool) t=mkB2BV(t,8); if(t->s.k==Sk::BV&&t->s.w<sz*8) t=mkZext(t,sz*8); o.cells[off]={sz,t}; }

T Exec::ptrAdd(T p,T off){ if(p->op==Op::ITE) return mkIte(p->a[0],ptrAdd(p->a[1],off),ptrAdd(p->a[2],off)); if(p->op!=Op::PTR) throw Unsupported("ptrAdd on "+show(p,3)); return mkPtr(p->val,mkBin(Op::ADD,p->a[0],off)); }
std::vector<std::pair<T,T>> Exec::cases(T p){ std::vector<std::pair<T,T>> r; if(p->op==Op::PTR){ r.push_back({mkBool(true),p}); return r; } if(p->op!=Op::ITE) throw Unsupported("pointer term "+show(p,3));
  for(auto&c:cases(p->a[1])) r.push_back({mkAnd(p->a[0],c.first),c.second}); for(auto&c:cases(p->a[2])) r.push_back({mkAnd(mkNot(p->a[0]),c.first),c.second}); return r; }
// flat address: objects are laid out disjointly (object ids scaled); null is 0
T Exec::addr(T p){ if(p->op==Op::ITE) return mkIte(p->a[0],addr(p->a[1]),addr(p->a[2])); if(p->op!=Op::PTR) throw Unsupported("addr"); if(p->val==0) return p->a[0]; return mkBin(Op::ADD,p->a[0],mkBV(0x10000000ull+p->val*0x10000ull,64)); }

Val Exec::mapBin(const Val&a,const Val&b,std::function<T(T,T)>f){ Val r; if(a.agg){ r.agg=std::make_shared<std::vector<Val>>(); for(size_t i=0;i<a.agg->size();i++) r.agg->push_back(mapBin((*a.agg)[i],(*b.agg)[i],f)); } else r.t=f(a.t,b.t); return r; }
Val Exec::mapUn(const Val&a,std::function<T(T)>f){ Val r; if(a.agg){ r.agg=std::make_shared<std::vector<Val>>(); for(auto&x:*a.agg) r.agg->push_back(mapUn(x,f)); } else r.t=f(a.t); return r; }
static Val V(T t){ Val v; v.t=t; return v; }

static T asBV(T t){ if(t->s.k==Sk::Bool) return mkB2BV(t,1); return t; }
static T asBool(T t){ return mkEq(t,mkBV(1,1)); }
static T intBin(unsigned opc,T a,T b){ bool bo=a->s.k==Sk::Bool;
  if(bo){ switch(opc){ case Instruction::And: return mkAnd(a,b); case Instruction::Or: return mkOr(a,b); case Instruction::Xor: return mkNot(mkEq(a,b)); default: a=asBV(a);b=asBV(b);} }
  T r; switch(opc){ case Instruction::Add:r=mkBin(Op::ADD,a,b);break;case Instruction::Sub:r=mkBin(Op::SUB,a,b);break;case Instruction::Mul:r=mkBin(Op::MUL,a,b);break;case Instruction::UDiv:r=mkBin(Op::UDIV,a,b);break;case Instruction::SDiv:r=mkBin(Op::SDIV,a,b);break;case Instruction::URem:r=mkBin(Op::UREM,a,b);break;case Instruction::SRem:r=mkBin(Op::SREM,a,b);break;case Instruction::And:r=mkBin(Op::BAND,a,b);break;case Instruction::Or:r=mkBin(Op::BOR,a,b);break;case Instruction::Xor:r=mkBin(Op::BXOR,a,b);break;case Instruction::Shl:r=mkBin(Op::SHL,a,b);break;case Instruction::LShr:r=mkBin(Op::LSHR,a,b);break;case Instruction::AShr:r=mkBin(Op::ASHR,a,b);break; default: throw Unsupported("int binop"); }
  return bo?asBool(r):r; }
static T castOp(Exec&E,unsigned opc,T x,Type*to){ Sort d=E.sortOf(to);
  switch(opc){
    case Instruction::Trunc: if(x->s.k==Sk::Bool) return x; if(d.k==Sk::Bool) return mkBV2B(x); return mkExtract(x,d.w-1,0);
    case Instruction::ZExt: if(x->s.k==Sk::Bool) return mkB2BV(x,d.w); return mkZext(x,d.w);
    case Instruction::SExt: if(x->s.k==Sk::Bool) return mkIte(x,mkBV(~0ull,d.w),mkBV(0,d.w)); return mkSext(x,d.w);
    case Instruction::FPExt: case Instruction::FPTrunc: return mkFcvt(x,d);
    case Instruction::SIToFP: return mkIToF(Op::SITOF,x->s.k==Sk::Bool?mkIte(x,mkBV(~0ull,8),mkBV(0,8)):x,d);
    case Instruction::UIToFP: return mkIToF(Op::UITOF,x->s.k==Sk::Bool?mkB2BV(x,8):x,d);
    case Instruction::FPToSI: return mkFToI(Op::FTOSI,x,d.w); case Instruction::FPToUI: return mkFToI(Op::FTOUI,x,d.w);
    case Instruction::BitCast: if(x->s==d) return x; if(isF(x->s)&&d.k==Sk::BV) return mkF2Bits(x); if(x->s.k==Sk::BV&&isF(d)) return mkBits2F(x); throw Unsupported("bitcast");
    case Instruction::PtrToInt: { T a=E.addr(x); return d.w==64?a:mkExtract(a,d.w-1,0); }
    case Instruction::IntToPtr: if(isConst(x)&&x->val==0) return mkNull(); throw Unsupported("inttoptr");
    default: throw Unsupported("cast"); } }
static T icmp(Exec&E,CmpInst::Predicate p,T a,T b){
  if(a->s.k==Sk::Ptr){ if(p==CmpInst::ICMP_EQ) return mkEq(a,b); if(p==CmpInst::ICMP_NE) return mkNot(mkEq(a,b)); a=E.addr(a);b=E.addr(b); }
  if(a->s.k==Sk::Bool){ if(p==CmpInst::ICMP_EQ) return mkEq(a,b); if(p==CmpInst::ICMP_NE) return mkNot(mkEq(a,b)); a=asBV(a);b=asBV(b);} 
  switch(p){ case CmpInst::ICMP_EQ:return mkEq(a,b);case CmpInst::ICMP_NE:return mkNot(mkEq(a,b));case CmpInst::ICMP_ULT:return mkCmp(Op::ULT,a,b);case CmpInst::ICMP_ULE:return mkCmp(Op::ULE,a,b);case CmpInst::ICMP_UGT:return mkCmp(Op::ULT,b,a);case CmpInst::ICMP_UGE:return mkCmp(Op::ULE,b,a);
    case CmpInst::ICMP_SLT:return mkCmp(Op::SLT,a,b);case CmpInst::ICMP_SLE:return mkCmp(Op::SLE,a,b);case CmpInst::ICMP_SGT:return mkCmp(Op::SLT,b,a);case CmpInst::ICMP_SGE:return mkCmp(Op::SLE,b,a);default:throw Unsupported("icmp"); } }
static T fcmp(CmpInst::Predicate p,T a,T b){ T uno=mkOr(mkIsNan(a),mkIsNan(b));
  switch(p){ case CmpInst::FCMP_OEQ:return mkFCmp(Op::FEQ,a,b);case CmpInst::FCMP_OLT:return mkFCmp(Op::FLT,a,b);case CmpInst::FCMP_OLE:return mkFCmp(Op::FLE,a,b);case CmpInst::FCMP_OGT:return mkFCmp(Op::FLT,b,a);case CmpInst::FCMP_OGE:return mkFCmp(Op::FLE,b,a);
    case CmpInst::FCMP_ONE:return mkAnd(mkNot(uno),mkNot(mkFCmp(Op::FEQ,a,b)));case CmpInst::FCMP_ORD:return mkNot(uno);case CmpInst::FCMP_UNO:return uno;
    case CmpInst::FCMP_UEQ:return mkOr(uno,mkFCmp(Op::FEQ,a,b));case CmpInst::FCMP_UNE:return mkNot(mkFCmp(Op::FEQ,a,b));case CmpInst::FCMP_ULT:return mkNot(mkFCmp(Op::FLE,b,a));case CmpInst::FCMP_ULE:return mkNot(mkFCmp(Op::FLT,b,a));case CmpInst::FCMP_UGT:return mkNot(mkFCmp(Op::FLE,a,b));case CmpInst::FCMP_UGE:return mkNot(mkFCmp(Op::FLT,a,b));
    case CmpInst::FCMP_TRUE:return mkBool(true);case CmpInst::FCMP_FALSE:return mkBool(false);default:throw Unsupported("fcmp"); } }

Val Exec::evalC(const Constant*c){
  Type*ty=c->getType();
  if(auto*ci=dyn_cast<ConstantInt>(c)){ if(ty->isIntegerTy(1)) return V(mkBool(ci->isOne())); if(ci->getBitWidth()>64){ APInt v=ci->getValue(); if(v.getActiveBits()>64) throw Unsupported("wide const"); return V(mkBV(v.getZExtValue(),ci->getBitWidth())); } return V(mkBV(ci->getZExtValue(),ci->getBitWidth())); }
  if(auto*cf=dyn_cast<ConstantFP>(c)) return V(mkF(cf->getValueAPF().bitcastToAPInt().getZExtValue(),sortOf(ty)));
  if(isa<ConstantPointerNull>(c)) return V(mkNull());
  if(auto*ga=dyn_cast<GlobalAlias>(c)) return evalC(ga->getAliasee());
  if(auto*g=dyn_cast<GlobalValue>(c)) return V(mkPtr(globalObj(g),mkBV(0,64)));
  if(isa<UndefValue>(c)) return undef(ty);
  if(ty->isStructTy()||ty->isArrayTy()||ty->isVectorTy()){ Val v; v.agg=std::make_shared<std::vector<Val>>(); unsigned n=ty->isStructTy()?ty->getStructNumElements():ty->isArrayTy()?ty->getArrayNumElements():cast<FixedVectorType>(ty)->getNumElements();
    for(unsigned i=0;i<n;i++){ Constant*e=c->getAggregateElement(i); if(!e) throw Unsupported("const agg"); v.agg->push_back(evalC(e)); } return v; }
  if(auto*ce=dyn_cast<ConstantExpr>(c)){
    if(ce->getOpcode()==Instruction::GetElementPtr){ APInt off(64,0); if(!cast<GEPOperator>(ce)->accumulateConstantOffset(DL,off)) throw Unsupported("const gep"); return V(ptrAdd(evalC(ce->getOperand(0)).t,mkBV(off.getZExtValue(),64))); }
    if(ce->isCast()) return V(castOp(*this,ce->getOpcode(),evalC(ce->getOperand(0)).t,ty));
    if(ce->getOpcode()==Instruction::ICmp) return V(icmp(*this,(CmpInst::Predicate)ce->getPredicate(),evalC(ce->getOperand(0)).t,evalC(ce->getOperand(1)).t));
    if(Instruction::isBinaryOp(ce->getOpcode())) return V(intBin(ce->getOpcode(),evalC(ce->getOperand(0)).t,evalC(ce->getOperand(1)).t));
  }
  std::string s; raw_string_ostream o(s); c->print(o); throw Unsupported("constant "+o.str());
}
Val Exec::get(State&s,Frame&fr,const Value*v){ if(auto*c=dyn_cast<Constant>(v)) return evalC(c); auto it=fr.fi->num.find(v); if(it==fr.fi->num.end()) throw Unsupported("value"); Val&r=s.regs[it->second]; if(!r.ok()) throw Unsupported("unset register"); return r; }
void Exec::set(State&s,Frame&fr,const Value*v,Val x){ s.regs[fr.fi->num[v]]=std::move(x); }

// ------------------------------------------------------------------ memory
ObjP Exec::getObj(State&s,uint64_t id){ auto it=s.mem.find(id); if(it!=s.mem.end()) return it->second; auto g=globals0.find(id); if(g!=globals0.end()) return g->second; return nullptr; }
ObjP& Exec::own(State&s,uint64_t id){ auto it=s.mem.find(id); if(it==s.mem.end()){ s.mem[id]=std::make_shared<Object>(*globals0.at(id)); return s.mem[id]; } if(it->second.use_count()>1) it->second=std::make_shared<Object>(*it->second); return it->second; }
static T toBits(T t){ if(isF(t->s)) return mkF2Bits(t); if(t->s.k==Sk::Bool) return mkB2BV(t,8); return t; }
T Exec::readCells(Object&o,uint64_t off,unsigned bytes,Sort want){
  auto it=o.cells.find(off);
  if(it!=o.cells.end()&&it->second.size==bytes){ T v=it->second.v; if(want.k==Sk::Ptr){ if(v->s.k==Sk::Ptr) return v; if(isConst(v)&&v->val==0) return mkNull(); throw Unsupported("int as ptr"); } if(v->s.k==Sk::Ptr) { T b=addr(v); return isF(want)?mkBits2F(b):b; }
    if(v->s==want) return v; T b=toBits(v); if(isF(want)) return mkBits2F(b); return b; }
  // byte assembly
  T acc=nullptr; bool anyInit=false; uint64_t p=off;
  while(p<off+bytes){ auto q=o.cells.upper_bound(p); T piece=nullptr; uint64_t n=1; 
    if(q!=o.cells.begin()){ --q; if(q->first<=p&&p<q->first+q->second.size){ T v=q->second.v; if(v->s.k==Sk::Ptr){ if(want.k==Sk::Ptr) throw Unsupported("partial pointer read"); v=addr(v);} uint64_t lo=p-q->first, hi=std::min<uint64_t>(q->second.size,off+bytes-q->first); piece=mkExtract(toBits(v),hi*8-1,lo*8); n=hi-lo; anyInit=true; } }
    if(!piece){ auto q2=o.cells.lower_bound(p); uint64_t e=off+bytes; if(q2!=o.cells.end()&&q2->first<e) e=q2->first; n=e-p; if(n>8) n=8; piece=mkFresh("undef",SBV(n*8)); }
    acc=acc?mkConcat(piece,acc):piece; p+=n; }
  (void)anyInit; if(want.k==Sk::Ptr){ if(isConst(acc)&&acc->val==0) return mkNull(); return mkPtr(0xdeadull<<32,mkBV(0,64)); } if(isF(want)) return mkBits2F(acc); return acc; }
void Exec::writeCells(Object&o,uint64_t off,unsigned bytes,T v){
  auto it=o.cells.find(off); if(it!=o.cells.end()&&it->second.size==bytes){ it->second.v=v; return; }
  // split overlapping cells
  uint64_t end=off+bytes; std::vector<std::pair<uint64_t,Cell>> keep; auto q=o.cells.upper_bound(off); if(q!=o.cells.begin()) --q;
  while(q!=o.cells.end()&&q->first<end){ uint64_t cs=q->first,ce=cs+q->second.size; if(ce<=off){++q;continue;} T cv=q->second.v; 
    if((cs<off||ce>end)&&cv->s.k==Sk::Ptr) cv=addr(cv);
    if(cs<off) keep.push_back({cs,{(unsigned)(off-cs),mkExtract(toBits(cv),(off-cs)*8-1,0)}}); if(ce>end) keep.push_back({end,{(unsigned)(ce-end),mkExtract(toBits(cv),(ce-cs)*8-1,(end-cs)*8)}}); q=o.cells.erase(q); }
  for(auto&k:keep) o.cells[k.first]=k.second; o.cells[off]={bytes,v}; }

// would an access of this kind hit a cell of the other kind (pointer / data)?
static bool mixesPtr(const Object&o,uint64_t off,unsigned bytes,bool ptr){ auto q=o.cells.upper_bound(off); if(q!=o.cells.begin()) --q; for(;q!=o.cells.end()&&q->first<off+bytes;++q){ if(q->first+q->second.size<=off) continue; if((q->second.v->s.k==Sk::Ptr)!=ptr) return true; } return false; }
T Exec::loadScalar(State&s,T p,unsigned bytes,Type*ty){
  Sort want=ty->isIntegerTy(1)?SBV(8):ty->isIntegerTy()?SBV(bytes*8):sortOf(ty); auto cs=cases(p); T acc=nullptr; std::vector<std::pair<T,T>> out;
  for(auto&c:cs){ T g=known(s,c.first); if(isFalse(g)) continue; T q=c.second; ObjP o=getObj(s,q->val);
    if(!o){ std::string why=q->val==0?"null pointer read":q->val==(0xdeadull<<32)?"uninitialised pointer read":"read of dead object "+objname[q->val]; State t=s; assume(t,g); if(!t.dead&&!(cs.size()>1&&infeasible(t,mkBool(true)))) oblige(s,"memory",mkNot(g),why); continue; }
    T off=q->a[0];
    if(!isConst(off)){ auto kc=off; (void)kc; }
    if(isConst(off)){ if(off->val+bytes>o->size||off->val+bytes<off->val){ oblige(s,"memory",mkNot(g),"read out of bounds of "+o->name); continue; } if(gvobj.count(q->val)&&!gvobj[q->val]->hasInitializer()&&!s.mem.count(q->val)) throw Unsupported("read of external global "+o->name); out.push_back({g,readCells(*o,off->val,bytes,want)}); }
    else { // enumerate
      uint64_t a0=0; T in=mkBool(false); if(off->op==Op::ADD&&isConst(off->a[1])) a0=off->a[1]->val%bytes; std::vector<std::pair<T,uint64_t>> cand;
      for(uint64_t k=a0;k+bytes<=o->size;k+=bytes){ T e=known(s,mkEq(off,mkBV(k,64))); if(isFalse(e)) continue; in=mkOr(in,e); cand.push_back({e,k}); }
      if(cand.empty()){ oblige(s,"memory",mkNot(g),"read out of bounds of "+o->name); continue; }
      oblige(s,"memory",mkOr(mkNot(g),in),"read out of bounds of "+o->name);
      T v=nullptr; for(auto it=cand.rbegin();it!=cand.rend();++it){ if(cand.size()>1&&mixesPtr(*o,it->second,bytes,want.k==Sk::Ptr)&&infeasible(s,mkAnd(g,it->first))) continue; T r=readCells(*o,it->second,bytes,want); v=v?mkIte(it->first,r,v):r; } if(v) out.push_back({g,v}); } }
  if(out.empty()){ s.dead=true; return want.k==Sk::Ptr?mkNull():mkFresh("undef",want); }
  for(auto it=out.rbegin();it!=out.rend();++it) acc=acc?mkIte(it->first,it->second,acc):it->second;
  return acc; }
void Exec::storeScalar(State&s,T p,unsigned bytes,T v){
  if(v->s.k==Sk::Bool) v=mkB2BV(v,8); if(v->s.k==Sk::BV&&v->s.w<bytes*8) v=mkZext(v,bytes*8);
  auto cs=cases(p);
  for(auto&c:cs){ T g=known(s,c.first); if(isFalse(g)) continue; T q=c.second; ObjP o0=getObj(s,q->val);
    if(!o0){ std::string why=q->val==0?"null pointer write":"write to dead or uninitialised pointer"; oblige(s,"memory",mkNot(g),why); if(isTrue(g)) s.dead=true; continue; }
    T off=q->a[0]; if(o0->isConst){ oblige(s,"memory",mkNot(g),"write to constant "+o0->name); continue; }
    if(isConst(off)){ if(off->val+bytes>o0->size||off->val+bytes<off->val){ oblige(s,"memory",mkNot(g),"write out of bounds of "+o0->name); continue; }
      ObjP&o=own(s,q->val); if(isTrue(g)) writeCells(*o,off->val,bytes,v); else { T old=readCells(*o,off->val,bytes,v->s); writeCells(*o,off->val,bytes,mkIte(g,v,old)); } }
    else { uint64_t a0=0; T in=mkBool(false); if(off->op==Op::ADD&&isConst(off->a[1])) a0=off->a[1]->val%bytes; ObjP&o=own(s,q->val);
      std::vector<std::pair<T,uint64_t>> cand; for(uint64_t k=a0;k+bytes<=o->size;k+=bytes){ T e=known(s,mkEq(off,mkBV(k,64))); if(isFalse(e)) continue; in=mkOr(in,e); cand.push_back({e,k}); }
      oblige(s,"memory",mkOr(mkNot(g),in),"write out of bounds of "+o->name);
      for(auto&k:cand){ if(mixesPtr(*o,k.second,bytes,v->s.k==Sk::Ptr)&&infeasible(s,mkAnd(g,k.first))) continue; T old=readCells(*o,k.second,bytes,v->s); writeCells(*o,k.second,bytes,mkIte(mkAnd(g,k.first),v,old)); } } } }
Val Exec::load(State&s,T p,Type*ty){
  if(ty->isStructTy()){ Val v; v.agg=std::make_shared<std::vector<Val>>(); auto*sl=DL.getStructLayout(cast<StructType>(ty)); for(unsigned i=0;i<ty->getStructNumElements();i++) v.agg->push_back(load(s,ptrAdd(p,mkBV(sl->getElementOffset(i),64)),ty->getStructElementType(i))); return v; }
  if(ty->isArrayTy()||ty->isVectorTy()){ Val v; v.agg=std::make_shared<std::vector<Val>>(); Type*e=ty->isArrayTy()?ty->getArrayElementType():cast<FixedVectorType>(ty)->getElementType(); unsigned n=ty->isArrayTy()?ty->getArrayNumElements():cast<FixedVectorType>(ty)->getNumElements(); uint64_t es=DL.getTypeAllocSize(e); if(ty->isVectorTy()&&e->isIntegerTy(1)) throw Unsupported("i1 vector mem"); for(unsigned i=0;i<n;i++) v.agg->push_back(load(s,ptrAdd(p,mkBV(i*es,64)),e)); return v; }
  unsigned bytes=DL.getTypeStoreSize(ty); T t=loadScalar(s,p,bytes,ty); if(ty->isIntegerTy(1)) t=mkBV2B(t); else if(ty->isIntegerTy()&&ty->getIntegerBitWidth()<bytes*8) t=mkExtract(t,ty->getIntegerBitWidth()-1,0); return V(t); }
void Exec::store(State&s,T p,Val v,Type*ty){
  if(ty->isStructTy()){ auto*sl=DL.getStructLayout(cast<StructType>(ty)); for(unsigned i=0;i<ty->getStructNumElements();i++) store(s,ptrAdd(p,mkBV(sl->getElementOffset(i),64)),(*v.agg)[i],ty->getStructElementType(i)); return; }
  if(ty->isArrayTy()||ty->isVectorTy()){ Type*e=ty->isArrayTy()?ty->getArrayElementType():cast<FixedVectorType>(ty)->getElementType(); uint64_t es=DL.getTypeAllocSize(e); for(unsigned i=0;i<v.agg->size();i++) store(s,ptrAdd(p,mkBV(i*es,64)),(*v.agg)[i],e); return; }
  storeScalar(s,p,DL.getTypeStoreSize(ty),v.t); }
// a length that is not constant: one state per possible length, joined afterwards; every other length is excluded by an obligation
bool Exec::byLength(State&s,T n,uint64_t cap,std::function<void(State&,T)> f){ if(isConst(n)) return false; unsigned g=1; for(unsigned k:{8u,4u}) if(infeasible(s,mkNot(mkEq(mkBin(Op::BAND,n,mkBV(k-1,64)),mkBV(0,64))))){ g=k; break; }
  if(cap>256) throw Unsupported("symbolic length over a large object"); T any=mkBool(false); std::vector<T> ks; for(uint64_t k=0;k<=cap;k+=g){ T e=known(s,mkEq(n,mkBV(k,64))); if(isFalse(e)||infeasible(s,e)) continue; any=mkOr(any,e); ks.push_back(mkBV(k,64)); }
  oblige(s,"memory",any,"length within the objects"); if(s.dead) return true; std::vector<State> at; for(T k:ks){ State t=s; assume(t,mkEq(n,k)); if(t.dead) continue; f(t,k); if(!t.dead) at.push_back(std::move(t)); } if(at.empty()){ s.dead=true; return true; } s=merge(at); return true; }
void Exec::memcpy_(State&s,T d,T src,T n){ if(!isConst(n)){ uint64_t cap=0; for(auto&c:cases(d)){ ObjP o=getObj(s,c.second->val); if(o) cap=std::max(cap,o->size); } byLength(s,n,cap,[&](State&t,T k){ memcpy_(t,d,src,k); }); return; } uint64_t len=n->val; if(!len) return;
  auto sc=cases(src), dc=cases(d);
  std::vector<std::pair<T,T>> s2,d2; for(auto&c:sc){T g=known(s,c.first); if(!isFalse(g)) s2.push_back({g,c.second});} for(auto&c:dc){T g=known(s,c.first); if(!isFalse(g)) d2.push_back({g,c.second});}
  if(s2.size()==1&&d2.size()==1&&isConst(s2[0].second->a[0])&&isConst(d2[0].second->a[0])){
    T sp=s2[0].second, dp=d2[0].second; ObjP so=getObj(s,sp->val), dob=getObj(s,dp->val); uint64_t so_=sp->a[0]->val, do_=dp->a[0]->val;
    if(!so||!dob){ oblige(s,"memory",mkBool(false),"memcpy with dead or null pointer"); s.dead=true; return; }
    if(so_+len>so->size||do_+len>dob->size){ oblige(s,"memory",mkBool(false),"memcpy out of bounds"); s.dead=true; return; }
    if(gvobj.count(sp->val)&&!gvobj[sp->val]->hasInitializer()&&!s.mem.count(sp->val)) throw Unsupported("read of external global "+so->name);
    std::vector<std::pair<uint64_t,Cell>> cs; auto q=so->cells.upper_bound(so_); if(q!=so->cells.begin()) --q;
    for(;q!=so->cells.end()&&q->first<so_+len;++q){ uint64_t a=q->first,b=a+q->second.size; if(b<=so_) continue; if(a>=so_&&b<=so_+len) cs.push_back({a-so_,q->second}); else { uint64_t lo=std::max(a,so_),hi=std::min(b,so_+len); T v=q->second.v; if(v->s.k==Sk::Ptr) v=addr(v); cs.push_back({lo-so_,{(unsigned)(hi-lo),mkExtract(toBits(v),(hi-a)*8-1,(lo-a)*8)}}); } }
    ObjP&o=own(s,dp->val); if(o->isConst){ oblige(s,"memory",mkBool(false),"memcpy to constant"); return; }
    // clear destination range
    writeCells(*o,do_,len,mkBV(0,8)); o->cells.erase(do_);
    for(auto&c:cs) o->cells[do_+c.first]=c.second; return; }
  // general: by pieces of 8/4/1 bytes following source cells of the first alternative
  unsigned g=1; ObjP o=getObj(s,s2.empty()?0:s2[0].second->val); if(o&&!o->cells.empty()) { g=8; for(auto&c:o->cells) g=std::min(g,c.second.size); if(len%g) g=1; }
  std::vector<T> tmp; Type*ty=IntegerType::get(M.getContext(),g*8); for(uint64_t i=0;i<len;i+=g) { T v; if(o&&o->cells.size()&&isF(o->cells.begin()->second.v->s)&&o->cells.begin()->second.size==g) v=loadScalar(s,ptrAdd(src,mkBV(i,64)),g,g==4?Type::getFloatTy(M.getContext()):Type::getDoubleTy(M.getContext())); else v=loadScalar(s,ptrAdd(src,mkBV(i,64)),g,ty); tmp.push_back(v); }
  for(uint64_t i=0;i<tmp.size();i++) storeScalar(s,ptrAdd(d,mkBV(i*g,64)),g,tmp[i]); }
void Exec::memset_(State&s,T d,T b,T n){ if(!isConst(n)){ uint64_t cap=0; for(auto&c:cases(d)){ ObjP o=getObj(s,c.second->val); if(o) cap=std::max(cap,o->size); } byLength(s,n,cap,[&](State&t,T k){ memset_(t,d,b,k); }); return; } uint64_t len=n->val; if(!len) return; 
  uint64_t i=0; while(i<len){ unsigned g=(len-i)>=8?8:(len-i)>=4?4:1; if(isConst(b)&&b->val==0){ // zero: use 4-byte granules so later typed reads hit exact cells
      if(len%4==0&&len%8!=0) g=4; storeScalar(s,ptrAdd(d,mkBV(i,64)),g,mkBV(0,g*8)); } else { T v=b; for(unsigned k=1;k<g;k++) v=mkConcat(b,v); storeScalar(s,ptrAdd(d,mkBV(i,64)),g,v);} i+=g; } }

std::string Exec::cstr(State&s,T p){ std::string r; if(p->op!=Op::PTR||!isConst(p->a[0])) throw Unsupported("symbolic string"); ObjP o=getObj(s,p->val); if(!o) return "?"; for(uint64_t i=p->a[0]->val;i<o->size;i++){ T c=readCells(*o,i,1,SBV(8)); if(!isConst(c)) throw Unsupported("symbolic string"); if(!c->val) break; r+=(char)c->val; } return r; }

// ------------------------------------------------------------------ merging
static Val iteVal(Exec&E,T g,const Val&a,const Val&b){ if(!a.ok()) return b; if(!b.ok()) return a; Val r; if(a.agg){ if(a.agg==b.agg) return a; r.agg=std::make_shared<std::vector<Val>>(); for(size_t i=0;i<a.agg->size();i++) r.agg->push_back(iteVal(E,g,(*a.agg)[i],(*b.agg)[i])); return r; } r.t=mkIte(g,a.t,b.t); return r; }
void Exec::merge2(State&a,State&b){ // a := merge(a,b)
  PC x=a.pc,y=b.pc; std::vector<T> sa,sb; while(x!=y){ int dx=x?x->depth:0,dy=y?y->depth:0; if(dx>=dy&&x){ sa.push_back(x->lit); x=x->up; } else { sb.push_back(y->lit); y=y->up; } }
  T ga=mkBool(true),gb=mkBool(true); for(auto it=sa.rbegin();it!=sa.rend();++it) ga=mkAnd(ga,*it); for(auto it=sb.rbegin();it!=sb.rend();++it) gb=mkAnd(gb,*it);
  // selection guard: first differing literal suffices if complementary
  T g=ga; if(!sa.empty()&&!sb.empty()&&sa.back()==mkNot(sb.back())) g=sa.back();
  std::map<uint64_t,ObjP> mem;
  for(auto&kv:a.mem){ auto it=b.mem.find(kv.first); if(it==b.mem.end()){ ObjP g0=nullptr; auto gg=globals0.find(kv.first); if(gg!=globals0.end()) g0=gg->second; if(!g0){ mem[kv.first]=kv.second; continue; } b.mem[kv.first]=g0; it=b.mem.find(kv.first); }
    if(it->second==kv.second){ mem[kv.first]=kv.second; continue; }
    Object&oa=*kv.second,&ob=*it->second; auto o=std::make_shared<Object>(oa);
    // align cell structures
    std::set<uint64_t> cuts; bool same=oa.cells.size()==ob.cells.size(); if(same){ auto i=oa.cells.begin(); auto j=ob.cells.begin(); for(;i!=oa.cells.end();++i,++j) if(i->first!=j->first||i->second.size!=j->second.size){same=false;break;} }
    if(same){ auto j=ob.cells.begin(); for(auto i=o->cells.begin();i!=o->cells.end();++i,++j){ T va=i->second.v,vb=j->second.v; if(va==vb) continue; if(va->s!=vb->s){ if(va->s.k==Sk::Ptr) { if(isConst(vb)&&vb->val==0) vb=mkNull(); else va=addr(va); } else if(vb->s.k==Sk::Ptr){ if(isConst(va)&&va->val==0) va=mkNull(); else vb=addr(vb);} if(va->s!=vb->s){ if(isF(va->s)&&vb->s.k==Sk::BV) vb=mkBits2F(vb); else if(isF(vb->s)&&va->s.k==Sk::BV) va=mkBits2F(va); else {va=toBits(va);vb=toBits(vb);} } } i->second.v=mkIte(g,va,vb); } }
    else { // cells present in only one side stay (other side uninitialised there); overlapping differently sized ones are split to the finest common cut
      Object na=oa,nb=ob; for(auto&c:oa.cells){cuts.insert(c.first);cuts.insert(c.first+c.second.size);} for(auto&c:ob.cells){cuts.insert(c.first);cuts.insert(c.first+c.second.size);} o->cells.clear();
      auto covered=[](Object&ob_,uint64_t p)->std::map<uint64_t,Cell>::iterator{ auto q=ob_.cells.upper_bound(p); if(q==ob_.cells.begin()) return ob_.cells.end(); --q; if(p<q->first+q->second.size) return q; return ob_.cells.end(); };
      uint64_t prev=0; bool first=true; for(uint64_t c:cuts){ if(!first){ auto ca=covered(na,prev),cb=covered(nb,prev); if(ca!=na.cells.end()||cb!=nb.cells.end()){ unsigned n=c-prev; Sort w; auto&ref=ca!=na.cells.end()?*ca:*cb; if(ref.first==prev&&ref.second.size==n) w=ref.second.v->s; else w=SBV(n*8); if(w.k==Sk::Bool) w=SBV(8);
            if(ca==na.cells.end()||cb==nb.cells.end()){ Object&src=ca!=na.cells.end()?na:nb; o->cells[prev]={n,readCells(src,prev,n,w)}; }
            else { if(w.k==Sk::Ptr&&cb->second.v->s.k!=Sk::Ptr&&!(isConst(cb->second.v)&&cb->second.v->val==0)) w=SBV(64); o->cells[prev]={n,mkIte(g,readCells(na,prev,n,w),readCells(nb,prev,n,w))}; } } } prev=c; first=false; } }
    mem[kv.first]=o; }
  for(auto&kv:b.mem) if(!mem.count(kv.first)){ auto gg=globals0.find(kv.first); if(gg!=globals0.end()){ // only b wrote the global
        State t; t.mem[kv.first]=gg->second; (void)t; Object&oa=*gg->second; auto o=std::make_shared<Object>(*kv.second); for(auto&c:o->cells){ auto i=oa.cells.find(c.first); if(i!=oa.cells.end()&&i->second.size==c.second.size){ T va=i->second.v; if(va->s!=c.second.v->s) va=isF(c.second.v->s)?mkBits2F(toBits(va)):toBits(va); c.second.v=mkIte(g,va,c.second.v);} } mem[kv.first]=o; }
      else mem[kv.first]=kv.second; }
  a.mem.swap(mem);
  for(size_t i=0;i<a.regs.size();i++) a.regs[i]=iteVal(*this,g,a.regs[i],b.regs[i]);
  if(a.exc.ti||b.exc.ti){ if(!a.exc.ti) a.exc=b.exc; else if(b.exc.ti){ a.exc.ti=mkIte(g,a.exc.ti,b.exc.ti); a.exc.obj=mkIte(g,a.exc.obj,b.exc.obj);} }
  a.pc=x; T d=mkOr(ga,gb); assume(a,d); a.dead=false; }
State Exec::merge(std::vector<State>&v){ State r=std::move(v[0]); for(size_t i=1;i<v.size();i++) merge2(r,v[i]); return r; }

// ------------------------------------------------------------------ control
bool Exec::jump(State&s,const BasicBlock*from,const BasicBlock*to,Frame&fr){ std::vector<std::pair<const PHINode*,Val>> ph; for(auto&I:*to){ auto*p=dyn_cast<PHINode>(&I); if(!p) break; ph.push_back({p,get(s,fr,p->getIncomingValueForBlock(from))}); } for(auto&x:ph) set(s,fr,x.first,x.second); s.prev=from; return true; }

// a function is named by its qualified name without template arguments, with or without parameters
bool Exec::named(const Function*f,const std::string&name){ std::string d=demangle(f->getName().str()); size_t p=0; while((p=d.find(name,p))!=std::string::npos){ size_t e=p+name.size(); if((p==0||d[p-1]==' ')&&(name.find('(')!=std::string::npos||(e<d.size()&&(d[e]=='('||d[e]=='<')))) { // not inside template arguments
      int depth=0; for(size_t i=0;i<p;i++){ if(d[i]=='<') depth++; if(d[i]=='>') depth--; if(d[i]=='(') depth++; if(d[i]==')') depth--; } if(depth==0) return true; } p++; } return false; }
// evaluates an invariant function in the state at a loop head: its v_inv clauses are proved (mode 1) or assumed (mode 2)
void Exec::runInv(State&s,Frame&fr,const Function*inv,int mode){ auto saveR=invRegs; auto saveFi=invFi; auto saveF=invFn; int saveM=invMode; invRegs=s.regs; invFi=fr.fi; invFn=fr.f; invMode=mode; std::vector<Val> regs=s.regs; auto prev=s.prev; Rets rets; std::vector<State> unw; callFn(std::move(s),inv,{},rets,unw,nullptr); if(rets.empty()) throw Unsupported("invariant does not return"); std::vector<State> ss; for(auto&r:rets) ss.push_back(std::move(r.first)); s=merge(ss); s.regs=regs; s.prev=prev; invRegs=saveR; invFi=saveFi; invFn=saveF; invMode=saveM; }
// loop contract: 0 no contract for this head; 1 cut made (arbitrary iteration), go on; 2 back edge proved, this path ends
int Exec::cutLoop(State&s,const BasicBlock*b,Frame&fr){ if(loopSpecs.empty()) return 0; LoopSpec*sp=nullptr; const LoopCut*lc=nullptr;
  auto it=loopMemo.find(fr.f); if(it==loopMemo.end()){ std::vector<LoopCut> v; DominatorTree DT(*const_cast<Function*>(fr.f)); LoopInfo LI(DT); for(auto&bb:*fr.f) if(LI.isLoopHeader(&bb)){ LoopCut c; c.head=&bb; for(auto*x:LI.getLoopFor(&bb)->blocks()) c.body.insert(x); v.push_back(c); } it=loopMemo.emplace(fr.f,v).first; }
  for(size_t i=0;i<it->second.size();i++) if(it->second[i].head==b) for(auto&x:loopSpecs) if(x.idx==(int)i&&named(fr.f,x.fn)){ sp=&x; lc=&it->second[i]; }
  if(!sp) return 0; sp->used=true; if(s.prev&&lc->body.count(s.prev)){ runInv(s,fr,sp->inv,1); return 2; }
  runInv(s,fr,sp->inv,1); std::set<uint64_t> hv;
  auto root=[&](const Value*v)->const AllocaInst*{ while(true){ v=v->stripPointerCasts(); if(auto*g=dyn_cast<GEPOperator>(v)){ v=g->getPointerOperand(); continue; } return dyn_cast<AllocaInst>(v); } };
  auto hit=[&](const Value*v){ if(auto*a=root(v)){ T p=s.regs[fr.fi->num.at(a)].t; if(p) hv.insert(p->val); } else throw Unsupported("loop under contract writes through a pointer"); };
  for(auto*x:lc->body) for(auto&I:*x){ if(auto*st=dyn_cast<StoreInst>(&I)) hit(st->getPointerOperand()); else if(auto*cb=dyn_cast<CallBase>(&I)){ if(cb->getCalledFunction()&&cb->getCalledFunction()->isIntrinsic()&&!isa<MemIntrinsic>(cb)) continue; for(auto&a:cb->args()) if(a->getType()->isPointerTy()&&!isa<Function>(a->stripPointerCasts())){ if(isa<GlobalVariable>(a->stripPointerCasts())) continue; hit(a); } } }
  for(uint64_t id:hv){ ObjP&o=own(s,id); for(auto&c:o->cells){ if(!c.second.v||c.second.v->s.k==Sk::Ptr) throw Unsupported("loop under contract changes a pointer"); c.second.v=mkFresh("loop",c.second.v->s); } }
  runInv(s,fr,sp->inv,2); return 1; }

void Exec::region(State s,const BasicBlock*b,const BasicBlock*stop,Frame&fr,std::vector<State>&atStop){
  while(true){
    if(s.dead) return; if(b==stop){ atStop.push_back(std::move(s)); return; }
    if(!loopSpecs.empty()){ int k=cutLoop(s,b,fr); if(k==2) return; if(s.dead) return; }
    auto it=b->begin(); while(isa<PHINode>(*it)) ++it;
    for(;!it->isTerminator();++it){ if(++steps>maxSteps) throw Unsupported("step limit");
      if(auto*cb=dyn_cast<CallBase>(&*it)){ // call (not invoke)
        std::vector<Val> args; const Function*f=cb->getCalledFunction(); 
        if(f&&f->isIntrinsic()&&(f->getIntrinsicID()==Intrinsic::dbg_declare||f->getIntrinsicID()==Intrinsic::dbg_value||f->getIntrinsicID()==Intrinsic::experimental_noalias_scope_decl)) continue;
        for(auto&a:cb->args()) args.push_back(get(s,fr,a));
        if(!f){ T fp=get(s,fr,cb->getCalledOperand()).t; if(fp->op!=Op::PTR||!fobj.count(fp->val)) throw Unsupported("indirect call"); f=fobj[fp->val]; }
        Rets rets; std::vector<State> unw; std::vector<Val> regs=s.regs;
        State in=std::move(s); callFn(std::move(in),f,args,rets,unw,cb);
        for(auto&u:unw){ u.regs=regs; fr.unw->push_back(std::move(u)); }
        if(rets.empty()) return; 
        State m; Val rv; bool first=true; std::vector<State> ss; for(auto&r:rets){ r.first.regs.assign(1,r.second); ss.push_back(std::move(r.first)); }
        m=merge(ss); (void)first; rv=m.regs[0]; m.regs=std::move(regs); s=std::move(m); if(!cb->getType()->isVoidTy()) set(s,fr,cb,rv);
      } else inst(s,fr,&*it);
      if(s.dead) return; }
    const Instruction*t=&*it; if(++steps>maxSteps) throw Unsupported("step limit");
    if(auto*r=dyn_cast<ReturnInst>(t)){ Val v; if(r->getReturnValue()) v=get(s,fr,r->getReturnValue()); fr.rets->push_back({std::move(s),v}); return; }
    if(isa<UnreachableInst>(t)){ oblige(s,"unreachable",mkBool(false),"unreachable code reached"); return; }
    if(isa<ResumeInst>(t)){ fr.unw->push_back(std::move(s)); return; }
    if(auto*br=dyn_cast<BranchInst>(t)){
      if(br->isUnconditional()){ jump(s,b,br->getSuccessor(0),fr); b=br->getSuccessor(0); continue; }
      T c=known(s,get(s,fr,br->getCondition()).t);
      if(!isConst(c)&&fr.fi->inLoop(b)){ int n=++fr.symVisits[b]; if(n>1){ if(infeasible(s,c)) c=mkBool(false); else if(infeasible(s,mkNot(c))) c=mkBool(true); else if(n>2&&feasibleP){ auto v=pcv(s.pc); v.push_back(c); if(feasibleP(v)==0) c=mkBool(false); else { v.back()=mkNot(c); if(feasibleP(v)==0) c=mkBool(true); } } if(n>60) throw Unsupported("loop not bounded in "+demangle(fr.f->getName().str())); } }
      if(isConst(c)){ auto*n=br->getSuccessor(c->val?0:1); jump(s,b,n,fr); b=n; continue; }
      const BasicBlock*P=fr.fi->ipdom.count(b)?fr.fi->ipdom[b]:nullptr; 
      State s1=s, s2=std::move(s); assume(s1,c); assume(s2,mkNot(c)); std::vector<State> at; 
      if(!s1.dead){ jump(s1,b,br->getSuccessor(0),fr); region(std::move(s1),br->getSuccessor(0),P,fr,at);} if(!s2.dead){ jump(s2,b,br->getSuccessor(1),fr); region(std::move(s2),br->getSuccessor(1),P,fr,at);} 
      if(at.empty()) return; if(!P) return; s=merge(at); b=P; 
      // the merged state may sit at the enclosing stop block
      continue; }
    if(auto*sw=dyn_cast<SwitchInst>(t)){
      T c=get(s,fr,sw->getCondition()).t; 
      if(isConst(c)){ const BasicBlock*n=sw->getDefaultDest(); for(auto&cs:sw->cases()) if(cs.getCaseValue()->getZExtValue()==c->val) n=cs.getCaseSuccessor(); jump(s,b,n,fr); b=n; continue; }
      const BasicBlock*P=fr.fi->ipdom.count(b)?fr.fi->ipdom[b]:nullptr; std::vector<State> at; T none=mkBool(true);
      for(auto&cs:sw->cases()){ T e=known(s,mkEq(c,mkBV(cs.getCaseValue()->getZExtValue(),c->s.w))); none=mkAnd(none,mkNot(e)); if(isFalse(e)) continue; State s1=s; assume(s1,e); if(!s1.dead){ jump(s1,b,cs.getCaseSuccessor(),fr); region(std::move(s1),cs.getCaseSuccessor(),P,fr,at);} }
      { State s1=s; assume(s1,none); if(!s1.dead){ jump(s1,b,sw->getDefaultDest(),fr); region(std::move(s1),sw->getDefaultDest(),P,fr,at);} }
      if(at.empty()||!P) return; s=merge(at); b=P; continue; }
    if(auto*iv=dyn_cast<InvokeInst>(t)){
      std::vector<Val> args; const Function*f=iv->getCalledFunction(); for(auto&a:iv->args()) args.push_back(get(s,fr,a));
      if(!f){ T fp=get(s,fr,iv->getCalledOperand()).t; if(fp->op!=Op::PTR||!fobj.count(fp->val)) throw Unsupported("indirect call"); f=fobj[fp->val]; }
      Rets rets; std::vector<State> unw; std::vector<Val> regs=s.regs; State in=std::move(s); callFn(std::move(in),f,args,rets,unw,iv);
      const BasicBlock*P=fr.fi->ipdom.count(b)?fr.fi->ipdom[b]:nullptr; std::vector<State> at;
      std::vector<State> us; for(auto&u:unw){ u.regs=regs; us.push_back(std::move(u)); }
      bool haveN=!rets.empty(); State m; if(haveN){ std::vector<State> ss; for(auto&r:rets){ r.first.regs.assign(1,r.second); ss.push_back(std::move(r.first)); } m=merge(ss); Val rv=m.regs[0]; m.regs=regs; if(!iv->getType()->isVoidTy()) set(m,fr,iv,rv); jump(m,b,iv->getNormalDest(),fr); }
      if(us.empty()){ if(!haveN) return; s=std::move(m); b=iv->getNormalDest(); continue; }
      // exceptional edges, one per exception type
      for(auto&u:us){ jump(u,b,iv->getUnwindDest(),fr); region(std::move(u),iv->getUnwindDest(),P,fr,at); }
      if(haveN) region(std::move(m),iv->getNormalDest(),P,fr,at);
      if(at.empty()||!P) return; s=merge(at); b=P; continue; }
    throw Unsupported(std::string("terminator ")+t->getOpcodeName());
  } }

void Exec::callFn(State s,const Function*f,std::vector<Val> args,Rets&rets,std::vector<State>&unw,const CallBase*cb){
  if(f->isDeclaration()||f->getName().starts_with("v_")||f->getName()=="__clang_call_terminate"){ Val out; Frame dummy{}; if(external(s,dummy,cb,f,args,out,unw)){ if(!s.dead) rets.push_back({std::move(s),out}); } return; }
  if(!repl.empty()){ auto it=replMemo.find(f); if(it==replMemo.end()){ const Function*g=f; for(auto&r:repl) if(named(f,r.first)) g=r.second; it=replMemo.emplace(f,g).first; } if(it->second!=f){ assumed.insert(demangle(f->getName().str())); f=it->second; if(f->arg_size()!=args.size()) throw Unsupported("contract of a replaced callee has another signature"); } }
  touched.insert(f);
  if(depth>200) throw Unsupported("recursion depth");
  auto&fi=finfo[f]; if(!fi) fi=analyse(f);
  Frame fr{f,fi.get(),&rets,&unw,{},{}}; depth++; stack.push_back(f);
  s.regs.assign(fi->num.size(),Val()); unsigned i=0; size_t r0=rets.size(),u0=unw.size();
  for(auto&a:f->args()){ if(a.hasByValAttr()){ uint64_t n=DL.getTypeAllocSize(a.getParamByValType()); uint64_t id=newObj(s,n,"byval"); T p=mkPtr(id,mkBV(0,64)); memcpy_(s,p,args[i].t,mkBV(n,64)); s.regs[fi->num[&a]]=V(p); fr.allocas.push_back(id);} else s.regs[fi->num[&a]]=args[i]; i++; }
  // allocas created during execution are tracked through nextObj range
  uint64_t o0=nextObj; std::vector<State> at; region(std::move(s),&f->getEntryBlock(),nullptr,fr,at);
  (void)o0;
  auto drop=[&](State&st){ for(uint64_t id:fr.allocas) st.mem.erase(id); };
  for(size_t k=r0;k<rets.size();k++) drop(rets[k].first); for(size_t k=u0;k<unw.size();k++) drop(unw[k]);
  depth--; stack.pop_back(); }

void Exec::inst(State&s,Frame&fr,const Instruction*I){
  switch(I->getOpcode()){
    case Instruction::Alloca: { auto*a=cast<AllocaInst>(I); T n=get(s,fr,a->getArraySize()).t; if(!isConst(n)) throw Unsupported("VLA"); uint64_t id=newObj(s,DL.getTypeAllocSize(a->getAllocatedType())*n->val,fr.f->getName().str().substr(0,40)+"::"+(a->hasName()?a->getName().str():"tmp")); fr.allocas.push_back(id); set(s,fr,I,V(mkPtr(id,mkBV(0,64)))); return; }
    case Instruction::Load: { auto*l=cast<LoadInst>(I); Val v=load(s,get(s,fr,l->getPointerOperand()).t,l->getType()); set(s,fr,I,v); return; }
    case Instruction::Store: { auto*st=cast<StoreInst>(I); store(s,get(s,fr,st->getPointerOperand()).t,get(s,fr,st->getValueOperand()),st->getValueOperand()->getType()); return; }
    case Instruction::GetElementPtr: { auto*g=cast<GetElementPtrInst>(I); T p=get(s,fr,g->getPointerOperand()).t; T off=mkBV(0,64);
      for(auto gt=gep_type_begin(g),e=gep_type_end(g);gt!=e;++gt){ T ix=get(s,fr,gt.getOperand()).t; if(auto*st=gt.getStructTypeOrNull()){ off=mkBin(Op::ADD,off,mkBV(DL.getStructLayout(st)->getElementOffset(ix->val),64)); } else { uint64_t es=DL.getTypeAllocSize(gt.getIndexedType()); T i64=ix->s.w<64?mkSext(ix,64):ix; off=mkBin(Op::ADD,off,mkBin(Op::MUL,i64,mkBV(es,64))); } }
      set(s,fr,I,V(ptrAdd(p,off))); return; }
    case Instruction::Select: { auto*q=cast<SelectInst>(I); Val c=get(s,fr,q->getCondition()); Val a=get(s,fr,q->getTrueValue()),b=get(s,fr,q->getFalseValue()); if(c.agg){ Val r; r.agg=std::make_shared<std::vector<Val>>(); for(size_t i=0;i<c.agg->size();i++) r.agg->push_back(V(mkIte((*c.agg)[i].t,(*a.agg)[i].t,(*b.agg)[i].t))); set(s,fr,I,r);} else set(s,fr,I,iteVal(*this,known(s,c.t),a,b)); return; }
    case Instruction::ICmp: { auto*c=cast<ICmpInst>(I); auto p=c->getPredicate(); set(s,fr,I,mapBin(get(s,fr,c->getOperand(0)),get(s,fr,c->getOperand(1)),[&](T a,T b){return icmp(*this,p,a,b);})); return; }
    case Instruction::FCmp: { auto*c=cast<FCmpInst>(I); auto p=c->getPredicate(); set(s,fr,I,mapBin(get(s,fr,c->getOperand(0)),get(s,fr,c->getOperand(1)),[&](T a,T b){return fcmp(p,a,b);})); return; }
    case Instruction::FNeg: set(s,fr,I,mapUn(get(s,fr,I->getOperand(0)),[](T a){return mkFNeg(a);})); return;
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: { Op o=I->getOpcode()==Instruction::FAdd?Op::FADD:I->getOpcode()==Instruction::FSub?Op::FSUB:I->getOpcode()==Instruction::FMul?Op::FMUL:I->getOpcode()==Instruction::FDiv?Op::FDIV:Op::FREM; if(o==Op::FREM) set(s,fr,I,mapBin(get(s,fr,I->getOperand(0)),get(s,fr,I->getOperand(1)),[](T a,T b){return mkUF("fmod",a->s,{a,b});})); else { Val r=mapBin(get(s,fr,I->getOperand(0)),get(s,fr,I->getOperand(1)),[o](T a,T b){return mkFBin(o,a,b);}); if(roundMode&&r.t&&!isConst(r.t)&&(fr.f->getName().starts_with("_ZN4dsga")||fr.f->getName().starts_with("_ZNK4dsga"))) oblige(s,"range",mkFCmp(Op::FLE,mkFAbs(r.t),mkF(r.t->s.k==Sk::F32?0x7f7fffffull:0x7fefffffffffffffull,r.t->s)),"no overflow",true); set(s,fr,I,r); } return; }
    case Instruction::Freeze: set(s,fr,I,get(s,fr,I->getOperand(0))); return;
    case Instruction::ExtractValue: { auto*e=cast<ExtractValueInst>(I); Val v=get(s,fr,e->getAggregateOperand()); for(unsigned i:e->indices()){ Val n=(*v.agg)[i]; v=n; } set(s,fr,I,v); return; }
    case Instruction::InsertValue: { auto*e=cast<InsertValueInst>(I); Val v=get(s,fr,e->getAggregateOperand()); Val x=get(s,fr,e->getInsertedValueOperand()); std::function<Val(Val,unsigned)> ins=[&](Val a,unsigned k)->Val{ if(k==e->getNumIndices()) return x; Val r; r.agg=std::make_shared<std::vector<Val>>(*a.agg); unsigned ix=e->getIndices()[k]; (*r.agg)[ix]=ins((*a.agg)[ix],k+1); return r; }; set(s,fr,I,ins(v,0)); return; }
    case Instruction::ExtractElement: { Val v=get(s,fr,I->getOperand(0)); T i=get(s,fr,I->getOperand(1)).t; if(!isConst(i)) throw Unsupported("extractelement"); Val r=(*v.agg)[i->val]; set(s,fr,I,r); return; }
    case Instruction::InsertElement: { Val v=get(s,fr,I->getOperand(0)); T i=get(s,fr,I->getOperand(2)).t; if(!isConst(i)) throw Unsupported("insertelement"); Val r; r.agg=std::make_shared<std::vector<Val>>(*v.agg); (*r.agg)[i->val]=get(s,fr,I->getOperand(1)); set(s,fr,I,r); return; }
    case Instruction::ShuffleVector: { auto*sv=cast<ShuffleVectorInst>(I); Val a=get(s,fr,sv->getOperand(0)),b=get(s,fr,sv->getOperand(1)); Val r; r.agg=std::make_shared<std::vector<Val>>(); int n=a.agg->size(); for(int m:sv->getShuffleMask()) r.agg->push_back(m<0?undef(cast<VectorType>(sv->getType())->getElementType()):m<n?(*a.agg)[m]:(*b.agg)[m-n]); set(s,fr,I,r); return; }
    case Instruction::LandingPad: { auto*lp=cast<LandingPadInst>(I); Val r; r.agg=std::make_shared<std::vector<Val>>(); T sel=mkBV(0,32); if(s.exc.ti->op!=Op::PTR) throw Unsupported("merged exception types"); const GlobalVariable*tg=gvobj.count(s.exc.ti->val)?gvobj[s.exc.ti->val]:nullptr; std::string tn=tg?tg->getName().str():"?"; bool done=false;
      static const std::map<std::string,std::string> base={{"_ZTISt11range_error","_ZTISt13runtime_error"},{"_ZTISt14overflow_error","_ZTISt13runtime_error"},{"_ZTISt13runtime_error","_ZTISt9exception"},{"_ZTISt12out_of_range","_ZTISt11logic_error"},{"_ZTISt16invalid_argument","_ZTISt11logic_error"},{"_ZTISt12domain_error","_ZTISt11logic_error"},{"_ZTISt12length_error","_ZTISt11logic_error"},{"_ZTISt11logic_error","_ZTISt9exception"},{"_ZTISt9bad_alloc","_ZTISt9exception"}};
      for(unsigned i=0;i<lp->getNumClauses()&&!done;i++) if(lp->isCatch(i)){ auto*c=lp->getClause(i)->stripPointerCasts(); if(isa<ConstantPointerNull>(c)){ sel=mkBV(1,32); done=true; } else { std::string cn=c->getName().str(); std::string x=tn; while(true){ if(x==cn){ sel=mkBV(0x100+globalObj(cast<GlobalValue>(c)),32); done=true; break; } auto it=base.find(x); if(it==base.end()) break; x=it->second; } } }
      else { // filter: treated as noexcept specification
        sel=mkBV(0xffffffff,32); done=true; }
      if(!done&&!lp->isCleanup()){ fr.unw->push_back(s); s.dead=true; return; }
      r.agg->push_back(V(s.exc.obj)); r.agg->push_back(V(sel)); set(s,fr,I,r); return; }
    default: break; }
  if(auto*c=dyn_cast<CastInst>(I)){ unsigned opc=c->getOpcode(); Val x=get(s,fr,c->getOperand(0)); Type*to=c->getDestTy();
    if(to->isVectorTy()||x.agg){ if(opc==Instruction::BitCast){ // through bits
        std::vector<T> bits; T acc=nullptr; std::function<void(const Val&)> walk=[&](const Val&v){ if(v.agg) for(auto&y:*v.agg) walk(y); else bits.push_back(toBits(v.t)); }; walk(x); for(auto b:bits) acc=acc?mkConcat(b,acc):b; 
        if(!to->isVectorTy()){ Sort d=sortOf(to); set(s,fr,I,V(isF(d)?mkBits2F(acc):acc)); return; }
        auto*vt=cast<FixedVectorType>(to); Type*e=vt->getElementType(); unsigned w=DL.getTypeSizeInBits(e); Val r; r.agg=std::make_shared<std::vector<Val>>(); for(unsigned i=0;i<vt->getNumElements();i++){ T b=mkExtract(acc,i*w+w-1,i*w); r.agg->push_back(V(e->isFloatingPointTy()?mkBits2F(b):b)); } set(s,fr,I,r); return; }
      Type*e=to->isVectorTy()?cast<VectorType>(to)->getElementType():to; set(s,fr,I,mapUn(x,[&](T a){return castOp(*this,opc,a,e);})); return; }
    if(opc==Instruction::FPToSI||opc==Instruction::FPToUI){ // the conversion is defined only when the truncated value fits
      Sort d=sortOf(to); T xx=x.t; auto mk=[&](double v){ if(xx->s.k==Sk::F64){uint64_t u;memcpy(&u,&v,8);return mkF(u,SF64());} float f=v; uint32_t u;memcpy(&u,&f,4); return mkF(u,SF32()); };
      T ok; if(d.k==Sk::Bool) ok=mkBool(true); else if(opc==Instruction::FPToSI){ double lo=-std::ldexp(1.0,d.w-1), hi=std::ldexp(1.0,d.w-1); bool loexact=(xx->s.k==Sk::F64&&d.w<=32); T l=loexact?mkFCmp(Op::FLT,mk(lo-1),xx):mkFCmp(Op::FLE,mk(lo),xx); ok=mkAnd(l,mkFCmp(Op::FLT,xx,mk(hi))); }
      else ok=mkAnd(mkFCmp(Op::FLT,mk(-1.0),xx),mkFCmp(Op::FLT,xx,mk(std::ldexp(1.0,d.w))));
      if(checkOvf) oblige(s,"conversion",ok,"float to integer conversion out of range"); if(s.dead) { set(s,fr,I,V(mkFresh("undef",d))); return; } }
    set(s,fr,I,V(castOp(*this,opc,x.t,to))); return; }
  if(auto*b=dyn_cast<BinaryOperator>(I)){ unsigned opc=b->getOpcode(); Val x=get(s,fr,b->getOperand(0)),y=get(s,fr,b->getOperand(1));
    if(!x.agg&&x.t->s.k==Sk::BV&&x.t->s.w<=64&&checkOvf){ T a=x.t,c=y.t; unsigned w=a->s.w; 
      if(opc==Instruction::UDiv||opc==Instruction::SDiv||opc==Instruction::URem||opc==Instruction::SRem){ oblige(s,"arith",mkNot(mkEq(c,mkBV(0,w))),"division by zero"); if(s.dead) return; if(opc==Instruction::SDiv||opc==Instruction::SRem){ oblige(s,"arith",mkNot(mkAnd(mkEq(a,mkBV(1ull<<(w-1),w)),mkEq(c,mkBV(~0ull,w)))),"signed division overflow"); } }
      else if(opc==Instruction::Shl||opc==Instruction::LShr||opc==Instruction::AShr){ oblige(s,"arith",mkCmp(Op::ULT,c,mkBV(w,w)),"shift count out of range"); }
      else if(auto*o=dyn_cast<OverflowingBinaryOperator>(b)) if(o->hasNoSignedWrap()&&w<64){ T wa=mkSext(a,2*w<=64?2*w:64),wc=mkSext(c,2*w<=64?2*w:64); T r=intBin(opc,wa,wc); T n=mkSext(intBin(opc,a,c),r->s.w); if(!(isConst(a)&&isConst(c))) oblige(s,"arith",mkEq(r,n),"signed overflow"); else if(isFalse(mkEq(r,n))) oblige(s,"arith",mkBool(false),"signed overflow"); }
      else if(o->hasNoSignedWrap()&&w==64&&!(isConst(a)&&isConst(c))){ // add/sub: sign test ; mul: 128-bit
        T r=intBin(opc,a,c); T z=mkBV(0,64); if(opc==Instruction::Add) oblige(s,"arith",mkNot(mkAnd(mkEq(mkCmp(Op::SLT,a,z),mkCmp(Op::SLT,c,z)),mkNot(mkEq(mkCmp(Op::SLT,a,z),mkCmp(Op::SLT,r,z))))),"signed overflow"); else if(opc==Instruction::Sub) oblige(s,"arith",mkNot(mkAnd(mkNot(mkEq(mkCmp(Op::SLT,a,z),mkCmp(Op::SLT,c,z))),mkNot(mkEq(mkCmp(Op::SLT,a,z),mkCmp(Op::SLT,r,z))))),"signed overflow"); else if(opc==Instruction::Mul) oblige(s,"arith",mkEq(mkBin(Op::MUL,mkSext(a,128),mkSext(c,128)),mkSext(r,128)),"signed overflow"); } }
    if(s.dead){ return; }
    set(s,fr,I,mapBin(x,y,[opc](T a,T c){return intBin(opc,a,c);})); return; }
  throw Unsupported(std::string("instruction ")+I->getOpcodeName()); }

// ------------------------------------------------------------------ external functions, intrinsics, contract builtins
static const char* UF1[]={"sin","cos","tan","asin","acos","atan","sinh","cosh","tanh","asinh","acosh","atanh","exp","exp2","expm1","log","log2","log10","log1p","cbrt","tgamma","lgamma","erf","erfc","logb"};
static const char* UF2[]={"atan2","pow","fmod","hypot","remainder","nextafter","fdim"};
static const std::map<std::string,unsigned> RTI={{"rint",0},{"nearbyint",0},{"roundeven",0},{"round",1},{"ceil",2},{"floor",3},{"trunc",4}};
static const std::set<std::string> IGN={"__cxa_end_catch","_ZdlPv","_ZdlPvm","_ZNSt11range_errorC1EPKc","_ZNSt11range_errorD1Ev","_ZNSt12out_of_rangeC1EPKc","_ZNSt12out_of_rangeD1Ev","_ZNSt16invalid_argumentC1EPKc","_ZNSt16invalid_argumentD1Ev","_ZNSt13runtime_errorC1EPKc","_ZNSt13runtime_errorD1Ev","_ZNSt11logic_errorC1EPKc","_ZNSt11logic_errorD1Ev","_ZNSt12domain_errorC1EPKc","_ZNSt12domain_errorD1Ev","_ZNSt12length_errorC1EPKc","_ZNSt12length_errorD1Ev","_ZNSt9exceptionD2Ev","_ZNSt14overflow_errorC1EPKc","_ZNSt14overflow_errorD1Ev"};

bool Exec::external(State&s,Frame&,const CallBase*cb,const Function*f,std::vector<Val>&a,Val&out,std::vector<State>&unw){
  std::string n=f->getName().str(); Type*rt=f->getReturnType();
  auto F=[&](int i){return a[i].t;};
  if(f->isIntrinsic()){
    switch(f->getIntrinsicID()){
      case Intrinsic::memcpy: case Intrinsic::memmove: memcpy_(s,F(0),F(1),F(2)); return true;
      case Intrinsic::memset: memset_(s,F(0),F(1),F(2)); return true;
      case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::assume: case Intrinsic::var_annotation: case Intrinsic::donothing: return true;
      case Intrinsic::expect: out=a[0]; return true;
      case Intrinsic::fabs: out=mapUn(a[0],[](T t){return mkFAbs(t);}); return true;
      case Intrinsic::sqrt: out=mapUn(a[0],[](T t){return mkFSqrt(t);}); return true;
      case Intrinsic::floor: out=mapUn(a[0],[](T t){return mkRti(3,t);}); return true; case Intrinsic::ceil: out=mapUn(a[0],[](T t){return mkRti(2,t);}); return true; case Intrinsic::trunc: out=mapUn(a[0],[](T t){return mkRti(4,t);}); return true; case Intrinsic::round: out=mapUn(a[0],[](T t){return mkRti(1,t);}); return true; case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: out=mapUn(a[0],[](T t){return mkRti(0,t);}); return true;
      case Intrinsic::fma: out.t=mkFma(F(0),F(1),F(2)); return true;
      case Intrinsic::fmuladd: out.t=mkFBin(Op::FADD,mkFBin(Op::FMUL,F(0),F(1)),F(2)); return true;
      case Intrinsic::copysign: { uint64_t sb=F(0)->s.k==Sk::F32?0x80000000ull:0x8000000000000000ull; unsigned w=F(0)->s.w; T m=mkBin(Op::BAND,mkF2Bits(F(0)),mkBV(sb-1,w)); T g=mkBin(Op::BAND,mkF2Bits(F(1)),mkBV(sb,w)); out.t=mkBits2F(mkBin(Op::BOR,m,g)); return true; }
      case Intrinsic::minnum: case Intrinsic::maxnum: { bool mn=f->getIntrinsicID()==Intrinsic::minnum; T x=F(0),y=F(1); T lt=mn?mkFCmp(Op::FLT,x,y):mkFCmp(Op::FLT,y,x); out.t=mkIte(mkIsNan(x),y,mkIte(mkIsNan(y),x,mkIte(lt,x,y))); return true; }
      case Intrinsic::is_fpclass: { uint64_t m=F(1)->val; T x=F(0); unsigned w=x->s.w; T b=mkF2Bits(x); uint64_t sb=w==32?0x80000000ull:0x8000000000000000ull, inf=w==32?0x7f800000ull:0x7ff0000000000000ull, qb=w==32?0x400000ull:0x8000000000000ull, mant=w==32?0x7fffffull:0xfffffffffffffull; T ab=mkBin(Op::BAND,b,mkBV(sb-1,w)); T neg=mkNot(mkEq(mkBin(Op::BAND,b,mkBV(sb,w)),mkBV(0,w))); T r=mkBool(false);
          T isn=mkCmp(Op::ULT,mkBV(inf,w),ab); T q=mkNot(mkEq(mkBin(Op::BAND,ab,mkBV(qb,w)),mkBV(0,w))); if((m&3)==3) r=mkOr(r,mkIsNan(x)); else { if(m&1) r=mkOr(r,mkAnd(isn,mkNot(q))); if(m&2) r=mkOr(r,mkAnd(isn,q)); }
          T isinf=mkEq(ab,mkBV(inf,w)), zero=mkEq(ab,mkBV(0,w)), sub=mkAnd(mkNot(zero),mkCmp(Op::ULE,ab,mkBV(mant,w))), nor=mkAnd(mkCmp(Op::ULT,mkBV(mant,w),ab),mkCmp(Op::ULT,ab,mkBV(inf,w)));
          T cls[4]={isinf,nor,sub,zero}; // neg: bits 2..5, pos: 9..6
          for(int i=0;i<4;i++){ bool bn=m>>(2+i)&1, bp=m>>(9-i)&1; if(bn&&bp) r=mkOr(r,cls[i]); else if(bn) r=mkOr(r,mkAnd(cls[i],neg)); else if(bp) r=mkOr(r,mkAnd(cls[i],mkNot(neg))); }
          out.t=r; return true; }
      case Intrinsic::bswap: { T x=F(0); T r=nullptr; for(unsigned i=0;i<x->s.w/8;i++){ T p=mkExtract(x,i*8+7,i*8); r=r?mkConcat(r,p):p; } out.t=r; return true; }
      case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: throw Unsupported("bit count intrinsic");
      case Intrinsic::abs: { T x=F(0); unsigned w=x->s.w; oblige(s,"arith",mkNot(mkEq(x,mkBV(1ull<<(w-1),w))),"abs overflow"); out.t=mkIte(mkCmp(Op::SLT,x,mkBV(0,w)),mkBin(Op::SUB,mkBV(0,w),x),x); return true; }
      case Intrinsic::smin: out.t=mkIte(mkCmp(Op::SLT,F(0),F(1)),F(0),F(1)); return true; case Intrinsic::smax: out.t=mkIte(mkCmp(Op::SLT,F(1),F(0)),F(0),F(1)); return true; case Intrinsic::umin: out.t=mkIte(mkCmp(Op::ULT,F(0),F(1)),F(0),F(1)); return true; case Intrinsic::umax: out.t=mkIte(mkCmp(Op::ULT,F(1),F(0)),F(0),F(1)); return true;
      case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: { auto id=f->getIntrinsicID(); bool sg=id==Intrinsic::sadd_with_overflow||id==Intrinsic::ssub_with_overflow||id==Intrinsic::smul_with_overflow; Op o=(id==Intrinsic::sadd_with_overflow||id==Intrinsic::uadd_with_overflow)?Op::ADD:(id==Intrinsic::ssub_with_overflow||id==Intrinsic::usub_with_overflow)?Op::SUB:Op::MUL; unsigned w=F(0)->s.w; auto x=[&](T t,unsigned W){return sg?mkSext(t,W):mkZext(t,W);}; T r=mkBin(o,F(0),F(1)); 
          T ov; if(w<64||o==Op::MUL){ unsigned W=w<64?(2*w<=64?2*w:64):128; if(W>=2*w||o!=Op::MUL){ T R=mkBin(o,x(F(0),W),x(F(1),W)); ov=mkNot(mkEq(R,x(r,W))); } else throw Unsupported("mul overflow width"); }
          else { T z=mkBV(0,64); auto ng=[&](T t){return mkCmp(Op::SLT,t,z);}; if(sg) ov=o==Op::ADD?mkAnd(mkEq(ng(F(0)),ng(F(1))),mkNot(mkEq(ng(F(0)),ng(r)))):mkAnd(mkNot(mkEq(ng(F(0)),ng(F(1)))),mkNot(mkEq(ng(F(0)),ng(r)))); else ov=o==Op::ADD?mkCmp(Op::ULT,r,F(0)):mkCmp(Op::ULT,F(0),F(1)); }
          out.agg=std::make_shared<std::vector<Val>>(); out.agg->push_back(V(r)); out.agg->push_back(V(ov)); return true; }
      case Intrinsic::eh_typeid_for: { auto*g=cb->getArgOperand(0)->stripPointerCasts(); out.t=mkBV(0x100+globalObj(cast<GlobalValue>(g)),32); return true; }
      case Intrinsic::sin: out.t=mkUF("sin",F(0)->s,{F(0)}); return true; case Intrinsic::cos: out.t=mkUF("cos",F(0)->s,{F(0)}); return true; case Intrinsic::exp: out.t=mkUF("exp",F(0)->s,{F(0)}); return true; case Intrinsic::exp2: out.t=mkUF("exp2",F(0)->s,{F(0)}); return true; case Intrinsic::log: out.t=mkUF("log",F(0)->s,{F(0)}); return true; case Intrinsic::log2: out.t=mkUF("log2",F(0)->s,{F(0)}); return true; case Intrinsic::log10: out.t=mkUF("log10",F(0)->s,{F(0)}); return true; case Intrinsic::pow: out.t=mkUF("pow",F(0)->s,{F(0),F(1)}); return true;
      case Intrinsic::ldexp: out.t=mkUF("ldexp",F(0)->s,{F(0),F(1)}); return true;
      case Intrinsic::frexp: { externs.insert(n); T m=mkUF("frexp.sig",F(0)->s,{F(0)}), e=mkUF("frexp.exp",SBV(32),{F(0)}); out.agg=std::make_shared<std::vector<Val>>(); Val v; v.t=m; out.agg->push_back(v); v.t=e; out.agg->push_back(v); return true; }
      case Intrinsic::trap: oblige(s,"trap",mkBool(false),"trap"); s.dead=true; return true;
      default: throw Unsupported("intrinsic "+n); } }
  // contract builtins
  if(n.rfind("v_",0)==0){
    auto in=[&](const char*ty,unsigned w,bool fl){ T v=mkVar("in"+std::to_string(inputs.size())+"_"+ty,SBV(w)); inputs.push_back({v->name,v,ty}); out.t=fl?mkBits2F(v):v; };
    if(n=="v_in_f32"){ in("f32",32,true); return true; } if(n=="v_in_f64"){ in("f64",64,true); return true; } if(n=="v_in_i32"){ in("i32",32,false); return true; } if(n=="v_in_i64"){ in("i64",64,false); return true; }
    if(n=="v_in_bool"){ T v=mkVar("in"+std::to_string(inputs.size())+"_b1",SBV(1)); inputs.push_back({v->name,v,"b1"}); out.t=mkEq(v,mkBV(1,1)); return true; }
    if(n=="v_requires"){ if(realMode&&F(0)->op==Op::REQ) {} assume(s,F(0)); return true; }
    if(n=="v_ensures"){ anyEnsures=true; std::string l=cstr(s,F(1)); oblige(s,"ensures",F(0),l,realMode); coverPc=mkBool(true); coverHyp=pcv(s.pc); return true; }
    if(n=="v_mode_real"){ realMode=true; return true; } if(n=="v_no_arith_ub"){ checkOvf=false; return true; } if(n=="v_arith_ub"){ checkOvf=true; return true; }
    if(n=="v_same_f32"||n=="v_same_f64"){ out.t=mkEq(F(0),F(1)); return true; }
    if(n=="v_req_f32"||n=="v_req_f64"){ out.t=mkReq(F(0),F(1)); return true; }
    if(n=="v_rti_f32"||n=="v_rti_f64"){ out.t=mkRti(F(0)->val,F(1)); return true; }
    if(n=="v_sqrt_f32"||n=="v_sqrt_f64"){ out.t=mkFSqrt(F(0)); return true; }
    if(n=="v_isnan_f32"||n=="v_isnan_f64"){ out.t=mkIsNan(F(0)); return true; }
    if(n=="v_and"){ out.t=mkAnd(F(0),F(1)); return true; } if(n=="v_or"){ out.t=mkOr(F(0),F(1)); return true; } if(n=="v_imp"){ out.t=mkOr(mkNot(F(0)),F(1)); return true; } if(n=="v_iff"){ out.t=mkEq(F(0),F(1)); return true; }
    if(n=="v_ite_f32"||n=="v_ite_f64"||n=="v_ite_i32"||n=="v_ite_i64"||n=="v_ite_b"){ out.t=mkIte(F(0),F(1),F(2)); return true; }
    if(n.rfind("v_uf",0)==0){ std::vector<T> as; for(size_t i=0;i<a.size();i++) as.push_back(a[i].t); out.t=mkUF(n,sortOf(rt),as); return true; }
    if(n=="v_mode_ibb"){ ibbMode=true; return true; }
    if(n=="v_mode_round"){ realMode=roundMode=true; return true; }
    auto fnArg=[&](T p)->const Function*{ if(p->op!=Op::PTR||!fobj.count(p->val)) throw Unsupported("function expected"); return fobj[p->val]; };
    if(n=="v_replace"){ repl.push_back({cstr(s,F(0)),fnArg(F(1))}); replMemo.clear(); return true; }
    if(n=="v_loop"){ loopSpecs.push_back({cstr(s,F(0)),(int)F(1)->val,fnArg(F(2))}); return true; }
    if(n=="v_inv"){ if(invMode==1) { anyEnsures=true; oblige(s,"invariant",F(0),cstr(s,F(1)),realMode); } else if(invMode==2) assume(s,F(0)); else throw Unsupported("v_inv outside an invariant"); return true; }
    if(n=="v_lemma"){ assumed.insert("lemma: "+cstr(s,F(1))); assume(s,F(0)); return true; }
    if(n=="v_local_f64"||n=="v_local_f32"||n=="v_local_i32"){ if(!invFn) throw Unsupported("v_local outside an invariant"); std::string w=cstr(s,F(0)); uint64_t off=F(1)->val; const AllocaInst*al=nullptr; for(auto&bb:*invFn) for(auto&I:bb) if(auto*q=dyn_cast<AllocaInst>(&I)) if(q->getName()==w||q->getName()==w+".addr") al=q; if(!al) throw Unsupported("no local "+w+" in "+demangle(invFn->getName().str())); T p=invRegs[invFi->num.at(al)].t; out.t=load(s,ptrAdd(p,mkBV(off,64)),rt).t; return true; }
    throw Unsupported("unknown builtin "+n); }
  if(n=="__assert_fail"){ std::string m="assertion failed"; try{ m+=": "+cstr(s,F(0)); }catch(Unsupported&){} oblige(s,"assert",mkBool(false),m.substr(0,120)); s.dead=true; return true; }
  if(n=="abort"||n=="_ZSt9terminatev"||n=="__clang_call_terminate"||n=="exit"||n=="_Exit"){ oblige(s,"terminate",mkBool(false),"program termination reached ("+n+")"); s.dead=true; return true; }
  if(n=="__cxa_allocate_exception"||n=="_Znwm"||n=="malloc"){ if(!isConst(F(0))) throw Unsupported("symbolic allocation"); uint64_t id=newObj(s,F(0)->val,"heap"); out.t=mkPtr(id,mkBV(0,64)); return true; }
  if(n=="__cxa_free_exception"||n=="free") return true;
  if(n=="__cxa_throw"){ State u=s; u.exc.ti=F(1); u.exc.obj=F(0); unw.push_back(std::move(u)); s.dead=true; return false; }
  if(n=="__cxa_rethrow"){ if(!s.exc.ti) throw Unsupported("rethrow"); unw.push_back(s); s.dead=true; return false; }
  if(n=="__cxa_begin_catch"){ out.t=F(0); return true; }
  static const std::map<std::string,std::pair<std::string,std::string>> stdthrow={{"_ZSt20__throw_out_of_rangePKc",{"_ZTISt12out_of_range","x"}},{"_ZSt20__throw_length_errorPKc",{"_ZTISt12length_error","x"}},{"_ZSt24__throw_out_of_range_fmtPKcz",{"_ZTISt12out_of_range","x"}}};
  { auto it=stdthrow.find(n); if(it!=stdthrow.end()){ auto*g=M.getNamedGlobal(it->second.first); if(!g) g=new GlobalVariable(M,PointerType::get(M.getContext(),0),true,GlobalValue::ExternalLinkage,nullptr,it->second.first); State u=s; uint64_t id=newObj(u,16,"exc"); u.exc.ti=mkPtr(globalObj(g),mkBV(0,64)); u.exc.obj=mkPtr(id,mkBV(0,64)); unw.push_back(std::move(u)); s.dead=true; return false; } }
  if(IGN.count(n)){ externs.insert(n); return true; }
  // libm
  { std::string m=n; Sort fs=SF64(); bool isf=false; if(rt->isFloatTy()&&!m.empty()&&m.back()=='f'){ m.pop_back(); isf=true; fs=SF32(); } (void)isf;
    auto rti=RTI.find(m); if(rti!=RTI.end()&&a.size()==1){ out.t=mkRti(rti->second,F(0)); return true; }
    if(m=="sqrt"){ out.t=mkFSqrt(F(0)); return true; } if(m=="fabs"){ out.t=mkFAbs(F(0)); return true; } if(m=="fma"){ out.t=mkFma(F(0),F(1),F(2)); return true; }
    if(m=="copysign"){ uint64_t sb=F(0)->s.k==Sk::F32?0x80000000ull:0x8000000000000000ull; unsigned w=F(0)->s.w; out.t=mkBits2F(mkBin(Op::BOR,mkBin(Op::BAND,mkF2Bits(F(0)),mkBV(sb-1,w)),mkBin(Op::BAND,mkF2Bits(F(1)),mkBV(sb,w)))); return true; }
    if(m=="fmin"||m=="fmax"){ T x=F(0),y=F(1); T lt=m=="fmin"?mkFCmp(Op::FLT,x,y):mkFCmp(Op::FLT,y,x); out.t=mkIte(mkIsNan(x),y,mkIte(mkIsNan(y),x,mkIte(lt,x,y))); externs.insert(n); return true; }
    for(auto u:UF1) if(m==u&&a.size()==1){ externs.insert(n); out.t=mkUF(m,fs,{F(0)}); return true; }
    for(auto u:UF2) if(m==u&&a.size()==2){ externs.insert(n); out.t=mkUF(m,fs,{F(0),F(1)}); return true; }
    if(m=="ldexp"||m=="scalbn"||m=="scalbln"){ externs.insert(n); out.t=mkUF(m,fs,{F(0),F(1)}); return true; }
    if(m=="frexp"){ externs.insert(n); T e=mkUF("frexp.exp",SBV(32),{F(0)}); storeScalar(s,F(1),4,e); out.t=mkUF("frexp.sig",fs,{F(0)}); return true; }
    if(m=="modf"){ T ip=mkRti(4,F(0)); storeScalar(s,F(1),fs.w/8,ip); externs.insert(n);
      // fraction: x - trunc(x) computed exactly, sign of x; infinities give a zero fraction
      T inf=mkEq(mkFAbs(F(0)),mkF(fs.k==Sk::F32?0x7f800000ull:0x7ff0000000000000ull,fs)); T fr=mkIte(inf,mkF(0,fs),mkFBin(Op::FSUB,F(0),ip)); uint64_t sb=fs.k==Sk::F32?0x80000000ull:0x8000000000000000ull; T bits=mkBin(Op::BOR,mkBin(Op::BAND,mkF2Bits(fr),mkBV(sb-1,fs.w)),mkBin(Op::BAND,mkF2Bits(F(0)),mkBV(sb,fs.w))); out.t=mkIte(mkIsNan(F(0)),F(0),mkBits2F(bits)); return true; }
  }
  if(n=="abs"||n=="labs"||n=="llabs"){ T x=F(0); unsigned w=x->s.w; if(checkOvf) oblige(s,"arith",mkNot(mkEq(x,mkBV(1ull<<(w-1),w))),"abs overflow"); out.t=mkIte(mkCmp(Op::SLT,x,mkBV(0,w)),mkBin(Op::SUB,mkBV(0,w),x),x); return true; }
  if(n=="memcpy"||n=="memmove"){ memcpy_(s,F(0),F(1),F(2)); out.t=F(0); return true; } if(n=="memset"){ memset_(s,F(0),mkExtract(F(1),7,0),F(2)); out.t=F(0); return true; }
  if(n=="strlen"){ out.t=mkBV(cstr(s,F(0)).size(),64); return true; }
  throw Unsupported("call to external function "+demangle(n)); }

void Exec::runHarness(const Function*f){
  obls.clear(); inputs.clear(); coverHyp.clear(); anyEnsures=false; coverPc=nullptr; realMode=false; roundMode=false; ibbMode=false; loopSpecs.clear(); repl.clear(); replMemo.clear(); assumed.clear(); invMode=0; invFn=nullptr; checkOvf=true; steps=0; depth=0; stack.clear(); touched.clear(); structural=0; feasQueries=0;
  State s; Rets rets; std::vector<State> unw; callFn(std::move(s),f,{},rets,unw,nullptr);
  for(auto&u:unw) oblige(u,"exception",mkBool(false),"exception escapes the operation");
  if(!rets.empty()){ std::vector<State> ss; T d=nullptr; for(auto&r:rets){ T c=mkBool(true); for(T l:pcv(r.first.pc)) c=mkAnd(c,l); d=d?mkOr(d,c):c; } coverHyp={d}; coverPc=d; }
}
