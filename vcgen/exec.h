#pragma once
#include "term.h"
#include <map>
#include <memory>
#include <set>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>

struct Val { T t=nullptr; std::shared_ptr<std::vector<Val>> agg; bool ok() const {return t||agg;} };
struct Cell { unsigned size; T v; };
struct Object { uint64_t size=0; bool isConst=false; bool heap=false; std::string name; std::map<uint64_t,Cell> cells; bool zeroFill=false; };
typedef std::shared_ptr<Object> ObjP;
struct PCN { std::shared_ptr<PCN> up; T lit; int depth; };
typedef std::shared_ptr<PCN> PC;

struct Exc { T ti=nullptr; T obj=nullptr; };
struct State {
  PC pc; std::map<uint64_t,ObjP> mem; bool dead=false; Exc exc;
  std::vector<Val> regs;            // registers of the current frame
  const llvm::BasicBlock* prev=nullptr;
};
struct Obligation {
  std::string kind, label, where; std::vector<T> hyp; T cond; bool real=false; bool round=false; bool ibb=false; uint64_t count=1;
};
struct Input { std::string name; T var; std::string type; };

struct FnInfo; struct Frame;

struct Exec {
  llvm::Module& M; const llvm::DataLayout& DL;
  std::map<const llvm::GlobalValue*,uint64_t> gobj; std::map<uint64_t,const llvm::Function*> fobj; std::map<uint64_t,const llvm::GlobalVariable*> gvobj; std::map<uint64_t,ObjP> globals0;
  std::map<uint64_t,std::string> objname;
  uint64_t nextObj=1;
  std::map<const llvm::Function*,std::shared_ptr<FnInfo>> finfo;
  // per-harness
  std::vector<Obligation> obls; std::vector<Input> inputs; std::vector<T> coverHyp; bool anyEnsures=false; T coverPc=nullptr;
  bool realMode=false; bool checkOvf=true; uint64_t steps=0, maxSteps=20000000; int depth=0; std::vector<const llvm::Function*> stack;
  std::set<const llvm::Function*> touched; std::set<std::string> externs; std::set<std::string> assumed; std::map<uint64_t,uint64_t> objSize; std::set<uint64_t> freed;
  int feasQueries=0; uint64_t structural=0; std::vector<T> loopCuts; std::set<std::string> boundedLoops;
  std::function<int(const std::vector<T>&)> feasible, feasibleP; // 1 sat/unknown, 0 unsat
  struct FixedChoice {};
  Exec(llvm::Module&m):M(m),DL(m.getDataLayout()){ }
  void runHarness(const llvm::Function*);
  // --
  typedef std::vector<std::pair<State,Val>> Rets;
  void callFn(State s,const llvm::Function*f,std::vector<Val> args,Rets& rets,std::vector<State>& unw,const llvm::CallBase* cb);
  void region(State s,const llvm::BasicBlock*b,const llvm::BasicBlock*stop,Frame&fr,std::vector<State>& atStop);
  bool jump(State& s,const llvm::BasicBlock*from,const llvm::BasicBlock*to,Frame&fr);
  State merge(std::vector<State>&); void merge2(State&a,State&b);
  Val evalC(const llvm::Constant*c); Val get(State&,Frame&,const llvm::Value*);
  void set(State&,Frame&,const llvm::Value*,Val);
  void inst(State&s,Frame&fr,const llvm::Instruction*I);
  bool external(State&s,Frame&fr,const llvm::CallBase*cb,const llvm::Function*f,std::vector<Val>&args,Val&out,std::vector<State>&unw);
  void oblige(State&s,const std::string&kind,T cond,const std::string&label="",bool real=false);
  T known(State&s,T c); void assume(State&s,T c);
  bool infeasible(State&s,T c);
  Val load(State&s,T p,llvm::Type*ty); void store(State&s,T p,Val v,llvm::Type*ty);
  T loadScalar(State&s,T p,unsigned bytes,llvm::Type*ty); void storeScalar(State&s,T p,unsigned bytes,T v);
  T readCells(Object&o,uint64_t off,unsigned bytes,Sort want); void writeCells(Object&o,uint64_t off,unsigned bytes,T v);
  ObjP& own(State&s,uint64_t id); ObjP getObj(State&s,uint64_t id);
  uint64_t newObj(State&s,uint64_t size,const std::string&name);
  bool byLength(State&s,T n,uint64_t cap,std::function<void(State&,T)> f);
  void memcpy_(State&s,T d,T src,T n); void memset_(State&s,T d,T b,T n);
  uint64_t globalObj(const llvm::GlobalValue*); void initCells(Object&o,uint64_t off,const llvm::Constant*c);
  T ptrAdd(T p,T off); std::vector<std::pair<T,T>> cases(T p); // guarded pointers
  T addr(T p); Sort sortOf(llvm::Type*); Val undef(llvm::Type*);
  // modular pieces of a contract: callees replaced by their contract, loops cut by an invariant
  struct LoopSpec { std::string fn; int idx; const llvm::Function* inv; bool used=false; };
  struct LoopCut { const llvm::BasicBlock* head; std::set<const llvm::BasicBlock*> body; };
  std::vector<LoopSpec> loopSpecs; std::vector<std::pair<std::string,const llvm::Function*>> repl; std::map<const llvm::Function*,const llvm::Function*> replMemo; std::map<const llvm::Function*,std::vector<LoopCut>> loopMemo;
  bool roundMode=false; bool ibbMode=false; int invMode=0; const llvm::Function* invFn=nullptr; std::vector<Val> invRegs; FnInfo* invFi=nullptr;
  bool named(const llvm::Function*f,const std::string&name); int cutLoop(State&s,const llvm::BasicBlock*b,Frame&fr); void runInv(State&s,Frame&fr,const llvm::Function*inv,int mode);
  std::vector<T> pcv(const PC&); std::string where(); std::string cstr(State&s,T p);
  Val mapBin(const Val&a,const Val&b,std::function<T(T,T)>f); Val mapUn(const Val&a,std::function<T(T)>f);
};
std::string demangle(const std::string&);
