// Abstract interpretation of LLVM IR (produced from the current sources, no optimisation passes but SROA).
#include "interp.hpp"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Constants.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IR/Dominators.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <algorithm>
using namespace llvm;
static LLVMContext Ctx; static std::unique_ptr<Module> M; static const DataLayout*DL;
static const Instruction*curI=nullptr;
static std::map<const GlobalValue*,int> gvRegion;
struct Frame { Function*F; DenseMap<const Value*,Val> env; std::vector<int> allocas; };
std::string srcLoc(const Instruction*I){
  if(!I) return "?"; const DebugLoc&L=I->getDebugLoc(); if(!L) { return I->getFunction()->getName().str(); }
  const DILocation*dl=L.get(); std::string f=dl->getFilename().str(); size_t p=f.rfind("/repo/"); 
  return f+":"+std::to_string(dl->getLine());
}
void Interp::updateLoc(){ if(inAsm){ curLoc=asmLoc; curFn=asmFn; return; } if(curI){ 
    // report intrinsic-header code at its caller
    curLoc=srcLoc(curI); curFn=curI->getFunction()->getName().str(); } }
bool Interp::loadModules(const std::vector<std::string>&files,std::string&err){
  SMDiagnostic E; std::unique_ptr<Linker> L;
  for(auto&f:files){ auto m=parseIRFile(f,E,Ctx); if(!m){ err=f+": "+E.getMessage().str(); return false; }
    if(!M){ M=std::move(m); L=std::make_unique<Linker>(*M); } else if(L->linkInModule(std::move(m))){ err="link "+f; return false; } }
  PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM,FAM,CGAM,MAM);
  ModulePassManager MPM; if(auto e=PB.parsePassPipeline(MPM,"function(sroa)")) { err="pipeline"; return false; } MPM.run(*M,MAM);
  DL=&M->getDataLayout(); return true;
}
bool Interp::haveFn(const std::string&n){ Function*f=M->getFunction(n); return f&&!f->isDeclaration(); }
std::vector<std::string> Interp::functions(){ std::vector<std::string> r; for(auto&F:*M) if(!F.isDeclaration()) r.push_back(F.getName().str()); return r; }

static int scalW(Type*t){ if(t->isPointerTy()) return 64; if(t->isIntegerTy()) return t->getIntegerBitWidth(); if(t->isDoubleTy()) return 64; if(t->isFloatTy()) return 32; return 0; }
static void flatTypes(Type*t,std::vector<Type*>&out){ if(auto*v=dyn_cast<FixedVectorType>(t)){ for(unsigned i=0;i<v->getNumElements();i++) out.push_back(v->getElementType()); } else if(auto*s=dyn_cast<StructType>(t)){ for(Type*e:s->elements()) flatTypes(e,out); } else if(auto*a=dyn_cast<ArrayType>(t)){ for(unsigned i=0;i<a->getNumElements();i++) flatTypes(a->getElementType(),out); } else out.push_back(t); }
static Val undefOf(Type*t){ std::vector<Type*> f; flatTypes(t,f); Val v; for(Type*x:f) v.push_back(D.mkUninit(scalW(x))); return v; }
Val reslice(const Val&v,int toW){
  if(v.empty()) return v; int fw=D.w(v[0]); if(fw==toW) return v; Val r;
  if(toW<fw){ for(NID x:v) for(int o=0;o<fw;o+=toW) r.push_back(D.extract(x,o,toW)); }
  else { int k=toW/fw; for(size_t i=0;i<v.size();i+=k){ std::vector<NID> p(v.begin()+i,v.begin()+i+k); r.push_back(D.concat(p)); } }
  return r;
}
static std::map<const Constant*,Val> constCache;
static int regionOfGlobal(Interp&I,const GlobalValue*g);
static void fillConst(Interp&I,int reg,u64 off,const Constant*c);
static Val constVal(Interp&I,const Constant*c){
  auto it=constCache.find(c); if(it!=constCache.end()) return it->second; Val r; Type*t=c->getType();
  if(auto*ci=dyn_cast<ConstantInt>(c)){ if(ci->getBitWidth()>64){ I.stop("wide integer constant"); r.push_back(D.mkConst(0,64)); } else r.push_back(D.mkConst(ci->getBitWidth()==64?(i64)ci->getZExtValue():(i64)ci->getSExtValue(),ci->getBitWidth())); }
  else if(isa<UndefValue>(c)) r=undefOf(t);
  else if(isa<ConstantPointerNull>(c)) r.push_back(D.mkConst(0,64));
  else if(auto*cf=dyn_cast<ConstantFP>(c)){ APInt b=cf->getValueAPF().bitcastToAPInt(); r.push_back(D.mkConst((i64)b.getZExtValue(),b.getBitWidth())); }
  else if(auto*g=dyn_cast<GlobalValue>(c)) r.push_back(D.mkPtr(regionOfGlobal(I,g),D.mkConst(0,64)));
  else if(auto*cv=dyn_cast<ConstantDataSequential>(c)){ for(unsigned i=0;i<cv->getNumElements();i++){ Val e=constVal(I,cv->getElementAsConstant(i)); r.insert(r.end(),e.begin(),e.end()); } }
  else if(isa<ConstantAggregateZero>(c)){ std::vector<Type*> f; flatTypes(t,f); for(Type*x:f) r.push_back(D.mkConst(0,scalW(x))); }
  else if(auto*ca=dyn_cast<ConstantAggregate>(c)){ for(unsigned i=0;i<ca->getNumOperands();i++){ Val e=constVal(I,cast<Constant>(ca->getOperand(i))); r.insert(r.end(),e.begin(),e.end()); } }
  else if(auto*ce=dyn_cast<ConstantExpr>(c)){
    if(auto*gep=dyn_cast<GEPOperator>(ce)){ APInt off(64,0); if(gep->accumulateConstantOffset(*DL,off)){ Val b=constVal(I,cast<Constant>(gep->getPointerOperand())); r.push_back(D.bin(ADD,b[0],D.mkConst(off.getSExtValue(),64))); } }
    else if(ce->getOpcode()==Instruction::BitCast||ce->getOpcode()==Instruction::IntToPtr||ce->getOpcode()==Instruction::PtrToInt) r=constVal(I,cast<Constant>(ce->getOperand(0)));
    if(r.empty()){ I.stop("constant expression"); r.push_back(D.mkUninit(64)); } }
  else { I.stop("unhandled constant"); r=undefOf(t); }
  return constCache[c]=r;
}
static void fillConst(Interp&I,int reg,u64 off,const Constant*c){
  Type*t=c->getType();
  if(auto*s=dyn_cast<StructType>(t)){ auto*sl=DL->getStructLayout(s); for(unsigned i=0;i<s->getNumElements();i++) fillConst(I,reg,off+sl->getElementOffset(i),c->getAggregateElement(i)); return; }
  if(auto*a=dyn_cast<ArrayType>(t)){ u64 es=DL->getTypeAllocSize(a->getElementType()); for(u64 i=0;i<a->getNumElements();i++) fillConst(I,reg,off+i*es,c->getAggregateElement(i)); return; }
  Val v=constVal(I,c); for(NID x:v){ I.storeCells(*I.S.r[reg],off,x); off+=(D.w(x)+7)/8; }
}
static int regionOfGlobal(Interp&I,const GlobalValue*g){
  auto it=gvRegion.find(g); if(it!=gvRegion.end()) return it->second;
  if(auto*v=dyn_cast<GlobalVariable>(g)){ u64 sz=DL->getTypeAllocSize(v->getValueType()); u32 al=v->getAlign()?v->getAlign()->value():DL->getABITypeAlign(v->getValueType()).value();
    int r=I.newRegion("global "+g->getName().str(),v->isConstant()?'c':'g',sz,al,!v->isConstant()); gvRegion[g]=r;
    if(v->hasInitializer()) fillConst(I,r,0,v->getInitializer()); else I.ev("undefined-global","no definition of "+g->getName().str());
    if(I.hidden.count(g->getName().str())) for(u64 i=0;i<sz;i++){ H128 h(120); h.adds(g->getName().str()); h.add(i); NID a=D.mkAtomBits(h.fin(),8,false); D.N[a].ext=true; I.storeCells(*I.S.r[r],i,a); }
    I.S.r[r]->written=false; I.globalInit[r]=I.S.r[r]; return r; }
  int r=I.newRegion("function "+g->getName().str(),'f',1,1,false); gvRegion[g]=r; return r;
}

typedef DenseMap<const Value*,Val> Env;
struct Out { State S; Val ret; };
// what a block belongs to: enclosing loops (outermost first) with the position of each among its siblings
struct BInfo { std::vector<std::pair<const Loop*,int>> loops; int pos; const Loop*headerOf=nullptr; };
struct FInfo { std::unique_ptr<DominatorTree> dt; std::unique_ptr<LoopInfo> li; DenseMap<const BasicBlock*,BInfo> b; bool liveDone=false; DenseMap<const BasicBlock*,DenseSet<const Value*>> live; };
static std::map<const Function*,std::unique_ptr<FInfo>> finfos;
static FInfo& finfo(Function*F);
static const DenseSet<const Value*>& liveIn(FInfo&fi,Function*F,const BasicBlock*bb);
struct Item { BasicBlock*bb; BasicBlock::iterator it; State S; Env env; std::vector<std::pair<const Loop*,int>> iters; std::vector<int> key; };
struct Snap { State S; Env env; u64 sq; };
struct Exec {
  Interp&I; Exec(Interp&i):I(i){}
  Val get(Frame&fr,const Value*v){ if(auto*c=dyn_cast<Constant>(v)) return constVal(I,c); auto it=fr.env.find(v); if(it==fr.env.end()){ I.stop("value undefined"); return undefOf(v->getType()); } return it->second; }
  NID get1(Frame&fr,const Value*v){ return get(fr,v)[0]; }
  std::vector<Out> pendingOuts;   // further outcomes of the call just interpreted
  void callFn(Function*F,std::vector<Val>&args,std::vector<Out>&outs);
  void run(Frame&fr,BasicBlock*entry,std::vector<Out>&outs);
  bool inst(Frame&fr,Instruction*in);  // false: dead (noreturn)
  bool callInst(Frame&fr,CallBase*cb);
  bool intrinsic(const std::string&n,CallBase*cb,std::vector<Val>&a,Val&r);
  void doPhis(Frame&fr,BasicBlock*bb,BasicBlock*pred);
  void branchChecks(NID c);
  bool mergeInto(Item&a,Item&b,const std::vector<const Value*>&live,Val*ra,Val*rb,bool force);
  bool mergeMem(const State&a,const State&b,State&o,NID sel,bool haveSel,bool sameCond,bool force);
  void setKey(FInfo&fi,Item&x);
  void moveTo(FInfo&fi,Frame&fr,std::vector<std::pair<const Loop*,int>>&iters,BasicBlock*from,BasicBlock*to);
};
void Exec::branchChecks(NID c){ I.nBranches++; if(D.hasUninit(c)) I.ev("uninit-branch","branch condition depends on uninitialised data"); else if(D.secret(c)) I.ev("secret-branch","branch condition depends on secret data"); }
static NID mergeNode(NID c,NID a,NID b){ if(a==b) return a; if(D.N[a].k==KPTR&&D.N[b].k==KPTR&&D.N[a].c==D.N[b].c){ int rg=D.N[a].c; return D.mkPtr(rg,mergeNode(c,D.arg(a,0),D.arg(b,0))); } if(D.N[a].k==KPTR||D.N[b].k==KPTR) return D.mkUninit(D.w(a)); return D.select(c,a,b); }
static NID joinNode(NID a,NID b){ if(a==b) return a; if(D.N[a].k==KPTR&&D.N[b].k==KPTR&&D.N[a].c==D.N[b].c){ int rg=D.N[a].c; return D.mkPtr(rg,joinNode(D.arg(a,0),D.arg(b,0))); } if(D.N[a].k==KPTR||D.N[b].k==KPTR||D.hasUninit(a)||D.hasUninit(b)) return D.mkUninit(D.w(a)); return D.opaque(D.w(a),{a,b},"join",std::min(D.N[a].lo,D.N[b].lo),std::max(D.N[a].hi,D.N[b].hi)); }
// ---- control-flow bookkeeping: loops, an order in which joins are reached by all their paths first, liveness
static void orderIn(FInfo&fi,const Loop*L,const std::vector<BasicBlock*>&blocks,BasicBlock*entry,std::vector<std::pair<const Loop*,int>> pre){
  // collapse sub-loops; reverse post-order of the collapsed graph without back edges to `entry`
  auto rep=[&](const BasicBlock*b)->const void*{ const Loop*x=fi.li->getLoopFor(b); if(x==L) return b; while(x&&x->getParentLoop()!=L) x=x->getParentLoop(); return x; };
  DenseSet<const BasicBlock*> in; for(auto*b:blocks) in.insert(b);
  std::map<const void*,std::vector<BasicBlock*>> mem; for(auto*b:blocks) mem[rep(b)].push_back(b);
  std::vector<const void*> post; std::set<const void*> seen; std::function<void(const void*)> dfs=[&](const void*n){ if(!seen.insert(n).second) return; for(auto*b:mem[n]) for(auto*s:successors(b)) if(in.count(s)&&s!=entry&&rep(s)!=n) dfs(rep(s)); post.push_back(n); };
  dfs(rep(entry)); int k=0; for(size_t i=post.size();i-->0;k++){ auto&m=mem[post[i]]; const Loop*sub=nullptr; for(const Loop*x=fi.li->getLoopFor(m[0]);x&&x!=L;x=x->getParentLoop()) sub=x;
    if(!sub){ auto&bi=fi.b[m[0]]; bi.loops=pre; bi.pos=k; if(L&&L->getHeader()==m[0]) bi.headerOf=L; }
    else { auto p=pre; p.push_back({sub,k}); orderIn(fi,sub,m,sub->getHeader(),p); } }
}
static FInfo& finfo(Function*F){ auto&p=finfos[F]; if(!p){ p=std::make_unique<FInfo>(); p->dt=std::make_unique<DominatorTree>(*F); p->li=std::make_unique<LoopInfo>(*p->dt); std::vector<BasicBlock*> bl; for(auto&b:*F) if(p->dt->isReachableFromEntry(&b)) bl.push_back(&b); orderIn(*p,nullptr,bl,&F->getEntryBlock(),{}); } return *p; }
static const DenseSet<const Value*>& liveIn(FInfo&fi,Function*F,const BasicBlock*bb){ // values needed at the start of bb, its own phis included
  if(!fi.liveDone){ fi.liveDone=true; std::vector<const BasicBlock*> bl; for(auto&b:*F){ bl.push_back(&b); fi.live[&b]; } bool ch=true;
    while(ch){ ch=false; for(size_t i=bl.size();i-->0;){ const BasicBlock*b=bl[i]; DenseSet<const Value*> s; for(auto*x:successors(b)){ for(auto*v:fi.live[x]){ auto*p=dyn_cast<PHINode>(v); if(p&&p->getParent()==x) continue; s.insert(v); } for(auto&p:x->phis()){ const Value*v=p.getIncomingValueForBlock(b); if(!isa<Constant>(v)) s.insert(v); } }
        for(auto it=b->rbegin();it!=b->rend();++it){ const Instruction*in=&*it; if(isa<PHINode>(in)) continue; s.erase(in); for(auto&o:in->operands()) if(isa<Instruction>(o)||isa<Argument>(o)) s.insert(o.get()); }
        for(auto&p:b->phis()) { if(!p.use_empty()) s.insert(&p); } auto&old=fi.live[b]; if(s.size()!=old.size()){ old=std::move(s); ch=true; } } } }
  return fi.live[bb];
}
void Exec::setKey(FInfo&fi,Item&x){ auto&bi=fi.b[x.bb]; x.key.clear(); for(auto&l:bi.loops){ x.key.push_back(l.second); int n=0; for(auto&t:x.iters) if(t.first==l.first) n=t.second; x.key.push_back(n); } x.key.push_back(bi.pos); x.key.push_back(x.it==x.bb->getFirstNonPHI()->getIterator()?0:1); }
void Exec::doPhis(Frame&fr,BasicBlock*bb,BasicBlock*pred){ std::vector<std::pair<PHINode*,Val>> t; for(auto&p:bb->phis()) t.push_back({&p,get(fr,p.getIncomingValueForBlock(pred))}); for(auto&x:t) fr.env[x.first]=x.second; }
void Exec::moveTo(FInfo&fi,Frame&fr,std::vector<std::pair<const Loop*,int>>&iters,BasicBlock*from,BasicBlock*to){
  doPhis(fr,to,from); auto&bi=fi.b[to]; if(const Loop*L=bi.headerOf){ bool back=L->contains(from); bool f=false; for(auto&t:iters) if(t.first==L){ t.second=back?t.second+1:0; f=true; } if(!f) iters.push_back({L,0}); }
}
// ---- joins
static void settleBoth(Interp&I,State&a,State&b){ if(a.sm.empty()&&b.sm.empty()) return; I.settle(a); I.settle(b); }
bool Exec::mergeMem(const State&a,const State&b,State&o,NID sel,bool haveSel,bool sameCond,bool force){
  // summaries of sampled arrays: what both sides have
  o.sm.clear(); auto norm=[&](const State&T,SMeta m){ while(!m.complete&&I.accKnown(T,m.s,m.upto)==0) m.upto++; return m; };
  auto find=[&](const State&T,const SMeta&k,SMeta&r){ for(auto&m:T.sm) if(m.reg==k.reg&&m.base==k.base){ if(m.s!=k.s) return false; r=m; return true; } r=k; r.upto=0; r.complete=false; r.cleared=false; r=norm(T,r); return r.upto>0; };
  std::vector<SMeta> keys=a.sm; for(auto&m:b.sm){ bool h=false; for(auto&k:keys) h|=k.reg==m.reg&&k.base==m.base; if(!h) keys.push_back(m); }
  for(auto&k:keys){ SMeta x,y; if(!find(a,k,x)||!find(b,k,y)) continue; SMeta m=x; if(x.complete&&y.complete){} else if(x.complete){ m=y; } else if(y.complete){} else m.upto=std::min(x.upto,y.upto); m.cleared=true; o.sm.push_back(m); }
  size_t n=std::max(a.r.size(),b.r.size()); o.r.assign(n,nullptr);
  for(size_t i=0;i<n;i++){ RP A=i<a.r.size()?a.r[i]:nullptr,B=i<b.r.size()?b.r[i]:nullptr; if((A&&!B)||(B&&!A)){ auto g=I.globalInit.find(i); if(g!=I.globalInit.end()){ if(!A) A=g->second; else B=g->second; } } if(A==B||!B||!A){ o.r[i]=A==B?A:nullptr; if(A!=B){ RP X=A?A:B; if(X->kind!='s') o.r[i]=X; } 
      if(o.r[i]) for(auto&m:o.sm) if(m.reg==(int)i&&!m.complete){ bool any=false; for(int q=0;q<512;q++) any|=o.r[i]->c[m.base+q].n!=0; if(any){ auto c=std::make_shared<Region>(*o.r[i]); for(int q=0;q<512;q++) c->c[m.base+q]={0,0}; o.r[i]=c; } } continue; }
    auto m=std::make_shared<Region>(*A); const Region&x=*A,&y=*B; m->written=x.written||y.written; m->alive=x.alive&&y.alive; if(!m->alive){ o.r[i]=m; continue; }
    std::vector<char> in(m->c.size(),0); for(auto&t:o.sm) if(t.reg==(int)i&&!t.complete) for(int q=0;q<512;q++){ in[t.base+q]=1; m->c[t.base+q]={0,0}; }
    bool small=m->c.size()<=64&&m->kind=='s';
    auto one=[&](NID p,NID q,NID&v){ if(sameCond&&(D.N[p].smp||D.N[q].smp)&&I.smergeVal(a,b,p,q,v)) return true; if(haveSel){ v=mergeNode(sel,p,q); return true; } if(I.smergeVal(a,b,p,q,v)) return true; if(small&&!force) return false; v=joinNode(p,q); return true; };
    for(size_t k=0;k<m->c.size()&&k<y.c.size();){ if(in[k]){ k++; continue; } Cell p=x.c[k],q=y.c[k]; if(p.n==q.n&&p.i==q.i){ k++; continue; }
      if(p.n&&q.n&&p.i==0&&q.i==0&&D.w(p.n)==D.w(q.n)){ int by=(D.w(p.n)+7)/8; bool ok=true; for(int j=0;j<by&&ok;j++) ok=k+j<m->c.size()&&x.c[k+j].n==p.n&&x.c[k+j].i==j&&y.c[k+j].n==q.n&&y.c[k+j].i==j; if(ok){ NID v; if(!one(p.n,q.n,v)) return false; I.storeCells(*m,k,v); k+=by; continue; } }
      if(!p.n||!q.n){ m->c[k]={0,0}; k++; continue; }
      NID v; if(!one(I.loadCells(x,k,1),I.loadCells(y,k,1),v)) return false; I.storeCells(*m,k,v); k++; }
    o.r[i]=m; }
  return true;
}
bool Exec::mergeInto(Item&a,Item&b,const std::vector<const Value*>&live,Val*ra,Val*rb,bool force){
  if(!force&&a.S.split!=b.S.split) return false;
  bool same=a.S.cond==b.S.cond; NID sel=0; std::vector<NID> cond; u32 ss=0; int sj=0; bool haveA=false;
  if(!same){ size_t p=0; while(p<a.S.cond.size()&&p<b.S.cond.size()&&a.S.cond[p]==b.S.cond[p]) p++; cond.assign(a.S.cond.begin(),a.S.cond.begin()+p);
    auto conj=[&](const std::vector<NID>&c){ NID r=D.mkConst(1,1); for(size_t i=p;i<c.size();i++) r=D.band(r,c[i]); return r; };
    bool ea=p==a.S.cond.size(),eb=p==b.S.cond.size(); if(ea) sel=D.bnot(conj(b.S.cond)); else if(eb) sel=conj(a.S.cond); else if(D.bnot(a.S.cond[p])==b.S.cond[p]||D.g(D.bxor(a.S.cond[p],b.S.cond[p]))==gone()) sel=a.S.cond[p]; else sel=conj(a.S.cond);
    if(!ea&&!eb){ if(p+1==a.S.cond.size()&&p+1==b.S.cond.size()&&sel==a.S.cond[p]&&D.g(D.bxor(a.S.cond[p],b.S.cond[p]))==gone()){} else { NID d=D.bor(conj(a.S.cond),conj(b.S.cond)); if(!(D.isConst(d)&&D.cval(d))&&!(D.g(d)==gone())) cond.push_back(d); } } }
  else { cond=a.S.cond; haveA=I.complementaryAcc(a.S,b.S,ss,sj); if(haveA){ sel=I.streams[ss].A[sj]; if(I.accKnown(a.S,ss,sj)==0) sel=D.bnot(sel); } }
  settleBoth(I,a.S,b.S);
  bool facts=same&&!(a.S.af.empty()&&b.S.af.empty());
  auto cn=[&](State&T,NID x){ if(!facts||!D.N[x].smp||D.w(x)==1) return x; std::swap(I.S,T); NID y=I.canon(x); std::swap(I.S,T); return y; };
  if(facts) for(State*T:{&a.S,&b.S}) for(size_t i=0;i<T->r.size();i++){ RP&r=T->r[i]; if(!r||r->kind!='s'||!r->alive||r->c.size()>64) continue; for(size_t k=0;k<r->c.size();k++){ Cell c=r->c[k]; if(!c.n||c.i||!D.N[c.n].smp) continue; NID y=cn(*T,c.n); if(y==c.n) continue; bool whole=true; int by=D.w(c.n)/8; for(int q=0;q<by&&whole;q++) whole=k+q<r->c.size()&&r->c[k+q].n==c.n&&r->c[k+q].i==q; if(!whole) continue; r=std::make_shared<Region>(*r); I.storeCells(*r,k,y); } }
  auto one=[&](NID x,NID y,NID&v){ x=cn(a.S,x); y=cn(b.S,y); if(x==y){ v=x; return true; } if(!same){ v=mergeNode(sel,x,y); return true; } if(I.smergeVal(a.S,b.S,x,y,v)) return true; if(haveA&&D.N[x].k!=KPTR&&D.N[y].k!=KPTR){ v=D.select(sel,x,y); return true; } if(!force) return false; v=joinNode(x,y); return true; };
  auto vec=[&](const Val&x,const Val&y,Val&r){ r.resize(x.size()); if(x.size()!=y.size()) return false; for(size_t k=0;k<x.size();k++) if(!one(x[k],y[k],r[k])) return false; return true; };
  std::vector<std::pair<const Value*,Val>> nv; for(auto*v:live){ auto i=a.env.find(v),j=b.env.find(v); if(i==a.env.end()||j==b.env.end()) continue; bool sm=false; if(facts) for(NID x:i->second) sm|=D.N[x].smp; if(i->second==j->second&&!sm) continue; Val r; if(!vec(i->second,j->second,r)) return false; nv.push_back({v,r}); }
  Val rr; if(ra){ if(!vec(*ra,*rb,rr)) return false; }
  State o; o.cond=cond; if(a.S.split==b.S.split) o.split=a.S.split; if(!mergeMem(a.S,b.S,o,sel,!same||haveA,same,force)) return false;
  I.smergeFacts(a.S,b.S,o); a.S=std::move(o); for(auto&x:nv) a.env[x.first]=x.second; if(ra) *ra=rr; I.nSamplerMerges++; return true;
}
void Exec::run(Frame&fr,BasicBlock*entry,std::vector<Out>&outs){
  FInfo&fi=finfo(fr.F); std::vector<Item> pend; std::map<const BasicBlock*,std::vector<Snap>> snaps; std::map<const BasicBlock*,int> forks; std::vector<Item> ready;
  BasicBlock*bb=entry; BasicBlock::iterator it=bb->getFirstNonPHI()->getIterator(); std::vector<std::pair<const Loop*,int>> iters; if(fi.b[bb].headerOf) iters.push_back({fi.b[bb].headerOf,0});
  struct Ret { State S; Val v; }; std::vector<Ret> rets; size_t condDepth=I.S.cond.size(); (void)condDepth;
  auto trim=[&](Env&e,BasicBlock*b){ auto&L=liveIn(fi,fr.F,b); Env n; for(auto*v:L){ auto i=e.find(v); if(i!=e.end()) n[v]=i->second; } return n; };
  // has the state only moved along the stream since this point was last passed?
  auto closeLoop=[&](BasicBlock*at){ bool closed=false; auto&sl=snaps[at];
      for(size_t si=sl.size();si-->0&&!closed;) if(I.squeezedTotal>sl[si].sq){ Snap*sn=&sl[si]; std::map<u32,i64> d; State&p=sn->S; bool ok=sn->env.size()==fr.env.size(); I.settle(I.S);
          if(ok) for(auto&kv:fr.env){ auto o=sn->env.find(kv.first); if(o==sn->env.end()||o->second.size()!=kv.second.size()){ ok=false; break; } for(size_t k=0;k<kv.second.size()&&ok;k++) ok=I.shapeEq(p,I.S,o->second[k],kv.second[k],d); }
          ok=ok&&I.shapeEqState(p,I.S,d)&&I.shapeFacts(p,I.S,d)&&!d.empty(); if(ok) for(auto&x:d) ok=ok&&x.second>0;
          closed=ok; }
    if(closed){ I.nInductions++; return true; }
      if(sl.empty()||I.squeezedTotal>sl.back().sq){ if(sl.size()>=24) sl.erase(sl.begin()); sl.push_back(Snap{I.S,fr.env,I.squeezedTotal}); }
    return false; };
  bool running=true;
  while(true){
    if(I.aborted) return;
    if(!running){ // choose the next path
      if(!ready.empty()){ Item x=std::move(ready.back()); ready.pop_back(); I.S=std::move(x.S); fr.env=std::move(x.env); bb=x.bb; it=x.it; iters=std::move(x.iters); running=true; continue; }
      if(pend.empty()) break;
      size_t mi=0; for(size_t i=1;i<pend.size();i++) if(pend[i].key<pend[mi].key) mi=i; std::vector<int> key=pend[mi].key; std::vector<Item> grp; for(size_t i=0;i<pend.size();) if(pend[i].key==key){ grp.push_back(std::move(pend[i])); if(i+1!=pend.size()) pend[i]=std::move(pend.back()); pend.pop_back(); } else i++;
      if(key.back()==0&&grp.size()>1){ auto&L=liveIn(fi,fr.F,grp[0].bb); std::vector<const Value*> lv(L.begin(),L.end()); std::vector<Item> out; bool force=grp.size()>200;
        for(size_t i=grp.size();i-->0;){ bool done=false; for(auto&o:out){ if(o.iters.size()==grp[i].iters.size()&&mergeInto(o,grp[i],lv,nullptr,nullptr,force)){ done=true; break; } } if(!done) out.push_back(std::move(grp[i])); if(I.aborted) return; }
        grp=std::move(out); }
      ready=std::move(grp); continue; }
    // one block
    bool dead=false; for(;;++it){ Instruction*in=&*it; if(in->isTerminator()) break; if(!inst(fr,in)){ dead=true; break; } if(I.aborted) return;
      if(!pendingOuts.empty()){ std::vector<Out> po; po.swap(pendingOuts); for(auto&o:po){ Item x; x.bb=bb; x.it=std::next(it); x.S=std::move(o.S); x.env=fr.env; if(!in->getType()->isVoidTy()) x.env[in]=o.ret; x.iters=iters; setKey(fi,x); pend.push_back(std::move(x)); } } }
    if(I.aborted) return; if(dead){ running=false; continue; }
    Instruction*t=bb->getTerminator(); curI=t; if(++I.steps>I.maxSteps){ I.stop("step limit"); return; }
    if(auto*r=dyn_cast<ReturnInst>(t)){ Ret x; if(r->getReturnValue()) x.v=get(fr,r->getReturnValue()); for(int q:fr.allocas) if(q<(int)I.S.r.size()) I.S.r[q]=nullptr; for(size_t q=0;q<I.S.sm.size();) if(!I.S.r[I.S.sm[q].reg]) I.S.sm.erase(I.S.sm.begin()+q); else q++; x.S=std::move(I.S); rets.push_back(std::move(x)); running=false; if(pend.empty()&&ready.empty()) break; continue; }
    if(isa<UnreachableInst>(t)){ running=false; continue; }
    BasicBlock*next=nullptr; std::vector<std::pair<NID,BasicBlock*>> succ;
    if(auto*br=dyn_cast<BranchInst>(t)){
      if(br->isUnconditional()) next=br->getSuccessor(0);
      else { NID c=get1(fr,br->getCondition()); bool cnt=false; if(I.trackStreams&&(D.N[c].smp||!fi.b[bb].loops.empty())) for(auto&m:I.S.sm) cnt|=!m.complete; if(D.N[c].smp) c=I.restrict(c); if(D.isConst(c)){ I.nBranches++; if(cnt){ Env full=fr.env; fr.env=[&]{ Env n; auto keep=[&](const Value*v){ auto i=fr.env.find(v); if(i!=fr.env.end()) n[v]=i->second; }; for(auto*s:successors(bb)){ for(auto*v:liveIn(fi,fr.F,s)) keep(v); for(auto&p:s->phis()) keep(p.getIncomingValueForBlock(bb)); } return n; }(); bool cl=closeLoop(bb); fr.env=std::move(full); if(cl){ running=false; continue; } } next=br->getSuccessor((D.cval(c)&1)?0:1); }
        else { branchChecks(c); if(D.hasUninit(c)){ I.stop("branch on uninitialised data"); return; } succ={{c,br->getSuccessor(0)},{D.bnot(c),br->getSuccessor(1)}}; } }
    } else if(auto*sw=dyn_cast<SwitchInst>(t)){
      NID v=get1(fr,sw->getCondition()); if(D.isConst(v)){ I.nBranches++; auto*ci=ConstantInt::get(cast<IntegerType>(sw->getCondition()->getType()),(u64)D.cval(v),true); next=sw->findCaseValue(ci)->getCaseSuccessor(); }
      else { branchChecks(v); NID rest=D.mkConst(1,1); for(auto&cs:sw->cases()){ NID e=D.icmpEq(v,constVal(I,cs.getCaseValue())[0]); succ.push_back({e,cs.getCaseSuccessor()}); rest=D.band(rest,D.bnot(e)); } succ.push_back({rest,sw->getDefaultDest()}); }
    } else { I.stop("unsupported terminator"); return; }
    if(next){ moveTo(fi,fr,iters,bb,next); bb=next; it=bb->getFirstNonPHI()->getIterator(); if(pend.empty()&&ready.empty()) continue;
      Item x; x.bb=bb; x.it=it; x.iters=iters; setKey(fi,x); bool first=ready.empty(); for(auto&p:pend) if(p.key<=x.key) first=false; if(first) continue;
      x.S=std::move(I.S); x.env=std::move(fr.env); fr.env=Env(); pend.push_back(std::move(x)); running=false; continue; }
    if(++forks[bb]>6000){ I.stop("data-dependent loop not bounded"); return; }
    fr.env=[&]{ Env n; DenseSet<const Value*> need; for(auto&s:succ){ for(auto*v:liveIn(fi,fr.F,s.second)) need.insert(v); for(auto&p:s.second->phis()){ const Value*v=p.getIncomingValueForBlock(bb); need.insert(v); } } for(auto*v:need){ auto i=fr.env.find(v); if(i!=fr.env.end()) n[v]=i->second; } return n; }();
    NID lf; bool samp=I.trackStreams&&D.N[succ[0].first].smp&&succ.size()==2&&(I.leaf(succ[0].first,lf)||(!D.N[succ[0].first].strm&&I.dependsOnCounter(succ[0].first)));
    if(samp){
      if(closeLoop(bb)){ running=false; continue; }
      std::vector<State> work{I.S}; size_t nn=0; NID c0=succ[0].first;
      while(!work.empty()){ State w=std::move(work.back()); work.pop_back(); std::swap(I.S,w); NID c=I.restrict(c0); if(D.isConst(c)){ Item x; x.iters=iters; Env sv=fr.env; BasicBlock*to=succ[(D.cval(c)&1)?0:1].second; moveTo(fi,fr,x.iters,bb,to); x.bb=to; x.it=to->getFirstNonPHI()->getIterator(); x.S=I.S; x.env=std::move(fr.env); fr.env=std::move(sv); setKey(fi,x); pend.push_back(std::move(x)); continue; }
        if(!I.leaf(c,lf)&&!I.fullLeaf(c,lf)&&!D.N[c].strm&&I.dependsOnCounter(c)){ // a comparison of two counters of which neither array is known to be full: either way
          for(auto&s:succ){ Item x; x.iters=iters; Env sv=fr.env; moveTo(fi,fr,x.iters,bb,s.second); x.bb=s.second; x.it=s.second->getFirstNonPHI()->getIterator(); x.S=I.S; x.env=std::move(fr.env); fr.env=std::move(sv); setKey(fi,x); pend.push_back(std::move(x)); } continue; }
        if((!I.leaf(c,lf)&&!I.fullLeaf(c,lf))||++nn>4096){ I.ev("sampler-reject-cond","rejection condition on the XOF stream not recognised"); I.stop("rejection sampling not recognised"); return; }
        State a=I.S,b=I.S; NID l2; if(!I.leaf(c,l2)){ auto k=I.symOf[D.arg(lf,0)]; b.split.insert({k.first,k.second}); } // keep apart which arrays are full
        if(I.addFact(a,lf,true)) work.push_back(std::move(a)); if(I.addFact(b,lf,false)) work.push_back(std::move(b)); }
      running=false; continue; }
    if(getenv("KYAN_DEBUG")&&I.trackStreams) fprintf(stderr,"BR %s\n",D.show(succ[0].first,6).c_str());
    if(I.trackStreams&&(D.N[succ[0].first].strm||D.N[succ[0].first].smp)){ I.ev("sampler-reject-cond","branch on XOF output that is neither the comparison of the next 12-bit candidate with q nor a test of the number of accepted candidates"); I.stop("rejection sampling not recognised"); return; }
    State base=I.S; Env env0=fr.env; for(auto&s:succ){ Item x; x.iters=iters; fr.env=env0; moveTo(fi,fr,x.iters,bb,s.second); x.bb=s.second; x.it=s.second->getFirstNonPHI()->getIterator(); x.S=base; x.S.cond.push_back(s.first); x.env=std::move(fr.env); setKey(fi,x); pend.push_back(std::move(x)); }
    running=false;
  }
  // join what returned
  std::vector<const Value*> none; std::vector<Item> ri; std::vector<Val> rv;
  for(size_t i=rets.size();i-->0;){ Item x; x.S=std::move(rets[i].S); bool done=false; for(size_t k=0;k<ri.size()&&!done;k++) done=mergeInto(ri[k],x,none,&rv[k],&rets[i].v,rets.size()>40); if(!done){ ri.push_back(std::move(x)); rv.push_back(rets[i].v); } }
  for(size_t k=0;k<ri.size();k++) outs.push_back({std::move(ri[k].S),rv[k]});
}
static Op binOp(unsigned o){ switch(o){ case Instruction::Add:return ADD; case Instruction::Sub:return SUB; case Instruction::Mul:return MUL; case Instruction::UDiv:return UDIV; case Instruction::SDiv:return SDIV; case Instruction::URem:return UREM; case Instruction::SRem:return SREM; case Instruction::And:return AND; case Instruction::Or:return OR; case Instruction::Xor:return XOR; case Instruction::Shl:return SHL; case Instruction::LShr:return LSHR; case Instruction::AShr:return ASHR; } return NOP; }
bool Exec::inst(Frame&fr,Instruction*in){
  curI=in; if(++I.steps>I.maxSteps){ I.stop("step limit"); return false; }
  switch(in->getOpcode()){
  case Instruction::Alloca: { auto*a=cast<AllocaInst>(in); u64 sz=DL->getTypeAllocSize(a->getAllocatedType()); if(a->isArrayAllocation()){ NID n=get1(fr,a->getArraySize()); if(!D.isConst(n)){ if(D.secret(n)) I.ev("secret-addr","stack allocation size depends on a secret"); I.stop("variable-length array of unknown size"); return false; } sz*=D.uval(n); }
    int r=I.newRegion("local "+(a->hasName()?a->getName().str():std::string("?"))+" of "+fr.F->getName().str(),'s',sz,a->getAlign().value(),true); fr.allocas.push_back(r); fr.env[in]={D.mkPtr(r,D.mkConst(0,64))}; return true; }
  case Instruction::Load: { auto*l=cast<LoadInst>(in); NID p=get1(fr,l->getPointerOperand()); std::vector<Type*> f; flatTypes(l->getType(),f); Val v;
    if(f.size()==1) v.push_back(I.loadInt(p,scalW(f[0]),l->getAlign().value()));
    else { u32 tot=DL->getTypeStoreSize(l->getType()); int reg; i64 off; I.nLoads++; if(!I.access(p,tot,l->getAlign().value(),false,reg,off)) v=undefOf(l->getType()); else { int ew=scalW(f[0]); if(l->getType()->isStructTy()){ I.stop("struct load"); return false; }
        if(off>=0) for(size_t k=0;k<f.size();k++) v.push_back(I.loadCells(I.ro(reg),off+k*ew/8,ew/8)); else for(size_t k=0;k<f.size();k++) v.push_back(I.loadInt(D.bin(ADD,p,D.mkConst(k*ew/8,64)),ew,1)); } }
    fr.env[in]=v; return true; }
  case Instruction::Store: { auto*s=cast<StoreInst>(in); NID p=get1(fr,s->getPointerOperand()); Val v=get(fr,s->getValueOperand());
    if(v.size()==1){ NID z=v[0]; if(I.trackStreams&&D.N[p].smp) p=I.canon(p); I.storeInt(p,z,s->getAlign().value()); }
    else { u32 tot=DL->getTypeStoreSize(s->getValueOperand()->getType()); int reg; i64 off; I.nStores++; if(I.access(p,tot,s->getAlign().value(),true,reg,off)){ int eb=D.w(v[0])/8; if(I.trackStreams){ bool st=false; for(NID x:v) st|=D.N[x].strm||D.N[x].smp; if(st&&D.w(v[0])%8==0){ std::vector<NID> bs; for(NID x:v) for(int k=0;k<eb;k++) bs.push_back(D.extract(x,8*k,8)); if(I.samplerStore(p,bs)) return !I.aborted; } if(!I.S.sm.empty()) I.plainWrite(reg,off,tot); }
        if(off>=0){ Region&r=I.rw(reg); for(size_t k=0;k<v.size();k++) I.storeCells(r,off+k*eb,v[k]); } else for(size_t k=0;k<v.size();k++) I.storeInt(D.bin(ADD,p,D.mkConst(k*eb,64)),v[k],1); } }
    return true; }
  case Instruction::GetElementPtr: { auto*g=cast<GetElementPtrInst>(in); NID p=get1(fr,g->getPointerOperand());
    for(auto gi=gep_type_begin(g),e=gep_type_end(g);gi!=e;++gi){ if(StructType*st=gi.getStructTypeOrNull()){ u64 o=DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(gi.getOperand())->getZExtValue()); p=D.bin(ADD,p,D.mkConst(o,64)); }
      else { NID ix=get1(fr,gi.getOperand()); if(D.w(ix)<64) ix=D.sext(ix,64); u64 es=DL->getTypeAllocSize(gi.getIndexedType()); p=D.bin(ADD,p,D.bin(MUL,ix,D.mkConst(es,64))); } if(D.N[p].smp) p=I.canon(p); }
    fr.env[in]={p}; return true; }
  case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
    Val a=get(fr,in->getOperand(0)),b=get(fr,in->getOperand(1)),r; Op op=binOp(in->getOpcode()); bool vec=in->getType()->isVectorTy(); I.nArith+=a.size();
    for(size_t k=0;k<a.size();k++){ NID x=D.bin(op,a[k],b[k]); r.push_back(D.N[x].smp&&!vec?I.canon(x):x);
      if(op==UDIV||op==SDIV||op==UREM||op==SREM){ bool p2=D.isConst(b[k])&&D.uval(b[k])&&!(D.uval(b[k])&(D.uval(b[k])-1)); if(!p2&&(D.secret(a[k])||D.secret(b[k]))) I.ev("secret-vartime","division of secret data"); if(D.lastWrapS) I.ev("div-by-zero","division by zero or overflowing division possible"); }
      else if(op==SHL||op==LSHR||op==ASHR){ if(!D.isConst(b[k])){ if(D.N[b[k]].lo<0||D.N[b[k]].hi>=D.w(b[k])) I.ev("shift-range","shift amount may be out of range"); } else if(D.uval(b[k])>=(u64)D.w(b[k])) I.ev("shift-range","shift amount out of range"); if(op==SHL&&in->hasNoSignedWrap()&&D.lastWrapS) I.ev("signed-overflow","left shift overflow"); }
      else if((op==ADD||op==SUB||op==MUL)&&D.lastWrapS){ if(!vec&&in->hasNoSignedWrap()) I.ev("signed-overflow",std::string("signed ")+opName[op]+" may overflow: operands ["+std::to_string(D.N[a[k]].lo)+","+std::to_string(D.N[a[k]].hi)+"] and ["+std::to_string(D.N[b[k]].lo)+","+std::to_string(D.N[b[k]].hi)+"]");
        else if(vec&&op!=MUL&&D.N[x].k==KOP&&D.N[x].op==op&&D.w(x)==16) I.ev("lane-wrap",std::string("16-bit vector ")+opName[op]+" may wrap: operands ["+std::to_string(D.N[a[k]].lo)+","+std::to_string(D.N[a[k]].hi)+"] and ["+std::to_string(D.N[b[k]].lo)+","+std::to_string(D.N[b[k]].hi)+"]"); } }
    fr.env[in]=r; return true; }
  case Instruction::Trunc: { Val a=get(fr,in->getOperand(0)),r; int w=scalW(in->getType()->getScalarType()); for(NID x:a){ const Node&n=D.N[x]; if(w==16&&n.w==32&&n.k==KOP&&(n.op==ADD||n.op==SUB)&&!n.wrap&&(n.lo<-32768||n.hi>32767)&&n.lo>=-(1<<20)&&n.hi<=(1<<20)/* sums of products are meant modulo 2^16 */) I.ev("coeff-trunc","16-bit store of a sum with range ["+std::to_string(n.lo)+","+std::to_string(n.hi)+"]"); r.push_back(D.trunc(x,w)); if(n.smp&&a.size()==1) r.back()=I.canon(r.back()); } fr.env[in]=r; return true; }
  case Instruction::ZExt: { Val a=get(fr,in->getOperand(0)),r; int w=scalW(in->getType()->getScalarType()); for(NID x:a){ r.push_back(D.zext(x,w)); if(D.N[x].smp&&a.size()==1) r.back()=I.canon(r.back()); } fr.env[in]=r; return true; }
  case Instruction::SExt: { Val a=get(fr,in->getOperand(0)),r; int w=scalW(in->getType()->getScalarType()); for(NID x:a){ r.push_back(D.sext(x,w)); if(D.N[x].smp&&a.size()==1) r.back()=I.canon(r.back()); } fr.env[in]=r; return true; }
  case Instruction::PtrToInt: case Instruction::IntToPtr: { Val a=get(fr,in->getOperand(0)),r; int w=scalW(in->getType()->getScalarType()); for(NID x:a) r.push_back(D.w(x)==w?x:D.w(x)>w?D.trunc(x,w):D.zext(x,w)); fr.env[in]=r; return true; }
  case Instruction::BitCast: { Val a=get(fr,in->getOperand(0)); std::vector<Type*> f; flatTypes(in->getType(),f); int w=scalW(f[0]); if(w>64||(a.size()&&D.w(a[0])>64)){ I.stop("wide bitcast"); return false; } fr.env[in]=reslice(a,w); return true; }
  case Instruction::ICmp: { auto*c=cast<ICmpInst>(in); Val a=get(fr,c->getOperand(0)),b=get(fr,c->getOperand(1)),r; for(size_t k=0;k<a.size();k++){ NID x=a[k],y=b[k],v=0; if(D.N[x].smp||D.N[y].smp){ auto pr=c->getPredicate(); int q=pr==CmpInst::ICMP_EQ||pr==CmpInst::ICMP_NE?0:CmpInst::isUnsigned(pr)?1:2; bool sw=pr==CmpInst::ICMP_UGT||pr==CmpInst::ICMP_ULE||pr==CmpInst::ICMP_SGT||pr==CmpInst::ICMP_SLE,ng=pr==CmpInst::ICMP_NE||pr==CmpInst::ICMP_UGE||pr==CmpInst::ICMP_SGE||pr==CmpInst::ICMP_ULE||pr==CmpInst::ICMP_SLE; v=I.scmp(q,sw?y:x,sw?x:y); if(v){ r.push_back(ng?D.bnot(v):v); continue; } } switch(c->getPredicate()){ case CmpInst::ICMP_EQ: v=D.icmpEq(x,y); break; case CmpInst::ICMP_NE: v=D.bnot(D.icmpEq(x,y)); break; case CmpInst::ICMP_ULT: v=D.icmpUlt(x,y); break; case CmpInst::ICMP_UGE: v=D.bnot(D.icmpUlt(x,y)); break; case CmpInst::ICMP_UGT: v=D.icmpUlt(y,x); break; case CmpInst::ICMP_ULE: v=D.bnot(D.icmpUlt(y,x)); break; case CmpInst::ICMP_SLT: v=D.icmpSlt(x,y); break; case CmpInst::ICMP_SGE: v=D.bnot(D.icmpSlt(x,y)); break; case CmpInst::ICMP_SGT: v=D.icmpSlt(y,x); break; default: v=D.bnot(D.icmpSlt(y,x)); } r.push_back(v); } fr.env[in]=r; return true; }
  case Instruction::Select: { Val c=get(fr,in->getOperand(0)),a=get(fr,in->getOperand(1)),b=get(fr,in->getOperand(2)),r; for(size_t k=0;k<a.size();k++){ NID cc=c.size()==1?c[0]:c[k]; if(D.N[cc].smp) cc=I.restrict(cc); r.push_back(D.isConst(cc)||a[k]==b[k]?D.select(cc,a[k],b[k]):mergeNode(cc,a[k],b[k])); if(!D.isConst(cc)&&(D.N[a[k]].k==KPTR||D.N[b[k]].k==KPTR)&&D.secret(cc)) I.ev("secret-addr","pointer selected by a secret"); } fr.env[in]=r; return true; }
  case Instruction::Freeze: fr.env[in]=get(fr,in->getOperand(0)); return true;
  case Instruction::ExtractElement: { Val a=get(fr,in->getOperand(0)); NID ix=get1(fr,in->getOperand(1)); if(!D.isConst(ix)||D.uval(ix)>=a.size()){ I.stop("extractelement index"); return false; } fr.env[in]={a[D.uval(ix)]}; return true; }
  case Instruction::InsertElement: { Val a=get(fr,in->getOperand(0)); NID ix=get1(fr,in->getOperand(2)); if(!D.isConst(ix)||D.uval(ix)>=a.size()){ I.stop("insertelement index"); return false; } a[D.uval(ix)]=get1(fr,in->getOperand(1)); fr.env[in]=a; return true; }
  case Instruction::ShuffleVector: { auto*s=cast<ShuffleVectorInst>(in); Val a=get(fr,s->getOperand(0)),b=get(fr,s->getOperand(1)),r; for(int m:s->getShuffleMask()) r.push_back(m<0?D.mkUninit(D.w(a[0])):(size_t)m<a.size()?a[m]:b[m-a.size()]); fr.env[in]=r; return true; }
  case Instruction::ExtractValue: { auto*e=cast<ExtractValueInst>(in); Val a=get(fr,e->getAggregateOperand()); Type*t=e->getAggregateOperand()->getType(); size_t off=0; for(unsigned ix:e->indices()){ for(unsigned k=0;k<ix;k++){ std::vector<Type*> f; flatTypes(isa<StructType>(t)?cast<StructType>(t)->getElementType(k):cast<ArrayType>(t)->getElementType(),f); off+=f.size(); } t=isa<StructType>(t)?cast<StructType>(t)->getElementType(ix):cast<ArrayType>(t)->getElementType(); } std::vector<Type*> f; flatTypes(t,f); fr.env[in]=Val(a.begin()+off,a.begin()+off+f.size()); return true; }
  case Instruction::InsertValue: { auto*e=cast<InsertValueInst>(in); Val a=get(fr,e->getAggregateOperand()),v=get(fr,e->getInsertedValueOperand()); Type*t=e->getType(); size_t off=0; for(unsigned ix:e->indices()){ for(unsigned k=0;k<ix;k++){ std::vector<Type*> f; flatTypes(isa<StructType>(t)?cast<StructType>(t)->getElementType(k):cast<ArrayType>(t)->getElementType(),f); off+=f.size(); } t=isa<StructType>(t)?cast<StructType>(t)->getElementType(ix):cast<ArrayType>(t)->getElementType(); } std::copy(v.begin(),v.end(),a.begin()+off); fr.env[in]=a; return true; }
  case Instruction::Call: return callInst(fr,cast<CallBase>(in));
  case Instruction::Fence: return true;
  default: I.stop(std::string("unsupported instruction ")+in->getOpcodeName()); return false;
  }
}
// ------------------------------------------------------------------ intrinsics shared with the assembly interpreter
NID mulh16(NID a,NID b,bool sgn){ NID x=sgn?D.sext(a,32):D.zext(a,32),y=sgn?D.sext(b,32):D.zext(b,32); return D.trunc(D.bin(sgn?ASHR:LSHR,D.bin(MUL,x,y),D.mkConst(16,32)),16); }
NID mulhrs16(NID a,NID b){ NID p=D.bin(MUL,D.sext(a,32),D.sext(b,32)); NID t=D.bin(ADD,D.bin(ASHR,p,D.mkConst(14,32)),D.mkConst(1,32)); return D.trunc(D.bin(ASHR,t,D.mkConst(1,32)),16); }
Val pshufb(Interp&I,const Val&a,const Val&m){ Val r; for(size_t i=0;i<a.size();i++){ NID x=m[i]; size_t base=i&~15;
    if(D.isConst(x)){ u64 k=D.uval(x); r.push_back(k&0x80?D.mkConst(0,8):a[base+(k&15)]); continue; }
    if(D.hasUninit(x)){ r.push_back(D.mkUninit(8)); continue; }
    if(D.N[x].smp){ std::vector<NID> ar{x}; ar.insert(ar.end(),a.begin()+base,a.begin()+base+16); r.push_back(D.opaque(8,ar,"shufb",-128,127)); continue; }
    // symbolic selector: mux over the 16 bytes
    NID acc=D.mkConst(0,8); for(int k=0;k<16;k++){ NID e=D.icmpEq(D.bin(AND,x,D.mkConst(0x8f,8)),D.mkConst(k,8)); if(D.isConst(e)&&!D.cval(e)) continue; acc=D.select(e,a[base+k],acc); } r.push_back(acc); } return r; }
static Val packs(const Val&a,const Val&b,int w,bool sgn){ int n=128/D.w(a[0]); Val r; for(size_t l=0;l<a.size();l+=n){ for(int k=0;k<n;k++) r.push_back(sgn?D.satS(a[l+k],w):D.satU(a[l+k],w)); for(int k=0;k<n;k++) r.push_back(sgn?D.satS(b[l+k],w):D.satU(b[l+k],w)); } return r; }
bool Exec::intrinsic(const std::string&n,CallBase*cb,std::vector<Val>&a,Val&r){
  auto is=[&](const char*s){ return n==s; }; auto pre=[&](const char*s){ return n.compare(0,strlen(s),s)==0; };
  if(pre("llvm.lifetime.")||pre("llvm.dbg.")||pre("llvm.assume")||pre("llvm.donothing")||pre("llvm.experimental.noalias")||pre("llvm.annotation")||pre("llvm.prefetch")) return true;
  if(pre("llvm.threadlocal.address")){ r=a[0]; return true; }
  if(pre("llvm.memcpy")||pre("llvm.memmove")){ if(!D.isConst(a[2][0])){ if(D.secret(a[2][0])) I.ev("secret-length","copy length depends on a secret"); I.stop("copy of unknown length"); return true; } I.copyMem(a[0][0],a[1][0],D.uval(a[2][0])); return true; }
  if(pre("llvm.memset")){ if(!D.isConst(a[2][0])){ if(D.secret(a[2][0])) I.ev("secret-length","fill length depends on a secret"); I.stop("fill of unknown length"); return true; } std::vector<NID> b(D.uval(a[2][0]),a[1][0]); I.writeBytes(a[0][0],b); return true; }
  if(pre("llvm.objectsize")){ r={D.mkConst(-1,64)}; return true; } if(pre("llvm.expect")){ r=a[0]; return true; }
  if(pre("llvm.trap")){ I.ev("trap","trap reached"); return true; }
  if(is("llvm.x86.avx.ptestz.256")||is("llvm.x86.sse41.ptestz")||is("llvm.x86.avx.ptestc.256")){ bool c=is("llvm.x86.avx.ptestc.256"); NID z=D.mkConst(1,1); for(size_t i=0;i<a[0].size();i++){ int w=D.w(a[0][i]); for(int k=0;k<w;k++){ NID x=D.bit(a[0][i],k); if(c) x=D.bnot(x); z=D.band(z,D.bnot(D.band(x,D.bit(a[1][i],k)))); } } r={D.zext(z,32)}; return true; }
  if(is("llvm.x86.avx2.packsswb")||is("llvm.x86.sse2.packsswb.128")){ r=packs(a[0],a[1],8,true); return true; }
  if(is("llvm.x86.avx2.packuswb")||is("llvm.x86.sse2.packuswb.128")){ r=packs(a[0],a[1],8,false); return true; }
  if(is("llvm.x86.avx2.packssdw")||is("llvm.x86.sse2.packssdw.128")){ r=packs(a[0],a[1],16,true); return true; }
  if(is("llvm.x86.avx2.packusdw")||is("llvm.x86.sse41.packusdw")){ r=packs(a[0],a[1],16,false); return true; }
  if(is("llvm.x86.avx2.pblendvb")||is("llvm.x86.sse41.pblendvb")){ for(size_t i=0;i<a[0].size();i++) r.push_back(D.select(D.bit(a[2][i],7),a[1][i],a[0][i])); return true; }
  if(is("llvm.x86.avx2.permd")){ for(size_t i=0;i<8;i++){ NID x=a[1][i]; if(!D.isConst(x)){ I.stop("symbolic permd"); return true; } r.push_back(a[0][D.uval(x)&7]); } return true; }
  if(is("llvm.x86.avx2.pmadd.ub.sw")||is("llvm.x86.ssse3.pmadd.ub.sw.128")){ for(size_t i=0;i<a[0].size();i+=2){ NID p=D.bin(MUL,D.zext(a[0][i],32),D.sext(a[1][i],32)),q=D.bin(MUL,D.zext(a[0][i+1],32),D.sext(a[1][i+1],32)); r.push_back(D.satS(D.bin(ADD,p,q),16)); } return true; }
  if(is("llvm.x86.avx2.pmadd.wd")||is("llvm.x86.sse2.pmadd.wd")){ for(size_t i=0;i<a[0].size();i+=2){ NID p=D.bin(MUL,D.sext(a[0][i],32),D.sext(a[1][i],32)),q=D.bin(MUL,D.sext(a[0][i+1],32),D.sext(a[1][i+1],32)); r.push_back(D.bin(ADD,p,q)); } return true; }
  if(is("llvm.x86.avx2.pmovmskb")||is("llvm.x86.sse2.pmovmskb.128")){ std::vector<NID> b; for(NID x:a[0]) b.push_back(D.bit(x,7)); while(b.size()<32) b.push_back(D.mkConst(0,1)); r={D.concat(b)}; return true; }
  if(is("llvm.x86.avx2.pmul.hr.sw")||is("llvm.x86.ssse3.pmul.hr.sw.128")){ for(size_t i=0;i<a[0].size();i++) r.push_back(mulhrs16(a[0][i],a[1][i])); return true; }
  if(is("llvm.x86.avx2.pmulh.w")||is("llvm.x86.sse2.pmulh.w")){ for(size_t i=0;i<a[0].size();i++) r.push_back(mulh16(a[0][i],a[1][i],true)); return true; }
  if(is("llvm.x86.avx2.pmulhu.w")||is("llvm.x86.sse2.pmulhu.w")){ for(size_t i=0;i<a[0].size();i++) r.push_back(mulh16(a[0][i],a[1][i],false)); return true; }
  if(is("llvm.x86.avx2.pshuf.b")||is("llvm.x86.ssse3.pshuf.b.128")){ r=pshufb(I,a[0],a[1]); return true; }
  { Op op=NOP; if(pre("llvm.x86.avx2.pslli")||pre("llvm.x86.sse2.pslli")) op=SHL; else if(pre("llvm.x86.avx2.psrli")||pre("llvm.x86.sse2.psrli")) op=LSHR; else if(pre("llvm.x86.avx2.psrai")||pre("llvm.x86.sse2.psrai")) op=ASHR;
    if(op!=NOP){ if(!D.isConst(a[1][0])){ if(D.secret(a[1][0])) I.ev("secret-shift","vector shift count depends on a secret"); I.stop("symbolic vector shift count"); return true; } u64 k=D.uval(a[1][0]); int w=D.w(a[0][0]); for(NID x:a[0]) r.push_back(k>=(u64)w&&op!=ASHR?D.mkConst(0,w):D.bin(op,x,D.mkConst(k>=(u64)w?w-1:k,w))); return true; }
    if(pre("llvm.x86.avx2.psllv")) op=SHL; else if(pre("llvm.x86.avx2.psrlv")) op=LSHR; else if(pre("llvm.x86.avx2.psrav")) op=ASHR;
    if(op!=NOP){ for(size_t i=0;i<a[0].size();i++){ NID x=a[0][i],s=a[1][i]; int w=D.w(x); if(!D.isConst(s)){ I.stop("symbolic variable shift"); return true; } u64 k=D.uval(s); r.push_back(k>=(u64)w?(op==ASHR?D.bin(ASHR,x,D.mkConst(w-1,w)):D.mkConst(0,w)):D.bin(op,x,D.mkConst(k,w))); } return true; } }
  if(is("llvm.x86.bmi.pext.32")||is("llvm.x86.bmi.pext.64")||is("llvm.x86.bmi.pdep.32")||is("llvm.x86.bmi.pdep.64")){ bool ext=n.find("pext")!=std::string::npos; if(!D.isConst(a[1][0])){ I.stop("symbolic pext/pdep mask"); return true; } u64 m=D.uval(a[1][0]); int w=D.w(a[0][0]); std::vector<NID> b; int k=0; for(int i=0;i<w;i++){ bool o=m>>i&1; if(ext){ if(o) b.push_back(D.bit(a[0][0],i)); } else b.push_back(o?D.bit(a[0][0],k++):D.mkConst(0,1)); } while((int)b.size()<w) b.push_back(D.mkConst(0,1)); r={D.concat(b)}; return true; }
  if(is("llvm.x86.avx2.gather.q.q.256")||is("llvm.x86.avx2.gather.q.q")){ for(size_t i=0;i<a[0].size();i++){ NID mk=D.bit(a[3][i],63); if(D.isConst(mk)&&!D.cval(mk)){ r.push_back(a[0][i]); continue; } NID sc=D.mkConst((i64)D.uval(a[4][0]),64); NID ad=D.bin(ADD,D.bin(MUL,a[2][i],sc),a[1][0]); if(D.N[a[2][i]].k==KPTR) ad=D.bin(ADD,a[2][i],a[1][0]); r.push_back(I.loadInt(ad,64,1)); } return true; }
  if(pre("llvm.ctpop")){ for(NID x:a[0]){ int w=D.w(x); NID s=D.mkConst(0,w); for(int i=0;i<w;i++) s=D.bin(ADD,s,D.zext(D.bit(x,i),w)); r.push_back(s);} return true; }
  if(pre("llvm.abs")){ for(NID x:a[0]) r.push_back(D.absv(x)); return true; }
  if(pre("llvm.smax")||pre("llvm.smin")||pre("llvm.umax")||pre("llvm.umin")){ bool mx=n[6]=='a'; bool sg=n[5]=='s'; for(size_t i=0;i<a[0].size();i++){ NID c=sg?D.icmpSlt(a[0][i],a[1][i]):D.icmpUlt(a[0][i],a[1][i]); r.push_back(mx?D.select(c,a[1][i],a[0][i]):D.select(c,a[0][i],a[1][i])); } return true; }
  if(pre("llvm.fshl")||pre("llvm.fshr")){ bool l=n[8]=='l'; for(size_t i=0;i<a[0].size();i++){ int w=D.w(a[0][i]); if(!D.isConst(a[2][i])){ I.stop("symbolic funnel shift"); return true; } int k=D.uval(a[2][i])%w; std::vector<Slice> s; if(l){ if(k) s={{a[1][i],(u8)(w-k),(u8)k},{a[0][i],0,(u8)(w-k)}}; else s={{a[0][i],0,(u8)w}}; } else { if(k) s={{a[1][i],(u8)k,(u8)(w-k)},{a[0][i],0,(u8)k}}; else s={{a[1][i],0,(u8)w}}; } r.push_back(D.mkCat(s)); } return true; }
  if(pre("llvm.bswap")){ for(NID x:a[0]){ std::vector<NID> b; for(int i=D.w(x)/8-1;i>=0;i--) b.push_back(D.extract(x,8*i,8)); r.push_back(D.concat(b)); } return true; }
  if(pre("llvm.uadd.sat")||pre("llvm.usub.sat")||pre("llvm.sadd.sat")||pre("llvm.ssub.sat")){ bool sg=n[5]=='s',ad=n.find("add")!=std::string::npos; for(size_t i=0;i<a[0].size();i++){ int w=D.w(a[0][i]); if(w>16){ I.stop("wide saturating op"); return true; } NID x=sg?D.sext(a[0][i],32):D.zext(a[0][i],32),y=sg?D.sext(a[1][i],32):D.zext(a[1][i],32); NID t=D.bin(ad?ADD:SUB,x,y); r.push_back(sg?D.satS(t,w):D.satU(t,w)); } return true; }
  return false;
}
bool Exec::callInst(Frame&fr,CallBase*cb){
  if(isa<DbgInfoIntrinsic>(cb)) return true;
  std::vector<Val> a; Function*F=cb->getCalledFunction();
  if(cb->isInlineAsm()){ auto*ia=cast<InlineAsm>(cb->getCalledOperand()); bool blank=true; for(char c:ia->getAsmString()) if(!isspace((u8)c)) blank=false;
    if(!blank){ I.stop("inline assembly not modelled: "+ia->getAsmString()); return false; }
    if(!cb->getType()->isVoidTy()){ Val v; std::string cs=ia->getConstraintString(); // tie outputs to matching inputs
      std::vector<Type*> f; flatTypes(cb->getType(),f); auto info=ia->ParseConstraints(); std::vector<int> tie(f.size(),-1); int out=0,inp=0; for(auto&c:info){ if(c.Type==InlineAsm::isOutput&&!c.isIndirect) out++; else if(c.Type==InlineAsm::isInput){ if(c.hasMatchingInput()||true){ if(!c.Codes.empty()&&isdigit((u8)c.Codes[0][0])){ int k=atoi(c.Codes[0].c_str()); if(k<(int)tie.size()) tie[k]=inp; } } inp++; } }
      for(size_t k=0;k<f.size();k++){ if(tie[k]>=0){ Val x=get(fr,cb->getArgOperand(tie[k])); v.push_back(x[0]); } else v.push_back(D.mkUninit(scalW(f[k]))); } fr.env[cb]=v; }
    return true; }
  if(!F){ I.stop("indirect call"); return false; }
  for(unsigned i=0;i<cb->arg_size();i++){ if(cb->getArgOperand(i)->getType()->isMetadataTy()) a.push_back({}); else a.push_back(get(fr,cb->getArgOperand(i))); }
  std::string n=F->getName().str(); Val r;
  if(F->isIntrinsic()){ if(!intrinsic(n,cb,a,r)){ I.stop("intrinsic not modelled: "+n); return false; } if(!cb->getType()->isVoidTy()){ if(r.empty()) r=undefOf(cb->getType()); if(I.trackStreams&&r.size()==1) for(NID&x:r) if(D.N[x].smp) x=I.canon(x); fr.env[cb]=r; } return !(n=="llvm.trap"); }
  I.nCalls++;
  if(I.callProbe) I.callProbe(n,a);
  auto hk=I.hooks.find(n); if(hk!=I.hooks.end()){ std::string nm=n; if(hk->second(I,nm,a,r)){ I.sumCalls[n]++; if(!cb->getType()->isVoidTy()){ if(r.empty()) r=undefOf(cb->getType()); fr.env[cb]=r; } return !I.aborted; } }
  if(I.summarizeHash&&I.summary(n,a,r)){ I.sumCalls[n]++; if(!cb->getType()->isVoidTy()) fr.env[cb]=r.empty()?undefOf(cb->getType()):r; return !I.aborted; }
  if(n=="randombytes"&&I.hooks.find("randombytes!")==I.hooks.end()){ if(!D.isConst(a[1][0])){ I.stop("randombytes length"); return false; } u64 len=D.uval(a[1][0]); u64 at=0; for(auto&c:I.randCalls) at+=c.second; I.randCalls.push_back({(int)at,(int)len}); std::vector<NID> b; for(u64 k=0;k<len;k++){ H128 h(110); h.add(at+k); b.push_back(D.mkAtomBits(h.fin(),8,true)); if(I.extRandom) D.N[b.back()].ext=true; } I.writeBytes(a[0][0],b); I.sumCalls[n]++; return true; }
  if(F->isDeclaration()){
    if(I.haveAsm(n)){ I.callStack.push_back(n+"@"+srcLoc(cb)); I.callAsm(n,a,r); I.callStack.pop_back(); curI=cb; if(!cb->getType()->isVoidTy()) fr.env[cb]=r; return !I.aborted; }
    if(n=="memcpy"||n=="memmove"){ if(!D.isConst(a[2][0])){ I.stop("copy of unknown length"); return false; } I.copyMem(a[0][0],a[1][0],D.uval(a[2][0])); fr.env[cb]=a[0]; return true; }
    if(n=="memset"){ if(!D.isConst(a[2][0])){ I.stop("fill of unknown length"); return false; } std::vector<NID> b(D.uval(a[2][0]),D.trunc(a[1][0],8)); I.writeBytes(a[0][0],b); fr.env[cb]=a[0]; return true; }
    if(n=="memcmp"||n=="bcmp"){ if(!D.isConst(a[2][0])){ I.stop("memcmp length"); return false; } u64 len=D.uval(a[2][0]); auto x=I.readBytes(a[0][0],len,"compared data"),y=I.readBytes(a[1][0],len,"compared data"); bool s=false; NID eq=D.mkConst(1,1); for(u64 i=0;i<len;i++){ s|=D.secret(x[i])||D.secret(y[i]); eq=D.band(eq,D.icmpEq(x[i],y[i])); } if(s) I.ev("secret-vartime","variable-time library comparison "+n+" of secret data"); fr.env[cb]={D.zext(D.bnot(eq),32)}; return true; }
    if(n=="abort"||n=="exit"||n=="_exit"||n=="__assert_fail"||n=="__stack_chk_fail"){ I.ev("abort","call of "+n+" reachable"); return false; }
    I.ev("ext-call","call of external function "+n);
    if(!cb->getType()->isVoidTy()){ Val v; std::vector<Type*> f; flatTypes(cb->getType(),f); static int c=0; for(Type*t:f){ int w=scalW(t); char tg[32]; snprintf(tg,32,"ext%d",c++); v.push_back(D.opaque(w,{D.mkConst(c,32)},tg,imin(w),imax(w))); } fr.env[cb]=v; }
    return !F->doesNotReturn(); }
  if(I.callStack.size()>200){ I.stop("recursion"); return false; }
  std::function<void()> post; if(I.evalContracts) post=contractPre(I,n,a);
  I.callStack.push_back(F->getName().str()+"@"+srcLoc(cb)); std::vector<Out> o; callFn(F,a,o); I.callStack.pop_back(); curI=cb; if(I.aborted) return false;
  if(o.empty()||(o[0].ret.empty()&&!cb->getType()->isVoidTy())) return false;
  I.S=std::move(o[0].S); fr.env[cb]=o[0].ret; if(post&&o.size()==1) post(); for(size_t i=1;i<o.size();i++) pendingOuts.push_back(std::move(o[i])); return true;
}
void Exec::callFn(Function*F,std::vector<Val>&args,std::vector<Out>&outs){
  I.fnSeen.insert(F->getName().str()); Frame fr; fr.F=F; unsigned k=0; for(auto&ar:F->args()){ if(ar.hasByValAttr()){ I.stop("byval argument"); return; } fr.env[&ar]=args[k++]; }
  run(fr,&F->getEntryBlock(),outs);
  if(const char*dn=getenv("KYAN_DUMP")) if(outs.size()&&!I.aborted&&F->getName().ends_with(dn)){ I.S=outs[0].S; for(size_t q=0;q<args.size();q++) if(D.N[args[q][0]].k==KPTR&&D.isConst(D.arg(args[q][0],0))){ int rg=D.N[args[q][0]].c; i64 of=D.cval(D.arg(args[q][0],0)); fprintf(stderr,"%s arg %zu:",F->getName().str().c_str(),q); bool by=getenv("KYAN_DUMPB"); for(int k=0;k<16&&of+2*k+1<(i64)I.ro(rg).c.size();k++){ NID x=I.loadCells(I.ro(rg),of+(by?k:2*k),by?1:2); if(getenv("KYAN_SHOW")&&k==0) fprintf(stderr,"\n%s\n",D.show(x,9).c_str()); if(by){ G g=D.hasUninit(x)?G{0,0}:D.g(D.bit(x,0)); fprintf(stderr," %08x",(u32)g.a); } else { Fp f=D.hasUninit(x)?fpConst(0):D.fp(x); fprintf(stderr," %d[%lld,%lld]",f.v[0],(long long)D.N[x].lo,(long long)D.N[x].hi); } } fprintf(stderr,"\n"); } outs[0].S=I.S; }
  if(outs.empty()&&!I.aborted){ I.ev("no-return","function "+F->getName().str()+" does not return normally"); I.stop("dead path"); }
}
Val Interp::call(const std::string&name,std::vector<Val> args){ Function*F=M->getFunction(name); if(!F||F->isDeclaration()){ stop("function "+name+" not found"); return {}; } Exec X(*this); callStack.clear(); std::vector<Out> o; X.callFn(F,args,o); if(aborted) return {}; if(o.size()>1){ ev("sampler-paths","paths of the entry point could not be joined"); stop("paths not joined"); return {}; } S=std::move(o[0].S); return o[0].ret; }
NID globalPtr(Interp&I,const std::string&name){ GlobalValue*g=M->getNamedValue(name); if(!g) return 0; return D.mkPtr(regionOfGlobal(I,g),D.mkConst(0,64)); }

// ---- queries used by the hash analysis
std::vector<std::string> singlePtrFns(){ std::vector<std::string> r; for(auto&F:*M) if(!F.isDeclaration()&&F.arg_size()==1&&F.getArg(0)->getType()->isPointerTy()&&F.getReturnType()->isVoidTy()) r.push_back(F.getName().str());
  std::stable_sort(r.begin(),r.end(),[](const std::string&a,const std::string&b){ auto k=[](const std::string&s){ return s.find("erm")!=std::string::npos?0:1; }; return k(a)<k(b); }); return r; }
int ptrParamSize(const std::string&fn,int arg){ Function*F=M->getFunction(fn); if(F) if(auto*sp=F->getSubprogram()) if(auto*st=sp->getType()){ auto ta=st->getTypeArray(); if((int)ta.size()>arg+1){ DIType*t=ta[arg+1]; while(t){ if(auto*d=dyn_cast<DIDerivedType>(t)){ bool p=d->getTag()==dwarf::DW_TAG_pointer_type; t=d->getBaseType(); if(p){ while(auto*e=dyn_cast_or_null<DIDerivedType>(t)){ if(e->getTag()!=dwarf::DW_TAG_typedef&&e->getTag()!=dwarf::DW_TAG_const_type) break; t=e->getBaseType(); } if(t&&t->getSizeInBits()>=1600) return t->getSizeInBits()/8; return 208; } } else break; } } } return 208; }

// ---- debug-information queries: byte offset of a member of a named type or of a global's type
static DICompositeType*compositeOf(DIType*t){ while(t){ if(auto*c=dyn_cast<DICompositeType>(t)) return c; auto*d=dyn_cast<DIDerivedType>(t); if(!d||d->getTag()==dwarf::DW_TAG_pointer_type) return nullptr; t=d->getBaseType(); } return nullptr; }
static DICompositeType*findComposite(const std::string&what){
  if(GlobalVariable*g=M->getNamedGlobal(what)){ SmallVector<DIGlobalVariableExpression*,1> e; g->getDebugInfo(e); for(auto*x:e) if(auto*c=compositeOf(x->getVariable()->getType())) return c; }
  DebugInfoFinder f; f.processModule(*M); for(DIType*t:f.types()) if(t->getName()==what) if(auto*c=compositeOf(t)) return c; return nullptr; }
int memberOffset(const std::string&what,const std::string&member,int*size){ auto*c=findComposite(what); if(c) for(auto*e:c->getElements()) if(auto*d=dyn_cast<DIDerivedType>(e)) if(d->getName()==member){ if(size) *size=d->getSizeInBits()/8; return d->getOffsetInBits()/8; } return -1; }
int typeSize(const std::string&what){ auto*c=findComposite(what); return c?c->getSizeInBits()/8:-1; }
