// Lengths: interval analysis (with widening and branch refinement) of every value computed from a 64-bit length parameter of the
// hash interface.  Decides that no length is squeezed through a narrower type and that no narrower counter is run against an
// unbounded length, so that the block-by-block behaviour established for enumerated lengths carries over to all lengths.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <functional>
using namespace llvm;
typedef unsigned __int128 W; typedef uint64_t u64;
static const u64 MAXLEN=1ULL<<62;
struct IV { u64 lo=0,hi=~0ULL; bool t=false,imp=false,bot=false; bool operator==(const IV&o)const{ return lo==o.lo&&hi==o.hi&&t==o.t&&imp==o.imp&&bot==o.bot; } };
static u64 full(unsigned w){ return w>=64?~0ULL:(1ULL<<w)-1; }
static IV top(unsigned w,bool t=false,bool imp=false){ IV r; r.hi=full(w); r.t=t; r.imp=imp; return r; }
static IV join(const IV&a,const IV&b){ if(a.bot) return b; if(b.bot) return a; IV r; r.lo=std::min(a.lo,b.lo); r.hi=std::max(a.hi,b.hi); r.t=a.t||b.t; r.imp=a.imp||b.imp; return r; }
struct Len {
  std::map<std::string,Function*> def; std::set<std::string> reported; std::vector<std::array<std::string,3>> bad; std::set<u64> thr; u64 obligations=0,functions=0; std::map<std::string,IV> memo; int depth=0;
  static std::string loc(const Instruction*I){ if(I->getDebugLoc()) return cast<DIScope>(I->getDebugLoc().getScope())->getFilename().str()+":"+std::to_string(I->getDebugLoc().getLine()); return I->getFunction()->getName().str(); }
  struct Fn { Function*F; DominatorTree dt; std::map<const Value*,IV> v; std::map<const Value*,int> n; std::vector<u64> th; };
  static unsigned wd(const Value*v){ return v->getType()->isIntegerTy()?std::min(64u,v->getType()->getIntegerBitWidth()):0; }
  IV base(Fn&f,const Value*v){ unsigned w=wd(v); if(auto*c=dyn_cast<ConstantInt>(v)){ IV r; r.lo=r.hi=c->getValue().getLimitedValue(); return r; } if(isa<Constant>(v)) return top(w); auto it=f.v.find(v); if(it==f.v.end()){ IV r; r.bot=true; return r; } return it->second; }
  static void clampHi(IV&r,u64 h){ if(h<r.hi){ r.hi=h; if(r.lo>r.hi) r.lo=r.hi; } } static void clampLo(IV&r,u64 l){ if(l>r.lo){ r.lo=l; if(r.hi<r.lo) r.hi=r.lo; } }
  // v <= hi and v >= lo follow from x pred y
  void refine(Fn&f,IV&r,const Value*v,const Value*a,const Value*b,CmpInst::Predicate p,const BasicBlock*B,int d){
    for(int s=0;s<2;s++){ if(s){ std::swap(a,b); p=CmpInst::getSwappedPredicate(p); }
      u64 sub=0; bool hit=a==v; bool exact=hit;
      if(!hit) if(auto*z=dyn_cast<ZExtInst>(a)) if(z->getOperand(0)==v){ hit=true; exact=true; }
      if(!hit) if(auto*z=dyn_cast<ZExtInst>(v)) if(z->getOperand(0)==a){ hit=true; exact=true; }
      if(!hit) if(auto*o=dyn_cast<BinaryOperator>(a)) if(o->getOpcode()==Instruction::Add&&wd(o)==64) for(int k=0;k<2&&!hit;k++) if(o->getOperand(k)==v){ hit=true; sub=eval(f,o->getOperand(1-k),B,d+1).lo; }
      if(!hit) continue;
      IV y=eval(f,b,B,d+1); if(y.bot) continue;
      switch(p){ case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: if(p==CmpInst::ICMP_SLT&&(wd(a)==0||y.hi>full(wd(a))/2)) break; if(y.hi){ u64 h=y.hi-1; clampHi(r,h>=sub?h-sub:0); } break;
        case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLE: if(p==CmpInst::ICMP_SLE&&(wd(a)==0||y.hi>full(wd(a))/2)) break; clampHi(r,y.hi>=sub?y.hi-sub:0); break;
        case CmpInst::ICMP_UGT: if(exact&&y.lo!=~0ULL) clampLo(r,y.lo+1); break; case CmpInst::ICMP_UGE: if(exact) clampLo(r,y.lo); break;
        case CmpInst::ICMP_EQ: if(exact){ clampHi(r,y.hi); clampLo(r,y.lo); } break;
        case CmpInst::ICMP_NE: if(exact&&y.lo==y.hi){ if(r.lo==y.lo&&r.hi>r.lo) r.lo++; else if(r.hi==y.lo&&r.hi>r.lo) r.hi--; } break; default: break; } } }
  void refCond(Fn&f,IV&r,const Value*v,const Value*c,bool truth,const BasicBlock*B,int d){
    if(auto*k=dyn_cast<ICmpInst>(c)){ if(!k->getOperand(0)->getType()->isIntegerTy()) return; refine(f,r,v,k->getOperand(0),k->getOperand(1),truth?k->getPredicate():k->getInversePredicate(),B,d); return; }
    if(auto*o=dyn_cast<BinaryOperator>(c)){ if(o->getOpcode()==Instruction::And&&truth||o->getOpcode()==Instruction::Or&&!truth){ refCond(f,r,v,o->getOperand(0),truth,B,d); refCond(f,r,v,o->getOperand(1),truth,B,d); } else if(o->getOpcode()==Instruction::Xor) if(auto*q=dyn_cast<ConstantInt>(o->getOperand(1))) if(q->isOne()) refCond(f,r,v,o->getOperand(0),!truth,B,d); return; }
    if(auto*s=dyn_cast<SelectInst>(c)){ auto*tc=dyn_cast<ConstantInt>(s->getTrueValue()),*fc=dyn_cast<ConstantInt>(s->getFalseValue()); if(fc&&fc->isZero()&&truth){ refCond(f,r,v,s->getCondition(),true,B,d); refCond(f,r,v,s->getTrueValue(),true,B,d); } if(tc&&tc->isOne()&&!truth){ refCond(f,r,v,s->getCondition(),false,B,d); refCond(f,r,v,s->getFalseValue(),false,B,d); } return; }
    if(auto*p=dyn_cast<PHINode>(c)){ // && or ||: the arm that is not a constant decides
      const Value*other=nullptr; const BasicBlock*ob=nullptr; int others=0; for(unsigned i=0;i<p->getNumIncomingValues();i++){ auto*q=dyn_cast<ConstantInt>(p->getIncomingValue(i)); if(q&&q->isOne()!=truth) continue; others++; other=p->getIncomingValue(i); ob=p->getIncomingBlock(i); }
      if(others==1){ if(!isa<ConstantInt>(other)) refCond(f,r,v,other,truth,B,d); dom(f,r,v,ob,d); } } }
  void dom(Fn&f,IV&r,const Value*v,const BasicBlock*B,int d){
    auto*N=f.dt.getNode(const_cast<BasicBlock*>(B)); while(N){ auto*I=N->getIDom(); if(!I) break; const BasicBlock*S=N->getBlock(); 
      if(auto*P=S->getSinglePredecessor()) edge(f,r,v,P,S,d); N=I; } }
  void edge(Fn&f,IV&r,const Value*v,const BasicBlock*P,const BasicBlock*S,int d){ auto*br=dyn_cast<BranchInst>(P->getTerminator()); if(br&&br->isConditional()&&br->getSuccessor(0)!=br->getSuccessor(1)) refCond(f,r,v,br->getCondition(),br->getSuccessor(0)==S,P,d); }
  IV eval(Fn&f,const Value*v,const BasicBlock*B,int d=0){
    IV r=base(f,v); if(r.bot||isa<Constant>(v)||d>3) return r;
    if(auto*I=dyn_cast<Instruction>(v)) if(!isa<PHINode>(I)&&!isa<CallBase>(I)&&!isa<LoadInst>(I)&&d<3){ IV x=xfer(f,I,B,d+1); if(!x.bot){ if(x.lo>r.lo) r.lo=x.lo; if(x.hi<r.hi) r.hi=x.hi; if(r.lo>r.hi) r.lo=r.hi; r.imp=r.imp&&x.imp; } }
    dom(f,r,v,B,d); return r; }
  // x - (x/c)*c and its variants
  bool remainder(const Value*x,const Value*m,u64&c){ auto*o=dyn_cast<BinaryOperator>(m); if(!o) return false; auto isDiv=[&](const Value*q,const Value*k,u64&c){ if(auto*z=dyn_cast<ZExtInst>(q)) q=z->getOperand(0); auto*dv=dyn_cast<BinaryOperator>(q); auto*kc=dyn_cast<ConstantInt>(k); if(!dv||!kc||dv->getOperand(0)!=x) return false; auto*dc=dyn_cast<ConstantInt>(dv->getOperand(1)); if(!dc) return false; u64 a=dc->getZExtValue(),b=kc->getZExtValue(); if(dv->getOpcode()==Instruction::LShr) a=1ULL<<a; else if(dv->getOpcode()!=Instruction::UDiv) return false; if(a!=b||!a) return false; c=a; return true; };
    if(o->getOpcode()==Instruction::Mul) return isDiv(o->getOperand(0),o->getOperand(1),c)||isDiv(o->getOperand(1),o->getOperand(0),c);
    if(o->getOpcode()==Instruction::Shl) if(auto*k=dyn_cast<ConstantInt>(o->getOperand(1))){ auto*kk=ConstantInt::get(cast<IntegerType>(o->getType()),1ULL<<k->getZExtValue()); return isDiv(o->getOperand(0),kk,c); }
    if(o->getOpcode()==Instruction::Sub&&o->getOperand(0)==x) if(auto*rm=dyn_cast<BinaryOperator>(o->getOperand(1))) if(rm->getOpcode()==Instruction::URem&&rm->getOperand(0)==x) if(auto*k=dyn_cast<ConstantInt>(rm->getOperand(1))){ c=k->getZExtValue(); return c!=0; }
    if(o->getOpcode()==Instruction::And&&o->getOperand(0)==x) if(auto*k=dyn_cast<ConstantInt>(o->getOperand(1))){ u64 m2=~k->getZExtValue()&full(wd(o)); if((m2&(m2+1))==0){ c=m2+1; return true; } }
    return false; }
  IV xfer(Fn&f,const Instruction*I,const BasicBlock*B,int d){
    unsigned w=wd(I); auto E=[&](unsigned i){ return eval(f,I->getOperand(i),B,d+1); };
    if(auto*o=dyn_cast<BinaryOperator>(I)){ IV a=E(0),b=E(1); if(a.bot||b.bot){ IV r; r.bot=true; return r; } IV r=top(w,a.t||b.t,a.imp||b.imp);
      switch(o->getOpcode()){
        case Instruction::Add: { W l=(W)a.lo+b.lo,h=(W)a.hi+b.hi; if(h<=full(w)){ r.lo=l; r.hi=h; } else if(b.lo==b.hi&&b.lo>full(w)/2){ // adding a negative constant
              u64 k=full(w)-b.lo+1; if(a.lo>=k){ r.lo=a.lo-k; r.hi=a.hi-k; } else if(a.hi<=full(w)-k) { } } break; }
        case Instruction::Sub: { if(a.lo>=b.hi){ r.lo=a.lo-b.hi; r.hi=a.hi-b.lo; break; } u64 c; if(remainder(o->getOperand(0),o->getOperand(1),c)){ r.hi=std::min(a.hi,c-1); break; } if(r.t&&w==64){ if(a.t&&b.t) r.imp=true; r.hi=a.hi; } break; }   // lengths are only reduced by what they contain
        case Instruction::Mul: { W h=(W)a.hi*b.hi; if(h<=full(w)){ r.lo=a.lo*b.lo; r.hi=h; } break; }
        case Instruction::UDiv: if(b.lo){ r.lo=a.lo/b.hi; r.hi=a.hi/b.lo; } break;
        case Instruction::SDiv: if(b.lo&&a.hi<=full(w)/2&&b.hi<=full(w)/2){ r.lo=a.lo/b.hi; r.hi=a.hi/b.lo; } break;
        case Instruction::URem: if(b.lo) r.hi=std::min(a.hi,b.hi-1); break;
        case Instruction::SRem: if(b.lo&&a.hi<=full(w)/2&&b.hi<=full(w)/2) r.hi=std::min(a.hi,b.hi-1); break;
        case Instruction::And: r.hi=std::min(a.hi,b.hi); break;
        case Instruction::Or: case Instruction::Xor: { u64 m=a.hi|b.hi; for(int s=1;s<64;s<<=1) m|=m>>s; r.hi=m; break; }
        case Instruction::LShr: if(b.hi<w){ r.lo=a.lo>>b.hi; r.hi=a.hi>>b.lo; } else r.hi=a.hi; break;
        case Instruction::AShr: if(a.hi<=full(w)/2&&b.hi<w){ r.lo=a.lo>>b.hi; r.hi=a.hi>>b.lo; } break;
        case Instruction::Shl: if(b.hi<w&&((W)a.hi<<b.hi)<=full(w)){ r.lo=a.lo<<b.lo; r.hi=a.hi<<b.hi; } break;
        default: break; } return r; }
    if(isa<ZExtInst>(I)||isa<FreezeInst>(I)) return E(0);
    if(isa<SExtInst>(I)){ IV a=E(0); if(a.bot||a.hi<=full(wd(I->getOperand(0)))/2) return a; return top(w,a.t,a.imp); }
    if(isa<TruncInst>(I)){ IV a=E(0); if(a.bot||a.hi<=full(w)) return a; return top(w,a.t,a.imp); }
    if(isa<PtrToIntInst>(I)) return top(w);
    if(auto*s=dyn_cast<SelectInst>(I)){ IV a=E(1),b=E(2); if(!s->getCondition()->getType()->isIntegerTy()) return top(w); refCond(f,a,s->getTrueValue(),s->getCondition(),true,B,d+1); refCond(f,b,s->getFalseValue(),s->getCondition(),false,B,d+1); return join(a,b); }
    if(auto*c=dyn_cast<IntrinsicInst>(I)){ if(c->arg_size()==2){ IV a=E(0),b=E(1); if(a.bot||b.bot){ IV r; r.bot=true; return r; } IV r=top(w,a.t||b.t,a.imp||b.imp); if(c->getIntrinsicID()==Intrinsic::umin){ r.lo=std::min(a.lo,b.lo); r.hi=std::min(a.hi,b.hi); return r; } if(c->getIntrinsicID()==Intrinsic::umax){ r.lo=std::max(a.lo,b.lo); r.hi=std::max(a.hi,b.hi); return r; } return r; } }
    if(isa<CmpInst>(I)){ IV r; r.hi=1; return r; }
    if(auto*l=dyn_cast<LoadInst>(I)){ const Value*p=l->getPointerOperand()->stripInBoundsOffsets(); IV r=top(w); if(isa<Argument>(p)&&w==32) r.hi=0xffff; return r; }   // position fields of a hash state
    return top(w); }
  IV analyse(Function*F,const std::vector<IV>&args){
    std::string key=F->getName().str(); for(auto&a:args) key+=":"+std::to_string(a.lo)+","+std::to_string(a.hi)+","+std::to_string(a.t)+std::to_string(a.imp); auto mi=memo.find(key); if(mi!=memo.end()) return mi->second; if(depth>12||F->isDeclaration()) return top(wd(F)?64:64);
    memo[key]=top(64); depth++; functions++; Fn f; f.F=F; f.dt.recalculate(*F);
    for(auto it=inst_begin(F);it!=inst_end(F);++it) for(auto&o:it->operands()) if(auto*c=dyn_cast<ConstantInt>(o)) f.th.push_back(c->getValue().getLimitedValue()); for(auto&a:args){ f.th.push_back(a.hi); } { auto t=f.th; for(u64 x:t){ if(x) f.th.push_back(x-1); f.th.push_back(x+1); } } std::sort(f.th.begin(),f.th.end());
    unsigned i=0; for(auto&a:F->args()){ if(wd(&a)) f.v[&a]=args[i]; i++; }
    IV ret; ret.bot=true; std::map<const Instruction*,IV> callRet;
    for(int pass=0;pass<60;pass++){ bool ch=false; ret.bot=true;
      for(auto*N:depth_first(f.dt.getRootNode())){ BasicBlock*B=N->getBlock(); for(auto&I:*B){ unsigned w=wd(&I); 
        if(auto*r=dyn_cast<ReturnInst>(&I)){ if(r->getReturnValue()&&wd(r->getReturnValue())) ret=join(ret,eval(f,r->getReturnValue(),B)); continue; }
        if(auto*c=dyn_cast<CallBase>(&I)) if(!isa<IntrinsicInst>(c)){ IV x=top(w?w:64); Function*t=c->getCalledFunction(); if(t){ auto it=t->isDeclaration()?def.find(t->getName().str()):def.end(); if(it!=def.end()) t=it->second; } if(t&&!t->isDeclaration()&&t->arg_size()==c->arg_size()&&pass<1){ } if(w){ auto q=callRet.find(&I); if(q!=callRet.end()) x=q->second; x.t=x.t; ch|=set(f,&I,x,pass); } continue; }
        if(!w) continue; IV x;
        if(auto*p=dyn_cast<PHINode>(&I)){ x.bot=true; for(unsigned k=0;k<p->getNumIncomingValues();k++){ if(!f.dt.isReachableFromEntry(p->getIncomingBlock(k))) continue; IV y=eval(f,p->getIncomingValue(k),p->getIncomingBlock(k)); if(!y.bot) edge(f,y,p->getIncomingValue(k),p->getIncomingBlock(k),B,1); x=join(x,y); } }
        else x=xfer(f,&I,B,0);
        ch|=set(f,&I,x,pass); } }
      if(!ch){ // calls, with the converged arguments
        bool rec=false; for(auto it=inst_begin(F);it!=inst_end(F);++it) if(auto*c=dyn_cast<CallBase>(&*it)){ if(isa<IntrinsicInst>(c)||!f.dt.isReachableFromEntry(c->getParent())) continue; Function*t=c->getCalledFunction(); if(!t) continue; if(t->isDeclaration()){ auto q=def.find(t->getName().str()); if(q==def.end()) continue; t=q->second; } if(t->arg_size()!=c->arg_size()) continue;
          std::vector<IV> a; bool any=false; for(auto&o:c->args()){ IV x=wd(o)?eval(f,o,c->getParent()):IV(); if(x.bot) x=top(64); any|=x.t; a.push_back(x); } IV r=any||wd(c)?analyse(t,a):top(64); if(wd(c)){ IV&q=callRet[c]; if(!(q==r)){ q=r; rec=true; } } }
        if(!rec||pass>40) break; f.v.clear(); f.n.clear(); i=0; for(auto&a:F->args()){ if(wd(&a)) f.v[&a]=args[i]; i++; } } }
    rules(f); depth--; return memo[key]=ret.bot?top(64):ret; }
  bool set(Fn&f,const Instruction*I,IV x,int pass){ if(x.bot) return false; auto it=f.v.find(I); if(it==f.v.end()){ f.v[I]=x; return true; } IV o=it->second; IV j=isa<PHINode>(I)?join(o,x):x; if(j==o) return false; int&n=f.n[I]; n++;
    if(isa<PHINode>(I)&&n>3){ if(j.hi>o.hi){ auto q=std::lower_bound(f.th.begin(),f.th.end(),j.hi); u64 t=(q==f.th.end()||n>30)?full(wd(I)):*q; if(t>full(wd(I))) t=full(wd(I)); j.hi=t; } if(j.lo<o.lo) j.lo=0; } if(n>200) j=top(wd(I),j.t,j.imp); if(j==o) return false; it->second=j; return true; }
  void report(const Instruction*I,const std::string&what){ std::string l=loc(I); if(reported.insert(l+what).second) bad.push_back({I->getFunction()->getName().str(),l,what}); }
  static bool masked(const Value*v){ if(v->use_empty()) return true; for(auto*u:v->users()){ if(auto*o=dyn_cast<BinaryOperator>(u)){ if(o->getOpcode()==Instruction::And&&isa<ConstantInt>(o->getOperand(1))) continue; if(o->getOpcode()==Instruction::URem) if(auto*k=dyn_cast<ConstantInt>(o->getOperand(1))) if(k->getValue().isPowerOf2()) continue; } if(isa<TruncInst>(u)&&masked(u)) continue; return false; } return true; }
  void rules(Fn&f){
    for(auto it=inst_begin(f.F);it!=inst_end(f.F);++it){ const Instruction*I=&*it; const BasicBlock*B=I->getParent(); if(!f.dt.isReachableFromEntry(B)) continue;
      if(auto*t=dyn_cast<TruncInst>(I)){ if(!wd(t)) continue; IV a=eval(f,t->getOperand(0),B); if(!a.t||a.bot) continue; obligations++; if(wd(t)==1&&0) continue; if(!a.imp&&a.hi>full(wd(t))&&!masked(t)) report(I,"a length is truncated to "+std::to_string(wd(t))+" bits"); }
      if(auto*o=dyn_cast<BinaryOperator>(I)) if(wd(o)&&wd(o)<64&&(o->getOpcode()==Instruction::Add||o->getOpcode()==Instruction::Mul||o->getOpcode()==Instruction::Shl)){ IV a=eval(f,o->getOperand(0),B),b=eval(f,o->getOperand(1),B); if(a.bot||b.bot||!(a.t||b.t)||a.imp||b.imp) continue; obligations++; if(o->getOpcode()==Instruction::Add&&b.lo==b.hi&&b.lo>full(wd(o))/2) continue; W h=o->getOpcode()==Instruction::Add?(W)a.hi+b.hi:o->getOpcode()==Instruction::Mul?(W)a.hi*b.hi:b.hi<64?(W)a.hi<<b.hi:0; if(h>full(wd(o))&&a.hi<full(wd(o))&&b.hi<full(wd(o))&&!masked(o)) report(I,"arithmetic on a length wraps at "+std::to_string(wd(o))+" bits"); }
      if(auto*c=dyn_cast<ICmpInst>(I)) if(wd(c->getOperand(0))){ for(int s=0;s<2;s++){ const Value*x=c->getOperand(s),*y=c->getOperand(1-s); IV b=eval(f,y,B); if(b.bot||!b.t) continue; if(auto*k=dyn_cast<ConstantInt>(x)){ thr.insert(k->getValue().getLimitedValue()); continue; } auto*z=dyn_cast<CastInst>(x); if(!z||!(isa<ZExtInst>(z)||isa<SExtInst>(z))) continue; unsigned nw=wd(z->getOperand(0)); if(nw<8||nw>=wd(x)) continue; obligations++; if(isa<PHINode>(z->getOperand(0))){ IV n=eval(f,z->getOperand(0),B); if(!n.bot&&!b.imp&&b.hi>full(nw)&&n.hi>=full(nw)/2) report(I,"a "+std::to_string(nw)+"-bit counter is compared with a length it cannot reach"); } } } } }
};
int lengthMode(const std::vector<std::string>&files,const std::vector<std::string>&fns,std::function<void(const std::string&,const std::string&)> add,std::function<std::string(const std::string&)> js){
  LLVMContext C; std::vector<std::unique_ptr<Module>> mods; Len L;
  PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM,FAM,CGAM,MAM);
  for(auto&f:files){ SMDiagnostic E; auto m=parseIRFile(f,E,C); if(!m){ fprintf(stderr,"load %s\n",f.c_str()); return 2; } ModulePassManager MPM; if(auto x=PB.parsePassPipeline(MPM,"function(sroa)")) return 2; MPM.run(*m,MAM); mods.push_back(std::move(m)); }
  for(auto&m:mods) for(auto&F:*m) if(!F.isDeclaration()&&!F.hasLocalLinkage()) L.def[F.getName().str()]=&F;
  int n=0; for(auto&fn:fns){ auto it=L.def.find(fn); if(it==L.def.end()) continue; std::vector<IV> a; bool has=false; for(auto&p:it->second->args()){ IV x=top(64); if(p.getType()->isIntegerTy()){ x.t=true; x.hi=MAXLEN; has=true; if(Len::wd(&p)<64){ x.hi=full(Len::wd(&p)); L.bad.push_back({fn,fn,"the length parameter has only "+std::to_string(Len::wd(&p))+" bits"}); } } a.push_back(x); } if(!has) continue; n++; L.analyse(it->second,a); }
  std::string b="["; for(auto&x:L.bad) b+=(b.size()>1?",":"")+std::string("{\"fn\":")+js(x[0])+",\"where\":"+js(x[1])+",\"what\":"+js(x[2])+"}"; add("length_bad",b+"]");
  std::string t="["; for(u64 x:L.thr) t+=(t.size()>1?",":"")+std::to_string(x); add("length_thresholds",t+"]"); add("length_entry_points",std::to_string(n)); add("length_obligations",std::to_string(L.obligations)); add("length_functions",std::to_string(L.functions)); return 0;
}
