// Effects: which external functions, which inline assembly and which writable static storage the functions of one library
// configuration can reach or modify.  Flow-insensitive mod analysis on SSA form over the whole call graph.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <functional>
using namespace llvm;
typedef std::function<void(const std::string&,const std::string&)> Add; typedef std::function<std::string(const std::string&)> Js;
struct Eff {
  LLVMContext C; std::vector<std::unique_ptr<Module>> mods; std::map<std::string,Function*> def; std::map<std::string,GlobalVariable*> gdef; std::set<std::string> asmDef;
  std::map<Function*,std::set<Function*>> callees,callers; std::vector<Function*> taken;
  struct Ext { std::string fn,loc,callee; Function*f; }; std::vector<Ext> ext,asmI,extVar; struct W { std::string var,loc,fn,how; }; std::vector<W> writes; std::vector<std::string> unres; std::set<std::string> mutableVars; unsigned insts=0,fns=0;
  std::string loc(const Instruction*I){ if(I&&I->getDebugLoc()) return cast<DIScope>(I->getDebugLoc().getScope())->getFilename().str()+":"+std::to_string(I->getDebugLoc().getLine()); return I?I->getFunction()->getName().str():"?"; }
  Function*resolve(Function*f){ if(!f->isDeclaration()) return f; auto it=def.find(f->getName().str()); return it==def.end()?nullptr:it->second; }
  std::set<std::pair<const Value*,const GlobalVariable*>> seen; 
  // everything the address v of static object g can reach
  void follow(const Value*v,GlobalVariable*g){
    if(!seen.insert({v,g}).second) return;
    for(const User*u:v->users()){
      if(auto*I=dyn_cast<Instruction>(u)){ std::string F=I->getFunction()->getName().str();
        if(isa<LoadInst>(I)||isa<CmpInst>(I)) continue;
        if(auto*s=dyn_cast<StoreInst>(I)){ if(s->getPointerOperand()==v) writes.push_back({g->getName().str(),loc(I),F,"store"}); else unres.push_back(loc(I)+": address of writable static object "+g->getName().str()+" is stored"); continue; }
        if(isa<GetElementPtrInst>(I)||isa<CastInst>(I)||isa<PHINode>(I)||isa<SelectInst>(I)||isa<FreezeInst>(I)){ follow(I,g); continue; }
        if(isa<AtomicRMWInst>(I)||isa<AtomicCmpXchgInst>(I)){ writes.push_back({g->getName().str(),loc(I),F,"atomic update"}); continue; }
        if(isa<BinaryOperator>(I)){ if(I->getType()->isIntegerTy()&&I->getType()->getIntegerBitWidth()>=64) follow(I,g); continue; }
        if(auto*c=dyn_cast<CallBase>(I)){ for(unsigned i=0;i<c->arg_size();i++) if(c->getArgOperand(i)==v){
            if(auto*ii=dyn_cast<IntrinsicInst>(c)){ if(isa<MemIntrinsic>(ii)){ if(i==0) writes.push_back({g->getName().str(),loc(I),F,"memory intrinsic"}); } else if(ii->mayWriteToMemory()&&!ii->isLifetimeStartOrEnd()&&!isa<DbgInfoIntrinsic>(ii)) writes.push_back({g->getName().str(),loc(I),F,"vector store intrinsic"}); else if(I->getType()->isPointerTy()) follow(I,g); continue; }
            Function*f=c->getCalledFunction(); Function*t=f?resolve(f):nullptr; if(t&&i<t->arg_size()){ follow(t->getArg(i),g); continue; }
            std::string n=f?f->getName().str():"(indirect call)"; if((n=="memcpy"||n=="memmove"||n=="memset"||n.compare(0,5,"__mem")==0)&&i>0) continue; if(n=="memcmp"||n=="bcmp"||n=="strlen") continue;
            if(f&&asmDef.count(n)&&i>0) continue;   // assembly routines of this library write through their first argument only
            if(!f||!t) writes.push_back({g->getName().str(),loc(I),F,"passed to "+n}); }
          continue; }
        if(isa<ReturnInst>(I)){ Function*f=const_cast<Function*>(I->getFunction()); bool any=false; for(auto&m:mods) for(auto&H:*m) for(auto it=inst_begin(H);it!=inst_end(H);++it) if(auto*c=dyn_cast<CallBase>(&*it)) if(c->getCalledFunction()&&resolve(c->getCalledFunction())==f){ follow(c,g); any=true; } if(!f->hasLocalLinkage()) unres.push_back(loc(I)+": address of writable static object "+g->getName().str()+" is returned to callers"); (void)any; continue; }
        unres.push_back(loc(I)+": use of writable static object "+g->getName().str()+" not understood");
      } else if(isa<ConstantExpr>(u)) follow(u,g);
      else if(auto*gv=dyn_cast<GlobalVariable>(u)){ (void)gv; unres.push_back("address of writable static object "+g->getName().str()+" is stored in static object "+gv->getName().str()); }
      else if(isa<Constant>(u)) follow(u,g); } }
};
static std::string esc(Js js,const std::vector<std::pair<std::string,std::string>>&kv){ std::string s="{"; for(size_t i=0;i<kv.size();i++) s+=(i?",":"")+js(kv[i].first)+":"+js(kv[i].second); return s+"}"; }
int effectsMode(const std::vector<std::string>&files,const std::vector<std::string>&asmNames,Add add_,Js js){
  Eff e; for(auto&n:asmNames) e.asmDef.insert(n);
  PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM,FAM,CGAM,MAM);
  for(auto&f:files){ SMDiagnostic E; auto m=parseIRFile(f,E,e.C); if(!m){ fprintf(stderr,"load %s\n",f.c_str()); return 2; } ModulePassManager MPM; if(auto x=PB.parsePassPipeline(MPM,"function(sroa)")) return 2; MPM.run(*m,MAM); e.mods.push_back(std::move(m)); }
  for(auto&m:e.mods){ for(auto&F:*m) if(!F.isDeclaration()){ e.fns++; if(!F.hasLocalLinkage()) e.def[F.getName().str()]=&F; if(F.hasAddressTaken()) e.taken.push_back(&F); } for(auto&g:m->globals()) if(!g.isDeclaration()&&!g.hasLocalLinkage()) e.gdef[g.getName().str()]=&g; if(!m->getModuleInlineAsm().empty()) e.unres.push_back("module-level assembly in "+m->getSourceFileName()); }
  for(auto&m:e.mods) for(auto&F:*m) for(auto it=inst_begin(F);it!=inst_end(F);++it){ e.insts++; auto*c=dyn_cast<CallBase>(&*it); if(!c) continue; if(isa<IntrinsicInst>(c)){ std::string n=c->getCalledFunction()->getName().str(); bool env=false; for(auto p:{"llvm.x86.rdrand","llvm.x86.rdseed","llvm.x86.rdtsc","llvm.readcyclecounter","llvm.x86.rdpmc","llvm.read_register","llvm.read_volatile_register","llvm.returnaddress","llvm.frameaddress","llvm.x86.sse.ldmxcsr","llvm.set.rounding"}) if(n.compare(0,strlen(p),p)==0) env=true; if(env) e.ext.push_back({F.getName().str(),e.loc(c),n,&F}); continue; }
    if(auto*ia=dyn_cast<InlineAsm>(c->getCalledOperand())){ e.asmI.push_back({F.getName().str(),e.loc(c),ia->getAsmString(),&F}); continue; }
    auto*f=dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts()); if(!f){ bool any=false; for(auto*t:e.taken) if(t->arg_size()==c->arg_size()){ e.callees[&F].insert(t); any=true; } if(!any) e.unres.push_back(e.loc(c)+": indirect call without possible target"); continue; }
    if(auto*t=e.resolve(f)) e.callees[&F].insert(t); else if(!e.asmDef.count(f->getName().str())) e.ext.push_back({F.getName().str(),e.loc(c),f->getName().str(),&F}); }
  for(auto&k:e.callees) for(auto*t:k.second) e.callers[t].insert(k.first);
  for(auto&m:e.mods) for(auto&g:m->globals()){ if(g.getName().starts_with("llvm.")) continue;
    if(g.isDeclaration()){ if(!g.use_empty()&&!e.gdef.count(g.getName().str())&&!e.asmDef.count(g.getName().str())){ for(auto*u:g.users()) if(auto*I=dyn_cast<Instruction>(u)) e.extVar.push_back({I->getFunction()->getName().str(),e.loc(I),g.getName().str(),nullptr}); else e.extVar.push_back({"",m->getSourceFileName(),g.getName().str(),nullptr}); } auto it=e.gdef.find(g.getName().str()); if(it!=e.gdef.end()&&!it->second->isConstant()) e.follow(&g,it->second); continue; }
    if(g.isConstant()) continue; e.mutableVars.insert(g.getName().str()); e.follow(&g,&g); }
  auto roots=[&](Function*f){ std::set<Function*> s{f}; std::vector<Function*> w{f}; std::set<std::string> r; while(!w.empty()){ auto*x=w.back(); w.pop_back(); if(!x->hasLocalLinkage()) r.insert(x->getName().str()); for(auto*y:e.callers[x]) if(s.insert(y).second) w.push_back(y); } std::string t; for(auto&x:r) t+=(t.empty()?"":" ")+x; return t; };
  auto dump=[&](const char*k,std::vector<Eff::Ext>&v){ std::string s="["; for(auto&x:v) s+=(s.size()>1?",\n":"")+esc(js,{{"fn",x.fn},{"where",x.loc},{"callee",x.callee},{"roots",x.f?roots(x.f):""}}); add_(k,s+"]"); };
  dump("external_calls",e.ext); dump("inline_asm",e.asmI); dump("external_variables",e.extVar);
  std::string w="["; for(auto&x:e.writes) w+=(w.size()>1?",\n":"")+esc(js,{{"var",x.var},{"where",x.loc},{"fn",x.fn},{"how",x.how}}); add_("static_writes",w+"]");
  std::string u="["; for(auto&x:e.unres) u+=(u.size()>1?",":"")+js(x); add_("unresolved",u+"]");
  std::string mv="["; for(auto&x:e.mutableVars) mv+=(mv.size()>1?",":"")+js(x); add_("writable_static_objects",mv+"]");
  std::string df="["; for(auto&x:e.def) df+=(df.size()>1?",":"")+js(x.first); add_("defined",df+"]");
  size_t ed=0; for(auto&k:e.callees) ed+=k.second.size(); add_("functions",std::to_string(e.fns)); add_("call_edges",std::to_string(ed)); add_("instructions",std::to_string(e.insts)); return 0;
}
