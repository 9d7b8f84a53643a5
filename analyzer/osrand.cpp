// randombytes(): typestate of the operating system's random source combined with an affine-equality domain over
// (output pointer, remaining length, bytes filled so far).  One obligation per source call, per return and per abort.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IR/Dominators.h>
#include <llvm/Support/SourceMgr.h>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <functional>
using namespace llvm;
typedef unsigned long long u64t; typedef __int128 Z; static const Z INF=(Z)1<<100;
struct L { std::map<int,Z> m; Z c=0; bool operator==(const L&o) const { return c==o.c&&m==o.m; } bool isC() const { return m.empty(); } };
static L K(Z c){ L l; l.c=c; return l; } static L V(int s){ L l; l.m[s]=1; return l; }
static L add(const L&a,const L&b,Z k=1){ L r=a; r.c+=k*b.c; for(auto&x:b.m){ Z&z=r.m[x.first]; z+=k*x.second; if(z==0) r.m.erase(x.first); } return r; }
static L scale(const L&a,Z k){ return add(K(0),a,k); }
static L subst(const L&a,int s,const L&v){ auto it=a.m.find(s); if(it==a.m.end()) return a; Z k=it->second; L r=a; r.m.erase(s); return add(r,v,k); }
struct Fact { L e; Z lo,hi; };
enum Fail { NONE, EINTR_, OTHER, ZERO };
struct St { std::map<const Value*,L> env; std::map<int,L> mem; std::vector<Fact> facts; std::set<int> fds,opened; L F; Fail fail=NONE; int handle=0; int hsym=-1; L err; const BasicBlock*pred=nullptr; };
static int nsym=0; enum { OUT0=0, N_=1 };
static std::set<int> ptrSyms;
static void fact(St&s,const L&e,Z lo,Z hi){ if(e.isC()) return; L k=e; lo-=k.c; hi-=k.c; k.c=0; for(auto&f:s.facts) if(f.e==k){ f.lo=std::max(f.lo,lo); f.hi=std::min(f.hi,hi); return; } s.facts.push_back({k,lo,hi}); }
static void query(const St&s,const L&e,Z&lo,Z&hi){
  if(e.isC()){ lo=hi=e.c; return; } lo=-INF; hi=INF; L k=e; Z c=k.c; k.c=0;
  auto use=[&](const L&x,Z l,Z h){ if(x==k){ lo=std::max(lo,l+c); hi=std::min(hi,h+c); } L n=scale(x,-1); if(n==k){ lo=std::max(lo,-h+c); hi=std::min(hi,-l+c); } };
  for(auto&f:s.facts) use(f.e,f.lo,f.hi);
  for(size_t i=0;i<s.facts.size();i++) for(size_t j=i+1;j<s.facts.size();j++) for(int sg=-1;sg<=1;sg+=2){ auto&a=s.facts[i];auto&b=s.facts[j]; use(add(a.e,b.e,sg),a.lo+(sg>0?b.lo:-b.hi),a.hi+(sg>0?b.hi:-b.lo)); }
  Z l=c,h=c; for(auto&x:k.m){ Z a=-INF,b=INF; for(auto&f:s.facts) if(f.e.m.size()==1&&f.e.m.begin()->first==x.first&&f.e.m.begin()->second==1){ a=f.lo; b=f.hi; } Z kl=x.second>0?a:b,kh=x.second>0?b:a; l=(kl<=-INF||kl>=INF||l<=-INF)?-INF:l+kl*x.second; h=(kh<=-INF||kh>=INF||h>=INF)?INF:h+kh*x.second; }
  lo=std::max(lo,l); hi=std::min(hi,h); if(lo<-INF) lo=-INF; if(hi>INF) hi=INF; }
struct OSR {
  LLVMContext C; std::unique_ptr<Module> M; std::vector<std::pair<std::string,std::string>> viol; std::vector<std::string> unres; std::set<std::string> seenV; unsigned sources=0,paths=0,rets=0,aborts=0,joins=0,steps=0; std::set<std::string> srcNames;
  std::map<const Value*,int> objs; int errObj=-1; std::map<const GlobalVariable*,int> gobj;
  std::string loc(const Instruction*I){ if(I&&I->getDebugLoc()) return "randombytes.c:"+std::to_string(I->getDebugLoc().getLine()); return "randombytes.c"; }
  void bad(const Instruction*I,const std::string&rule,const std::string&m){ std::string w=loc(I); if(seenV.insert(w+rule).second) viol.push_back({w,"["+rule+"] "+m}); }
  void unknown(const Instruction*I,const std::string&m){ std::string t=loc(I)+": "+m; for(auto&x:unres) if(x==t) return; unres.push_back(t); }
  int fresh(){ return nsym++; }
  int objOf(const Value*v){ auto it=objs.find(v); if(it!=objs.end()) return it->second; int s=fresh(); ptrSyms.insert(s); return objs[v]=s; }
  L val(St&s,const Value*v){
    if(auto*ci=dyn_cast<ConstantInt>(v)) return K(ci->getBitWidth()==1?(Z)ci->getZExtValue():(Z)ci->getSExtValue());
    if(isa<ConstantPointerNull>(v)) return K(0); if(isa<GlobalValue>(v)||isa<AllocaInst>(v)) return V(objOf(v));
    if(auto*g=dyn_cast<GEPOperator>(v)) if(isa<Constant>(v)){ APInt o(64,0); if(g->accumulateConstantOffset(M->getDataLayout(),o)) return add(val(s,g->getPointerOperand()),K(o.getSExtValue())); }
    auto it=s.env.find(v); if(it!=s.env.end()) return it->second; return s.env[v]=V(fresh()); }
  DominatorTree*DT=nullptr; LoopInfo*LI=nullptr; std::map<const BasicBlock*,std::set<const Value*>> live;
  void liveness(Function&F){ bool ch=true; while(ch){ ch=false; for(auto&b:F){ std::set<const Value*> s; for(auto*x:successors(&b)){ for(auto*v:live[x]) if(!(isa<PHINode>(v)&&cast<PHINode>(v)->getParent()==x)) s.insert(v); for(auto&p:x->phis()){ auto*v=p.getIncomingValueForBlock(&b); if(!isa<Constant>(v)) s.insert(v); } }
      for(auto it=b.rbegin();it!=b.rend();++it){ if(isa<PHINode>(*it)) continue; s.erase(&*it); for(auto&o:it->operands()) if(isa<Instruction>(o)||isa<Argument>(o)) s.insert(o.get()); } for(auto&p:b.phis()) s.insert(&p); if(s!=live[&b]){ live[&b]=s; ch=true; } } } }
  struct Head { St s; int phi=-1; int visits=0; }; std::map<std::pair<const BasicBlock*,std::string>,Head> heads;
  struct W { BasicBlock*b; BasicBlock::iterator it; St s; }; std::vector<W> work;
  std::string keyOf(const St&s){ return std::to_string(s.fail)+"/"+std::to_string(s.handle); }
  bool validFd(const St&s,const L&l){ return l.c==0&&l.m.size()==1&&l.m.begin()->second==1&&s.fds.count(l.m.begin()->first); }
  // entering a loop header: true when the state is covered by one already explored
  bool atHead(BasicBlock*b,St&s){
    // drop what is dead
    for(auto it=s.env.begin();it!=s.env.end();) if(!live[b].count(it->first)) it=s.env.erase(it); else ++it;
    std::string k=keyOf(s); for(auto&v:s.env){ bool fd=validFd(s,v.second); if(v.second.isC()&&v.first->getType()->isIntegerTy(32)&&v.second.c==-1) k+="m"; else if(fd) k+="d"; else k+="."; } for(auto&m:s.mem) k+=validFd(s,m.second)?"D":m.second==K(-1)?"M":"_";
    Head&h=heads[{b,k}]; h.visits++; joins++;
    auto templ=[&](St&x,const L&F,std::vector<L>&t){ t.push_back(F); t.push_back(add(V(N_),F,-1)); for(auto&v:x.env) if(!v.second.isC()) t.push_back(v.second); };
    if(h.visits==1){ h.s=s; return false; }
    if(h.visits>60){ unknown(&b->front(),"loop does not stabilise"); return true; }
    bool cover=true; auto inst=[&](const L&l){ return h.phi<0?l:subst(l,h.phi,s.F); };
    auto sameFd=[&](const L&a,const L&c){ return validFd(h.s,a)&&validFd(s,c); };
    for(auto&v:s.env){ auto it=h.s.env.find(v.first); if(it==h.s.env.end()||!(inst(it->second)==v.second||sameFd(it->second,v.second)||(it->second.m.size()==1&&unkSyms.count(it->second.m.begin()->first)))) cover=false; }
    for(auto&m:s.mem){ auto it=h.s.mem.find(m.first); if(it==h.s.mem.end()||!(it->second==m.second||sameFd(it->second,m.second))) cover=false; }
    if(!(inst(h.s.F)==s.F)) cover=false;
    if(cover){ bool imp=true; for(auto&f:h.s.facts){ L e=inst(f.e); bool u=false; for(auto&x:e.m) u|=unkSyms.count(x.first)||h.s.fds.count(x.first); if(u) continue; Z lo,hi; query(s,e,lo,hi); if(lo<f.lo||hi>f.hi) imp=false; } if(imp) return true;
      // weaken the facts
      St n=h.s; for(auto&f:n.facts){ L e=inst(f.e); Z lo,hi; query(s,e,lo,hi); if(h.visits>6){ if(lo<f.lo) lo=-INF; if(hi>f.hi) hi=INF; } f.lo=std::min(f.lo,lo); f.hi=std::max(f.hi,hi); } h.s=n; s=n; return false; }
    // affine hull with one new parameter: the number of bytes filled
    int phi=fresh(); St n=s; n.env.clear(); n.facts.clear(); L dF=add(s.F,h.s.F,-1); n.F=V(phi);
    std::vector<std::pair<L,std::pair<L,L>>> t; // new expr, old expr, incoming expr
    t.push_back({V(phi),{h.s.F,s.F}}); t.push_back({add(V(N_),V(phi),-1),{add(V(N_),h.s.F,-1),add(V(N_),s.F,-1)}}); t.push_back({V(N_),{V(N_),V(N_)}});
    for(auto&v:s.env){ auto it=h.s.env.find(v.first); L x2=v.second; if(it==h.s.env.end()){ int u=fresh(); unkSyms.insert(u); n.env[v.first]=V(u); continue; } L x1=it->second,r; L d=add(x2,x1,-1); if(d.isC()&&d.c==0) r=x1; else if(sameFd(x1,x2)) r=x2; else if(d==dF) r=add(add(x1,V(phi)),h.s.F,-1); else if(d==scale(dF,-1)) r=add(add(x1,V(phi),-1),h.s.F); else { int u=fresh(); unkSyms.insert(u); r=V(u); } n.env[v.first]=r; t.push_back({r,{x1,x2}}); }
    for(auto&m:s.mem){ auto it=h.s.mem.find(m.first); if(it!=h.s.mem.end()&&(it->second==m.second||sameFd(it->second,m.second))) continue; int u=fresh(); unkSyms.insert(u); n.mem[m.first]=V(u); }
    for(auto&x:t){ Z a,c,d,e; query(h.s,x.second.first,a,c); query(s,x.second.second,d,e); fact(n,x.first,std::min(a,d),std::max(c,e)); }
    h.phi=phi; h.s=n; s=n; return false; }
  std::set<int> unkSyms;
  void go(BasicBlock*from,BasicBlock*to,St s){ std::map<const Value*,L> t; for(auto&p:to->phis()) t[&p]=val(s,p.getIncomingValueForBlock(from)); for(auto&x:t) s.env[x.first]=x.second; if(LI->isLoopHeader(to)&&atHead(to,s)) return; work.push_back({to,to->getFirstNonPHI()->getIterator(),s}); }
  void cont(BasicBlock*b,BasicBlock::iterator it,const St&s){ work.push_back({b,it,s}); }
  bool feasible(const St&s){ for(auto&f:s.facts){ if(f.lo>f.hi) return false; Z lo,hi; query(s,f.e,lo,hi); if(lo>hi) return false; } return true; }
  // outcomes of one request for l bytes at p
  void source(Instruction*I,St s,const L&p,const L&l,const std::string&name,int mode,BasicBlock*b,BasicBlock::iterator nx){
    sources++; srcNames.insert(name); Z lo,hi; if(s.fail==OTHER) bad(I,"failure-ignored","the random source is used again after a failure that is not an interruption");
    if(!(add(p,add(V(OUT0),s.F),-1)==K(0))) bad(I,"fill-position","request does not start at the first unfilled byte of the output");
    query(s,add(add(V(N_),s.F,-1),l,-1),lo,hi); if(lo<0) bad(I,"fill-length","request may be longer than the unfilled part of the output");
    St k=s; k.fail=NONE; 
    if(mode==0){ int r=fresh(); // short counts possible
      { St x=k; fact(x,V(r),1,INF); fact(x,add(V(r),l,-1),-INF,0); if(name=="getrandom system call") fact(x,V(r),-INF,33554431); x.F=add(x.F,V(r)); x.env[I]=V(r); if(feasible(x)) cont(b,nx,x); }
      { St x=k; x.fail=ZERO; x.env[I]=K(0); cont(b,nx,x); } }
    else if(mode==1){ St x=k; x.F=add(x.F,l); x.env[I]=K(0); cont(b,nx,x); }       // getentropy
    else if(mode==2){ St x=k; x.F=add(x.F,l); x.env[I]=K(1); cont(b,nx,x); }       // Windows: non-zero is success
    else { St x=k; x.F=add(x.F,l); cont(b,nx,x); return; }                         // cannot fail
    if(mode==2){ St x=k; x.fail=OTHER; x.env[I]=K(0); cont(b,nx,x); return; }
    for(int e=0;e<2;e++){ St x=k; x.fail=e?OTHER:EINTR_; x.env[I]=K(-1); if(e){ int u=fresh(); x.err=V(u); fact(x,V(u),1,4095); notEintr.insert(u); } else x.err=K(4); cont(b,nx,x); } }
  std::set<int> notEintr;
  bool cstr(const Value*v,std::string&o){ auto*g=dyn_cast<GlobalVariable>(v); if(!g||!g->hasInitializer()) return false; auto*a=dyn_cast<ConstantDataArray>(g->getInitializer()); if(!a||!a->isCString()) return false; o=a->getAsCString().str(); return true; }
  void run(Function&F){
    DominatorTree dt(F); LoopInfo li(dt); DT=&dt; LI=&li; liveness(F); nsym=2; ptrSyms.insert(OUT0); errObj=fresh(); ptrSyms.insert(errObj);
    St s; s.F=K(0); s.err=V(fresh()); if(F.arg_size()!=2){ unres.push_back("randombytes does not take two arguments"); return; } s.env[F.getArg(0)]=V(OUT0); s.env[F.getArg(1)]=V(N_); fact(s,V(N_),0,((Z)1<<63)-1);
    std::vector<St> init{s}; for(auto&g:M->globals()) if(!g.isConstant()&&g.hasInitializer()&&g.getValueType()->isIntegerTy()){ gobj[&g]=objOf(&g); auto*ci=dyn_cast<ConstantInt>(g.getInitializer()); std::vector<St> nx; for(auto&x:init){ St a=x; a.mem[objOf(&g)]=K(ci?ci->getSExtValue():0); nx.push_back(a); St c=x; int f=fresh(); c.fds.insert(f); fact(c,V(f),0,INT32_MAX); c.mem[objOf(&g)]=V(f); nx.push_back(c); } init=nx; }
    for(auto&x:init) cont(&F.getEntryBlock(),F.getEntryBlock().begin(),x);
    while(!work.empty()){ W w=work.back(); work.pop_back(); step(w); if(++steps>200000){ unres.push_back("too many abstract steps"); return; } }
  }
  void step(W&w){ St&s=w.s; BasicBlock*b=w.b; auto it=w.it;
    while(true){ Instruction*I=&*it; ++it; steps++;
      if(isa<DbgInfoIntrinsic>(I)||I->isLifetimeStartOrEnd()) continue;
      if(isa<PHINode>(I)||isa<AllocaInst>(I)) continue;
      if(auto*r=dyn_cast<ReturnInst>(I)){ (void)r; paths++; rets++; Z lo,hi; query(s,add(V(N_),s.F,-1),lo,hi);
        if(s.fail==OTHER) bad(I,"failure-ignored","returns after a failure of the random source"); else if(lo!=0||hi!=0) bad(I,"incomplete-return","returns although not all requested bytes have been written by the random source");
        if(s.handle==1) bad(I,"handle-leak","returns without releasing the provider handle");
        for(int fd:s.opened){ bool kept=false; for(auto&g:gobj) kept|=s.mem[g.second]==V(fd); if(!kept) bad(I,"descriptor-leak","returns without closing the descriptor opened for this call and without keeping it for later calls"); }
        for(auto&g:gobj){ auto&m=s.mem[g.second]; if(!(m==K(-1))&&!validFd(s,m)&&!(g.first->hasInitializer()&&isa<ConstantInt>(g.first->getInitializer())&&m==K(cast<ConstantInt>(g.first->getInitializer())->getSExtValue()))) bad(I,"descriptor-state","static variable "+g.first->getName().str()+" is left with a value that is not an open descriptor"); }
        return; }
      if(isa<UnreachableInst>(I)) return;
      if(auto*br=dyn_cast<BranchInst>(I)){ if(br->isUnconditional()){ go(b,br->getSuccessor(0),s); return; } L c=val(s,br->getCondition()); if(c.isC()) go(b,br->getSuccessor(c.c?0:1),s); else { go(b,br->getSuccessor(0),s); go(b,br->getSuccessor(1),s); } return; }
      if(auto*sw=dyn_cast<SwitchInst>(I)){ L c=val(s,sw->getCondition()); if(c.isC()){ BasicBlock*t=sw->getDefaultDest(); for(auto&k:sw->cases()) if((Z)k.getCaseValue()->getSExtValue()==c.c) t=k.getCaseSuccessor(); go(b,t,s); return; }
        for(auto&k:sw->cases()){ Z v=k.getCaseValue()->getSExtValue(); Z lo,hi; query(s,c,lo,hi); if(v<lo||v>hi) continue; if(v==4&&c.m.size()==1&&notEintr.count(c.m.begin()->first)) continue; St x=s; fact(x,c,v,v); go(b,k.getCaseSuccessor(),x); } go(b,sw->getDefaultDest(),s); return; }
      if(auto*ic=dyn_cast<ICmpInst>(I)){ L a=val(s,ic->getOperand(0)),c=val(s,ic->getOperand(1)); auto p=ic->getPredicate(); int w=ic->getOperand(0)->getType()->isPointerTy()?64:ic->getOperand(0)->getType()->getIntegerBitWidth(); L d=add(a,c,-1); Z lo,hi,al,ah,cl,ch; query(s,a,al,ah); query(s,c,cl,ch);
        bool known=true; if(ic->isUnsigned()){ auto fix=[&](L&x,Z&l,Z&h){ if(x.isC()&&x.c<0){ x.c+=(Z)1<<w; l=h=x.c; } else if(l<0) known=false; }; bool ptrs=ic->getOperand(0)->getType()->isPointerTy(); if(!ptrs){ fix(a,al,ah); fix(c,cl,ch); } d=add(a,c,-1); }
        query(s,d,lo,hi); 
        auto two=[&](Z tl,Z th,Z fl,Z fh){ // condition true: d in [tl,th]; false: d in [fl,fh]
          St t=s,f=s; fact(t,d,tl,th); fact(f,d,fl,fh); bool tf=d.isC()?(d.c>=tl&&d.c<=th):(std::max(lo,tl)<=std::min(hi,th)&&feasible(t)),ff=d.isC()?(d.c>=fl&&d.c<=fh):(std::max(lo,fl)<=std::min(hi,fh)&&feasible(f)); t.env[I]=K(1); f.env[I]=K(0); if(tf) cont(b,it,t); if(ff) cont(b,it,f); };
        if(!known){ St t=s,f=s; t.env[I]=K(1); f.env[I]=K(0); cont(b,it,t); cont(b,it,f); return; }
        switch(p){ case ICmpInst::ICMP_SLT: case ICmpInst::ICMP_ULT: two(-INF,-1,0,INF); return; case ICmpInst::ICMP_SLE: case ICmpInst::ICMP_ULE: two(-INF,0,1,INF); return; case ICmpInst::ICMP_SGT: case ICmpInst::ICMP_UGT: two(1,INF,-INF,0); return; case ICmpInst::ICMP_SGE: case ICmpInst::ICMP_UGE: two(0,INF,-INF,-1); return; default: break; }
        bool eq=p==ICmpInst::ICMP_EQ; auto fin=[&](St x,bool e){ x.env[I]=K(e==eq); cont(b,it,x); };
        if(d.isC()){ fin(s,d.c==0); return; } if(lo>0||hi<0){ fin(s,false); return; }
        { L e=a.isC()?c:a; Z k=a.isC()?a.c:c.c; if((a.isC()||c.isC())&&k==4&&e.m.size()==1&&e.c==0&&notEintr.count(e.m.begin()->first)){ fin(s,false); return; } }
        { St t=s; fact(t,d,0,0); if(feasible(t)) fin(t,true); } { St f=s; bool done=false; if(lo==0){ fact(f,d,1,INF); if(feasible(f)) fin(f,false); done=true; } else if(hi==0){ fact(f,d,-INF,-1); if(feasible(f)) fin(f,false); done=true; } if(!done) fin(f,false); }
        return; }
      if(auto*se=dyn_cast<SelectInst>(I)){ L c=val(s,se->getCondition()); if(c.isC()){ s.env[I]=val(s,c.c?se->getTrueValue():se->getFalseValue()); continue; } St f=s; s.env[I]=val(s,se->getTrueValue()); f.env[I]=val(f,se->getFalseValue()); cont(b,it,s); cont(b,it,f); return; }
      if(auto*g=dyn_cast<GetElementPtrInst>(I)){ APInt o(64,0); L base=val(s,g->getPointerOperand()); if(g->accumulateConstantOffset(M->getDataLayout(),o)){ s.env[I]=add(base,K(o.getSExtValue())); continue; } if(g->getNumIndices()==1){ u64t sz=M->getDataLayout().getTypeAllocSize(g->getSourceElementType()); s.env[I]=add(base,scale(val(s,g->getOperand(1)),sz)); continue; } s.env[I]=V(fresh()); continue; }
      if(auto*ld=dyn_cast<LoadInst>(I)){ L p=val(s,ld->getPointerOperand()); if(p==V(errObj)){ s.env[I]=s.err; continue; } if(p.c==0&&p.m.size()==1){ auto m=s.mem.find(p.m.begin()->first); if(m!=s.mem.end()){ s.env[I]=m->second; continue; } } s.env[I]=V(fresh()); continue; }
      if(auto*stI=dyn_cast<StoreInst>(I)){ L p=val(s,stI->getPointerOperand()); write(I,s,p); if(p==V(errObj)) s.err=val(s,stI->getValueOperand()); else if(p.c==0&&p.m.size()==1&&p.m.begin()->first!=OUT0) s.mem[p.m.begin()->first]=val(s,stI->getValueOperand()); continue; }
      if(auto*ci=dyn_cast<CastInst>(I)){ L v=val(s,ci->getOperand(0)); Z lo,hi; query(s,v,lo,hi); if(isa<PtrToIntInst>(I)||isa<IntToPtrInst>(I)||isa<BitCastInst>(I)){ s.env[I]=v; continue; } int fw=ci->getSrcTy()->getIntegerBitWidth(),tw=ci->getDestTy()->getIntegerBitWidth(); bool ok;
        if(isa<TruncInst>(I)){ if(v.isC()){ Z m=((Z)1<<tw)-1; Z x=v.c&m; if(tw>1&&(x>>(tw-1))&1) x-=(Z)1<<tw; if(v.c>=0&&v.c<=m) x=v.c; s.env[I]=K(x); continue; } ok=(lo>=0&&hi<((Z)1<<tw))||(lo>=-((Z)1<<(tw-1))&&hi<((Z)1<<(tw-1))); }
        else if(isa<ZExtInst>(I)){ if(v.isC()&&v.c<0){ s.env[I]=K(v.c+((Z)1<<fw)); continue; } ok=lo>=0; } else { if(fw==1){ s.env[I]=v.isC()?K(v.c?-1:0):V(fresh()); continue; } ok=lo>=-((Z)1<<(fw-1))&&hi<((Z)1<<(fw-1)); }
        if(ok) s.env[I]=v; else { int u=fresh(); s.env[I]=V(u); Z w=(Z)1<<tw; fact(s,V(u),isa<ZExtInst>(I)?0:-(w/2),isa<ZExtInst>(I)?((Z)1<<fw)-1:w/2-1); } continue; }
      if(auto*bo=dyn_cast<BinaryOperator>(I)){ L a=val(s,bo->getOperand(0)),c=val(s,bo->getOperand(1)); switch(bo->getOpcode()){ case Instruction::Add: s.env[I]=add(a,c); continue; case Instruction::Sub: s.env[I]=add(a,c,-1); continue; case Instruction::Mul: if(a.isC()){ s.env[I]=scale(c,a.c); continue; } if(c.isC()){ s.env[I]=scale(a,c.c); continue; } break; case Instruction::And: if(a.isC()&&c.isC()){ s.env[I]=K(a.c&c.c); continue; } break; case Instruction::Or: if(a.isC()&&c.isC()){ s.env[I]=K(a.c|c.c); continue; } break; case Instruction::Xor: if(a.isC()&&c.isC()){ Z x=a.c^c.c; s.env[I]=K(bo->getType()->isIntegerTy(1)?x&1:x); continue; } break;
          case Instruction::URem: if(c.isC()&&c.c>0){ int u=fresh(); fact(s,V(u),0,c.c-1); s.env[I]=V(u); continue; } break; default: break; }
        s.env[I]=V(fresh()); continue; }
      if(auto*fr=dyn_cast<FreezeInst>(I)){ s.env[I]=val(s,fr->getOperand(0)); continue; }
      if(auto*cb=dyn_cast<CallBase>(I)){ Function*f=cb->getCalledFunction(); if(!f){ unknown(I,"indirect call"); return; } std::string n=f->getName().str(); auto A=[&](int i){ return val(s,cb->getArgOperand(i)); };
        if(f->isIntrinsic()){ if(n.compare(0,11,"llvm.memset")==0||n.compare(0,11,"llvm.memcpy")==0||n.compare(0,12,"llvm.memmove")==0){ write(I,s,A(0)); continue; } if(n.compare(0,11,"llvm.expect")==0){ s.env[I]=A(0); continue; }
          if(n.compare(0,9,"llvm.umin")==0||n.compare(0,9,"llvm.smin")==0||n.compare(0,9,"llvm.umax")==0||n.compare(0,9,"llvm.smax")==0){ bool mn=n[7]=='i'; L a=A(0),c=A(1),d=add(a,c,-1); St t=s,g=s; fact(t,d,-INF,0); fact(g,d,1,INF); t.env[I]=mn?a:c; g.env[I]=mn?c:a; if(d.isC()?d.c<=0:feasible(t)) cont(b,it,t); if(d.isC()?d.c>0:feasible(g)) cont(b,it,g); return; }
          if(n=="llvm.trap"){ return; } continue; }
        if(n=="abort"||n=="exit"||n=="_exit"||n=="_Exit"||n=="__assert_fail"||n=="raise"||n=="ExitProcess"){ paths++; aborts++; if(s.fail==EINTR_) bad(I,"interruption-fatal","an interrupted request terminates the process instead of being retried"); if(s.fail==NONE) bad(I,"spurious-abort","terminates although the random source has not failed");
          if(n=="exit"||n=="_exit"||n=="_Exit") {} return; }
        if(n=="__errno_location"||n=="__errno"||n=="__error"){ s.env[I]=V(errObj); continue; }
        if(n=="syscall"){ L num=A(0); if(!(num==K(318))||cb->arg_size()<4){ bad(I,"not-the-random-source","system call is not getrandom"); return; } L fl=A(3); if(!fl.isC()||(((u64t)fl.c)&4)) bad(I,"insecure-source","getrandom is allowed to return bytes from an unseeded pool"); source(I,s,A(1),A(2),"getrandom system call",0,b,it); return; }
        if(n=="getrandom"){ L fl=A(2); if(!fl.isC()||(((u64t)fl.c)&4)) bad(I,"insecure-source","getrandom is allowed to return bytes from an unseeded pool"); source(I,s,A(0),A(1),n,0,b,it); return; }
        if(n=="getentropy"){ source(I,s,A(0),A(1),n,1,b,it); return; }
        if(n=="arc4random_buf"){ source(I,s,A(0),A(1),n,3,b,it); return; }
        if(n=="read"||n=="__read_chk"){ L fd=A(0); if(!validFd(s,fd)) bad(I,"bad-descriptor","reads from a descriptor that need not be the open random device"); source(I,s,A(1),A(2),"read",0,b,it); return; }
        if(n=="open"||n=="open64"||n=="openat"){ std::string path; int pi=n=="openat"?1:0; if(!cstr(cb->getArgOperand(pi),path)||(path!="/dev/urandom"&&path!="/dev/random")) bad(I,"not-the-random-source","opens "+(path.empty()?std::string("an unknown path"):path)+" as random source"); if(s.fail==OTHER) bad(I,"failure-ignored","continues after a failure that is not an interruption");
          s.fail=NONE; { St x=s; int f2=fresh(); x.fds.insert(f2); x.opened.insert(f2); fact(x,V(f2),0,INT32_MAX); x.env[I]=V(f2); cont(b,it,x); } for(int e=0;e<2;e++){ St x=s; x.fail=e?OTHER:EINTR_; x.env[I]=K(-1); if(e){ int u=fresh(); x.err=V(u); fact(x,V(u),1,4095); notEintr.insert(u); } else x.err=K(4); cont(b,it,x); } return; }
        if(n=="close"){ L fd=A(0); if(fd.m.size()==1){ s.fds.erase(fd.m.begin()->first); s.opened.erase(fd.m.begin()->first); } s.env[I]=K(0); continue; }
        if(n.compare(0,19,"CryptAcquireContext")==0){ L p=A(0); { St x=s; int h=fresh(); x.handle=1; x.hsym=h; if(p.m.size()==1) x.mem[p.m.begin()->first]=V(h); x.env[I]=K(1); cont(b,it,x); } { St x=s; x.fail=OTHER; x.env[I]=K(0); cont(b,it,x); } return; }
        if(n=="CryptGenRandom"){ if(s.handle!=1||!(A(0)==V(s.hsym))) bad(I,"bad-handle","random bytes requested without an acquired provider handle"); source(I,s,A(2),A(1),n,2,b,it); return; }
        if(n=="CryptReleaseContext"){ if(s.handle!=1) bad(I,"bad-handle","releases a handle that is not held"); s.handle=2; { St x=s; x.env[I]=K(1); cont(b,it,x); } { St x=s; x.env[I]=K(0); x.fail=OTHER; cont(b,it,x); } return; }
        if(f->isDeclaration()){ bool touches=false; for(unsigned i=0;i<cb->arg_size();i++){ L a=A(i); for(auto&x:a.m) touches|=x.first==OUT0; } if(touches){ unknown(I,"call of "+n+" not modelled, it receives the output buffer"); return; } if(f->doesNotReturn()){ aborts++; return; } s.err=V(fresh()); if(!I->getType()->isVoidTy()) s.env[I]=V(fresh()); continue; }
        unknown(I,"call of "+n+" not inlined"); return; }
      unknown(I,std::string("instruction ")+I->getOpcodeName()); return; } }

  void write(Instruction*I,St&s,const L&p){ if(!p.m.count(OUT0)) return; Z lo,hi; query(s,add(add(p,V(OUT0),-1),s.F,-1),lo,hi); if(lo<0) bad(I,"overwrite","stores into output bytes that the random source has already filled"); }
};
int randMode(const std::vector<std::string>&files,std::function<void(const std::string&,const std::string&)> add_,std::function<std::string(const std::string&)> js){
  OSR o; SMDiagnostic E; o.M=parseIRFile(files[0],E,o.C); if(!o.M){ fprintf(stderr,"load %s\n",files[0].c_str()); return 2; }
  Function*F=o.M->getFunction("randombytes"); if(!F||F->isDeclaration()){ o.unres.push_back("function randombytes is not defined"); }
  else { for(auto&G:*o.M) if(!G.isDeclaration()){ G.removeFnAttr(Attribute::NoInline); G.removeFnAttr(Attribute::OptimizeNone); if(&G!=F){ G.addFnAttr(Attribute::AlwaysInline); } }
    PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM,FAM,CGAM,MAM);
    ModulePassManager MPM; if(auto e=PB.parsePassPipeline(MPM,"always-inline,function(sroa,simplifycfg,sroa)")) return 2; MPM.run(*o.M,MAM); o.run(*o.M->getFunction("randombytes")); }
  std::string v="["; for(auto&x:o.viol) v+=(v.size()>1?",":"")+std::string("{\"where\":")+js(x.first)+",\"msg\":"+js(x.second)+"}"; add_("violations",v+"]");
  std::string u="["; for(auto&x:o.unres) u+=(u.size()>1?",":"")+js(x); add_("unresolved",u+"]");
  std::string n="["; for(auto&x:o.srcNames) n+=(n.size()>1?",":"")+js(x); add_("source_interfaces",n+"]");
  add_("source_call_states",std::to_string(o.sources)); add_("returns",std::to_string(o.rets)); add_("aborts",std::to_string(o.aborts)); add_("loop_joins",std::to_string(o.joins)); add_("steps",std::to_string(o.steps)); return 0;
}
