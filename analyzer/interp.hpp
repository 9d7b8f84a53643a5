#pragma once
#include "dom.hpp"
#include <memory>
#include <set>
#include <functional>
struct Cell { NID n; u8 i; };
struct Region { std::string name; char kind; /* s stack, g global, c constant, p param, t asm stack */ bool writable, alive; u32 align; std::vector<Cell> c;
  bool written=false; int id=0; std::string info; bool outParam=false; };
typedef std::shared_ptr<Region> RP;
// ---- rejection sampling.  Stream s = one XOF output stream; candidate j = j-th 12-bit little-endian group;
// A(s,j) = "candidate j < q"; M(s,n) = min(256, number of accepted candidates among the first n).
struct MFact { u32 s; int n; i64 lo, hi; };             // bounds of M(s,n) on this path
struct AFact { u32 s; int j; bool v; };                 // known acceptance bits on this path
struct SMeta { int reg; i64 base; u32 s; int upto; bool complete; bool cleared; };  // array at base holds the accepted ones among the first upto candidates
struct State { std::vector<RP> r; std::vector<NID> cond; std::vector<MFact> mf; std::vector<AFact> af; std::vector<SMeta> sm; std::set<std::pair<u32,int>> split; };
struct Stream { G id; bool secret; std::vector<NID> bytes, cand, raw, A; std::map<int,NID> M; u64 rawTab=0; };
struct Lin { i64 c=0; std::map<std::pair<u32,int>,i64> m, a; void addTo(std::map<std::pair<u32,int>,i64>&x,std::pair<u32,int> k,i64 v){ if((x[k]+=v)==0) x.erase(k); } };
struct Event { std::string kind, where, msg; u64 count; };
struct HashTerm { std::string alg; int rate; std::vector<NID> in; bool fin; u64 squeezed; bool secret; G id; NID off; };
typedef std::vector<NID> Val;

struct Interp {
  State S;
  std::vector<Event> events; std::map<std::string,size_t> evIdx;
  std::string curFn, curLoc; // current location
  std::vector<std::string> callStack;
  u64 steps=0, maxSteps=400000000; u64 nLoads=0,nStores=0,nBranches=0,nCalls=0,nMemAccess=0,nArith=0,nAsm=0;
  std::set<std::string> fnSeen;
  std::map<std::string,u64> sumCalls;
  bool aborted=false; std::string abortMsg;
  bool summarizeHash=true, summarizeGenMatrix=true; 
  std::set<std::pair<u64,u64>> publicIds;
  std::vector<std::pair<int,int>> randCalls;
  std::vector<HashTerm> terms; std::map<NID,u32> termOf;
  std::function<void(const std::string&,const std::vector<Val>&)> callProbe;
  std::map<std::string,std::function<bool(Interp&,const std::string&,std::vector<Val>&,Val&)>> hooks;  // exact-name hooks
  std::vector<int> genMap; // position -> coefficient index
  struct GMCall { NID seedId; int transposed; std::string where; }; std::vector<std::string> gmLog;
  std::vector<std::string> hashLog;
  int K=3;
  struct Contract { std::string prop,where,msg; u64 checked=0,failed=0,preFailed=0; }; std::map<std::string,Contract> contracts; std::vector<int> gmFlags; bool evalContracts=false;
  struct HashRec { std::string alg; std::vector<NID> in; G id; }; std::vector<HashRec> hashRecs;
  // sampler (sampler.cpp)
  std::vector<Stream> streams; std::map<std::pair<u64,u64>,u32> streamOf; std::unordered_map<NID,std::pair<u32,int>> byteOf,candOf,accOf,symOf,rawOf;
  std::unordered_map<NID,std::pair<u32,int>> stateAtom; u64 squeezedTotal=0; bool trackStreams=false; u64 nInductions=0,nSamplerStores=0,nSamplerMerges=0,nCandidates=0; std::vector<std::string> samplerLog;
  void registerStream(G id,u64 off,const std::vector<NID>&b,bool secret);
  NID msym(u32 s,int n); bool lin(NID x,Lin&L); void absorb(Lin&L); NID unlin(const Lin&L,int w); NID canon(NID x);
  bool linRange(const Lin&L,i64&lo,i64&hi); void mRange(const State&S,u32 s,int n,i64&lo,i64&hi); int accKnown(const State&S,u32 s,int j);
  NID scmp(int pred,NID a,NID b);   // 0 eq, 1 ult, 2 slt; 0 when not applicable
  NID restrict(NID c); bool leaf(NID c,NID&l); bool fullLeaf(NID c,NID&l); bool dependsOnCounter(NID c); bool addFact(State&S,NID l,bool v);
  void settle(State&S); bool samplerStore(NID p,const std::vector<NID>&bytes); void plainWrite(int reg,i64 off,i64 len);
  bool smergeVal(const State&sa,const State&sb,NID a,NID b,NID&out); bool complementaryAcc(const State&a,const State&b,u32&s,int&j);
  void smergeFacts(State&a,State&b,State&out);
  bool shapeEq(const State&p,const State&n,NID a,NID b,std::map<u32,i64>&d); bool shapeEqState(const State&p,const State&n,std::map<u32,i64>&d); bool shapeFacts(const State&p,const State&n,const std::map<u32,i64>&d);
  int nextRegion=0; std::map<int,RP> globalInit;

  void updateLoc(); bool inAsm=false; std::string asmLoc,asmFn;
  void ev(const std::string&kind,const std::string&msg);
  void stop(const std::string&m){ updateLoc(); if(!aborted){ aborted=true; abortMsg=m+" at "+curLoc+" in "+curFn; } }
  int newRegion(const std::string&name,char kind,u32 size,u32 align,bool writable);
  std::set<std::string> globalsWritten, hidden; std::set<std::pair<u64,u64>> extHash; bool extRandom=false;    // writable objects that outlive a call; those whose content at the start is unknown
  Region& rw(int id);
  const Region& ro(int id) const { return *S.r[id]; }
  bool access(NID ptr,u32 bytes,u32 align,bool write,int&reg,i64&off); // false: not definite/invalid
  NID loadInt(NID ptr,int w,u32 align);
  void storeInt(NID ptr,NID v,u32 align);
  NID loadCells(const Region&r,i64 off,int bytes);
  void storeCells(Region&r,i64 off,NID v);
  std::vector<NID> readBytes(NID ptr,u64 len,const char*what);
  void writeBytes(NID ptr,const std::vector<NID>&b);
  void copyMem(NID dst,NID src,u64 len);
  // hashing
  G hashId(const std::string&alg,const std::vector<NID>&in,bool&secret);
  std::vector<NID> hashOut(G id,u64 off,u64 len,bool secret);
  NID putState(NID ptr,u32 lanes,u32 stride,u32 t); u32 getState(NID ptr,const char*what);
  bool summary(const std::string&name,std::vector<Val>&a,Val&ret);
  bool genMatrix(std::vector<Val>&a);
  void checkConstLen(NID l,const char*what);
  // implemented in llvmi.cpp
  bool loadModules(const std::vector<std::string>&files,std::string&err);
  bool haveFn(const std::string&name);
  std::vector<std::string> functions();
  Val call(const std::string&name,std::vector<Val> args);
  // implemented in x86.cpp
  bool loadAsm(const std::string&objdumpText);
  bool haveAsm(const std::string&name);
  void callAsm(const std::string&name,std::vector<Val>&args,Val&ret);
};
std::function<void()> contractPre(Interp&I,const std::string&name,std::vector<Val>&a);
std::string endsAfter(const std::string&name); // strip namespace prefix
