// SHA-3 / SHAKE: the permutation is compared bit for bit with FIPS 202 once, then every interface function is analysed for
// enumerated lengths and chunkings with the verified permutation as an opaque function of the 1600 state bits.
#include "spec.hpp"
#include <algorithm>
#include <sstream>
static NID C64(i64 v){ return D.mkConst(v,64); }
static Val mk(int reg,i64 off=0){ return {D.mkPtr(reg,C64(off))}; }
// ---- FIPS 202 Keccak-f[1600], bit y*5+x lane order, written from the standard
typedef std::vector<NID> Lanes;   // 25 nodes of 64 bits
static G andNot(G x,G y){ G n=gxor(gone(),x); return n==y?y:x==y?gzero():gmul(n,y); }
static std::vector<G> keccakBits(std::vector<G> a){
  static int rot[25]; static bool init=false; if(!init){ init=true; int x=1,y=0; rot[0]=0; for(int t=0;t<24;t++){ rot[5*y+x]=((t+1)*(t+2)/2)%64; int nx=y,ny=(2*x+3*y)%5; x=nx; y=ny; } }
  u8 lfsr=1; auto rc=[&]{ bool o=lfsr&1; lfsr=(lfsr<<1)^((lfsr&0x80)?0x71:0); return o; };
  auto A=[&](int x,int y,int z)->G&{ return a[64*(5*y+x)+z]; };
  for(int rd=0;rd<24;rd++){
    std::vector<G> c(320),d(320); for(int x=0;x<5;x++) for(int z=0;z<64;z++){ G t=A(x,0,z); for(int y=1;y<5;y++) t=gxor(t,A(x,y,z)); c[64*x+z]=t; }
    for(int x=0;x<5;x++) for(int z=0;z<64;z++) d[64*x+z]=gxor(c[64*((x+4)%5)+z],c[64*((x+1)%5)+(z+63)%64]);
    std::vector<G> b(1600); for(int x=0;x<5;x++) for(int y=0;y<5;y++) for(int z=0;z<64;z++) b[64*(5*((2*x+3*y)%5)+y)+(z+rot[5*y+x])%64]=gxor(A(x,y,z),d[64*x+z]);
    for(int x=0;x<5;x++) for(int y=0;y<5;y++) for(int z=0;z<64;z++) A(x,y,z)=gxor(b[64*(5*y+x)+z],andNot(b[64*(5*y+(x+1)%5)+z],b[64*(5*y+(x+2)%5)+z]));
    for(int j=0;j<7;j++) if(rc()){ int z=(1<<j)-1; A(0,0,z)=gxor(A(0,0,z),gone()); }
  }
  return a;
}
static void bitsOf(const Lanes&s,std::vector<G>&v,bool&sec,bool&un){ for(NID l:s){ sec|=D.secret(l); if(D.hasUninit(l)){ un=true; for(int i=0;i<64;i++) v.push_back({0xbad,(u64)i}); continue; } for(int i=0;i<64;i++) v.push_back(D.g(D.bit(l,i))); } }
static Lanes permConcrete(const Lanes&s){ static std::map<Lanes,Lanes> memo; auto mi=memo.find(s); if(mi!=memo.end()) return mi->second; std::vector<G> v; bool sec=false,un=false; bitsOf(s,v,sec,un); v=keccakBits(v); Lanes r; for(int l=0;l<25;l++){ std::vector<NID> b; for(int z=0;z<64;z++) b.push_back(D.mkBitX(v[64*l+z],sec)); r.push_back(D.concat(b)); } memo[s]=r; return r; }
static Lanes permOpaque(const Lanes&s,bool&un){ static std::map<Lanes,Lanes> memo; auto mi=memo.find(s); if(mi!=memo.end()) return mi->second; std::vector<G> v; bool sec=false; bitsOf(s,v,sec,un); H128 h(400); for(G g:v) h.addG(g); G id=h.fin(); Lanes r; for(int l=0;l<25;l++){ H128 k(401); k.addG(id); k.add(l); r.push_back(D.mkAtomBits(k.fin(),64,sec)); } if(!un) memo[s]=r; return r; }
struct Sponge { Lanes s; int r,pos=0; bool opaque; Sponge(int rate,bool o):s(25,C64(0)),r(rate),opaque(o){}
  void perm(){ bool u=false; s=opaque?permOpaque(s,u):permConcrete(s); pos=0; }
  void byte(int p,NID b){ std::vector<Slice> x; NID l=s[p/8]; int o=8*(p%8); NID nb=D.bin(XOR,D.extract(l,o,8),b); if(o) x.push_back({l,0,(u8)o}); x.push_back({nb,0,8}); if(o<56) x.push_back({l,(u8)(o+8),(u8)(56-o)}); s[p/8]=D.mkCat(x); }
  void absorb(const Bytes&in){ for(NID b:in){ byte(pos++,b); if(pos==r) perm(); } }
  void pad(int p){ byte(pos,D.mkConst((i8)p,8)); byte(r-1,D.mkConst((i8)0x80,8)); pos=r; }
  Bytes squeeze(size_t n){ Bytes o; while(o.size()<n){ if(pos==r) perm(); o.push_back(D.extract(s[pos/8],8*(pos%8),8)); pos++; } return o; }
  typedef signed char i8; };
struct HM {
  Interp&I; std::string impl,pre,pre4; bool opaque=false; State base; std::string note;
  struct Bad { std::string fn,what; }; std::vector<Bad> bad; std::map<std::string,u64> cases; u64 cmpBits=0; u64 perms=0; std::string perm[2];
  int inSlack=0;
  HM(Interp&i):I(i){}
  int permArg[2]={0,0}; std::vector<Val> permArgs[2];   // which argument points to the state, and the values the others have
  static bool sameArgs(const std::vector<Val>&a,const std::vector<Val>&b,int skip){ if(a.size()!=b.size()) return false; for(size_t i=0;i<a.size();i++) if((int)i!=skip&&a[i]!=b[i]) return false; return true; }
  void setHook(int fam,bool on){ std::string&n=perm[fam]; if(n.empty()) return; if(!on){ I.hooks.erase(n); return; } int L=fam?4:1;
    I.hooks[n]=[this,L,fam](Interp&I,const std::string&,std::vector<Val>&a,Val&){ if(!sameArgs(a,permArgs[fam],permArg[fam])) return false; NID p=a[permArg[fam]][0]; perms++; for(int j=0;j<L;j++){ Lanes s; for(int i=0;i<25;i++) s.push_back(I.loadInt(D.bin(ADD,p,C64(8*(L*i+j))),64,8)); bool un=false; s=permOpaque(s,un); if(un) I.ev("uninit-use","permutation applied to uninitialised state"); for(int i=0;i<25;i++) I.storeInt(D.bin(ADD,p,C64(8*(L*i+j))),s[i],8); } return true; }; }
  // does the function, with these further arguments, apply Keccak-f to 25 (4x25) opaque lanes?
  bool isPerm(int fam,const std::string&fn,std::vector<Val> args,int at){ int L=fam?4:1; auto save=I.events; auto saveIdx=I.evIdx; I.S=base; int r=I.newRegion("state",'p',200*L,32,true); std::vector<Lanes> in(L); for(int j=0;j<L;j++) for(int i=0;i<25;i++){ H128 h(410); h.add(i); h.add(j); NID a=D.mkAtomBits(h.fin(),64,true); in[j].push_back(a); I.storeCells(*I.S.r[r],8*(L*i+j),a); }
    u64 ms=I.maxSteps; I.maxSteps=I.steps+400000; args[at]=mk(r); I.call(fn,args); I.maxSteps=ms; bool ok=!I.aborted; I.aborted=false; I.abortMsg.clear();
    for(int j=0;j<L&&ok;j++){ std::vector<G> v; bool s=false,u=false; bitsOf(in[j],v,s,u); v=keccakBits(v); for(int i=0;i<25&&ok;i++){ NID x=I.loadCells(I.ro(r),8*(L*i+j),8); if(D.hasUninit(x)) ok=false; for(int z=0;z<64&&ok;z++) ok=D.g(D.bit(x,z))==v[64*i+z]; } }
    if(!ok){ I.events=save; I.evIdx=saveIdx; } else { perm[fam]=fn; permArg[fam]=at; permArgs[fam]=args; } I.S=base; return ok; }
  // which function is the permutation?  First any function of one pointer; then any function called, with further constant
  // arguments, by a one-shot hash.
  void discover(int fam){ for(auto&fn:ptrFns(I)){ if(I.aborted) return; if(isPerm(fam,fn,{Val()},0)) return; }
    std::string fn=fam?pre4+"shake128x4":pre+"sha3_256"; if(!I.haveFn(fn)) return; struct C { std::string fn; std::vector<Val> a; int at; }; std::vector<C> cs;
    auto save=I.events; auto saveIdx=I.evIdx; I.S=base; int stk=I.newRegion("output",'p',fam?128:32,32,true),ib=I.newRegion("input",'p',8,32,true);
    I.callProbe=[&](const std::string&n,const std::vector<Val>&a){ int at=-1; for(size_t i=0;i<a.size();i++){ if(a[i].size()!=1) return; NID x=a[i][0]; if(D.isConst(x)) continue; if(D.N[x].k!=KPTR||!D.isConst(D.arg(x,0))) return; const Region&rg=I.ro(D.N[x].c); if(!rg.writable) continue; if(at>=0||rg.c.size()<(fam?800u:200u)) return; at=i; }
      if(at<0||a.size()<2) return; for(auto&c:cs) if(c.fn==n&&c.at==at&&sameArgs(c.a,a,at)) return; if(cs.size()<40) cs.push_back({n,a,at}); };
    std::vector<Val> args; if(fam){ for(int j=0;j<4;j++) args.push_back(mk(stk,32*j)); args.push_back({C64(32)}); for(int j=0;j<4;j++) args.push_back(mk(ib)); args.push_back({C64(0)}); } else args={mk(stk),mk(ib),{C64(0)}};
    I.call(fn,args); I.callProbe=nullptr; I.aborted=false; I.abortMsg.clear(); I.events=save; I.evIdx=saveIdx; I.S=base;
    for(auto&c:cs) if(isPerm(fam,c.fn,c.a,c.at)) return; }
  std::vector<std::string> ptrFns(Interp&I);
  Bytes input(int lane,size_t n,bool cst=false){ Bytes b; for(size_t i=0;i<n;i++){ if(cst&&i>40&&i+40<n){ b.push_back(D.mkConst((signed char)((i*37+11*lane)&255),8)); continue; } H128 h(420); h.add(lane); h.add(i); if(!D.polyBits){ b.push_back(D.mkAtomBits(h.fin(),8,true)); continue; } std::vector<NID> bits; for(int k=0;k<8;k++){ H128 g=h; g.add(k); bits.push_back(D.mkBitX(g.fin(),true)); } b.push_back(D.concat(bits)); } return b; }
  struct Buf { int reg; Bytes want; bool out; std::string nm; Bytes init; };
  std::vector<Buf> bufs;
  int inBuf(const Bytes&b,int slack=0){ int r=I.newRegion("input of "+std::to_string(b.size())+" bytes",'p',b.size()+slack,1,false); Bytes all=b; for(int i=0;i<slack;i++){ H128 h(421); h.add(i); h.add(r); all.push_back(D.mkAtomBits(h.fin(),8,false)); } for(size_t i=0;i<all.size();i++) I.storeCells(*I.S.r[r],i,all[i]); I.S.r[r]->written=false; return r; }
  int outBuf(const Bytes&want){ int r=I.newRegion("output of "+std::to_string(want.size())+" bytes",'p',want.size(),1,true); I.S.r[r]->outParam=true; bufs.push_back({r,want,true,"",{}}); return r; }
  int stateBuf(int size,int al){ return I.newRegion("state object",'p',size,al,true); }
  void begin(){ I.S=base; bufs.clear(); }
  // compare the outputs of the case just run
  std::string verdict(){ if(I.aborted) return ""; for(auto&b:bufs){ for(size_t i=0;i<b.want.size();i++){ NID g=I.loadCells(I.ro(b.reg),i,1); cmpBits+=8; if(g==b.want[i]) continue; if(D.hasUninit(g)) return "output byte "+std::to_string(i)+" is left unwritten or depends on uninitialised data"; for(int k=0;k<8;k++) if(!(D.g(D.bit(g,k))==D.g(D.bit(b.want[i],k)))) return "output byte "+std::to_string(i)+" differs from FIPS 202"; } } return ""; }
  bool concreteOk=false; std::set<std::string> badFns;
  // body(opaque) sets up and runs one case
  void run(const std::string&fn,const std::string&what,const std::function<void()>&body){
    if(I.aborted||badFns.count(fn)) return; if(!I.haveFn(fn)){ miss.insert(fn); return; }
    cases[fn]++; begin(); body(); std::string v=verdict();
    if(!v.empty()&&opaque){ // decide again with the permutation analysed in place
      opaque=false; D.polyBits=true; setHook(0,false); setHook(1,false); begin(); body(); v=verdict(); if(v.empty()){ concreteOk=true; } opaque=true; D.polyBits=false; setHook(0,true); setHook(1,true); }
    if(!v.empty()){ bad.push_back({fn,what+": "+v}); badFns.insert(fn); }
  }
  std::set<std::string> miss;
  void call(const std::string&fn,std::vector<Val> a){ if(I.aborted) return; if(!I.haveFn(fn)){ miss.insert(fn); return; } I.call(fn,a); }
  Val len(u64 n,const std::string&fn,int arg); };
int ptrParamSize(const std::string&fn,int arg); std::vector<std::string> singlePtrFns(); int paramWidth(const std::string&fn,int arg);
std::vector<std::string> HM::ptrFns(Interp&){ return singlePtrFns(); }
static std::string str(u64 x){ return std::to_string(x); }
int hashMode(Interp&I,const std::string&impl,const std::string&set,bool thorough,const std::string&thresholds,std::function<void(const std::string&,const std::string&)> add,std::function<std::string(const std::string&)> js){
  HM H(I); H.impl=impl; H.pre="pqcrystals_kyber_fips202_"+impl+"_"; H.pre4="pqcrystals_kyber_fips202x4_"+impl+"_"; I.summarizeHash=false; I.trackStreams=false; I.maxSteps=4000000000ULL; H.base=I.S;
  bool x4=set.compare(0,2,"x4")==0||set.find("+x4")!=std::string::npos, sc=set.compare(0,2,"x4")!=0;
  if(sc) H.discover(0); if(x4) H.discover(1);
  bool have=(!sc||!H.perm[0].empty())&&(!x4||!H.perm[1].empty()); H.opaque=have; if(have){ H.setHook(0,true); H.setHook(1,true); }
  bool lean=!have; D.polyBits=lean;
  auto P=[&](const std::string&f){ return H.pre+f; }; auto Q4=[&](const std::string&f){ return H.pre4+f; };
  auto rate=[](const std::string&a){ return a=="shake128"?168:a=="sha3_512"?72:136; };
  auto oneshot=[&](const std::string&alg,size_t inl,size_t outl,bool cst=false){ std::string fn=P(alg); bool x=alg[0]=='s'&&alg[2]=='a'&&alg[3]=='k'; if(!x) outl=alg=="sha3_256"?32:64;
    H.run(fn,alg+"(input of "+str(inl)+" bytes"+(x?", output of "+str(outl):"")+")",[&]{ Bytes in=H.input(0,inl,cst); Sponge s(rate(alg),H.opaque); s.absorb(in); s.pad(x?0x1f:6); int ib=H.inBuf(in),ob=H.outBuf(s.squeeze(outl)); if(x) H.call(fn,{mk(ob),{C64(outl)},mk(ib),{C64(inl)}}); else H.call(fn,{mk(ob),mk(ib),{C64(inl)}}); }); };
  auto chunked=[&](const std::string&alg,std::vector<size_t> ins,std::vector<size_t> outs,const std::string&blame){ // init, absorb..., finalize, squeeze...
    std::string w="init"; for(size_t n:ins) w+=", absorb "+str(n); w+=", finalize"; for(size_t n:outs) w+=", squeeze "+str(n);
    H.run(P(alg+"_"+blame),alg+": "+w,[&]{ size_t tot=0; for(size_t n:ins) tot+=n; Bytes in=H.input(0,tot); Sponge s(rate(alg),H.opaque); s.absorb(in); s.pad(0x1f); int st=H.stateBuf(ptrParamSize(P(alg+"_init"),0),8); H.call(P(alg+"_init"),{mk(st)}); size_t at=0; for(size_t n:ins){ Bytes part(in.begin()+at,in.begin()+at+n); at+=n; int b=H.inBuf(part); H.call(P(alg+"_absorb"),{mk(st),mk(b),{C64(n)}}); } H.call(P(alg+"_finalize"),{mk(st)}); for(size_t n:outs){ int o=H.outBuf(s.squeeze(n)); H.call(P(alg+"_squeeze"),{mk(o),{C64(n)},mk(st)}); } }); };
  auto blocks=[&](const std::string&alg,size_t inl,std::vector<size_t> nb,std::vector<size_t> outs,const std::string&blame,bool cst=false){
    std::string w="absorb_once "+str(inl); for(size_t n:nb) w+=", squeezeblocks "+str(n); for(size_t n:outs) w+=", squeeze "+str(n);
    H.run(P(alg+"_"+blame),alg+": "+w,[&]{ Bytes in=H.input(0,inl,cst); int r=rate(alg); Sponge s(r,H.opaque); s.absorb(in); s.pad(0x1f); int st=H.stateBuf(ptrParamSize(P(alg+"_absorb_once"),0),8); int ib=H.inBuf(in); H.call(P(alg+"_absorb_once"),{mk(st),mk(ib),{C64(inl)}}); for(size_t n:nb){ int o=H.outBuf(s.squeeze(n*r)); H.call(P(alg+"_squeezeblocks"),{mk(o),{C64(n)},mk(st)}); } for(size_t n:outs){ int o=H.outBuf(s.squeeze(n)); H.call(P(alg+"_squeeze"),{mk(o),{C64(n)},mk(st)}); } }); };
  auto x4one=[&](const std::string&alg,size_t inl,size_t outl,bool cst=false){ std::string fn=Q4(alg+"x4");
    H.run(fn,alg+"x4(inputs of "+str(inl)+" bytes, outputs of "+str(outl)+")",[&]{ std::vector<Val> a; std::vector<int> ib; for(int j=0;j<4;j++){ Bytes in=H.input(j,inl,cst); Sponge s(rate(alg),H.opaque); s.absorb(in); s.pad(0x1f); ib.push_back(H.inBuf(in,inl%8?7:0)); a.push_back(mk(H.outBuf(s.squeeze(outl)))); } a.push_back({C64(outl)}); for(int j=0;j<4;j++) a.push_back(mk(ib[j])); a.push_back({C64(inl)}); H.call(fn,a); }); };
  auto x4blocks=[&](const std::string&alg,size_t inl,std::vector<size_t> nb,const std::string&blame){ std::string w="absorb_once "+str(inl); for(size_t n:nb) w+=", squeezeblocks "+str(n);
    H.run(Q4(alg+"x4_"+blame),alg+"x4: "+w,[&]{ int r=rate(alg); std::vector<Sponge> s; int st=H.stateBuf(ptrParamSize(Q4(alg+"x4_absorb_once"),0),32); std::vector<Val> a{mk(st)}; for(int j=0;j<4;j++){ Bytes in=H.input(j,inl); s.emplace_back(r,H.opaque); s[j].absorb(in); s[j].pad(0x1f); a.push_back(mk(H.inBuf(in,inl%8?7:0))); } a.push_back({C64(inl)}); H.call(Q4(alg+"x4_absorb_once"),a); for(size_t n:nb){ std::vector<Val> b; for(int j=0;j<4;j++) b.push_back(mk(H.outBuf(s[j].squeeze(n*r)))); b.push_back({C64(n)}); b.push_back(mk(st)); H.call(Q4(alg+"x4_squeezeblocks"),b); } }); };
  auto range=[&](size_t lo,size_t hi,size_t step=1){ std::vector<size_t> v; for(size_t i=lo;i<=hi;i+=step) v.push_back(i); return v; };
  auto uniq=[](std::vector<i64> v){ std::vector<size_t> o; std::sort(v.begin(),v.end()); v.erase(std::unique(v.begin(),v.end()),v.end()); for(i64 x:v) if(x>=0) o.push_back(x); return o; };
  std::string alg=set.substr(set.find(':')==std::string::npos?set.size():set.find(':')+1), kind=set.substr(0,set.find(':')), part; if(alg.find(':')!=std::string::npos){ part=alg.substr(alg.find(':')+1); alg=alg.substr(0,alg.find(':')); }
  size_t r=alg.empty()?0:rate(alg); size_t big=70001;
  if(kind=="oneshot"){ if(lean){ for(size_t n:{(size_t)0,(size_t)1,r-1,r,r+1}) oneshot(alg,n,32); oneshot(alg,5,r+1); }
    else { size_t top=thorough?6*r+9:2*r+9; bool xof=alg[1]=='h'&&alg[2]=='a'&&alg[3]=='k'; for(size_t n:range(0,top)) oneshot(alg,n,32); for(size_t n:{(size_t)800,(size_t)1184,(size_t)1568,(size_t)4099}) oneshot(alg,n,32); oneshot(alg,big,32,true);
      if(xof){ for(size_t n:range(0,top)) oneshot(alg,5,n); auto k=uniq({0,1,7,8,(i64)r-1,(i64)r,(i64)r+1,2*(i64)r-1,2*(i64)r}); for(size_t n:k) for(size_t m:k) oneshot(alg,n,m); oneshot(alg,r,big); } } }
  else if(kind=="absorb"){ i64 R=r; for(i64 p=0;p<(lean?2:thorough?2*R:R);p++){ auto ns=lean?uniq({R-p,R-1-p}):thorough?range(0,2*r+1):uniq({0,1,7,8,9,R-p-1,R-p,R-p+1,R,2*R-p-1,2*R-p,2*R-p+1}); for(size_t n:ns) chunked(alg,{(size_t)p,n},{16},"absorb"); }
    if(!lean){ auto k=uniq({0,1,8,R-1,R,R+1}); for(size_t a:k) for(size_t b:k) for(size_t c:k) chunked(alg,{a,b,c},{16},"finalize"); chunked(alg,{},{16},"init"); chunked(alg,{3,big},{16},"absorb"); } }
  else if(kind=="squeeze"){ i64 R=r; for(i64 p=0;p<=(lean?1:thorough?2*R:R);p++){ auto ns=lean?uniq({R-p,R-p+1}):thorough?range(0,2*r+1):uniq({0,1,7,8,9,R-p-1,R-p,R-p+1,R,2*R-p-1,2*R-p,2*R-p+1}); for(size_t n:ns) chunked(alg,{5},{(size_t)p,n,3},"squeeze"); }
    if(!lean) chunked(alg,{5},{1,big,3},"squeeze");
    if(!lean){ for(size_t n:range(0,thorough?6*r+9:2*r+9)) blocks(alg,n,{1},{},"absorb_once"); for(size_t a:range(0,4)) for(size_t b:range(0,2)) for(size_t m:{(size_t)0,(size_t)1,r,r+1}) blocks(alg,7,{a,b},{m,1},"squeezeblocks"); blocks(alg,7,{300},{},"squeezeblocks"); blocks(alg,big,{1},{},"absorb_once",true); }
    else blocks(alg,7,{1},{1},"squeezeblocks"); }
  else if(kind=="x4"){ if(lean){ for(size_t n:{(size_t)0,r-1,r,r+1}) x4one(alg,n,32); x4one(alg,34,r+1); x4blocks(alg,34,{1,1},"squeezeblocks"); }
    else { i64 R=r; size_t top=thorough?6*r+9:2*r+9; if(part=="in") for(size_t n:range(0,top)) x4one(alg,n,16); if(part=="out") for(size_t n:range(0,top)) x4one(alg,33,n); if(part!="mix"){} else { auto k=uniq({0,1,7,8,R-1,R,R+1,2*R}); for(size_t n:k) for(size_t m:k) x4one(alg,n,m); for(size_t n:range(0,thorough?3*r:r+9)) x4blocks(alg,n,{1},"absorb_once"); for(size_t a:range(0,4)) for(size_t b:range(0,2)) x4blocks(alg,34,{a,b},"squeezeblocks"); x4one(alg,9,20011); x4one(alg,20011,9,true); x4blocks(alg,34,{300},"squeezeblocks"); } } }
  else if(kind=="kem"||kind=="kem+x4"){ // the calls the KEM makes
    for(size_t n:{(size_t)800,(size_t)1184,(size_t)1568}) oneshot("sha3_256",n,32); for(size_t n:{(size_t)33,(size_t)64}) oneshot("sha3_512",n,64); for(size_t n:{(size_t)128,(size_t)192}) oneshot("shake256",33,n);
    for(size_t c:{(size_t)768,(size_t)1088,(size_t)1568}) chunked("shake256",{32,c},{32},"absorb"); blocks("shake128",34,{3,1,1},{},"squeezeblocks"); blocks("shake256",33,{1},{},"squeezeblocks"); if(lean) {} 
    if(kind=="kem+x4"){ x4blocks("shake128",34,{3,1,1},"squeezeblocks"); x4blocks("shake256",33,{1,1},"squeezeblocks"); } }
  else { fprintf(stderr,"set?\n"); return 2; }
  // lengths at which the code distinguishes cases
  if(!lean&&kind!="kem"&&kind!="kem+x4"){ std::vector<i64> ts; { std::stringstream ss(thresholds); std::string t; while(std::getline(ss,t,',')) if(!t.empty()) ts.push_back(std::stoll(t)); }
    std::vector<i64> ls; for(i64 t:ts) for(i64 m:{(i64)1,(i64)8,(i64)r}) for(i64 d:{(i64)-1,(i64)0,(i64)1,(i64)r,(i64)r+3}) if(t>0&&t*m+d>2*(i64)r+9&&t*m+d<=100000) ls.push_back(t*m+d); auto L=uniq(ls); bool xof=alg[1]=='h'&&alg[2]=='a'&&alg[3]=='k';
    for(size_t n:L){ if(kind=="oneshot"){ oneshot(alg,n,32); if(xof) oneshot(alg,5,n); } else if(kind=="absorb") chunked(alg,{3,n,2},{16},"absorb"); else if(kind=="squeeze"){ chunked(alg,{5},{3,n,2},"squeeze"); blocks(alg,n,{1},{},"absorb_once"); if(n%r==0) blocks(alg,7,{n/r},{},"squeezeblocks"); } else if(kind=="x4"){ if(part=="in"){ x4one(alg,n,16); } else if(part=="out"){ x4one(alg,33,n); if(n%r==0) x4blocks(alg,34,{n/r},"squeezeblocks"); } } } }
  std::string b="["; for(auto&x:H.bad) b+=(b.size()>1?",":"")+std::string("{\"fn\":")+js(x.fn)+",\"what\":"+js(x.what)+"}"; add("bad",b+"]");
  std::string c="{"; for(auto&x:H.cases) c+=(c.size()>1?",":"")+js(x.first)+":"+str(x.second); add("cases",c+"}");
  std::string m="["; for(auto&x:H.miss) m+=(m.size()>1?",":"")+js(x); add("missing_functions",m+"]");
  add("permutation",js(H.perm[0])); add("permutation_x4",js(H.perm[1])); add("opaque_permutations",str(H.perms)); add("compared_bits_hash",str(H.cmpBits)); add("in_place",H.concreteOk?"true":"false");
  return 0;
}
