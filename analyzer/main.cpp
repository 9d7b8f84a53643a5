// Driver: analyses one entry point of one library configuration and prints a JSON report.
#include "spec.hpp"
#include <thread>
#include <algorithm>
#include <unistd.h>
#include <fstream>
#include <sstream>
#include <sys/resource.h>
#include <pthread.h>
static std::string js(const std::string&s){ std::string r="\""; for(char c:s){ if(c=='"'||c=='\\'){ r+='\\'; r+=c; } else if((u8)c<32) r+=' '; else r+=c; } return r+"\""; }
struct Report { std::vector<std::string> f; void add(const std::string&k,const std::string&v){ f.push_back(js(k)+": "+v); } void adds(const std::string&k,const std::string&v){ add(k,js(v)); } void addn(const std::string&k,u64 v){ add(k,std::to_string(v)); } };
static Report R;
static Bytes inputBytes(const std::string&nm,int n,bool secret){ Bytes b; for(int i=0;i<n;i++){ H128 h(200); h.adds(nm); h.add(i); b.push_back(D.mkAtomBits(h.fin(),8,secret)); } return b; }
static Bytes randomBytes(int n){ Bytes b; for(int k=0;k<n;k++){ H128 h(110); h.add(k); b.push_back(D.mkAtomBits(h.fin(),8,true)); } return b; }
struct Arg { std::string name; int reg; bool out; Bytes init; };
static int mkArg(Interp&I,std::vector<Arg>&as,const std::string&nm,bool out,const Bytes&init,int size){ int r=I.newRegion("argument "+nm,'p',size,1,out); I.S.r[r]->outParam=out; if(!out) for(int i=0;i<size;i++) I.storeCells(*I.S.r[r],i,init[i]); I.S.r[r]->written=false; as.push_back({nm,r,out,init}); return r; }
static Val ptr(int r){ return {D.mkPtr(r,D.mkConst(0,64))}; }
static Bytes content(Interp&I,int r){ Bytes b; const Region&x=I.ro(r); for(size_t i=0;i<x.c.size();i++) b.push_back(I.loadCells(x,i,1)); return b; }
struct Mism { std::string out; int bits, first, uninit; std::vector<std::pair<int,int>> ranges; int ext=0; };
static std::vector<Mism> mism;
static u64 comparedBits=0;
static void compare(const std::string&nm,const Bytes&got,const GBytes&want){
  Mism m{nm,0,-1,0,{}}; size_t n=std::max(got.size(),want.size());
  for(size_t i=0;i<n;i++){ int bad=0; if(i>=got.size()||i>=want.size()) bad=8; else { if(D.hasUninit(got[i])) m.uninit++; for(int k=0;k<8;k++){ comparedBits++; G g=D.hasUninit(got[i])?G{0xbad,0xbad}:D.g(D.bit(got[i],k)); if(!(g==want[i][k])) bad++; } }
    if(bad){ m.bits+=bad; if(i<got.size()&&D.N[got[i]].ext) m.ext++; if(m.first<0) m.first=i; if(!m.ranges.empty()&&m.ranges.back().second==(int)i-1) m.ranges.back().second=i; else if(m.ranges.size()<8) m.ranges.push_back({(int)i,(int)i}); } }
  if(m.bits) mism.push_back(m);
}
static G digest(const Bytes&b){ H128 h(300); for(NID x:b) for(int i=0;i<8;i++) h.addG(D.hasUninit(x)?G{0xbad,0}:D.g(D.bit(x,i))); return h.fin(); }
static std::string hex(G g){ char b[40]; snprintf(b,40,"%016llx%016llx",(unsigned long long)g.a,(unsigned long long)g.b); return b; }
static std::string opt(const std::vector<std::string>&a,const std::string&k,const std::string&d=""){ for(size_t i=0;i+1<a.size();i++) if(a[i]==k) return a[i+1]; return d; }
int unitMode(Interp&I,const std::vector<std::string>&a,Report&R);
static void finish(Interp&I){
  R.add("aborted",I.aborted?"true":"false"); R.adds("abort",I.abortMsg);
  std::string e="["; for(size_t i=0;i<I.events.size();i++){ auto&x=I.events[i]; e+=(i?",\n  ":"")+std::string("{\"kind\":")+js(x.kind)+",\"where\":"+js(x.where)+",\"msg\":"+js(x.msg)+",\"count\":"+std::to_string(x.count)+"}"; } R.add("events",e+"]");
  std::string m="["; for(size_t i=0;i<mism.size();i++){ auto&x=mism[i]; m+=(i?",":"")+std::string("{\"out\":")+js(x.out)+",\"bits\":"+std::to_string(x.bits)+",\"first\":"+std::to_string(x.first)+",\"uninit\":"+std::to_string(x.uninit)+",\"ext\":"+std::to_string(x.ext)+",\"ranges\":["; for(size_t k=0;k<x.ranges.size();k++) m+=(k?",":"")+std::string("[")+std::to_string(x.ranges[k].first)+","+std::to_string(x.ranges[k].second)+"]"; m+="]}"; } R.add("mismatches",m+"]");
  auto list=[&](const std::vector<std::string>&v){ std::string s="["; for(size_t i=0;i<v.size();i++) s+=(i?",":"")+js(v[i]); return s+"]"; };
  R.add("hash_calls",list(I.hashLog)); R.add("globals_written",list(std::vector<std::string>(I.globalsWritten.begin(),I.globalsWritten.end()))); R.add("gen_matrix_calls",list(I.gmLog)); R.add("functions",list(std::vector<std::string>(I.fnSeen.begin(),I.fnSeen.end())));
  std::string sc="{"; for(auto&k:I.sumCalls) sc+=(sc.size()>1?",":"")+js(k.first)+":"+std::to_string(k.second); R.add("summarised_calls",sc+"}");
  std::string rc="["; for(auto&k:I.randCalls) rc+=(rc.size()>1?",":"")+std::to_string(k.second); R.add("randombytes_lengths",rc+"]");
  std::string ct="{"; for(auto&k:I.contracts){ auto&c=k.second; ct+=(ct.size()>1?",":"")+js(k.first)+":{\"prop\":"+js(c.prop)+",\"checked\":"+std::to_string(c.checked)+",\"failed\":"+std::to_string(c.failed)+",\"precondition\":"+std::to_string(c.preFailed)+",\"where\":"+js(c.where)+",\"msg\":"+js(c.msg)+"}"; } R.add("contracts",ct+"}");
  std::string gf="["; for(int x:I.gmFlags) gf+=(gf.size()>1?",":"")+std::to_string(x); R.add("gen_matrix_flags",gf+"]");
  R.addn("compared_bits",comparedBits); R.addn("steps",I.steps); R.addn("loads",I.nLoads); R.addn("stores",I.nStores); R.addn("accesses",I.nMemAccess); R.addn("branches",I.nBranches); R.addn("calls",I.nCalls); R.addn("arith",I.nArith); R.addn("asm_instructions",I.nAsm); R.addn("nodes",D.N.size()); { u64 e=0; for(size_t i=0;i<D.T.size();i++) e+=D.T[i].v.size()+D.T[i].qv.capacity(); R.addn("tables",D.T.size()); R.addn("table_entries",e); } R.addn("sampler_stores",I.nSamplerStores); R.addn("joins",I.nSamplerMerges); R.addn("inductions",I.nInductions); R.addn("candidates",I.nCandidates); R.addn("streams",I.streams.size());
}
static G dbg;
static int kemMode(Interp&I,const std::vector<std::string>&a){
  std::string impl=opt(a,"--impl"),entry=opt(a,"--entry"); int K=atoi(opt(a,"--k").c_str()); I.K=K; Param P=param(K); std::string pre="pqcrystals_kyber"+std::to_string(K*256)+"_"+impl+"_";
  std::vector<Arg> as; std::vector<Val> args; std::string fn;
  Bytes coins64=inputBytes("coins",64,true),coins32(coins64.begin(),coins64.begin()+32);
  Bytes pkIn=inputBytes("pk",P.pk,false),skIn,ctIn=inputBytes("ct",P.ct,false);
  { Bytes s1=inputBytes("sk_s",384*K,true),h=inputBytes("sk_h",32,false),z=inputBytes("sk_z",32,true); skIn=s1; skIn.insert(skIn.end(),pkIn.begin(),pkIn.end()); skIn.insert(skIn.end(),h.begin(),h.end()); skIn.insert(skIn.end(),z.begin(),z.end()); }
  I.extRandom=entry!="keypair"&&entry!="enc";
  bool honest=entry=="dec"&&std::find(a.begin(),a.end(),"--honest")!=a.end(); Bytes m0=inputBytes("m",32,true),kHonest; // ciphertext and key as encapsulation and key generation produce them
  if(honest){ Bytes h=hash(I,"sha3_256",pkIn,32); std::copy(h.begin(),h.end(),skIn.begin()+384*K+P.pk); Bytes in=m0; in.insert(in.end(),h.begin(),h.end()); Bytes kr=hash(I,"sha3_512",in,64); GBytes ct; specEncPke(I,K,gOf(m0),pkIn,Bytes(kr.begin()+32,kr.end()),ct); ctIn=bytesOfG(ct); kHonest.assign(kr.begin(),kr.begin()+32); I.hashRecs.clear(); I.hashLog.clear(); }
  auto A=[&](const std::string&n,bool out,const Bytes&init,int size){ int r=mkArg(I,as,n,out,init,size); args.push_back(ptr(r)); };
  if(entry=="keypair_derand"){ fn="keypair_derand"; A("pk",true,{},P.pk); A("sk",true,{},P.sk); A("coins",false,coins64,64); }
  else if(entry=="keypair"){ fn="keypair"; A("pk",true,{},P.pk); A("sk",true,{},P.sk); }
  else if(entry=="enc_derand"){ fn="enc_derand"; A("ct",true,{},P.ct); A("ss",true,{},32); A("pk",false,pkIn,P.pk); A("coins",false,coins32,32); }
  else if(entry=="enc"){ fn="enc"; A("ct",true,{},P.ct); A("ss",true,{},32); A("pk",false,pkIn,P.pk); }
  else if(entry=="dec"){ fn="dec"; A("ss",true,{},32); A("ct",false,ctIn,P.ct); A("sk",false,skIn,P.sk); }
  else { fprintf(stderr,"entry?\n"); return 2; }
  if(!I.haveFn(pre+fn)){ R.adds("missing",pre+fn); I.stop("entry point "+pre+fn+" not defined"); finish(I); return 0; }
  I.evalContracts=true; auto flag=[&](const char*f){ return std::find(a.begin(),a.end(),f)!=a.end(); };
  auto put=[](Interp&I,NID p,const GBytes&g){ I.writeBytes(p,bytesOfG(g)); };
  if(flag("--isolate")){ // the public-key encryption layer replaced by its specification: what remains is the KEM layer
    I.hooks[pre+"indcpa_keypair_derand"]=[put](Interp&I,const std::string&,std::vector<Val>&a,Val&){ Bytes c=I.readBytes(a[2][0],32,"seed"); c.resize(64,D.mkConst(0,8)); GBytes pk,sk; specKeygen(I,c,pk,sk); sk.resize(384*I.K); put(I,a[0][0],pk); put(I,a[1][0],sk); return true; };
    I.hooks[pre+"indcpa_enc"]=[put,P](Interp&I,const std::string&,std::vector<Val>&a,Val&){ Bytes m=I.readBytes(a[1][0],32,"message"),pk=I.readBytes(a[2][0],P.pk,"public key"),c=I.readBytes(a[3][0],32,"coins"); GBytes ct; specEncPke(I,I.K,gOf(m),pk,c,ct); put(I,a[0][0],ct); return true; };
    I.hooks[pre+"indcpa_dec"]=[put,P,honest,m0](Interp&I,const std::string&,std::vector<Val>&a,Val&){ Bytes ct=I.readBytes(a[1][0],P.ct,"ciphertext"),sk=I.readBytes(a[2][0],384*I.K,"secret key"); if(honest){ I.writeBytes(a[0][0],m0); return true; } put(I,a[0][0],specDecPke(I.K,ct,sk)); return true; };
  }
  if(flag("--hook-derand")){ // seeded call replaced by its specification (it is analysed on its own)
    I.hooks[pre+"keypair_derand"]=[put](Interp&I,const std::string&,std::vector<Val>&a,Val&r){ Bytes c=I.readBytes(a[2][0],64,"seed"); GBytes pk,sk; specKeygen(I,c,pk,sk); put(I,a[0][0],pk); put(I,a[1][0],sk); r={D.mkConst(0,32)}; return true; };
    I.hooks[pre+"enc_derand"]=[put,P](Interp&I,const std::string&,std::vector<Val>&a,Val&r){ Bytes pk=I.readBytes(a[2][0],P.pk,"public key"),m=I.readBytes(a[3][0],32,"seed"); Bytes in=m,h=hash(I,"sha3_256",pk,32); in.insert(in.end(),h.begin(),h.end()); Bytes kr=hash(I,"sha3_512",in,64); GBytes ct; specEncPke(I,I.K,gOf(m),pk,Bytes(kr.begin()+32,kr.end()),ct); put(I,a[0][0],ct); I.writeBytes(a[1][0],Bytes(kr.begin(),kr.begin()+32)); r={D.mkConst(0,32)}; return true; };
  }
  I.trackStreams=true; bool hookM=std::find(a.begin(),a.end(),"--hook-matrix")!=a.end(); if(hookM){ I.trackStreams=false; if(impl=="avx2") for(int k=0;k<256;k++) I.genMap.push_back((k&128)+8*(k&15)+((k>>4)&7)); } if(hookM) I.hooks[pre+"gen_matrix"]=[](Interp&I,const std::string&,std::vector<Val>&a,Val&){ return I.genMatrix(a); };
  if(fn.compare(0,7,"keypair")==0){ // the matrix seed is published in the public key: by specification it is the first half of G(d || k)
    Bytes d=coins64; if(fn=="keypair") d=randomBytes(64);
    for(int half=0;half<(fn=="keypair"?2:1);half++){ Bytes x(d.begin()+32*half,d.begin()+32*half+32); x.push_back(D.mkConst(K,8)); bool sc=false; G id=I.hashId("sha3_512",x,sc); for(u64 k=0;k<32;k++){ H128 h(102); h.addG(id); h.add(k); G g=h.fin(); I.publicIds.insert({g.a,g.b}); } } }
  Val ret=I.call(pre+fn,args);
  if(!I.aborted){
    R.add("returns_zero",ret.size()==1&&D.isConst(ret[0])&&D.cval(ret[0])==0?"true":"false"); R.adds("return_value",ret.size()?D.show(ret[0],2):"void");
    // expected results
    if(entry=="keypair"){ coins64=randomBytes(64); Bytes sw(coins64.begin()+32,coins64.end()); sw.insert(sw.end(),coins64.begin(),coins64.begin()+32); // two separate requests may be made in either order
      if(I.randCalls.size()==2&&I.randCalls[0].second==32){ GBytes p,s; specKeygen(I,sw,p,s); Bytes got=content(I,as[1].reg); if(got.size()==s.size()&&gOf({got.back()})[0]==s.back()) coins64=sw; } }
    if(entry=="enc") coins32=randomBytes(32);
    std::map<std::string,GBytes> want; std::vector<std::string> miss;
    auto seen=[&](const std::string&alg,const Bytes&in){ bool sc=false; G id=I.hashId(alg,in,sc); for(auto&r:I.hashRecs) if(r.alg==alg&&r.id==id) return true; return false; };
    auto cat=[](Bytes x,const Bytes&y){ x.insert(x.end(),y.begin(),y.end()); return x; };
    auto sameSeed=[&](const std::string&alg,size_t len,const Bytes&seed){ bool any=false,good=false; for(auto&r:I.hashRecs) if(r.alg==alg&&r.in.size()==len){ any=true; bool e=true; for(int i=0;i<32&&e;i++) e=!D.hasUninit(r.in[i])&&gOf({r.in[i]})==gOf({seed[i]}); good|=e; } return !any||good; };
    auto need=[&](const std::string&what,const std::string&alg,const Bytes&in){ if(!seen(alg,in)) miss.push_back(what); };
    auto prfs=[&](const Bytes&seed,int cnt){ if(!sameSeed("shake256",33,seed)) miss.push_back("prf-seed"); else for(int i=0;i<cnt;i++) need("prf nonce "+std::to_string(i),"shake256",cat(seed,{D.mkConst(i,8)})); };
    auto xofs=[&](const Bytes&rho){ if(!sameSeed("shake128",34,rho)) miss.push_back("xof-seed"); else for(int x=0;x<K;x++) for(int y=0;y<K;y++) need("xof "+std::to_string(x)+","+std::to_string(y),"shake128",cat(rho,{D.mkConst(x,8),D.mkConst(y,8)})); };
    if(entry=="keypair"||entry=="keypair_derand"){ specKeygen(I,coins64,want["pk"],want["sk"]); Bytes d(coins64.begin(),coins64.begin()+32); d.push_back(D.mkConst(K,8)); Bytes g=hash(I,"sha3_512",d,64),rho(g.begin(),g.begin()+32),sig(g.begin()+32,g.end()); need("G(d||k)","sha3_512",d); if(miss.empty()){ prfs(sig,2*K); xofs(rho); } }
    else {
      Bytes m,pk,h; if(entry=="dec"){ pk.assign(skIn.begin()+384*K,skIn.begin()+384*K+P.pk); h.assign(skIn.begin()+384*K+P.pk,skIn.begin()+384*K+P.pk+32);
        m=bytesOfG(specDecPke(K,ctIn,Bytes(skIn.begin(),skIn.begin()+384*K))); }
      else { m=coins32; pk=pkIn; h=hash(I,"sha3_256",pk,32); }
      Bytes in=m; in.insert(in.end(),h.begin(),h.end()); Bytes kr=hash(I,"sha3_512",in,64); Bytes kk(kr.begin(),kr.begin()+32),cn(kr.begin()+32,kr.end()); GBytes ct; specEncPke(I,K,gOf(m),pk,cn,ct);
      if(entry!="dec") need("H(pk)","sha3_256",pk); need("G(m||h)","sha3_512",in); if(miss.empty()){ prfs(cn,2*K+1); xofs(Bytes(pk.begin()+384*K,pk.end())); }
      if(entry!="dec"){ want["ct"]=ct; want["ss"]=gOf(kk); }
      else { Bytes zi(skIn.end()-32,skIn.end()); zi.insert(zi.end(),ctIn.begin(),ctIn.end()); Bytes kb=hash(I,"shake256",zi,32); GBytes c0=gOf(ctIn); G ok=gone(); for(size_t i=0;i<ct.size();i++) for(int b=0;b<8;b++) ok=gmul(ok,gxor(gone(),gxor(ct[i][b],c0[i][b]))); GBytes A1=gOf(kk),B1=gOf(kb),o; for(int i=0;i<32;i++){ std::vector<G> v; for(int b=0;b<8;b++) v.push_back(gxor(B1[i][b],gmul(ok,gxor(A1[i][b],B1[i][b])))); o.push_back(v); } want["ss"]=o; if(getenv("KYAN_DEBUG")){ Bytes got=content(I,as[0].reg); fprintf(stderr,"got %s\n a %s b %s\n ok %s g(got) %s want %s\n",D.show(D.bit(got[0],0),4).c_str(),hex(A1[0][0]).c_str(),hex(B1[0][0]).c_str(),hex(ok).c_str(),hex(D.g(D.bit(got[0],0))).c_str(),hex(o[0][0]).c_str()); } }
    }
    if(honest){ want.clear(); want["ss"]=gOf(kHonest); miss.clear(); }
    std::string dg="{"; 
    for(auto&x:as){ Bytes c=content(I,x.reg); if(x.out){ compare(x.name,c,want[x.name]); dg+=(dg.size()>1?",":"")+js(x.name)+":"+js(hex(digest(c))); int un=0; for(NID n:c) if(D.hasUninit(n)) un++; if(un) R.addn("unwritten_"+x.name,un); }
      else { int ch=0; for(size_t i=0;i<c.size();i++) if(c[i]!=x.init[i]) ch++; if(ch||I.ro(x.reg).written) R.addn("modified_"+x.name,ch?ch:1); } }
    R.add("digests",dg+"}"); std::string ms="["; for(auto&x:miss) ms+=(ms.size()>1?",":"")+js(x); R.add("missing_hashes",ms+"]");
    { int eh=0; for(auto&r:I.hashRecs) for(NID b:r.in) if(D.N[b].ext){ eh++; break; } R.addn("external_hash_inputs",eh); }
    // bytes published verbatim are public
    std::string pub; for(auto&x:as) if(x.out&&(x.name=="pk"||x.name=="ct")) for(NID n:content(I,x.reg)) if(D.N[n].k==KATOM&&D.N[n].secret) pub+=hex(D.N[n].id)+","; 
    bool sec=false; for(auto&e:I.events) if(e.kind.compare(0,7,"secret-")==0) sec=true;
    if(!pub.empty()&&sec&&!getenv("KYAN_PUB")){ setenv("KYAN_PUB",pub.c_str(),1); return 77; }
  }
  finish(I); return 0;
}
int randMode(const std::vector<std::string>&files,std::function<void(const std::string&,const std::string&)> add_,std::function<std::string(const std::string&)> js);
int hashMode(Interp&I,const std::string&impl,const std::string&set,bool thorough,const std::string&thresholds,std::function<void(const std::string&,const std::string&)> add,std::function<std::string(const std::string&)> js);
int drbgMode(Interp&I,bool thorough,std::function<void(const std::string&,const std::string&)> add,std::function<std::string(const std::string&)> js);
int effectsMode(const std::vector<std::string>&files,const std::vector<std::string>&asmNames,std::function<void(const std::string&,const std::string&)> add_,std::function<std::string(const std::string&)> js);
int lengthMode(const std::vector<std::string>&files,const std::vector<std::string>&fns,std::function<void(const std::string&,const std::string&)> add,std::function<std::string(const std::string&)> js);
void probMode(std::function<void(const std::string&,const std::string&)> add);
static std::vector<std::string> gArgs; static int gRc=0; static char**gArgv;
static void* work(void*){
  static Interp I; auto&a=gArgs; std::string asmf=opt(a,"--asm"); std::vector<std::string> bc; bool after=false; for(auto&x:a){ if(after) bc.push_back(x); if(x=="--") after=true; }
  if(a[0]=="prob"){ probMode([](const std::string&k,const std::string&v){ R.add(k,v); }); return 0; }
  if(a[0]=="rand"){ gRc=randMode(bc,[](const std::string&k,const std::string&v){ R.add(k,v); },js); return 0; }
  if(a[0]=="length"){ std::vector<std::string> fn; std::stringstream s(opt(a,"--functions")); std::string t; while(std::getline(s,t,',')) fn.push_back(t); gRc=lengthMode(bc,fn,[](const std::string&k,const std::string&v){ R.add(k,v); },js); return 0; }
  if(a[0]=="effects"){ std::vector<std::string> an; std::stringstream s(opt(a,"--asmnames")); std::string t; while(std::getline(s,t,',')) an.push_back(t); gRc=effectsMode(bc,an,[](const std::string&k,const std::string&v){ R.add(k,v); },js); return 0; }
  { std::stringstream s(opt(a,"--hidden")); std::string t; while(std::getline(s,t,',')) I.hidden.insert(t); }
  if(!asmf.empty()){ std::ifstream f(asmf); std::stringstream ss; ss<<f.rdbuf(); I.loadAsm(ss.str()); }
  std::string err; if(!I.loadModules(bc,err)){ fprintf(stderr,"load: %s\n",err.c_str()); gRc=2; return 0; }
  if(const char*p=getenv("KYAN_PUB")){ std::stringstream s(p); std::string t; while(std::getline(s,t,',')) if(t.size()==32) I.publicIds.insert({strtoull(t.substr(0,16).c_str(),0,16),strtoull(t.substr(16).c_str(),0,16)}); }
  std::string mode=a[0]; if(mode=="kem") gRc=kemMode(I,a); else if(mode=="hash"){ gRc=hashMode(I,opt(a,"--impl"),opt(a,"--set"),opt(a,"--tier")=="thorough",opt(a,"--thresholds"),[](const std::string&k,const std::string&v){ R.add(k,v); },js); finish(I); } else if(mode=="drbg"){ gRc=drbgMode(I,opt(a,"--tier")=="thorough",[](const std::string&k,const std::string&v){ R.add(k,v); },js); finish(I); } else { fprintf(stderr,"mode?\n"); gRc=2; }
  return 0;
}
int main(int argc,char**argv){
  gArgv=argv; for(int i=1;i<argc;i++) gArgs.push_back(argv[i]);
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at,2ULL<<30); pthread_t t; if(pthread_create(&t,&at,work,0)){ perror("thread"); return 2; } pthread_join(t,0);
  if(gRc==77){ execv("/proc/self/exe",argv); return 2; }
  printf("{"); for(size_t i=0;i<R.f.size();i++) printf("%s%s",i?",\n ":"",R.f[i].c_str()); printf("}\n"); fflush(stdout); if(getenv("KYAN_PROF")) exit(gRc); _exit(gRc);
}
