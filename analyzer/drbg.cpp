// NIST known-answer generator (nistkat/rng.c): the deterministic generator and the seed expander as functions of their state,
// with AES-256 an opaque function.  The state space is split by how far a carry runs through the counter; every byte that a
// carry can not reach stays symbolic.
#include "spec.hpp"
static NID C(i64 v,int w){ return D.mkConst(v,w); }
static Val P(int reg,i64 off=0){ return {D.mkPtr(reg,C(off,64))}; }
int memberOffset(const std::string&what,const std::string&member,int*size); int typeSize(const std::string&what);
static std::string str(i64 x){ return std::to_string(x); }
namespace {
struct Drbg {
  Interp&I; State base; std::vector<std::pair<std::string,std::string>> bad; std::map<std::string,u64> cases; u64 bits=0, aes=0; std::vector<std::string> unres; std::set<std::string> badFns;
  enum { OK, NONEW, BADINIT, BADUPD } fail=OK; std::map<int,Bytes> key,ctr,stream; std::map<int,std::string> mode; std::map<int,bool> pad; std::set<int> freed; int leaks=0; u64 serial=0;
  Drbg(Interp&i):I(i){}
  static void addBytes(H128&h,const Bytes&b){ for(NID x:b) for(int i=0;i<8;i++) h.addG(D.hasUninit(x)?G{0xbad,7}:D.g(D.bit(x,i))); }
  Bytes aesOut(const Bytes&k,const Bytes&in){ aes++; H128 h(500); addBytes(h,k); addBytes(h,in); G id=h.fin(); Bytes o; for(int i=0;i<16;i++){ H128 b(501); b.addG(id); b.add(i); o.push_back(D.mkAtomBits(b.fin(),8,true)); } return o; }
  Bytes sym(const std::string&n,int len){ Bytes b; for(int i=0;i<len;i++){ H128 h(510); h.adds(n); h.add(i); b.push_back(D.mkAtomBits(h.fin(),8,true)); } return b; }
  static void inc(Bytes&v,int from,int to){ for(int j=from;j>=to;j--){ if(D.isConst(v[j])&&D.uval(v[j])==255){ v[j]=C(0,8); continue; } v[j]=D.bin(ADD,v[j],C(1,8)); break; } }
  // counter whose last byte is `last`, preceded by t bytes 0xff and (if there is room) the byte c other than 0xff, which stops every carry; what lies above is symbolic
  Bytes counter(int t,int last,int lo,int c){ Bytes v=sym("V",16); v[15]=C((signed char)last,8); for(int j=14;j>=lo&&j>14-t;j--) v[j]=C(-1,8); if(14-t>=lo) v[14-t]=C((signed char)c,8); return v; }
  int buf(const std::string&n,int size,const Bytes&init,bool w=true){ int r=I.newRegion(n,'p',size,16,w); for(size_t i=0;i<init.size();i++) I.storeCells(*I.S.r[r],i,init[i]); I.S.r[r]->written=false; return r; }
  void put(int reg,i64 off,const Bytes&b){ for(size_t i=0;i<b.size();i++) I.storeCells(I.rw(reg),off+i,b[i]); }
  void hooks(){
    auto reg=[](const Val&v){ return D.N[v[0]].k==KPTR&&D.isConst(D.arg(v[0],0))?(int)D.N[v[0]].c:-1; };
    auto one=[](Val&r){ r={C(1,32)}; };
    I.hooks["EVP_CIPHER_CTX_new"]=[this](Interp&I,const std::string&,std::vector<Val>&,Val&r){ if(fail==NONEW){ r={C(0,64)}; return true; } int x=I.newRegion("cipher context",'p',16,16,true); leaks++; pad[x]=true; r=P(x); return true; };
    for(auto n:{"EVP_aes_256_ecb","EVP_aes_128_ecb","EVP_aes_192_ecb","EVP_aes_256_cbc","EVP_aes_256_ctr"}){ std::string nm=n; I.hooks[nm]=[nm](Interp&I,const std::string&,std::vector<Val>&,Val&r){ int x=I.newRegion("cipher "+nm.substr(4),'c',16,16,false); r=P(x); return true; }; }
    auto init=[this,reg,one](Interp&I,const std::string&n,std::vector<Val>&a,Val&r){ bool ex=n!="EVP_EncryptInit"; if(fail==BADINIT){ r={C(0,32)}; return true; } int c=reg(a[0]),ci=reg(a[1]); if(c<0||freed.count(c)){ I.ev("aes-protocol","cipher context not usable"); one(r); return true; }
      if(ci>=0) mode[c]=I.ro(ci).name.substr(7); std::string m=mode[c]; if(m!="aes_256_ecb"&&m!="aes_256_ctr"){ if(m.empty()||m=="aes_256_cbc"){ I.stop("cipher "+m+" is not modelled"); return false; } I.ev("aes-protocol","cipher is not AES-256: "+m); }
      auto given=[&](Val&v){ return !(D.isConst(v[0])&&D.cval(v[0])==0); }; size_t o=ex?3:2; if(given(a[o])) key[c]=I.readBytes(a[o][0],32,"AES key"); if(m=="aes_256_ctr"&&given(a[o+1])){ ctr[c]=I.readBytes(a[o+1][0],16,"AES counter"); stream[c].clear(); } one(r); return true; };
    I.hooks["EVP_EncryptInit_ex"]=init; I.hooks["EVP_EncryptInit"]=init;
    I.hooks["EVP_EncryptUpdate"]=[this,reg,one](Interp&I,const std::string&,std::vector<Val>&a,Val&r){ if(fail==BADUPD){ r={C(0,32)}; return true; } one(r); int c=reg(a[0]); if(c<0||!key.count(c)||freed.count(c)){ I.ev("aes-protocol","encryption with a context that has no key"); return true; } if(mode[c]=="aes_256_ctr"){ if(!ctr.count(c)||!D.isConst(a[4][0])){ I.stop("counter mode without a counter or with an unknown length"); return false; } int n=D.cval(a[4][0]); Bytes in=I.readBytes(a[3][0],n,"AES input"); if(I.aborted) return false; auto&ks=stream[c]; while((int)ks.size()<n){ Bytes b=aesOut(key[c],ctr[c]); ks.insert(ks.end(),b.begin(),b.end()); inc(ctr[c],15,0); } for(int i=0;i<n;i++) in[i]=D.bin(XOR,in[i],ks[i]); ks.erase(ks.begin(),ks.begin()+n); I.writeBytes(a[1][0],in); I.storeInt(a[2][0],C(n,32),4); return true; }
      if(!D.isConst(a[4][0])||D.cval(a[4][0])<0||D.cval(a[4][0])%16){ I.ev("aes-protocol","encrypted length is not a whole number of blocks"); return true; }
      int n=D.cval(a[4][0]); for(int o=0;o<n;o+=16){ Bytes in=I.readBytes(D.bin(ADD,a[3][0],C(o,64)),16,"AES block"); if(I.aborted) return false; I.writeBytes(D.bin(ADD,a[1][0],C(o,64)),aesOut(key[c],in)); } I.storeInt(a[2][0],C(n,32),4); return true; };
    auto final_=[this,reg,one](Interp&I,const std::string&,std::vector<Val>&a,Val&r){ one(r); int c=reg(a[0]); if(c<0||!key.count(c)){ I.ev("aes-protocol","encryption finished without a key"); return true; } int n=pad[c]&&mode[c]!="aes_256_ctr"?16:0; if(n){ Bytes f; for(int i=0;i<16;i++){ H128 h(512); h.add(serial++); f.push_back(D.mkAtomBits(h.fin(),8,true)); } I.writeBytes(a[1][0],f); } I.storeInt(a[2][0],C(n,32),4); return true; };
    I.hooks["EVP_EncryptFinal_ex"]=final_; I.hooks["EVP_EncryptFinal"]=final_;
    I.hooks["EVP_CIPHER_CTX_set_padding"]=[this,reg,one](Interp&,const std::string&,std::vector<Val>&a,Val&r){ one(r); int c=reg(a[0]); pad[c]=!(D.isConst(a[1][0])&&D.cval(a[1][0])==0); return true; };
    I.hooks["EVP_CIPHER_CTX_free"]=[this,reg](Interp&I,const std::string&,std::vector<Val>&a,Val&){ if(D.isConst(a[0][0])&&D.cval(a[0][0])==0) return true; int c=reg(a[0]); if(c<0||!freed.insert(c).second) I.ev("aes-protocol","cipher context released twice"); else leaks--; return true; };
    I.hooks["ERR_print_errors_fp"]=[](Interp&,const std::string&,std::vector<Val>&,Val&){ return true; };
    I.hooks["AES_set_encrypt_key"]=[this,reg](Interp&I,const std::string&,std::vector<Val>&a,Val&r){ int c=reg(a[2]); if(!D.isConst(a[1][0])||D.cval(a[1][0])!=256) I.ev("aes-protocol","AES key length is not 256 bits"); key[c]=I.readBytes(a[0][0],32,"AES key"); r={C(0,32)}; return true; };
    I.hooks["AES_encrypt"]=[this,reg](Interp&I,const std::string&,std::vector<Val>&a,Val&){ int c=reg(a[2]); if(!key.count(c)){ I.ev("aes-protocol","encryption without a key"); return true; } Bytes in=I.readBytes(a[0][0],16,"AES block"); I.writeBytes(a[1][0],aesOut(key[c],in)); return true; };
  }
  std::string what,fn; bool ok=true;
  bool begin(const std::string&f,const std::string&w){ if(badFns.count(f)||I.aborted) return false; if(!I.haveFn(f)){ if(badFns.insert(f).second) unres.push_back("function "+f+" is not defined"); return false; } fn=f; what=w; ok=true; cases[f]++; I.S=base; key.clear(); pad.clear(); ctr.clear(); stream.clear(); mode.clear(); freed.clear(); leaks=0; return true; }
  void fault(const std::string&m){ if(!ok) return; ok=false; bad.push_back({fn,what+": "+m}); badFns.insert(fn); }
  void same(int reg,i64 off,const Bytes&want,const std::string&nm){ if(!ok||I.aborted) return; for(size_t i=0;i<want.size();i++){ NID g=I.loadCells(I.ro(reg),off+i,1); bits+=8; if(g==want[i]) continue; if(D.hasUninit(g)){ fault(nm+" byte "+str(i)+" is left unwritten or depends on uninitialised data"); return; } for(int k=0;k<8;k++) if(!(D.g(D.bit(g,k))==D.g(D.bit(want[i],k)))){ fault(nm+" byte "+str(i)+" is not the specified value"); return; } } }
  void returns(const Val&r,i64 v){ if(!ok||I.aborted) return; if(r.size()!=1||!D.isConst(r[0])||D.cval(r[0])!=v) fault("returns "+(r.size()?D.show(r[0],2):"nothing")+" instead of "+str(v)); }
  Val call(std::vector<Val> a){ return I.call(fn,a); }
  static Bytes cat(Bytes a,const Bytes&b){ a.insert(a.end(),b.begin(),b.end()); return a; }
  void update(Bytes&k,Bytes&v,const Bytes&provided){ Bytes t; for(int i=0;i<3;i++){ inc(v,15,0); t=cat(t,aesOut(k,v)); } for(size_t i=0;i<provided.size();i++) t[i]=D.bin(XOR,t[i],provided[i]); k.assign(t.begin(),t.begin()+32); v.assign(t.begin()+32,t.end()); }
};
}
NID globalPtr(Interp&I,const std::string&name);
int drbgMode(Interp&I,bool thorough,std::function<void(const std::string&,const std::string&)> add,std::function<std::string(const std::string&)> js){
  Drbg d(I); I.summarizeHash=false; I.trackStreams=false; I.maxSteps=4000000000ULL; d.hooks();
  NID gp=globalPtr(I,"DRBG_ctx"); int ok_=memberOffset("DRBG_ctx","Key",0),ov=memberOffset("DRBG_ctx","V",0); d.base=I.S;
  if(!gp||ok_<0||ov<0) d.unres.push_back("generator state DRBG_ctx with members Key and V not found");
  else { int g=D.N[gp].c;
    auto setup=[&](const Bytes&k,const Bytes&v){ for(size_t i=0;i<I.ro(g).c.size();i++) I.storeCells(I.rw(g),i,C(0,8)); int rc=memberOffset("DRBG_ctx","reseed_counter",0); if(rc>=0) I.storeCells(I.rw(g),rc,C(1,32)); d.put(g,ok_,k); d.put(g,ov,v); };
    // a state reached by instantiating and requesting, so that whatever else the code remembers has the content it gives it; the counter is then replaced by the case at hand
    struct Req { int n,t,last; bool init=false; int c=0x41; }; int nreq=0;
    auto history=[&](std::vector<Req> rs,const std::string&w){ if(!d.begin("randombytes",w)) return; Bytes k,v; int lk=0,num=0;
      for(auto&q:rs){ if(q.init||!num){ std::string id=num?str(num):""; Bytes e=d.sym("entropy"+id,48); int er=d.buf("entropy input",48,e); I.call("randombytes_init",{P(er),{C(0,64)},{C(256,32)}}); if(I.aborted) return; k.assign(32,C(0,8)); v.assign(16,C(0,8)); d.update(k,v,e); }
        v=d.counter(q.t,q.last,0,q.c); d.put(g,ov,v); int x=d.buf("output of "+str(q.n)+" bytes",q.n,{}); Val r=d.call({P(x),{C(q.n,64)}}); if(I.aborted) return; num++; nreq++;
        Bytes o; while((int)o.size()<q.n){ Drbg::inc(v,15,0); o=Drbg::cat(o,d.aesOut(k,v)); } o.resize(q.n); d.update(k,v,{}); std::string th=num>1?" of request "+str(num):""; d.same(x,0,o,"output"+th); d.same(g,ok_,k,"new key"+th); d.same(g,ov,v,"new counter"+th); d.returns(r,0); if(num==1) lk=d.leaks; else if(d.leaks>lk) d.fault("every request leaves a cipher context behind"); if(!d.ok) return; } };
    auto request=[&](int n,int t,int last,int c=0x41){ history({{n,t,last,false,c}},"request of "+str(n)+" bytes with counter ending in "+str(c)+", "+(t?str(t)+" bytes ff, ":"")+str(last)); };
    for(int a=0;a<=33;a++) for(int b:{0,1,15,16,17,33}) for(int i=0;i<2;i++) history({{a,0,100},{b,0,7,i==1},{5,0,9},{32,0,11}},"requests of "+str(a)+", "+str(b)+", 5 and 32 bytes"+(i?" with a new instantiation after the first":""));
    for(int n=0;n<=80;n++) request(n,1,254);
    for(int n:{32,48,64}) for(int last=0;last<256;last++) request(n,0,last);
    for(int t=0;t<=15;t++) for(int last=thorough?0:248;last<256;last++) for(int n:{0,16,33,64}) request(n,t,last);
    for(int t=0;t<=14;t++) for(int c=0;c<255;c++) for(int last=thorough?249:255;last<256;last++) request(thorough?48:16,t,last,c);
    request(1000,2,200); request(4096,14,100); request(70001,15,3);
    for(int pers=0;pers<2;pers++) if(d.begin("randombytes_init",pers?"with personalisation string":"without personalisation string")){ setup(d.sym("oldKey",32),d.sym("oldV",16)); Bytes e=d.sym("entropy",48),p=d.sym("pers",48); int er=d.buf("entropy input",48,e),pr=d.buf("personalisation string",48,p); d.call({P(er),pers?P(pr):Val{C(0,64)},{C(256,32)}}); if(!I.aborted){ Bytes k(32,C(0,8)),v(16,C(0,8)),m; for(int i=0;i<48;i++) m.push_back(pers?D.bin(XOR,e[i],p[i]):e[i]); d.update(k,v,m); d.same(g,ok_,k,"new key"); d.same(g,ov,v,"new counter"); d.same(er,0,e,"entropy input"); d.same(pr,0,p,"personalisation string"); } }
    // AES failures must not produce output
    for(int f=1;f<4;f++) if(d.begin("randombytes","request of 16 bytes while "+std::string(f==1?"allocation":f==2?"key setup":"encryption")+" fails")){ d.fail=decltype(d.fail)(f); setup(d.sym("Key",32),d.counter(0,7,0,0x41)); int x=d.buf("output of 16 bytes",16,{}); auto ev=I.events; auto ix=I.evIdx; d.call({P(x),{C(16,64)}}); bool returned=!I.aborted; I.aborted=false; I.abortMsg.clear(); I.events=ev; I.evIdx=ix; d.fail=Drbg::OK; if(returned) d.fault("the call returns although no block was encrypted"); }
  }
  // seed expander
  std::string ty="AES_XOF_struct"; int sz=typeSize(ty); int oc=memberOffset(ty,"ctr",0),okk=memberOffset(ty,"key",0);
  if(sz<=0||oc<0||okk<0) d.unres.push_back("seed expander state AES_XOF_struct with members key and ctr not found");
  else {
    auto be=[&](u64 m){ Bytes b; for(int s=24;s>=0;s-=8) b.push_back(C((signed char)(m>>s),8)); return b; };
    for(i64 m:{(i64)0,(i64)1,(i64)255,(i64)256,(i64)65535,(i64)65536,(i64)0x1234567,(i64)0xffffffff,(i64)0x100000000,(i64)0x123456789ab}) if(d.begin("seedexpander_init","maximal length "+str(m))){ Bytes s=d.sym("seed",32),dv=d.sym("div",8); int x=d.buf("expander state",sz,{}),sr=d.buf("seed",32,s,false),dr=d.buf("diversifier",8,dv,false); Val r=d.call({P(x),P(sr),P(dr),{C(m,64)}}); if(I.aborted) break; if(m>=0x100000000){ d.returns(r,-1); continue; } d.returns(r,0); d.same(x,okk,s,"key"); d.same(x,oc,Drbg::cat(Drbg::cat(dv,be(m)),be(0)),"counter"); }
    auto expand=[&](std::vector<int> ns,i64 max,int t,int last,int c=0x41){ std::string w="requests of"; for(int n:ns) w+=" "+str(n); w+=" bytes from "+str(max); if(t>=0) w+=", counter ending in "+str(c)+", "+(t?str(t)+" bytes ff, ":"")+str(last);
      if(!d.begin("seedexpander",w)) return; Bytes s=d.sym("seed",32),dv=d.sym("div",8); int x=d.buf("expander state",sz,{}),sr=d.buf("seed",32,s,false),dr=d.buf("diversifier",8,dv,false); I.call("seedexpander_init",{P(x),P(sr),P(dr),{C(max,64)}}); if(I.aborted) return; Bytes ctr=Drbg::cat(Drbg::cat(dv,be(max)),be(0)); if(t>=0){ Bytes v=d.counter(t,last,12,c); for(int i=12;i<16;i++) ctr[i]=v[i]; d.put(x,oc,ctr); }
      Bytes pool; i64 left=max; for(int n:ns){ int o=d.buf("output of "+str(n)+" bytes",n,{}); Val r=d.call({P(x),P(o),{C(n,64)}}); if(I.aborted) return; if(n>left){ if(r.size()==1&&D.isConst(r[0])&&D.cval(r[0])==0) d.fault("a request beyond the declared length is served"); return; } if(n==left){ bool served=r.size()==1&&D.isConst(r[0])&&D.cval(r[0])==0; if(!served) return; }
        d.returns(r,0); left-=n; while((int)pool.size()<n){ pool=Drbg::cat(pool,d.aesOut(s,ctr)); Drbg::inc(ctr,15,12); } d.same(o,0,Bytes(pool.begin(),pool.begin()+n),"output"); pool.erase(pool.begin(),pool.begin()+n); } };
    // two expanders in turn
    for(int a:{1,5,16,17,40}) for(int b:{1,5,16,17,40}) if(d.begin("seedexpander","two expanders in turn, requests of "+str(a)+" and "+str(b)+" bytes")){ int x[2]; Bytes s[2],ctr[2],pool[2]; for(int e=0;e<2;e++){ s[e]=d.sym("seed"+str(e),32); Bytes dv=d.sym("div"+str(e),8); x[e]=d.buf("expander state",sz,{}); int sr=d.buf("seed",32,s[e],false),dr=d.buf("diversifier",8,dv,false); I.call("seedexpander_init",{P(x[e]),P(sr),P(dr),{C(1000,64)}}); ctr[e]=Drbg::cat(Drbg::cat(dv,be(1000)),be(0)); }
      for(int k=0;k<6&&!I.aborted&&d.ok;k++){ int e=k&1,n=e?b:a; int o=d.buf("output of "+str(n)+" bytes",n,{}); Val r=d.call({P(x[e]),P(o),{C(n,64)}}); if(I.aborted) break; d.returns(r,0); while((int)pool[e].size()<n){ pool[e]=Drbg::cat(pool[e],d.aesOut(s[e],ctr[e])); Drbg::inc(ctr[e],15,12); } d.same(o,0,Bytes(pool[e].begin(),pool[e].begin()+n),"output"); pool[e].erase(pool[e].begin(),pool[e].begin()+n); } }
    for(int a=0;a<=50;a++) expand({a,1,17},100000,-1,0); for(int a=0;a<=17;a++) for(int b=0;b<=33;b++) expand({a,b,3},100000,-1,0); for(int a:{0,1,15,16,17}) for(int b:{0,1,15,16,17}) for(int c:{0,1,15,16,17}) expand({a,b,c,32,5},1000,-1,0);
    for(int t=0;t<=3;t++) for(int last=thorough?0:240;last<256;last++) expand({40,20},100000,t,last);
    for(int t=0;t<=2;t++) for(int c=0;c<255;c++) expand({40},100000,t,255,c); expand({5000,3},100000,-1,0);
    for(i64 m:{(i64)1,(i64)16,(i64)40}) for(int a:{0,1,15,16,17,39,40,41}) for(int b:{0,1,2,16,17,40}) expand({a,b},m,-1,0);
    if(d.begin("seedexpander","null output")){ Bytes s=d.sym("seed",32),dv=d.sym("div",8); int x=d.buf("expander state",sz,{}),sr=d.buf("seed",32,s,false),dr=d.buf("diversifier",8,dv,false); I.call("seedexpander_init",{P(x),P(sr),P(dr),{C(64,64)}}); Val r=d.call({P(x),{C(0,64)},{C(5,64)}}); d.returns(r,-2); }
  }
  std::string b="["; for(auto&x:d.bad) b+=(b.size()>1?",":"")+std::string("{\"fn\":")+js(x.first)+",\"what\":"+js(x.second)+"}"; add("bad",b+"]");
  std::string c="{"; for(auto&x:d.cases) c+=(c.size()>1?",":"")+js(x.first)+":"+std::to_string(x.second); add("cases",c+"}");
  std::string u="["; for(auto&x:d.unres) u+=(u.size()>1?",":"")+js(x); add("unresolved",u+"]"); add("output_bits",std::to_string(d.bits)); add("aes_blocks",std::to_string(d.aes));
  return 0;
}
