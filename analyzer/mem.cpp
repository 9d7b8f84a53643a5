#include "interp.hpp"
#include <algorithm>
void Interp::ev(const std::string&kind,const std::string&msg){
  updateLoc(); std::string k=kind+"|"+curFn+"|"+curLoc; auto it=evIdx.find(k); if(it!=evIdx.end()){ events[it->second].count++; return; }
  evIdx[k]=events.size(); std::string cs; for(auto&s:callStack) cs+=(cs.empty()?"":" > ")+s; events.push_back({kind,curLoc+" ("+curFn+")",msg+(cs.empty()?"":"  [path: "+cs+"]"),1});
}
int Interp::newRegion(const std::string&name,char kind,u32 size,u32 align,bool wr){
  auto r=std::make_shared<Region>(); r->name=name;r->kind=kind;r->writable=wr;r->alive=true;r->align=align; r->c.assign(size,Cell{0,0}); r->id=nextRegion++; if((int)S.r.size()<=r->id) S.r.resize(r->id+1); S.r[r->id]=r; return r->id;
}
Region& Interp::rw(int id){ if(S.r[id]->kind=='g') globalsWritten.insert(S.r[id]->name.substr(7)); if(S.r[id].use_count()>1) S.r[id]=std::make_shared<Region>(*S.r[id]); return *S.r[id]; }
bool Interp::access(NID p,u32 bytes,u32 align,bool write,int&reg,i64&off){
  nMemAccess++;
  if(D.hasUninit(p)){ ev("uninit-address","address computed from uninitialised data"); return false; }
  const Node n=D.N[p]; if(n.k!=KPTR){ ev(D.isConst(p)?"null-deref":"wild-pointer","access through a non-pointer value "+D.show(p,2)); return false; }
  reg=(int)n.c; NID o=D.A[n.ap]; if(reg>=(int)S.r.size()||!S.r[reg]){ auto g=globalInit.find(reg); if(g!=globalInit.end()){ if(reg>=(int)S.r.size()) S.r.resize(reg+1); S.r[reg]=g->second; } }
  if(reg>=(int)S.r.size()||!S.r[reg]){ ev("use-after-scope","access to an object that does not exist on this path"); return false; }
  if(!S.sm.empty()&&!write) for(auto&m:S.sm) if(m.reg==reg&&!m.complete){ settle(S); break; }
  const Region&r=ro(reg);
  if(D.hasUninit(o)){ ev("uninit-address","offset uninitialised"); return false; }
  if(D.secret(o)) ev("secret-addr",std::string(write?"store":"load")+" address depends on a secret, object "+r.name);
  if(!r.alive) ev("use-after-scope","access to dead object "+r.name);
  i64 lo=D.N[o].lo,hi=D.N[o].hi;
  if(D.N[o].smp){ Lin L; i64 l2,h2; if(lin(o,L)){ absorb(L); if(linRange(L,l2,h2)){ lo=std::max(lo,l2); hi=std::min(hi,h2); } } }
  if(lo<0||(i128)hi+bytes>(i128)r.c.size()){ char b[300]; snprintf(b,300,"%s of %u byte(s) at offset [%lld,%lld] of object %s (%zu bytes)",write?"write":"read",bytes,(long long)lo,(long long)hi,r.name.c_str(),r.c.size()); ev(write?"oob-write":"oob-read",b); if(D.isConst(o)) return false; }
  if(write&&!r.writable) ev("write-const","write to read-only object "+r.name);
  if(align>1){ bool ok=r.align>=align; if(ok){ if(D.isConst(o)) ok=(D.cval(o)%align)==0; else { for(u32 k=1;k<align&&ok;k<<=1) if(!D.isConst(D.bit(o,__builtin_ctz(k)))) { ok=false; } } }
    if(!ok&&(r.kind=='p'||r.align>=1)&&align>1){ char b[200]; snprintf(b,200,"%u-byte aligned access to object %s (alignment %u) at offset %lld",align,r.name.c_str(),r.align,(long long)lo); if(align>=16||r.kind!='p') ev("misaligned",b); else ev("misaligned",b); } }
  if(!D.isConst(o)) { off=-1; return true; }
  off=D.cval(o); return true;
}
NID Interp::loadCells(const Region&r,i64 off,int bytes){
  Cell a=r.c[off]; 
  if(a.n&&a.i==0&&D.w(a.n)==bytes*8){ bool ok=true; for(int k=1;k<bytes&&ok;k++){ const Cell&b=r.c[off+k]; ok=b.n==a.n&&b.i==k; } if(ok) return a.n; }
  std::vector<Slice> s; for(int k=0;k<bytes;k++){ const Cell&b=r.c[off+k]; if(!b.n) s.push_back({D.mkUninit(8),0,8}); else if(!s.empty()&&s.back().n==b.n&&s.back().off+s.back().len==b.i*8) s.back().len+=8; else s.push_back({b.n,(u8)(b.i*8),8}); }
  return D.mkCat(s);
}
void Interp::storeCells(Region&r,i64 off,NID v){
  int bytes=(D.w(v)+7)/8; r.written=true;
  if(D.w(v)%8){ v=D.zext(v,bytes*8); }
  if(D.N[v].k==KUNINIT){ for(int k=0;k<bytes;k++) r.c[off+k]={0,0}; return; }
  if(D.hasUninit(v)){ for(int k=0;k<bytes;k++){ NID b=D.extract(v,8*k,8); r.c[off+k]=D.N[b].k==KUNINIT?Cell{0,0}:Cell{b,0}; } return; }
  for(int k=0;k<bytes;k++) r.c[off+k]={v,(u8)k};
}
NID Interp::loadInt(NID p,int w,u32 align){
  int bytes=(w+7)/8,reg; i64 off; nLoads++; if(!access(p,bytes,align,false,reg,off)) return D.mkUninit(w);
  const Region&r=ro(reg); NID v;
  if(off>=0) v=loadCells(r,off,bytes);
  else { NID o=D.arg(p,0); i64 lo=std::max<i64>(0,D.N[o].lo),hi=std::min<i64>(D.N[o].hi,(i64)r.c.size()-bytes);
    // table look-up in constant data through a small-support index
    v=0; if(D.smallSupport(o)&&hi-lo<70000){ std::vector<NID> tb; bool ok=true; for(i64 k=0;k<=hi&&ok;k++){ if(k<lo){ tb.push_back(D.mkConst(0,bytes*8)); continue; } NID x=loadCells(r,k,bytes); ok=D.isConst(x); tb.push_back(x); } if(ok) v=D.lookup(tb,o); }
    if(!v){ bool un=false; i64 l=INT64_MAX,h=INT64_MIN; bool sec=D.secret(o); int st=1; if(hi-lo<=100000) for(i64 k=lo;k<=hi;k+=st){ if(bytes>1&&(k%bytes)!=(lo%bytes)) continue; NID x=loadCells(r,k,bytes); if(D.hasUninit(x)) un=true; else { l=std::min(l,D.N[x].lo); h=std::max(h,D.N[x].hi); sec|=D.secret(x);} }
      if(un||l>h) { v=D.mkUninit(bytes*8); } else { static int cnt=0; char t[40]; snprintf(t,40,"load%d",cnt++); v=D.opaque(bytes*8,{o},t,l,h); if(sec) D.N[v].secret=true; } } }
  if(w!=bytes*8) v=D.trunc(v,w);
  return v;
}
void Interp::storeInt(NID p,NID v,u32 align){
  int bytes=(D.w(v)+7)/8,reg; i64 off; nStores++; if(!access(p,bytes,align,true,reg,off)) return;
  if(D.N[v].strm||D.N[v].smp){ std::vector<NID> bs; if(D.w(v)%8==0){ for(int k=0;k<bytes;k++) bs.push_back(D.extract(v,8*k,8)); if(samplerStore(p,bs)) return; } }
  if(!S.sm.empty()) plainWrite(reg,off,bytes);
  Region&r=rw(reg); if(off>=0){ storeCells(r,off,v); return; }
  NID o=D.arg(p,0); i64 lo=std::max<i64>(0,D.N[o].lo),hi=std::min<i64>(D.N[o].hi,(i64)r.c.size()-bytes);
  // weak update: every element in range may now hold v
  static int cnt=0; for(i64 k=lo;k<=hi;k++){ if((k-lo)%bytes) continue; NID x=loadCells(r,k,bytes); if(D.hasUninit(x)) continue; if(x==v) continue; char t[40]; snprintf(t,40,"weak%d",cnt++); NID y=D.opaque(D.w(x),{x,v},t,std::min(D.N[x].lo,D.N[v].lo),std::max(D.N[x].hi,D.N[v].hi)); storeCells(r,k,y); }
  r.written=true;
}
std::vector<NID> Interp::readBytes(NID p,u64 len,const char*what){
  std::vector<NID> b; if(!len) return b; int reg; i64 off; if(!access(p,(u32)len,1,false,reg,off)||off<0){ if(D.N[p].k==KPTR&&off<0) stop("symbolic source address"); for(u64 i=0;i<len;i++) b.push_back(D.mkUninit(8)); return b; }
  const Region r=ro(reg); bool un=false; for(u64 i=0;i<len;i++){ NID x=loadCells(r,off+i,1); if(D.hasUninit(x)) un=true; b.push_back(x); }
  if(un&&what) ev("uninit-use",std::string("uninitialised byte of ")+r.name+" used as "+what);
  return b;
}
void Interp::writeBytes(NID p,const std::vector<NID>&b){
  if(b.empty()) return; int reg; i64 off; if(!access(p,b.size(),1,true,reg,off)) return; if(off<0){ stop("symbolic destination address"); return; }
  if(!S.sm.empty()) plainWrite(reg,off,b.size());
  Region&r=rw(reg); for(size_t i=0;i<b.size();i++) storeCells(r,off+i,b[i]);
}
void Interp::copyMem(NID d,NID s,u64 len){
  if(!len) return; int rs,rd; i64 os,od; bool a=access(s,len,1,false,rs,os),b=access(d,len,1,true,rd,od); if(!a||!b) return; if(os<0||od<0){ stop("copy with symbolic address"); return; }
  if(!S.sm.empty()) plainWrite(rd,od,len); std::vector<Cell> t(ro(rs).c.begin()+os,ro(rs).c.begin()+os+len); Region&r=rw(rd); r.written=true; std::copy(t.begin(),t.end(),r.c.begin()+od);
}
// ------------------------------------------------------------------ hash summaries
std::string endsAfter(const std::string&n){ // API name of the namespaced hash functions, "" for anything else
  static const char*pre[]={"pqcrystals_kyber_fips202_","pqcrystals_kyber_fips202x4_"};
  for(auto p:pre) if(n.compare(0,strlen(p),p)==0){ size_t q=n.find('_',strlen(p)); if(q!=std::string::npos) return n.substr(q+1); }
  return "";
}
G Interp::hashId(const std::string&alg,const std::vector<NID>&in,bool&secret){
  H128 h(101); h.adds(alg); h.add(in.size()); bool e=false; for(NID b:in){ if(D.secret(b)) secret=true; e|=D.N[b].ext; if(D.hasUninit(b)){ h.add(0xdead); continue; } for(int i=0;i<8;i++) h.addG(D.g(D.bit(b,i))); }
  G id=h.fin(); if(e) extHash.insert({id.a,id.b}); return id;
}
std::vector<NID> Interp::hashOut(G id,u64 off,u64 len,bool secret){
  std::vector<NID> r; for(u64 k=0;k<len;k++){ H128 h(102); h.addG(id); h.add(off+k); G g=h.fin(); bool s=secret&&!publicIds.count({g.a,g.b}); NID a=D.mkAtomBits(g,8,s); if(extHash.count({id.a,id.b})) D.N[a].ext=true; r.push_back(a); } return r;
}
void Interp::checkConstLen(NID l,const char*what){ if(!D.isConst(l)) stop(std::string("non-constant length in ")+what); }
NID Interp::putState(NID p,u32 lanes,u32 stride,u32 t){
  HashTerm&T=terms[t]; H128 h(103); h.addG(T.id); h.add(T.fin); h.add(T.squeezed); h.add(T.in.size()); h.adds(T.alg); NID first=0;
  for(u32 i=0;i<lanes;i++){ H128 k=h; k.add(i); NID a=D.mkAtomBits(k.fin(),64,T.secret); if(trackStreams) stateAtom[a]={t,(int)i}; if(i==0) first=a; NID q=D.bin(ADD,p,D.mkConst((i64)i*stride,64)); storeInt(q,a,1); }
  termOf[first]=t; return first;
}
u32 Interp::getState(NID p,const char*what){
  NID v=loadInt(p,64,1); auto it=termOf.find(v); if(it==termOf.end()){ ev("hash-state",std::string("hash state passed to ")+what+" was not produced by a hash call"); return ~0u; } return it->second;
}
static std::string hx(G g){ char b[20]; snprintf(b,20,"%08x",(u32)g.a); return b; }
bool Interp::summary(const std::string&name,std::vector<Val>&a,Val&ret){
  std::string f=endsAfter(name); if(f.empty()) return false; 
  auto cl=[&](int i)->u64{ checkConstLen(a[i][0],f.c_str()); if(D.secret(a[i][0])) ev("secret-length","length argument of "+f+" depends on a secret"); return D.isConst(a[i][0])?D.uval(a[i][0]):0; };
  auto mk=[&](const std::string&alg,int rate,const std::vector<NID>&in,bool fin){ HashTerm t; t.alg=alg;t.rate=rate;t.in=in;t.fin=fin;t.squeezed=0;t.secret=false;t.id=hashId(alg,in,t.secret); t.off=0; terms.push_back(t); return (u32)terms.size()-1; };
  auto log=[&](const std::string&alg,const std::vector<NID>&in,u64 outlen){ updateLoc(); char b[200]; bool s=false; G id=hashId(alg,in,s); snprintf(b,200,"%s(%zu bytes)->%llu [%s] @%s",alg.c_str(),in.size(),(unsigned long long)outlen,hx(id).c_str(),curLoc.c_str()); hashLog.push_back(b); hashRecs.push_back({alg,in,id}); };
  if(f=="sha3_256"||f=="sha3_512"){ u64 n=cl(2); auto in=readBytes(a[1][0],n,"hash input"); bool s=false; G id=hashId(f,in,s); u64 ol=f=="sha3_256"?32:64; log(f,in,ol); writeBytes(a[0][0],hashOut(id,0,ol,s)); return true; }
  if(f=="shake128"||f=="shake256"){ u64 ol=cl(1),n=cl(3); auto in=readBytes(a[2][0],n,"hash input"); bool s=false; G id=hashId(f,in,s); log(f,in,ol); { auto o=hashOut(id,0,ol,s); if(f=="shake128"&&trackStreams) registerStream(id,0,o,s); squeezedTotal+=ol; writeBytes(a[0][0],o); } return true; }
  auto starts=[&](const char*p){ return f.compare(0,strlen(p),p)==0; };
  std::string alg=starts("shake128")?"shake128":starts("shake256")?"shake256":""; if(alg.empty()) return false; int rate=alg=="shake128"?168:136;
  std::string op=f.substr(8);
  if(op=="_init"){ u32 t=mk(alg,rate,{},false); putState(a[0][0],26,8,t); return true; }
  if(op=="_absorb"){ u64 n=cl(2); auto in=readBytes(a[1][0],n,"hash input"); u32 t=getState(a[0][0],f.c_str()); if(t==~0u) return true; if(terms[t].alg!=alg||terms[t].fin){ ev("hash-protocol",f+" called on a finalised or foreign state"); }
    std::vector<NID> all=terms[t].in; all.insert(all.end(),in.begin(),in.end()); u32 u=mk(alg,rate,all,false); putState(a[0][0],26,8,u); return true; }
  if(op=="_finalize"){ u32 t=getState(a[0][0],f.c_str()); if(t==~0u) return true; if(terms[t].alg!=alg||terms[t].fin) ev("hash-protocol",f+" called on a finalised or foreign state"); u32 u=mk(alg,rate,terms[t].in,true); log(alg,terms[t].in,0); putState(a[0][0],26,8,u); return true; }
  if(op=="_absorb_once"){ u64 n=cl(2); auto in=readBytes(a[1][0],n,"hash input"); u32 t=mk(alg,rate,in,true); log(alg,in,0); putState(a[0][0],26,8,t); return true; }
  if(op=="_squeeze"||op=="_squeezeblocks"){ u64 n=cl(1); if(op=="_squeezeblocks") n*=rate; u32 t=getState(a[2][0],f.c_str()); if(t==~0u){ return true; } if(terms[t].alg!=alg||!terms[t].fin) ev("hash-protocol",f+" called on a state that is not in its squeezing phase");
    if(op=="_squeezeblocks"&&terms[t].squeezed%rate) ev("hash-protocol","squeezeblocks on a partially squeezed block");
    HashTerm u=terms[t]; { auto o=hashOut(u.id,u.squeezed,n,u.secret); if(alg=="shake128"&&trackStreams) registerStream(u.id,u.squeezed,o,u.secret); writeBytes(a[0][0],o); } u.squeezed+=n; squeezedTotal+=n; terms.push_back(u); putState(a[2][0],26,8,terms.size()-1); return true; }
  if(op=="x4_absorb_once"){ u64 n=cl(5); for(int l=0;l<4;l++){ auto in=readBytes(a[1+l][0],n,"hash input"); u32 t=mk(alg,rate,in,true); log(alg,in,0); putState(D.bin(ADD,a[0][0],D.mkConst(8*l,64)),25,32,t); } return true; }
  if(op=="x4_squeezeblocks"){ u64 n=cl(4)*rate; for(int l=0;l<4;l++){ NID sp=D.bin(ADD,a[5][0],D.mkConst(8*l,64)); u32 t=getState(sp,f.c_str()); if(t==~0u) continue; if(terms[t].alg!=alg) ev("hash-protocol",f+" on a foreign state"); HashTerm u=terms[t]; { auto o=hashOut(u.id,u.squeezed,n,u.secret); if(alg=="shake128"&&trackStreams) registerStream(u.id,u.squeezed,o,u.secret); writeBytes(a[l][0],o); } u.squeezed+=n; squeezedTotal+=n; terms.push_back(u); putState(sp,25,32,terms.size()-1); } return true; }
  if(op=="x4"){ u64 ol=cl(4),n=cl(9); for(int l=0;l<4;l++){ auto in=readBytes(a[5+l][0],n,"hash input"); bool s=false; G id=hashId(alg,in,s); log(alg,in,ol); writeBytes(a[l][0],hashOut(id,0,ol,s)); } return true; }
  return false;
}
G matId(G stream,int k){ H128 h(104); h.addG(stream); h.add(k); return h.fin(); }
G matStream(Interp&I,const std::vector<NID>&seed,int x,int y){ auto in=seed; in.push_back(D.mkConst(x,8)); in.push_back(D.mkConst(y,8)); bool s=false; return I.hashId("shake128",in,s); }
bool Interp::genMatrix(std::vector<Val>&a){
  // a: K*K polynomials of 512 bytes.  Entry (i,j): stream SHAKE128(seed||x||y), x=col,y=row (swapped if transposed)
  auto seed=readBytes(a[1][0],32,"matrix seed"); if(!D.isConst(a[2][0])){ stop("gen_matrix: transposed flag not constant"); return true; }
  bool tr=D.uval(a[2][0])&1||D.uval(a[2][0]); bool sec=false; G sid=hashId("seed",seed,sec);
  if(sec) ev("secret-matrix-seed","matrix seed (public by specification) is secret here: rejection sampling would leak it");
  updateLoc(); char b[160]; snprintf(b,160,"gen_matrix(transposed=%d) seed %s @%s",tr,hx(sid).c_str(),curLoc.c_str()); gmLog.push_back(b);
  for(int i=0;i<K;i++) for(int j=0;j<K;j++){ int x=tr?i:j,y=tr?j:i; G st=matStream(*this,seed,x,y); for(int k=0;k<256;k++){ int c=genMap.size()==256?genMap[k]:k; NID n=D.mkAtomInt(matId(st,c),16,0,Q-1,sec); NID p=D.bin(ADD,a[0][0],D.mkConst((i64)(i*K+j)*512+2*k,64)); storeInt(p,n,1); } }
  return true;
}
