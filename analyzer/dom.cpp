#include "dom.hpp"
#include <algorithm>
#include <wmmintrin.h>
#include <emmintrin.h>
Dom D;
const char* opName[]={"add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","trunc","zext","sext","eq","ult","slt","select","extract","place","lfprod","nzmask","opaque","sats","satu","abs","nop"};

// ---------------------------------------------------------------- hashing / fields
static inline u64 mix(u64 x){ x^=x>>30; x*=0xbf58476d1ce4e5b9ULL; x^=x>>27; x*=0x94d049bb133111ebULL; x^=x>>31; return x; }
H128::H128(u64 s):a(mix(s^0x243f6a8885a308d3ULL)),b(mix(s^0x13198a2e03707344ULL)){}
void H128::add(u64 x){ a=mix(a^x)+0x9e3779b97f4a7c15ULL*b; b=mix(b+x*0xc2b2ae3d27d4eb4fULL)^(a<<17|a>>47); }
void H128::adds(const std::string&s){ for(char c:s) add((u8)c); add(0x100+s.size()); }
G H128::fin() const { return { mix(a^mix(b)), mix(b+mix(a^0x5555)) }; }
G gmul(G x,G y){
  __m128i X=_mm_set_epi64x(x.b,x.a),Y=_mm_set_epi64x(y.b,y.a);
  __m128i lo=_mm_clmulepi64_si128(X,Y,0x00),hi=_mm_clmulepi64_si128(X,Y,0x11);
  __m128i m=_mm_xor_si128(_mm_clmulepi64_si128(X,Y,0x01),_mm_clmulepi64_si128(X,Y,0x10));
  u64 r0,r1,r2,r3; u64 t[2];
  _mm_storeu_si128((__m128i*)t,lo); r0=t[0]; r1=t[1];
  _mm_storeu_si128((__m128i*)t,hi); r2=t[0]; r3=t[1];
  _mm_storeu_si128((__m128i*)t,m); r1^=t[0]; r2^=t[1];
  // reduce modulo x^128+x^7+x^2+x+1
  auto fold=[&](u64 h,u64&l0,u64&l1){ l0^=h^(h<<1)^(h<<2)^(h<<7); l1^=(h>>63)^(h>>62)^(h>>57); };
  fold(r3,r1,r2); fold(r2,r0,r1);
  return {r0,r1};
}
Fp fpPrf(G s){ Fp r; u64 x=s.a,y=s.b; for(int i=0;i<LANES;i++){ x=mix(x+0x9e3779b97f4a7c15ULL*(i+1)+y); r.v[i]=(u16)((x>>11)%Q); } return r; }
Fp fpConst(i128 c){ int m=(i64)c==c?(int)((i64)c%Q):(int)(c%Q); if(m<0)m+=Q; Fp r; for(int i=0;i<LANES;i++) r.v[i]=m; return r; }
Fp fpAdd(const Fp&a,const Fp&b){ Fp r; for(int i=0;i<LANES;i++){ u32 t=a.v[i]+b.v[i]; r.v[i]=t>=Q?t-Q:t;} return r; }
Fp fpSub(const Fp&a,const Fp&b){ Fp r; for(int i=0;i<LANES;i++){ u32 t=a.v[i]+Q-b.v[i]; r.v[i]=t>=Q?t-Q:t;} return r; }
Fp fpMul(const Fp&a,const Fp&b){ Fp r; for(int i=0;i<LANES;i++){ u32 p=(u32)a.v[i]*b.v[i]; r.v[i]=p-(u32)(((u64)p*1290167u)>>32)*Q; if(r.v[i]>=Q) r.v[i]-=Q; } return r; }
Fp fpScale(const Fp&a,i64 c){ i64 m=c%Q; if(m<0)m+=Q; Fp r; Fp b; for(int i=0;i<LANES;i++) b.v[i]=(u16)m; return fpMul(a,b); }
static int inv_q(int a){ a%=Q; if(a<0)a+=Q; int r=1,e=Q-2; i64 b=a; while(e){ if(e&1) r=r*b%Q; b=b*b%Q; e>>=1;} return r; }
static const int INV2_16 = inv_q(65536%Q);

// ---------------------------------------------------------------- op evaluation
i64 evalOp(Op op,int w,int wa,i64 a,i64 b,bool&wrap,int p1,int p2){
  i128 r;
  switch(op){
  case ADD: r=(i128)a+b; break;
  case SUB: r=(i128)a-b; break;
  case MUL: r=(i128)a*b; break;
  case UDIV: if(!zx(b,wa)) {wrap=true;return 0;} return sx((i64)(zx(a,wa)/zx(b,wa)),w);
  case UREM: if(!zx(b,wa)) {wrap=true;return 0;} return sx((i64)(zx(a,wa)%zx(b,wa)),w);
  case SDIV: if(!b||(a==imin(wa)&&b==-1)){wrap=true;return 0;} return a/b;
  case SREM: if(!b||(a==imin(wa)&&b==-1)){wrap=true;return 0;} return a%b;
  case AND: return a&b; case OR: return a|b; case XOR: return a^b;
  case SHL: if(b<0||b>=w){ wrap=true; return 0;} r=(i128)a<<b; break;
  case LSHR: if(b<0||b>=w){ wrap=true; return 0;} return sx((i64)(zx(a,w)>>b),w);
  case ASHR: if(b<0||b>=w){ wrap=true; return a<0?-1:0;} return a>>b;
  case TRUNC: return sx(a,w);
  case ZEXT: return w>wa? (i64)zx(a,wa): sx(a,w);
  case SEXT: return a;
  case EQ: return a==b?-1:0; case ULT: return zx(a,wa)<zx(b,wa)?-1:0; case SLT: return a<b?-1:0;
  case EXTRACT: return sx((i64)(zx(a,wa)>>p1),w);
  case PLACE: return sx((i64)(zx(a,wa)<<p1),w);
  case SATS: return a<imin(w)?imin(w):a>imax(w)?imax(w):a;
  case SATU: { i64 m=w>=63?INT64_MAX:(1LL<<w)-1; return sx(a<0?0:a>m?m:a,w); }
  case ABS: return sx(a<0?-a:a,w);
  default: fprintf(stderr,"evalOp %d\n",op); abort();
  }
  i64 x=sx((i64)r,w); if((i128)x!=r) wrap=true; return x;
}

// ---------------------------------------------------------------- node construction
Dom::Dom(){ A.reserve(1<<21); Node z; memset(&z,0,sizeof z); z.k=KUNINIT; z.w=8; N.push_back(z); }
NID Dom::add(Node&&nd,const std::vector<u32>&args){
  u64 h=mix(nd.k|(nd.op<<8)|((u64)nd.w<<16)|((u64)nd.tab<<32)); h=mix(h^(u64)nd.c); h=mix(h^nd.id.a)^nd.id.b;
  if(nd.k==KATOM) h=mix(h^(u64)nd.lo*31^(u64)nd.hi);
  for(u32 a:args) h=mix(h^a)+a;
  u32 hh=(u32)(h^(h>>32)); if(!consMap.t.empty()) for(size_t m=consMap.t.size()-1,i=hh&m;consMap.t[i].second;i=(i+1)&m){ if(consMap.t[i].first!=hh) continue; NID x=consMap.t[i].second-1; const Node&o=N[x]; if(o.k==nd.k&&o.op==nd.op&&o.w==nd.w&&o.tab==nd.tab&&o.c==nd.c&&o.id==nd.id&&o.an==args.size()&&(nd.k!=KATOM||(o.lo==nd.lo&&o.hi==nd.hi))&&
      std::equal(args.begin(),args.end(),A.begin()+o.ap)) return x; }
  for(size_t i=0;i<args.size();i+=(nd.k==KCAT?2:1)){ nd.smp|=N[args[i]].smp; nd.strm|=N[args[i]].strm; nd.ext|=N[args[i]].ext; }
  nd.ap=A.size(); nd.an=args.size(); A.insert(A.end(),args.begin(),args.end());
  N.push_back(nd); NID id=N.size()-1; consMap.put(hh,id); nOps++; return id;
}
static Node blank(Kind k,int w){ Node n; memset(&n,0,sizeof n); n.k=k; n.w=w; n.lo=imin(w); n.hi=imax(w); n.ones=~0ULL; if(w<64) n.ones=(1ULL<<w)-1; return n; }
NID Dom::mkConst(i64 v,int w){ Node n=blank(KCONST,w); n.c=sx(v,w); n.lo=n.hi=n.c; n.ones=zx(v,w); return add(std::move(n),{}); }
NID Dom::mkAtomBits(const G&id,int w,bool s){ if(w==1) return mkBitX(id,s); Node n=blank(KATOM,w); n.id=id; n.secret=s; return add(std::move(n),{}); }
NID Dom::mkAtomInt(const G&id,int w,i64 lo,i64 hi,bool s){ Node n=blank(KATOM,w); n.id=id; n.op=1; n.secret=s; n.lo=lo;n.hi=hi; if(lo>=0){ u64 m=1; while((i64)m-1<hi) m<<=1; n.ones=m-1; } return add(std::move(n),{}); }
NID Dom::mkUninit(int w){ Node n=blank(KUNINIT,w); return add(std::move(n),{}); }
NID Dom::mkPtr(int r,NID off){ Node n=blank(KPTR,64); n.c=r; n.secret=N[off].secret; n.lo=1; n.hi=imax(64); return add(std::move(n),{off}); }
NID Dom::mkBitX(const G&g,bool s,bool e){ auto key=std::make_pair(g.a,g.b); 
  if(giszero(g)) return mkConst(0,1); if(g==gone()) return mkConst(1,1);
  auto it=bitxMap.find(key); if(it!=bitxMap.end()){ if(s) N[it->second].secret=true; if(e) N[it->second].ext=true; return it->second; }
  if(!polyBits){ auto ci=bitxMap.find({g.a^gone().a,g.b^gone().b}); if(ci!=bitxMap.end()){ if(s) N[ci->second].secret=true; if(e) N[ci->second].ext=true; TB nb; toTB(ci->second,nb); nb=tbBin(XOR,nb,tbConst(1,1),1); return fromTB(nb); } } // one leaf for a bit and its complement
  Node n=blank(KBITX,1); n.id=g; n.g=g; n.gDone=true; n.secret=s; n.ext=e; NID r=add(std::move(n),{}); bitxMap[key]=r; return r; }

std::vector<Slice> Dom::slices(NID x) const {
  std::vector<Slice> r; const Node&n=N[x];
  if(n.k!=KCAT){ r.push_back({x,0,n.w}); return r; }
  for(u32 i=0;i<n.an;i+=2){ u32 p=A[n.ap+i+1]; r.push_back({A[n.ap+i],(u8)(p>>8),(u8)p}); }
  return r;
}
bool Dom::hasUninit(NID x) const { if(N[x].k==KUNINIT) return true; if(N[x].k!=KCAT) return false; for(u32 i=0;i<N[x].an;i+=2) if(N[A[N[x].ap+i]].k==KUNINIT) return true; return false; }
NID Dom::mkCat(std::vector<Slice> in){
  std::vector<Slice> s; int W=0;
  auto push=[&](Slice t){
    if(!t.len) return; const Node&n=N[t.n];
    if(n.k==KCONST && (t.off||t.len!=n.w)){ t.n=mkConst((i64)(zx(n.c,n.w)>>t.off),t.len); t.off=0; }
    else if(n.k==KUNINIT){ t.n=mkUninit(t.len); t.off=0; }
    else if(n.k!=KUNINIT && n.k!=KCONST && !n.ones){ t.n=mkConst(0,t.len); t.off=0; }
    else if(n.k!=KCONST){ // known-zero bits become constants
      u64 o=(n.ones>>t.off); if(t.len<64) o&=(1ULL<<t.len)-1;
      if(o==0){ t.n=mkConst(0,t.len); t.off=0; }
    }
    if(!s.empty()){ Slice&p=s.back(); const Node&pn=N[p.n]; const Node&tn=N[t.n];
      if(pn.k==KCONST&&tn.k==KCONST){ u64 v=zx(pn.c,p.len)|(zx(tn.c,t.len)<<p.len); NID m=mkConst((i64)v,p.len+t.len); p={m,0,(u8)(p.len+t.len)}; return; }
      if(pn.k==KUNINIT&&tn.k==KUNINIT){ NID m=mkUninit(p.len+t.len); p={m,0,(u8)(p.len+t.len)}; return; }
      if(p.n==t.n && p.off+p.len==t.off && pn.k!=KCONST && pn.k!=KUNINIT){ p.len+=t.len; return; } }
    s.push_back(t);
  };
  for(auto&t:in){ W+=t.len; const Node&n=N[t.n];
    if(n.k==KCAT){ int pos=0; for(auto&u:slices(t.n)){ int a=std::max<int>(pos,t.off),b=std::min<int>(pos+u.len,t.off+t.len); if(a<b) push({u.n,(u8)(u.off+a-pos),(u8)(b-a)}); pos+=u.len; } }
    else push(t); }
  if(s.size()==1){ Slice&t=s[0]; if(t.off==0&&t.len==N[t.n].w) return t.n; 
    if(W==1) { const Node&n=N[t.n];
      if(n.k==KATOM&&n.op==0){ H128 h(77); h.addG(n.id); h.add(t.off); bool st=n.strm; NID rb=mkBitX(h.fin(),n.secret,n.ext); if(st) N[rb].strm=true; return rb; }
      if(n.k==KTABB){ TB a; toTB(t.n,a); TB r=tbUn(EXTRACT,a,1,t.off); return fromTB(r); }
      TV v; if(toTV(t.n,v)){ TV r=tvUn(EXTRACT,v,1,t.off); return fromTV(r); }
    }
    else if(N[t.n].k==KTABB){ TB a; toTB(t.n,a); TB r=tbUn(EXTRACT,a,t.len,t.off); if(r.tab!=~0u) return fromTB(r); }
    else if(N[t.n].k==KTABV){ TV v; if(toTV(t.n,v)){ TV r=tvUn(EXTRACT,v,t.len,t.off); return fromTV(r); } } }
  Node n=blank(KCAT,W); std::vector<u32> args; u64 umax=0,umin=0,ones=0; int pos=0; bool sec=false,sm=true; int topknown=-1;
  for(auto&t:s){ const Node&m=N[t.n]; args.push_back(t.n); args.push_back((t.off<<8)|t.len); sec|=m.secret;
    u64 lm=t.len>=64?~0ULL:(1ULL<<t.len)-1; u64 so=(m.ones>>t.off)&lm,mx=so,mn=0;
    if(t.off==0&&m.k!=KUNINIT&&m.lo>=0&&(u64)m.hi<=lm){ mx=m.hi; mn=m.lo; }
    if(m.k==KCONST) mx=mn=zx(m.c,t.len);
    umax+=mx<<pos; umin+=mn<<pos; ones|=so<<pos; pos+=t.len;
    if(pos==W && !(so>>(t.len-1)&1)) topknown=0; if(pos==W && m.k==KCONST && (zx(m.c,t.len)>>(t.len-1)&1)) topknown=1; }
  (void)sm; n.ones=ones; n.secret=sec; if(topknown==0){ n.lo=umin;n.hi=umax; } else if(topknown==1&&W<64){ n.lo=(i64)umin-(1LL<<W); n.hi=(i64)umax-(1LL<<W); }
  return add(std::move(n),args);
}
NID Dom::extract(NID x,int off,int len){
  if(off==0&&len==N[x].w) return x;
  u64 key=((u64)x<<16)|(off<<8)|len; NID em=extMemo.get(key); if(em!=~0u) return em;
  NID r=mkCat({{x,(u8)off,(u8)len}}); extMemo.set(key,r); return r;
}
NID Dom::concat(const std::vector<NID>&p){ std::vector<Slice> s; for(NID x:p) s.push_back({x,0,N[x].w}); return mkCat(s); }
NID Dom::bit(NID x,int i){ if(N[x].w==1) return x; return extract(x,i,1); }

// ---------------------------------------------------------------- tables
static u64 vhash(const std::vector<i64>&v){ u64 a[4]={1,2,3,4}; size_t i=0,n=v.size(); for(;i+4<=n;i+=4) for(int k=0;k<4;k++) a[k]=(a[k]^(u64)v[i+k])*0x9e3779b97f4a7c15ULL^(a[k]>>29); for(;i<n;i++) a[0]=(a[0]^(u64)v[i])*0x9e3779b97f4a7c15ULL^(a[0]>>29); return mix(mix(mix(mix(a[0]+n)^a[1])+a[2])^a[3]); }
u32 Dom::mkTab(Tab&&t){
  t.n=t.v.size(); u64 h=mix(t.nb+1000*t.w)^mix(t.lo); h=mix(h^vhash(t.v.w)); auto&c=tabCons[h];
  for(u32 i:c) if(T[i].nb==t.nb&&T[i].w==t.w&&T[i].lo==t.lo&&T[i].v==t.v) return i;
  t.mn=INT64_MAX;t.mx=INT64_MIN;t.ones=0; H128 hh(t.nb+7); hh.add(t.w); hh.add(t.lo);
  for(i64 x:t.v){ if(x<t.mn)t.mn=x; if(x>t.mx)t.mx=x; t.ones|=zx(x,t.w); hh.add(x);} t.h=hh.fin(); t.v.pack(t.mn,t.mx);
  T.push_back(std::move(t)); c.push_back(T.size()-1); return T.size()-1;
}
u32 Dom::idTabB(int nb,int w){ Tab t; t.nb=nb;t.lo=0;t.w=w; for(u32 i=0;i<(1u<<nb);i++) t.v.push_back(sx(i,w)); return mkTab(std::move(t)); }
u32 Dom::idTabV(i64 lo,i64 hi,int w){ static std::map<std::tuple<i64,i64,int>,u32> m; auto k=std::make_tuple(lo,hi,w); auto it=m.find(k); if(it!=m.end()) return it->second;
  Tab t; t.nb=-1;t.lo=lo;t.w=w; for(i64 i=lo;i<=hi;i++) t.v.push_back(sx(i,w)); return m[k]=mkTab(std::move(t)); }
bool Dom::baseable(NID x) const { const Node&n=N[x]; return (n.k==KOP||(n.k==KATOM&&n.op==1)) && n.w>1 && (u64)(n.hi-n.lo)<=65535; }
Dom::TB Dom::tbConst(i64 c,int w){ Tab t; t.nb=0;t.lo=0;t.w=w; t.v.push_back(sx(c,w)); TB r; r.tab=mkTab(std::move(t)); return r; }
static std::unordered_map<NID,Dom::TB> tbCache;
bool Dom::toTB(NID x,TB&r,int maxb){
  const Node n=N[x];
  switch(n.k){
  case KCONST: r=tbConst(n.c,n.w); return true;
  case KBITX: { static u32 id1=0; if(!id1) id1=idTabB(1,1); r.tab=id1; r.args={x}; r.wrap=false; return true; }
  case KTABB: r.tab=n.tab; r.args.assign(A.begin()+n.ap,A.begin()+n.ap+n.an); r.wrap=false; return (int)n.an<=maxb;
  case KATOM: if(n.op==0){ if(n.w>maxb) return false; break; } return false;
  case KTABV: case KOP: if(n.w==1){ TB q; static u32 id1=0; if(!id1) id1=idTabB(1,1); q.tab=id1; q.args={x}; r=q; return true; } return false;
  case KCAT: break;
  default: return false;
  }
  auto it=tbCache.find(x); if(it!=tbCache.end()){ r=it->second; return r.tab!=~0u && (int)r.args.size()<=maxb; }
  TB acc=tbConst(0,n.w); int pos=0; bool ok=true; int bits=0;
  std::vector<NID> leaves; std::vector<int> lp;
  auto ss=slices(x);
  for(auto&s:ss){ const Node&m=N[s.n]; if(m.k==KUNINIT||m.k==KPTR) ok=false; else if(m.k!=KCONST&&m.k!=KTABB) bits+=s.len; }
  if(bits>16) ok=false;
  for(auto&s:ss){ if(!ok) break; Node m=N[s.n];
    if(m.k==KCONST){ u64 v=zx(m.c,s.len); TB c=tbConst((i64)(v<<pos),n.w); acc=tbBin(OR,acc,c,n.w); }
    else if(m.k==KTABB){ TB a; toTB(s.n,a); TB e=tbUn(EXTRACT,a,s.len,s.off); TB p=tbUn(PLACE,e,n.w,pos); acc=tbBin(OR,acc,p,n.w); if(acc.args.size()>16) ok=false; }
    else { for(int i=0;i<s.len;i++){ NID b=bit(s.n,s.off+i); TB lb; if(N[b].k==KTABB||N[b].k==KCONST) toTB(b,lb); else { static u32 id1=0; if(!id1) id1=idTabB(1,1); lb.tab=id1; lb.args={b}; }
        TB p=tbUn(PLACE,lb,n.w,pos+i); acc=tbBin(OR,acc,p,n.w); if(acc.args.size()>16||acc.tab==~0u){ ok=false; break; } } }
    pos+=s.len; if(acc.tab==~0u) ok=false; }
  if(!ok){ // too many leaves: treat the bits themselves as the variables
    int tot=0; bool bad=false; for(auto&s:ss){ const Node&m=N[s.n]; if(m.k==KUNINIT||m.k==KPTR) bad=true; else if(m.k!=KCONST) tot+=s.len; }
    if(!bad&&tot<=10){ ok=true; acc=tbConst(0,n.w); pos=0; for(auto&s:ss){ Node m=N[s.n]; if(m.k==KCONST){ u64 v=zx(m.c,s.len); acc=tbBin(OR,acc,tbConst((i64)(v<<pos),n.w),n.w); } else for(int i=0;i<s.len;i++){ NID b=bit(s.n,s.off+i); if(N[b].k==KTABB) b=mkBitX(g(b),N[b].secret,N[b].ext); TB lb; if(N[b].k==KCONST||N[b].k==KTABB) toTB(b,lb); else { lb.tab=idTabB(1,1); lb.args={b}; } acc=tbBin(OR,acc,tbUn(PLACE,lb,n.w,pos+i),n.w); } pos+=s.len; } if(acc.tab==~0u) ok=false; } }
  acc.wrap=false; if(!ok){ acc.tab=~0u; acc.args.clear(); }
  tbCache[x]=acc; r=acc; return ok && (int)r.args.size()<=maxb;
}
bool Dom::vBase(NID x,NID&base,bool&mixed){
  const Node&n=N[x];
  auto put=[&](NID b){ if(!base) base=b; else if(base!=b) mixed=true; };
  switch(n.k){
  case KCONST: return true;
  case KTABV: put(A[n.ap]); return true;
  case KCAT: for(u32 i=0;i<n.an;i+=2){ NID m=A[n.ap+i]; Kind k=N[m].k; if(k==KCONST) continue; if(k==KTABV) put(A[N[m].ap]); else if(baseable(m)) put(m); else return false; } return true;
  default: if(baseable(x)){ put(x); return true; } return false;
  }
}
bool Dom::toTV(NID x,TV&r){
  NID base=0; bool mixed=false; if(!vBase(x,base,mixed)||mixed) return false;
  const Node n=N[x]; r.wrap=false;
  if(n.k==KCONST){ TB c=tbConst(n.c,n.w); r.tab=c.tab; r.base=0; return true; }
  r.base=base;
  if(n.k==KTABV){ r.tab=n.tab; return true; }
  if(n.k!=KCAT){ r.tab=idTabV(n.lo,n.hi,n.w); return true; }
  static std::unordered_map<NID,u32> cache; auto it=cache.find(x); if(it!=cache.end()){ r.tab=it->second; return true; }
  TV acc; acc.tab=tbConst(0,n.w).tab; acc.base=0; int pos=0;
  for(auto&s:slices(x)){ TV p; if(N[s.n].k==KCONST){ p.tab=tbConst((i64)(zx(N[s.n].c,s.len)<<pos),n.w).tab; p.base=0; }
    else { TV a; toTV(s.n,a); TV e=tvUn(EXTRACT,a,s.len,s.off); p=tvUn(PLACE,e,n.w,pos); }
    acc=tvBin(OR,acc,p,n.w); pos+=s.len; }
  cache[x]=acc.tab; r.tab=acc.tab; r.base=base; return true;
}
static std::vector<u64> mkKey(std::initializer_list<u64> l){ return std::vector<u64>(l); }
Dom::TV Dom::tvUn(Op op,const TV&a,int w,int p1,int p2){
  if(N[a.base].k==KUNINIT&&a.base==0){ TV r; bool wr=false; i64 v=evalOp(op,w,T[a.tab].w,T[a.tab].v[0],p1,wr,p1,p2); r.tab=tbConst(v,w).tab; r.base=0; r.wrap=wr; return r; }
  auto key=mkKey({1,(u64)op,a.tab,(u64)w,(u64)(u32)p1,(u64)(u32)p2}); auto it=tabMemo.find(key);
  if(it==tabMemo.end()){ nTabOps++; Tab t; t.nb=-1; t.w=w; bool wr=false; { const Tab&x=T[a.tab]; t.lo=x.lo; t.v.resize(x.n); for(u32 i=0;i<x.n;i++) t.v.set(i,evalOp(op,w,x.w,x.v[i],p1,wr,p1,p2)); }
    TOpRes res{mkTab(std::move(t)),0,wr}; it=tabMemo.emplace(key,res).first; }
  TV r; r.tab=it->second.tab; r.base=a.base; r.wrap=it->second.wrap; return r;
}
Dom::TV Dom::tvBin(Op op,const TV&a,const TV&b,int w){
  NID base=a.base?a.base:b.base; TV r; r.base=base;
  if(!base){ bool wr=false; i64 v=evalOp(op,w,T[a.tab].w,T[a.tab].v[0],T[b.tab].v[0],wr); r.tab=tbConst(v,w).tab; r.wrap=wr; return r; }
  auto key=mkKey({2,(u64)op,a.tab,b.tab,(u64)w,(u64)((a.base?1:0)|(b.base?2:0))}); auto it=tabMemo.find(key);
  if(it==tabMemo.end()){ nTabOps++; Tab t; t.nb=-1; t.w=w; bool wr=false; { const Tab&x=T[a.tab],&y=T[b.tab]; u32 n=a.base?x.n:y.n; t.lo=a.base?x.lo:y.lo; t.v.resize(n);
      if(a.base&&b.base&&(x.n!=y.n||x.lo!=y.lo)){ fprintf(stderr,"tvBin domain mismatch\n"); abort(); }
      for(u32 i=0;i<n;i++) t.v.set(i,evalOp(op,w,x.w,a.base?x.v[i]:x.v[0],b.base?y.v[i]:y.v[0],wr)); }
    TOpRes res{mkTab(std::move(t)),0,wr}; it=tabMemo.emplace(key,res).first; }
  r.tab=it->second.tab; r.wrap=it->second.wrap; return r;
}
static void reduceTab(Tab&t,u32&keep){
  // remove irrelevant inputs; keep = mask of kept inputs
  keep=(t.nb?((1u<<t.nb)-1):0);
  for(int i=t.nb-1;i>=0;i--){ u32 n=t.v.size(),s=1u<<i; bool dep=false; for(u32 j=0;j<n&&!dep;j++) if(!(j&s)&&t.v[j]!=t.v[j|s]) dep=true;
    if(!dep){ std::vector<i64> nv; nv.reserve(n/2); for(u32 j=0;j<n;j++) if(!(j&s)) nv.push_back(t.v[j]); t.v.swap(nv); t.nb--; keep&=~(1u<<i); } }
}
static void applyKeep(const std::vector<NID>&in,u32 keep,std::vector<NID>&out){ out.clear(); for(size_t i=0;i<in.size();i++) if(keep>>i&1) out.push_back(in[i]); }
Dom::TB Dom::tbUn(Op op,const TB&a,int w,int p1,int p2){
  auto key=mkKey({3,(u64)op,a.tab,(u64)w,(u64)(u32)p1,(u64)(u32)p2}); auto it=tabMemo.find(key);
  if(it==tabMemo.end()){ nTabOps++; Tab t; bool wr=false; { const Tab&x=T[a.tab]; t.nb=x.nb; t.lo=0; t.w=w; t.v.resize(x.n); for(u32 i=0;i<x.n;i++) t.v.set(i,evalOp(op,w,x.w,x.v[i],p1,wr,p1,p2)); }
    u32 keep; reduceTab(t,keep); TOpRes res{mkTab(std::move(t)),keep,wr}; it=tabMemo.emplace(key,res).first; }
  TB r; r.tab=it->second.tab; r.wrap=it->second.wrap; applyKeep(a.args,it->second.keep,r.args); return r;
}
Dom::TB Dom::tbBin(Op op,const TB&a,const TB&b,int w){
  std::vector<NID> u; u.reserve(a.args.size()+b.args.size()); 
  std::set_union(a.args.begin(),a.args.end(),b.args.begin(),b.args.end(),std::back_inserter(u));
  TB r; if(u.size()>16||a.tab==~0u||b.tab==~0u){ r.tab=~0u; return r; }
  u64 pa=0,pb=0; int na=a.args.size(),nb=b.args.size();
  for(int i=0;i<na;i++) pa|=(u64)(std::lower_bound(u.begin(),u.end(),a.args[i])-u.begin())<<(4*i);
  for(int i=0;i<nb;i++) pb|=(u64)(std::lower_bound(u.begin(),u.end(),b.args[i])-u.begin())<<(4*i);
  auto key=mkKey({4,(u64)op,a.tab,b.tab,(u64)w,pa,pb,(u64)u.size()}); auto it=tabMemo.find(key);
  if(it==tabMemo.end()){ nTabOps++; Tab t; bool wr=false; { const Tab&x=T[a.tab],&y=T[b.tab]; t.nb=u.size(); t.lo=0; t.w=w; u32 n=1u<<t.nb; t.v.resize(n);
      for(u32 i=0;i<n;i++){ u32 ia=0,ib=0; for(int j=0;j<na;j++) ia|=((i>>((pa>>(4*j))&15))&1)<<j; for(int j=0;j<nb;j++) ib|=((i>>((pb>>(4*j))&15))&1)<<j; t.v.set(i,evalOp(op,w,x.w,x.v[ia],y.v[ib],wr)); } }
    u32 keep; reduceTab(t,keep); TOpRes res{mkTab(std::move(t)),keep,wr}; it=tabMemo.emplace(key,res).first; }
  r.tab=it->second.tab; r.wrap=it->second.wrap; applyKeep(u,it->second.keep,r.args); return r;
}
NID Dom::fromTB(TB&r){
  const Tab&t=T[r.tab]; if(t.nb==0) return mkConst(t.v[0],t.w);
  if(t.w==1&&t.nb==1&&t.v[0]==0) return r.args[0];
  Node n=blank(KTABB,t.w); n.tab=r.tab; n.lo=t.mn;n.hi=t.mx;n.ones=t.ones; for(NID a:r.args) n.secret|=N[a].secret; NID x=add(std::move(n),r.args);
  if(t.w==1&&!alias.empty()){ auto it=alias.find(x); if(it!=alias.end()) return it->second; }
  return x;
}
NID Dom::fromTV(TV&r){
  const Tab&t=T[r.tab]; if(t.mn==t.mx) return mkConst(t.mn,t.w);
  if(t.w==N[r.base].w && r.tab==idTabV(N[r.base].lo,N[r.base].hi,t.w)) return r.base;
  const Tab&t2=T[r.tab]; Node n=blank(KTABV,t2.w); n.tab=r.tab; n.lo=t2.mn;n.hi=t2.mx;n.ones=t2.ones; n.secret=N[r.base].secret; return add(std::move(n),{r.base});
}
bool Dom::smallSupport(NID x){ TV v; if(toTV(x,v)) return true; TB b; return toTB(x,b); }
bool Dom::bitStruct(NID x) const { const Node&n=N[x]; return n.k==KCAT||n.k==KBITX||n.k==KTABB||(n.k==KATOM&&n.op==0); }
NID Dom::mapTab(NID x,int w,const std::function<i64(i64)>&f){
  TV v; if(toTV(x,v)&&v.base){ Tab t; t.nb=-1;t.w=w;t.lo=T[v.tab].lo; for(i64 y:T[v.tab].v) t.v.push_back(sx(f(y),w)); TV r; r.tab=mkTab(std::move(t)); r.base=v.base; return fromTV(r); }
  TB b; if(toTB(x,b)){ Tab t; t.nb=T[b.tab].nb;t.w=w;t.lo=0; for(i64 y:T[b.tab].v) t.v.push_back(sx(f(y),w)); u32 keep; reduceTab(t,keep); TB r; r.tab=mkTab(std::move(t)); applyKeep(b.args,keep,r.args); return fromTB(r); }
  return 0;
}
bool Dom::zeroOrOnes(NID x,NID&c){
  const Node&n=N[x]; if(n.w==1){ c=x; return true; }
  if((n.k==KTABB||n.k==KTABV)&&n.lo==-1&&n.hi==0){ c=bit(x,0); return true; }
  if(n.k==KCAT){ NID b=0; for(auto&s:slices(x)) for(int i=0;i<s.len;i++){ NID y=bit(s.n,s.off+i); if(!b) b=y; else if(b!=y) return false; } c=b; return true; }
  return false;
}
// ---------------------------------------------------------------- operations
// product of two bits in the field, with the idempotence and complement laws applied to the factors that are known
struct GHash { size_t operator()(const G&g) const { return g.a^(g.b*0x9e3779b97f4a7c15ULL); } };
static std::unordered_map<G,std::vector<G>,GHash> factors;
static G gand(const G&x,const G&y){
  auto fx=factors.find(x),fy=factors.find(y); std::vector<G> a=fx==factors.end()?std::vector<G>{x}:fx->second,b=fy==factors.end()?std::vector<G>{y}:fy->second; G r=x; std::vector<G> u=a;
  for(const G&t:b){ bool have=false; for(const G&c:a){ if(c==t) have=true; if(gxor(c,t)==gone()) return gzero(); } if(!have){ u.push_back(t); r=gmul(r,t); } }
  if(u.size()==a.size()) return x; if(u.size()==b.size()) return y; if(u.size()<=8&&!giszero(r)) factors.emplace(r,u); return r;
}
NID Dom::bitop(Op op,NID x,NID y){
  if(N[x].k==KUNINIT||N[y].k==KUNINIT){ if(op==AND&&((isConst(x)&&!N[x].c)||(isConst(y)&&!N[y].c))) return mkConst(0,1); if(op==OR&&((isConst(x)&&N[x].c)||(isConst(y)&&N[y].c))) return mkConst(1,1); return mkUninit(1); }
  if(isConst(x)) std::swap(x,y);
  if(isConst(y)){ bool o=N[y].c&1; if(isConst(x)){ bool p=N[x].c&1; return mkConst(op==AND?(p&o):op==OR?(p|o):(p^o),1); }
    if(op==AND) return o?x:y; if(op==OR) return o?y:x; if(!o) return x;
    // NOT
    TV v; if(N[x].k==KTABV&&toTV(x,v)){ TV c; c.base=0; c.tab=tbConst(1,1).tab; TV r=tvBin(XOR,v,c,1); return fromTV(r); }
    if(N[x].k==KTABB){ TB b; toTB(x,b); TB r=tbBin(XOR,b,tbConst(1,1),1); return fromTB(r); }
    TB nb; NID r=!polyBits&&toTB(x,nb)?fromTB(nb=tbBin(XOR,nb,tbConst(1,1),1)):mkBitX(gxor(g(x),gone()),N[x].secret); if(!isConst(r)){ if(N[x].smp) N[r].smp=true; if(N[x].strm) N[r].strm=true; if(N[x].ext) N[r].ext=true; } return r; }
  if(x==y) return op==XOR?mkConst(0,1):x;
  if(x>y) std::swap(x,y);
  u64 key=((u64)x<<32)|y; auto&mm=binMemo[40+op]; { NID e=mm.get(key); if(e!=~0u) return e; }
  NID res=0; TV a,b;
  if(N[x].k==KTABV&&N[y].k==KTABV&&toTV(x,a)&&toTV(y,b)&&a.base==b.base){ TV r=tvBin(op,a,b,1); res=fromTV(r); }
  else { TB p,q; bool done=false;
    if(!polyBits&&op!=XOR&&(N[x].k==KBITX||N[y].k==KBITX)){ G gx=g(x),gy=g(y); if(factors.count(gx)||factors.count(gy)){ G t=gand(gx,gy); bool z=giszero(t); if(z||t==gx||t==gy){ done=true; res=op==AND?(z?mkConst(0,1):t==gx?x:y):z?mkBitX(gxor(gx,gy),N[x].secret||N[y].secret):t==gx?y:x; } } }
    if(!done&&!polyBits&&toTB(x,p,6)&&toTB(y,q,6)){ std::vector<NID> u; std::set_union(p.args.begin(),p.args.end(),q.args.begin(),q.args.end(),std::back_inserter(u)); if(u.size()<=6){ TB r=tbBin(op,p,q,1); res=fromTB(r); done=true; } }
    if(!done){ G gx=g(x),gy=g(y),r; bool s=N[x].secret||N[y].secret; if(gx==gy) res=op==XOR?mkConst(0,1):x;
      else { bool compl_=gxor(gx,gy)==gone();
        if(op==XOR) r=gxor(gx,gy); else if(compl_) r=op==AND?gzero():gone();
        else if(polyBits) r=op==AND?gmul(gx,gy):gxor(gxor(gx,gy),gmul(gx,gy));
        else { // x*x=x and x*(1+x)=0 among the factors of the two operands; x or y is the complement of a product
          G o=gone(),u=op==AND?gx:gxor(gx,o),v=op==AND?gy:gxor(gy,o); r=gand(u,v); if(op==OR){ if(giszero(gand(gx,gy))) r=gxor(gxor(gx,gy),o); r=gxor(r,o); } }
        res=mkBitX(r,s); } } }
  if(N[x].smp||N[y].smp) if(!isConst(res)) N[res].smp=true; if(N[x].strm||N[y].strm) if(!isConst(res)) N[res].strm=true;
  if((N[x].ext||N[y].ext)&&!isConst(res)) N[res].ext=true;
  mm.set(key,res); return res;
}
NID Dom::bnot(NID b){ return bitop(XOR,b,mkConst(1,1)); }
NID Dom::band(NID a,NID b){ return bitop(AND,a,b); } NID Dom::bor(NID a,NID b){ return bitop(OR,a,b); } NID Dom::bxor(NID a,NID b){ return bitop(XOR,a,b); }

NID Dom::bitwise(Op op,NID a,NID b){
  int w=N[a].w; if(w==1) return bitop(op,a,b);
  if(isConst(a)) std::swap(a,b);
  if(a==b) return op==XOR?mkConst(0,w):a;
  if(isConst(b)){ u64 m=zx(N[b].c,w),full=w>=64?~0ULL:(1ULL<<w)-1;
    if(isConst(a)) return mkConst(op==AND?N[a].c&N[b].c:op==OR?N[a].c|N[b].c:N[a].c^N[b].c,w);
    if(op==AND){ if(m==0) return b; if((N[a].ones&~m&full)==0&&!hasUninit(a)) return a; } else if(m==0) return a; else if(op==OR&&m==full) return b; }
  if(!hasUninit(a)&&!hasUninit(b)){
    TV x,y; if(toTV(a,x)&&toTV(b,y)&&(x.base==y.base||!x.base||!y.base)&&(x.base||y.base)){ TV r=tvBin(op,x,y,w); return fromTV(r); }
    if((N[a].k==KTABB||isConst(a)) && (N[b].k==KTABB||isConst(b))){ TB p,q; if(toTB(a,p)&&toTB(b,q)){ std::vector<NID> u; std::set_union(p.args.begin(),p.args.end(),q.args.begin(),q.args.end(),std::back_inserter(u)); if(u.size()<=12){ TB r=tbBin(op,p,q,w); return fromTB(r); } } }
    if((N[a].k==KCAT||isConst(a))&&(N[b].k==KCAT||isConst(b))&&(N[a].k==KCAT||N[b].k==KCAT)){ // split at boundaries common to both operands
      auto bd=[&](NID x){ u64 m=0; if(isConst(x)) return (u64)~0ULL; int p=0; for(auto&t:slices(x)){ p+=t.len; if(p<64) m|=1ULL<<p; } return m; };
      u64 m=bd(a)&bd(b); if(w<64) m&=(1ULL<<w)-1; m&=~1ULL;
      if(m){ std::vector<NID> parts; int p=0; for(int i=1;i<=w;i++) if(i==w||(m>>i&1)){ parts.push_back(bitwise(op,extract(a,p,i-p),extract(b,p,i-p))); p=i; } return concat(parts); } }
    if(N[a].k!=KPTR&&N[b].k!=KPTR){
    u64 oa=N[a].ones,ob=N[b].ones;
    if(!(oa&ob)){ if(op==AND) return mkConst(0,w);
      // interleave runs
      std::vector<Slice> s; int i=0; while(i<w){ int src=(oa>>i&1)?1:(ob>>i&1)?2:0; int j=i; auto cls=[&](int k){ return (oa>>k&1)?1:(ob>>k&1)?2:0; }; while(j<w&&(cls(j)==src||cls(j)==0)) j++; if(src==0){ j=i; while(j<w&&cls(j)==0) j++; s.push_back({mkConst(0,j-i),0,(u8)(j-i)}); } else s.push_back({src==1?a:b,(u8)i,(u8)(j-i)}); i=j; }
      return mkCat(s); }
    }
  }
  if(op!=AND&&N[a].k!=KPTR&&N[b].k!=KPTR&&!(N[a].ones&N[b].ones)&&N[a].k!=KUNINIT&&N[b].k!=KUNINIT){ // unwritten parts of one operand meet known zeros of the other
    u64 oa=N[a].ones; std::vector<Slice> s; int i=0; while(i<w){ bool x=oa>>i&1; int j=i; while(j<w&&(bool)(oa>>j&1)==x) j++; s.push_back({x?a:b,(u8)i,(u8)(j-i)}); i=j; } return mkCat(s); }
  if(N[a].k==KPTR||N[b].k==KPTR){ // alignment of a pointer: handled by caller
    return opaque(w,{a,b},opName[op],imin(w),imax(w)); }
  if(op==AND&&isConst(b)){ std::vector<Slice> s; u64 m=zx(N[b].c,w); int i=0; while(i<w){ bool o=m>>i&1; int j=i; while(j<w&&(bool)(m>>j&1)==o) j++; if(o) s.push_back({a,(u8)i,(u8)(j-i)}); else s.push_back({mkConst(0,j-i),0,(u8)(j-i)}); i=j; } return mkCat(s); }
  if(op==OR&&!isConst(b)){ // x | -x : non-zero mask
    for(int k=0;k<2;k++){ const Node&n=N[k?b:a]; NID o=k?a:b; if(n.k==KOP&&n.op==SUB&&isConst(A[n.ap])&&N[A[n.ap]].c==0&&A[n.ap+1]==o){
      NID z=icmpEq(o,mkConst(0,w)); NID nz=bnot(z); H128 h(901); h.addG(g(nz)); h.add(w); std::vector<Slice> s; NID lowbits=mkAtomBits(h.fin(),w-1,N[o].secret); s.push_back({lowbits,0,(u8)(w-1)}); s.push_back({nz,0,1}); return mkCat(s); } } }
  std::vector<Slice> s; for(int i=0;i<w;i++) s.push_back({bitop(op,bit(a,i),bit(b,i)),0,1}); return mkCat(s);
}
NID Dom::shiftc(Op op,NID a,int k){
  int w=N[a].w; if(k==0) return a; if(k>=w){ lastWrapS=true; return op==ASHR?bin(ASHR,a,mkConst(w-1,w)):mkConst(0,w); }
  TV x; if(!hasUninit(a)&&toTV(a,x)){ if(!x.base) { bool wr=false; return mkConst(evalOp(op,w,w,N[a].c,k,wr),w); } TV c; c.base=0; c.tab=tbConst(k,w).tab; TV r=tvBin(op,x,c,w); lastWrapS=r.wrap; size_t before=N.size(); NID res=fromTV(r); if(op==ASHR&&k==16&&res>=before&&N[res].k==KTABV&&!shiftSrc.count(res)&&!castSrc.count(res)) shiftSrc[res]=a; return res; }
  if(N[a].k==KTABB){ TB p; toTB(a,p); TB r=tbBin(op,p,tbConst(k,w),w); lastWrapS=r.wrap; return fromTB(r); }
  if(bitStruct(a)||N[a].k==KUNINIT||op==LSHR){
    if(op==ASHR&&N[a].k!=KCAT&&!bitStruct(a)&&N[a].k!=KUNINIT) goto kop;
    if(op==LSHR&&N[a].k==KOP&&N[a].lo>=0&&!bitStruct(a)) { op=ASHR; goto kop; }
    std::vector<Slice> s;
    if(op==SHL){ s.push_back({mkConst(0,k),0,(u8)k}); s.push_back({a,0,(u8)(w-k)}); lastWrapS=N[a].lo<(imin(w)>>k)||N[a].hi>(imax(w)>>k); }
    else { s.push_back({a,(u8)k,(u8)(w-k)}); if(op==LSHR) s.push_back({mkConst(0,k),0,(u8)k}); else { NID t=bit(a,w-1); if(isConst(t)&&!N[t].c) s.push_back({mkConst(0,k),0,(u8)k}); else for(int i=0;i<k;i++) s.push_back({t,0,1}); } }
    return mkCat(s); }
kop:
  if(op==SHL) return bin(MUL,a,mkConst(k==w-1?imin(w):(1LL<<k),w));
  Node n=blank(KOP,w); n.op=ASHR; n.secret=N[a].secret; n.lo=N[a].lo>>k; n.hi=N[a].hi>>k; if(n.lo>=0){u64 m=1; while(m&&(i64)(m-1)<n.hi) m<<=1; n.ones=m-1;}
  return add(std::move(n),{a,mkConst(k,w)});
}
NID Dom::arith(Op op,NID a,NID b){
  int w=N[a].w; lastWrapS=false;
  if(op==ADD&&N[b].k==KPTR) std::swap(a,b);
  if(N[a].k==KPTR&&(op==ADD||op==SUB)&&N[b].k!=KPTR) return mkPtr((int)N[a].c,arith(op,A[N[a].ap],b));
  if(op==SUB&&N[a].k==KPTR&&N[b].k==KPTR&&N[a].c==N[b].c) return bin(SUB,A[N[a].ap],A[N[b].ap]);
  if(hasUninit(a)||hasUninit(b)) return mkUninit(w);
  if(isConst(a)&&isConst(b)){ bool wr=false; i64 v=evalOp(op,w,w,N[a].c,N[b].c,wr); lastWrapS=wr; return mkConst(v,w); }
  if(op==ADD||op==MUL) if(isConst(a)) std::swap(a,b);
  if(isConst(b)){ i64 c=N[b].c; if((op==ADD||op==SUB)&&c==0) return a; if(op==MUL){ if(c==1) return a; if(c==0) return b; } if((op==UDIV||op==SDIV)&&c==1) return a; }
  if(op==SUB&&a==b) return mkConst(0,w);
  if(w==1){ if(op==ADD||op==SUB) return bitop(XOR,a,b); if(op==MUL) return bitop(AND,a,b); }
  if(op==ADD&&!polyBits&&N[a].k==KCAT&&N[b].k==KCAT&&(N[a].ones&N[b].ones)){ bool dj=true; for(int i=0;i<w&&dj;i++) if((N[a].ones&N[b].ones)>>i&1){ NID t=bitop(AND,bit(a,i),bit(b,i)); dj=isConst(t)&&!N[t].c; } if(dj) return bitwise(OR,a,b); } // no two bits set together
  if(op==MUL&&!polyBits) for(int i=0;i<2;i++){ NID m=i?b:a,o=i?a:b; if(!(N[m].ones&~1ULL)&&N[o].k==KCAT&&(bitStruct(m)||N[m].k==KTABV)) return bitwise(AND,o,sext(bit(m,0),w)); } // one factor is 0 or 1
  TB p,q; bool pa=false,qb=false;
  if(bitStruct(a)||bitStruct(b)){ pa=toTB(a,p); qb=pa&&toTB(b,q); if(qb){ TB r=tbBin(op,p,q,w); if(r.tab!=~0u){ lastWrapS=r.wrap; return fromTB(r); } } }
  TV x,y; if(toTV(a,x)&&toTV(b,y)&&(x.base==y.base||!x.base||!y.base)&&(x.base||y.base)){ TV r=tvBin(op,x,y,w); lastWrapS=r.wrap; return fromTV(r); }
  pa=toTB(a,p),qb=pa&&toTB(b,q);
  if(qb){ TB r=tbBin(op,p,q,w); if(r.tab!=~0u){ lastWrapS=r.wrap; return fromTB(r); } }
  if(op==ADD&&!(N[a].ones&N[b].ones)&&N[a].k!=KPTR) return bitwise(OR,a,b);
  if(op==MUL&&isConst(b)){ u64 c=zx(N[b].c,w); if(c&&!(c&(c-1))&&bitStruct(a)){ int k=__builtin_ctzll(c); NID r=shiftc(SHL,a,k); lastWrapS=N[a].lo<(imin(w)>>k)||N[a].hi>(imax(w)>>k); return r; } }
  if((op==ADD||op==SUB)&&w>=8&&(bitStruct(a)||isConst(a))&&(bitStruct(b)||isConst(b))){
    // split into independent segments (no carry / borrow between them)
    std::vector<Slice> s; int cut=0; bool ok=true; 
    while(cut<w&&ok){ bool found=false; for(int e=cut+1;e<=w;e++){ u64 m=(e-cut)>=64?~0ULL:((1ULL<<(e-cut))-1); u64 sa=(N[a].ones>>cut)&m,sb=(N[b].ones>>cut)&m;
        if(op==ADD){ if(e<w&&!((i128)sa+sb<=(i128)m)) continue; if(e==w&&e-cut>16&&sa&&sb&&!((i128)sa+sb<=(i128)m)){ } }
        NID xa=extract(a,cut,e-cut),xb=extract(b,cut,e-cut); NID r=0;
        if(sb==0&&!hasUninit(xa)) r=xa; else if(op==ADD&&sa==0) r=xb; else { TB u,v; if(toTB(xa,u)&&toTB(xb,v)){ TB t=tbBin(op,u,v,e-cut); if(t.tab!=~0u){ 
            if(op==SUB&&e<w){ // borrow check
              TB z=tbBin(ULT,u,v,1); if(z.tab==~0u||T[z.tab].ones) continue; }
            r=fromTB(t); } else { if(e-cut>20) {ok=false;break;} continue; } } else { if(e-cut>20){ok=false;break;} continue; } }
        if(r){ s.push_back({r,0,(u8)(e-cut)}); cut=e; found=true; break; } }
      if(!found) ok=false; }
    if(ok&&cut==w){ // wrap in the top segment: be conservative
      i128 l=(i128)N[a].lo+(op==ADD?(i128)N[b].lo:-(i128)N[b].hi),h=(i128)N[a].hi+(op==ADD?(i128)N[b].hi:-(i128)N[b].lo); lastWrapS=l<imin(w)||h>imax(w); 
      if(op==SUB&&l<0){ NID r=mkCat(s); lastWrapS=false; return r; }
      return mkCat(s); } }
  // generic arithmetic node
  Node n=blank(KOP,w); n.op=op; n.secret=N[a].secret||N[b].secret; i128 l,h; const Node&na=N[a],&nb=N[b];
  switch(op){
  case ADD: l=(i128)na.lo+nb.lo; h=(i128)na.hi+nb.hi; break;
  case SUB: l=(i128)na.lo-nb.hi; h=(i128)na.hi-nb.lo; break;
  case MUL: { i128 c[4]={(i128)na.lo*nb.lo,(i128)na.lo*nb.hi,(i128)na.hi*nb.lo,(i128)na.hi*nb.hi}; l=h=c[0]; for(int i=1;i<4;i++){ if(c[i]<l)l=c[i]; if(c[i]>h)h=c[i]; } break; }
  case UDIV: l=0; h=imax(w); if(na.lo>=0&&nb.lo>0){ l=na.lo/nb.hi; h=na.hi/nb.lo; } else if(nb.lo<=0&&nb.hi>=0) n.wrap=true; break;
  case UREM: l=0; h=imax(w); if(nb.lo>0){ h=nb.hi-1; if(na.lo>=0&&na.hi<h) h=na.hi; } else if(nb.lo<=0) n.wrap=true; break;
  case SDIV: case SREM: l=imin(w); h=imax(w); if(nb.lo>0){ if(op==SREM){ l=na.lo<0?-(nb.hi-1):0; h=na.hi>0?nb.hi-1:0; } else { l=na.lo<0?na.lo:0; h=na.hi>0?na.hi:0; } } else n.wrap=true; break;
  default: abort();
  }
  if(l<imin(w)||h>imax(w)){ n.wrap=true; l=imin(w); h=imax(w); }
  n.lo=(i64)l; n.hi=(i64)h; lastWrapS=n.wrap;
  if(n.lo>=0){ u64 m=1; while(m&&(i64)(m-1)<n.hi&&m<(1ULL<<63)) m<<=1; if(n.hi<(i64)(m-1)||(i64)(m-1)>=n.hi) n.ones=m-1; }
  NID aa=a,bb=b; if((op==ADD||op==MUL)&&aa>bb) std::swap(aa,bb);
  return add(std::move(n),{aa,bb});
}
NID Dom::bin(Op op,NID a,NID b){
  u64 key=((u64)a<<32)|b; auto&mm=binMemo[op]; lastWrapS=false; { NID e=mm.get(key); if(e!=~0u){ lastWrapS=(e>>31)&1; return e&0x7fffffff; } }
  NID r;
  switch(op){
  case AND: case OR: case XOR: r=bitwise(op,a,b); lastWrapS=false; break;
  case SHL: case LSHR: case ASHR:
    if(isConst(b)){ u64 k=uval(b); r=shiftc(op,a,k>255?255:(int)k); }
    else { TV x,y; TB p,q; if(hasUninit(a)||hasUninit(b)){ r=mkUninit(N[a].w); break; }
      if((bitStruct(a)||bitStruct(b))&&toTB(a,p)&&toTB(b,q)&&(p=tbBin(op,p,q,N[a].w)).tab!=~0u){ lastWrapS=p.wrap; r=fromTB(p); }
      else if(toTV(a,x)&&toTV(b,y)&&(x.base==y.base||!x.base||!y.base)){ TV t=tvBin(op,x,y,N[a].w); lastWrapS=t.wrap; r=fromTV(t); }
      else if(toTB(a,p)&&toTB(b,q)&&(p=tbBin(op,p,q,N[a].w)).tab!=~0u){ lastWrapS=p.wrap; r=fromTB(p); }
      else { r=opaque(N[a].w,{a,b},opName[op],imin(N[a].w),imax(N[a].w)); lastWrapS=true; } }
    break;
  default: r=arith(op,a,b);
  }
  bool wr=lastWrapS; mm.set(key,r|(wr?0x80000000u:0)); lastWrapS=wr; return r;
}
NID Dom::opaque(int w,const std::vector<NID>&args,const std::string&tag,i64 lo,i64 hi){
  for(NID a:args) if(hasUninit(a)) return mkUninit(w);
  H128 h(5); h.adds(tag); Node n=blank(KOP,w); n.op=OPAQUE; n.id=h.fin(); n.lo=lo;n.hi=hi; for(NID a:args) n.secret|=N[a].secret; if(lo>=0){ u64 m=1; while(m<(1ULL<<62)&&(i64)(m-1)<hi) m<<=1; if((i64)(m-1)>=hi) n.ones=m-1; }
  return add(std::move(n),args);
}
NID Dom::trunc(NID a,int w){
  const Node n=N[a]; if(w==n.w) return a;
  if(n.k==KPTR) return opaque(w,{a},"ptrtrunc",imin(w),imax(w));
  if(n.k==KCONST) return mkConst(n.c,w);
  if(hasUninit(a)) return extract(a,0,w);
  TV x; if(n.k!=KCAT&&toTV(a,x)){ TV r=tvUn(TRUNC,x,w); size_t before=N.size(); NID res=fromTV(r); if(n.lo>=imin(w)&&n.hi<=imax(w)&&res>=before&&N[res].k==KTABV&&!shiftSrc.count(res)&&!castSrc.count(res)) castSrc[res]=a; return res; }
  if(n.k==KTABB){ TB p; toTB(a,p); TB r=tbUn(TRUNC,p,w); return fromTB(r); }
  if(bitStruct(a)||w==1) return extract(a,0,w);
  Node m=blank(KOP,w); m.op=TRUNC; m.secret=n.secret; if(n.lo>=imin(w)&&n.hi<=imax(w)){ m.lo=n.lo;m.hi=n.hi; if(n.lo>=0) m.ones=n.ones&((1ULL<<w)-1); } else m.wrap=true;
  return add(std::move(m),{a});
}
NID Dom::sext(NID a,int w){
  const Node n=N[a]; if(w==n.w) return a;
  if(n.k==KCONST) return mkConst(n.c,w);
  if(n.k==KUNINIT) return mkUninit(w);
  if(hasUninit(a)) return mkUninit(w);
  if(n.w==1){ std::vector<Slice> s; TB p; TV x; if(n.k==KTABV&&toTV(a,x)){ TV r=tvUn(SEXT,x,w); return fromTV(r);} if(toTB(a,p)){ TB r=tbUn(SEXT,p,w); return fromTB(r);} }
  TV x; if(n.k!=KCAT&&toTV(a,x)){ TV r=tvUn(SEXT,x,w); size_t before=N.size(); NID res=fromTV(r); if(n.k==KTABV&&res>=before&&N[res].k==KTABV&&!shiftSrc.count(res)&&!castSrc.count(res)) castSrc[res]=a; return res; }
  if(n.k==KTABB){ TB p; toTB(a,p); TB r=tbUn(SEXT,p,w); return fromTB(r); }
  if(bitStruct(a)){ NID t=bit(a,n.w-1); std::vector<Slice> s; s.push_back({a,0,n.w}); if(isConst(t)){ s.push_back({mkConst(N[t].c,w-n.w),0,(u8)(w-n.w)}); return mkCat(s);} 
    TB p; if(toTB(a,p)){ TB r=tbUn(SEXT,p,w); return fromTB(r); }
    for(int i=n.w;i<w;i++) s.push_back({t,0,1}); return mkCat(s); }
  Node m=blank(KOP,w); m.op=SEXT; m.secret=n.secret; m.lo=n.lo;m.hi=n.hi; if(n.lo>=0) m.ones=n.ones; return add(std::move(m),{a});
}
NID Dom::zext(NID a,int w){
  const Node n=N[a]; if(w==n.w) return a;
  if(n.k==KCONST) return mkConst((i64)zx(n.c,n.w),w);
  if(hasUninit(a)){ std::vector<Slice> s={{a,0,n.w},{mkConst(0,w-n.w),0,(u8)(w-n.w)}}; return mkCat(s); }
  TV x; if(n.k!=KCAT&&toTV(a,x)){ TV r=tvUn(ZEXT,x,w); return fromTV(r); }
  if(n.k==KTABB){ TB p; toTB(a,p); TB r=tbUn(ZEXT,p,w); return fromTB(r); }
  if(n.k==KOP&&n.lo>=0&&n.w>1) return sext(a,w);
  std::vector<Slice> s={{a,0,n.w},{mkConst(0,w-n.w),0,(u8)(w-n.w)}}; return mkCat(s);
}
NID Dom::icmpEq(NID a,NID b){
  const Node&na=N[a],&nb=N[b]; if(a==b) return mkConst(1,1);
  if(na.k==KPTR||nb.k==KPTR){ if(na.k==KPTR&&nb.k==KPTR){ if(na.c!=nb.c) return mkConst(0,1); return icmpEq(A[na.ap],A[nb.ap]); }
    NID o=na.k==KPTR?b:a; if(isConst(o)&&N[o].c==0) return mkConst(0,1); return opaque(1,{a,b},"ptreq",-1,0); }
  if(hasUninit(a)||hasUninit(b)) return mkUninit(1);
  if(na.k==KCONST&&nb.k==KCONST) return mkConst(na.c==nb.c,1);
  if(na.hi<nb.lo||nb.hi<na.lo) return mkConst(0,1);
  if(bitStruct(a)||bitStruct(b)){ TB p,q; if(toTB(a,p)&&toTB(b,q)){ TB r=tbBin(EQ,p,q,1); if(r.tab!=~0u) return fromTB(r); } }
  TV x,y; if(toTV(a,x)&&toTV(b,y)&&(x.base==y.base||!x.base||!y.base)){ TV r=tvBin(EQ,x,y,1); return fromTV(r); }
  TB p,q; if(toTB(a,p)&&toTB(b,q)){ TB r=tbBin(EQ,p,q,1); if(r.tab!=~0u) return fromTB(r); }
  if((bitStruct(a)||na.k==KCONST)&&(bitStruct(b)||nb.k==KCONST)){ NID r=mkConst(1,1); for(int i=0;i<N[a].w;i++) r=band(r,bnot(bxor(bit(a,i),bit(b,i)))); return r; }
  return opaque(1,a<b?std::vector<NID>{a,b}:std::vector<NID>{b,a},"eq",-1,0);
}
NID Dom::icmpSlt(NID a,NID b){
  if(a==b) return mkConst(0,1); if(hasUninit(a)||hasUninit(b)) return mkUninit(1);
  const Node&na=N[a],&nb=N[b]; if(na.k==KPTR||nb.k==KPTR) return opaque(1,{a,b},"ptrslt",-1,0);
  if(na.hi<nb.lo) return mkConst(1,1); if(na.lo>=nb.hi) return mkConst(0,1);
  if(bitStruct(a)||bitStruct(b)){ TB p,q; if(toTB(a,p)&&toTB(b,q)){ TB r=tbBin(SLT,p,q,1); if(r.tab!=~0u) return fromTB(r); } }
  TV x,y; if(toTV(a,x)&&toTV(b,y)&&(x.base==y.base||!x.base||!y.base)){ TV r=tvBin(SLT,x,y,1); return fromTV(r); }
  TB p,q; if(toTB(a,p)&&toTB(b,q)){ TB r=tbBin(SLT,p,q,1); if(r.tab!=~0u) return fromTB(r); }
  if(isConst(b)&&N[b].c==0) return bit(a,N[a].w-1);
  return opaque(1,{a,b},"slt",-1,0);
}
NID Dom::icmpUlt(NID a,NID b){
  if(a==b) return mkConst(0,1); if(hasUninit(a)||hasUninit(b)) return mkUninit(1);
  const Node&na=N[a],&nb=N[b];
  if(na.k==KPTR&&nb.k==KPTR&&na.c==nb.c) return icmpUlt(A[na.ap],A[nb.ap]);
  if(na.k==KPTR||nb.k==KPTR) return opaque(1,{a,b},"ptrult",-1,0);
  if(na.lo>=0&&nb.lo>=0){ if(na.hi<nb.lo) return mkConst(1,1); if(na.lo>=nb.hi) return mkConst(0,1); }
  if(na.lo>=0&&nb.hi<0) return mkConst(1,1); if(na.hi<0&&nb.lo>=0) return mkConst(0,1);
  if(isConst(b)&&zx(nb.c,nb.w)==0) return mkConst(0,1);
  if(isConst(b)&&zx(nb.c,nb.w)==1) return icmpEq(a,mkConst(0,N[a].w));
  if(isConst(a)&&zx(na.c,na.w)==0) return bnot(icmpEq(b,mkConst(0,N[b].w)));
  if(bitStruct(a)||bitStruct(b)){ TB p,q; if(toTB(a,p)&&toTB(b,q)){ TB r=tbBin(ULT,p,q,1); if(r.tab!=~0u) return fromTB(r); } }
  TV x,y; if(toTV(a,x)&&toTV(b,y)&&(x.base==y.base||!x.base||!y.base)){ TV r=tvBin(ULT,x,y,1); return fromTV(r); }
  TB p,q; if(toTB(a,p)&&toTB(b,q)){ TB r=tbBin(ULT,p,q,1); if(r.tab!=~0u) return fromTB(r); }
  return opaque(1,{a,b},"ult",-1,0);
}
NID Dom::select(NID c,NID a,NID b){
  if(a==b) return a; if(hasUninit(c)) return mkUninit(N[a].w);
  if(isConst(c)) return N[c].c&1?a:b;
  int w=N[a].w; if(w==1) return bxor(b,band(c,bxor(a,b)));
  if(!hasUninit(a)&&!hasUninit(b)&&N[a].k!=KPTR&&N[b].k!=KPTR){
    TV x,y,z; bool same=toTV(a,x)&&toTV(b,y)&&N[c].k==KTABV&&toTV(c,z)&&(!x.base||x.base==z.base)&&(!y.base||y.base==z.base);
    TB p,q,r; bool tb=!same&&toTB(a,p)&&toTB(b,q)&&toTB(c,r); if(tb){ TB u=tbBin(XOR,p,q,w); if(u.tab==~0u) tb=false; else { TB v=tbBin(AND,tbUn(SEXT,r,w),u,w); if(v.tab==~0u) tb=false; else { TB t=tbBin(XOR,q,v,w); if(t.tab!=~0u) return fromTB(t); } } }
    bool bits=(bitStruct(a)||isConst(a))&&(bitStruct(b)||isConst(b));
    if(same||bits) return bin(XOR,b,bin(AND,sext(c,w),bin(XOR,a,b)));
  }
  if(hasUninit(a)||hasUninit(b)) { return mkUninit(w); }
  Node n=blank(KOP,w); n.op=SELECT; n.secret=N[a].secret||N[b].secret||N[c].secret; n.lo=std::min(N[a].lo,N[b].lo); n.hi=std::max(N[a].hi,N[b].hi); n.ones=N[a].ones|N[b].ones;
  // ite(c, x+1, x)  ->  x + c
  return add(std::move(n),{c,a,b});
}
NID Dom::satS(NID a,int w){ const Node n=N[a]; if(hasUninit(a)) return mkUninit(w); if(n.lo>=imin(w)&&n.hi<=imax(w)) return trunc(a,w);
  TV x; if(toTV(a,x)){ TV r=tvUn(SATS,x,w); return x.base?fromTV(r):mkConst(T[r.tab].v[0],w); } TB p; if(toTB(a,p)){ TB r=tbUn(SATS,p,w); return fromTB(r); }
  return opaque(w,{a},"sats",std::max(n.lo,imin(w)),std::min(n.hi,imax(w))); }
NID Dom::satU(NID a,int w){ const Node n=N[a]; if(hasUninit(a)) return mkUninit(w); i64 m=(1LL<<w)-1; if(n.lo>=0&&n.hi<=m) return trunc(a,w);
  TV x; if(toTV(a,x)){ TV r=tvUn(SATU,x,w); return x.base?fromTV(r):mkConst(T[r.tab].v[0],w); } TB p; if(toTB(a,p)){ TB r=tbUn(SATU,p,w); return fromTB(r); }
  return opaque(w,{a},"satu",imin(w),imax(w)); }
NID Dom::absv(NID a){ int w=N[a].w; if(hasUninit(a)) return mkUninit(w); TV x; if(toTV(a,x)){ TV r=tvUn(ABS,x,w); return x.base?fromTV(r):mkConst(T[r.tab].v[0],w);} TB p; if(toTB(a,p)){ TB r=tbUn(ABS,p,w); return fromTB(r);} return opaque(w,{a},"abs",imin(w),imax(w)); }
NID Dom::lookup(const std::vector<NID>&tb,NID idx){
  for(NID x:tb) if(!isConst(x)) return 0; int w=N[tb[0]].w;
  TB b; if(!toTB(idx,b)) return mapTab(idx,w,[&](i64 i)->i64{ return i>=0&&i<(i64)tb.size()?N[tb[i]].c:0; });
  struct R { u32 tab,keep; }; static std::map<std::tuple<u64,u64,u32>,R> memo; H128 h(77); h.add(w); for(NID x:tb) h.add(x); G key=h.fin(); auto mk=std::make_tuple(key.a,key.b,b.tab); auto it=memo.find(mk); TB r;
  if(it==memo.end()){ Tab t; t.nb=T[b.tab].nb;t.w=w;t.lo=0; for(i64 i:T[b.tab].v) t.v.push_back(i>=0&&i<(i64)tb.size()?N[tb[i]].c:0); u32 keep; reduceTab(t,keep); it=memo.emplace(mk,R{mkTab(std::move(t)),keep}).first; }
  r.tab=it->second.tab; applyKeep(b.args,it->second.keep,r.args); return fromTB(r);
}
// ---------------------------------------------------------------- linear form modulo 2^16
static int inv16(int a){ int x=a; for(int i=0;i<5;i++) x=(x*(2-a*x))&0xffff; return x&0xffff; }
void Dom::tabAff16(u32 t){ Tab&x=T[t]; if(x.aff16Done) return; x.aff16Done=true;
  if(x.nb==-1){ u16 v0=(u16)x.v[0]; u16 c=x.n>1?(u16)((u16)x.v[1]-v0):0; bool ok=true; for(u32 i=0;i<x.n&&ok;i++) ok=(u16)x.v[i]==(u16)(v0+c*i); x.aff16=ok; x.a16c=c; x.a16d=(u16)(v0-c*(u16)x.lo); }
}
Dom::LF Dom::lf(NID x){
  if(N[x].lfDone) return {N[x].lfc,N[x].lfd,N[x].lfa};
  LF r{1,0,x}; Node n=N[x];
  switch(n.k){
  case KCONST: r={0,(u16)n.c,0}; break;
  case KTABV: tabAff16(n.tab); if(T[n.tab].aff16&&n.w>=16){ LF b=lf(A[n.ap]); u16 c=T[n.tab].a16c,d=T[n.tab].a16d; r={(u16)(b.c*c),(u16)(b.d*c+d),b.atom}; if(!r.c) r.atom=0; }
    else if(n.w>16){ TV v; if(toTV(x,v)&&v.base){ TV t=tvUn(TRUNC,v,16); r={1,0,fromTV(t)}; } } break;
  case KCAT: if(n.w>=16){ auto s=slices(x); if(s[0].off==0&&s[0].len>=16&&N[s[0].n].k!=KUNINIT) { r=lf(s[0].n); break; } } /* fallthrough */
  case KTABB: { TB t; if(n.w>=16&&toTB(x,t)){ const Tab&tt=T[t.tab]; int v0=0; for(i64 v:tt.v) if(v&1){ v0=(int)(v&0xffff); break; } 
      if(v0){ int iv=inv16(v0); Tab z; z.nb=tt.nb;z.lo=0;z.w=16; for(i64 v:tt.v) z.v.push_back(sx((i64)(((u64)v*iv)&0xffff),16)); u32 keep; reduceTab(z,keep); TB q; q.tab=mkTab(std::move(z)); applyKeep(t.args,keep,q.args); NID a=fromTB(q); r={(u16)v0,0,a}; } } break; }
  case KOP:
    if(n.w<16) break;
    if(n.op==ADD||n.op==SUB){ LF a=lf(A[n.ap]),b=lf(A[n.ap+1]); int sg=n.op==ADD?1:-1;
      if(a.atom==b.atom||!a.c||!b.c){ r.c=a.c+sg*b.c; r.d=a.d+sg*b.d; r.atom=a.c?a.atom:b.atom; if(!r.c) r.atom=0; } }
    else if(n.op==MUL){ LF a=lf(A[n.ap]),b=lf(A[n.ap+1]); if(!a.c) std::swap(a,b);
      if(!b.c){ r={(u16)(a.c*b.d),(u16)(a.d*b.d),a.atom}; if(!r.c) r.atom=0; }
      else if(!a.d&&!b.d){ Node m=blank(KOP,16); m.op=LFPROD; NID p=a.atom,q=b.atom; if(p>q) std::swap(p,q); NID at=add(std::move(m),{p,q}); r={(u16)(a.c*b.c),0,at}; } }
    else if(n.op==TRUNC||n.op==SEXT) r=lf(A[n.ap]);
    break;
  default: break;
  }
  Node&m=N[x]; m.lfDone=true; m.lfc=r.c; m.lfd=r.d; m.lfa=r.atom; return r;
}
// ---------------------------------------------------------------- residues modulo q
void Dom::tabAffQ(u32 t){ Tab&x=T[t]; if(x.affQDone) return; x.affQDone=true; if(x.nb!=-1) return;
  auto md=[](i64 v){ int m=(int)(v%Q); return m<0?m+Q:m; };
  int v0=md(x.v[0]); int c=x.n>1?(md(x.v[1])-v0+Q)%Q:0; int cur=v0; bool ok=true; for(u32 i=0;i<x.n;i++){ if(md(x.v[i])!=cur){ok=false;break;} cur+=c; if(cur>=Q) cur-=Q; }
  x.affQ=ok; x.aqc=c; x.aqd=(int)(((i64)v0-(i64)c*md(x.lo))%Q); if(x.aqd<0) x.aqd+=Q; }
void Dom::tabQF(u32 t){ Tab&x=T[t]; if(x.qfDone) return; x.qfDone=true; if(x.nb!=-1||x.n<(u32)Q) return;
  std::vector<i64> r(Q); int m=(int)(x.lo%Q); if(m<0)m+=Q; bool ok=true; for(u32 i=0;i<x.n&&ok;i++){ if(i<(u32)Q) r[m]=x.v[i]; else ok=r[m]==x.v[i]; if(++m==Q) m=0; }
  if(ok){ x.qf=true; x.qv=r; H128 h(31); for(i64 v:r) h.add(v); x.qh=h.fin(); } }
Fp Dom::qIndicatorFp(const Fp&base,const std::vector<i64>&qv){
  // linear functional of the table, consistent with  const 1 -> 1  and  identity -> base
  static std::map<std::vector<u16>,std::vector<Fp>> cache; std::vector<u16> k(base.v,base.v+LANES); auto it=cache.find(k);
  if(it==cache.end()){ if(cache.size()>200) cache.clear(); std::vector<Fp> ind(Q); H128 h0(41); for(int i=0;i<LANES;i++) h0.add(base.v[i]); Fp s0=fpConst(0),s1=fpConst(0);
    for(int v=2;v<Q;v++){ H128 h=h0; h.add(v); ind[v]=fpPrf(h.fin()); s0=fpAdd(s0,ind[v]); s1=fpAdd(s1,fpScale(ind[v],v)); }
    ind[1]=fpSub(base,s1); ind[0]=fpSub(fpSub(fpConst(1),s0),ind[1]); it=cache.emplace(k,ind).first; }
  u64 acc[LANES]={}; for(int v=0;v<Q;v++){ i64 m=qv[v]; if(!m) continue; m=m==-1?Q-1:((m%Q)+Q)%Q; const Fp&e=it->second[v]; for(int i=0;i<LANES;i++) acc[i]+=(u32)e.v[i]*(u32)m; } Fp r; for(int i=0;i<LANES;i++) r.v[i]=acc[i]%Q; return r;
}
G Dom::qBitG(const Fp&base,const std::vector<u8>&bits){   // callers pass long-lived tables: everything derived from one is kept
  struct QT { bool any=false; G x; std::shared_ptr<std::vector<i64>> v; }; static std::map<const u8*,QT> known; bool c=bits[0]; auto it=known.find(bits.data());
  if(it==known.end()){ QT q; H128 t(52); q.v=std::make_shared<std::vector<i64>>(); for(int i=0;i<Q;i++){ t.add(bits[i]^c); q.any|=bits[i]^c; q.v->push_back(-(i64)(bits[i]^c)); } q.x=t.fin(); it=known.emplace(bits.data(),q).first; }
  QT&q=it->second; if(!q.any) return c?gone():gzero(); H128 h(51); for(int i=0;i<LANES;i++) h.add(base.v[i]); h.addG(q.x); G r=h.fin(); qBits.emplace(r,std::make_pair(base,c)); auto&tb=qBitTabs[r]; if(!tb) tb=q.v; return c?gxor(r,gone()):r;
}
G Dom::g(NID b){
  if(N[b].gDone) return N[b].g; Node n=N[b]; G r;
  switch(n.k){
  case KCONST: r=(n.c&1)?gone():gzero(); break;
  case KBITX: r=n.id; break;
  case KTABB: { std::vector<G> v; for(i64 y:T[n.tab].v) v.push_back(y&1?gone():gzero()); for(int i=n.an-1;i>=0;i--){ G x=g(A[n.ap+i]); size_t h=v.size()/2; for(size_t j=0;j<h;j++){ G d=gxor(v[j],v[j+h]); v[j]=giszero(d)?v[j]:(d==gone()?gxor(v[j],x):gxor(v[j],gmul(d,x))); } v.resize(h); } r=v[0]; break; }
  case KTABV: { tabQF(n.tab); if(T[n.tab].qf){ Fp f=fp(A[n.ap]); bool c=T[n.tab].qv[0]&1; static std::unordered_map<u32,G> th; auto it=th.find(n.tab); if(it==th.end()){ H128 t(52); for(int i=0;i<Q;i++) t.add((u64)((T[n.tab].qv[i]&1)^c)); it=th.emplace(n.tab,t.fin()).first; }
      H128 h(51); for(int i=0;i<LANES;i++) h.add(f.v[i]); h.addG(it->second); r=h.fin(); if(n.w==1&&qBits.emplace(r,std::make_pair(f,c)).second){ static std::unordered_map<u32,std::shared_ptr<std::vector<i64>>> sh; auto&sp=sh[n.tab]; if(!sp){ sp=std::make_shared<std::vector<i64>>(); for(i64 v:T[n.tab].qv) sp->push_back(-(i64)((v&1)^c)); } qBitTabs[r]=sp; } if(c) r=gxor(r,gone()); }
    else { bool c=T[n.tab].v[0]&1; NID base=A[n.ap]; H128 h(53); if(N[base].k==KATOM) h.addG(N[base].id); else { Fp f=fp(base); for(int i=0;i<LANES;i++) h.add(f.v[i]); h.add(N[base].lo); h.add(N[base].hi); } H128 t(54); for(i64 v:T[n.tab].v) t.add((v&1)^c); h.addG(t.fin()); r=h.fin(); if(c) r=gxor(r,gone()); }
    break; }
  default: { H128 h(55); h.add(b); r=h.fin(); }
  }
  N[b].g=r; N[b].gDone=true; return r;
}
Fp Dom::fp(NID x){
  if(N[x].fpDone) return N[x].fp; Node n=N[x]; Fp r; auto prf=[&](u64 tag){ H128 h(tag); h.add(x); return fpPrf(h.fin()); };
  switch(n.k){
  case KCONST: r=fpConst(n.c); break;
  case KATOM: if(n.op==1){ r=fpPrf(n.id); break; } else { r=fpConst(0); i64 c=1; for(int i=0;i<n.w;i++){ Fp v=fpSub(fpConst(0),fp(bit(x,i))); if(i==n.w-1) v=fpSub(fpConst(0),v); r=fpAdd(r,fpScale(v,c)); c=c*2%Q; } break; }
  case KBITX: { auto q=qBits.find(n.id); bool cm=false; if(q==qBits.end()){ q=qBits.find(gxor(n.id,gone())); cm=true; }
      if(q!=qBits.end()){ r=qIndicatorFp(q->second.first,*qBitTabs[q->first]); if(cm) r=fpSub(fpConst(-1),r); break; }
      H128 h(61); h.addG(n.id); r=fpSub(fpConst(0),fpPrf(h.fin())); break; } // signed 1-bit value: 0 or -1
  case KTABB: { size_t sz=T[n.tab].v.size(); std::vector<Fp> v(sz); for(size_t i=0;i<sz;i++) v[i]=fpConst(T[n.tab].v[i]);
    for(int i=n.an-1;i>=0;i--){ Fp a=fpSub(fpConst(0),fp(A[n.ap+i])); size_t h=v.size()/2; for(size_t j=0;j<h;j++) v[j]=fpAdd(v[j],fpMul(fpSub(v[j+h],v[j]),a)); v.resize(h); } r=v[0]; break; }
  case KTABV: { tabAffQ(n.tab); NID base=A[n.ap]; if(T[n.tab].affQ){ r=fpAdd(fpScale(fp(base),T[n.tab].aqc),fpConst(T[n.tab].aqd)); break; }
    tabQF(n.tab);
    { auto it=shiftSrc.find(x); if(it!=shiftSrc.end()){ NID y=it->second; LF b=lf(y); Fp L; if(!b.c) L=fpConst(b.d); else { H128 h(71); h.add(b.c); h.add(b.d); h.add(b.atom); L=fpPrf(h.fin()); } r=fpScale(fpSub(fp(y),L),INV2_16); break; }
      it=castSrc.find(x); if(it!=castSrc.end()){ r=fp(it->second); break; } }
    if(T[n.tab].qf){ r=qIndicatorFp(fp(base),T[n.tab].qv); break; }
    r=prf(62); break; }
  case KCAT: { TB t; if(toTB(x,t)){ NID y=fromTB(t); if(y!=x){ r=fp(y); break; } }
    if(n.w==1){ H128 h(61); h.addG(g(x)); r=fpSub(fpConst(0),fpPrf(h.fin())); break; }
    r=fpConst(0); i64 c=1; for(int i=0;i<n.w;i++){ Fp b=fpSub(fpConst(0),fp(bit(x,i))); if(i==n.w-1) b=fpSub(fpConst(0),b); r=fpAdd(r,fpScale(b,c)); c=c*2%Q; } break; }
  case KOP:
    if(n.wrap&&n.op!=OPAQUE){ r=prf(63); break; }
    switch(n.op){
    case ADD: r=fpAdd(fp(A[n.ap]),fp(A[n.ap+1])); break;
    case SUB: r=fpSub(fp(A[n.ap]),fp(A[n.ap+1])); break;
    case MUL: r=fpMul(fp(A[n.ap]),fp(A[n.ap+1])); break;
    case TRUNC: case SEXT: r=fp(A[n.ap]); break;
    case ASHR: { NID k=A[n.ap+1]; NID y=A[n.ap]; if(N[k].c==16){ LF b=lf(y); Fp L; if(!b.c) L=fpConst(b.d); else { H128 h(71); h.add(b.c); h.add(b.d); h.add(b.atom); L=fpPrf(h.fin()); } r=fpScale(fpSub(fp(y),L),INV2_16); } else r=prf(64); break; }
    case SELECT: { Fp c=fpSub(fpConst(0),fp(A[n.ap])); Fp a=fp(A[n.ap+1]),b=fp(A[n.ap+2]); r=fpAdd(b,fpMul(c,fpSub(a,b))); break; }
    case OPAQUE: { // deterministic in the fingerprints of its arguments
      r=prf(65); break; }
    default: r=prf(66);
    } break;
  default: r=prf(67);
  }
  N[x].fp=r; N[x].fpDone=true; return r;
}
std::string Dom::show(NID x,int d){
  const Node&n=N[x]; char b[200]; switch(n.k){
  case KCONST: snprintf(b,200,"%lld",(long long)n.c); return b;
  case KUNINIT: return "uninit";
  case KATOM: snprintf(b,200,"atom%u:%d%s",x,n.w,n.op?"i":"b"); return b;
  case KBITX: snprintf(b,200,"bit%u",x); return b;
  case KPTR: snprintf(b,200,"&r%lld+",(long long)n.c); return b+show(A[n.ap],d-1);
  default: break; }
  if(d<=0){ snprintf(b,200,"n%u",x); return b; }
  std::string s; if(n.k==KTABB){ snprintf(b,200,"tabB%u/%d(",n.tab,n.an); s=b; for(u32 i=0;i<n.an;i++) s+=show(A[n.ap+i],d-1)+","; s+=")"; }
  else if(n.k==KTABV){ snprintf(b,200,"tabV%u(",n.tab); s=b+show(A[n.ap],d-1)+")"; }
  else if(n.k==KCAT){ s="cat{"; for(auto&t:slices(x)){ snprintf(b,200,"[%d+%d]",t.off,t.len); s+=show(t.n,d-1)+b+" "; } s+="}"; }
  else { s=std::string(opName[n.op])+"("; for(u32 i=0;i<n.an;i++) s+=show(A[n.ap+i],d-1)+","; s+=")"; }
  snprintf(b,200,":%d[%lld,%lld]",n.w,(long long)n.lo,(long long)n.hi); return s+b;
}
NID Dom::withRange(NID x,i64 lo,i64 hi){
  const Node&n=N[x]; if(n.lo>=lo&&n.hi<=hi) return x; i64 l=std::max(lo,n.lo),h=std::min(hi,n.hi);
  Node m=blank(KOP,n.w); m.op=NOP; m.secret=n.secret; m.lo=l;m.hi=h; m.c=l*1000003+h; return add(std::move(m),{x});
}
