// Rejection sampling: counters over an XOF stream as an abstract domain.
//
// Stream s is the output of one XOF instance.  Its j-th candidate is the j-th little-endian group of 12 bits,
// A(s,j) says that candidate j is below q, and M(s,n) = min(256, A(s,0)+...+A(s,n-1)).
// Counters of the analysed code are kept as linear forms over M and A (the relational part of the domain); a path
// carries intervals for some M(s,n) and known values of some A(s,j).  A write of candidate j at element index
// M(s,j) of an array extends the array's summary "holds the accepted values among the first `upto` candidates".
#include "interp.hpp"
#include <algorithm>
G matId(G stream,int k);
typedef std::pair<u32,int> SK;
void Interp::registerStream(G id,u64 off,const std::vector<NID>&b,bool secret){
  auto key=std::make_pair(id.a,id.b); auto it=streamOf.find(key); u32 s;
  if(it==streamOf.end()){ s=streams.size(); streams.push_back(Stream{id,secret,{},{},{},{},{}}); streamOf[key]=s; } else s=it->second;
  S.split.clear(); if(off>168*40){ stop("rejection sampling not recognised"); return; }
  Stream&T=streams[s]; if(off>T.bytes.size()) return;
  for(size_t i=0;i<b.size();i++) if(off+i==T.bytes.size()){ D.N[b[i]].strm=true; byteOf[b[i]]={s,(int)T.bytes.size()}; T.bytes.push_back(b[i]); }
  while(true){ int j=T.cand.size(); size_t bit=12ULL*j; if((bit+11)/8>=T.bytes.size()) break; NID b0=T.bytes[bit/8],b1=T.bytes[bit/8+1];
    NID c12=bit%8==0?D.concat({b0,D.extract(b1,0,4)}):D.concat({D.extract(b0,4,4),b1}); NID c16=D.zext(c12,16);
    NID raw=D.icmpUlt(c16,D.mkConst(Q,16)); H128 h(130); h.addG(id); h.add(j); NID A=D.mkBitX(h.fin(),secret); D.N[A].smp=true;
    D.alias[raw]=A; T.cand.push_back(c16); T.raw.push_back(raw); T.A.push_back(A); candOf[c16]={s,j}; accOf[A]={s,j}; rawOf[raw]={s,j}; nCandidates++; }
}
NID Interp::msym(u32 s,int n){
  if(n<=0) return D.mkConst(0,32); auto it=streams[s].M.find(n); if(it!=streams[s].M.end()) return it->second;
  H128 h(131); h.addG(streams[s].id); h.add(n); NID x=D.mkAtomInt(h.fin(),32,0,std::min(n,256),streams[s].secret); D.N[x].smp=true; symOf[x]={s,n}; return streams[s].M[n]=x;
}
int Interp::accKnown(const State&S,u32 s,int j){ for(auto&f:S.af) if(f.s==s&&f.j==j) return f.v?1:0; return -1; }
static void mRange0(const State&S,u32 s,int n,i64&lo,i64&hi){
  lo=0; hi=std::min(n,256);
  for(auto&f:S.mf) if(f.s==s){ if(f.n<=n){ lo=std::max(lo,f.lo); hi=std::min(hi,f.hi+(n-f.n)); } if(f.n>=n){ hi=std::min(hi,f.hi); lo=std::max(lo,f.lo-(f.n-n)); } }
}
void Interp::mRange(const State&S,u32 s,int n,i64&lo,i64&hi){
  mRange0(S,s,n,lo,hi); if(S.af.empty()) return;
  i64 l,h; int c=0; for(int k=n-1;k>=0;k--){ int v=accKnown(S,s,k); if(v<0) break; c+=v; mRange0(S,s,k,l,h); lo=std::max(lo,std::min<i64>(256,l+c)); hi=std::min(hi,h+c); }
  c=0; for(int k=n;;k++){ int v=accKnown(S,s,k); if(v<0) break; c+=v; mRange0(S,s,k+1,l,h); if(h<256){ hi=std::min(hi,h-c); } lo=std::max(lo,l-c); }
}
// x == L (mod 2^width(x)); where a widening is crossed the value is shown to be in range first
bool Interp::lin(NID x,Lin&L){
  const Node n=D.N[x]; L=Lin();
  if(n.k==KCONST){ L.c=n.c; return true; }
  if(!n.smp&&!n.strm) return false;
  auto sy=symOf.find(x); if(sy!=symOf.end()){ L.m[sy->second]=1; return true; }
  if(n.w==1){ auto ia=accOf.find(x); if(ia==accOf.end()) return false; L.a[ia->second]=1; return true; }
  auto scale=[&](Lin&l,i64 k){ l.c*=k; if(k==0){ l.m.clear(); l.a.clear(); return; } for(auto&t:l.m) t.second*=k; for(auto&t:l.a) t.second*=k; };
  auto addl=[&](Lin&l,const Lin&o,i64 k){ l.c+=k*o.c; for(auto&t:o.m) l.addTo(l.m,t.first,k*t.second); for(auto&t:o.a) l.addTo(l.a,t.first,k*t.second); };
  auto inRange=[&](const Lin&l,i64 a,i64 b){ i64 lo,hi; Lin t=l; absorb(t); return linRange(t,lo,hi)&&lo>=a&&hi<=b; };
  switch(n.k){
  case KTABV: { NID base=D.A[n.ap]; Lin B; if(!lin(base,B)) return false; i64 lo=D.N[base].lo,hi=D.N[base].hi,l2,h2; Lin t=B; absorb(t); if(linRange(t,l2,h2)){ lo=std::max(lo,l2); hi=std::min(hi,h2); } if(hi<lo) return false;
      const Tab&T=D.T[n.tab]; auto at=[&](i64 v){ return T.v[v-T.lo]; }; i64 g=0; for(auto&t:B.m) g=std::__gcd(g,t.second<0?-t.second:t.second); for(auto&t:B.a) g=std::__gcd(g,t.second<0?-t.second:t.second); if(!g) return false;
      // affine on the values the linear form can take (its residue class modulo g)
      i64 v0=lo+(((B.c-lo)%g)+g)%g; if(v0>hi) return false; i64 k=v0+g<=hi?at(v0+g)-at(v0):0; for(i64 v=v0,e=at(v0);v<=hi;v+=g,e+=k) if(at(v)!=e) return false;
      L=B; L.c=at(v0)+(B.c-v0)/g*k; for(auto&t:L.m) t.second=t.second/g*k; for(auto&t:L.a) t.second=t.second/g*k; if(!k){ L.m.clear(); L.a.clear(); } return true; }
  case KTABB: { const Tab&T=D.T[n.tab]; int nb=n.an; std::vector<NID> ar(D.A.begin()+n.ap,D.A.begin()+n.ap+n.an);
      // a two-valued function of one candidate's acceptance
      if(nb==12&&!n.smp){ for(auto&s:streams){ (void)s; break; } auto b0=ar[0]; (void)b0; for(size_t s=streams.size();s-->0;){ auto&R=streams[s].raw; for(size_t j=R.size();j-->0;){ const Node&r=D.N[R[j]]; if(r.k!=KTABB||r.an!=12||D.A[r.ap]!=ar[0]) continue; if(!std::equal(ar.begin(),ar.end(),D.A.begin()+r.ap)) continue;
              const Tab&RT=D.T[r.tab]; i64 v[2]; bool h[2]={false,false},ok=true; for(size_t i=0;i<T.v.size()&&ok;i++){ int b=RT.v[i]&1; if(!h[b]){ h[b]=true; v[b]=T.v[i]; } else ok=v[b]==T.v[i]; } if(!ok||!h[0]||!h[1]) return false; L.c=v[0]; L.a[SK((u32)s,(int)j)]=v[1]-v[0]; if(v[1]==v[0]) L.a.clear(); return true; } } return false; }
      // counters compared: leaves decided on this path, M-conditions on the counter of the same candidate
      u32 fixed=0,val=0; std::vector<int> fr; for(int i=0;i<nb;i++){ NID r=restrict(ar[i]); if(D.isConst(r)){ fixed|=1u<<i; if(D.cval(r)&1) val|=1u<<i; } else fr.push_back(i); }
      if(fr.size()==2){ // A(j) and "M(j) < 256": exactly the saturating increment
        for(int o=0;o<2;o++){ auto ia=accOf.find(ar[fr[o]]); NID c=ar[fr[1-o]]; if(ia==accOf.end()) continue; if(D.N[c].k!=KTABV) continue; auto is=symOf.find(D.A[D.N[c].ap]); if(is==symOf.end()||is->second!=ia->second) continue; const Tab&C=D.T[D.N[c].tab]; bool lt=true; for(u32 i=0;i<C.n;i++) if(((C.v[i]&1)!=0)!=((i64)i+C.lo<256)) lt=false; if(!lt) continue;
          i64 v00=T.v[val],v11=T.v[val|1u<<fr[0]|1u<<fr[1]],v10=T.v[val|1u<<fr[o]],v01=T.v[val|1u<<fr[1-o]]; if(v00!=v10||v00!=v01) continue; L.c=v00; SK k=ia->second; if(v11!=v00){ L.addTo(L.m,SK(k.first,k.second+1),v11-v00); if(k.second>0) L.addTo(L.m,k,-(v11-v00)); } return true; } }
      if(fr.size()>12) return false; i64 b=T.v[val]; std::vector<i64> d; for(int i:fr){ if(!accOf.count(ar[i])) return false; d.push_back(T.v[val|1u<<i]-b); }
      for(u32 m=0;m<(1u<<fr.size());m++){ u32 ix=val; i64 e=b; for(size_t i=0;i<fr.size();i++) if(m>>i&1){ ix|=1u<<fr[i]; e+=d[i]; } if(T.v[ix]!=e) return false; }
      L.c=b; for(size_t i=0;i<fr.size();i++) if(d[i]) L.addTo(L.a,accOf[ar[fr[i]]],d[i]); return true; }
  case KCAT: { auto s=D.slices(x); int pos=0; NID src=0; int len=0,sh=0; for(auto&t:s){ if(D.N[t.n].k==KCONST){ if(D.N[t.n].c!=0) return false; } else { if(src||t.off) return false; src=t.n; len=t.len; sh=pos; } pos+=t.len; } if(!src||sh+len>62) return false;
      if(!lin(src,L)) return false; if(!inRange(L,0,(1LL<<len)-1)) return false; scale(L,1LL<<sh); return true; }
  case KOP: {
      if(n.op==ADD||n.op==SUB){ Lin a,b; if(!lin(D.A[n.ap],a)||!lin(D.A[n.ap+1],b)) return false; L=a; addl(L,b,n.op==ADD?1:-1); return true; }
      if(n.op==MUL){ Lin a,b; if(!lin(D.A[n.ap],a)||!lin(D.A[n.ap+1],b)) return false; if(!a.m.empty()||!a.a.empty()) std::swap(a,b); if(!a.m.empty()||!a.a.empty()) return false; L=b; scale(L,a.c); return true; }
      if(n.op==SEXT){ NID y=D.A[n.ap]; if(!lin(y,L)) return false; return inRange(L,imin(D.w(y)),imax(D.w(y))); }
      if(n.op==TRUNC||n.op==NOP) return lin(D.A[n.ap],L);
      if(n.op==SELECT){ NID c=restrict(D.A[n.ap]); if(D.isConst(c)) return lin(D.A[n.ap+(D.cval(c)&1?1:2)],L); auto ia=accOf.find(c); if(ia==accOf.end()) return false; Lin a,b; if(!lin(D.A[n.ap+1],a)||!lin(D.A[n.ap+2],b)) return false; Lin d=a; addl(d,b,-1); absorb(d); if(!d.m.empty()||!d.a.empty()) return false; L=b; if(d.c) L.addTo(L.a,ia->second,d.c); return true; }
      return false; }
  default: return false; }
}
void Interp::absorb(Lin&L){
  for(auto it=L.a.begin();it!=L.a.end();){ int v=accKnown(S,it->first.first,it->first.second); if(v<0){ ++it; continue; } if(v) L.c+=it->second; it=L.a.erase(it); }
  for(auto it=L.a.begin();it!=L.a.end();){ SK k=it->first; i64 lo,hi; mRange(S,k.first,k.second,lo,hi); if(hi>255){ ++it; continue; } i64 v=it->second; L.addTo(L.m,SK(k.first,k.second+1),v); if(k.second>0) L.addTo(L.m,k,-v); it=L.a.erase(it); }
  // the counter after the candidates already decided on this path
  for(bool ch=true;ch&&!S.af.empty();){ ch=false; for(auto&t:L.m){ SK k=t.first; int v=accKnown(S,k.first,k.second); if(v<0) continue; if(v==1){ i64 lo,hi; mRange(S,k.first,k.second,lo,hi); if(hi>255) continue; } i64 co=t.second; L.m.erase(k); L.addTo(L.m,SK(k.first,k.second+1),co); if(v==1) L.c-=co; ch=true; break; } }
  // counters that are known on this path
  for(auto it=L.m.begin();it!=L.m.end();){ i64 lo,hi; mRange(S,it->first.first,it->first.second,lo,hi); if(lo==hi){ L.c+=lo*it->second; it=L.m.erase(it); } else ++it; }
}
bool Interp::linRange(const Lin&L,i64&lo,i64&hi){
  lo=hi=L.c; for(auto&t:L.a){ if(t.second>0) hi+=t.second; else lo+=t.second; }
  if(L.m.size()==2){ auto a=L.m.begin(),b=std::next(a); if(a->first.first==b->first.first&&a->second==-b->second){ i64 k=b->second,l1,h1,l2,h2; mRange(S,a->first.first,a->first.second,l1,h1); mRange(S,b->first.first,b->first.second,l2,h2); int n1=0,n0=0; for(auto&f:S.af) if(f.s==a->first.first&&f.j>=a->first.second&&f.j<b->first.second){ if(f.v) n1++; else n0++; } i64 dl=std::max<i64>(std::max<i64>(0,h2<256?n1:std::min<i64>(n1,256-h1)),l2-h1),dh=std::min<i64>(b->first.second-a->first.second-n0,h2-l1); if(dh<dl) dh=dl; lo+=k>0?k*dl:k*dh; hi+=k>0?k*dh:k*dl; return true; } }
  for(auto&t:L.m){ i64 l,h; mRange(S,t.first.first,t.first.second,l,h); lo+=t.second>0?t.second*l:t.second*h; hi+=t.second>0?t.second*h:t.second*l; } return true;
}
NID Interp::unlin(const Lin&L,int w){
  NID r=0; auto wd=[&](NID x){ return w==32?x:w>32?D.zext(x,w):D.trunc(x,w); };
  for(auto&t:L.m){ NID x=wd(msym(t.first.first,t.first.second)); if(t.second!=1) x=D.bin(MUL,x,D.mkConst(t.second,w)); r=r?D.bin(ADD,r,x):x; }
  if(!r) return D.mkConst(L.c,w); if(L.c) r=D.bin(ADD,r,D.mkConst(L.c,w)); return r;
}
NID Interp::canon(NID x){
  const Node&n=D.N[x]; if(!n.smp) return x; if(n.k==KPTR){ int rg=(int)n.c; NID o=D.A[n.ap],c=canon(o); return c==o?x:D.mkPtr(rg,c); }
  if(n.w==1) return restrict(x); if(n.w<16) return x;
  if(symOf.count(x)&&S.mf.empty()&&S.af.empty()) return x;
  Lin L; if(!lin(x,L)||(L.m.empty()&&L.a.empty())) return x; absorb(L); if(L.m.empty()&&!L.a.empty()) return x; if(!L.a.empty()||L.m.size()>2) return x;
  if(D.w(x)<32){ i64 lo,hi; linRange(L,lo,hi); if(lo<imin(D.w(x))||hi>imax(D.w(x))) return x; }
  return unlin(L,D.w(x));
}
NID Interp::scmp(int pred,NID a,NID b){
  if(!D.N[a].smp&&!D.N[b].smp) return 0; if(D.w(a)==1||D.N[a].k==KPTR||D.N[b].k==KPTR) { if(D.N[a].k==KPTR&&D.N[b].k==KPTR&&D.N[a].c==D.N[b].c) return scmp(pred,D.arg(a,0),D.arg(b,0)); return 0; }
  Lin x,y; if(!lin(a,x)||!lin(b,y)) return 0; absorb(x); absorb(y); int w=D.w(a); i64 l,h,l2,h2; linRange(x,l,h); linRange(y,l2,h2);
  bool sg=l>=imin(w)&&h<=imax(w)&&l2>=imin(w)&&h2<=imax(w),us=l>=0&&l2>=0&&sg; if(pred==2?!sg:!us&&!(pred==0&&sg)) return 0;
  Lin d=x; d.c-=y.c; for(auto&t:y.m) d.addTo(d.m,t.first,-t.second); for(auto&t:y.a) d.addTo(d.a,t.first,-t.second); absorb(d); linRange(d,l,h);
  if(pred==0){ if(l>0||h<0) return D.mkConst(0,1); if(l==0&&h==0) return D.mkConst(1,1); } else { if(h<0) return D.mkConst(1,1); if(l>=0) return D.mkConst(0,1); }
  auto tr=[&](i64 v){ return pred==0?v==0:v<0; };
  if(d.a.empty()&&d.m.size()==1){ SK k=d.m.begin()->first; i64 c=d.m.begin()->second; return restrict(D.mapTab(msym(k.first,k.second),1,[&](i64 v)->i64{ return tr(c*v+d.c)?-1:0; })); }
  if(d.a.empty()&&d.m.size()>1&&d.m.size()<=8&&(h==0||(pred==0&&l==0))){ // the extreme of a sum is reached exactly when every counter is at its own extreme
    NID all=D.mkConst(1,1); for(auto&t:d.m){ SK k=t.first; i64 a,b; mRange(S,k.first,k.second,a,b); i64 e=(t.second>0)==(h==0)?b:a; all=D.band(all,D.mapTab(msym(k.first,k.second),1,[&](i64 v)->i64{ return v==e?-1:0; })); } i64 s=d.c; for(auto&t:d.m){ i64 a,b; mRange(S,t.first.first,t.first.second,a,b); s+=t.second*((t.second>0)==(h==0)?b:a); } if(s==0) return restrict(pred==0?all:D.bnot(all)); }
  if(d.m.empty()&&d.a.size()==1){ SK k=d.a.begin()->first; bool t1=tr(d.c+d.a.begin()->second),t0=tr(d.c); NID A=streams[k.first].A[k.second]; return t1==t0?D.mkConst(t1,1):t1?A:D.bnot(A); }
  return 0;
}
// the condition under what this path knows
NID Interp::restrict(NID c){
  const Node n=D.N[c]; if(!n.smp||n.k==KCONST||n.w!=1) return c;
  auto ia=accOf.find(c); if(ia!=accOf.end()){ int v=accKnown(S,ia->second.first,ia->second.second); return v<0?c:D.mkConst(v,1); }
  if(n.k==KOP&&n.op==OPAQUE&&n.an==2){ static G tag[3]; static bool init=false; if(!init){ const char*t[3]={"eq","ult","slt"}; for(int i=0;i<3;i++){ H128 h(5); h.adds(t[i]); tag[i]=h.fin(); } init=true; } // two counters compared
    for(int i=0;i<3;i++) if(n.id==tag[i]){ NID r=scmp(i,D.A[n.ap],D.A[n.ap+1]); return r?r:c; } return c; }
  if(n.k==KTABV){ auto is=symOf.find(D.A[n.ap]); if(is==symOf.end()){ Lin L; if(lin(D.A[n.ap],L)){ absorb(L); i64 l,h; linRange(L,l,h); const Tab&T=D.T[n.tab]; l=std::max(l,T.lo); h=std::min(h,T.lo+(i64)T.n-1); bool f=true; for(i64 v=l;v<=h&&f;v++) f=T.v[v-T.lo]==T.v[l-T.lo]; if(f&&l<=h) return D.mkConst(T.v[l-T.lo],1); if(L.a.empty()&&L.m.size()==1){ SK k=L.m.begin()->first; i64 cc=L.m.begin()->second,c0=L.c; return restrict(D.mapTab(msym(k.first,k.second),1,[&](i64 v)->i64{ i64 x=cc*v+c0; return x>=T.lo&&x<T.lo+(i64)T.n?T.v[x-T.lo]:0; })); } } return c; }
    i64 lo,hi; mRange(S,is->second.first,is->second.second,lo,hi); const Tab&T=D.T[n.tab]; lo=std::max(lo,T.lo); hi=std::min(hi,T.lo+(i64)T.n-1); bool f=true; for(i64 v=lo;v<=hi&&f;v++) f=T.v[v-T.lo]==T.v[lo-T.lo]; return f&&lo<=hi?D.mkConst(T.v[lo-T.lo],1):c; }
  if(n.k==KTABB){ std::vector<NID> ar(D.A.begin()+n.ap,D.A.begin()+n.ap+n.an); u32 fix=0,val=0; for(size_t i=0;i<ar.size();i++){ NID r=restrict(ar[i]); if(D.isConst(r)){ fix|=1u<<i; if(D.cval(r)&1) val|=1u<<i; } } if(!fix) return c;
    Dom::TB t; t.tab=n.tab; t.args=ar; NID r=c; for(size_t i=0;i<ar.size();i++) if(fix>>i&1){ // cofactor
      Dom::TB q; if(!D.toTB(r,q)) break; size_t p=std::find(q.args.begin(),q.args.end(),ar[i])-q.args.begin(); if(p==q.args.size()) continue; Tab z; const Tab&T=D.T[q.tab]; z.nb=T.nb-1; z.w=1; z.lo=0; for(size_t m=0;m<T.v.size();m++) if(((m>>p)&1)==(val>>i&1)) z.v.push_back(T.v[m]); q.args.erase(q.args.begin()+p); q.tab=D.mkTab(std::move(z)); Dom::TB one=D.tbBin(XOR,q,D.tbConst(0,1),1); r=D.fromTB(one); } return r; }
  return c;
}
// an undecided sampler fact on which c depends
bool Interp::leaf(NID c,NID&l){
  const Node n=D.N[c]; if(accOf.count(c)){ l=c; return true; } if(n.k==KTABV&&symOf.count(D.A[n.ap])){ l=c; return true; }
  if(n.k==KTABB) for(u32 i=0;i<n.an;i++) if(leaf(D.A[n.ap+i],l)) return true; return false;
}
static void countersOf(Interp&I,NID c,std::set<NID>&seen,std::vector<NID>&out){ if(!seen.insert(c).second||!D.N[c].smp||seen.size()>200) return; if(I.symOf.count(c)){ out.push_back(c); return; } const Node n=D.N[c]; if(n.k==KATOM||n.k==KCONST) return; for(u32 i=0;i<n.an;i++) countersOf(I,D.A[n.ap+i],seen,out); }
bool Interp::dependsOnCounter(NID c){ std::set<NID> s; std::vector<NID> v; countersOf(*this,c,s,v); return !v.empty(); }
// c compares counters with each other: whether one of the arrays is full
bool Interp::fullLeaf(NID c,NID&l){
  std::set<NID> s; std::vector<NID> v; if(D.N[c].strm) return false; countersOf(*this,c,s,v);
  for(NID a:v){ SK k=symOf[a]; i64 lo,hi; mRange(S,k.first,k.second,lo,hi); if(lo>=256||hi<256) continue; l=D.mapTab(a,1,[](i64 x)->i64{ return x>=256?-1:0; }); if(!D.isConst(l)) return true; }
  return false;
}
bool Interp::addFact(State&T,NID l,bool v){
  auto ia=accOf.find(l); if(ia!=accOf.end()){ int k=accKnown(T,ia->second.first,ia->second.second); if(k>=0) return k==(v?1:0); T.af.push_back({ia->second.first,ia->second.second,v}); return true; }
  const Node&n=D.N[l]; SK k=symOf[D.A[n.ap]]; i64 lo,hi; mRange(T,k.first,k.second,lo,hi); const Tab&t=D.T[n.tab]; i64 l2=INT64_MAX,h2=INT64_MIN; for(i64 x=std::max(lo,t.lo);x<=hi&&x<t.lo+(i64)t.n;x++) if(((t.v[x-t.lo]&1)!=0)==v){ l2=std::min(l2,x); h2=std::max(h2,x); }
  if(l2>h2) return false; std::vector<MFact> keep; for(auto&f:T.mf){ if(f.s!=k.first){ keep.push_back(f); continue; } bool hiNeeded=f.n<=k.second?f.hi<h2-0&&f.hi+(k.second-f.n)<h2:true; bool loNeeded=f.n<=k.second?f.lo>0:f.lo-(f.n-k.second)>l2; if(f.n<k.second&&f.hi<std::min<i64>(f.n,256)&&f.hi>=h2) hiNeeded=false; if(f.n==k.second) continue; if(f.n<k.second&&f.lo<=l2-(0)&&f.lo<=std::max<i64>(0,l2-(k.second-f.n))) loNeeded=false; if(hiNeeded||loNeeded) keep.push_back(f); }
  keep.push_back({k.first,k.second,l2,h2}); T.mf=keep; return true;
}
// advance the summaries by what the path knows; fill in arrays that are complete
void Interp::settle(State&T){
  for(auto&m:T.sm){ if(m.complete) continue;
    while(accKnown(T,m.s,m.upto)==0) m.upto++;
    i64 lo,hi; mRange(T,m.s,m.upto,lo,hi); if(lo!=256) continue;
    if(!T.r[m.reg]){ continue; }
    m.complete=true; State sv; std::swap(S.r,T.r); Region&r=rw(m.reg); for(int k=0;k<256;k++) storeCells(r,m.base+2*k,D.mkAtomInt(matId(streams[m.s].id,k),16,0,Q-1,streams[m.s].secret)); std::swap(S.r,T.r); }
}
void Interp::plainWrite(int reg,i64 off,i64 len){
  for(size_t i=0;i<S.sm.size();){ auto&m=S.sm[i]; if(m.reg==reg&&(off<0||(off<m.base+512&&off+len>m.base))){ S.sm.erase(S.sm.begin()+i); } else i++; }
}
bool Interp::samplerStore(NID p,const std::vector<NID>&b){
  if(!trackStreams||b.size()%2) return false; NID o=D.arg(p,0); int reg=(int)D.N[p].c; Lin L; bool isC=D.isConst(o);
  bool any=false; for(NID x:b) any|=D.N[x].strm||D.N[x].smp; if(!any) return false;
  // which candidates does the value hold?
  u32 s=0; int j=-1,cnt=0;
  if(b.size()==2){ NID v=D.concat({b[0],b[1]}); auto it=candOf.find(v); if(it!=candOf.end()){ s=it->second.first; j=it->second.second; cnt=1; } }
  else if(b.size()==16){ // eight lanes compacted through a byte shuffle whose selector depends on acceptance bits
    bool ok=true; std::vector<NID> args,src; static H128 hb(5); H128 hh(5); hh.adds("shufb"); G tag=hh.fin(); for(int i=0;i<16&&ok;i++){ const Node&n=D.N[b[i]]; ok=n.k==KOP&&n.op==OPAQUE&&n.id==tag&&n.an==17; if(!ok) break; std::vector<NID> sr(D.A.begin()+n.ap+1,D.A.begin()+n.ap+17); if(src.empty()) src=sr; else ok=src==sr; Dom::TB t; if(!ok||!D.toTB(D.A[n.ap],t)){ ok=false; break; } for(NID a:t.args) if(std::find(args.begin(),args.end(),a)==args.end()) args.push_back(a); }
    if(ok&&args.size()<=8&&!args.empty()){ std::vector<std::pair<SK,NID>> as; for(NID a:args){ auto it=accOf.find(a); if(it==accOf.end()){ ok=false; break; } as.push_back({it->second,a}); } if(ok){ std::sort(as.begin(),as.end()); s=as[0].first.first; j=as[0].first.second; cnt=as.size(); for(int i=0;i<cnt&&ok;i++) ok=as[i].first==SK(s,j+i);
        for(u32 m=0;m<(1u<<cnt)&&ok;m++){ int lane=0; auto sel=[&](int byte)->i64{ Dom::TB t; D.toTB(D.A[D.N[b[byte]].ap],t); u32 ix=0; for(size_t q=0;q<t.args.size();q++) for(int z=0;z<cnt;z++) if(as[z].second==t.args[q]&&(m>>z&1)) ix|=1u<<q; return zx(D.T[t.tab].v[ix],8); };
          for(int z=0;z<cnt&&ok;z++) if(m>>z&1){ NID c=streams[s].cand[j+z]; for(int h=0;h<2&&ok;h++){ i64 k=sel(2*lane+h); NID got=k&0x80?D.mkConst(0,8):src[k&15]; ok=got==D.extract(c,8*h,8); } lane++; } }
        if(!ok) ev("sampler-compaction","vector compaction of accepted candidates selects the wrong lanes"); } }
    if(!ok) cnt=0; }
  if(isC){ // constant index: an ordinary store, which may also start a sampled array (candidate 0 at element 0)
    bool first=cnt>0; for(int i=0;i<j&&first;i++) first=accKnown(S,s,i)==0; if(first&&j>0) for(auto&m:S.sm) if(m.reg==reg&&m.s==s&&m.base==D.cval(o)) first=false;
    if(first){ i64 base=D.cval(o); if(base+512<=(i64)ro(reg).c.size()){ plainWrite(reg,base,2); std::vector<SMeta> k; for(auto&m:S.sm) if(!(m.reg==reg&&m.base<base+512&&base<m.base+512)) k.push_back(m); S.sm=k; S.sm.push_back({reg,base,s,j+cnt,false,cnt>1}); nSamplerStores++; Region&r=rw(reg); r.written=true; if(cnt>1) for(int q=0;q<512;q++) r.c[base+q]={0,0}; else storeCells(r,base,D.concat({b[0],b[1]})); return true; } }
    // a later candidate may also be forced to a known position
    bool under=false; for(auto&m:S.sm) under|=m.reg==reg&&!m.complete&&cnt&&m.s==s&&D.cval(o)>=m.base&&D.cval(o)<m.base+512; if(!under) return false; }
  if(!cnt){ ev("sampler-store","value stored at a rejection-sampling position is not the next 12-bit candidate of the stream"); stop("rejection sampling not recognised"); return true; }

  if(getenv("KYAN_DEBUG")){ fprintf(stderr,"SS j %d off %s facts",j,D.show(o,5).c_str()); for(auto&f:S.mf) fprintf(stderr," M(%u,%d)in[%lld,%lld]",f.s,f.n,(long long)f.lo,(long long)f.hi); for(auto&f:S.af) fprintf(stderr," A(%u,%d)=%d",f.s,f.j,f.v); for(auto&x:S.sm) fprintf(stderr," meta reg %d base %lld s %u upto %d c %d",x.reg,(long long)x.base,x.s,x.upto,x.complete); fprintf(stderr,"\n"); }
  if(!lin(o,L)){ ev("sampler-store","accepted value stored at a position that is not the number of accepted candidates so far"); stop("rejection sampling not recognised"); return true; }
  settle(S); SMeta*m=0; for(auto&x:S.sm) if(x.reg==reg&&!x.complete&&x.s==s) { // expected offset: base + 2*M(s,j)
    Lin d=L; d.c-=x.base; if(j>0) d.addTo(d.m,SK(s,j),-2); absorb(d); i64 lo,hi; linRange(d,lo,hi); if(d.m.empty()&&d.a.empty()&&d.c==0){ m=&x; break; } }
  if(!m&&getenv("KYAN_DEBUG")){ fprintf(stderr,"store j %d off %s facts",j,D.show(o,3).c_str()); for(auto&f:S.mf) fprintf(stderr," M(%u,%d)in[%lld,%lld]",f.s,f.n,(long long)f.lo,(long long)f.hi); for(auto&f:S.af) fprintf(stderr," A(%u,%d)=%d",f.s,f.j,f.v); for(auto&x:S.sm) fprintf(stderr," meta reg %d base %lld s %u upto %d c %d",x.reg,(long long)x.base,x.s,x.upto,x.complete); fprintf(stderr,"\n  L c %lld",(long long)L.c); for(auto&t:L.m) fprintf(stderr," %lld*M(%d)",(long long)t.second,t.first.second);for(auto&t:L.a) fprintf(stderr," %lld*A(%d)",(long long)t.second,t.first.second); fprintf(stderr,"\n"); }
  if(!m){ if(j==0||isC) return false; ev("sampler-store","accepted candidate "+std::to_string(j)+" stored at a position other than the number of accepted candidates before it"); stop("rejection sampling not recognised"); return true; }
  if(j>m->upto){ ev("sampler-gap","candidates "+std::to_string(m->upto)+".."+std::to_string(j-1)+" of the stream are skipped"); stop("rejection sampling not recognised"); return true; }
  if(j<m->upto){ ev("sampler-gap","candidate "+std::to_string(j)+" of the stream is used again"); stop("rejection sampling not recognised"); return true; }
  nSamplerStores++; m->upto=j+cnt; if(!m->cleared){ m->cleared=true; i64 base=m->base; Region&r=rw(reg); r.written=true; for(int q=0;q<512;q++) r.c[base+q]={0,0}; }
  return true;
}
// ---------------------------------------------------------------- merging paths
bool Interp::complementaryAcc(const State&a,const State&b,u32&s,int&j){ bool f=false; for(auto&x:a.af){ int v=accKnown(b,x.s,x.j); if(v>=0&&(v==1)!=x.v){ if(!f||x.j>j){ s=x.s; j=x.j; } f=true; } } return f; }
bool Interp::smergeVal(const State&sa,const State&sb,NID a,NID b,NID&out){
  if(a==b){ out=a; return true; } const Node&na=D.N[a],&nb=D.N[b];
  if(na.k==KPTR&&nb.k==KPTR){ if(na.c!=nb.c) return false; int rg=(int)na.c; NID o; if(!smergeVal(sa,sb,D.arg(a,0),D.arg(b,0),o)) return false; out=D.mkPtr(rg,o); return true; }
  if(na.k==KPTR||nb.k==KPTR||na.k==KUNINIT||nb.k==KUNINIT||D.w(a)!=D.w(b)||D.w(a)==1) return false; if(!(na.smp||na.k==KCONST)||!(nb.smp||nb.k==KCONST)) return false;
  State*svS=nullptr; (void)svS; Lin x,y; { std::swap(S.mf,const_cast<State&>(sa).mf); std::swap(S.af,const_cast<State&>(sa).af); bool ok=lin(a,x); std::swap(S.mf,const_cast<State&>(sa).mf); std::swap(S.af,const_cast<State&>(sa).af); if(!ok) return false; }
  { std::swap(S.mf,const_cast<State&>(sb).mf); std::swap(S.af,const_cast<State&>(sb).af); bool ok=lin(b,y); std::swap(S.mf,const_cast<State&>(sb).mf); std::swap(S.af,const_cast<State&>(sb).af); if(!ok) return false; }
  auto diffZero=[&](const State&T){ Lin d=x; d.c-=y.c; for(auto&t:y.m) d.addTo(d.m,t.first,-t.second); for(auto&t:y.a) d.addTo(d.a,t.first,-t.second); std::swap(S.mf,const_cast<State&>(T).mf); std::swap(S.af,const_cast<State&>(T).af); absorb(d); i64 l,h; linRange(d,l,h); std::swap(S.mf,const_cast<State&>(T).mf); std::swap(S.af,const_cast<State&>(T).af); return l==0&&h==0; };
  u32 s; int j; if(complementaryAcc(sa,sb,s,j)){ // value = [A ? x : y] = y + (x-y) A, with both counters below 256 before candidate j
    Lin d=x; d.c-=y.c; for(auto&t:y.m) d.addTo(d.m,t.first,-t.second); for(auto&t:y.a) d.addTo(d.a,t.first,-t.second); bool aOne=accKnown(sa,s,j)==1; if(d.m.empty()&&d.a.empty()){ Lin r=aOne?y:x; i64 k=aOne?d.c:-d.c; r.addTo(r.a,SK(s,j),k); // both paths' facts: hull
      State h; h.mf=sa.mf; State h2; h2.mf=sb.mf; State hm; smergeFacts(h,h2,hm); std::swap(S.mf,hm.mf); std::vector<AFact> af; std::swap(S.af,af); absorb(r); std::swap(S.mf,hm.mf); std::swap(S.af,af); if(r.a.empty()&&r.m.size()<=2){ out=unlin(r,D.w(a)); return true; } } }
  auto mx=[](const Lin&l){ int n=-1; for(auto&t:l.m) n=std::max(n,t.first.second); return n; };
  bool za=diffZero(sa),zb=diffZero(sb); if(za&&zb){ out=mx(y)>=mx(x)?b:a; return true; } if(za){ out=b; return true; } if(zb){ out=a; return true; }
  return false;
}
void Interp::smergeFacts(State&a,State&b,State&out){
  out.mf.clear(); out.af.clear(); for(auto&x:a.af) if(accKnown(b,x.s,x.j)==(x.v?1:0)) out.af.push_back(x);
  std::vector<SK> keys; for(auto*t:{&a,&b}) for(auto&f:t->mf){ SK k(f.s,f.n); if(std::find(keys.begin(),keys.end(),k)==keys.end()) keys.push_back(k); }
  std::sort(keys.begin(),keys.end()); for(auto&k:keys){ i64 l,h,l2,h2; mRange(a,k.first,k.second,l,h); mRange(b,k.first,k.second,l2,h2); l=std::min(l,l2); h=std::max(h,h2); i64 dl,dh; mRange(out,k.first,k.second,dl,dh); if(l>dl||h<dh) out.mf.push_back({k.first,k.second,l,h}); }
  // drop facts implied by the others
  for(size_t i=0;i<out.mf.size();){ MFact f=out.mf[i]; State t; t.mf=out.mf; t.mf.erase(t.mf.begin()+i); i64 l,h; mRange(t,f.s,f.n,l,h); if(l>=f.lo&&h<=f.hi) out.mf.erase(out.mf.begin()+i); else i++; }
}
// ---------------------------------------------------------------- translation of a loop state along the stream
bool Interp::shapeEq(const State&p,const State&n,NID a,NID b,std::map<u32,i64>&d){
  auto dl=[&](u32 s,i64 bytes){ auto it=d.find(s); if(it==d.end()){ d[s]=bytes; return true; } return it->second==bytes; };
  if(a==b){ // must not mention a stream that moved
    return true; }
  auto x=byteOf.find(a),y=byteOf.find(b); if(x!=byteOf.end()&&y!=byteOf.end()) return x->second.first==y->second.first&&dl(x->second.first,y->second.second-x->second.second);
  auto u=stateAtom.find(a),v=stateAtom.find(b); if(u!=stateAtom.end()&&v!=stateAtom.end()){ auto&t=terms[u->second.first],&w=terms[v->second.first]; if(u->second.second!=v->second.second||!(t.id==w.id)||t.fin!=w.fin||t.alg!=w.alg) return false; auto it=streamOf.find({t.id.a,t.id.b}); if(it==streamOf.end()) return false; return dl(it->second,(i64)w.squeezed-(i64)t.squeezed); }
  if(D.N[a].k==KPTR&&D.N[b].k==KPTR) return D.N[a].c==D.N[b].c&&shapeEq(p,n,D.arg(a,0),D.arg(b,0),d);
  if(D.w(a)!=D.w(b)) return false; Lin l,m; if(D.N[a].smp&&D.N[b].smp&&lin(a,l)&&lin(b,m)){ if(l.c!=m.c||l.m.size()!=m.m.size()||!l.a.empty()||!m.a.empty()) return false; auto i=l.m.begin(),k=m.m.begin(); for(;i!=l.m.end();++i,++k){ if(i->first.first!=k->first.first||i->second!=k->second) return false; i64 dc=k->first.second-i->first.second; if(dc%2||!dl(i->first.first,dc/2*3)) return false; } return true; }
  return false;
}
bool Interp::shapeEqState(const State&p,const State&n,std::map<u32,i64>&d){
  size_t N=std::max(p.r.size(),n.r.size());
  for(size_t i=0;i<N;i++){ RP a=i<p.r.size()?p.r[i]:nullptr,b=i<n.r.size()?n.r[i]:nullptr; if(a==b) continue; if(a&&!a->alive) a=nullptr; if(b&&!b->alive) b=nullptr; if(!a&&!b) continue; if(!a||!b||a->c.size()!=b->c.size()) return false;
    for(size_t k=0;k<a->c.size();k++){ Cell x=a->c[k],y=b->c[k]; if(x.n==y.n&&x.i==y.i) continue; if(!x.n||!y.n||x.i!=y.i) return false; if(x.i&&k&&a->c[k-1].n==x.n&&b->c[k-1].n==y.n) continue; if(!shapeEq(p,n,x.n,y.n,d)) return false; } }
  if(p.sm.size()!=n.sm.size()) return false;
  for(size_t i=0;i<p.sm.size();i++){ auto&a=p.sm[i],&b=n.sm[i]; if(a.reg!=b.reg||a.base!=b.base||a.s!=b.s||a.complete!=b.complete) return false; if(!a.complete){ i64 dc=b.upto-a.upto; if(dc%2) return false; auto it=d.find(a.s); if(it==d.end()) d[a.s]=dc/2*3; else if(it->second!=dc/2*3) return false; } }
  return true;
}
bool Interp::shapeFacts(const State&p,const State&n,const std::map<u32,i64>&d){
  if(p.af.size()||n.af.size()) return false;
  for(auto&f:p.mf){ auto it=d.find(f.s); i64 sh=it==d.end()?0:it->second/3*2; i64 l,h; mRange(n,f.s,f.n+sh,l,h); if(l<f.lo||h>f.hi) return false; }
  for(auto&m:p.sm) if(!m.complete){ auto it=d.find(m.s); if(it==d.end()||it->second<=0||m.upto<256) return false; }
  return true;
}
