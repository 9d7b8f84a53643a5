// The specification side: ML-KEM/Kyber equations over the same interpretation (F_q^8 residues of
// coefficients, GF(2^128) identities of bits).  Independent of the analysed sources.
#include "spec.hpp"
Param param(int K){ Param p; p.K=K; p.eta1=K==2?3:2; p.du=K==4?11:10; p.dv=K==4?5:4; p.pk=384*K+32; p.sk=768*K+96; p.ct=32*(p.du*K+p.dv); return p; }
GBytes gOf(const Bytes&b){ GBytes r; for(NID x:b){ std::vector<G> v; for(int i=0;i<8;i++) v.push_back(D.hasUninit(x)?G{0xbad,0xbad}:D.g(D.bit(x,i))); r.push_back(v); } return r; }
Bytes bytesOfG(const GBytes&g){ Bytes r; for(auto&v:g){ std::vector<NID> bits; for(int i=0;i<8;i++) bits.push_back(D.mkBitX(v[i],true)); r.push_back(D.concat(bits)); } return r; }
Bytes hash(Interp&I,const char*alg,const Bytes&in,int outlen,int off){ bool s=false; G id=I.hashId(alg,in,s); if(getenv("KYAN_DEBUG")) fprintf(stderr,"spec %s(%zu) [%08x]\n",alg,in.size(),(u32)id.a); return I.hashOut(id,off,outlen,s); }
static int pw(int b,int e){ int r=1; b%=Q; while(e){ if(e&1) r=r*b%Q; b=b*b%Q; e>>=1; } return r; }
static int brv7(int x){ int r=0; for(int i=0;i<7;i++) r|=((x>>i)&1)<<(6-i); return r; }
FPoly ntt(const FPoly&a){ FPoly f=a; int k=1; for(int len=128;len>=2;len>>=1) for(int st=0;st<256;st+=2*len){ int z=pw(17,brv7(k++)); for(int j=st;j<st+len;j++){ Fp t=fpScale(f.c[j+len],z); f.c[j+len]=fpSub(f.c[j],t); f.c[j]=fpAdd(f.c[j],t); } } return f; }
FPoly invntt(const FPoly&a){ FPoly f=a; int k=127; for(int len=2;len<=128;len<<=1) for(int st=0;st<256;st+=2*len){ int z=pw(17,brv7(k--)); for(int j=st;j<st+len;j++){ Fp t=f.c[j]; f.c[j]=fpAdd(t,f.c[j+len]); f.c[j+len]=fpScale(fpSub(f.c[j+len],t),z); } } for(auto&x:f.c) x=fpScale(x,3303); return f; }
FPoly pmul(const FPoly&a,const FPoly&b){ FPoly r; for(int i=0;i<128;i++){ int g=pw(17,2*brv7(i)+1); r.c[2*i]=fpAdd(fpMul(a.c[2*i],b.c[2*i]),fpScale(fpMul(a.c[2*i+1],b.c[2*i+1]),g)); r.c[2*i+1]=fpAdd(fpMul(a.c[2*i],b.c[2*i+1]),fpMul(a.c[2*i+1],b.c[2*i])); } return r; }
FPoly padd(const FPoly&a,const FPoly&b){ FPoly r; for(int i=0;i<256;i++) r.c[i]=fpAdd(a.c[i],b.c[i]); return r; }
FPoly psub(const FPoly&a,const FPoly&b){ FPoly r; for(int i=0;i<256;i++) r.c[i]=fpSub(a.c[i],b.c[i]); return r; }
static Fp bitFp(NID b){ return fpSub(fpConst(0),D.fp(b)); }
FPoly cbd(const Bytes&buf,int eta){ FPoly r; auto bit=[&](int i){ return bitFp(D.bit(buf[i/8],i%8)); }; for(int i=0;i<256;i++){ Fp s=fpConst(0); for(int j=0;j<eta;j++){ s=fpAdd(s,bit(2*i*eta+j)); s=fpSub(s,bit(2*i*eta+eta+j)); } r.c[i]=s; } return r; }
static GBytes pack(const std::vector<std::vector<G>>&vals){ GBytes out; std::vector<G> cur; for(auto&v:vals) for(auto&b:v){ cur.push_back(b); if(cur.size()==8){ out.push_back(cur); cur.clear(); } } return out; }
static GBytes encodeFn(const FPoly&p,int d,const std::function<int(int)>&f){ static std::map<std::pair<int,int>,std::vector<u8>> tabs; std::vector<std::vector<G>> v; for(int i=0;i<256;i++){ std::vector<G> b; for(int k=0;k<d;k++){ auto&t=tabs[{d,k}]; if(t.empty()) for(int x=0;x<Q;x++) t.push_back(f(x)>>k&1); b.push_back(D.qBitG(p.c[i],t)); } v.push_back(b); } return pack(v); }
GBytes encode12(const FPoly&p){ return encodeFn(p,12,[](int x){ return x; }); }
GBytes compress(const FPoly&p,int d){ return encodeFn(p,d,[d](int x){ return (((2*x)<<d)+Q)/(2*Q)&((1<<d)-1); }); } // round(2^d x / q), ties upward (q odd: no ties)
static NID field(const Bytes&b,size_t off,int i,int d){ std::vector<NID> bits; for(int k=0;k<d;k++){ int p=i*d+k; bits.push_back(D.bit(b[off+p/8],p%8)); } return D.concat(bits); }
FPoly decode12(const Bytes&b,size_t off){ FPoly r; for(int i=0;i<256;i++) r.c[i]=D.fp(D.zext(field(b,off,i,12),16)); return r; }
FPoly decompress(const Bytes&b,size_t off,int d){ FPoly r; for(int i=0;i<256;i++){ NID x=D.zext(field(b,off,i,d),16); r.c[i]=D.fp(D.mapTab(x,16,[d](i64 v)->i64{ return (2*v*Q+(1<<d))>>(d+1); })); } return r; }
static void app(GBytes&a,const GBytes&b){ a.insert(a.end(),b.begin(),b.end()); }
static FPoly matEntry(Interp&I,const Bytes&rho,int x,int y){ G st=matStream(I,rho,x,y); FPoly r; for(int k=0;k<256;k++) r.c[k]=fpPrf(matId(st,k)); return r; }
static FPoly noise(Interp&I,const Bytes&seed,int nonce,int eta){ Bytes in=seed; in.push_back(D.mkConst(nonce,8)); return cbd(hash(I,"shake256",in,64*eta),eta); }
void specKeygen(Interp&I,const Bytes&coins,GBytes&pk,GBytes&sk){
  int K=I.K; Param P=param(K); Bytes in(coins.begin(),coins.begin()+32); in.push_back(D.mkConst(K,8)); Bytes g=hash(I,"sha3_512",in,64); Bytes rho(g.begin(),g.begin()+32),sig(g.begin()+32,g.end());
  std::vector<FPoly> s(K),e(K); for(int i=0;i<K;i++){ s[i]=ntt(noise(I,sig,i,P.eta1)); e[i]=ntt(noise(I,sig,K+i,P.eta1)); }
  pk.clear(); sk.clear(); for(int i=0;i<K;i++){ FPoly t=e[i]; for(int j=0;j<K;j++) t=padd(t,pmul(matEntry(I,rho,j,i),s[j])); app(pk,encode12(t)); app(sk,encode12(s[i])); }
  app(pk,gOf(rho)); app(sk,pk); app(sk,gOf(hash(I,"sha3_256",bytesOfG(pk),32))); app(sk,gOf(Bytes(coins.begin()+32,coins.begin()+64)));
}
void specEncPke(Interp&I,int K,const GBytes&m,const Bytes&pk,const Bytes&coins,GBytes&ct){
  Param P=param(K); Bytes rho(pk.begin()+384*K,pk.begin()+384*K+32); std::vector<FPoly> t(K),r(K);
  for(int i=0;i<K;i++){ t[i]=decode12(pk,384*i); r[i]=ntt(noise(I,coins,i,P.eta1)); }
  ct.clear(); for(int i=0;i<K;i++){ FPoly u; for(auto&x:u.c) x=fpConst(0); for(int j=0;j<K;j++) u=padd(u,pmul(matEntry(I,rho,i,j),r[j])); u=padd(invntt(u),noise(I,coins,K+i,2)); app(ct,compress(u,P.du)); }
  FPoly v; for(auto&x:v.c) x=fpConst(0); for(int j=0;j<K;j++) v=padd(v,pmul(t[j],r[j])); v=padd(invntt(v),noise(I,coins,2*K,2));
  for(int i=0;i<256;i++) v.c[i]=fpAdd(v.c[i],fpScale(bitFp(D.mkBitX(m[i/8][i%8],true)),1665)); app(ct,compress(v,P.dv));
}
GBytes specDecPke(int K,const Bytes&ct,const Bytes&sk){ Param P=param(K); FPoly w; for(auto&x:w.c) x=fpConst(0); for(int i=0;i<K;i++) w=padd(w,pmul(decode12(sk,384*i),ntt(decompress(ct,32*P.du*i,P.du)))); w=psub(decompress(ct,32*P.du*K,P.dv),invntt(w)); return compress(w,1); }
