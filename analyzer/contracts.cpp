// Post-conditions of the named building blocks, evaluated in place on the values of each call.  They say which part of
// the library is responsible when an end-to-end result differs from the specification, and are reported as evidence.
#include "spec.hpp"
#include <algorithm>
static bool quietBytes(Interp&I,NID p,u64 off,u64 len,Bytes&b){
  const Node n=D.N[p]; if(n.k!=KPTR) return false; NID o=D.A[n.ap]; if(!D.isConst(o)) return false; i64 at=D.cval(o)+(i64)off; int r=n.c;
  const Region*R=nullptr; if(r<(int)I.S.r.size()&&I.S.r[r]) R=I.S.r[r].get(); else { auto g=I.globalInit.find(r); if(g!=I.globalInit.end()) R=g->second.get(); } if(!R||at<0||at+(i64)len>(i64)R->c.size()) return false;
  b.clear(); for(u64 i=0;i<len;i++){ NID x=I.loadCells(*R,at+i,1); if(D.hasUninit(x)) return false; b.push_back(x); } return true;
}
struct PolyV { FPoly f; bool ok=true; i64 lo=INT64_MAX,hi=INT64_MIN; };
static PolyV polyAt(Interp&I,NID p,int idx,bool perm){
  PolyV v; const Node n=D.N[p]; if(n.k!=KPTR||!D.isConst(D.A[n.ap])){ v.ok=false; return v; } i64 at=D.cval(D.A[n.ap])+(i64)512*idx; int r=n.c; const Region*R=r<(int)I.S.r.size()&&I.S.r[r]?I.S.r[r].get():nullptr; if(!R||at<0||at+512>(i64)R->c.size()){ v.ok=false; return v; }
  for(int k=0;k<256;k++){ NID x=I.loadCells(*R,at+2*k,2); if(D.hasUninit(x)){ v.ok=false; return v; } int c=perm?(k&128)+8*(k&15)+((k>>4)&7):k; v.f.c[c]=D.fp(x); v.lo=std::min(v.lo,D.N[x].lo); v.hi=std::max(v.hi,D.N[x].hi); } return v;
}
static void note(Interp&I,const std::string&fn,const char*prop,bool ok,bool pre,const std::string&msg){
  auto&c=I.contracts[fn]; c.prop=prop; c.checked++; if(!ok){ c.failed++; if(!pre) c.preFailed++; if(c.where.empty()){ I.updateLoc(); c.where=I.curLoc; c.msg=msg; } }
}
static std::string idx(int p,int c){ return "polynomial "+std::to_string(p)+", coefficient "+std::to_string(c); }
std::function<void()> contractPre(Interp&I,const std::string&name,std::vector<Val>&a){
  static std::string pre; static bool avx=false; int K=I.K; Param P=param(K); if(name.compare(0,16,"pqcrystals_kyber")!=0) return nullptr; size_t q=name.find('_',16); if(q==std::string::npos) return nullptr; size_t q2=name.find('_',q+1); if(q2==std::string::npos) return nullptr; avx=name.substr(q+1,q2-q-1)=="avx2"; std::string f=name.substr(q2+1);
  std::vector<NID> p; for(auto&v:a) p.push_back(v.size()==1?v[0]:0); size_t na=p.size();
  auto polysOut=[&I,f](NID out,std::vector<FPoly> want,bool perm,const char*prop,bool preOk){ return [&I,f,out,want,perm,prop,preOk](){ bool ok=true; std::string msg; for(size_t i=0;i<want.size()&&ok;i++){ PolyV g=polyAt(I,out,i,perm); if(!g.ok){ ok=false; msg="output polynomial "+std::to_string(i)+" not completely written"; break; } for(int k=0;k<256&&ok;k++) if(!fpEq(g.f.c[k],want[i].c[k])){ ok=false; msg=idx(i,k)+" differs from the specified value"; } } note(I,f,prop,ok,preOk,msg); }; };
  auto bytesOut=[&I,f](NID out,GBytes want,const char*prop,bool preOk){ return [&I,f,out,want,prop,preOk](){ Bytes b; bool ok=quietBytes(I,out,0,want.size(),b); std::string msg=ok?"":"output not completely written"; for(size_t i=0;i<want.size()&&ok;i++) for(int k=0;k<8&&ok;k++) if(!(D.g(D.bit(b[i],k))==want[i][k])){ ok=false; msg="output byte "+std::to_string(i)+" bit "+std::to_string(k)+" differs from the specified value"; } note(I,f,prop,ok,preOk,msg); }; };
  auto ins=[&](NID x,int n,bool perm,std::vector<FPoly>&v,i64&lo,i64&hi){ lo=INT64_MAX;hi=INT64_MIN; for(int i=0;i<n;i++){ PolyV w=polyAt(I,x,i,perm); if(!w.ok) return false; v.push_back(w.f); lo=std::min(lo,w.lo); hi=std::max(hi,w.hi); } return true; };
  bool vec=f.compare(0,8,"polyvec_")==0; std::string g=vec?f.substr(8):f.compare(0,5,"poly_")==0?f.substr(5):""; int n=vec?K:1; std::vector<FPoly> x,y,w; i64 lo,hi,lo2,hi2; Bytes b;
  if(g=="compress"||g=="tobytes"||(g=="tomsg"&&!vec)){ if(na<2||!ins(p[1],n,avx&&g=="tobytes",x,lo,hi)) return nullptr; GBytes o; int d=g=="tomsg"?1:vec?P.du:P.dv; for(auto&z:x){ GBytes e=g=="tobytes"?encode12(z):compress(z,d); o.insert(o.end(),e.begin(),e.end()); } return bytesOut(p[0],o,"P09",lo>=-Q&&hi<=Q); }
  if(g=="decompress"||g=="frombytes"){ int d=g=="frombytes"?12:vec?P.du:P.dv; if(na<2||!quietBytes(I,p[1],0,32*d*n,b)) return nullptr; for(int i=0;i<n;i++) w.push_back(d==12?decode12(b,384*i):decompress(b,32*d*i,d)); return polysOut(p[0],w,avx&&g=="frombytes","P09",true); }
  if(g=="frommsg"&&!vec){ if(na<2||!quietBytes(I,p[1],0,32,b)) return nullptr; FPoly m; for(int i=0;i<256;i++) m.c[i]=fpScale(fpSub(fpConst(0),D.fp(D.bit(b[i/8],i%8))),1665); return polysOut(p[0],{m},false,"P09",true); }
  auto noise=[&](const Bytes&seed,NID nonce,int eta){ Bytes in=seed; in.push_back(D.w(nonce)==8?nonce:D.trunc(nonce,8)); return cbd(hash(I,"shake256",in,64*eta),eta); };
  if(!vec&&(g=="getnoise_eta1"||g=="getnoise_eta2")){ if(na<3||!quietBytes(I,p[1],0,32,b)) return nullptr; return polysOut(p[0],{noise(b,p[2],g=="getnoise_eta1"?P.eta1:2)},false,"P08",true); }
  if(!vec&&(g=="getnoise_eta2_4x"||g=="getnoise_eta1_4x"||g=="getnoise_eta1122_4x")){ if(na<9||!quietBytes(I,p[4],0,32,b)) return nullptr; std::vector<std::function<void()>> l; for(int i=0;i<4;i++) l.push_back(polysOut(p[i],{noise(b,p[5+i],g=="getnoise_eta1122_4x"&&i>=2?2:P.eta1)},false,"P08",true)); return [l](){ for(auto&z:l) z(); }; }
  if(!vec&&(g=="cbd_eta1"||g=="cbd_eta2")){ int eta=g=="cbd_eta1"?P.eta1:2; if(na<2||!quietBytes(I,p[1],0,64*eta,b)) return nullptr; return polysOut(p[0],{cbd(b,eta)},false,"P08",true); }
  if(g=="ntt"){ if(!ins(p[0],n,false,x,lo,hi)) return nullptr; for(auto&z:x) w.push_back(ntt(z)); return polysOut(p[0],w,avx,"P06",true); }
  if(g=="invntt_tomont"){ if(!ins(p[0],n,avx,x,lo,hi)) return nullptr; for(auto&z:x){ FPoly t=invntt(z); for(auto&c:t.c) c=fpScale(c,65536%Q); w.push_back(t); } return polysOut(p[0],w,false,"P06",true); }
  if(g=="basemul_montgomery"||g=="basemul_acc_montgomery"){ if(na<3||!ins(p[1],n,avx,x,lo,hi)||!ins(p[2],n,avx,y,lo2,hi2)) return nullptr; FPoly s; for(auto&c:s.c) c=fpConst(0); for(int i=0;i<n;i++) s=padd(s,pmul(x[i],y[i])); for(auto&c:s.c) c=fpScale(c,169); return polysOut(p[0],{s},avx,"P06",true); }
  if(g=="tomont"||g=="reduce"){ if(!ins(p[0],n,false,x,lo,hi)) return nullptr; for(auto&z:x){ if(g=="tomont") for(auto&c:z.c) c=fpScale(c,65536%Q); w.push_back(z); } return polysOut(p[0],w,false,"P06",true); }
  if(g=="add"||g=="sub"){ if(na<3||!ins(p[1],n,false,x,lo,hi)||!ins(p[2],n,false,y,lo2,hi2)) return nullptr; for(int i=0;i<n;i++) w.push_back(g=="add"?padd(x[i],y[i]):psub(x[i],y[i])); return polysOut(p[0],w,false,"P06",lo+lo2>=-32768&&hi+hi2<=32767); }
  if(f=="gen_matrix"){ if(na<3||!quietBytes(I,p[1],0,32,b)||!D.isConst(p[2])) return nullptr; bool tr=D.uval(p[2])!=0; I.gmFlags.push_back(tr); for(int i=0;i<K;i++) for(int j=0;j<K;j++){ G st=matStream(I,b,tr?i:j,tr?j:i); FPoly z; for(int k=0;k<256;k++) z.c[k]=fpPrf(matId(st,k)); w.push_back(z); } return polysOut(p[0],w,avx,"P07",true); }
  return nullptr;
}
