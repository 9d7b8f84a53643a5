// Abstract interpretation of the AVX2 assembly: instructions come from the disassembly of the
// objects assembled from the current .S files (AT&T syntax, objdump -d -l -r).
#include "interp.hpp"
#include <sstream>
#include <algorithm>
struct Ins { u64 addr; std::string mn; std::vector<std::string> ops; std::string loc, reloc; };
static std::vector<std::vector<Ins>> objs; static std::map<std::string,std::pair<int,int>> syms; static std::vector<std::map<u64,int>> byAddr; static std::vector<std::map<std::string,u64>> localSyms;
Val reslice(const Val&v,int toW); NID mulh16(NID a,NID b,bool sgn); NID mulhrs16(NID a,NID b); Val pshufb(Interp&I,const Val&a,const Val&m);
NID globalPtr(Interp&I,const std::string&name);
static std::string trim(std::string s){ size_t a=s.find_first_not_of(" \t"),b=s.find_last_not_of(" \t\r"); return a==std::string::npos?"":s.substr(a,b-a+1); }
bool Interp::loadAsm(const std::string&text){
  std::istringstream f(text); std::string l,loc; int cur=-1; std::string fn;
  while(std::getline(f,l)){
    if(l.find("file format")!=std::string::npos){ objs.emplace_back(); byAddr.emplace_back(); localSyms.emplace_back(); cur++; continue; }
    if(cur<0||l.empty()||l.compare(0,11,"Disassembly")==0) continue;
    if(isxdigit((u8)l[0])&&l.find(" <")!=std::string::npos&&l.back()==':'){ u64 a=strtoull(l.c_str(),0,16); size_t p=l.find('<'); fn=l.substr(p+1,l.rfind('>')-p-1); syms[fn]={cur,(int)objs[cur].size()}; localSyms[cur][fn]=a; continue; }
    size_t t=l.find(":\t"); 
    if(t!=std::string::npos&&l.find("R_X86_64")!=std::string::npos){ if(!objs[cur].empty()) objs[cur].back().reloc=trim(l.substr(l.rfind('\t')+1)); continue; }
    if(t!=std::string::npos&&l[0]==' '){ Ins in; in.addr=strtoull(l.c_str(),0,16); std::string b=l.substr(t+2); size_t h=b.find('#'); if(h!=std::string::npos) b=b.substr(0,h); b=trim(b); if(b.empty()) continue; size_t s=b.find_first_of(" \t"); in.mn=b.substr(0,s); std::string o=s==std::string::npos?"":trim(b.substr(s));
      std::string cura; int dep=0; for(char c:o){ if(c=='(') dep++; if(c==')') dep--; if(c==','&&!dep){ in.ops.push_back(trim(cura)); cura=""; } else cura+=c; } if(!trim(cura).empty()) in.ops.push_back(trim(cura));
      in.loc=loc; byAddr[cur][in.addr]=objs[cur].size(); objs[cur].push_back(in); continue; }
    size_t c=l.rfind(':'); if(c!=std::string::npos&&c+1<l.size()&&isdigit((u8)l[c+1])){ std::string p=l.substr(0,l.find(" (")); loc=p; }
  }
  return true;
}
bool Interp::haveAsm(const std::string&n){ return syms.count(n)>0; }
struct X86 {
  Interp&I; NID g[16]; Val y[16]; NID flagRes=0; NID cmpA=0,cmpB=0; bool flagsOk=false; int obj=0; X86(Interp&i):I(i){}
  static int gpr(const std::string&s,int&w){ static const char*r64[]={"rax","rcx","rdx","rbx","rsp","rbp","rsi","rdi","r8","r9","r10","r11","r12","r13","r14","r15"}; static const char*r32[]={"eax","ecx","edx","ebx","esp","ebp","esi","edi","r8d","r9d","r10d","r11d","r12d","r13d","r14d","r15d"}; if(s[0]!='%') return -1; std::string n=s.substr(1); for(int i=0;i<16;i++){ if(n==r64[i]){ w=64; return i; } if(n==r32[i]){ w=32; return i; } } return -1; }
  static bool vreg(const std::string&s,int&i,int&bytes){ if(s.compare(0,4,"%ymm")==0){ i=atoi(s.c_str()+4); bytes=32; return true; } if(s.compare(0,4,"%xmm")==0){ i=atoi(s.c_str()+4); bytes=16; return true; } return false; }
  NID k(i64 v){ return D.mkConst(v,64); }
  NID ea(const std::string&s,const Ins&in){ size_t p=s.find('('); i64 d=0; if(p!=0) d=(i64)strtoll(s.substr(0,p).c_str(),0,0); if(s[0]=='-'&&p!=0) d=-(i64)strtoull(s.substr(1,p-1).c_str(),0,0);
    if(p==std::string::npos) return k(d); std::string in2=s.substr(p+1,s.rfind(')')-p-1); std::vector<std::string> c; std::string t; for(char ch:in2){ if(ch==','){ c.push_back(trim(t)); t=""; } else t+=ch; } c.push_back(trim(t));
    if(c[0]=="%rip"){ if(in.reloc.empty()){ I.stop("rip-relative operand without relocation"); return k(0); } size_t m=in.reloc.find_first_of("+-"); std::string sym=in.reloc.substr(0,m); i64 add=m==std::string::npos?0:strtoll(in.reloc.substr(m).c_str(),0,0); add+=4; NID b=globalPtr(I,sym); if(!b){ I.stop("unknown data symbol "+sym); return k(0); } return D.bin(ADD,b,k(add)); }
    NID r=k(d); int w; if(!c[0].empty()){ int b=gpr(c[0],w); if(b<0){ I.stop("base register"); return r; } r=D.bin(ADD,g[b],r); }
    if(c.size()>1&&!c[1].empty()){ int x=gpr(c[1],w); if(x<0){ I.stop("index register"); return r; } i64 sc=c.size()>2?atoi(c[2].c_str()):1; r=D.bin(ADD,r,D.bin(MUL,g[x],k(sc))); } return r; }
  Val loadV(NID p,int bytes,int align){ int reg; i64 off; I.nLoads++; if(!I.access(p,bytes,align,false,reg,off)) return Val(bytes/2,D.mkUninit(16)); Val v; if(off<0){ for(int i=0;i<bytes/2;i++) v.push_back(I.loadInt(D.bin(ADD,p,k(2*i)),16,1)); return v; } for(int i=0;i<bytes/2;i++) v.push_back(I.loadCells(I.ro(reg),off+2*i,2)); return v; }
  void storeV(NID p,Val v,int align){ v=reslice(v,16); int bytes=v.size()*2,reg; i64 off; I.nStores++; if(!I.access(p,bytes,align,true,reg,off)) return; if(off<0){ for(size_t i=0;i<v.size();i++) I.storeInt(D.bin(ADD,p,k(2*i)),v[i],1); return; } if(!I.S.sm.empty()) I.plainWrite(reg,off,bytes); Region&r=I.rw(reg); for(size_t i=0;i<v.size();i++) I.storeCells(r,off+2*i,v[i]); }
  Val src(const std::string&s,int bytes,int lw,const Ins&in,int align=1){ int i,b; if(vreg(s,i,b)){ Val v=reslice(y[i],lw); v.resize(bytes*8/lw); return v; } return reslice(loadV(ea(s,in),bytes,align),lw); }
  void setV(int i,Val v){ int have=0; for(NID x:v) have+=D.w(x); v=reslice(v,16); while(v.size()<16) v.push_back(D.mkConst(0,16)); (void)have; y[i]=v; }
  NID gsrc(const std::string&s,const Ins&in){ int w; if(s[0]=='$') return k(strtoll(s.c_str()+1,0,0)<0?strtoll(s.c_str()+1,0,0):(i64)strtoull(s.c_str()+1,0,0)); int r=gpr(s,w); if(r>=0) return w==64?g[r]:D.zext(D.trunc(g[r],32),64); return I.loadInt(ea(s,in),64,1); }
  bool cond(const std::string&c,bool&taken){ if(!flagsOk) return false; // flags of cmpA - cmpB or of a result compared with zero
    NID e=D.icmpEq(cmpA,cmpB),ul=D.icmpUlt(cmpA,cmpB),sl=D.icmpSlt(cmpA,cmpB),r; if(c=="e"||c=="z") r=e; else if(c=="ne"||c=="nz") r=D.bnot(e); else if(c=="b"||c=="c"||c=="nae") r=ul; else if(c=="ae"||c=="nc"||c=="nb") r=D.bnot(ul); else if(c=="be"||c=="na") r=D.bor(ul,e); else if(c=="a"||c=="nbe") r=D.bnot(D.bor(ul,e)); else if(c=="l"||c=="s") r=sl; else if(c=="ge"||c=="ns") r=D.bnot(sl); else if(c=="le") r=D.bor(sl,e); else if(c=="g") r=D.bnot(D.bor(sl,e)); else return false;
    if(!D.isConst(r)){ if(D.secret(r)) I.ev("secret-branch","assembly branch depends on secret data"); return false; } taken=D.cval(r)&1; return true; }
  void run(int o,int pc);
};
static int memBytes(int vb){ return vb; }
void X86::run(int o,int pc){
  obj=o; std::vector<int> rets; NID rsp0=g[4]; NID saved[16]; for(int i=0;i<16;i++) saved[i]=g[i]; std::vector<NID> rspAt; u64 n=0;
  while(true){
    if(I.aborted) return; if(pc<0||pc>=(int)objs[o].size()){ I.stop("control leaves the assembly function"); return; }
    if(++n>2000000){ I.stop("assembly step limit"); return; }
    const Ins&in=objs[o][pc]; I.asmLoc=in.loc.empty()?"asm":in.loc; I.steps++; I.nAsm++; const std::string&m=in.mn; const auto&p=in.ops; int np=p.size(); int w,r,vi,vb;
    pc++;
    if(m=="ret"||m=="retq"){ if(rets.empty()){ if(g[4]!=rsp0) I.ev("abi","stack pointer not restored on return"); for(int i:{3,5,12,13,14,15}) if(g[i]!=saved[i]) I.ev("abi","callee-saved register modified"); return; } if(g[4]!=rspAt.back()) I.ev("abi","stack pointer changed by local subroutine"); pc=rets.back(); rets.pop_back(); rspAt.pop_back(); g[4]=D.bin(ADD,g[4],k(8)); continue; }
    if(m=="nop"||m=="nopw"||m=="nopl"||m=="endbr64"||m=="data16"||m=="cs"||m=="xchg") continue;
    if(m=="vzeroupper"){ for(int i=0;i<16;i++){ Val v=reslice(y[i],16); v.resize(8); setV(i,v); } continue; }
    if(m=="call"||m=="callq"||m=="jmp"||(m[0]=='j'&&np==1)){ u64 t; size_t lt; if(!in.reloc.empty()){ I.stop("call to another object from assembly"); return; } if(p[0][0]=='*'){ I.stop("indirect jump"); return; } t=strtoull(p[0].c_str(),0,16); lt=t; auto it=byAddr[o].find(lt); if(it==byAddr[o].end()){ I.stop("jump target"); return; }
      if(m[0]=='c'){ g[4]=D.bin(SUB,g[4],k(8)); I.storeInt(g[4],k(0x5a5a),8); rets.push_back(pc); rspAt.push_back(g[4]); pc=it->second; continue; }
      if(m=="jmp"){ pc=it->second; continue; } bool tk; I.nBranches++; if(!cond(m.substr(1),tk)){ I.stop("assembly branch on unknown flags"); return; } if(tk) pc=it->second; continue; }
    // general purpose
    std::string b=m; if((b.size()>3&&(b.back()=='q'||b.back()=='l'))&&b[0]!='v'&&b!="shl"&&b!="sal"&&b!="imul") b.pop_back();
    if(b=="mov"||b=="lea"||b=="add"||b=="sub"||b=="and"||b=="or"||b=="xor"||b=="shl"||b=="sal"||b=="shr"||b=="imul"||b=="cmp"||b=="test"||b=="inc"||b=="dec"||b=="push"||b=="pop"||b=="movabs"||b=="neg"){
      if(b=="push"){ NID v=gsrc(p[0],in); g[4]=D.bin(SUB,g[4],k(8)); I.storeInt(g[4],v,8); continue; }
      if(b=="pop"){ r=gpr(p[0],w); g[r]=I.loadInt(g[4],64,8); g[4]=D.bin(ADD,g[4],k(8)); continue; }
      std::string d=p[np-1]; r=gpr(d,w); if(r<0&&b!="cmp"&&b!="test"){ if(b=="mov"){ int w2; int sr=gpr(p[0],w2); NID v=gsrc(p[0],in); if(sr>=0&&w2==32) v=D.trunc(v,32); else if(sr<0&&m=="movl") v=D.trunc(v,32); I.storeInt(ea(d,in),v,1); continue; } I.stop("assembly operand form: "+m); return; }
      if(b=="mov"||b=="movabs"){ int w2; int sr=gpr(p[0],w2); if(sr<0&&p[0][0]!='$'){ g[r]=w==64?I.loadInt(ea(p[0],in),64,1):D.zext(I.loadInt(ea(p[0],in),32,1),64); } else { NID v=gsrc(p[0],in); g[r]=w==64?v:D.zext(D.trunc(v,32),64); } continue; }
      if(b=="lea"){ g[r]=ea(p[0],in); continue; }
      NID a=np>1||b=="test"||b=="cmp"?gsrc(p[0],in):k(1); NID x=r>=0?(w==64?g[r]:D.zext(D.trunc(g[r],32),64)):gsrc(d,in); NID res;
      if(b=="cmp"){ cmpA=x; cmpB=a; flagsOk=true; continue; }
      if(b=="test"){ cmpA=D.bin(AND,x,a); cmpB=k(0); flagsOk=true; continue; }
      if(b=="and"&&D.N[x].k==KPTR){ if(!D.isConst(a)||!D.isConst(D.arg(x,0))){ I.stop("pointer masking"); return; } i64 al=-D.cval(a); Region&rg=*I.S.r[D.N[x].c]; if(al<=0||(al&(al-1))||rg.align<(u64)al){ I.stop("pointer masking"); return; } res=D.mkPtr(D.N[x].c,k(D.cval(D.arg(x,0))&D.cval(a))); }
      else if(b=="shl"||b=="sal") res=D.bin(SHL,x,a); else if(b=="shr") res=D.bin(LSHR,x,a);
      else if(b=="imul"){ if(np==3) x=gsrc(p[1],in); res=D.bin(MUL,x,a); } else if(b=="neg") res=D.bin(SUB,k(0),x);
      else if(b=="xor"&&np==2&&p[0]==p[1]) res=k(0);
      else res=D.bin(b=="add"||b=="inc"?ADD:b=="sub"||b=="dec"?SUB:b=="and"?AND:b=="or"?OR:XOR,x,a);
      if(b=="sub"){ cmpA=x; cmpB=a; } else { cmpA=res; cmpB=k(0); } flagsOk=D.N[cmpA].k!=KPTR; if(w==32) res=D.zext(D.trunc(res,32),64); g[r]=res; continue; }
    if(m[0]!='v'){ I.stop("assembly instruction not modelled: "+m); return; }
    // vector moves
    if(m=="vmovdqa"||m=="vmovdqu"||m=="vmovaps"||m=="vmovups"||m=="vmovapd"||m=="vmovupd"||m=="vlddqu"||m=="vmovntdq"){ bool al=m=="vmovdqa"||m=="vmovaps"||m=="vmovapd"||m=="vmovntdq"; if(vreg(p[1],vi,vb)){ setV(vi,src(p[0],vb,16,in,al?vb:1)); } else { vreg(p[0],vi,vb); Val v=reslice(y[vi],16); v.resize(vb/2); storeV(ea(p[1],in),v,al?vb:1); } continue; }
    if(m=="vmovq"||m=="vmovd"){ int s=m=="vmovq"?64:32; if(vreg(p[1],vi,vb)){ int w2; NID v; int j,jb; if(vreg(p[0],j,jb)) v=reslice(y[j],s)[0]; else if(gpr(p[0],w2)>=0) v=s==64?gsrc(p[0],in):D.trunc(gsrc(p[0],in),32); else v=I.loadInt(ea(p[0],in),s,1); Val x={v}; setV(vi,reslice(x,16)); } else { vreg(p[0],vi,vb); NID v=reslice(y[vi],s)[0]; if((r=gpr(p[1],w))>=0) g[r]=s==64?v:D.zext(v,64); else I.storeInt(ea(p[1],in),v,1); } continue; }
    if(!vreg(p[np-1],vi,vb)){ if(m=="vextracti128"||m=="vextractf128"){ int j,jb; vreg(p[1],j,jb); Val v=reslice(y[j],16); int hi=strtol(p[0].c_str()+1,0,0)&1; storeV(ea(p[2],in),Val(v.begin()+8*hi,v.begin()+8*hi+8),1); continue; } I.stop("assembly destination not modelled: "+m); return; }
    int nb=memBytes(vb); auto imm=[&](){ return (u64)strtoull(p[0].c_str()+1,0,0); };
    // element-wise
    struct EW { const char*n; int w; Op op; }; static const EW ew[]={{"vpaddw",16,ADD},{"vpsubw",16,SUB},{"vpmullw",16,MUL},{"vpaddd",32,ADD},{"vpsubd",32,SUB},{"vpmulld",32,MUL},{"vpaddb",8,ADD},{"vpsubb",8,SUB},{"vpaddq",64,ADD},{"vpsubq",64,SUB},{"vpand",16,AND},{"vpor",16,OR},{"vpxor",16,XOR},{"vandps",16,AND},{"vorps",16,OR},{"vxorps",16,XOR}};
    bool done=false; for(auto&e:ew) if(m==e.n){ Val b2=src(p[0],nb,e.w,in),a=src(p[1],nb,e.w,in),rr; I.nArith+=a.size(); if(e.op==XOR&&p[0]==p[1]){ rr=Val(a.size(),D.mkConst(0,e.w)); } else for(size_t i=0;i<a.size();i++){ NID x=D.bin(e.op,a[i],b2[i]); rr.push_back(x); if((e.op==ADD||e.op==SUB)&&D.lastWrapS&&e.w==16&&D.N[x].k==KOP&&D.N[x].op==e.op) I.ev("lane-wrap",std::string("16-bit ")+m+" may wrap: operands ["+std::to_string(D.N[a[i]].lo)+","+std::to_string(D.N[a[i]].hi)+"] and ["+std::to_string(D.N[b2[i]].lo)+","+std::to_string(D.N[b2[i]].hi)+"]"); } setV(vi,rr); done=true; break; }
    if(done) continue;
    if(m=="vpandn"){ Val b2=src(p[0],nb,16,in),a=src(p[1],nb,16,in),rr; for(size_t i=0;i<a.size();i++) rr.push_back(D.bin(AND,D.bin(XOR,a[i],D.mkConst(-1,16)),b2[i])); setV(vi,rr); continue; }
    if(m=="vpmulhw"||m=="vpmulhuw"||m=="vpmulhrsw"){ Val b2=src(p[0],nb,16,in),a=src(p[1],nb,16,in),rr; I.nArith+=a.size(); for(size_t i=0;i<a.size();i++) rr.push_back(m=="vpmulhrsw"?mulhrs16(a[i],b2[i]):mulh16(a[i],b2[i],m=="vpmulhw")); setV(vi,rr); continue; }
    { int lw=m.back()=='w'?16:m.back()=='d'?32:64; Op op=NOP; std::string s=m.substr(0,m.size()-1); if(s=="vpsll") op=SHL; else if(s=="vpsrl") op=LSHR; else if(s=="vpsra") op=ASHR;
      if(op!=NOP){ if(p[0][0]!='$'){ I.stop("symbolic vector shift count in assembly"); return; } u64 c=imm(); Val a=src(p[1],nb,lw,in),rr; for(NID x:a) rr.push_back(c>=(u64)lw&&op!=ASHR?D.mkConst(0,lw):D.bin(op,x,D.mkConst(c>=(u64)lw?lw-1:c,lw))); setV(vi,rr); continue; } }
    if(m=="vpslldq"||m=="vpsrldq"){ u64 c=imm(); Val a=src(p[1],nb,8,in),rr(a.size(),D.mkConst(0,8)); for(size_t l=0;l<a.size();l+=16) for(int i=0;i<16;i++){ int s=m=="vpslldq"?i-(int)c:i+(int)c; if(s>=0&&s<16) rr[l+i]=a[l+s]; } setV(vi,rr); continue; }
    if(m=="vpalignr"){ u64 c=imm(); Val b2=src(p[1],nb,8,in),a=src(p[2],nb,8,in),rr; for(size_t l=0;l<a.size();l+=16) for(int i=0;i<16;i++){ int s=i+(int)c; rr.push_back(s<16?b2[l+s]:s<32?a[l+s-16]:D.mkConst(0,8)); } setV(vi,rr); continue; }
    if(m=="vmovsldup"||m=="vmovshdup"){ Val a=src(p[0],nb,32,in),rr; for(size_t i=0;i<a.size();i++) rr.push_back(a[m=="vmovsldup"?(i&~1):(i|1)]); setV(vi,rr); continue; }
    if(m=="vpblendd"||m=="vblendps"){ u64 c=imm(); Val b2=src(p[1],nb,32,in),a=src(p[2],nb,32,in),rr; for(size_t i=0;i<a.size();i++) rr.push_back(c>>i&1?b2[i]:a[i]); setV(vi,rr); continue; }
    if(m=="vpblendw"){ u64 c=imm(); Val b2=src(p[1],nb,16,in),a=src(p[2],nb,16,in),rr; for(size_t i=0;i<a.size();i++) rr.push_back(c>>(i&7)&1?b2[i]:a[i]); setV(vi,rr); continue; }
    if(m=="vperm2i128"||m=="vperm2f128"){ u64 c=imm(); Val b2=src(p[1],nb,64,in),a=src(p[2],nb,64,in),rr; for(int h=0;h<2;h++){ int s=c>>(4*h)&15; for(int i=0;i<2;i++){ if(s&8) rr.push_back(D.mkConst(0,64)); else { const Val&v=(s&2)?b2:a; rr.push_back(v[(s&1)*2+i]); } } } setV(vi,rr); continue; }
    if(m=="vinserti128"||m=="vinsertf128"){ u64 c=imm(); Val b2=src(p[1],16,64,in),a=src(p[2],32,64,in); a[(c&1)*2]=b2[0]; a[(c&1)*2+1]=b2[1]; setV(vi,a); continue; }
    if(m=="vextracti128"||m=="vextractf128"){ u64 c=imm(); Val a=src(p[1],32,64,in); setV(vi,Val(a.begin()+2*(c&1),a.begin()+2*(c&1)+2)); continue; }
    if(m=="vpermq"||m=="vpermpd"){ u64 c=imm(); Val a=src(p[1],nb,64,in),rr; for(int i=0;i<4;i++) rr.push_back(a[c>>(2*i)&3]); setV(vi,rr); continue; }
    if(m=="vpermd"||m=="vpermps"){ Val a=src(p[0],nb,32,in),ix=src(p[1],nb,32,in),rr; for(int i=0;i<8;i++){ if(!D.isConst(ix[i])){ I.stop("symbolic vpermd"); return; } rr.push_back(a[D.uval(ix[i])&7]); } setV(vi,rr); continue; }
    if(m=="vpshufb"){ Val mk=src(p[0],nb,8,in),a=src(p[1],nb,8,in); setV(vi,pshufb(I,a,mk)); continue; }
    if(m=="vpshufd"){ u64 c=imm(); Val a=src(p[1],nb,32,in),rr; for(size_t i=0;i<a.size();i++) rr.push_back(a[(i&~3)+(c>>(2*(i&3))&3)]); setV(vi,rr); continue; }
    if(m=="vpshuflw"||m=="vpshufhw"){ u64 c=imm(); int h=m=="vpshufhw"?4:0; Val a=src(p[1],nb,16,in),rr=a; for(size_t l=0;l<a.size();l+=8) for(int i=0;i<4;i++) rr[l+h+i]=a[l+h+(c>>(2*i)&3)]; setV(vi,rr); continue; }
    if(m=="vshufps"){ u64 c=imm(); Val b2=src(p[1],nb,32,in),a=src(p[2],nb,32,in),rr; for(size_t l=0;l<a.size();l+=4) for(int i=0;i<4;i++) rr.push_back((i<2?a:b2)[l+(c>>(2*i)&3)]); setV(vi,rr); continue; }
    { bool lo=m.compare(0,8,"vpunpckl")==0,hi=m.compare(0,8,"vpunpckh")==0; if(lo||hi){ std::string s=m.substr(8); int lw=s=="bw"?8:s=="wd"?16:s=="dq"?32:64; Val b2=src(p[0],nb,lw,in),a=src(p[1],nb,lw,in),rr; int per=128/lw; for(size_t l=0;l<a.size();l+=per) for(int i=0;i<per/2;i++){ int s2=l+i+(hi?per/2:0); rr.push_back(a[s2]); rr.push_back(b2[s2]); } setV(vi,rr); continue; } }
    if(m.compare(0,12,"vpbroadcastq")==0||m=="vpbroadcastd"||m=="vpbroadcastw"||m=="vpbroadcastb"||m=="vbroadcastss"){ int lw=m.back()=='q'?64:m.back()=='w'?16:m.back()=='b'?8:32; int j,jb; NID v; if(vreg(p[0],j,jb)) v=reslice(y[j],lw)[0]; else v=I.loadInt(ea(p[0],in),lw,1); setV(vi,Val(vb*8/lw,v)); continue; }
    if(m=="vbroadcasti128"){ Val v=loadV(ea(p[0],in),16,1); Val a=v; a.insert(a.end(),v.begin(),v.end()); setV(vi,a); continue; }
    if(m=="vpmaxsw"||m=="vpminsw"){ Val b2=src(p[0],nb,16,in),a=src(p[1],nb,16,in),rr; for(size_t i=0;i<a.size();i++){ NID c=D.icmpSlt(a[i],b2[i]); rr.push_back(m=="vpmaxsw"?D.select(c,b2[i],a[i]):D.select(c,a[i],b2[i])); } setV(vi,rr); continue; }
    if(m=="vpcmpgtw"||m=="vpcmpeqw"){ Val b2=src(p[0],nb,16,in),a=src(p[1],nb,16,in),rr; for(size_t i=0;i<a.size();i++) rr.push_back(D.sext(m=="vpcmpgtw"?D.icmpSlt(b2[i],a[i]):D.icmpEq(a[i],b2[i]),16)); setV(vi,rr); continue; }
    if(m=="vpmaddwd"){ Val b2=src(p[0],nb,16,in),a=src(p[1],nb,16,in),rr; for(size_t i=0;i<a.size();i+=2) rr.push_back(D.bin(ADD,D.bin(MUL,D.sext(a[i],32),D.sext(b2[i],32)),D.bin(MUL,D.sext(a[i+1],32),D.sext(b2[i+1],32)))); setV(vi,rr); continue; }
    I.stop("assembly instruction not modelled: "+m); return;
  }
}
void Interp::callAsm(const std::string&n,std::vector<Val>&a,Val&ret){
  fnSeen.insert(n); auto it=syms.find(n); X86 X(*this); for(int i=0;i<16;i++){ X.g[i]=D.mkUninit(64); X.y[i]=Val(16,D.mkUninit(16)); }
  const int SZ=8192; int st=newRegion("assembly stack of "+n,'t',SZ,64,true); X.g[4]=D.mkPtr(st,D.mkConst(SZ-8,64)); storeInt(X.g[4],D.mkConst(0x5a5a,64),8);
  static int order[]={7,6,2,1,8,9}; for(size_t i=0;i<a.size();i++){ if(i>=6||a[i].size()!=1){ stop("assembly call arguments"); return; } NID v=a[i][0]; X.g[order[i]]=D.w(v)==64?v:D.zext(v,64); }
  for(int i:{3,5,12,13,14,15}){ H128 h(120); h.add(i); X.g[i]=D.mkAtomBits(h.fin(),64,false); }
  bool sv=inAsm; inAsm=true; asmFn=n; asmLoc=n; X.run(it->second.first,it->second.second); updateLoc(); inAsm=sv; ret={D.w(X.g[0])==64?X.g[0]:D.mkUninit(64)}; if(S.r[st]){ Region&x=rw(st); x.alive=false; x.c.clear(); }
}
