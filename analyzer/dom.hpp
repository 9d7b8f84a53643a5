// Abstract value domain of the analyser.  No LLVM in here.
//
// Every scalar computed by the analysed program is a hash-consed node.  A node carries
//   * an interval (signed, exact where the value is a function of <=16 bits or of one
//     value with <=2^16 possibilities: "table" nodes),
//   * a secrecy label,
//   * a residue "fingerprint" modulo q in F_q^8 (random interpretation of the polynomial
//     identity domain, Gulwani/Necula),
//   * for single bits an element of GF(2^128) (random interpretation of the Boolean ring).
#pragma once
#include <cstdint>
#include <vector>
#include <string>
#include <map>
#include <unordered_map>
#include <functional>
#include <memory>
#include <cstring>
#include <cstdio>
#include <cstdlib>
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef int64_t i64; typedef __int128 i128;
typedef u32 NID;
static const int Q = 3329;
static const int LANES = 8;

struct Fp { u16 v[LANES]; };
struct G { u64 a, b; bool operator==(const G&o) const {return a==o.a&&b==o.b;} bool operator<(const G&o) const {return a<o.a||(a==o.a&&b<o.b);} };
inline G gxor(G x, G y){ return {x.a^y.a, x.b^y.b}; }
G gmul(G x, G y);
inline G gone(){ return {1,0}; }
inline G gzero(){ return {0,0}; }
inline bool giszero(G x){return !x.a&&!x.b;}

// 128-bit mixing hash
struct H128 { u64 a, b; H128(u64 s=0); void add(u64 x); void addG(G g){add(g.a);add(g.b);} void adds(const std::string&s); G fin() const; };
Fp fpPrf(G seed);
Fp fpConst(i128 c);
Fp fpAdd(const Fp&,const Fp&); Fp fpSub(const Fp&,const Fp&); Fp fpMul(const Fp&,const Fp&); Fp fpScale(const Fp&, i64 c);
inline bool fpEq(const Fp&x,const Fp&y){ return memcmp(&x,&y,sizeof x)==0; }

enum Kind : u8 { KCONST, KATOM, KBITX, KTABB, KTABV, KCAT, KOP, KPTR, KUNINIT };
enum Op : u8 { ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR, TRUNC, ZEXT, SEXT,
  EQ, ULT, SLT, SELECT, EXTRACT, PLACE, LFPROD, NZMASK, OPAQUE, SATS, SATU, ABS, NOP };
extern const char* opName[];

struct Slice { NID n; u8 off, len; };
struct Node {
  Kind k; u8 op; u8 w; bool secret; bool fpDone; bool lfDone; bool gDone; bool wrap;
  bool ext;         // depends on something other than the arguments of the call (state kept between calls, hidden random bytes)
  bool smp, strm;   // depends on rejection-sampling counters / on raw XOF stream bits
  u32 tab;          // table id (KTABB/KTABV)
  u32 ap, an;       // args (KOP, KTABB: args; KTABV: base in args[0]; KCAT: slices packed)
  i64 c;            // const value (sign-extended) / KPTR region
  i64 lo, hi;
  u64 ones;         // possible-one bits mask (over-approximation)
  G id;             // KATOM/KBITX identity
  Fp fp; G g;
  u16 lfc, lfd; NID lfa;
};

// table contents: built as 64-bit values, kept in the narrowest width that holds them
struct TVec { std::vector<i64> w; std::vector<int32_t> n; std::vector<int16_t> h; u8 mode=0;
  size_t size() const { return mode==2?h.size():mode==1?n.size():w.size(); }
  i64 operator[](size_t i) const { return mode==2?h[i]:mode==1?n[i]:w[i]; }
  void push_back(i64 x){ w.push_back(x); } void reserve(size_t k){ w.reserve(k); } void resize(size_t k){ w.resize(k); } void set(size_t i,i64 x){ w[i]=x; } void swap(std::vector<i64>&o){ w.swap(o); }
  void pack(i64 mn,i64 mx){ if(mn>=-32768&&mx<=32767){ h.assign(w.begin(),w.end()); mode=2; } else if(mn>=INT32_MIN&&mx<=INT32_MAX){ n.assign(w.begin(),w.end()); mode=1; } else { w.shrink_to_fit(); return; } std::vector<i64>().swap(w); }
  bool operator==(const TVec&o) const { if(size()!=o.size()) return false; for(size_t i=0;i<size();i++) if((*this)[i]!=o[i]) return false; return true; }
  struct It { const TVec*t; size_t i; i64 operator*() const { return (*t)[i]; } It& operator++(){ i++; return *this; } bool operator!=(const It&o) const { return i!=o.i; } };
  It begin() const { return {this,0}; } It end() const { return {this,size()}; } };
struct Tab { int nb; i64 lo; u32 n; u8 w; TVec v; i64 mn, mx; u64 ones; G h;
  bool affQDone=false, affQ=false; int aqc=0, aqd=0;
  bool aff16Done=false, aff16=false; u16 a16c=0, a16d=0;
  bool qfDone=false, qf=false; std::vector<i64> qv; G qh;
  bool mskDone=false, msk=false; };

// open-addressing map from a 64-bit key to a node; iterator-like interface of the few operations used
struct NMap { std::vector<std::pair<u64,NID>> t; size_t n=0; 
  static u64 mixk(u64 x){ x^=x>>31; x*=0x9e3779b97f4a7c15ULL; x^=x>>29; return x; }
  typedef std::pair<u64,NID>* iterator; iterator end(){ return nullptr; }
  size_t slot(u64 k) const { size_t m=t.size()-1,i=mixk(k)&m; while(t[i].second&&t[i].first!=k) i=(i+1)&m; return i; }   // node 0 marks a free slot, so values are stored +1
  void grow(){ std::vector<std::pair<u64,NID>> o; o.swap(t); t.assign(o.empty()?1024:o.size()*2,{0,0}); for(auto&e:o) if(e.second) t[slot(e.first)]=e; }
  NID get(u64 k) const { if(t.empty()) return ~0u; size_t i=slot(k); return t[i].second?t[i].second-1:~0u; }
  void set(u64 k,NID v){ if((n+1)*2>t.size()) grow(); size_t i=slot(k); if(!t[i].second){ n++; t[i].first=k; } t[i].second=v+1; } };
struct NSet { std::vector<std::pair<u32,NID>> t; size_t n=0;   // hash-cons table: (hash, node), duplicates of a hash probe on
  void grow(){ std::vector<std::pair<u32,NID>> o; o.swap(t); t.assign(o.empty()?4096:o.size()*2,{0,0}); size_t m=t.size()-1; for(auto&e:o) if(e.second){ size_t i=e.first&m; while(t[i].second) i=(i+1)&m; t[i]=e; } }
  void put(u32 h,NID v){ if((n+1)*2>t.size()) grow(); size_t m=t.size()-1,i=h&m; while(t[i].second) i=(i+1)&m; t[i]={h,v+1}; n++; } };
// growable array with stable references
template<class E> struct Chunked { std::vector<E*> c; size_t sz=0;
  E& operator[](size_t i){ return c[i>>14][i&16383]; } const E& operator[](size_t i) const { return c[i>>14][i&16383]; }
  void push_back(const E&e){ if((sz&16383)==0) c.push_back(new E[16384]); (*this)[sz++]=e; } size_t size() const { return sz; } };
struct Dom {
  bool polyBits=false; // bits are polynomials over GF(2), without Boolean normalisation beyond x*x and x*(x+1)
  Chunked<Node> N; std::vector<u32> A; Chunked<Tab> T;
  std::unordered_map<NID,NID> shiftSrc, castSrc;   // provenance of table nodes (used for residues)
  // statistics
  u64 nOps=0, nTabOps=0;
  bool lastWrapS=false;      // set by mkBin: signed wrap possible in the last ADD/SUB/MUL/SHL
  Dom();
  const Node& n(NID x) const { return N[x]; }
  int w(NID x) const { return N[x].w; }
  bool isConst(NID x) const { return N[x].k==KCONST; }
  i64 cval(NID x) const { return N[x].c; }
  u64 uval(NID x) const { int w=N[x].w; u64 v=(u64)N[x].c; return w>=64?v:(v&((1ULL<<w)-1)); }
  bool isUninit(NID x) const { return N[x].k==KUNINIT; }
  bool hasUninit(NID x) const;   // uninit anywhere in the slices
  bool secret(NID x) const { return N[x].secret; }
  NID arg(NID x,int i) const { return A[N[x].ap+i]; }
  std::vector<Slice> slices(NID x) const;

  NID mkConst(i64 v,int w);
  NID mkAtomBits(const G&id,int w,bool secret);                 // opaque bit string
  NID mkAtomInt(const G&id,int w,i64 lo,i64 hi,bool secret);    // opaque integer with range
  NID mkUninit(int w);
  NID mkPtr(int region, NID off);
  NID mkBitX(const G&g,bool secret,bool e=false);
  NID mkCat(std::vector<Slice> s);                              // LSB first
  NID extract(NID x,int off,int len);
  NID concat(const std::vector<NID>& parts);                    // LSB first
  NID bit(NID x,int i);

  NID bin(Op op, NID a, NID b);
  NID trunc(NID a,int w); NID zext(NID a,int w); NID sext(NID a,int w);
  NID icmpEq(NID a,NID b); NID icmpUlt(NID a,NID b); NID icmpSlt(NID a,NID b);
  NID bnot(NID b); NID band(NID a,NID b); NID bor(NID a,NID b); NID bxor(NID a,NID b);
  NID select(NID c,NID a,NID b);
  NID satS(NID a,int w); NID satU(NID a,int w);                 // signed input -> signed/unsigned saturation to w bits
  NID absv(NID a);
  NID opaque(int w, const std::vector<NID>& args, const std::string& tag, i64 lo, i64 hi);
  NID lookup(const std::vector<NID>& table, NID idx);           // table of consts indexed by small-support value (0 if impossible)
  NID withRange(NID x,i64 lo,i64 hi);

  Fp fp(NID x); G g(NID bit);
  void gBits(NID x, std::vector<G>& out) { for(int i=0;i<w(x);i++) out.push_back(g(bit(x,i))); }
  Fp qIndicatorFp(const Fp& base, const std::vector<i64>& qv);
  G qBitG(const Fp& base, const std::vector<u8>& bits);         // bit = bits[x mod q]
  // make a node from the function f over the bits of x (support <=16)
  NID mapTab(NID x, int w, const std::function<i64(i64)>& f);
  std::string show(NID x,int depth=3);
  bool smallSupport(NID x);
  bool zeroOrOnes(NID x, NID& c); // x is a mask of bit c

  // --- internals
  NSet consMap;
  NMap binMemo[64];
  NMap extMemo;
  struct TOpRes { u32 tab; u32 keep; bool wrap; };
  std::map<std::vector<u64>,TOpRes> tabMemo;
  std::unordered_map<u64,std::vector<u32>> tabCons;
  NID add(Node&&nd, const std::vector<u32>& args);
  u32 mkTab(Tab&&t);
  u32 idTabB(int nb,int w); u32 idTabV(i64 lo,i64 hi,int w);
  struct TB { u32 tab; std::vector<NID> args; bool wrap=false; };  // function of bits
  struct TV { u32 tab; NID base; bool wrap=false; };
  bool toTB(NID x, TB& r,int maxbits=16);
  bool toTV(NID x, TV& r);
  bool baseable(NID x) const;
  NID fromTB(TB&r); NID fromTV(TV&r);
  TB tbBin(Op op,const TB&a,const TB&b,int w); TB tbUn(Op op,const TB&a,int w,int p1=0,int p2=0);
  TV tvBin(Op op,const TV&a,const TV&b,int w); TV tvUn(Op op,const TV&a,int w,int p1=0,int p2=0);
  TB tbConst(i64 c,int w);
  void suppBits(NID x, std::vector<NID>& out, bool& big);
  bool vBase(NID x, NID& base, bool& mixed);
  void tabAffQ(u32 t); void tabAff16(u32 t); void tabQF(u32 t);
  struct LF { u16 c,d; NID atom; }; LF lf(NID x);
  NID arith(Op op,NID a,NID b); NID bitwise(Op op,NID a,NID b); NID shiftc(Op op,NID a,int k);
  NID bitop(Op op,NID x,NID y);
  bool bitStruct(NID x) const;   // value best viewed as a bit string
  std::unordered_map<NID,NID> alias;   // one-bit stream predicates known under a canonical name
  std::unordered_map<u64,NID> latticeMemo;
  struct GH { size_t operator()(const std::pair<u64,u64>&p) const { return p.first^(p.second*0x9e3779b97f4a7c15ULL); } }; std::unordered_map<std::pair<u64,u64>,NID,GH> bitxMap;
  std::map<G,std::pair<Fp,bool>> qBits; std::map<G,std::shared_ptr<std::vector<i64>>> qBitTabs;   // bits known to be functions of a residue mod q
  struct FpHash{ size_t operator()(const std::string&s) const { return std::hash<std::string>()(s);} };
};
extern Dom D;
i64 evalOp(Op op,int w,int wa,i64 a,i64 b,bool&wrap,int p1=0,int p2=0);
inline i64 sx(i64 v,int w){ if(w>=64) return v; u64 m=((u64)v)<<(64-w); return ((i64)m)>>(64-w); }
inline u64 zx(i64 v,int w){ return w>=64?(u64)v:((u64)v & ((1ULL<<w)-1)); }
inline i64 imin(int w){ return w>=64?INT64_MIN:-(1LL<<(w-1)); }
inline i64 imax(int w){ return w>=64?INT64_MAX:(1LL<<(w-1))-1; }
