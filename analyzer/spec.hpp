#pragma once
#include "interp.hpp"
typedef std::vector<NID> Bytes;          // one node per byte
typedef std::vector<std::vector<G>> GBytes;  // 8 bit identities per byte
struct FPoly { std::vector<Fp> c; FPoly():c(256){} };
struct Param { int K, eta1, du, dv, pk, sk, ct; };
Param param(int K);
GBytes gOf(const Bytes&);
Bytes hash(Interp&I,const char*alg,const Bytes&in,int outlen,int off=0);
Bytes bytesOfG(const GBytes&);
FPoly ntt(const FPoly&), invntt(const FPoly&), pmul(const FPoly&,const FPoly&), padd(const FPoly&,const FPoly&), psub(const FPoly&,const FPoly&);
FPoly cbd(const Bytes&buf,int eta);
GBytes encode12(const FPoly&); FPoly decode12(const Bytes&b,size_t off);
GBytes compress(const FPoly&,int d); FPoly decompress(const Bytes&b,size_t off,int d);
struct SpecOut { std::map<std::string,GBytes> out; };
void specKeygen(Interp&I,const Bytes&coins,GBytes&pk,GBytes&sk);
void specEncPke(Interp&I,int K,const GBytes&m,const Bytes&pk,const Bytes&coins,GBytes&ct);
G matId(G stream,int k);
G matStream(Interp&I,const std::vector<NID>&seed,int x,int y);
GBytes specDecPke(int K,const Bytes&ct,const Bytes&sk);
