// Decryption-failure probability of the specified scheme, from exact convolution of its distributions.
// One coefficient of v - s^T u minus its encoded message bit is  e^T r + e2 + cv - s^T (e1 + cu);  e, s, r are centred
// binomials of width eta1, e1 and e2 of width eta2, cu and cv the rounding errors of compression to du and dv bits.
#include "spec.hpp"
#include <cmath>
typedef std::vector<double> Law;   // index d+OFF, d in (-q/2, q/2]
static const int OFF=(Q-1)/2;
static int cen(i64 x){ x%=Q; if(x<0) x+=Q; return x>OFF?x-Q:x; }
static Law zero(){ return Law(Q,0.0); }
static Law conv(const Law&a,const Law&b){ Law r=zero(); for(int i=0;i<Q;i++) if(a[i]!=0) for(int j=0;j<Q;j++) if(b[j]!=0) r[cen(i+j-2*OFF)+OFF]+=a[i]*b[j]; return r; }
static Law prod(const Law&a,const Law&b){ Law r=zero(); for(int i=0;i<Q;i++) if(a[i]!=0) for(int j=0;j<Q;j++) if(b[j]!=0) r[cen((i64)(i-OFF)*(j-OFF))+OFF]+=a[i]*b[j]; return r; }
static Law power(Law x,int n){ Law r=zero(); r[OFF]=1; while(n){ if(n&1) r=conv(r,x); n>>=1; if(n) x=conv(x,x); } return r; }
static Law binomial(int eta){ Law r=zero(); for(int m=0;m<(1<<(2*eta));m++) r[__builtin_popcount(m>>eta)-__builtin_popcount(m&((1<<eta)-1))+OFF]+=1.0/(1<<(2*eta)); return r; }
static Law rounding(int d){ Law r=zero(); for(int x=0;x<Q;x++){ int y=(int)((((i64)x<<d)+Q/2)/Q)&((1<<d)-1); int z=(int)(((i64)y*Q+(1<<(d-1)))>>d); r[cen(x-z)+OFF]+=1.0/Q; } return r; }
void probMode(std::function<void(const std::string&,const std::string&)> add){
  for(int K=2;K<=4;K++){ Param P=param(K); Law n1=binomial(P.eta1),n2=binomial(2);
    Law B1=prod(n1,n1),B2=prod(n1,conv(n2,rounding(P.du))); Law D=conv(conv(power(B1,256*K),power(B2,256*K)),conv(rounding(P.dv),n2));
    double t=0,tot=0; for(int i=0;i<Q;i++){ int d=i-OFF; tot+=D[i]; if(d>=Q/4||-d>Q/4) t+=D[i]; } // encoded 1 is 1665, half a step above q/2

    char b[64]; snprintf(b,64,"%.4f",std::log2(256*t)); add("log2_failure_"+std::to_string(256*K),b); snprintf(b,64,"%.12f",tot); add("mass_"+std::to_string(256*K),b); }
}
