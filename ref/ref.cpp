#include "ref.h"
#include <algorithm>
namespace ref {
Bytes cat(const Bytes&a,const Bytes&b){ Bytes r=a; app(r,b); return r; }
std::string hex(const uint8_t*p,size_t n){ static const char*d="0123456789abcdef"; std::string s; for(size_t i=0;i<n;i++){ s+=d[p[i]>>4]; s+=d[p[i]&15]; } return s; }
std::string hex(const Bytes&b){ return hex(b.data(),b.size()); }
static int hv(char c){ if(c>='0'&&c<='9')return c-'0'; if(c>='a'&&c<='f')return c-'a'+10; if(c>='A'&&c<='F')return c-'A'+10; return -1; }
bool unhex(const std::string&s,Bytes&o){ o.clear(); if(s.size()%2) return false; for(size_t i=0;i<s.size();i+=2){ int a=hv(s[i]),b=hv(s[i+1]); if(a<0||b<0) return false; o.push_back(a*16+b);} return true; }
void le(Bytes&o,uint64_t v,int n){ for(int i=0;i<n;i++) o.push_back((uint8_t)(v>>(8*i))); }
void be(Bytes&o,uint64_t v,int n){ for(int i=n-1;i>=0;i--) o.push_back(i<8?(uint8_t)(v>>(8*i)):0); }
Bytes varint(uint64_t v){ Bytes o; if(v<0xfd) o.push_back((uint8_t)v); else if(v<=0xffff){o.push_back(0xfd);le(o,v,2);} else if(v<=0xffffffffull){o.push_back(0xfe);le(o,v,4);} else {o.push_back(0xff);le(o,v,8);} return o; }
Bytes varstr(const Bytes&b){ return cat(varint(b.size()),b); }

// ------------------------------------------------------------------ SHA-2
// constants derived at start-up from the primes, as the standard defines them
static uint32_t K256[64],H256[8]; static uint64_t K512[80],H512[8];
static bool sha_ready=false;
// fractional part bits of the cube / square root of a small prime, by integer root of p * 2^(k*bits)
typedef std::vector<uint32_t> Big; // little endian base 2^32
static Big bmul(const Big&a,const Big&b){ Big r(a.size()+b.size(),0); for(size_t i=0;i<a.size();i++){ uint64_t c=0; for(size_t j=0;j<b.size();j++){ uint64_t t=(uint64_t)a[i]*b[j]+r[i+j]+c; r[i+j]=(uint32_t)t; c=t>>32; } r[i+b.size()]+=(uint32_t)c; } while(r.size()&&!r.back()) r.pop_back(); return r; }
static int bcmp2(const Big&a,const Big&b){ if(a.size()!=b.size()) return a.size()<b.size()?-1:1; for(size_t i=a.size();i-->0;) if(a[i]!=b[i]) return a[i]<b[i]?-1:1; return 0; }
static uint64_t fracroot(unsigned p,int k){ // floor(frac(p^(1/k))*2^64)
  Big t; // p << (64*k)
  t.assign(2*k,0); t.push_back(p);
  // x has at most 64+5 bits
  u128 x=0; for(int bit=69;bit>=0;bit--){ u128 c=x|((u128)1<<bit); Big b; u128 q=c; while(q){ b.push_back((uint32_t)q); q>>=32; } Big m=b; for(int i=1;i<k;i++) m=bmul(m,b); if(bcmp2(m,t)<=0) x=c; }
  return (uint64_t)x; }
static void sha_init(){ if(sha_ready) return; std::vector<unsigned> pr; for(unsigned i=2;pr.size()<80;i++){ bool ok=true; for(unsigned q:pr) if(i%q==0) ok=false; if(ok) pr.push_back(i);} 
  for(int i=0;i<80;i++) K512[i]=fracroot(pr[i],3); for(int i=0;i<8;i++) H512[i]=fracroot(pr[i],2);
  for(int i=0;i<64;i++) K256[i]=K512[i]>>32; for(int i=0;i<8;i++) H256[i]=H512[i]>>32; sha_ready=true; }
template<class T> static T ror(T x,int n){ return (x>>n)|(x<<(sizeof(T)*8-n)); }
template<class T,int R> static Bytes sha2(const Bytes&m,const T*K,const T*H0,const int*c,size_t W){
  Bytes d=m; d.push_back(0x80); size_t blk=16*W; while(d.size()%blk!=blk-2*W) d.push_back(0); be(d,0,(int)(2*W-8)); be(d,(uint64_t)m.size()*8,8);
  T h[8]; for(int i=0;i<8;i++) h[i]=H0[i];
  for(size_t o=0;o<d.size();o+=blk){ T w[R]; for(int i=0;i<16;i++){ T x=0; for(size_t j=0;j<W;j++) x=(T)((x<<8)|d[o+i*W+j]); w[i]=x; }
    for(int i=16;i<R;i++){ T s0=ror(w[i-15],c[0])^ror(w[i-15],c[1])^(w[i-15]>>c[2]); T s1=ror(w[i-2],c[3])^ror(w[i-2],c[4])^(w[i-2]>>c[5]); w[i]=w[i-16]+s0+w[i-7]+s1; }
    T a=h[0],b=h[1],cc=h[2],dd=h[3],e=h[4],f=h[5],g=h[6],hh=h[7];
    for(int i=0;i<R;i++){ T S1=ror(e,c[9])^ror(e,c[10])^ror(e,c[11]); T ch=(e&f)^(~e&g); T t1=hh+S1+ch+K[i]+w[i]; T S0=ror(a,c[6])^ror(a,c[7])^ror(a,c[8]); T mj=(a&b)^(a&cc)^(b&cc); T t2=S0+mj; hh=g;g=f;f=e;e=dd+t1;dd=cc;cc=b;b=a;a=t1+t2; }
    h[0]+=a;h[1]+=b;h[2]+=cc;h[3]+=dd;h[4]+=e;h[5]+=f;h[6]+=g;h[7]+=hh; }
  Bytes r; for(int i=0;i<8;i++) be(r,h[i],(int)W); return r; }
Bytes sha256(const Bytes&m){ sha_init(); static const int c[12]={7,18,3,17,19,10,2,13,22,6,11,25}; return sha2<uint32_t,64>(m,K256,H256,c,4); }
Bytes sha512(const Bytes&m){ sha_init(); static const int c[12]={1,8,7,19,61,6,28,34,39,14,18,41}; return sha2<uint64_t,80>(m,K512,H512,c,8); }
// ------------------------------------------------------------------ RIPEMD-160
Bytes rmd160(const Bytes&m){
  static const uint8_t r1[80]={0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,7,4,13,1,10,6,15,3,12,0,9,5,2,14,11,8,3,10,14,4,9,15,8,1,2,7,0,6,13,11,5,12,1,9,11,10,0,8,12,4,13,3,7,15,14,5,6,2,4,0,5,9,7,12,2,10,14,1,3,8,11,6,15,13};
  static const uint8_t r2[80]={5,14,7,0,9,2,11,4,13,6,15,8,1,10,3,12,6,11,3,7,0,13,5,10,14,15,8,12,4,9,1,2,15,5,1,3,7,14,6,9,11,8,12,2,10,0,4,13,8,6,4,1,3,11,15,0,5,12,2,13,9,7,10,14,12,15,10,4,1,5,8,7,6,2,13,14,0,3,9,11};
  static const uint8_t s1[80]={11,14,15,12,5,8,7,9,11,13,14,15,6,7,9,8,7,6,8,13,11,9,7,15,7,12,15,9,11,7,13,12,11,13,6,7,14,9,13,15,14,8,13,6,5,12,7,5,11,12,14,15,14,15,9,8,9,14,5,6,8,6,5,12,9,15,5,11,6,8,13,12,5,12,13,14,11,8,5,6};
  static const uint8_t s2[80]={8,9,9,11,13,15,15,5,7,7,8,11,14,14,12,6,9,13,15,7,12,8,9,11,7,7,12,7,6,15,13,11,9,7,15,11,8,6,6,14,12,13,5,14,13,13,7,5,15,5,8,11,14,14,6,14,6,9,12,9,12,5,15,8,8,5,12,9,12,5,14,6,8,13,6,5,15,13,11,11};
  static const uint32_t k1[5]={0,0x5a827999,0x6ed9eba1,0x8f1bbcdc,0xa953fd4e},k2[5]={0x50a28be6,0x5c4dd124,0x6d703ef3,0x7a6d76e9,0};
  auto f=[](int j,uint32_t x,uint32_t y,uint32_t z)->uint32_t{ switch(j){case 0:return x^y^z;case 1:return (x&y)|(~x&z);case 2:return (x|~y)^z;case 3:return (x&z)|(y&~z);default:return x^(y|~z);} };
  auto rol=[](uint32_t x,int n){ return (x<<n)|(x>>(32-n)); };
  Bytes d=m; d.push_back(0x80); while(d.size()%64!=56) d.push_back(0); le(d,(uint64_t)m.size()*8,8);
  uint32_t h[5]={0x67452301,0xefcdab89,0x98badcfe,0x10325476,0xc3d2e1f0};
  for(size_t o=0;o<d.size();o+=64){ uint32_t w[16]; for(int i=0;i<16;i++) w[i]=d[o+4*i]|d[o+4*i+1]<<8|d[o+4*i+2]<<16|(uint32_t)d[o+4*i+3]<<24;
    uint32_t a=h[0],b=h[1],c=h[2],e=h[3],g=h[4],A=a,Bb=b,C=c,D=e,E=g;
    for(int j=0;j<80;j++){ uint32_t t=rol(a+f(j/16,b,c,e)+w[r1[j]]+k1[j/16],s1[j])+g; a=g;g=e;e=rol(c,10);c=b;b=t; t=rol(A+f(4-j/16,Bb,C,D)+w[r2[j]]+k2[j/16],s2[j])+E; A=E;E=D;D=rol(C,10);C=Bb;Bb=t; }
    uint32_t t=h[1]+c+D; h[1]=h[2]+e+E; h[2]=h[3]+g+A; h[3]=h[4]+a+Bb; h[4]=h[0]+b+C; h[0]=t; }
  Bytes r; for(int i=0;i<5;i++) le(r,h[i],4); return r; }
Bytes hash160(const Bytes&m){ return rmd160(sha256(m)); }
Bytes dsha(const Bytes&m){ return sha256(sha256(m)); }
static Bytes hmac(const Bytes&k,const Bytes&m,size_t blk,Bytes(*H)(const Bytes&)){ Bytes kk=k; if(kk.size()>blk) kk=H(kk); kk.resize(blk,0); Bytes i=kk,o=kk; for(auto&x:i) x^=0x36; for(auto&x:o) x^=0x5c; return H(cat(o,H(cat(i,m)))); }
Bytes hmac256(const Bytes&k,const Bytes&m){ return hmac(k,m,64,sha256); }
Bytes hmac512(const Bytes&k,const Bytes&m){ return hmac(k,m,128,sha512); }
static Bytes pb(const Bytes&pw,const Bytes&salt,int rounds,int outlen,Bytes(*M)(const Bytes&,const Bytes&)){ Bytes out; for(uint32_t i=1;(int)out.size()<outlen;i++){ Bytes s=salt; be(s,i,4); Bytes u=M(pw,s),t=u; for(int r=1;r<rounds;r++){ u=M(pw,u); for(size_t j=0;j<t.size();j++) t[j]^=u[j]; } app(out,t);} out.resize(outlen); return out; }
Bytes pbkdf2_512(const Bytes&pw,const Bytes&salt,int r,int n){ return pb(pw,salt,r,n,hmac512); }
Bytes pbkdf2_256(const Bytes&pw,const Bytes&salt,int r,int n){ return pb(pw,salt,r,n,hmac256); }
Bytes tagged(const std::string&tag,const Bytes&m){ Bytes t=sha256(B(tag)); return sha256(cat(cat(t,t),m)); }

// ------------------------------------------------------------------ text encodings
static const char*A58="123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
static const char*A43="0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ$*+-./:";
static std::string baseN(const Bytes&b,unsigned N,const char*al){ size_t z=0; while(z<b.size()&&!b[z]) z++; std::vector<uint32_t> n; // LE digits
  for(size_t i=z;i<b.size();i++){ uint32_t c=b[i]; for(auto&d:n){ uint32_t t=d*256+c; d=t%N; c=t/N; } while(c){ n.push_back(c%N); c/=N; } }
  std::string s(z,al[0]); for(size_t i=n.size();i-->0;) s+=al[n[i]]; return s; }
static bool unbaseN(const std::string&s,unsigned N,const char*al,Bytes&o){ o.clear(); size_t z=0; while(z<s.size()&&s[z]==al[0]) z++; std::vector<uint32_t> n;
  for(size_t i=z;i<s.size();i++){ int v=-1; for(unsigned k=0;k<N;k++) if(al[k]==s[i]) v=k; if(v<0) return false; uint32_t c=v; for(auto&d:n){ uint32_t t=d*N+c; d=t&255; c=t>>8; } while(c){ n.push_back(c&255); c>>=8; } }
  o.assign(z,0); for(size_t i=n.size();i-->0;) o.push_back((uint8_t)n[i]); return true; }
std::string base58(const Bytes&b){ return baseN(b,58,A58); }
bool unbase58(const std::string&s,Bytes&o){ return unbaseN(s,58,A58,o); }
std::string base43(const Bytes&b){ return baseN(b,43,A43); }
bool unbase43(const std::string&s,Bytes&o){ return unbaseN(s,43,A43,o); }
std::string base58check(const Bytes&b){ Bytes c=dsha(b); return base58(cat(b,Bytes(c.begin(),c.begin()+4))); }
bool unbase58check(const std::string&s,Bytes&o){ Bytes r; o.clear(); if(!unbase58(s,r)||r.size()<4) return false; Bytes p(r.begin(),r.end()-4); Bytes c=dsha(p); if(memcmp(c.data(),&r[r.size()-4],4)) return false; o=p; return true; }
static std::string al64(bool u){ std::string a; for(char c='A';c<='Z';c++)a+=c; for(char c='a';c<='z';c++)a+=c; for(char c='0';c<='9';c++)a+=c; a+=u?"-_":"+/"; return a; }
std::string base64(const Bytes&b,bool u,bool pad){ std::string a=al64(u),s; for(size_t i=0;i<b.size();i+=3){ uint32_t v=b[i]<<16|(i+1<b.size()?b[i+1]<<8:0)|(i+2<b.size()?b[i+2]:0); s+=a[v>>18]; s+=a[(v>>12)&63]; if(i+1<b.size()) s+=a[(v>>6)&63]; else if(pad) s+='='; if(i+2<b.size()) s+=a[v&63]; else if(pad) s+='='; } return s; }
bool unbase64(const std::string&s,Bytes&o,bool u){ o.clear(); std::string a=al64(u); std::string t=s; int p=0; while(p<2&&t.size()&&t.back()=='='){t.pop_back();p++;} if(s.size()%4||(t.size()%4==1)) return false; if(p&&(t.size()+p)%4) return false; uint32_t acc=0;int bits=0; for(char c:t){ size_t v=a.find(c); if(v==std::string::npos) return false; acc=acc<<6|(uint32_t)v; bits+=6; if(bits>=8){ bits-=8; o.push_back((uint8_t)(acc>>bits)); acc&=(1u<<bits)-1; } } return true; }
std::string bin(const Bytes&b){ std::string s; for(uint8_t x:b) for(int i=7;i>=0;i--) s+=(x>>i&1)?'1':'0'; return s; }
static const char*BC="qpzry9x8gf2tvdw0s3jn54khce6mua7l";
static uint32_t polymod(const std::vector<uint8_t>&v){ static const uint32_t g[5]={0x3b6a57b2,0x26508e6d,0x1ea119fa,0x3d4233dd,0x2a1462b3}; uint32_t c=1; for(uint8_t x:v){ uint32_t t=c>>25; c=(c&0x1ffffff)<<5^x; for(int i=0;i<5;i++) if(t>>i&1) c^=g[i]; } return c; }
static std::vector<uint8_t> hrpx(const std::string&h){ std::vector<uint8_t> r; for(char c:h) r.push_back(((uint8_t)c)>>5); r.push_back(0); for(char c:h) r.push_back(c&31); return r; }
std::string bech32_raw(const std::string&hrp,const std::vector<uint8_t>&d,uint32_t k){ auto v=hrpx(hrp); v.insert(v.end(),d.begin(),d.end()); for(int i=0;i<6;i++) v.push_back(0); uint32_t m=polymod(v)^k; std::string s=hrp+"1"; for(uint8_t x:d) s+=BC[x]; for(int i=0;i<6;i++) s+=BC[(m>>(5*(5-i)))&31]; return s; }
static std::vector<uint8_t> to5(const Bytes&b){ std::vector<uint8_t> r; uint32_t a=0;int n=0; for(uint8_t x:b){ a=a<<8|x; n+=8; while(n>=5){ n-=5; r.push_back(a>>n&31);} a&=0xff; } if(n) r.push_back((a<<(5-n))&31); return r; }
std::string segwit(const std::string&hrp,int ver,const Bytes&prog,int enc){ if(!enc) enc=ver?2:1; std::vector<uint8_t> d{(uint8_t)ver}; auto t=to5(prog); d.insert(d.end(),t.begin(),t.end()); return bech32_raw(hrp,d,enc==1?1:0x2bc830a3); }
bool unsegwit(const std::string&hrp,const std::string&a,int&ver,Bytes&prog,int&enc){ prog.clear(); if(a.size()>90||a.size()<8) return false; bool lo=false,up=false; std::string s; for(char c:a){ if((uint8_t)c<33||(uint8_t)c>126) return false; if(c>='a'&&c<='z') lo=true; if(c>='A'&&c<='Z'){up=true; c+=32;} s+=c; } if(lo&&up) return false; size_t p=s.rfind('1'); if(p==std::string::npos||p<1||p+7>s.size()) return false; if(s.substr(0,p)!=hrp) return false; auto v=hrpx(hrp); std::vector<uint8_t> d; for(size_t i=p+1;i<s.size();i++){ const char*q=strchr(BC,s[i]); if(!s[i]||!q) return false; d.push_back((uint8_t)(q-BC)); v.push_back(d.back()); } uint32_t m=polymod(v); if(m==1) enc=1; else if(m==0x2bc830a3) enc=2; else return false; d.resize(d.size()-6); if(d.empty()||d[0]>16) return false; uint32_t acc=0;int n=0; for(size_t i=1;i<d.size();i++){ acc=(acc<<5|d[i])&0xfff; n+=5; if(n>=8){ n-=8; prog.push_back((uint8_t)(acc>>n)); } } if(n>=5||(acc&((1u<<n)-1))) return false; if(prog.size()<2||prog.size()>40) return false; if(d[0]==0&&prog.size()!=20&&prog.size()!=32) return false; ver=d[0]; return true; }
std::string descsum(const std::string&s){ static const std::string IN="0123456789()[],'/*abcdefgh@:$%{}IJKLMNOPQRSTUVWXYZ&+-.;<=>?!^_|~ijklmnopqrstuvwxyzABCDEFGH`#\"\\ "; static const uint64_t g[5]={0xf5dee51989ull,0xa9fdca3312ull,0x1bab10e32dull,0x3706b1677aull,0x644d626ffdull};
  std::vector<int> sym; std::vector<int> grp; for(char c:s){ size_t v=IN.find(c); if(v==std::string::npos) return ""; sym.push_back(v&31); grp.push_back((int)(v>>5)); if(grp.size()==3){ sym.push_back(grp[0]*9+grp[1]*3+grp[2]); grp.clear(); } } if(grp.size()==1) sym.push_back(grp[0]); else if(grp.size()==2) sym.push_back(grp[0]*3+grp[1]); for(int i=0;i<8;i++) sym.push_back(0);
  uint64_t c=1; for(int v:sym){ uint64_t t=c>>35; c=(c&0x7ffffffffull)<<5^v; for(int i=0;i<5;i++) if(t>>i&1) c^=g[i]; } c^=1; std::string r; for(int i=0;i<8;i++) r+=BC[(c>>(5*(7-i)))&31]; return r; }

// ------------------------------------------------------------------ 256-bit arithmetic
U256 u256(const uint8_t*b){ U256 r; for(int i=0;i<4;i++){ uint64_t x=0; for(int j=0;j<8;j++) x=x<<8|b[(3-i)*8+j]; r.v[i]=x; } return r; }
U256 u256hex(const char*s){ Bytes b; std::string t(s); while(t.size()<64) t="0"+t; unhex(t,b); return u256(b.data()); }
void put(const U256&a,uint8_t*o){ for(int i=0;i<4;i++) for(int j=0;j<8;j++) o[(3-i)*8+j]=(uint8_t)(a.v[i]>>(8*(7-j))); }
Bytes b32(const U256&a){ Bytes b(32); put(a,b.data()); return b; }
int cmp(const U256&a,const U256&b){ for(int i=3;i>=0;i--) if(a.v[i]!=b.v[i]) return a.v[i]<b.v[i]?-1:1; return 0; }
bool iszero(const U256&a){ return !(a.v[0]|a.v[1]|a.v[2]|a.v[3]); }
const U256 P=u256hex("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f");
const U256 N=u256hex("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141");
const U256 NHALF=u256hex("7fffffffffffffffffffffffffffffff5d576e7357a4501ddfe92f46681b20a0");
static int addc(U256&r,const U256&a,const U256&b){ u128 c=0; for(int i=0;i<4;i++){ c+=(u128)a.v[i]+b.v[i]; r.v[i]=(uint64_t)c; c>>=64; } return (int)c; }
static int subb(U256&r,const U256&a,const U256&b){ int bw=0; for(int i=0;i<4;i++){ u128 t=(u128)a.v[i]-b.v[i]-bw; r.v[i]=(uint64_t)t; bw=(int)(t>>64)&1; } return bw; }
U256 redm(const U256&a,const U256&m){ U256 r=a; while(cmp(r,m)>=0) subb(r,r,m); return r; } // both moduli exceed 2^255
U256 addm(const U256&a,const U256&b,const U256&m){ U256 r; if(addc(r,a,b)||cmp(r,m)>=0) subb(r,r,m); return r; }
U256 subm(const U256&a,const U256&b,const U256&m){ U256 r; if(subb(r,a,b)) addc(r,r,m); return r; }
U256 negm(const U256&a,const U256&m){ return subm(U256(),redm(a,m),m); }
U256 mulm(const U256&a,const U256&b,const U256&m){
  uint64_t t[9]={0}; for(int i=0;i<4;i++){ u128 c=0; for(int j=0;j<4;j++){ c+=(u128)a.v[i]*b.v[j]+t[i+j]; t[i+j]=(uint64_t)c; c>>=64; } t[i+4]=(uint64_t)c; }
  U256 c; subb(c,U256(),m); // 2^256 - m
  while(t[4]|t[5]|t[6]|t[7]){ uint64_t h[4]={t[4],t[5],t[6],t[7]},o[9]={t[0],t[1],t[2],t[3],0,0,0,0,0}; 
    for(int i=0;i<4;i++){ u128 k=0; for(int j=0;j<4;j++){ k+=(u128)h[i]*c.v[j]+o[i+j]; o[i+j]=(uint64_t)k; k>>=64; } for(int j=i+4;k&&j<8;j++){ k+=o[j]; o[j]=(uint64_t)k; k>>=64; } }
    memcpy(t,o,sizeof(uint64_t)*8); }
  U256 r; memcpy(r.v,t,32); return redm(r,m); }
U256 powm(const U256&a,const U256&e,const U256&m){ U256 r(1); for(int i=255;i>=0;i--){ r=mulm(r,r,m); if(e.v[i/64]>>(i%64)&1) r=mulm(r,a,m); } return r; }
U256 invm(const U256&a,const U256&m){ U256 e; subb(e,m,U256(2)); return powm(a,e,m); }
static Pt mkG(){ Pt g; g.inf=false; g.x=u256hex("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"); g.y=u256hex("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8"); return g; }
const Pt G=mkG();
bool oncurve(const Pt&p){ if(p.inf||cmp(p.x,P)>=0||cmp(p.y,P)>=0) return false; U256 l=mulm(p.y,p.y,P),r=addm(mulm(mulm(p.x,p.x,P),p.x,P),U256(7),P); return cmp(l,r)==0; }
Pt pneg(const Pt&p){ Pt r=p; if(!p.inf) r.y=negm(p.y,P); return r; }
Pt padd(const Pt&a,const Pt&b){ if(a.inf) return b; if(b.inf) return a; U256 l; if(cmp(a.x,b.x)==0){ if(cmp(a.y,b.y)!=0||iszero(a.y)) return Pt(); U256 xx=mulm(a.x,a.x,P); l=mulm(addm(addm(xx,xx,P),xx,P),invm(addm(a.y,a.y,P),P),P);} else l=mulm(subm(b.y,a.y,P),invm(subm(b.x,a.x,P),P),P); Pt r; r.inf=false; r.x=subm(subm(mulm(l,l,P),a.x,P),b.x,P); r.y=subm(mulm(l,subm(a.x,r.x,P),P),a.y,P); return r; }
struct J{ U256 x,y,z; }; // z=0: infinity
static J jdbl(const J&p){ if(iszero(p.z)||iszero(p.y)) return J(); U256 yy=mulm(p.y,p.y,P),s=mulm(p.x,yy,P); s=addm(s,s,P); s=addm(s,s,P); U256 m=mulm(p.x,p.x,P); m=addm(addm(m,m,P),m,P); J r; r.x=subm(mulm(m,m,P),addm(s,s,P),P); U256 y4=mulm(yy,yy,P); y4=addm(y4,y4,P); y4=addm(y4,y4,P); y4=addm(y4,y4,P); r.y=subm(mulm(m,subm(s,r.x,P),P),y4,P); r.z=mulm(p.y,p.z,P); r.z=addm(r.z,r.z,P); return r; }
static J jadd(const J&p,const Pt&q){ if(q.inf) return p; if(iszero(p.z)){ J r; r.x=q.x;r.y=q.y;r.z=U256(1); return r; } U256 zz=mulm(p.z,p.z,P),u2=mulm(q.x,zz,P),s2=mulm(q.y,mulm(zz,p.z,P),P); if(cmp(u2,p.x)==0){ if(cmp(s2,p.y)==0) return jdbl(p); return J(); } U256 h=subm(u2,p.x,P),r=subm(s2,p.y,P),hh=mulm(h,h,P),hhh=mulm(hh,h,P),v=mulm(p.x,hh,P); J o; o.x=subm(subm(mulm(r,r,P),hhh,P),addm(v,v,P),P); o.y=subm(mulm(r,subm(v,o.x,P),P),mulm(p.y,hhh,P),P); o.z=mulm(p.z,h,P); return o; }
Pt pmul(const U256&k0,const Pt&p){ U256 k=redm(k0,N); J r; for(int i=255;i>=0;i--){ r=jdbl(r); if(k.v[i/64]>>(i%64)&1) r=jadd(r,p); } if(iszero(r.z)) return Pt(); U256 zi=invm(r.z,P),z2=mulm(zi,zi,P); Pt o; o.inf=false; o.x=mulm(r.x,z2,P); o.y=mulm(r.y,mulm(z2,zi,P),P); return o; }
bool lift(const U256&x,bool odd,Pt&o){ if(cmp(x,P)>=0) return false; U256 c=addm(mulm(mulm(x,x,P),x,P),U256(7),P); U256 e=u256hex("3fffffffffffffffffffffffffffffffffffffffffffffffffffffffbfffff0c"); U256 y=powm(c,e,P); if(cmp(mulm(y,y,P),c)) return false; if((y.v[0]&1)!=(uint64_t)odd) y=negm(y,P); o.inf=false;o.x=x;o.y=y; return true; }
Bytes xy(const Pt&p){ if(p.inf) return Bytes(64,0); return cat(b32(p.x),b32(p.y)); }
Bytes sec(const Pt&p,bool c){ Bytes r; if(c){ r.push_back(2+(p.y.v[0]&1)); app(r,b32(p.x)); } else { r.push_back(4); app(r,xy(p)); } return r; }
bool unsec(const Bytes&b,Pt&p){ if(b.size()==33&&(b[0]==2||b[0]==3)) return lift(u256(&b[1]),b[0]&1,p); if(b.size()==65&&b[0]==4){ p.inf=false;p.x=u256(&b[1]);p.y=u256(&b[33]); return oncurve(p);} return false; }
// ------------------------------------------------------------------ signatures
Sig ecdsa_sign(const U256&d,const Bytes&h0,bool reduce){ Bytes V(32,1),K(32,0),x=b32(d); U256 z=redm(u256(h0.data()),N); Bytes h=reduce?b32(z):h0; 
  auto step=[&](uint8_t t){ Bytes m=V; m.push_back(t); app(m,x); app(m,h); K=hmac256(K,m); V=hmac256(K,V); }; step(0); step(1);
  for(;;){ V=hmac256(K,V); U256 k=u256(V.data()); if(!iszero(k)&&cmp(k,N)<0){ Pt R=pmul(k,G); U256 r=redm(R.x,N); U256 s=mulm(invm(k,N),addm(mulm(r,d,N),z,N),N); if(!iszero(r)&&!iszero(s)){ Sig g; g.r=r; g.rec=(int)(R.y.v[0]&1)|(cmp(R.x,N)>=0?2:0); if(cmp(s,NHALF)>0){ s=negm(s,N); g.rec^=1; } g.s=s; return g; } } Bytes m=V; m.push_back(0); K=hmac256(K,m); V=hmac256(K,V); } }
bool ecdsa_verify(const Pt&Q,const Bytes&h,const U256&r,const U256&s){ if(iszero(r)||iszero(s)||cmp(r,N)>=0||cmp(s,N)>=0||!oncurve(Q)) return false; U256 z=redm(u256(h.data()),N),w=invm(s,N); Pt R=padd(pmul(mulm(z,w,N),G),pmul(mulm(r,w,N),Q)); if(R.inf) return false; return cmp(redm(R.x,N),r)==0; }
static Bytes dint(const U256&a){ Bytes b=b32(a); size_t i=0; while(i<32&&!b[i]) i++; Bytes r(b.begin()+i,b.end()); if(r.empty()||(r[0]&0x80)) r.insert(r.begin(),0); Bytes o{2,(uint8_t)r.size()}; app(o,r); return o; }
Bytes der(const U256&r,const U256&s){ Bytes b=cat(dint(r),dint(s)); Bytes o{0x30,(uint8_t)b.size()}; app(o,b); return o; }
bool understrict(const Bytes&b,Bytes&r,Bytes&s){ if(b.size()<8||b[0]!=0x30||b[1]!=b.size()-2) return false; size_t p=2; Bytes*o[2]={&r,&s}; for(int k=0;k<2;k++){ if(p+2>b.size()||b[p]!=2) return false; size_t l=b[p+1]; p+=2; if(l<1||l>33||p+l>b.size()) return false; if(b[p]&0x80) return false; if(l>1&&b[p]==0&&!(b[p+1]&0x80)) return false; if(l==33&&b[p]!=0) return false; Bytes v(b.begin()+p,b.begin()+p+l); p+=l; if(v.size()==33) v.erase(v.begin()); Bytes f(32-v.size(),0); app(f,v); *o[k]=f; } return p==b.size(); }
Bytes schnorr_sign_det(const U256&d0,const Bytes&m){ Pt Q=pmul(d0,G); U256 d=d0; if(Q.y.v[0]&1) d=negm(d,N); Bytes px=b32(Q.x); U256 k=redm(u256(tagged("BIP0340/nonce",cat(cat(b32(d),px),m)).data()),N); Pt R=pmul(k,G); if(R.y.v[0]&1) k=negm(k,N); Bytes rx=b32(R.x); U256 e=redm(u256(tagged("BIP0340/challenge",cat(cat(rx,px),m)).data()),N); U256 s=addm(k,mulm(e,d,N),N); return cat(rx,b32(s)); }
bool schnorr_verify(const Bytes&px,const Bytes&m,const Bytes&sig){ Pt Q; if(!lift(u256(px.data()),false,Q)) return false; U256 r=u256(sig.data()),s=u256(&sig[32]); if(cmp(r,P)>=0||cmp(s,N)>=0) return false; U256 e=redm(u256(tagged("BIP0340/challenge",cat(cat(Bytes(sig.begin(),sig.begin()+32),px),m)).data()),N); Pt R=padd(pmul(s,G),pmul(negm(e,N),Q)); return !R.inf&&!(R.y.v[0]&1)&&cmp(R.x,r)==0; }
// ------------------------------------------------------------------ BIP39/32
std::string mnemonic(const Bytes&e){ std::string b=bin(e)+bin(sha256(e)).substr(0,e.size()/4); std::string s; for(size_t i=0;i+11<=b.size();i+=11){ int v=0; for(int j=0;j<11;j++) v=v*2+(b[i+j]=='1'); if(i) s+=' '; s+=WORDS[v]; } return s; }
int mn_entropy(const std::string&m,Bytes&ent){ ent.clear(); std::vector<std::string> w(1); for(char c:m){ if(c==' ') w.push_back(""); else w.back()+=c; } size_t n=w.size(); if(n%3||n<12||n>24) return -1; std::string b; for(auto&x:w){ const char*const*e=WORDS+2048; const char*const*it=std::lower_bound(WORDS,e,x,[](const char*a,const std::string&s){return s.compare(a)>0;}); if(it==e||x!=*it) return -1; int v=(int)(it-WORDS); for(int j=10;j>=0;j--) b+=(v>>j&1)?'1':'0'; } size_t cs=n/3,eb=b.size()-cs; for(size_t i=0;i<eb;i+=8){ int v=0; for(int j=0;j<8;j++) v=v*2+(b[i+j]=='1'); ent.push_back((uint8_t)v);} return bin(sha256(ent)).substr(0,cs)==b.substr(eb)?1:0; }
Bytes mn_seed(const std::string&m,const std::string&p){ return pbkdf2_512(B(m),B("mnemonic"+p),2048,64); }
HD hd_seed(const Bytes&s){ Bytes I=hmac512(B(std::string("Bitcoin seed")),s); HD h; h.priv=true; h.k=u256(I.data()); h.K=pmul(h.k,G); h.cc=Bytes(I.begin()+32,I.end()); h.depth=0; h.pfp=Bytes(4,0); h.num=0; return h; }
Bytes hd_fp(const HD&h){ Bytes x=hash160(sec(h.K)); x.resize(4); return x; }
HD hd_ckd_priv(const HD&p,uint32_t i){ Bytes d; if(i&0x80000000u){ d.push_back(0); app(d,b32(p.k)); } else d=sec(p.K); be(d,i,4); Bytes I=hmac512(p.cc,d); HD h; h.priv=true; h.k=addm(redm(u256(I.data()),N),p.k,N); h.K=pmul(h.k,G); h.cc=Bytes(I.begin()+32,I.end()); h.depth=p.depth+1; h.pfp=hd_fp(p); h.num=i; return h; }
HD hd_ckd_pub(const HD&p,uint32_t i){ Bytes d=sec(p.K); be(d,i,4); Bytes I=hmac512(p.cc,d); HD h; h.priv=false; h.K=padd(pmul(u256(I.data()),G),p.K); h.cc=Bytes(I.begin()+32,I.end()); h.depth=p.depth+1; h.pfp=hd_fp(p); h.num=i; return h; }
Bytes hd_ser(const HD&h,const Bytes&ver,bool pub){ Bytes o=ver; o.push_back(h.depth); app(o,h.pfp); be(o,h.num,4); app(o,h.cc); if(pub) app(o,sec(h.K)); else { o.push_back(0); app(o,b32(h.k)); } return o; }
// ------------------------------------------------------------------ transactions
Bytes tx_ser(const TX&t,bool wit){ bool w=wit&&t.segwit(); Bytes o; le(o,t.ver,4); if(w){o.push_back(0);o.push_back(1);} app(o,varint(t.in.size())); for(auto&i:t.in){ app(o,i.prev); le(o,i.n,4); app(o,varstr(i.ss)); le(o,i.seq,4);} app(o,varint(t.out.size())); for(auto&x:t.out){ le(o,x.amt,8); app(o,varstr(x.spk)); } if(w) for(auto&i:t.in){ app(o,varint(i.wit.size())); for(auto&e:i.wit) app(o,varstr(e)); } le(o,t.lock,4); return o; }
namespace{ struct Rd{ const Bytes&b; size_t p=0; bool ok=true; Rd(const Bytes&x):b(x){} uint64_t n(int k){ if(!ok||b.size()-p<(size_t)k){ok=false;return 0;} uint64_t v=0; for(int i=0;i<k;i++) v|=(uint64_t)b[p+i]<<(8*i); p+=k; return v; } uint64_t vi(){ uint64_t c=n(1); if(c<0xfd) return c; int k=c==0xfd?2:c==0xfe?4:8; uint64_t v=n(k); if(v<(k==2?0xfdull:k==4?0x10000ull:0x100000000ull)) ok=false; return v; } Bytes raw(uint64_t k){ if(!ok||b.size()-p<k){ok=false;return Bytes();} Bytes r(b.begin()+p,b.begin()+p+k); p+=k; return r; } }; }
bool tx_parse(const Bytes&b,TX&t,size_t*used){ Rd r(b); t=TX(); t.ver=(uint32_t)r.n(4); bool w=false; if(r.ok&&b.size()>=6&&b[4]==0&&b[5]==1){ w=true; r.p+=2; } uint64_t n=r.vi(); for(uint64_t i=0;i<n&&r.ok;i++){ TIn x; x.prev=r.raw(32); x.n=(uint32_t)r.n(4); x.ss=r.raw(r.vi()); x.seq=(uint32_t)r.n(4); t.in.push_back(x);} n=r.vi(); for(uint64_t i=0;i<n&&r.ok;i++){ TOut x; x.amt=r.n(8); x.spk=r.raw(r.vi()); t.out.push_back(x);} if(w) for(auto&i:t.in){ uint64_t k=r.vi(); for(uint64_t j=0;j<k&&r.ok;j++) i.wit.push_back(r.raw(r.vi())); } t.lock=(uint32_t)r.n(4); if(used) *used=r.p; else if(r.p!=b.size()) r.ok=false; return r.ok; }
Bytes txid_raw(const TX&t){ return dsha(tx_ser(t,false)); }
Bytes wtxid_raw(const TX&t){ return dsha(tx_ser(t,true)); }
Bytes sighash_legacy(const TX&t0,size_t i,const Bytes&code,uint32_t type){ TX t=t0; for(size_t k=0;k<t.in.size();k++){ t.in[k].wit.clear(); t.in[k].ss= k==i?code:Bytes(); } uint32_t b=type&31; if(b==2){ t.out.clear(); for(size_t k=0;k<t.in.size();k++) if(k!=i) t.in[k].seq=0; } if(b==3){ if(i>=t.out.size()){ Bytes one(32,0); one[0]=1; return one; } t.out.resize(i+1); for(size_t k=0;k<i;k++){ t.out[k].amt=~0ull; t.out[k].spk.clear(); } for(size_t k=0;k<t.in.size();k++) if(k!=i) t.in[k].seq=0; } if(type&0x80){ TIn x=t.in[i]; t.in.assign(1,x); } Bytes s=tx_ser(t,false); le(s,type,4); return dsha(s); }
Bytes sighash_v0(const TX&t,size_t i,const Bytes&code,uint64_t amt,uint32_t type){ Bytes z(32,0),hp=z,hs=z,ho=z; uint32_t b=type&31; if(!(type&0x80)){ Bytes x; for(auto&k:t.in){ app(x,k.prev); le(x,k.n,4);} hp=dsha(x);} if(!(type&0x80)&&b!=2&&b!=3){ Bytes x; for(auto&k:t.in) le(x,k.seq,4); hs=dsha(x);} auto os=[](const TOut&o){ Bytes x; le(x,o.amt,8); app(x,varstr(o.spk)); return x; }; if(b!=2&&b!=3){ Bytes x; for(auto&o:t.out) app(x,os(o)); ho=dsha(x);} else if(b==3&&i<t.out.size()) ho=dsha(os(t.out[i])); Bytes s; le(s,t.ver,4); app(s,hp); app(s,hs); app(s,t.in[i].prev); le(s,t.in[i].n,4); app(s,varstr(code)); le(s,amt,8); le(s,t.in[i].seq,4); app(s,ho); le(s,t.lock,4); le(s,type,4); return dsha(s); }
Bytes p2pkh(const Bytes&h){ Bytes o{0x76,0xa9,0x14}; app(o,h); o.push_back(0x88); o.push_back(0xac); return o; }
Bytes p2sh(const Bytes&h){ Bytes o{0xa9,0x14}; app(o,h); o.push_back(0x87); return o; }
Bytes p2wpkh(const Bytes&h){ Bytes o{0,0x14}; app(o,h); return o; }
Bytes p2wsh(const Bytes&h){ Bytes o{0,0x20}; app(o,h); return o; }
Bytes pushdata(const Bytes&d){ Bytes o; if(d.size()<0x4c) o.push_back((uint8_t)d.size()); else if(d.size()<=0xff){ o.push_back(0x4c); o.push_back((uint8_t)d.size()); } else if(d.size()<=0xffff){ o.push_back(0x4d); le(o,d.size(),2);} else { o.push_back(0x4e); le(o,d.size(),4);} app(o,d); return o; }
Bytes multisig(int m,const std::vector<Bytes>&s){ Bytes o; o.push_back(0x50+m); for(auto&k:s){ o.push_back((uint8_t)k.size()); app(o,k);} o.push_back(0x50+(uint8_t)s.size()); o.push_back(0xae); return o; }
}
