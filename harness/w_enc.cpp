// C03 text encodings, C04 integer codecs
#include "common.h"
#include "Conversion.h"
using namespace ref;
static const char*A58="123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
static const char*A43="0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ$*+-./:";
static const char*A64="ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static const char*A64U="ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
static std::string cut(const std::string&s){ return s.size()>160?s.substr(0,160)+"...":s; }
static size_t len_for(uint64_t n,size_t max){ return n<200?n:elen(max); }
static Bytes payload(size_t len){ Bytes b=ebytes(len); if(R.chance(1,2)){ size_t z=R.below(len+1); if(z>12&&R.chance(1,2)) z=R.below(12); for(size_t i=0;i<z;i++) b[i]=0; if(z<len&&R.chance(1,2)) b[z]=(uint8_t)(1+R.below(4)); } return b; }
// generic exact-size decode; out capacity = cap
typedef size_t(*Dec)(const char*,size_t,uint8_t*,size_t);
static Bytes dec(Dec f,const std::string&t,size_t cap,bool&over){ XBuf in(Bytes(t.begin(),t.end())); XBuf out(cap); size_t r=f(in.c(),in.n,out.p,cap); over=r>cap; if(over) r=cap; if(in.bytes()!=Bytes(t.begin(),t.end())) fail("input-changed","decoder modified its input"); return Bytes(out.p,out.p+r); }
static void rt(const char*nm,const Bytes&b,const std::string&want,size_t(*enc)(const uint8_t*,size_t,char*,size_t),std::string(*encs)(const uint8_t*,size_t),Dec d,size_t slack){
  XBuf in(b); size_t cap=want.size()+slack; XBuf out(cap); size_t r=enc(in.p,in.n,out.c(),cap); std::string got(out.c(),r>cap?cap:r);
  REQ(r<=cap&&got==want,"encode-mismatch","%s of %s (len %zu): got '%s' want '%s'",nm,cut(hex(b)).c_str(),b.size(),cut(got).c_str(),cut(want).c_str());
  std::string s=encs(in.p,in.n); REQ(s==want,"encode-mismatch","%s string form of %s (len %zu): got '%s' want '%s'",nm,cut(hex(b)).c_str(),b.size(),cut(s).c_str(),cut(want).c_str());
  bool over; Bytes back=dec(d,want,b.size()+R.below(4),over); REQ(!over&&back==b,"decode-mismatch","%s decode of '%s': got %s (len %zu) want %s (len %zu)",nm,cut(want).c_str(),cut(hex(back)).c_str(),back.size(),cut(hex(b)).c_str(),b.size());
  seen(want.data(),want.size()); ev("enc.roundtrips"); }
static size_t e_hex(const uint8_t*a,size_t n,char*o,size_t c){ return toHex(a,n,o,c); } static std::string s_hex(const uint8_t*a,size_t n){ return toHex(a,n); } static size_t d_hex(const char*a,size_t n,uint8_t*o,size_t c){ return fromHex(a,n,o,c); }
static size_t e_bin(const uint8_t*a,size_t n,char*o,size_t c){ return toBin(a,n,o,c); } static std::string s_bin(const uint8_t*a,size_t n){ return toBin(a,n); } static size_t d_bin(const char*a,size_t n,uint8_t*o,size_t c){ return fromBin(a,n,o,c); }
static size_t e_58(const uint8_t*a,size_t n,char*o,size_t c){ return toBase58(a,n,o,c); } static std::string s_58(const uint8_t*a,size_t n){ return toBase58(a,n); } static size_t d_58(const char*a,size_t n,uint8_t*o,size_t c){ return fromBase58(a,n,o,c); }
static size_t e_58c(const uint8_t*a,size_t n,char*o,size_t c){ return toBase58Check(a,n,o,c); } static std::string s_58c(const uint8_t*a,size_t n){ return toBase58Check(a,n); } static size_t d_58c(const char*a,size_t n,uint8_t*o,size_t c){ return fromBase58Check(a,n,o,c); }
static size_t e_43(const uint8_t*a,size_t n,char*o,size_t c){ return toBase43(a,n,o,c); } static std::string s_43(const uint8_t*a,size_t n){ return toBase43(a,n); } static size_t d_43(const char*a,size_t n,uint8_t*o,size_t c){ return fromBase43(a,n,o,c); }
static int g_fl; static size_t e_64(const uint8_t*a,size_t n,char*o,size_t c){ return toBase64(a,n,o,c,g_fl); } static std::string s_64(const uint8_t*a,size_t n){ return toBase64(a,n,g_fl); } static size_t d_64(const char*a,size_t n,uint8_t*o,size_t c){ return fromBase64(a,n,o,c,g_fl); }
static void r_hex(uint64_t n){ Bytes b=payload(len_for(n,2200)); rt("hex",b,hex(b),e_hex,s_hex,d_hex,R.below(3));
  std::string up=hex(b); for(auto&c:up) if(R.chance(1,2)) c=toupper(c); bool o; Bytes k=dec(d_hex,up,b.size()+R.below(3),o); REQ(!o&&k==b,"decode-mismatch","mixed-case hex '%s'",cut(up).c_str()); std::string st=up; XBuf out(b.size()); size_t r=fromHex(st,out.p,out.n); REQ(r==b.size()&&out.bytes()==b,"decode-mismatch","hex string form"); }
static void r_bin(uint64_t n){ Bytes b=payload(len_for(n,600)); rt("bin",b,bin(b),e_bin,s_bin,d_bin,R.below(3)); 
  if(b.size()){ // unaligned: leading bits dropped
    std::string t=bin(b); size_t k=R.below(8); if(k<t.size()){ t=t.substr(k); Bytes e=b; for(size_t i=0;i<k;i++) e[0]&=~(0x80>>i); bool o; Bytes g=dec(d_bin,t,b.size(),o); REQ(!o&&g==e,"decode-mismatch","bin of %zu bits",t.size()); } XBuf out(b.size()); std::string st=bin(b); size_t r=fromBin(st,out.p,out.n); REQ(r==b.size()&&out.bytes()==b,"decode-mismatch","bin string form len %zu",b.size()); } }
static void r_58(uint64_t n){ Bytes b=payload(len_for(n,n%40==0?1200:420)); rt("base58",b,base58(b),e_58,s_58,d_58,toBase58Length(b.data()?b.data():(const uint8_t*)"",b.size())-base58(b).size()+R.below(3)); XBuf out(b.size()); size_t r=fromBase58(base58(b),out.p,out.n); REQ(r==b.size()&&out.bytes()==b,"decode-mismatch","base58 string form of %s",cut(hex(b)).c_str()); }
static void r_58c(uint64_t n){ Bytes b=payload(len_for(n,400)); std::string t=base58check(b); rt("base58check",b,t,e_58c,s_58c,d_58c,6+R.below(3)); XBuf out(b.size()); size_t r=fromBase58Check(t,out.p,out.n); REQ(r==b.size()&&out.bytes()==b,"decode-mismatch","base58check string form of %s",cut(hex(b)).c_str()); }
static void r_43(uint64_t n){ Bytes b=payload(len_for(n,n%40==0?1200:420)); std::string t=base43(b); XBuf x(b); rt("base43",b,t,e_43,s_43,d_43,toBase43Length(x.p,b.size())-t.size()+R.below(3)); XBuf out(b.size()); size_t r=fromBase43(t,out.p,out.n); REQ(r==b.size()&&out.bytes()==b,"decode-mismatch","base43 string form of %s",cut(hex(b)).c_str()); }
static void r_64(uint64_t n){ Bytes b=payload(len_for(n/4,1500)); g_fl=n%4; std::string t=base64(b,g_fl&2,!(g_fl&1)); rt("base64",b,t,e_64,s_64,d_64,R.below(3)); XBuf x(b); REQ(toBase64Length(x.p,x.n,g_fl)==t.size(),"length-mismatch","toBase64Length(%zu)=%zu want %zu",b.size(),toBase64Length(x.p,x.n,g_fl),t.size());
  XBuf tx(Bytes(t.begin(),t.end())); size_t fl=fromBase64Length(tx.c(),tx.n,g_fl); REQ(fl==b.size(),"length-mismatch","fromBase64Length('%s')=%zu want %zu",cut(t).c_str(),fl,b.size());
  std::string h=base64ToHex(t,g_fl); REQ(h==hex(b),"convert-mismatch","base64ToHex('%s') = '%s'",cut(t).c_str(),cut(h).c_str()); std::string q=hexToBase64(hex(b),g_fl); REQ(q==t,"convert-mismatch","hexToBase64('%s') = '%s' want '%s'",cut(hex(b)).c_str(),cut(q).c_str(),cut(t).c_str());
  if(!(g_fl&1)){ XBuf out(b.size()); size_t r=fromBase64(t,out.p,out.n,g_fl); REQ(r==b.size()&&out.bytes()==b,"decode-mismatch","base64 string form len %zu",b.size()); } }
static void r_long(uint64_t n){ if(!R.chance(1,90)){ r_64(n); return; } static const size_t L[]={65535,65536,65537,65538,65539,70001,131072,131075}; int w=R.below(5); Bytes b=w<3?payload(L[R.below(8)]-R.below(2)):payload(2000+R.below(3000)); if(w>=3&&R.chance(1,2)) for(auto&x:b) x=0xff; ev("enc.long");
  switch(w){ case 0: rt("hex",b,hex(b),e_hex,s_hex,d_hex,R.below(3)); break; case 1: b.resize(b.size()/4); rt("bin",b,bin(b),e_bin,s_bin,d_bin,R.below(3)); break; case 2: { g_fl=R.below(4); std::string t=base64(b,g_fl&2,!(g_fl&1)); rt("base64",b,t,e_64,s_64,d_64,R.below(3)); REQ(base64ToHex(t,g_fl)==hex(b)&&hexToBase64(hex(b),g_fl)==t,"convert-mismatch","length %zu",b.size()); break; }
    case 3: { std::string t=base58(b); rt("base58",b,t,e_58,s_58,d_58,toBase58Length(b.data(),b.size())-t.size()+R.below(3)); if(b.size()<=4000){ t=base58check(b); rt("base58check",b,t,e_58c,s_58c,d_58c,8+R.below(3)); } break; } default: { std::string t=base43(b); rt("base43",b,t,e_43,s_43,d_43,toBase43Length(b.data(),b.size())-t.size()+R.below(3)); } } }
// ---- corrupted text
static std::string rmut(const std::string&t,const char*al){ std::string m; do{ m=mutate_text(t,al); if(R.chance(1,12)&&m.size()) m[R.below(m.size())]=0; }while(m==t); return m; }
static void m_check(uint64_t n){ // any alteration of checksummed text is rejected unless the altered text is itself valid
  Bytes b=payload(R.chance(1,2)?21:elen(90)); std::string t=base58check(b),m; 
  if(n%3==0&&t.size()){ m=t; size_t i=R.below(m.size()); char c; do c=A58[R.below(58)]; while(c==m[i]); m[i]=c; } else m=rmut(t,A58);
  size_t v=strspn(std::string(m.c_str(),strnlen(m.c_str(),m.size())).c_str(),A58); std::string pre=m.substr(0,v); Bytes e; bool ok=unbase58check(pre,e); bool o; Bytes g=dec(d_58c,m,b.size()+8,o); 
  bool okfull=v==m.size()&&ok; if(!g.empty()) REQ(ok&&g==e,"corrupt-accepted","base58check '%s' accepted as %s",cut(m).c_str(),hex(g).c_str()); REQ(!o,"corrupt-accepted","count beyond capacity"); if(okfull&&e.size()<=b.size()+8) REQ(g==e,"valid-rejected","base58check '%s'",cut(m).c_str()); ev(g.empty()?"corrupt.rejected":"corrupt.stillvalid"); seen(m.data(),m.size()); }
static void m_radix(uint64_t n){ bool b58=n&1; const char*al=b58?A58:A43; Bytes b=payload(elen(120)); std::string t=b58?base58(b):base43(b),m= R.chance(1,3)?rtext(elen(200),al):rmut(t,al); 
  std::string pre; for(char c:m){ if(!c||!strchr(al,c)) break; pre+=c; } Bytes e; b58?unbase58(pre,e):unbase43(pre,e); bool o; Bytes g=dec(b58?d_58:d_43,m,e.size()+R.below(5),o); bool clean=pre.size()==m.size();
  REQ(!o&&(g==e||(!clean&&g.empty())),"invented-bytes","%s '%s' (%zu valid chars) decoded to %s want %s",b58?"base58":"base43",cut(m).c_str(),pre.size(),cut(hex(g)).c_str(),cut(hex(e)).c_str()); XBuf mt(Bytes(m.begin(),m.end())); size_t L=b58?fromBase58Length(mt.c(),mt.n):fromBase43Length(mt.c(),mt.n); REQ(!clean||L>=e.size(),"length-mismatch","announced %zu < needed %zu",L,e.size()); ev("corrupt.radix"); seen(m.data(),m.size()); }
static void m_hex(uint64_t n){ Bytes b=ebytes(elen(100)); std::string m=rmut(hex(b),"0123456789abcdefABCDEF"); if(R.chance(1,4)) m=rtext(R.below(4),"xX \n-")+m; size_t s=0; auto V=[](char c){ return c&&strchr("0123456789abcdefABCDEF",c); }; while(s<m.size()&&!V(m[s])) s++; Bytes e; for(size_t i=s;i+1<m.size()&&V(m[i])&&V(m[i+1]);i+=2) e.push_back((uint8_t)strtol(m.substr(i,2).c_str(),0,16)); bool clean=true; for(char c:m) clean&=V(c);
  bool o; Bytes g=dec(d_hex,m,e.size()+R.below(3)+(m.size()/2>e.size()?m.size()/2-e.size():0),o); REQ(!o&&(g==e||(!clean&&g.empty())||(m.size()%2&&g.empty())),"invented-bytes","hex '%s' decoded to %s want %s",cut(m).c_str(),cut(hex(g)).c_str(),cut(hex(e)).c_str()); ev("corrupt.hex"); seen(m.data(),m.size()); }
static void m_bin(uint64_t n){ Bytes b=ebytes(elen(60)); std::string m=rmut(bin(b),"01"); bool clean=true; for(char c:m) clean&=(c=='0'||c=='1'); Bytes e((m.size()+7)/8); for(size_t i=0;i<m.size();i++) if(m[m.size()-1-i]=='1') e[e.size()-1-i/8]|=1<<(i%8); bool o; Bytes g=dec(d_bin,m,e.size()+R.below(2),o); REQ(!o&&(clean?g==e:g.empty()),"invented-bytes","bin '%s' decoded to %s",cut(m).c_str(),hex(g).c_str()); ev("corrupt.bin"); seen(m.data(),m.size()); }
static bool strict64(const std::string&m,bool url,bool nopad,Bytes&e){ const char*al=url?A64U:A64; std::string s=m; size_t pad=0; while(s.size()&&s.back()=='='&&pad<2){ s.pop_back(); pad++; } if(!nopad||pad){ if((s.size()+pad)%4) return false; if(pad==0&&s.size()%4) return false; } if(s.size()%4==1) return false; e.clear(); uint32_t v=0; int bits=0; for(char c:s){ if(url&&c=='+') c='-'; if(url&&c=='/') c='_'; const char*p=c?strchr(al,c):0; if(!p) return false; v=(v<<6)|(p-al); bits+=6; if(bits>=8){ bits-=8; e.push_back((uint8_t)(v>>bits)); } } return true; }
static void m_64(uint64_t n){ g_fl=R.below(4); Bytes b=ebytes(elen(100)); std::string t=base64(b,g_fl&2,!(g_fl&1)),m=R.chance(1,4)?rtext(R.below(24),"ABab01+/-_=="):rmut(t,"ABCabc019+/-_="); if(R.chance(1,6)) m=m+"="; if(R.chance(1,8)&&t.size()>4) m=t.substr(0,4*R.below(t.size()/4))+ (R.chance(1,2)?"Zg==":"Zm8=")+t; Bytes e; bool ok=strict64(m,g_fl&2,g_fl&1,e); bool o; Bytes g=dec(d_64,m,m.size()+4,o);
  if(ok) REQ(g==e,"valid-rejected","base64(flags %d) '%s' decoded to %s want %s",g_fl,cut(m).c_str(),cut(hex(g)).c_str(),cut(hex(e)).c_str()); else REQ(g.empty(),"corrupt-accepted","base64(flags %d) '%s' decoded to %s",g_fl,cut(m).c_str(),cut(hex(g)).c_str()); ev(ok?"corrupt.64valid":"corrupt.64rejected"); seen(m.data(),m.size()); }
WORKLOAD(C03,{"hex",r_hex,2},{"bin",r_bin,1},{"base58",r_58,3},{"base58check",r_58c,3},{"base43",r_43,3},{"base64",r_64,4},{"long",r_long,1},{"corrupt-check",m_check,5},{"corrupt-radix",m_radix,4},{"corrupt-hex",m_hex,2},{"corrupt-bin",m_bin,1},{"corrupt-64",m_64,4})
// ---------------------------------------------------------------- C04
static uint64_t e64(){ switch(R.below(5)){ case 0: { static const uint64_t c[]={0,1,0xfc,0xfd,0xfe,0xff,0x100,0xffff,0x10000,0x10001,0xfffffe,0xffffffff,0x100000000ull,0x100000001ull,0x7fffffffffffffffull,0x8000000000000000ull,~0ull,~0ull-1}; return c[R.below(18)]; } case 1: return 1ull<<R.below(64); case 2: return (1ull<<R.below(64))-1; case 3: return R.u64()>>R.below(64); default: return R.u64(); } }
static void i_endian(uint64_t n){ uint64_t v=e64(); size_t w=n<17?n:R.below(17); uint64_t masked=w>=8?v:(w?v&((1ull<<(8*w))-1):0); Bytes le_,be_; for(size_t i=0;i<w;i++){ uint8_t c=i<8?(uint8_t)(v>>(8*i)):0; le_.push_back(c); be_.insert(be_.begin(),c); } XBuf a(w),b(w); memset(a.p,0x5a,w); memset(b.p,0x5a,w); intToLittleEndian(v,a.p,w); intToBigEndian(v,b.p,w);
  REQ(a.bytes()==le_,"endian-mismatch","LE of %llx width %zu: %s",(unsigned long long)v,w,hex(a.bytes()).c_str()); REQ(b.bytes()==be_,"endian-mismatch","BE of %llx width %zu: %s",(unsigned long long)v,w,hex(b.bytes()).c_str()); REQ(littleEndianToInt(a.p,w)==masked,"endian-mismatch","LE back width %zu of %llx",w,(unsigned long long)v); REQ(w<=8?bigEndianToInt(b.p,w)==masked:true,"endian-mismatch","BE back width %zu of %llx",w,(unsigned long long)v); if(w>8) REQ(bigEndianToInt(b.p,w)==v,"endian-mismatch","BE back width %zu",w); ev("int.endian"); seen(a.p,w); }
static void chk_var(uint64_t v){ Bytes e=varint(v); REQ(lenVarInt(v)==e.size(),"varint-length","lenVarInt(%llu)=%u want %zu",(unsigned long long)v,lenVarInt(v),e.size());
  for(size_t cap=0;cap<=10;cap++){ XBuf o(cap); size_t r=writeVarInt(v,o.p,cap); if(cap<e.size()) REQ(r<e.size(),"varint-write","claimed %zu bytes in a buffer of %zu",r,cap); else REQ(r==e.size()&&Bytes(o.p,o.p+r)==e,"varint-write","%llu -> %s want %s",(unsigned long long)v,hex(o.p,r>cap?cap:r).c_str(),hex(e).c_str()); }
  for(size_t extra=0;extra<3;extra++){ Bytes x=e; for(size_t k=0;k<extra;k++) x.push_back(0xa7); XBuf i(x); uint64_t g=readVarInt(i.p,i.n); REQ(g==v,"varint-read","%s read as %llu want %llu",hex(x).c_str(),(unsigned long long)g,(unsigned long long)v); } 
  for(size_t cut_=0;cut_<e.size();cut_++){ XBuf i(Bytes(e.begin(),e.begin()+cut_)); uint64_t g=readVarInt(i.p,i.n); REQ(g==0,"varint-truncated","%zu of %zu bytes read as %llu",cut_,e.size(),(unsigned long long)g); } ev("varint.values"); seen(v); }
static void i_var(uint64_t n){ if(n<260){ for(uint64_t v=n*260;v<(n+1)*260;v++) chk_var(v); } else for(int k=0;k<20;k++) chk_var(e64()); }
static void i_varraw(uint64_t n){ // any bytes, including non-canonical prefixes
  Bytes b=R.bytes(R.below(11)); if(b.size()&&R.chance(2,3)) b[0]=0xfc+R.below(4); XBuf i(b); uint64_t g=readVarInt(i.p,i.n); uint64_t e=0; if(b.size()){ if(b[0]<0xfd) e=b[0]; else { size_t l=1u<<(b[0]-0xfc); if(b.size()>=l+1) for(size_t k=l;k>0;k--) e=(e<<8)|b[k]; } } REQ(g==e,"varint-read","%s read as %llu want %llu",hex(b).c_str(),(unsigned long long)g,(unsigned long long)e); ev("varint.raw"); seen(b.data(),b.size()); }
WORKLOAD(C04,{"endian",i_endian,2},{"varint",i_var,2},{"varint-raw",i_varraw,1})
