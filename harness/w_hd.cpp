// C13 mnemonics, C14 derivation, C15 key export/import, C31 randomness
#include "common.h"
#include "Bitcoin.h"
#include "utility/trezor/bip39.h"
using namespace ref;
static const Network*const NETS[4]={&Mainnet,&Testnet,&Regtest,&Signet};
static std::string txt(const char*p){ return p?std::string(p):std::string("(null)"); }
static Bytes fpr(const HD&k){ return hd_fp(k); }
// entropy whose phrase uses only words of one length (the longest and the shortest phrases)
static Bytes wordy(size_t n){ static std::vector<int> by[9]; if(by[3].empty()) for(int i=0;i<2048;i++) by[strlen(WORDS[i])].push_back(i); const std::vector<int>&v=by[R.chance(2,3)?8:3]; Bytes e(n,0); size_t bit=0; while(bit<n*8){ int w=v[R.below(v.size())]; for(int k=10;k>=0&&bit<n*8;k--,bit++) if(w>>k&1) e[bit/8]|=0x80>>(bit%8); } return e; }
static Bytes entropy(size_t n){ if(R.chance(1,10)) return wordy(n); return R.chance(1,4)?ebytes(n):R.bytes(n); }
static std::vector<std::string> split(const std::string&s){ std::vector<std::string> v(1); for(char c:s){ if(c==' ') v.emplace_back(); else v.back()+=c; } return v; }
static std::string join(const std::vector<std::string>&v){ std::string s; for(size_t i=0;i<v.size();i++){ if(i) s+=' '; s+=v[i]; } return s; }
// ---------------------------------------------------------------- C13
static void m_rt(uint64_t n){
  Bytes e=entropy(16+4*(n%5)); XBuf eb(e); std::string want=mnemonic(e);
  std::string got=txt(mnemonicFromEntropy(eb.p,eb.n)); REQ(got==want,"phrase-mismatch","entropy %s: '%s' want '%s'",hex(e).c_str(),got.c_str(),want.c_str());
  REQ(checkMnemonic(got),"valid-phrase-refused","%zu words: %s",e.size()*3/4,got.c_str());
  { XBuf o(e.size()+R.below(4)); size_t l=mnemonicToEntropy(got,o.p,o.n); REQ(l==e.size()&&Bytes(o.p,o.p+l)==e,"entropy-mismatch","%s -> length %zu %s want %s",got.c_str(),l,hex(o.p,l<o.n?l:o.n).c_str(),hex(e).c_str()); }
  { XBuf t(B(got)); XBuf o(e.size()); size_t l=mnemonicToEntropy(t.c(),t.n,o.p,o.n); REQ(l==e.size()&&o.bytes()==e,"entropy-mismatch","counted text: %s -> length %zu",got.c_str(),l); }
  ev("phrases"); char b[16]; snprintf(b,16,"words.%zu",e.size()*3/4); ev(b); seen(e.data(),e.size()); if(n<2) sample("%s -> %s",hex(e).c_str(),got.c_str()); }
// phrases made of supplied data: the hash of all of it, cut to the asked length
static void m_data(uint64_t n){ static const int wc[]={12,15,18,21,24}; int w=wc[n%5]; Bytes d=entropy(elen(300)); if(R.chance(1,3)) for(auto&c:d) if(!c) c=1; std::string s(d.begin(),d.end()); Bytes h=sha256(d); std::string w24=mnemonic(h); h.resize(w*4/3); std::string want=mnemonic(h); XBuf x(d); std::string got; switch(R.below(4)){ case 0: got=txt(generateMnemonic((uint8_t)w,x.p,x.n)); break; case 1: got=txt(generateMnemonic((uint8_t)w,s)); break; case 2: got=txt(generateMnemonic(x.p,x.n)); want=w24; break; default: got=txt(generateMnemonic(s)); want=w24; } REQ(got==want,"phrase-mismatch","%d words from %zu bytes %s: '%s' want '%s'",w,d.size(),hex(d).substr(0,100).c_str(),got.c_str(),want.c_str()); REQ(checkMnemonic(got),"valid-phrase-refused","%s",got.c_str()); ev("phrases.from-data"); seen(d.data(),d.size()); }
static void m_badlen(uint64_t n){ size_t l=R.below(80); if(l>=16&&l<=32&&l%4==0) l++; XBuf e(R.bytes(l)); REQ(mnemonicFromEntropy(e.p,e.n)==NULL,"bad-entropy-length","a phrase was made of %zu bytes",l); REQ(generateMnemonic((uint8_t)(R.chance(1,2)?13+3*R.below(4):R.below(12)))==NULL,"bad-word-count","phrase with a word count BIP39 does not define"); ev("bad-lengths"); }
static void m_check(uint64_t n){
  Bytes e=entropy(16+4*R.below(5)); std::vector<std::string> w=split(mnemonic(e)); std::string s; size_t k=R.below(w.size());
  switch(n%12){ case 0: w[k]=WORDS[R.below(2048)]; s=join(w); break; case 1: std::swap(w[k],w[R.below(w.size())]); s=join(w); break; case 2: w.pop_back(); s=join(w); break; case 3: w.push_back(WORDS[R.below(2048)]); s=join(w); break;
    case 4: { std::vector<std::string> v; size_t c=1+R.below(30); for(size_t i=0;i<c;i++) v.push_back(WORDS[R.below(2048)]); s=join(v); break; } case 5: { static const int cs[]={12,15,18,21,24,9,27,3}; std::vector<std::string> v; int c=cs[R.below(8)]; for(int i=0;i<c;i++) v.push_back(WORDS[R.below(2048)]); s=join(v); break; }
    case 6: w[k]=mutate_text(w[k],"abcdefghijklmnopqrstuvwxyz "); s=join(w); break; case 7: { s=join(w); switch(R.below(5)){ case 0: s+=" "; break; case 1: s=" "+s; break; case 2: { size_t p=s.find(' '); s.insert(p," "); break; } case 3: w.pop_back(); s=join(w)+" "; break; default: w.erase(w.begin()); s=" "+join(w); } break; }
    case 8: w[k]=w[k].substr(0,4); s=join(w); break; case 9: s=join(w); for(auto&c:s) if(R.chance(1,20)) c=toupper(c); break; case 10: s=join(w); s.resize(R.below(s.size()+1)); break; default: { w[k]=std::string(R.chance(1,2)?R.below(16):R.below(300),'a'+R.below(26)); s=join(w); } }
  Bytes x; int st=mn_entropy(s,x); bool g=checkMnemonic(s); REQ(g==(st==1),g?"bad-phrase-accepted":"valid-phrase-refused","'%s' (reference status %d)",s.c_str(),st);
  XBuf o(33); size_t l=mnemonicToEntropy(s,o.p,o.n); if(st==1) REQ(l==x.size()&&Bytes(o.p,o.p+l)==x,"entropy-mismatch","'%s'",s.c_str()); else if(st<0) REQ(l==0,"bad-phrase-accepted","mnemonicToEntropy gave %zu bytes for '%s'",l,s.c_str()); else REQ(l==0||(l==x.size()&&Bytes(o.p,o.p+l)==x),"entropy-mismatch","'%s'",s.c_str());
  ev(st==1?"check.good":st==0?"check.badsum":"check.malformed"); seen(s.data(),s.size()); }
static std::string pass(){ std::string p; size_t l; switch(R.below(5)){ case 0: return ""; case 1: l=R.below(300); break; default: l=R.below(24); } for(size_t i=0;i<l;i++) p+=(char)(1+R.below(255)); return p; }
// an extended key object with a history: other network, type, depth, number, parent, status
static void used(HDPrivateKey&k){ Bytes seed=R.bytes(32); XBuf sb(seed); k.fromSeed(sb.p,sb.n,NETS[R.below(4)]); switch(R.below(4)){ case 0: k=k.child(R.u32()); break; case 1: k=k.derive("m/84h/1h/0h"); break; case 2: { XStr t("xprv9wTYmMFdV23N2TdNG573QoEsfRrWKQgWeibmLntzniatZvR9BmLnvSxqu53Kw1UmYPxLgboyZQaXwTCg8MSY3H2EU4pWcQDnRnrVA1xe8fs"); k.fromString(t); break; } default: { XStr t("xprv9s21ZrQH143K"); k.fromString(t); } } }
static void m_seed(uint64_t n){
  std::string m; if(R.chance(2,3)) m=mnemonic(entropy(16+4*R.below(5))); else { size_t l=elen(300); for(size_t i=0;i<l;i++) m+=(char)(1+R.below(255)); } std::string p=pass(); const Network*net=NETS[R.below(4)]; int form=R.below(5);
  bool z=form<3&&R.chance(1,4); if(z){ std::string&t=m.size()&&R.chance(1,3)?m:p; if(t.empty()||R.chance(1,4)) t+='\0'; else t[R.below(t.size())]=0; ev("seeds.nul"); } // the counted forms take any byte
  Bytes seed=mn_seed(m,p); HD r=hd_seed(seed); HDPrivateKey k; if(R.chance(1,2)){ used(k); ev("seeds.reused"); } switch(form){ case 0: k=HDPrivateKey(m,p,net); break; case 1: { XBuf a(B(m)),b(B(p)); k=HDPrivateKey(a.c(),a.n,b.c(),b.n,net); break; } case 2: k.fromMnemonic(m,p,net); break; case 3: { static float last; static bool okp; last=0; okp=true; XStr a(m),b(p); k.fromMnemonic(a,b,net,[](float f){ if(!(f>=last&&f<=1)) okp=false; last=f; }); REQ(okp,"progress","progress values not within 0..1 or not increasing"); ev("seeds.progress"); break; } default: { XStr a(m),b(p); k.fromMnemonic(a,b,net); } }
  uint8_t s[32]; k.getSecret(s); REQ(Bytes(s,s+32)==b32(r.k)&&Bytes(k.chainCode,k.chainCode+32)==r.cc,"seed-mismatch","phrase %s passphrase %s",hex(B(m)).c_str(),hex(B(p)).c_str()); REQ(k.depth==0&&k.childNumber==0&&k.network==net&&k.type==UNKNOWN_TYPE&&Bytes(k.parentFingerprint,k.parentFingerprint+4)==Bytes(4,0),"master-fields","depth %d number %u type %d",k.depth,k.childNumber,(int)k.type); { PublicKey q=k.publicKey(); REQ(k.isValid()&&Bytes(q.point,q.point+64)==xy(r.K),"master-fields","public key"); }
  if(!z&&p.size()<=256&&R.chance(1,3)){ uint8_t o[64]; XStr a(m),b(p); mnemonic_to_seed(a,b,o,NULL); REQ(Bytes(o,o+64)==seed,"seed-mismatch","mnemonic_to_seed"); }
  ev("seeds"); if(m.size()>128) ev("seeds.longphrase"); seen(seed.data(),64); }
// seeds asked for again and again: the answer must not depend on what was asked before
static void m_again(uint64_t n){ if(!R.chance(1,24)){ m_rt(n); return; } std::vector<std::pair<std::pair<std::string,std::string>,Bytes>> pool; size_t cnt=2+R.below(7);
  for(int k=0;k<24;k++){ bool add=pool.size()<cnt&&(pool.empty()||R.chance(1,2));
    if(add){ std::string m,p; if(pool.size()&&R.chance(2,3)){ auto&o=pool[R.below(pool.size())].first; m=o.first; p=o.second; switch(R.below(4)){ case 0: p=rtext(R.below(70),"abc"); break; case 1: if(p.size()) p.pop_back(); else p="x"; break; case 2: m[R.below(m.size())]='#'; break; default: p+="y"; } } else { m=R.chance(1,3)?rtext(250+R.below(12),"abcdefgh "):mnemonic(entropy(16+4*R.below(5))); p=R.chance(1,3)?rtext(60+R.below(8),"pqr"):rtext(R.below(10),"pqr"); } pool.push_back({{m,p},mn_seed(m,p)}); }
    auto&e=add?pool.back():pool[R.below(pool.size())]; uint8_t o[64]; memset(o,0xa5,64); XStr a(e.first.first),b(e.first.second); mnemonic_to_seed(a,b,o,NULL); REQ(Bytes(o,o+64)==e.second,"seed-mismatch","mnemonic_to_seed, request %d: phrase '%s' passphrase '%s'",k,e.first.first.c_str(),e.first.second.c_str()); ev("seeds.repeated"); } }
WORKLOAD(C13,{"roundtrip",m_rt,6},{"data",m_data,1},{"bad-length",m_badlen,1},{"check",m_check,8},{"seed",m_seed,1},{"again",m_again,1})
// ---------------------------------------------------------------- C14
struct Want{ HD k; const Network*net; ScriptType type; };
static Want want_child(const Want&p,uint32_t i){ Want c=p; c.k=hd_ckd_priv(p.k,i); if(i>>31){ uint32_t j=i&0x7fffffff; if(p.k.depth==0) switch(j){ case 44: c.type=P2PKH; break; case 49: c.type=P2SH_P2WPKH; break; case 84: c.type=P2WPKH; break; case 48: c.type=MULTISIG; break; case 45: c.type=P2SH; break; } if(p.k.depth==1){ if(j==1) c.net=&Testnet; if(j==0) c.net=&Mainnet; } if(p.k.depth==3&&p.type==MULTISIG){ if(j==1) c.type=P2SH_P2WSH; if(j==2) c.type=P2WSH; } } return c; }
static bool same_priv(const HDPrivateKey&k,const Want&w,std::string&why){ uint8_t s[32]; k.getSecret(s); if(Bytes(s,s+32)!=b32(w.k.k)){ why="secret "+hex(s,32)+" want "+hex(b32(w.k.k)); return false; } if(Bytes(k.chainCode,k.chainCode+32)!=w.k.cc){ why="chain code"; return false; } if(k.depth!=w.k.depth){ why="depth"; return false; } if(Bytes(k.parentFingerprint,k.parentFingerprint+4)!=w.k.pfp){ why="parent fingerprint"; return false; } if(k.childNumber!=w.k.num){ why="child number"; return false; } if(k.type!=w.type){ why="script type"; return false; } if(k.network!=w.net){ why="network"; return false; } PublicKey p=k.publicKey(); if(Bytes(p.point,p.point+64)!=xy(w.k.K)){ why="public key"; return false; } return true; }
static bool same_pub(const HDPublicKey&k,const HD&w,std::string&why){ if(Bytes(k.point,k.point+64)!=xy(w.K)){ why="point"; return false; } if(Bytes(k.chainCode,k.chainCode+32)!=w.cc){ why="chain code"; return false; } if(k.depth!=w.depth){ why="depth"; return false; } if(Bytes(k.parentFingerprint,k.parentFingerprint+4)!=w.pfp){ why="parent fingerprint"; return false; } if(k.childNumber!=w.num){ why="child number"; return false; } uint8_t f[4]; k.fingerprint(f); if(Bytes(f,f+4)!=hd_fp(w)){ why="fingerprint"; return false; } return true; }
static uint32_t idx(bool pub){ uint32_t i; switch(R.below(6)){ case 0: { static const uint32_t s[]={0,1,2,44,45,48,49,84,86,0x7fffffff,0x7ffffffe,255,256,65535,65536}; i=s[R.below(15)]; break; } case 1: i=R.below(100); break; default: i=R.u32()&0x7fffffff; } if(!pub&&R.chance(1,2)) i|=0x80000000u; return i; }
static Want master(HDPrivateKey&m){ Bytes seed=entropy(R.chance(1,2)?64:elen(80)); const Network*net=NETS[R.below(4)]; XBuf sb(seed); if(R.chance(1,3)) used(m); m.fromSeed(sb.p,sb.n,net); return {hd_seed(seed),net,UNKNOWN_TYPE}; }
static std::string pstr(const std::vector<uint32_t>&v){ std::string s="m"; for(auto i:v) s+="/"+std::to_string(i&0x7fffffff)+(i>>31?"h":""); return s; }
static void h_walk(uint64_t n){
  HDPrivateKey k; Want w=master(k); std::string why; REQ(same_priv(k,w,why),"master-key","%s",why.c_str()); size_t d=1+R.below(5); std::vector<uint32_t> path; HDPrivateKey m=k; Want wm=w;
  if(R.chance(1,3)){ static const uint32_t pp[]={44,45,48,49,84}; path={pp[R.below(5)]|0x80000000u,(uint32_t)R.below(3)|0x80000000u,(uint32_t)R.below(3)|0x80000000u,(uint32_t)R.below(4)|0x80000000u}; for(size_t i=0,e=R.below(4);i<e;i++) path.push_back((uint32_t)R.below(4)|(R.chance(1,2)?0x80000000u:0)); if(R.chance(1,3)) path[1+R.below(path.size()-1)]^=0x80000000u; d=path.size(); }
  for(size_t i=0;i<d;i++){ uint32_t x; if(i<path.size()) x=path[i]; else { x=idx(false); path.push_back(x); } HDPrivateKey c; switch(R.below(3)){ case 0: c=k.child(x); break; case 1: c=k.child(x&0x7fffffff,x>>31); break; default: c= x>>31?k.hardenedChild(x&0x7fffffff):k.child(x); } Want wc=want_child(w,x);
    REQ(same_priv(c,wc,why),"child-key","%s differs after %s",why.c_str(),pstr(path).c_str()); uint8_t f[4]; c.fingerprint(f); REQ(Bytes(f,f+4)==hd_fp(wc.k),"fingerprint","after %s",pstr(path).c_str()); REQ(c.fingerprint()==hex(hd_fp(wc.k)),"fingerprint","text");
    HDPublicKey xp=c.xpub(); HD wp=wc.k; wp.priv=false; REQ(same_pub(xp,wp,why)&&xp.type==c.type&&xp.network==c.network,"xpub","%s differs after %s",why.c_str(),pstr(path).c_str()); if(!(x>>31)){ HDPublicKey pc=k.xpub().child(x); HD q=w.k; q.priv=false; HD wq=hd_ckd_pub(q,x); REQ(same_pub(pc,wq,why),"public-child","%s differs after %s",why.c_str(),pstr(path).c_str()); REQ(Bytes(pc.point,pc.point+64)==Bytes(xp.point,xp.point+64),"commute","public and private derivation differ at %s",pstr(path).c_str()); REQ(pc.isValid()&&pc.xpub()==c.xpub().xpub(),"commute","xpub text at %s",pstr(path).c_str()); ev("public-children"); }
    k=c; w=wc; ev("children"); if(x>>31) ev("hardened"); }
  HDPrivateKey t=m.derive(path.data(),path.size()); REQ(same_priv(t,w,why),"derive-array","%s differs, path %s",why.c_str(),pstr(path).c_str()); seen(w.k.cc.data(),32); if(n<2) sample("%s -> %s",pstr(path).c_str(),k.xprv().c_str()); }
// textual paths: 1 = valid, 0 = malformed, 2 = implementation freedom
static int parse_path(const std::string&s0,bool pub,std::vector<uint32_t>&out){ std::string s=s0; out.clear(); if(s.size()&&s[0]=='m'){ if(s.size()==1) return 1; if(s[1]!='/') return 0; s=s.substr(2); if(s.empty()) return 2; } if(s.empty()) return 2; if(s.back()=='/') s.pop_back(); if(s.empty()) return 2; int fr=1; size_t i=0; for(;;){ uint64_t v=0; size_t dg=0; while(i<s.size()&&isdigit((unsigned char)s[i])){ if(v<(1ull<<40)) v=v*10+(s[i]-'0'); i++; dg++; } if(!dg) return 0; if(v>0xffffffffull) return 0; bool h=false; if(i<s.size()&&(s[i]=='h'||s[i]=='\'')){ h=true; i++; } if(h){ if(pub||v>=0x80000000ull) return 0; v|=0x80000000ull; } else if(v>=0x80000000ull){ if(pub) return 0; fr=2; } out.push_back((uint32_t)v); if(i==s.size()) return fr; if(s[i]!='/') return 0; i++; } }
static std::string rpath(bool pub){ std::string s; switch(R.below(3)){ case 0: s="m/"; break; case 1: s=""; break; default: s=R.chance(1,8)?"m":"m/"; } if(s=="m"&&R.chance(1,2)) return s; size_t d=1+R.below(5); for(size_t i=0;i<d;i++){ if(i) s+="/"; uint32_t x=idx(true); std::string c=std::to_string(x); if(R.chance(1,12)) c="000"+c; s+=c; if(!pub&&R.chance(1,2)) s+=R.chance(1,2)?"h":"'"; } if(R.chance(1,5)) s+="/"; return s; }
static std::string badpath(bool pub){ std::string s=rpath(pub); switch(R.below(15)){ case 13: return s+(R.chance(1,2)?"//":"///"); case 0: return "m"; case 1: return ""; case 2: return "m/"; case 3: return "/"; case 4: { size_t p=s.rfind('/'); return s.substr(0,p==std::string::npos?0:p)+"/"+std::to_string((uint64_t)0x100000000ull+R.below(5)*(R.chance(1,2)?1:0x100000000ull)); } case 5: return s+"/"+std::to_string(0x80000000ull+R.below(3))+(R.chance(1,2)?"h":""); case 6: return "m"+rpath(pub); case 7: return s+"hh"; case 8: return s+"/h"; case 9: return s+"//0"; case 10: return "//"+s; case 11: return s+"/"+rtext(11+R.below(30),"0123456789"); case 12: { static const char*x[]={" ","\t","-1","+1","0x1","1.5","*","H","M/1","m//1","h","'","1h2","/1","m/m/1","\xff"}; const char*y=x[R.below(16)]; return R.chance(1,2)?std::string(y):s+"/"+y; } default: return mutate_text(s,"0123456789/h'm Hx"); } }
static void h_path(uint64_t n){
  HDPrivateKey m; Want w=master(m); std::string why; bool bad=n%2; std::string s=bad?badpath(false):rpath(false); std::vector<uint32_t> v; int st=parse_path(s,false,v); XStr xs(s); HDPrivateKey k=m.derive((const char*)xs);
  if(st==0){ REQ(!k.isValid(),"bad-path-accepted","path '%s' gave a valid key (m%s)",s.c_str(),k.xprv().c_str()); ev("path.bad"); } else { for(auto i:v) w=want_child(w,i); if(st==2&&!k.isValid()){ ev("path.free"); } else { REQ(k.isValid(),"path-refused","path '%s'",s.c_str()); REQ(same_priv(k,w,why),"wrong-key","path '%s': %s",s.c_str(),why.c_str()); ev("path.good"); } }
  // key stays usable and unchanged
  uint8_t sec[32]; m.getSecret(sec); (void)sec; seen(s.data(),s.size()); }
static void h_pubpath(uint64_t n){
  HDPrivateKey m; Want w=master(m); HDPublicKey x=m.xpub(); HD p=w.k; p.priv=false; std::string why; bool bad=n%2; std::string s=bad?badpath(R.chance(1,2)):rpath(true); std::vector<uint32_t> v; int st=parse_path(s,true,v); XStr xs(s); HDPublicKey k=x.derive((const char*)xs);
  if(st==0){ REQ(!k.isValid(),"bad-path-accepted","public path '%s' gave a valid key",s.c_str()); ev("pubpath.bad"); } else { for(auto i:v) p=hd_ckd_pub(p,i); if(st==2&&!k.isValid()) ev("pubpath.free"); else { REQ(k.isValid(),"path-refused","public path '%s'",s.c_str()); REQ(same_pub(k,p,why),"wrong-key","public path '%s': %s",s.c_str(),why.c_str()); ev("pubpath.good"); } }
  uint32_t h=0x80000000u|R.u32(); HDPublicKey hc=x.child(h); REQ(!hc.isValid(),"hardened-public","hardened public derivation gave a key"); std::vector<uint32_t> a; for(size_t i=0,d=1+R.below(3);i<d;i++) a.push_back(idx(true)); HD q=w.k; q.priv=false; HDPublicKey ka=x.derive(a.data(),a.size()); for(auto i:a) q=hd_ckd_pub(q,i); REQ(same_pub(ka,q,why),"wrong-key","public array path: %s",why.c_str()); a.insert(a.begin()+R.below(a.size()+1),h); HDPublicKey kb=x.derive(a.data(),a.size()); REQ(!kb.isValid(),"hardened-public","array path with a hardened step gave a key"); ev("hardened-refused",2); seen(s.data(),s.size()); }
static void h_deep(uint64_t n){ // keys next to the maximal depth; derivation from invalid keys
  U256 d=escalar(); Bytes cc=R.bytes(32),fp=R.bytes(4); uint8_t dep=253+n%3; uint32_t num=R.u32(); XBuf db(b32(d)),cb(cc),fb(fp); HDPrivateKey k(db.p,cb.p,dep,fb.p,num); HD w{true,d,pmul(d,G),cc,dep,fp,num}; std::string why; uint32_t i=idx(true); HDPrivateKey c=k.child(i); HDPublicKey pc=k.xpub().child(i);
  if(dep==255){ REQ(!c.isValid()&&!pc.isValid(),"depth-overflow","child of a key of depth 255 has depth %d",c.depth); ev("depth-limit"); } else { Want ww{hd_ckd_priv(w,i),&DEFAULT_NETWORK,UNKNOWN_TYPE}; REQ(same_priv(c,ww,why),"child-key","depth %d: %s",dep,why.c_str()); HD p=w; p.priv=false; REQ(same_pub(pc,hd_ckd_pub(p,i),why),"public-child","depth %d: %s",dep,why.c_str()); ev("deep"); }
  HDPrivateKey inv; HDPublicKey pinv; REQ(!inv.isValid()&&!pinv.isValid(),"empty-valid","default key is valid"); REQ(!inv.child(i).isValid()&&!inv.hardenedChild(i).isValid(),"child-of-invalid","private"); REQ(!pinv.child(i).isValid(),"child-of-invalid","public"); ev("invalid-parents"); }
// parents that differ in one component, asked for the same children in turn
static void h_near(uint64_t n){ std::vector<HD> w(4); U256 d=escalar(),d2=d; do { d2=d; d2.v[R.below(4)]^=1ull<<R.below(64); } while(iszero(d2)||cmp(d2,N)>=0); Bytes cc=R.bytes(32),cc2=cc; cc2[R.below(32)]^=1<<R.below(8); uint8_t dep=(uint8_t)(2+R.below(250)); Bytes fp=R.bytes(4); uint32_t num=R.u32(); uint32_t i=idx(false),j=i^(1u<<R.below(32)); const Network*nt=NETS[R.below(4)]; std::string why;
  std::vector<HDPrivateKey> k; for(int q=0;q<4;q++){ U256 s=q&1?d2:d; HD h{true,s,pmul(s,G),q&2?cc2:cc,dep,fp,num}; w[q]=h; XBuf db(b32(s)),cb(h.cc),fb(fp); k.push_back(HDPrivateKey(db.p,cb.p,dep,fb.p,num,nt,UNKNOWN_TYPE)); }
  for(int r=0;r<6;r++){ int q=r?R.below(4):0; uint32_t x=r&&R.chance(1,2)?j:i; Want ww{hd_ckd_priv(w[q],x),nt,UNKNOWN_TYPE}; if(x>>31||R.chance(1,2)){ HDPrivateKey c=k[q].child(x); REQ(same_priv(c,ww,why),"child-key","neighbours: %s differs, child %u of %s/%s",why.c_str(),x,hex(b32(w[q].k)).c_str(),hex(w[q].cc).c_str()); } else { HD p=w[q]; p.priv=false; HDPublicKey c=k[q].xpub().child(x); REQ(same_pub(c,hd_ckd_pub(p,x),why),"public-child","neighbours: %s differs",why.c_str()); } ev("children.neighbours"); } seen(cc.data(),32); }
WORKLOAD(C14,{"neighbours",h_near,1},{"walk",h_walk,3},{"text-path",h_path,6},{"public-path",h_pubpath,4},{"limits",h_deep,2})
// ---------------------------------------------------------------- C15
static const ScriptType TYPES[]={UNKNOWN_TYPE,P2SH_P2WPKH,P2WPKH,P2SH_P2WSH,P2WSH};
static const char*const VPRV[2][5]={{"0488ade4","049d7878","04b2430c","0295b005","02aa7a99"},{"04358394","044a4e28","045f18bc","024285b5","02575048"}};
static const char*const VPUB[2][5]={{"0488b21e","049d7cb2","04b24746","0295b43f","02aa7ed3"},{"043587cf","044a5262","045f1cf6","024289ef","02575483"}};
static Bytes U(const char*h){ Bytes b; unhex(h,b); return b; }
static std::string secret(const ECScalar&k){ uint8_t s[32]; k.getSecret(s); return hex(s,32); }
// test networks share their prefixes; only a regtest key may change its address form
static bool netok(const Network*got,const Network*was){ return was==&Regtest||!strcmp(got->bech32,was->bech32); }
static void w_rt(uint64_t n){ U256 d=escalar(); bool comp=R.chance(1,2); const Network*net=NETS[n%4]; int t=net==&Mainnet?0:1; Bytes raw={(uint8_t)(t?0xef:0x80)}; app(raw,b32(d)); if(comp) raw.push_back(1); std::string want=base58check(raw); XBuf db(b32(d)); PrivateKey k(db.p,comp,net); REQ(k.wif()==want,"wif-mismatch","%s want %s",k.wif().c_str(),want.c_str()); REQ(std::string(k.toString())==want,"wif-mismatch","toString");
  { XBuf o(want.size()+1+R.below(20)); int l=k.wif(o.c(),o.n); REQ(l==(int)want.size()&&std::string(o.c())==want,"wif-mismatch","wif(buf) %d",l); }
  auto chk=[&](const char*how,const PrivateKey&x){ REQ(x.isValid()&&secret(x)==hex(b32(d)),"wif-import","%s: %s",how,want.c_str()); PublicKey p=x.publicKey(); REQ(p.compressed==comp&&Bytes(p.point,p.point+64)==xy(pmul(d,G)),"wif-import","%s: public key of %s",how,want.c_str()); REQ(x.network->wif==net->wif&&netok(x.network,net),"wif-import","network"); REQ(x.wif()==want,"wif-import","%s: re-export",how); };
  { PrivateKey x(want); chk("ctor",x); } { PrivateKey x; XStr s(want); REQ(x.fromWIF(s)==1,"wif-import","return value"); chk("fromWIF",x); U256 d2=escalar(); XBuf d2b(b32(d2)); PrivateKey y(d2b.p,!comp,NETS[R.below(4)]); XBuf cs(B(want)); y.fromWIF(cs.c(),cs.n); chk("reused object",y); y.fromString(s); chk("fromString",y); } ev("wif"); seen(raw.data(),raw.size()); if(n<2) sample("%s",want.c_str()); }
static bool wif_ok(const std::string&s,Bytes&sec,bool&comp,int&t){ Bytes b; if(!unbase58check(s,b)) return false; if(b.size()!=33&&b.size()!=34) return false; if(b[0]!=0x80&&b[0]!=0xef) return false; comp=b.size()==34; if(comp&&b[33]!=1) return false; sec=Bytes(b.begin()+1,b.begin()+33); U256 d=u256(sec.data()); t=b[0]!=0x80; return !iszero(d)&&cmp(d,N)<0; }
static void w_bad(uint64_t n){ U256 d=escalar(); Bytes raw={(uint8_t)(R.chance(1,2)?0xef:0x80)}; app(raw,b32(d)); bool comp=R.chance(1,2); if(comp) raw.push_back(1); std::string s; switch(n%9){ case 0: s=mutate_text(base58check(raw),"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"); break; case 1: raw[0]=(uint8_t)R.u32(); s=base58check(raw); break; case 2: raw.resize(34,0); raw[33]=(uint8_t)R.u32(); s=base58check(raw); break; case 3: { Bytes k; switch(R.below(5)){ case 0: k=Bytes(32,0); break; case 1: k=b32(N); break; case 2: k=Bytes(32,0xff); break; default: { U256 x=N; x.v[0]+=R.below(1000); k=b32(x); } } memcpy(&raw[1],k.data(),32); s=base58check(raw); break; } case 4: raw.resize(1+R.below(50)); s=base58check(raw); break; case 5: s=base58check(R.bytes(R.below(45))); break; case 6: s=rtext(R.below(60),"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"); break; case 7: s=base58check(raw); s.resize(R.below(s.size())); break; default: s=base58check(raw); std::swap(s[R.below(s.size())],s[R.below(s.size())]); }
  Bytes sec_; bool c; int t; bool ok=wif_ok(s,sec_,c,t); auto chk=[&](const char*how,const PrivateKey&x){ if(ok){ REQ(x.isValid()&&secret(x)==hex(sec_)&&x.publicKey().compressed==c,"wif-import","%s %s",how,s.c_str()); ev("wif.stillgood"); } else { REQ(!x.isValid(),"bad-wif-accepted","%s: '%s' gave secret %s",how,s.c_str(),secret(x).c_str()); ev("wif.refused"); x.wif(); x.address(); } };
  { PrivateKey x(s); chk("ctor",x); } { PrivateKey x; XStr z(s); int r=x.fromWIF(z); chk("fromWIF",x); REQ((r!=0)==ok,"wif-return","fromWIF returned %d for '%s'",r,s.c_str()); } { XBuf db(b32(escalar())); PrivateKey x(db.p); XBuf z(B(s)); PublicKey old=x.publicKey(); Bytes oa(old.point,old.point+64); std::string oaddr=x.address(); x.fromWIF(z.c(),z.n); chk("reused object",x); if(!ok){ PublicKey q=x.publicKey(); REQ(Bytes(q.point,q.point+64)!=oa&&std::string(x.address())!=oaddr,"bad-wif-accepted","'%s' leaves the public key of the previous secret",s.c_str()); } } seen(s.data(),s.size()); }
static HD rhd(){ U256 d=escalar(); HD h{true,d,pmul(d,G),entropy(32),(uint8_t)R.below(256),R.chance(1,4)?Bytes(4,0):R.bytes(4),R.chance(1,3)?(uint32_t)R.below(3)<<31:R.u32()}; return h; }
static void x_rt(uint64_t n){ HD h=rhd(); int ty=n%5; const Network*net=NETS[(n/5)%4]; int t=net==&Mainnet?0:1; Bytes sv=hd_ser(h,U(VPRV[t][ty]),false),pv=hd_ser(h,U(VPUB[t][ty]),true); std::string sp=base58check(sv),pp=base58check(pv); XBuf db(b32(h.k)),cb(h.cc),fb(h.pfp); ScriptType st=TYPES[ty]; if(ty==0){ static const ScriptType o[]={UNKNOWN_TYPE,P2PKH,P2SH,MULTISIG}; st=o[R.below(4)]; } HDPrivateKey k(db.p,cb.p,h.depth,fb.p,h.num,net,st);
  REQ(k.xprv()==sp,"xprv-mismatch","%s want %s",k.xprv().c_str(),sp.c_str()); REQ(std::string(k.toString())==sp,"xprv-mismatch","toString"); HDPublicKey x=k.xpub(); REQ(x.xpub()==pp,"xpub-mismatch","%s want %s",x.xpub().c_str(),pp.c_str()); { XBuf o(120); int l=k.xpub(o.c(),o.n); REQ(l==(int)pp.size()&&std::string(o.c())==pp,"xpub-mismatch","xpub(buf) of a private key"); l=k.xprv(o.c(),o.n); REQ(l==(int)sp.size()&&std::string(o.c())==sp,"xprv-mismatch","xprv(buf)"); l=x.xpub(o.c(),o.n); REQ(l==(int)pp.size()&&std::string(o.c())==pp,"xpub-mismatch","xpub(buf)"); }
  { XBuf o(78); REQ(k.serialize(o.p,78)==78&&o.bytes()==sv&&k.length()==78,"xprv-bytes","%s",hex(o.bytes()).c_str()); XBuf q(78); REQ(x.serialize(q.p,78)==78&&q.bytes()==pv,"xpub-bytes","%s",hex(q.bytes()).c_str()); }
  ScriptType want=TYPES[ty]; auto cp=[&](const char*how,HDPrivateKey&y){ REQ(y.isValid()&&secret(y)==hex(b32(h.k))&&Bytes(y.chainCode,y.chainCode+32)==h.cc&&y.depth==h.depth&&Bytes(y.parentFingerprint,y.parentFingerprint+4)==h.pfp&&y.childNumber==h.num,"xprv-import","%s %s",how,sp.c_str()); REQ(y.type==want,"xprv-import","%s: script type %d want %d",how,(int)y.type,(int)want); REQ(!memcmp(y.network->xprv,net->xprv,4)&&y.network->wif==net->wif&&netok(y.network,net),"xprv-import","network"); REQ(y.xprv()==sp&&y.xpub().xpub()==pp,"xprv-import","%s: re-export",how); PublicKey p=y.publicKey(); REQ(Bytes(p.point,p.point+64)==xy(h.K),"xprv-import","public key"); REQ(y.getStatus()==PARSING_DONE,"xprv-import","status"); };
  auto cq=[&](const char*how,HDPublicKey&y){ REQ(y.isValid()&&Bytes(y.point,y.point+64)==xy(h.K)&&Bytes(y.chainCode,y.chainCode+32)==h.cc&&y.depth==h.depth&&Bytes(y.parentFingerprint,y.parentFingerprint+4)==h.pfp&&y.childNumber==h.num,"xpub-import","%s %s",how,pp.c_str()); REQ(y.type==want,"xpub-import","%s: script type",how); REQ(!memcmp(y.network->xpub,net->xpub,4)&&netok(y.network,net),"xpub-import","network"); REQ(y.xpub()==pp,"xpub-import","%s: re-export",how); REQ(y.getStatus()==PARSING_DONE,"xpub-import","status"); };
  { XStr s(sp); HDPrivateKey y((const char*)s); cp("ctor",y); HDPrivateKey z=HDPrivateKey(R.chance(1,2)?"":"xprv9s21"); z.fromString(s); cp("after failure",z); HDPrivateKey a; used(a); XBuf cs(B(sp)); a.fromString(cs.c(),cs.n); cp("reused object",a); XBuf b(sv); HDPrivateKey c; size_t u=c.parse(b.p,b.n); REQ(u==78,"xprv-import","parse returned %zu",u); cp("parse",c); HDPrivateKey e; e.parse(hex(sv)); cp("parse hex",e); HDPrivateKey c2; used(c2); c2.reset(); c2.parse(b.p,b.n); cp("parse into reused",c2); }
  { XStr s(pp); HDPublicKey y((const char*)s); cq("ctor",y); HDPublicKey z=HDPublicKey(R.chance(1,2)?"":"xpub661MyM"); z.fromString(s); cq("after failure",z); XBuf cs(B(pp)); HDPublicKey a=HDPublicKey(x); HDPrivateKey om; master(om); a=om.xpub(); a.fromString(cs.c(),cs.n); cq("reused object",a); XBuf b(pv); HDPublicKey c; size_t u=c.parse(b.p,b.n); REQ(u==78,"xpub-import","parse returned %zu",u); cq("parse",c); HDPublicKey e; e.parse(hex(pv)); cq("parse hex",e); }
  ev("extended"); char nm[24]; snprintf(nm,24,"version.%d.%d",t,ty); ev(nm); seen(sv.data(),78); }
static bool xprv_ok(const Bytes&b,int&t,int&ty){ if(b.size()!=78) return false; bool f=false; for(t=0;t<2&&!f;t++) for(ty=0;ty<5;ty++) if(Bytes(b.begin(),b.begin()+4)==U(VPRV[t][ty])){ f=true; break; } t--; if(!f||b[45]) return false; U256 d=u256(&b[46]); return !iszero(d)&&cmp(d,N)<0; }
static bool xpub_ok(const Bytes&b,int&t,int&ty){ if(b.size()!=78) return false; bool f=false; for(t=0;t<2&&!f;t++) for(ty=0;ty<5;ty++) if(Bytes(b.begin(),b.begin()+4)==U(VPUB[t][ty])){ f=true; break; } t--; if(!f) return false; Pt p; return (b[45]==2||b[45]==3)&&unsec(Bytes(b.begin()+45,b.end()),p); }
static void x_bad(uint64_t n){ HD h=rhd(); bool pub=n%2; int t=R.below(2),ty=R.below(5); Bytes v=hd_ser(h,U(pub?VPUB[t][ty]:VPRV[t][ty]),pub); std::string s; bool rawonly=false; Bytes b=v; switch((n/2)%10){ case 0: s=mutate_text(base58check(v),"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"); break; case 1: b[R.below(4)]^=1<<R.below(8); s=base58check(b); break; case 2: { Bytes w=U(pub?VPRV[t][ty]:VPUB[t][ty]); memcpy(b.data(),w.data(),4); s=base58check(b); break; } case 3: b[45]=(uint8_t)(R.chance(3,4)?R.below(8):R.u32()); s=base58check(b); break; case 4: { Bytes k; switch(R.below(5)){ case 0: k=Bytes(32,0); break; case 1: k=b32(N); break; case 2: k=Bytes(32,0xff); break; case 3: k=b32(e256()); break; default: { U256 x=pub?P:N; x.v[0]+=R.below(1000); k=b32(x); } } memcpy(&b[46],k.data(),32); s=base58check(b); break; } case 5: b.resize(R.below(100)); s=base58check(b); break; case 6: b.resize(74+R.below(12)); s=base58check(b); break; case 7: s=base58check(R.bytes(R.below(90))); break; case 8: if(pub){ Bytes k=R.bytes(32); memcpy(&b[46],k.data(),32); } else b[46+R.below(32)]^=1; s=base58check(b); break; default: s=base58check(v); s.resize(R.below(s.size())); }
  Bytes dec; bool ok=unbase58check(s,dec); int t2=0,ty2=0; ok=ok&&(pub?xpub_ok(dec,t2,ty2):xprv_ok(dec,t2,ty2)); (void)rawonly;
  if(!pub){ auto chk=[&](const char*how,HDPrivateKey&y){ if(ok){ REQ(y.isValid()&&y.xprv()==s,"xprv-import","%s %s",how,s.c_str()); ev("ext.stillgood"); } else { REQ(!y.isValid(),"bad-xprv-accepted","%s: '%s' gave a valid key",how,s.c_str()); ev("ext.refused"); y.xprv(); y.xpub(); y.address(); y.derive("m/0h/1"); } }; XStr z(s); { HDPrivateKey y((const char*)z); chk("ctor",y); } { HDPrivateKey y; R.chance(1,2)?used(y):(void)master(y); XBuf c(B(s)); y.fromString(c.c(),c.n); chk("reused object",y); } }
  else { auto chk=[&](const char*how,HDPublicKey&y){ if(ok){ REQ(y.isValid()&&y.xpub()==s,"xpub-import","%s %s",how,s.c_str()); ev("ext.stillgood"); } else { REQ(!y.isValid(),"bad-xpub-accepted","%s: '%s' gave a valid key",how,s.c_str()); ev("ext.refused"); y.xpub(); y.address(); y.derive("m/0/1"); } }; XStr z(s); { HDPublicKey y((const char*)z); chk("ctor",y); } { HDPrivateKey m; master(m); HDPublicKey y=m.xpub(); XBuf c(B(s)); y.fromString(c.c(),c.n); chk("reused object",y); } }
  // binary form: a complete but invalid record is refused
  { XBuf rb(b); int a,c; bool k=pub?xpub_ok(b,a,c):xprv_ok(b,a,c); if(b.size()>=78&&!(b.size()==78)){ Bytes cut(b.begin(),b.begin()+78); k=pub?xpub_ok(cut,a,c):xprv_ok(cut,a,c); } if(pub){ HDPublicKey y; y.parse(rb.p,rb.n); if(b.size()&&!k) REQ(!y.isValid()||y.getStatus()!=PARSING_DONE,"bad-xpub-accepted","binary %s",hex(b).c_str()); if(k) REQ(y.isValid()&&y.getStatus()==PARSING_DONE,"xpub-import","binary %s refused",hex(b).c_str()); } else { HDPrivateKey y; y.parse(rb.p,rb.n); if(b.size()&&!k) REQ(!y.isValid()||y.getStatus()!=PARSING_DONE,"bad-xprv-accepted","binary %s",hex(b).c_str()); if(k) REQ(y.isValid()&&y.getStatus()==PARSING_DONE,"xprv-import","binary %s refused",hex(b).c_str()); } }
  seen(s.data(),s.size()); }
static void w_raw(uint64_t n){ // the 32-byte form
  U256 d=escalar(); Bytes b=b32(d); if(n%4==3) b=R.chance(1,2)?Bytes(32,0):b32(N); bool ok=n%4!=3; PrivateKey k; if(R.chance(1,3)){ XBuf o(b32(escalar())); k.parse(o.p,o.n); } size_t r; if(R.chance(1,2)){ XBuf x(b); r=k.parse(x.p,x.n); } else r=k.parse(hex(b)); if(ok){ REQ(r==32&&k.getStatus()==PARSING_DONE&&k.isValid()&&secret(k)==hex(b),"raw-import","%s",hex(b).c_str()); REQ(k.publicKey()==k*GeneratorPoint&&xy(pmul(d,G))==[&]{ Bytes o(65); PublicKey p=k.publicKey(); p.compressed=false; p.sec(o.data(),65); return Bytes(o.begin()+1,o.end()); }(),"raw-import","public key of %s",hex(b).c_str()); XBuf o(32); REQ(k.serialize(o.p,32)==32&&o.bytes()==b,"raw-export","%s",hex(b).c_str()); { XBuf o2(b32(escalar())),xb(b); PrivateKey u(o2.p,R.chance(1,2)); u.setSecret(xb.p); PublicKey q=u.publicKey(); REQ(u.isValid()&&secret(u)==hex(b)&&Bytes(q.point,q.point+64)==xy(pmul(d,G)),"raw-import","setSecret(%s) on a used key",hex(b).c_str()); } ev("raw"); } else { REQ(!k.isValid()&&k.getStatus()!=PARSING_DONE,"bad-secret-accepted","%s imported as a private key",hex(b).c_str()); XBuf x(b); PrivateKey q(x.p); REQ(!q.isValid(),"bad-secret-accepted","%s as constructor argument",hex(b).c_str()); ev("raw.refused"); } if(n%4==2){ U256 x=N; x.v[0]+=1+R.below(500); if(R.chance(1,3)) x=u256(Bytes(32,0xff).data()); XBuf xb(b32(x)); PrivateKey q(xb.p); if(q.isValid()){ PrivateKey z(q.wif()); REQ(z.isValid()&&secret(z)==secret(q)&&z.publicKey()==q.publicKey(),"wif-import","key made from the out-of-range secret %s does not survive export",hex(b32(x)).c_str()); } PrivateKey y; y.parse(xb.p,xb.n); if(y.isValid()){ PrivateKey z(y.wif()); REQ(z.isValid()&&secret(z)==secret(y),"wif-import","parsed out-of-range secret %s does not survive export",hex(b32(x)).c_str()); } { XBuf cc(R.bytes(32)),fp(R.bytes(4)); HDPrivateKey h(xb.p,cc.p,(uint8_t)R.u32(),fp.p,R.u32()); if(h.isValid()){ XStr zt(h.xprv()); HDPrivateKey z((const char*)zt); REQ(z.isValid()&&secret(z)==secret(h)&&z.publicKey()==h.publicKey(),"xprv-import","extended key made from the out-of-range secret %s does not survive export",hex(b32(x)).c_str()); } } ev("raw.outside"); } }
// an extended key whose public fields are changed in place exports the new values
static void x_edit(uint64_t n){ HD h=rhd(); int ty=R.below(5),t=R.below(2); XBuf db(b32(h.k)),cb(h.cc),fb(h.pfp); static const Network*NT[2]={&Mainnet,&Testnet}; HDPrivateKey k(db.p,cb.p,h.depth,fb.p,h.num,NT[t],TYPES[ty]); HDPublicKey x=k.xpub(); int xt=t,xty=ty; HD hx=h;
  for(int r=0;r<5;r++){ if(r){ bool pub=R.chance(1,2); HD&m=pub?hx:h; size_t b; switch(R.below(6)){ case 0: m.depth^=1<<R.below(8); (pub?x.depth:k.depth)=m.depth; break; case 1: m.num^=1u<<R.below(32); (pub?x.childNumber:k.childNumber)=m.num; break; case 2: b=R.below(4); m.pfp[b]^=1<<R.below(8); (pub?x.parentFingerprint:k.parentFingerprint)[b]=m.pfp[b]; break; case 3: b=R.below(32); m.cc[b]^=1<<R.below(8); (pub?x.chainCode:k.chainCode)[b]=m.cc[b]; break; case 4: (pub?xty:ty)=R.below(5); (pub?x.type:k.type)=TYPES[pub?xty:ty]; break; default: (pub?xt:t)=R.below(2); (pub?x.network:k.network)=NT[pub?xt:t]; } }
    std::string s=base58check(hd_ser(h,U(VPRV[t][ty]),false)),p=base58check(hd_ser(hx,U(VPUB[xt][xty]),true)),kp=base58check(hd_ser(h,U(VPUB[t][ty]),true)); REQ(k.xprv()==s,"xprv-mismatch","after an edit: %s want %s",k.xprv().c_str(),s.c_str()); REQ(x.xpub()==p,"xpub-mismatch","after an edit: %s want %s",x.xpub().c_str(),p.c_str()); REQ(k.xpub().xpub()==kp,"xpub-mismatch","of an edited private key"); ev("extended.edited"); } seen(h.cc.data(),32); }
// one key exported in all its forms in turn
static void w_near(uint64_t n){ U256 d=escalar(),d2=d; do { d2=d; d2.v[R.below(4)]^=1ull<<R.below(64); } while(iszero(d2)||cmp(d2,N)>=0); for(int r=0;r<4;r++){ U256 k=r&&R.chance(1,2)?d2:d; bool c=R.chance(1,2); const Network*net=NETS[R.below(4)]; Bytes raw={(uint8_t)(net==&Mainnet?0x80:0xef)}; app(raw,b32(k)); if(c) raw.push_back(1); std::string want=base58check(raw); XBuf kb(b32(k)); PrivateKey p(kb.p,c,net); REQ(p.wif()==want,"wif-mismatch","neighbours: %s want %s",p.wif().c_str(),want.c_str()); PrivateKey q(want); PublicKey u=q.publicKey(); REQ(q.isValid()&&secret(q)==hex(b32(k))&&u.compressed==c&&Bytes(u.point,u.point+64)==xy(pmul(k,G)),"wif-import","neighbours: %s",want.c_str()); ev("wif.neighbours"); } seen(b32(d).data(),32); }
WORKLOAD(C15,{"edited",x_edit,2},{"wif-neighbours",w_near,1},{"raw",w_raw,1},{"wif",w_rt,4},{"wif-bad",w_bad,6},{"extended",x_rt,5},{"extended-bad",x_bad,8})
