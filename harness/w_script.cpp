// C06 addresses, C29 scripts, C30 descriptor checksums
#include "keys.h"
#include "PSBT.h"
using namespace ref;
static const char*ALNUM="0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
static std::string addr_of(const Bytes&spk,const Network*n){ Bytes v; if(spk.size()==25){ v={n->p2pkh}; v.insert(v.end(),spk.begin()+3,spk.begin()+23); return base58check(v);} if(spk.size()==23){ v={n->p2sh}; v.insert(v.end(),spk.begin()+2,spk.begin()+22); return base58check(v);} return segwit(n->bech32,0,Bytes(spk.begin()+2,spk.end())); }
template<class F> static bool buf_addr(F f,const std::string&want,std::string&got){ XBuf b(100); memset(b.p,'#',100); f(b.c(),b.n); got=std::string(b.c(),strnlen(b.c(),100)); return got==want; }
// what a text stands for: 1 valid (spk), 0 invalid, 2 valid base58 address followed by characters outside the alphabet (either outcome)
static int decode_addr(const std::string&s,Bytes&spk){ spk.clear();
  for(auto n:NETS){ int ver,enc; Bytes p; if(unsegwit(n->bech32,s,ver,p,enc)&&enc==(ver?2:1)&&ver<=16&&p.size()>=2&&p.size()<=40&&(ver||p.size()==20||p.size()==32)){ spk.push_back(ver?0x50+ver:0); spk.push_back((uint8_t)p.size()); app(spk,p); return 1; } }
  static const std::string A58="123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"; size_t e=s.find_first_not_of(A58); std::string t=s.substr(0,e); Bytes p; if(!unbase58check(t,p)||p.size()!=21) return 0;
  for(auto n:NETS){ Bytes h(p.begin()+1,p.end()); if(p[0]==n->p2pkh) spk=p2pkh(h); else if(p[0]==n->p2sh) spk=p2sh(h); else continue; return e==std::string::npos?1:2; } return 0; }
static void check_text(const std::string&s,const char*what){ if(s.find('\0')!=std::string::npos) return; Bytes spk; int st=decode_addr(s,spk); XStr x(s); Script a((const char*)x); Bytes g=sbytes(a);
  if(st==1) REQ(g==spk,"wrong-script","address '%s' gave script %s want %s (%s)",s.c_str(),hex(g).c_str(),hex(spk).c_str(),what); else if(st==2) REQ(g==spk||g.empty(),"wrong-script","'%s' gave %s",s.c_str(),hex(g).c_str()); else REQ(g.empty(),"bad-address-accepted","'%s' is no valid address but gave script %s (%s)",s.c_str(),hex(g).c_str(),what);
  if(R.chance(1,4)){ Script b{std::string(s)}; REQ(sbytes(b)==g,"wrong-script","std::string constructor differs for '%s'",s.c_str()); TxOut o((const char*)x,5); REQ(sbytes(o.scriptPubkey)==g&&o.amount==5,"wrong-script","TxOut(address) differs for '%s'",s.c_str()); }
  if(st==1){ ev("text.valid"); if(g[0]>0x50&&g[0]<=0x60) ev("text.v1+"); } else ev("text.invalid"); seen(s.data(),s.size()); }
static void a_key(uint64_t n){ const KP&k=rkey(); bool comp=R.chance(3,4); const Network*net=NETS[R.below(4)]; PublicKey p=lpub(k,comp); std::string got;
  Bytes lh=hash160(comp?k.s33:k.s65); std::string L=addr_of(p2pkh(lh),net);
  #define CHK(what,expr,want) do{ std::string g=(expr); REQ(g==want,"wrong-address",what " of %s on %s: '%s' want '%s'",hex(k.s33).c_str(),net->bech32,g.c_str(),want.c_str()); }while(0)
  CHK("legacyAddress",p.legacyAddress(net),L); CHK("address",p.address(net),L); REQ(buf_addr([&](char*b,size_t l){p.legacyAddress(b,l,net);},L,got),"wrong-address","legacyAddress buffer '%s' want '%s'",got.c_str(),L.c_str());
  if(comp){ Bytes h=hash160(k.s33); std::string S=addr_of(p2wpkh(h),net),Nn=addr_of(p2sh(hash160(p2wpkh(h))),net); CHK("segwitAddress",p.segwitAddress(net),S); CHK("nestedSegwitAddress",p.nestedSegwitAddress(net),Nn);
    REQ(buf_addr([&](char*b,size_t l){p.segwitAddress(b,l,net);},S,got),"wrong-address","segwit buffer '%s' want '%s'",got.c_str(),S.c_str()); REQ(buf_addr([&](char*b,size_t l){p.nestedSegwitAddress(b,l,net);},Nn,got),"wrong-address","nested buffer '%s'",got.c_str());
    if(n%4==0){ PrivateKey q=lpriv(k,true,net); CHK("PrivateKey::legacyAddress",q.legacyAddress(),L); CHK("PrivateKey::address",q.address(),L); CHK("PrivateKey::segwitAddress",q.segwitAddress(),S); CHK("PrivateKey::nestedSegwitAddress",q.nestedSegwitAddress(),Nn); REQ(buf_addr([&](char*b,size_t l){q.segwitAddress(b,l);},S,got)&&buf_addr([&](char*b,size_t l){q.legacyAddress(b,l);},L,got)&&buf_addr([&](char*b,size_t l){q.nestedSegwitAddress(b,l);},Nn,got)&&buf_addr([&](char*b,size_t l){q.address(b,l);},L,got),"wrong-address","PrivateKey buffer form: '%s'",got.c_str());
      static const ScriptType ty[3]={P2PKH,P2SH_P2WPKH,P2WPKH}; const std::string*w[3]={&L,&Nn,&S}; int t=R.below(3); Bytes d=b32(k.d),cc=R.bytes(32),x=xy(k.P); HDPrivateKey hd(d.data(),cc.data(),0,NULL,0,net,ty[t]); CHK("HDPrivateKey::address",hd.address(),(*w[t])); REQ(buf_addr([&](char*b,size_t l){hd.address(b,l);},*w[t],got),"wrong-address","HDPrivateKey buffer"); HDPublicKey hp(x.data(),cc.data(),0,NULL,0,net,ty[t]); CHK("HDPublicKey::address",hp.address(),(*w[t])); REQ(buf_addr([&](char*b,size_t l){hp.address(b,l);},*w[t],got),"wrong-address","HDPublicKey buffer"); ev("hd.addresses"); }
    check_text(S,"own segwit"); check_text(Nn,"own nested"); }
  check_text(L,"own legacy"); ev("key.addresses"); if(n<2) sample("%s -> %s",hex(k.s33).c_str(),L.c_str()); }
static void a_script(uint64_t n){ const Network*net=NETS[R.below(4)]; Bytes h20=ebytes(20),h32=ebytes(32),spk; switch(n%4){ case 0: spk=p2pkh(h20); break; case 1: spk=p2sh(h20); break; case 2: spk=p2wpkh(h20); break; default: spk=p2wsh(h32); }
  std::string want=addr_of(spk,net),got; Script s=lscript(spk); std::string g=s.address(net); REQ(g==want,"wrong-address","script %s on %s: '%s' want '%s'",hex(spk).c_str(),net->bech32,g.c_str(),want.c_str()); TxOut o(7,s); REQ(o.address(net)==want,"wrong-address","TxOut::address"); REQ(buf_addr([&](char*b,size_t l){s.address(b,l,net);},want,got),"wrong-address","script buffer '%s'",got.c_str()); REQ(buf_addr([&](char*b,size_t l){o.address(b,l,net);},want,got),"wrong-address","TxOut buffer '%s'",got.c_str());
  check_text(want,"own script"); ev("script.addresses"); }
static void a_nonstd(uint64_t n){ Bytes b; switch(R.below(4)){ case 0: b=rscript(); break; case 1: { b=R.chance(1,2)?p2pkh(R.bytes(20)):p2wsh(R.bytes(32)); b=mutate(b); break; } case 2: { b={(uint8_t)(0x51+R.below(16))}; Bytes p=R.bytes(2+R.below(39)); b.push_back(p.size()); app(b,p); break; } default: { b={0}; Bytes p=R.bytes(R.below(76)); b.push_back(p.size()); app(b,p); } }
  const Network*net=NETS[R.below(4)]; Script s=lscript(b); std::string g=s.address(net); if(g.empty()){ ev("nonstd.none"); return; } Bytes spk; REQ(decode_addr(g,spk)==1&&spk==b,"wrong-address","script %s displayed as '%s'",hex(b).c_str(),g.c_str()); ev("nonstd.addr"); }
static std::string goodaddr(){ const Network*net=NETS[R.below(4)]; switch(R.below(5)){ case 0: return addr_of(p2pkh(ebytes(20)),net); case 1: return addr_of(p2sh(ebytes(20)),net); case 2: return addr_of(p2wpkh(ebytes(20)),net); case 3: return addr_of(p2wsh(ebytes(32)),net); default: { int v=1+R.below(16); return segwit(net->bech32,v,R.bytes(R.chance(1,3)?32:2+R.below(39)),2); } } }
static void a_mut(uint64_t n){ std::string s=goodaddr(); switch(R.below(8)){ case 0: { size_t i=R.below(s.size()); s[i]=ALNUM[R.below(62)]; break; } case 1: { for(auto&c:s) c=toupper(c); break; } case 2: { size_t i=R.below(s.size()); s[i]=isupper(s[i])?tolower(s[i]):toupper(s[i]); break; } case 3: s=s.substr(0,R.below(s.size()+1)); break; case 4: { size_t i=R.below(s.size()); std::swap(s[i],s[R.below(s.size())]); break; } case 5: s+=rtext(1+R.below(3),R.chance(1,2)?ALNUM:" \n?!"); break; default: s=mutate_text(s,ALNUM); } check_text(s,"altered"); }
static void a_case(uint64_t n){ const Network*net=NETS[R.below(4)]; std::string s; switch(R.below(3)){ case 0: s=addr_of(p2wpkh(ebytes(20)),net); break; case 1: s=addr_of(p2wsh(ebytes(32)),net); break; default: s=segwit(net->bech32,1+R.below(16),R.bytes(R.chance(1,3)?32:2+R.below(39)),2); } size_t sep=strlen(net->bech32); auto up=[&](size_t a,size_t b){ for(size_t i=a;i<b&&i<s.size();i++) s[i]=toupper(s[i]); }; auto low=[&](size_t a,size_t b){ for(size_t i=a;i<b&&i<s.size();i++) s[i]=tolower(s[i]); };
  switch(n%7){ case 0: up(0,sep); break; case 1: up(sep,s.size()); break; case 2: up(R.below(sep),sep); break; case 3: { size_t a=R.below(s.size()); up(a,s.size()); break; } case 4: { up(0,s.size()); size_t a=R.below(s.size()); low(a,a+1); break; } case 5: { up(0,s.size()); size_t a=s.size()-6; low(R.chance(1,2)?a:0,R.chance(1,2)?s.size():sep); break; } default: up(0,R.below(s.size()+1)); }
  check_text(s,"case"); ev("case"); }
static void a_craft(uint64_t n){ std::string s; static const char*H[]={"bc","tb","bcrt","bcr","b","BC","ltc","bc1","tbc","sb","bcrtt"}; std::string hrp=H[R.below(R.chance(3,4)?3:11)]; std::vector<uint8_t> d;
  switch(n%5){ case 0: { int ver=R.below(R.chance(1,4)?32:18); size_t pl=R.chance(1,2)?(R.chance(1,2)?20:32):R.below(50); d.push_back(ver); Bytes p=R.bytes(pl); uint32_t acc=0; int bits=0; for(uint8_t x:p){ acc=acc<<8|x; bits+=8; while(bits>=5){ bits-=5; d.push_back(acc>>bits&31);} } if(bits) d.push_back((acc<<(5-bits)|(R.chance(1,4)?R.below(1u<<(5-bits)):0))&31); if(R.chance(1,10)) d.push_back(0); s=bech32_raw(hrp,d,R.chance(1,8)?R.u32()&0x3fffffff:R.chance(1,2)?1:0x2bc830a3u); if(R.chance(1,10)) for(auto&c:s) c=toupper(c); break; }
    case 1: { Bytes p; static const uint8_t vs[]={0,5,0x6f,0xc4}; p.push_back(R.chance(1,2)?vs[R.below(4)]:R.u32()); app(p,R.bytes(R.chance(1,2)?20:R.below(45))); s=base58check(p); break; }
    case 2: { s=hrp; if(R.chance(1,2)) s+="1"; s+=rtext(R.below(12),"qpzry9x8gf2tvdw0s3jn54khce6mua7l"); break; }
    case 3: { size_t l=R.below(260); s=rtext(l,R.chance(1,2)?ALNUM:"qpzry9x8gf2tvdw0s3jn54khce6mua7l1"); if(R.chance(1,2)) s=hrp+"1"+s; break; }
    default: { for(size_t l=R.below(120);l;l--) s+=(char)(1+R.below(255)); if(R.chance(1,2)) s=hrp+"1"+s; } }
  check_text(s,"crafted"); ev("crafted"); }
// the same key or script on one network after the other, keys and scripts that differ in one bit, texts that differ in one character
static void a_near(uint64_t n){ const KP&k=rkey(); const KP&k2=rkey(); Bytes s1,s2; switch(n%4){ case 0: s1=p2pkh(ebytes(20)); break; case 1: s1=p2sh(ebytes(20)); break; case 2: s1=p2wpkh(ebytes(20)); break; default: s1=p2wsh(ebytes(32)); } s2=s1; { size_t hs=n%4==0?3:2,hl=n%4==3?32:20; s2[hs+R.below(hl)]^=1<<R.below(8); } Script a=lscript(s1),b=lscript(s2); PublicKey p=lpub(k,true),q=lpub(k2,true),pn=lpub(k,false); 
  for(int i=0;i<6;i++){ const Network*net=NETS[R.below(4)]; switch(R.below(5)){ case 0: { bool f=R.chance(1,2); std::string g=(f?a:b).address(net),w=addr_of(f?s1:s2,net); REQ(g==w,"wrong-address","neighbours: script %s on %s: '%s' want '%s'",hex(f?s1:s2).c_str(),net->bech32,g.c_str(),w.c_str()); break; } case 1: { int f=R.below(3); const PublicKey&x=f==0?p:f==1?q:pn; std::string g=x.legacyAddress(net),w=addr_of(p2pkh(hash160(f==0?k.s33:f==1?k2.s33:k.s65)),net); REQ(g==w,"wrong-address","neighbours: legacy '%s' want '%s'",g.c_str(),w.c_str()); break; } case 2: { bool f=R.chance(1,2); std::string g=(f?p:q).segwitAddress(net),w=addr_of(p2wpkh(hash160(f?k.s33:k2.s33)),net); REQ(g==w,"wrong-address","neighbours: segwit '%s' want '%s'",g.c_str(),w.c_str()); break; } case 3: { bool f=R.chance(1,2); std::string g=(f?p:q).nestedSegwitAddress(net),w=addr_of(p2sh(hash160(p2wpkh(hash160(f?k.s33:k2.s33)))),net); REQ(g==w,"wrong-address","neighbours: nested '%s' want '%s'",g.c_str(),w.c_str()); break; } default: { std::string t=addr_of(R.chance(1,2)?s1:s2,net); check_text(t,"neighbours"); size_t c=R.below(t.size()); std::string u=t; u[c]=u[c]=='q'?'p':'q'; check_text(u,"one character changed"); check_text(t,"after a bad one"); } } ev("addresses.neighbours"); } }
WORKLOAD(C06,{"key",a_key,3},{"neighbours",a_near,2},{"script",a_script,4},{"nonstd",a_nonstd,2},{"altered",a_mut,8},{"case",a_case,3},{"crafted",a_craft,8})
// ---------------------------------------------------------------- C29
static Bytes pushsc(const Bytes&b){ return pushdata(b); }
static void s_push(uint64_t n){ Script s; Bytes m; size_t steps=1+R.below(10); bool big=R.chance(1,6);
  for(size_t i=0;i<steps;i++){ Bytes add; size_t ret; int op=R.below(5); switch(op){
    case 0: { uint8_t c=R.u32(); ret=s.push(c); add={c}; break; }
    case 1: { const KP&k=rkey(); bool c=R.chance(2,3); ret=s.push(lpub(k,c)); add=pushdata(c?k.s33:k.s65); ev("push.key"); break; }
    case 2: { U256 r=escalar(),q=escalar(); SigHashType t=(SigHashType)(1+R.below(3)); ret=R.chance(1,2)?s.push(lsig(r,q),t):(t=SIGHASH_ALL,s.push(lsig(r,q))); Bytes d=der(r,q); d.push_back(t); add=pushdata(d); ev("push.sig"); break; }
    case 3: { Bytes b=R.bytes(elen(big?9990:600)); Script t=lscript(b); ret=s.push(t); add=pushsc(b); ev("push.script"); if(b.size()==1&&sbytes(s)!=cat(m,add)){ add={ (uint8_t)(b[0]>=1&&b[0]<=16?0x50+b[0]:b[0]==0x81?0x4f:0xff) }; if(add[0]==0xff) add=pushsc(b); } break; }
    default: { Bytes b=R.bytes(elen(big?9990:600)); XBuf x(b); ret=s.push(x.p,x.n); add=b; } }
    Bytes g=sbytes(s); if(m.size()+add.size()>10000){ REQ(g.empty()||g==cat(m,add),"partial-script","over-long push left %zu bytes",g.size()); if(g.empty()) REQ(ret==0,"push-length","returned %zu for an empty script",ret); m=g; ev("push.toolong"); continue; }
    app(m,add); REQ(g==m,"push-bytes","op %d: script is %s want %s",op,hex(g).c_str(),hex(m).c_str()); REQ(ret==m.size(),"push-length","returned %zu want %zu",ret,m.size()); ev("pushes"); }
  REQ(ser(s)==varstr(m)&&s.length()==varstr(m).size(),"script-serialization","%zu bytes",m.size()); REQ((bool)s==(m.size()>0),"script-bool","%zu",m.size()); seen(m.data(),m.size()); if(n<1) sample("%zu pushes -> %s",steps,hex(m).substr(0,120).c_str()); }
static void s_pushlen(uint64_t n){ // every script length once over the cases
  size_t L=n%700; if(R.chance(1,10)) L=R.below(9998); Bytes b=R.bytes(L); Script t=lscript(b),s; s.push((uint8_t)0x51); s.push(t); Bytes w={0x51}; app(w,pushsc(b)); Bytes g=sbytes(s); if(L==1&&g!=w) return; if(w.size()>10000) REQ(g.empty()||g==w,"partial-script","%zu",L); else REQ(g==w,"push-bytes","script push of %zu bytes starts %s want %s",L,hex(Bytes(g.begin(),g.begin()+std::min<size_t>(g.size(),6))).c_str(),hex(Bytes(w.begin(),w.begin()+std::min<size_t>(w.size(),6))).c_str()); ev("push.lengths"); seen(L); }
static void s_ctor(uint64_t n){ const KP&k=rkey(); bool c=R.chance(3,4); PublicKey p=lpub(k,c); Bytes se=c?k.s33:k.s65,h=hash160(se); Bytes b=rscript(600); Script t=lscript(b);
  #define SC(what,expr,want) do{ Bytes g=sbytes(expr),w=(want); REQ(g==w,"wrong-script",what ": %s want %s",hex(g).c_str(),hex(w).c_str()); }while(0)
  SC("pkh",pkh(p),p2pkh(h)); SC("Script(P2PKH)",Script(p,P2PKH),p2pkh(h)); SC("Script(pubkey)",Script(p),p2pkh(h)); SC("script(P2PKH)",p.script(P2PKH),p2pkh(h)); SC("script()",p.script(),p2pkh(h));
  if(c){ SC("wpkh",wpkh(p),p2wpkh(h)); SC("Script(P2WPKH)",Script(p,P2WPKH),p2wpkh(h)); SC("script(P2WPKH)",p.script(P2WPKH),p2wpkh(h)); SC("script(P2SH_P2WPKH)",p.script(P2SH_P2WPKH),p2sh(hash160(p2wpkh(h)))); SC("sh(wpkh)",sh(wpkh(p)),p2sh(hash160(p2wpkh(h)))); }
  SC("sh",sh(t),p2sh(hash160(b))); SC("wsh",wsh(t),p2wsh(sha256(b))); SC("Script(P2SH)",Script(t,P2SH),p2sh(hash160(b))); SC("Script(P2WSH)",Script(t,P2WSH),p2wsh(sha256(b))); SC("scriptPubkey(P2SH)",t.scriptPubkey(P2SH),p2sh(hash160(b))); SC("scriptPubkey()",t.scriptPubkey(),p2sh(hash160(b))); SC("scriptPubkey(P2WSH)",t.scriptPubkey(P2WSH),p2wsh(sha256(b))); SC("sh(wsh)",sh(wsh(t)),p2sh(hash160(p2wsh(sha256(b))))); ev("constructors"); seen(h.data(),20); }
static void s_multi(uint64_t n){ int N_=R.chance(1,8)?R.below(24):1+R.below(16); int m=R.chance(1,6)?R.below(20):1+R.below(N_?N_:1); bool comp=R.chance(3,4); std::vector<PublicKey> v; std::vector<Bytes> w; bool dup=R.chance(1,8); for(int i=0;i<N_;i++){ const KP&k=rkey(); if(dup&&i&&R.chance(1,2)){ v.push_back(v.back()); w.push_back(w.back()); continue; } v.push_back(lpub(k,comp)); w.push_back(comp?k.s33:k.s65); }
  bool ok=N_>=1&&N_<=16&&m>=1&&m<=N_; Bytes want=ok?multisig(m,w):Bytes(); std::vector<PublicKey> v0=v; SC("multi",multi(m,v.data(),N_),want);
  if(comp){ std::vector<Bytes> sw=w; std::sort(sw.begin(),sw.end()); Bytes ws=ok?multisig(m,sw):Bytes(); SC("sortedmulti",sortedmulti(m,v.data(),N_),ws); for(int i=0;i<N_;i++) REQ(v[i]==v0[i]&&v[i].compressed==v0[i].compressed,"argument-modified","sortedmulti changed key %d of its input",i); for(int i=N_-1;i>0;i--) std::swap(v[i],v[R.below(i+1)]); SC("sortedmulti permuted",sortedmulti(m,v.data(),N_),ws); ev("sortedmulti"); }
  ev(ok?"multi.valid":"multi.invalid"); seen(want.data(),want.size()); }
static void s_type(uint64_t n){ Bytes b; switch(n%4){ case 0: b=p2pkh(ebytes(20)); break; case 1: b=p2sh(ebytes(20)); break; case 2: b=p2wpkh(ebytes(20)); break; default: b=p2wsh(ebytes(32)); } switch(R.below(6)){ case 0: break; case 1: b[R.chance(1,2)?R.below(3):b.size()-1-R.below(3)]=R.u32(); break; case 2: b.push_back(R.u32()); break; case 3: if(R.chance(1,2)) b.pop_back(); else b.erase(b.begin()); break; case 4: b=mutate(b); break; default: b=rscript(); }
  ScriptType w=UNKNOWN_TYPE; size_t l=b.size(); if(l==25&&b==p2pkh(Bytes(b.begin()+3,b.begin()+23))) w=P2PKH; else if(l==23&&b==p2sh(Bytes(b.begin()+2,b.begin()+22))) w=P2SH; else if(l==22&&b==p2wpkh(Bytes(b.begin()+2,b.end()))) w=P2WPKH; else if(l==34&&b==p2wsh(Bytes(b.begin()+2,b.end()))) w=P2WSH;
  ScriptType g=lscript(b).type(); bool ok=g==w||(w==UNKNOWN_TYPE&&(g==DIRECT_SCRIPT||(g==MULTISIG&&l>=37&&b.back()==0xae&&b[0]>0x50&&b[0]<=0x60))); REQ(ok,"wrong-type","script %s recognised as %d want %d",hex(b).c_str(),g,w); ev(w==UNKNOWN_TYPE?"type.other":"type.standard"); seen(b.data(),b.size()); }
static void s_wit(uint64_t n){ Witness w; Bytes m; size_t cnt=0,steps=R.chance(1,20)?R.range(240,300):1+R.below(8); bool small=steps>20; if(R.chance(1,6)){ const KP&k=rkey(); U256 r=escalar(),q=escalar(); w=Witness(lsig(r,q),lpub(k)); Bytes d=der(r,q); d.push_back(1); app(m,varstr(d)); app(m,varstr(k.s33)); cnt=2; }
  for(size_t i=0;i<steps;i++){ Bytes e; size_t ret; switch(small?4:R.below(5)){ case 0: { const KP&k=rkey(); bool c=R.chance(2,3); ret=w.push(lpub(k,c)); e=c?k.s33:k.s65; break; } case 1: { U256 r=escalar(),q=escalar(); SigHashType t=(SigHashType)(1+R.below(3)); ret=w.push(lsig(r,q),t); e=der(r,q); e.push_back(t); break; } case 2: { e=R.bytes(elen(700)); ret=w.push(lscript(e)); break; } default: { e=R.bytes(small?R.below(3):elen(R.chance(1,10)?9990:700)); XBuf x(e); ret=w.push(x.p,x.n); } }
    Bytes nm=cat(m,varstr(e)); Bytes g=ser(w); if(nm.size()>10000){ if(g==cat(varint(cnt+1),nm)){ m=nm; cnt++; continue; } REQ(g==Bytes(1,0)||g==cat(varint(cnt),m),"partial-witness","over-long push left %zu bytes",g.size()); return; }
    m=nm; cnt++; REQ(g==cat(varint(cnt),m)&&w.length()==g.size(),"witness-bytes","after %zu elements: %s want %s",cnt,hex(g).substr(0,300).c_str(),hex(cat(varint(cnt),m)).substr(0,300).c_str()); REQ(ret==m.size(),"witness-push-length","%zu want %zu",ret,m.size()); REQ(w.count()==cnt&&(bool)w,"witness-count","%zu elements pushed, count() is %d",cnt,(int)w.count()); ev("witness.pushes"); }
  ev("witnesses"); if(cnt>252) ev("witness.253+"); seen(m.data(),m.size()); }
WORKLOAD(C29,{"push",s_push,4},{"push-length",s_pushlen,6},{"constructors",s_ctor,4},{"multisig",s_multi,4},{"type",s_type,6},{"witness",s_wit,3})
// ---------------------------------------------------------------- C30
static const std::string DA="0123456789()[],'/*abcdefgh@:$%{}IJKLMNOPQRSTUVWXYZ&+-.;<=>?!^_|~ijklmnopqrstuvwxyzABCDEFGH`#\"\\ ";
static void d_good(uint64_t n){ size_t l=R.chance(1,3)?n%64:R.below(400); std::string s; if(R.chance(1,4)){ s="wsh(sortedmulti(2,["+hex(R.bytes(4))+"/48h/0h/0h/2h]"+rtext(111,ALNUM)+"/0/*,"+hex(rkey().s33)+"))"; } else for(size_t i=0;i<l;i++) s+=DA[R.below(DA.size())]; std::string w=descsum(s);
  std::string g=descriptorChecksum(s); REQ(g==w,"wrong-checksum","'%s': '%s' want '%s'",s.c_str(),g.c_str(),w.c_str()); XBuf t(B(s)); XBuf o(8+R.below(4)); size_t r=descriptorChecksum(t.c(),t.n,o.c(),o.n); REQ(r==8&&std::string(o.c(),8)==w,"wrong-checksum","buffer form, '%s' returned %zu",s.c_str(),r); ev("checksums"); seen(s.data(),s.size()); if(n<2) sample("%s#%s",s.substr(0,120).c_str(),w.c_str()); }
static void d_bad(uint64_t n){ size_t l=1+R.below(100); std::string s; for(size_t i=0;i<l;i++) s+=DA[R.below(DA.size())]; size_t k=R.below(l); char c; do c=(char)(R.chance(1,4)?0:R.u32()); while(c&&DA.find(c)!=std::string::npos); s[k]=c; XBuf t(B(s)); XBuf o(12); size_t r=descriptorChecksum(t.c(),t.n,o.c(),o.n); REQ(r==0,"bad-character-accepted","character 0x%02x at %zu: %zu characters of checksum %.8s",(uint8_t)c,k,r,o.c()); if(c) { std::string g=descriptorChecksum(s); REQ(g.empty(),"bad-character-accepted","character 0x%02x gave '%s'",(uint8_t)c,g.c_str()); } ev(c?"badchar":"badchar.nul"); seen(s.data(),s.size()); }
WORKLOAD(C30,{"alphabet",d_good,3},{"foreign",d_bad,2})
