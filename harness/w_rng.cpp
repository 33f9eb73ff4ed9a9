// C28 secret residue, C31 influence of the random source
#include "common.h"
#include "Bitcoin.h"
#include <new>
using namespace ref;
static const Network*const NETS[4]={&Mainnet,&Testnet,&Regtest,&Signet};
static std::string secret(const ECScalar&k){ uint8_t s[32]; k.getSecret(s); return hex(s,32); }
// ---------------------------------------------------------------- C28
static U256 rnd(){ return rscalar(); }
// every 8-byte window of the secret: a random secret makes a chance hit impossible
static bool residue(const uint8_t*p,size_t n,const Bytes&s){ for(size_t i=0;i+8<=s.size();i++) if(memmem(p,n,&s[i],8)) return true; return false; }
template<class T> struct Cell{ alignas(16) uint8_t raw[sizeof(T)]; T*o=nullptr; Cell(){ memset(raw,0x5c,sizeof raw); } template<class...A> T&make(A&&...a){ o=new(raw) T(std::forward<A>(a)...); return *o; } void kill(){ o->~T(); asm volatile("":::"memory"); } bool holds(const Bytes&s){ asm volatile("":::"memory"); return residue(raw,sizeof raw,s); } };
template<class T,class F> static void life(const char*what,const std::vector<Bytes>&secs,F mk){ static Cell<T>*c; c=new Cell<T>(); mk(*c); bool any=false; for(auto&s:secs) any|=c->holds(s); if(any) ev("secret-held"); c->kill(); for(auto&s:secs) if(c->holds(s)) fail("residue","%s left its secret in the memory it occupied",what); ev("destroyed"); delete c; }
static void s_obj(uint64_t n){ U256 d=rnd(); Bytes db=b32(d),cc=R.bytes(32); XBuf x(db),cb(cc); const Network*net=NETS[R.below(4)]; PrivateKey base(x.p,R.chance(1,2),net); std::string wif=base.wif(); HDPrivateKey hb(x.p,cb.p,3,NULL,7,net); std::string xprv=hb.xprv(); Bytes seed=R.bytes(32); XBuf sb(seed); HD ms=hd_seed(seed);
  switch(n%16){ case 0: life<ECScalar>("ECScalar",{db},[&](Cell<ECScalar>&c){ c.make(x.p,32); }); break; case 1: life<ECScalar>("ECScalar",{db},[&](Cell<ECScalar>&c){ c.make(base); }); break; case 2: life<PrivateKey>("PrivateKey",{db},[&](Cell<PrivateKey>&c){ c.make(x.p,true,net); }); break; case 3: life<PrivateKey>("PrivateKey copy",{db},[&](Cell<PrivateKey>&c){ c.make(base); }); break; case 4: life<PrivateKey>("PrivateKey from WIF",{db},[&](Cell<PrivateKey>&c){ c.make(wif); }); break; case 5: life<PrivateKey>("assigned PrivateKey",{db},[&](Cell<PrivateKey>&c){ c.make()=base; }); break; case 6: life<HDPrivateKey>("HDPrivateKey",{db,cc},[&](Cell<HDPrivateKey>&c){ c.make(x.p,cb.p); }); break; case 7: life<HDPrivateKey>("HDPrivateKey copy",{db,cc},[&](Cell<HDPrivateKey>&c){ c.make(hb); }); break; case 8: life<HDPrivateKey>("HDPrivateKey from text",{db,cc},[&](Cell<HDPrivateKey>&c){ c.make(xprv.c_str()); }); break; case 9: life<HDPrivateKey>("HDPrivateKey from seed",{b32(ms.k),ms.cc},[&](Cell<HDPrivateKey>&c){ c.make().fromSeed(sb.p,sb.n); }); break;
    case 10: { uint32_t i=R.u32(); HD ch=hd_ckd_priv(ms,i); life<HDPrivateKey>("derived HDPrivateKey",{b32(ch.k),ch.cc},[&](Cell<HDPrivateKey>&c){ HDPrivateKey m; m.fromSeed(sb.p,sb.n); c.make(m.child(i)); }); break; } case 11: life<PrivateKey>("sliced HDPrivateKey",{db},[&](Cell<PrivateKey>&c){ c.make(hb); }); break; case 12: { U256 e=rnd(); U256 s=addm(d,e,N); XBuf eb(b32(e)); ECScalar es(eb.p,32); life<ECScalar>("sum",{b32(s)},[&](Cell<ECScalar>&c){ c.make(base+es); }); break; } case 13: life<PrivateKey>("parsed PrivateKey",{db},[&](Cell<PrivateKey>&c){ c.make().parse(x.p,32); }); break; case 14: life<HDPrivateKey>("parsed HDPrivateKey",{db,cc},[&](Cell<HDPrivateKey>&c){ Bytes v=hd_ser({true,d,pmul(d,G),cc,1,Bytes(4,1),5},{4,0x88,0xad,0xe4},false); c.make().parse(v.data(),v.size()); }); break; default: life<PrivateKey>("used PrivateKey",{db},[&](Cell<PrivateKey>&c){ PrivateKey&k=c.make(x.p); Bytes h=R.bytes(32); k.sign(h.data()); k.schnorr_sign(h.data()); k.wif(); k.address(); k.setSecret(x.p); }); } seen(db.data(),32); }
struct Scan{ std::vector<Bytes> v; uint64_t l0,f0; Scan(const std::vector<Bytes>&s):v(s),l0(g_leaks),f0(g_freed){} template<class F> void run(F f){ g_secrets=&v; f(); g_secrets=nullptr; } ~Scan(){ ev("blocks-released",g_freed-f0); } bool bad(){ return g_leaks!=l0; } };
static std::vector<Bytes> windows(const Bytes&s,size_t w){ std::vector<Bytes> v; for(size_t i=0;i+w<=s.size();i+=w/2) v.emplace_back(s.begin()+i,s.begin()+i+w); return v; }
static void add(std::vector<Bytes>&v,const std::vector<Bytes>&w){ v.insert(v.end(),w.begin(),w.end()); }
static void s_heap(uint64_t n){ U256 d=rnd(); Bytes db=b32(d),cc=R.bytes(32); XBuf x(db),cb(cc); const Network*net=NETS[R.below(4)]; static const ScriptType ty[]={UNKNOWN_TYPE,P2WPKH,P2SH_P2WPKH,P2WSH,P2SH_P2WSH}; PrivateKey k(x.p,R.chance(1,2),net); HDPrivateKey h(x.p,cb.p,R.below(256),NULL,R.u32(),net,ty[R.below(5)]); std::string wif=k.wif(),xprv=h.xprv(); std::vector<Bytes> pat=windows(db,12); add(pat,windows(cc,12)); add(pat,windows(B(wif),16)); add(pat,windows(B(hex(db)),16)); { std::string tail=xprv.substr(20); add(pat,windows(B(tail),16)); }
  char big[200]; PrivateKey k2; HDPrivateKey h2; XStr ws(wif),xs(xprv); Scan s(pat); const char*what="";
  switch(n%18){ case 0: what="PrivateKey::wif()"; s.run([&]{ k.wif(); }); break; case 1: what="PrivateKey::wif(buf)"; s.run([&]{ k.wif(big,sizeof big); }); break; case 2: what="PrivateKey::toString()"; s.run([&]{ k.toString(); }); break; case 3: what="fromWIF"; s.run([&]{ k2.fromWIF(ws); }); break; case 4: what="PrivateKey(wif)"; s.run([&]{ PrivateKey q(wif); }); break; case 5: what="xprv()"; s.run([&]{ h.xprv(); }); break; case 6: what="xprv(buf)"; s.run([&]{ h.xprv(big,sizeof big); }); break; case 7: what="HDPrivateKey::toString()"; s.run([&]{ h.toString(); }); break; case 8: what="HDPrivateKey(xprv)"; s.run([&]{ HDPrivateKey q((const char*)xs); }); break; case 9: what="HDPrivateKey::fromString"; s.run([&]{ h2.fromString(xs); }); break;
    case 10: what="failed import"; { std::string w2=wif; size_t p=wif.size()-1-R.below(3); w2[p]=w2[p]=='2'?'3':'2'; XStr w(w2); s.run([&]{ k2.fromWIF(w); }); } break; case 11: what="serialize()"; s.run([&]{ h.serialize(); k.serialize(); }); break;
    case 12: what="import of a too long WIF"; { Bytes raw={0x80}; app(raw,db); app(raw,R.bytes(1+R.below(90))); std::string t=base58check(raw); XStr w(t); s.run([&]{ k2.fromWIF(w); PrivateKey q(t); }); } break; case 13: what="import of a too long extended key"; { Bytes raw=hd_ser({true,d,pmul(d,G),cc,1,Bytes(4,1),5},{4,0x88,0xad,0xe4},false); app(raw,R.bytes(1+R.below(90))); std::string t=base58check(raw); XStr w(t); s.run([&]{ h2.fromString(w); HDPrivateKey q((const char*)w); }); } break;
    case 14: what="import of a damaged extended key"; { std::string t=xprv; size_t p=t.size()-1-R.below(4); t[p]=t[p]=='2'?'3':'2'; if(R.chance(1,3)) t.resize(t.size()-1-R.below(30)); XStr w(t); s.run([&]{ h2.fromString(w); HDPrivateKey q((const char*)w); }); } break; case 15: what="wif(buf) with too little room"; { size_t c=R.below(wif.size()+1); XBuf o(c); s.run([&]{ k.wif(o.c(),c); }); } break; case 16: what="xprv(buf) with too little room"; { size_t c=R.below(xprv.size()+1); XBuf o(c); s.run([&]{ h.xprv(o.c(),c); }); } break; default: what="import of an invalid WIF"; { Bytes raw={(uint8_t)R.u32()}; app(raw,db); raw.push_back((uint8_t)R.u32()); if(R.chance(1,3)) raw.resize(2+R.below(32)); std::string t=base58check(raw); XStr w(t); s.run([&]{ k2.fromWIF(w); PrivateKey q(t); }); } }
  if(s.bad()) fail("heap-residue","%s released heap memory that still contained the secret",what); ev("exports"); seen(hash64(what,strlen(what))); seen(db.data(),32); }
static void s_derive(uint64_t n){ Bytes seed=R.bytes(64); XBuf sb(seed); HD m=hd_seed(seed); uint32_t i=R.u32(); HD c=hd_ckd_priv(m,i); std::vector<Bytes> pat=windows(b32(m.k),12); add(pat,windows(b32(c.k),12)); add(pat,windows(m.cc,12)); Scan s(pat); std::string path="m/"+std::to_string(i&0x7fffffff)+(i>>31?"h":""); s.run([&]{ HDPrivateKey k; k.fromSeed(sb.p,sb.n); HDPrivateKey q=k.child(i); HDPrivateKey z=k.derive(path.c_str()); uint8_t h[32]={1}; q.sign(h); q.schnorr_sign(h); q.ecdh(k.publicKey(),h); }); if(s.bad()) fail("heap-residue","derivation or signing released heap memory that contained a secret"); ev("derivations"); seen(seed.data(),64); }
WORKLOAD(C28,{"objects",s_obj,16},{"heap",s_heap,12},{"derive",s_derive,2})
// ---------------------------------------------------------------- C31
static void r_ops(uint64_t n){ // the whole key life under two different random streams and against the reference
  U256 d=escalar(),e=escalar(); Bytes h=R.chance(1,4)?ebytes(32):R.bytes(32),seed=R.bytes(16+R.below(48)); uint32_t i=R.u32(); XBuf db(b32(d)),eb(b32(e)),hb(h),sb(seed); Bytes want; Pt D=pmul(d,G),E=pmul(e,G);
  app(want,sec(D)); app(want,b32(mulm(d,e,N))); Pt S=padd(D,E); app(want,S.inf?Bytes(64,0):xy(S)); HD m=hd_seed(seed),c=hd_ckd_priv(m,i); app(want,b32(c.k)); app(want,sec(c.K)); app(want,sec(pmul(d,E))); app(want,schnorr_sign_det(d,h)); Bytes first;
  for(int round=0;round<2;round++){ static const int md[]={0,1,2,3,4,5}; g_rngmode=md[R.below(6)]; g_rngcalls=0; uint64_t modehash=g_rngmode; Bytes got; PrivateKey k(db.p); PrivateKey k2(eb.p); uint8_t o[65]; k.publicKey().sec(o,33); got.insert(got.end(),o,o+33); (k*k2).getSecret(o); got.insert(got.end(),o,o+32); ECPoint sm=k.publicKey()+k2.publicKey(); if(S.inf) got.insert(got.end(),64,0); else got.insert(got.end(),sm.point,sm.point+64); HDPrivateKey hm; hm.fromSeed(sb.p,sb.n); HDPrivateKey ch=hm.child(i); ch.getSecret(o); got.insert(got.end(),o,o+32); ch.publicKey().sec(o,33); got.insert(got.end(),o,o+33); ECPoint mp=k*k2.publicKey(); mp.compressed=true; mp.sec(o,33); got.insert(got.end(),o,o+33); SchnorrSignature ss=k.schnorr_sign(hb.p); uint8_t s64[64]; ss.serialize(s64,64); got.insert(got.end(),s64,s64+64); int mode=g_rngmode;
    if(got!=want){ size_t p=0; while(p<got.size()&&got[p]==want[p]) p++; g_rngmode=0; fail("depends-on-randomness","random mode %d: result differs from the reference at byte %zu (key %s)",mode,p,hex(b32(d)).c_str()); return; }
    Signature s=k.sign(hb.p); uint8_t b[65]; s.bin(b,65); Bytes sg(b,b+65); if(!k.publicKey().verify(s,hb.p)){ g_rngmode=0; fail("depends-on-randomness","verification failed in mode %d",mode); return; } if(round==0) first=sg; else if(sg!=first){ g_rngmode=0; fail("depends-on-randomness","ECDSA signature depends on the random source, key %s digest %s",hex(b32(d)).c_str(),hex(h).c_str()); return; } char nm[16]; snprintf(nm,16,"mode.%d",mode); ev(nm); ev("random-words",g_rngcalls); (void)modehash; g_rngmode=0; }
  Sig rs=ecdsa_sign(d,h),r2=ecdsa_sign(d,h,false); Bytes a=cat(b32(rs.r),b32(rs.s)),b2=cat(b32(r2.r),b32(r2.s)),f(first.begin(),first.begin()+64); REQ(f==a||(cmp(u256(h.data()),N)>=0&&f==b2),"depends-on-randomness","signature differs from RFC 6979"); seen(want.data(),want.size()); }
static std::string txt(const char*p){ return p?std::string(p):std::string("(null)"); }
static void r_gen(uint64_t n){ static const int wc[]={12,15,18,21,24}; int w=wc[n%5]; g_rngmode=R.below(6); Bytes tap; g_rngtap=&tap; std::string p=txt(generateMnemonic((uint8_t)w)); size_t t1=tap.size(); std::string q=txt(generateMnemonic((uint8_t)w)); g_rngtap=nullptr; int mode=g_rngmode; g_rngmode=0; Bytes e,e2; REQ(mn_entropy(p,e)==1&&(int)e.size()==w*4/3,"generated-phrase-invalid","mode %d: '%s'",mode,p.c_str()); REQ(mn_entropy(q,e2)==1,"generated-phrase-invalid","mode %d: '%s'",mode,q.c_str()); REQ(checkMnemonic(p),"generated-phrase-invalid","checkMnemonic refuses '%s'",p.c_str());
  Bytes be=tap; for(size_t i=0;i+4<=be.size();i+=4){ std::swap(be[i],be[i+3]); std::swap(be[i+1],be[i+2]); } auto in=[&](const Bytes&hay,size_t a,size_t b,const Bytes&x){ return b>=a&&b-a>=x.size()&&memmem(&hay[a],b-a,x.data(),x.size()); }; REQ(t1>=e.size()&&(in(tap,0,t1,e)||in(be,0,t1,e)),"entropy-lost","mode %d: phrase entropy %s is not what the random source delivered (%s)",mode,hex(e).c_str(),hex(Bytes(tap.begin(),tap.begin()+t1)).c_str()); REQ(tap.size()-t1>=e2.size()&&(in(tap,t1,tap.size(),e2)||in(be,t1,tap.size(),e2)),"entropy-lost","second phrase does not use fresh randomness"); if(mode==0) REQ(p!=q,"repeated-phrase","two phrases are equal"); ev("generated",2); char nm[24]; snprintf(nm,24,"generated.%d",w); ev(nm); seen(e.data(),e.size()); if(n<2) sample("%s",p.c_str()); }
static void r_ent(uint64_t n){ static const int wc[]={12,15,18,21,24}; int w=wc[R.below(5)]; Bytes d=R.bytes(elen(600)); if(R.chance(1,2)){ for(auto&c:d) if(R.chance(1,6)) c=0; if(d.size()&&R.chance(1,2)){ for(size_t i=d.size()-1-R.below(d.size()<4?d.size():4);i<d.size();i++) d[i]=0; } else if(d.size()&&R.chance(1,2)) d[0]=0; } std::string s(d.begin(),d.end()); Bytes hs=sha256(d); hs.resize(w*4/3); std::string want=mnemonic(hs),w24=mnemonic(sha256(d)); g_rngmode=R.below(6); XBuf x(d); std::string a=txt(generateMnemonic((uint8_t)w,x.p,x.n)),b=txt(generateMnemonic((uint8_t)w,s)),c=txt(generateMnemonic(x.p,x.n)),e=txt(generateMnemonic(s)); g_rngmode=0; REQ(a==want&&b==want,"phrase-mismatch","%d words from %s: '%s' / '%s' want '%s'",w,hex(d).substr(0,100).c_str(),a.c_str(),b.c_str(),want.c_str()); REQ(c==w24&&e==w24,"phrase-mismatch","default length"); Bytes d2=d; if(d2.size()){ if(R.chance(1,4)) d2.push_back(0); else if(R.chance(1,3)) d2.pop_back(); else d2[R.below(d2.size())]^=0x80>>R.below(7); XBuf y(d2); std::string f=txt(generateMnemonic((uint8_t)w,y.p,y.n)); REQ(f!=want,"shared-phrase","two entropies share a phrase"); } ev("from-entropy"); seen(hs.data(),hs.size()); }
WORKLOAD(C31,{"operations",r_ops,3},{"generate",r_gen,3},{"from-entropy",r_ent,2})
