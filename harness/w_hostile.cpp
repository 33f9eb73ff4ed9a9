// C01 hostile input: arbitrary bytes and text in arbitrary pieces into every parser and decoder, then use of whatever came out. The sanitizers are the oracle.
#include "any.h"
#include "Conversion.h"
using namespace ref;
static const char ALPHA[]="0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ+/=-_ \t\n'()[]{}#*,.:;$\x80\xff";
// structure-aware damage: lengths and counts replaced by extreme ones, parts of different objects spliced
static Bytes hostile(int k){ Bytes b=agen(k); switch(R.below(12)){ case 0: return b; case 1: case 2: case 3: return mutate(b); case 4: { for(int t=1+R.below(5);t--;) b=mutate(b); return b; } case 5: { Bytes c=agen(akind(R.u32())); size_t p=R.below(b.size()+1),q=R.below(c.size()+1); b.resize(p); b.insert(b.end(),c.begin()+q,c.end()); return b; } case 6: { static const char*v[]={"fd0000","fdfc00","fdfd00","fdffff","fe00000000","feffffff00","feffffffff","ff0000000000000000","ffffffffffffffffff","ffffffffffffffff7f","ff00000000ffffffff","fefeffff7f","fe00000001","fd1027","fe00001000"}; Bytes x; unhex(v[R.below(15)],x); size_t p=R.below(b.size()+1); if(R.chance(1,2)&&p<b.size()) b.erase(b.begin()+p,b.begin()+std::min(b.size(),p+(R.chance(1,2)?1:x.size()))); b.insert(b.begin()+p,x.begin(),x.end()); return b; } case 7: return ebytes(elen(400)); case 8: { Bytes c=b; app(c,agen(k)); return R.chance(1,2)?mutate(c):c; } case 9: { b.resize(R.below(b.size()+1)); return b; } case 10: { size_t z=1+R.below(5); Bytes x=R.bytes(z); Bytes h(b.begin(),b.begin()+R.below(std::min<size_t>(b.size(),60)+1)); app(h,x); app(h,ebytes(R.below(200))); return h; } default: if(b.size()) for(int t=R.below(4)+1;t--;) b[R.below(b.size())]+=R.chance(1,2)?1:-1; return b; } }
static void feedall(Obj&o,const Bytes&b){ int enc=R.below(6); size_t p=0,m=1+R.below(R.chance(1,3)?2:R.chance(1,2)?60:b.size()+1); if(enc==0){ std::string h=hex(b); if(R.chance(1,2)) h=mutate_text(h,ALPHA); XBuf x(B(h)); size_t q=0; while(q<x.n){ size_t l=std::min<size_t>(x.n-q,1+R.below(2*m)); Bytes part(x.p+q,x.p+q+l); XBuf y(part); if(R.chance(1,2)) o.s().parse(y.p,y.n,HEX_ENCODING); else o.s().parse(y.c(),y.n); q+=l; } ev("hex-fed"); return; } if(enc==1){ std::string h=hex(b); if(R.chance(1,2)) h=mutate_text(h,ALPHA); o.s().parse(h); ev("text-fed"); return; } while(p<b.size()){ size_t l=std::min<size_t>(b.size()-p,R.chance(1,12)?0:1+R.below(m)); Bytes part(b.begin()+p,b.begin()+p+l); XBuf y(part); o.s().parse(y.p,y.n,RAW); p+=l; if(R.chance(1,20)&&o.s().getStatus()!=PARSING_INCOMPLETE) break; } }
static void h_stream(uint64_t n){ int k=akind(n); OP o(anew(k)); uint64_t h=k; for(int t=1+R.below(3);t--;){ Bytes b=hostile(k); feedall(*o,b); parse_status st=o->s().getStatus(); ev(st==PARSING_DONE?"done":st==PARSING_FAILED?"failed":"incomplete"); h^=hash64(b.data(),b.size()); Sink s; o->use(s); if(R.chance(1,3)){ OP c(o->clone()); c->use(s); if(R.chance(1,2)) o->assign(*c); } if(R.chance(1,4)) o->mut(); if(R.chance(1,5)){ Bytes x=o->state(); s.v(x); } if(st==PARSING_FAILED||R.chance(1,4)) o->s().reset(); if(R.chance(1,8)) o->use(s); } ev(ANAME[k]); seen(h); if(n<2) sample("%s fed hostile bytes, status %d",ANAME[k],o->s().getStatus()); }
static std::string cs(const char*p){ return p?p:""; }
static std::string junk(){ switch(R.below(4)){ case 0: return rtext(elen(300),ALPHA); case 1: { std::string s; for(size_t i=elen(200);i--;) s+=(char)R.range(1,255); return s; } case 2: return std::string(elen(400),"10zA bo'/\xff"[R.below(10)]); default: return ""; } }
static std::string dmg(const std::string&s){ switch(R.below(4)){ case 0: return s; case 1: return junk(); default: { std::string r=s; for(int t=1+R.below(3);t--;) r=mutate_text(r,ALPHA); return r; } } }
static void h_text(uint64_t n){ Sink k; Bytes b=ebytes(elen(120)); XBuf o(elen(300)); switch(n%18){ case 0: { std::string t=dmg(hex(b)); XStr x(t); k.u(fromHex(x,x.n,o.p,o.n)); k.u(fromHex(t,o.p,o.n)); break; } case 1: { std::string t=dmg(base58(b)); XStr x(t); k.u(fromBase58Length(x,x.n)); k.u(fromBase58(x,x.n,o.p,o.n)); t=dmg(base58check(b)); k.u(fromBase58Check(t,o.p,o.n)); k.u(fromBase58(t,o.p,o.n)); break; } case 2: { std::string t=dmg(base43(b)); XStr x(t); k.u(fromBase43Length(x,x.n)); k.u(fromBase43(x,x.n,o.p,o.n)); break; } case 3: { uint8_t f=R.below(4); std::string t=dmg(base64(b,f&2,!(f&1))); XStr x(t); k.u(fromBase64Length(x,x.n,f)); k.u(fromBase64(x,x.n,o.p,o.n,f)); k.s(base64ToHex(t,f)); k.s(hexToBase64(dmg(hex(b)),f)); break; } case 4: { std::string t=dmg(bin(b)); XStr x(t); k.u(fromBin(x,x.n,o.p,o.n)); k.u(fromBin(t,o.p,o.n)); break; }
    case 5: { Bytes w={NETS[R.below(4)]->wif}; app(w,R.chance(1,3)?ebytes(32):b32(e256())); if(R.chance(1,2)) w.push_back(R.below(3)); std::string t=dmg(base58check(w)); PrivateKey p(t); use(k,p); XStr x(t); PrivateKey q; k.u(q.fromWIF(x,x.n)); k.u(q.fromWIF(x)); use(k,q); break; }
    case 6: { Bytes w=mutate(genxprv()); std::string t=dmg(base58check(w)); HDPrivateKey p{XStr(t)}; use(k,p); HDPrivateKey q; k.u(q.parse(t)); use(k,q); break; } case 7: { Bytes w=mutate(genxpub()); std::string t=dmg(base58check(w)); HDPublicKey p{XStr(t)}; use(k,p); HDPublicKey q; k.u(q.parse(t)); use(k,q); break; }
    case 8: { std::string t; switch(R.below(3)){ case 0: t=base58check(R.bytes(R.chance(1,2)?21:elen(60))); break; case 1: t=segwit(NETS[R.below(4)]->bech32,R.below(18),R.bytes(R.chance(1,2)?20:R.below(45))); break; default: t=segwit("bc",R.below(3),R.bytes(32)); } t=dmg(t); XStr x(t); Script s((const char*)x); use(k,s); TxOut z((uint64_t)5,(const char*)x); use(k,z); break; }
    case 9: { Bytes e=ebytes(16+4*R.below(5)); std::string t=dmg(mnemonic(e)); k.u(checkMnemonic(t)); XStr x(t); k.u(mnemonicToEntropy(x,x.n,o.p,o.n)); k.u(mnemonicToEntropy(t,o.p,o.n)); if(R.chance(1,10)){ HDPrivateKey h; XStr pw(junk()); k.u(h.fromMnemonic(x,x.n,pw,pw.n)); use(k,h); } break; } case 10: { k.s(cs(generateMnemonic((uint8_t)R.u32()))); k.s(cs(generateMnemonic((uint8_t)R.u32(),b.data(),b.size()))); k.s(cs(generateMnemonic(12+3*R.below(5),junk()))); k.s(cs(generateMnemonic(b.data(),b.size()))); XBuf e(b); k.s(cs(mnemonicFromEntropy(e.p,e.n))); break; }
    case 11: { std::string t=R.chance(1,3)?junk():dmg("m/84h/2147483647'/0H/4294967295/18446744073709551616/2"); XStr x(t); HDPrivateKey c=anyroot().derive(x); k.v(ser(c)); HDPublicKey d=anypub().derive(x); k.v(ser(d)); uint32_t p[6]; for(auto&q:p) q=eu32(); k.v(ser(anyroot().derive(p,R.below(4)))); k.v(ser(anypub().derive(p,R.below(4)))); break; }
    case 12: { std::string t=dmg("wsh(sortedmulti(2,[d34db33f/48h]xpub6/0/*,"+hex(rkey().s33)+"))"); XStr x(t); k.u(descriptorChecksum(x,x.n,o.c(),o.n)); k.s(descriptorChecksum(t)); break; } case 13: { std::string t=dmg(hex(genpub())); PublicKey p{XStr(t)}; use(k,p); ECPoint q; k.u(q.parse(t)); use(k,q); XBuf z(R.chance(1,2)?mutate(genpub()):b); ECPoint e; k.u(e.fromSec(z.p,z.n)); use(k,e); if(z.n>=32){ ECPoint f; k.u(f.from_x(z.p,z.n)); use(k,f); } break; }
    case 14: { std::string t=dmg(hex(der(e256(),e256()))); Signature g{XStr(t)}; use(k,g); XBuf z(R.chance(1,2)?mutate(der(e256(),e256())):b); Signature h; k.u(h.fromDer(z.p,z.n)); use(k,h); Signature i(z.p,z.n); use(k,i); Signature j; j.fromBin(z.p,z.n); use(k,j); SchnorrSignature u{XStr(dmg(hex(R.bytes(64))))}; use(k,u); break; }
    case 15: { std::string t=dmg(base64(hostile(A_PSBT),false,true)); PSBT p; k.u(p.parseBase64(t)); use(k,p); if(R.chance(1,3)){ k.u(p.parseBase64(dmg(base64(agen(A_PSBT),false,true)))); use(k,p); } break; } case 16: { std::string t=dmg(hex(agen(A_TX))); Tx x; k.u(x.parse(t)); use(k,x); XStr i(dmg(hex(R.bytes(32)))); TxIn z((const char*)i,eu32(),eu32()); use(k,z); ECScalar s{XStr(dmg(hex(b32(e256()))))}; use(k,s); ECScalar y(b.data(),b.size()); use(k,y); break; }
    default: { XBuf x(b); k.u(readVarInt(x.p,x.n)); k.u(littleEndianToInt(x.p,x.n)); k.u(bigEndianToInt(x.p,x.n)); XBuf z(b); Witness w(z.p,z.n); use(k,w); Script s(z.p,z.n); use(k,s); HDPrivateKey h; k.u(h.fromSeed(z.p,z.n)); use(k,h); } } ev("texts"); seen(k.h); }
// key-value records offered to a PSBT one at a time
static void h_add(uint64_t n){ PSBT p; Sink s; if(R.chance(7,8)){ Bytes b=R.chance(1,4)?hostile(A_PSBT):agen(A_PSBT); if(R.chance(1,4)) b.resize(R.below(b.size()+1)); XBuf x(b); p.parse(x.p,x.n); } for(int t=1+R.below(6);t--;){ Bytes k,v; switch(R.below(7)){ case 0: k=pk1(R.below(10),R.bytes(R.below(40))); v=R.bytes(elen(300)); break; case 1: k={0}; v=R.chance(1,2)?agen(A_TX):hostile(A_TX); break; case 2: k={1}; v=R.chance(1,2)?agen(A_TXOUT):hostile(A_TXOUT); break; case 3: k=pk1(2,R.chance(3,4)?genpub():R.bytes(R.below(70))); v=R.chance(2,3)?der(escalar(),escalar()):R.bytes(R.below(80)); v.push_back(R.u32()); if(R.chance(1,4)) v=mutate(v); break; case 4: k=pk1(R.chance(1,2)?6:2,R.chance(3,4)?genpub():R.bytes(R.below(70))); v=R.bytes(R.chance(2,3)?4*R.below(9):R.chance(1,6)?4*(250+R.below(10)):R.below(40)); break; case 5: k=pk1(R.below(6),R.chance(3,4)?Bytes():R.bytes(2)); v=rscript(); break; default: k=R.bytes(R.below(6)); v=R.bytes(elen(600)); } Script a=R.chance(1,2)?rawscript(k):lscript(k),b=R.chance(1,2)?rawscript(v):lscript(v); size_t sec=R.chance(7,8)?R.below(9):(size_t)R.u64()>>R.below(64); s.u(p.add(sec,&a,&b)); ev("records"); } use(s,p); PSBT q(p); q.sign(anyroot()); use(s,q); seen(s.h); }
// odd but permitted arguments of ordinary operations
static ECPoint anyp(){ switch(R.below(7)){ case 0: return ECPoint(); case 1: { XBuf x(R.bytes(64)); return ECPoint(x.p,R.chance(1,2)); } case 2: { Bytes b=R.bytes(33); b[0]=2+R.below(2); XBuf x(b); return ECPoint(x.p); } case 3: { Bytes b=R.bytes(65); b[0]=4; XBuf x(b); return ECPoint(x.p); } case 4: { Bytes b=R.bytes(33); b[0]=R.below(8)==4?9:R.below(4); XBuf x(b); return ECPoint(x.p); } case 5: { ECPoint p; XBuf x(R.bytes(R.below(33))); p.from_x(x.p,x.n); return p; } default: return lpub(rkey(),R.chance(1,2)); } }
static void h_args(uint64_t n){ Sink s; switch(n%7){ case 5: { ECPoint a=anyp(),b=anyp(); Bytes kb=b32(e256()); ECScalar k(kb.data(),32); auto put=[&](const ECPoint&p){ s.u(p.isValid()); s.u(p.isEven()); s.v(ser(p)); s.s(p.sec()); }; put(a); put(a+b); put(a-b); put(-a); put(k*a); ECPoint c=a; c+=b; put(c); c-=a; put(c); s.u(a==b); s.u(a!=b); s.u(a<b); s.u(a>b); s.u((bool)a); ECPoint d; d=a; d.reset(); put(d); break; } case 0: { std::vector<PublicKey> v; size_t q=R.below(22); for(size_t i=0;i<q;i++) v.push_back(R.chance(1,6)?PublicKey():lpub(rkey(),R.chance(3,4))); uint8_t m=R.chance(1,2)?R.below(q+2):R.u32(); Script a=multi(m,v.data(),q),b=sortedmulti(m,v.data(),q); use(s,a); use(s,b); break; } case 1: { Tx t; Script sc=lscript(rscript()); uint8_t h[32]; memset(h,0,32); uint8_t i=R.u32(); s.u(t.sigHash(h,i,sc,(SigHashType)R.below(4))); t.sigHashSegwit(h,i,sc,eu64(),(SigHashType)R.below(4)); t.signInput(i,lpriv(rkey())); t.signSegwitInput(i,lpriv(rkey()),5); use(s,t); Bytes b=agen(A_TX); Tx u; feed(u,b,false); u.sigHash(h,i,sc,(SigHashType)R.below(4)); u.sigHashSegwit(h,i,sc,eu64(),(SigHashType)R.below(4)); s.b(h,32); use(s,u); break; }
    case 2: { Script z; for(int i=0;i<6;i++){ Bytes x=R.bytes(elen(R.chance(1,4)?3000:80)); switch(R.below(5)){ case 0: z.push(x.data(),x.size()); break; case 1: z.push((uint8_t)R.u32()); break; case 2: z.push(R.chance(1,3)?PublicKey():lpub(rkey(),R.chance(1,2))); break; case 3: z.push(R.chance(1,3)?Signature():lsig(e256(),e256()),(SigHashType)R.below(4)); break; default: z.push(lscript(x)); } if(R.chance(1,8)) z.clear(); } use(s,z); for(int t=0;t<9;t++){ Script c(z,(ScriptType)t); use(s,c); Script d(lpub(rkey(),R.chance(1,2)),(ScriptType)t); s.v(sbytes(d)); s.v(sbytes(z.scriptPubkey((ScriptType)t))); } break; }
    case 3: { PrivateKey p; use(s,p); Bytes b=b32(e256()); PrivateKey q(b.data(),R.chance(1,2),NETS[R.below(4)]); use(s,q); PublicKey pub=R.chance(1,2)?PublicKey():q.publicKey(); if(R.chance(1,3)){ Bytes x=R.bytes(64); pub=PublicKey(x.data(),true); } use(s,pub); uint8_t sh_[32]; memset(sh_,0,32); q.ecdh(pub,sh_,R.chance(1,2)); s.b(sh_,32); Bytes h=ebytes(32); s.u(pub.verify(lsig(e256(),e256()),h.data())); ECPoint r=q*pub; s.v(ser(r)); ECScalar z=q/ECScalar(R.below(2)); s.v(ser(z)); r=pub/ECScalar(R.below(2)); s.v(ser(r)); break; }
    case 4: { HDPrivateKey h; use(s,h); HDPublicKey p; use(s,p); Bytes sd=R.bytes(elen(200)); h.fromSeed(sd.data(),sd.size(),NETS[R.below(4)]); h=h.child(eu32(),R.chance(1,2)); h.depth=R.chance(1,2)?255:R.u32(); h.type=(ScriptType)R.below(9); use(s,h); HDPublicKey q=h.xpub(); q.type=(ScriptType)R.below(9); use(s,q); q=q.child(eu32()); use(s,q); break; }
    default: { PSBT p; use(s,p); p.sign(anyroot()); use(s,p); ElectrumTx e; use(s,e); e.sign(anyacc()); use(s,e); Tx t; use(s,t); TxIn i; use(s,i); TxOut o; use(s,o); Witness w; use(s,w); Script c; use(s,c); Signature g; use(s,g); SchnorrSignature sg; use(s,sg); } } ev("arguments"); seen(s.h); }
WORKLOAD(C01,{"streams",h_stream,10},{"texts",h_text,6},{"records",h_add,3},{"arguments",h_args,3})
