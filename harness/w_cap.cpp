// C05 stated output capacity is never exceeded
#include "any.h"
#include "Conversion.h"
#include <functional>
using namespace ref;
// want: complete result; text results may need one more byte for the terminator; ret: what the return value says (0 length written, 1 nothing comparable)
struct F{ const char*name; bool text; Bytes want; int ret; std::function<long long(uint8_t*,size_t)> f; };
static void cap(const F&f){ size_t L=f.want.size(); long long rg=0; if(f.ret==1){ XBuf x(2*L+100); rg=f.f(x.p,x.n); } for(int i=0;i<11;i++){ size_t c; switch(i){ case 10: c=2*L+100; break; case 0: c=0; break; case 1: c=L; break; case 2: c=L?L-1:0; break; case 3: c=L+1; break; case 4: c=1; break; case 5: c=L+2+R.below(60); break; case 6: c=L>2?L-2:0; break; default: c=R.below(L+1); }
    XBuf x(c); for(size_t j=0;j<c;j++) x.p[j]=0xa7; long long r=f.f(x.p,c); Bytes g=x.bytes(); bool has=c>=L&&std::equal(f.want.begin(),f.want.end(),g.begin()); if(f.text&&c>L&&g[L]!=0&&f.ret==1) has=false;
    if(f.ret==0){ REQ(r<=(long long)c,"claims-too-much","%s: room for %zu, returned %lld (result has %zu)",f.name,c,r,L); REQ(r<(long long)L||(has&&r==(long long)L),"claims-too-much","%s: room for %zu, returned %lld but the result (%zu) is not there",f.name,c,r,L); if(c>=2*L+100||(r&&c>L)) REQ(has&&r==(long long)L,"missing-result","%s: room for %zu, result of %zu not delivered (returned %lld)",f.name,c,L,r); }
    else if(f.ret==1){ if(c<L&&rg>0) REQ(r!=rg,"claims-too-much","%s: room for %zu, returned %lld as if the result of %zu were there",f.name,c,r,L); if(c>=2*L+100||(r&&c>L)) REQ(has,"missing-result","%s: room for %zu, result of %zu not delivered: %s want %s",f.name,c,L,shex(g).c_str(),shex(f.want).c_str()); }
    ev("calls"); if(c<L) ev("too-small"); } ev(f.name); seen(hash64(f.want.data(),L)^hash64(f.name,strlen(f.name))); }
#define U8 uint8_t*p,size_t n
static void c_conv(uint64_t n){ Bytes b=ebytes(elen(R.chance(1,8)?600:90)); if(b.empty()) b.push_back(1); const uint8_t*d=b.data(); size_t l=b.size(); XBuf in(b); std::string s;
  switch(n%16){ case 0: cap({"toHex",true,B(hex(b)),0,[&](U8){ return toHex(in.p,l,(char*)p,n); }}); break; case 1: { s=hex(b); XStr t(s); cap({"fromHex",false,b,0,[&](U8){ return fromHex(t,s.size(),p,n); }}); cap({"fromHex(string)",false,b,0,[&](U8){ return fromHex(s,p,n); }}); break; } case 2: cap({"toBin",true,B(bin(b)),0,[&](U8){ return toBin(in.p,l,(char*)p,n); }}); break; case 3: { s=bin(b); XStr t(s); cap({"fromBin",false,b,0,[&](U8){ return fromBin(t,s.size(),p,n); }}); cap({"fromBin(string)",false,b,0,[&](U8){ return fromBin(s,p,n); }}); break; }
    case 4: cap({"toBase58",true,B(base58(b)),0,[&](U8){ return toBase58(in.p,l,(char*)p,n); }}); break; case 5: { s=base58(b); XStr t(s); cap({"fromBase58",false,b,0,[&](U8){ return fromBase58(t,s.size(),p,n); }}); cap({"fromBase58(string)",false,b,0,[&](U8){ return fromBase58(s,p,n); }}); break; } case 6: cap({"toBase58Check",true,B(base58check(b)),0,[&](U8){ return toBase58Check(in.p,l,(char*)p,n); }}); break; case 7: { s=base58check(b); XStr t(s); cap({"fromBase58Check",false,b,0,[&](U8){ return fromBase58Check(t,s.size(),p,n); }}); cap({"fromBase58Check(string)",false,b,0,[&](U8){ return fromBase58Check(s,p,n); }}); break; }
    case 8: cap({"toBase43",true,B(base43(b)),0,[&](U8){ return toBase43(in.p,l,(char*)p,n); }}); break; case 9: { s=base43(b); XStr t(s); cap({"fromBase43",false,b,0,[&](U8){ return fromBase43(t,s.size(),p,n); }}); cap({"fromBase43(string)",false,b,0,[&](U8){ return fromBase43(s,p,n); }}); break; }
    case 10: { uint8_t fl=R.below(4); s=base64(b,fl&2,!(fl&1)); cap({"toBase64",true,B(s),0,[&](U8){ return toBase64(in.p,l,(char*)p,n,fl); }}); break; } case 11: { uint8_t fl=R.below(4); s=base64(b,fl&2,!(fl&1)); XStr t(s); cap({"fromBase64",false,b,0,[&](U8){ return fromBase64(t,s.size(),p,n,fl); }}); cap({"fromBase64(string)",false,b,0,[&](U8){ return fromBase64(s,p,n,fl); }}); break; }
    case 12: { uint64_t v=eu64(); if(R.chance(1,3)) v=252+R.below(5); cap({"writeVarInt",false,varint(v),0,[&](U8){ return writeVarInt(v,p,n); }}); break; }
    case 13: { uint64_t v=eu64(); size_t k=R.below(20); XBuf x(k); intToLittleEndian(v,x.p,k); Bytes w; for(size_t i=0;i<k;i++) w.push_back(i<8?v>>(8*i):0); REQ(x.bytes()==w,"wrong-result","intToLittleEndian into %zu bytes",k); XBuf y(k); intToBigEndian(v,y.p,k); REQ(y.bytes()==Bytes(w.rbegin(),w.rend()),"wrong-result","intToBigEndian into %zu bytes",k); ev("intTo"); break; }
    case 14: { s="wpkh("+hex(rkey().s33)+")"; std::string w=descsum(s); XStr t(s); cap({"descriptorChecksum",true,B(w),0,[&](U8){ return descriptorChecksum(t,s.size(),(char*)p,n); }}); break; }
    default: { Bytes e=ebytes(16+4*R.below(5)); std::string m=mnemonic(e); XStr t(m); cap({"mnemonicToEntropy",false,e,0,[&](U8){ return mnemonicToEntropy(t,m.size(),p,n); }}); cap({"mnemonicToEntropy(string)",false,e,0,[&](U8){ return mnemonicToEntropy(m,p,n); }}); } } }
static Bytes addr58(uint8_t v,const Bytes&h){ Bytes x={v}; app(x,h); return B(base58check(x)); }
static void c_keys(uint64_t n){ const KP&k=rkey(); bool comp=R.chance(2,3); const Network*net=NETS[R.below(4)]; PublicKey pub=lpub(k,comp); Bytes s=comp?k.s33:k.s65,h=hash160(s); PrivateKey pk=lpriv(k,comp,net); Bytes x(k.s33.begin()+1,k.s33.end());
  switch(n%9){ case 0: cap({"sec",false,s,0,[&](U8){ return pub.sec(p,n); }}); cap({"x",false,x,0,[&](U8){ return pub.x(p,n); }}); break; case 1: cap({"legacyAddress",true,addr58(net->p2pkh,h),1,[&](U8){ return pub.legacyAddress((char*)p,n,net); }}); cap({"PrivateKey::legacyAddress",true,addr58(net->p2pkh,h),1,[&](U8){ return pk.legacyAddress((char*)p,n); }}); cap({"address",true,addr58(net->p2pkh,h),1,[&](U8){ return R.chance(1,2)?pub.address((char*)p,n,net):pk.address((char*)p,n); }}); break;
    case 2: { PublicKey c=lpub(k); PrivateKey q=lpriv(k,true,net); Bytes hc=hash160(k.s33); Bytes w=B(segwit(net->bech32,0,hc)); cap({"segwitAddress",true,w,1,[&](U8){ return c.segwitAddress((char*)p,n,net); }}); cap({"PrivateKey::segwitAddress",true,w,1,[&](U8){ return q.segwitAddress((char*)p,n); }}); break; } case 3: { PublicKey c=lpub(k); PrivateKey q=lpriv(k,true,net); Bytes w=addr58(net->p2sh,hash160(p2wpkh(hash160(k.s33)))); cap({"nestedSegwitAddress",true,w,1,[&](U8){ return c.nestedSegwitAddress((char*)p,n,net); }}); cap({"PrivateKey::nestedSegwitAddress",true,w,1,[&](U8){ return q.nestedSegwitAddress((char*)p,n); }}); break; }
    case 4: { Bytes w={net->wif}; app(w,b32(k.d)); if(comp) w.push_back(1); cap({"wif",true,B(base58check(w)),1,[&](U8){ return R.chance(1,2)?pk.wif((char*)p,n):(long long)pk.toString((char*)p,n); }}); break; }
    case 5: { Root&r=root(R.below(3)); const HD&d=r.at(rpath_()); int kd=R.below(3); const Network*nt=NETS[R.below(2)]; Bytes pv(prvver(nt,kd),prvver(nt,kd)+4),bv(pubver(nt,kd),pubver(nt,kd)+4); HDPrivateKey hp(XStr(base58check(hd_ser(d,pv,false)))); HDPublicKey hq(XStr(base58check(hd_ser(d,bv,true)))); cap({"xprv",true,B(base58check(hd_ser(d,pv,false))),1,[&](U8){ return R.chance(1,2)?hp.xprv((char*)p,n):(long long)hp.toString((char*)p,n); }}); cap({"HDPrivateKey::xpub",true,B(base58check(hd_ser(d,bv,true))),1,[&](U8){ return hp.xpub((char*)p,n); }}); cap({"xpub",true,B(base58check(hd_ser(d,bv,true))),1,[&](U8){ return R.chance(1,2)?hq.xpub((char*)p,n):(long long)hq.toString((char*)p,n); }}); Bytes a=B(hp.address()); cap({"HDPrivateKey::address",true,a,1,[&](U8){ return hp.address((char*)p,n); }}); cap({"HDPublicKey::address",true,a,1,[&](U8){ return hq.address((char*)p,n); }}); break; }
    case 6: { U256 r=escalar(),z=escalar(); Signature g=lsig(r,z); cap({"der",false,der(r,z),0,[&](U8){ return g.der(p,n); }}); Bytes w=b32(r); app(w,b32(z)); cap({"bin",false,w,1,[&](U8){ g.bin(p,n); return 0; }}); break; }
    case 7: { Bytes spk,a; Bytes h20=R.bytes(20),h32=R.bytes(32); switch(R.below(4)){ case 0: spk=p2pkh(h20); a=addr58(net->p2pkh,h20); break; case 1: spk=p2sh(h20); a=addr58(net->p2sh,h20); break; case 2: spk=p2wpkh(h20); a=B(segwit(net->bech32,0,h20)); break; default: spk=p2wsh(h32); a=B(segwit(net->bech32,0,h32)); } Script sc=lscript(spk); TxOut o(5,sc); cap({"Script::address",true,a,1,[&](U8){ return sc.address((char*)p,n,net); }}); cap({"TxOut::address",true,a,1,[&](U8){ return o.address((char*)p,n,net); }}); break; }
    default: { Script sc=lscript(rscript()); XBuf z(R.below(100)); sc.address(z.c(),z.n,net); PublicKey bad; bad.legacyAddress(z.c(),z.n,net); bad.segwitAddress(z.c(),z.n,net); bad.nestedSegwitAddress(z.c(),z.n,net); ev("odd-objects"); } } }
static void c_ser(uint64_t n){ int k=akind(n); OP o(anew(k)); Bytes b=agen(k); feedp(o->s(),b.data(),b.size(),false); Streamable&s=o->s(); Bytes full=ser(s); std::string hx=hex(full); static char nm[A_NUM][3][48]; snprintf(nm[k][0],48,"%s.raw",ANAME[k]); snprintf(nm[k][1],48,"%s.hex",ANAME[k]); snprintf(nm[k][2],48,"%s.string",ANAME[k]); cap({nm[k][0],false,full,0,[&](U8){ return s.serialize(p,n); }}); for(int i=0;i<6;i++){ size_t c=i<3?2*full.size()-1+i:R.below(2*full.size()+3); XBuf x(c); size_t r=R.chance(1,2)?s.serialize(x.c(),x.n):s.serialize(x.p,x.n,0,HEX_ENCODING); REQ(r<=c/2&&r==std::min(full.size(),c/2),"claims-too-much","%s hex: room for %zu characters, returned %zu of %zu",ANAME[k],c,r,full.size()); REQ(std::string((char*)x.p,2*r)==hx.substr(0,2*r),"missing-result","%s hex in %zu characters",ANAME[k],c); ev("calls"); } ev(nm[k][1]);
  bool own=k==A_PRIV||k==A_XPRV||k==A_XPUB; for(int i=0;i<8;i++){ size_t c=R.below(std::min<size_t>(own?130:2*full.size()+10,4000)); if(i==0) c=0; XBuf x(c); size_t r=s.toString(x.c(),x.n); REQ(r<=c,"claims-too-much","%s toString: room for %zu, returned %zu",ANAME[k],c,r); if(!own) REQ(std::string((char*)x.p,2*r)==hx.substr(0,2*r)||2*r>c,"missing-result","%s toString in %zu",ANAME[k],c); ev("calls"); } ev(nm[k][2]); }
WORKLOAD(C05,{"conversions",c_conv,4},{"keys",c_keys,4},{"serialize",c_ser,3})
