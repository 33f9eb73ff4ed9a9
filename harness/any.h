// Uniform handling of every serializable class of the library: generation of valid input, state dump, copies, use of the object.
#pragma once
#include "electrum.h"
struct Dump{ Bytes b; Dump&raw(const void*p,size_t n){ ref::le(b,n,8); if(n>65536){ ref::le(b,hash64(p,n),8); return *this; } const uint8_t*q=(const uint8_t*)p; b.insert(b.end(),q,q+n); return *this; } Dump&u(uint64_t v){ ref::le(b,v,8); return *this; } Dump&v(const Bytes&x){ return raw(x.data(),x.size()); } Dump&s(const std::string&x){ return raw(x.data(),x.size()); } };
// ---- dumps: everything a user can see of the object
inline void dump(Dump&d,const ECPoint&o){ d.raw(o.point,64).u(o.compressed).v(ser(o)); }
inline void dump(Dump&d,const PublicKey&o){ dump(d,(const ECPoint&)o); }
inline void dump(Dump&d,const ECScalar&o){ uint8_t k[32]; o.getSecret(k); d.raw(k,32).v(ser(o)); }
inline void dump(Dump&d,const PrivateKey&o){ dump(d,(const ECScalar&)o); dump(d,o.publicKey()); d.u(o.network==&Mainnet?0:o.network==&Testnet?1:o.network==&Regtest?2:3); d.s(o.wif()); }
inline void dump(Dump&d,const HDPrivateKey&o){ uint8_t k[32]; o.getSecret(k); d.raw(k,32).raw(o.chainCode,32).u(o.depth).raw(o.parentFingerprint,4).u(o.childNumber).u(o.type).v(ser(o)); dump(d,o.publicKey()); }
inline void dump(Dump&d,const HDPublicKey&o){ d.raw(o.point,64).raw(o.chainCode,32).u(o.depth).raw(o.parentFingerprint,4).u(o.childNumber).u(o.type).v(ser(o)); }
inline void dump(Dump&d,const Signature&o){ d.v(ser(o)).u(o.length()); uint8_t b[64]; o.bin(b,64); d.raw(b,64); }
inline void dump(Dump&d,const SchnorrSignature&o){ d.v(ser(o)); }
inline void dump(Dump&d,const Script&o){ d.v(sbytes(o)).u(o.length()); }
inline void dump(Dump&d,const Witness&o){ d.v(ser(o)).u(o.count()).u(o.length()); }
inline void dump(Dump&d,const TxIn&o){ d.raw(o.hash,32).u(o.outputIndex).u(o.sequence); dump(d,o.scriptSig); dump(d,o.witness); d.u(o.length()); }
inline void dump(Dump&d,const TxOut&o){ d.u(o.amount); dump(d,o.scriptPubkey); }
inline void dump(Dump&d,const Tx&o){ d.u(o.version).u(o.locktime).u(o.inputsNumber).u(o.outputsNumber); for(size_t i=0;i<o.inputsNumber;i++) dump(d,o.txIns[i]); for(size_t i=0;i<o.outputsNumber;i++) dump(d,o.txOuts[i]); d.u(o.length()).v(ser(o)); }
inline void dump(Dump&d,const PSBTDerivation*x,size_t n){ d.u(n); for(size_t i=0;i<n;i++){ dump(d,x[i].pubkey); d.raw(x[i].fingerprint,4).u(x[i].derivationLen); for(size_t j=0;j<x[i].derivationLen;j++) d.u(x[i].derivation[j]); } }
inline void dump(Dump&d,const PSBT&o){ dump(d,o.tx); d.u(!!o.txInsMeta).u(!!o.txOutsMeta); if(o.txInsMeta) for(size_t i=0;i<o.tx.inputsNumber;i++){ auto&m=o.txInsMeta[i]; dump(d,m.txOut); dump(d,m.derivations,m.derivationsLen); dump(d,m.redeemScript); dump(d,m.witnessScript); d.u(m.signaturesLen); for(size_t j=0;j<m.signaturesLen;j++){ dump(d,m.signatures[j].pubkey); dump(d,m.signatures[j].signature); } } if(o.txOutsMeta) for(size_t i=0;i<o.tx.outputsNumber;i++){ auto&m=o.txOutsMeta[i]; dump(d,m.derivations,m.derivationsLen); dump(d,m.redeemScript); dump(d,m.witnessScript); } d.u(o.length()).v(ser(o)).u(o.fee()); }
inline void dump(Dump&d,const ElectrumTx&o){ dump(d,o.tx); d.u(!!o.txInsMeta); if(o.txInsMeta) for(size_t i=0;i<o.tx.inputsNumber;i++){ auto&m=o.txInsMeta[i]; dump(d,m.hd); d.u(m.amount); } d.u(o.length()).v(ser(o)).u(o.fee()); }
// ---- valid serialized forms
inline Bytes genpub(){ const KP&k=rkey(); return R.chance(1,3)?k.s65:k.s33; }
// ---- use: public operations on an object in any state; results go to the sink so that the sanitizers see them used
struct Sink{ uint64_t h=1; void b(const void*p,size_t n){ h=hash64(p,n,h); if(h==0x123456789abcdefull) ev("sink"); } void v(const Bytes&x){ b(x.data(),x.size()); } void s(const std::string&x){ b(x.data(),x.size()); } void u(uint64_t x){ b(&x,8); } };
inline const HDPrivateKey&anyroot(){ static HDPrivateKey k=lroot(root(0)); return k; }
inline const HDPublicKey&anypub(){ static HDPublicKey k=lrootpub(root(0)); return k; }
inline void texts(Sink&k,Streamable&o){ k.u(o.length()); k.u(o.stringLength()); k.s(o.toString()); size_t n=o.length(); if(n<100000){ XBuf w(R.below(40)); k.u(o.serialize(w.p,w.n,R.below(n+2))); k.s(o.serialize((size_t)R.below(n+1),(size_t)R.below(9))); XBuf c(R.below(130)); o.toString(c.c(),c.n); } k.u(o.getStatus()); }
inline void use_(Sink&k,ECPoint&o){ texts(k,o); k.u(o.isValid()); k.u(o.isEven()); k.s(o.sec()); k.s(o.x()); if(R.chance(1,4)){ ECPoint p=lpub(rkey()); ECPoint q=o+p; k.v(ser(q)); q=o-p; k.v(ser(q)); q=-o; k.v(ser(q)); k.u(o<p); q=o; q+=o; k.v(ser(q)); q-=q; k.v(ser(q)); } }
inline void use(Sink&k,ECPoint&o){ use_(k,o); }
inline void use(Sink&k,PublicKey&o){ use_(k,o); const Network*n=NETS[R.below(4)]; k.s(o.legacyAddress(n)); k.s(o.segwitAddress(n)); k.s(o.nestedSegwitAddress(n)); k.s(o.address()); for(int t=0;t<=MULTISIG;t++) k.v(sbytes(o.script((ScriptType)t))); if(R.chance(1,4)){ Bytes h=R.bytes(32); k.u(o.verify(lsig(escalar(),escalar()),h.data())); k.u(o.schnorr_verify(SchnorrSignature(R.bytes(64).data()),h.data())); } }
inline void use(Sink&k,ECScalar&o){ texts(k,o); k.u(o.isValid()); ECScalar p((uint32_t)R.below(5)); ECScalar q=o+p; k.v(ser(q)); q=o-p; k.v(ser(q)); q=o*p; k.v(ser(q)); q=-o; k.v(ser(q)); k.u(o<p); if(R.chance(1,8)){ q=o/p; k.v(ser(q)); q=p/o; k.v(ser(q)); } }
inline void usepriv(Sink&k,PrivateKey&o){ texts(k,o); k.u(o.isValid()); k.s(o.wif()); k.s(o.address()); k.s(o.segwitAddress()); if(R.chance(1,6)){ Bytes h=R.bytes(32); k.v(ser(o.sign(h.data()))); k.v(ser(o.schnorr_sign(h.data()))); uint8_t s[32]; memset(s,0,32); o.ecdh(lpub(rkey()),s,R.chance(1,2)); k.b(s,32); } }
inline void use(Sink&k,PrivateKey&o){ usepriv(k,o); }
inline void use(Sink&k,HDPrivateKey&o){ usepriv(k,o); k.s(o.xprv()); k.s(o.fingerprint()); if(R.chance(1,4)){ HDPrivateKey c=o.child(eu32()); k.v(ser(c)); k.v(ser(o.xpub())); c=o.derive(XStr(mutate_text("m/44h/1h/0'/3/","mM/'hH0123456789x "))); k.v(ser(c)); c=o.hardenedChild(R.below(9)); k.v(ser(c)); } }
inline void use(Sink&k,HDPublicKey&o){ texts(k,o); k.u(o.isValid()); k.s(o.xpub()); k.s(o.address()); k.s(o.fingerprint()); if(R.chance(1,4)){ HDPublicKey c=o.child(eu32()); k.v(ser(c)); c=o.derive(XStr(mutate_text("m/1/3/","mM/'hH0123456789x "))); k.v(ser(c)); } }
inline void use(Sink&k,Signature&o){ texts(k,o); k.u(o.isValid()); uint8_t b[65]; o.bin(b,65); k.b(b,64); XBuf w(R.below(80)); k.u(o.der(w.p,w.n)); if(R.chance(1,8)){ Bytes h=R.bytes(32); k.u(lpub(rkey()).verify(o,h.data())); } Script s; s.push(o); k.v(sbytes(s)); Witness v(o,lpub(rkey())); k.v(ser(v)); }
inline void use(Sink&k,SchnorrSignature&o){ texts(k,o); k.u(o.isValid()); if(R.chance(1,8)){ Bytes h=R.bytes(32); k.u(lpub(rkey()).schnorr_verify(o,h.data())); } }
inline void use(Sink&k,Script&o){ texts(k,o); k.u(o.type()); k.u((bool)o); const Network*n=NETS[R.below(4)]; k.s(o.address(n)); k.u(o==o); XBuf a(R.below(100)); o.address(a.c(),a.n,n); k.v(sbytes(o.scriptPubkey(P2SH))); k.v(sbytes(o.scriptPubkey(P2WSH))); k.v(sbytes(sh(o))); k.v(sbytes(wsh(o))); Script c(o); c.push((uint8_t)R.u32()); Bytes x=R.bytes(elen(600)); c.push(x.data(),x.size()); c.push(o); c.push(lpub(rkey(),R.chance(1,2))); k.v(sbytes(c)); k.v(ser(c)); k.u(o!=c); }
inline void use(Sink&k,Witness&o){ texts(k,o); k.u(o.count()); k.u((bool)o); Witness c(o); Bytes x=R.bytes(elen(600)); c.push(x.data(),x.size()); c.push(lscript(rscript())); c.push(lpub(rkey())); c.push(lsig(escalar(),escalar()),SIGHASH_SINGLE); k.v(ser(c)); k.u(c.count()); k.u(o==c); }
inline void use(Sink&k,TxIn&o){ texts(k,o); k.u(o.isValid()); k.u(o.isSegwit()); k.u(o.outputIndex); k.u(o.sequence); k.b(o.hash,32); use(k,o.scriptSig); use(k,o.witness); }
inline void use(Sink&k,TxOut&o){ texts(k,o); k.u(o.isValid()); k.u(o.amount); k.u((uint64_t)(o.btcAmount()>1)); k.s(o.address()); use(k,o.scriptPubkey); }
inline void use(Sink&k,Tx&o){ texts(k,o); k.u(o.isValid()); k.u(o.isSegwit()); k.s(o.txid()); k.s(o.wtxid()); uint8_t h[32]; memset(h,0,32); o.hashPrevouts(h); k.b(h,32); o.hashSequence(h); k.b(h,32); o.hashOutputs(h); k.b(h,32); Script s=lscript(rscript()); uint8_t i=R.chance(3,4)?R.below(o.inputsNumber+1):R.u32(); SigHashType t=(SigHashType)(1+R.below(3)); o.sigHash(h,i,s,t); k.b(h,32); o.sigHashSegwit(h,i,s,eu64(),t); k.b(h,32); Tx c(o); if(R.chance(1,3)){ PrivateKey p=lpriv(rkey()); c.signInput(i,p); c.signSegwitInput(R.u32()%4,p,eu64(),P2SH_P2WPKH); } if(R.chance(1,2)) c.addInput(lin(rtx(true,0).in[0])); if(R.chance(1,2)) c.addOutput(TxOut(eamount(),lscript(rscript()))); k.v(ser(c)); k.s(c.txid()); for(size_t q=0;q<o.inputsNumber&&q<3;q++) k.u(o.txIns[q].witness.count()); if(o.outputsNumber) k.s(o.txOuts[0].address()); }
inline void use(Sink&k,PSBT&o){ texts(k,o); k.u(o.isValid()); k.u(o.fee()); k.s(o.toBase64()); use(k,o.tx); k.u(o.isMine(R.below(3),anyroot())); k.u(o.isMine(R.u32(),anypub())); PSBT c(o); k.u(c.sign(anyroot())); k.v(ser(c)); k.s(c.toBase64()); if(R.chance(1,4)){ Bytes kk=R.bytes(R.below(40)),vv=R.bytes(elen(300)); if(kk.size()&&R.chance(2,3)) kk[0]=R.below(8); Script a=rawscript(kk),b=rawscript(vv); c.add(R.chance(3,4)?R.below(6):(size_t)R.u64(),&a,&b); k.v(ser(c)); k.u(c.sign(anyroot())); } }
inline const HDPrivateKey&anyacc(){ static HDPrivateKey k=[]{ const HD&h=root(0).at({0x80000000}); Bytes s=ref::b32(h.k); return HDPrivateKey(s.data(),h.cc.data()); }(); return k; }
inline void use(Sink&k,ElectrumTx&o){ texts(k,o); k.u(o.isValid()); k.u(o.fee()); use(k,o.tx); ElectrumTx c(o); k.u(c.sign(anyacc())); k.v(ser(c)); k.u(c.fee()); }
inline Bytes genxprv(){ static const int o[]={0,1,2}; Root&r=root(R.below(3)); const HD&h=r.at(rpath_()); const Network*n=NETS[R.below(2)]; const uint8_t*v=prvver(n,o[R.below(3)]); return ref::hd_ser(h,Bytes(v,v+4),false); }
inline Bytes genxpub(){ Root&r=root(R.below(3)); const HD&h=r.at(rpath_()); const Network*n=NETS[R.below(2)]; const uint8_t*v=pubver(n,R.below(3)); return ref::hd_ser(h,Bytes(v,v+4),true); }
inline Bytes gentxin(){ TIn x=rtx(false,R.chance(1,8)?1:0).in[0]; Bytes b=x.prev; le(b,x.n,4); app(b,ref::varstr(x.ss)); le(b,x.seq,4); return b; }
inline Bytes gentxout(){ Bytes b; le(b,eu64(),8); app(b,ref::varstr(R.chance(1,3)?R.bytes(elen(700)):rscript())); return b; }
inline Bytes genwit(){ std::vector<Bytes> v; size_t n=R.chance(1,12)?250+R.below(8):R.below(5); for(size_t i=0;i<n;i++) v.push_back(n>10?R.bytes(R.below(3)):R.chance(1,4)?R.bytes(elen(700)):R.bytes(R.below(75))); return witser(v); }
inline int rsz(){ return R.chance(1,30)?2:R.chance(1,4)?1:0; }
enum AK{ A_POINT,A_PUB,A_SCALAR,A_PRIV,A_XPRV,A_XPUB,A_SIG,A_SCHNORR,A_SCRIPT,A_WIT,A_TXIN,A_TXOUT,A_TX,A_PSBT,A_ELEC,A_NUM };
static const char*const ANAME[A_NUM]={"ECPoint","PublicKey","ECScalar","PrivateKey","HDPrivateKey","HDPublicKey","Signature","SchnorrSignature","Script","Witness","TxIn","TxOut","Tx","PSBT","ElectrumTx"};
// lengths around and above 65536
inline Bytes agiant(int k){ Bytes g=R.bytes(R.chance(1,2)?65533+R.below(6):60000+R.below(20000)); if(k==A_SCRIPT) return ref::varstr(g); if(k==A_TXOUT){ Bytes b; le(b,eamount(),8); app(b,ref::varstr(g)); return b; } TX t=rtx(false,0); if(R.chance(1,3)) t.in[0].ss=g; else if(R.chance(1,3)){ if(t.out.empty()) t.out.push_back({1,g}); else t.out[0].spk=g; } else { t.in.back().wit={R.bytes(3),g,R.bytes(2)}; } if(k==A_WIT){ Bytes b={2}; app(b,ref::varstr(R.bytes(R.below(4)))); app(b,ref::varstr(g)); return b; } return ref::tx_ser(t); }
inline Bytes agen(int k){ if((k==A_SCRIPT||k==A_TXOUT||k==A_WIT||k==A_TX)&&R.chance(1,250)){ ev("giants"); return agiant(k); } switch(k){ case A_POINT: case A_PUB: return genpub(); case A_SCALAR: case A_PRIV: return ref::b32(R.chance(1,2)?rkey().d:escalar()); case A_XPRV: return genxprv(); case A_XPUB: return genxpub(); case A_SIG: return ref::der(escalar(),escalar()); case A_SCHNORR: { Bytes b=ref::xy(rkey().P); b.resize(32); app(b,ref::b32(escalar())); return b; } case A_SCRIPT: return ref::varstr(R.chance(1,3)?R.bytes(elen(R.chance(1,10)?9000:700)):rscript()); case A_WIT: return genwit(); case A_TXIN: return gentxin(); case A_TXOUT: return gentxout(); case A_TX: return ref::tx_ser(rtx(true,rsz())); case A_PSBT: { for(;;){ bool many=R.chance(1,120); PS g=many?rpsbt(25,25):rpsbt(3,3); if(R.chance(1,60)){ auto fat=[&](std::vector<PDer>&v){ std::set<Bytes> z; for(auto&d:v) z.insert(d.sec); for(size_t c=4+R.below(20);c;c--){ const KP&k=rkey(); PDer d{R.chance(1,2)?k.s33:k.s65,R.bytes(4),Path()}; for(size_t l=R.below(40);l;l--) d.path.push_back(R.u32()); if(z.insert(d.sec).second) v.push_back(d); } }; PIn&i=g.in[R.below(g.in.size())]; if(R.chance(2,3)) fat(i.ders); if(R.chance(2,3)) fat(g.out[R.below(g.out.size())].ders); if(R.chance(1,2)){ std::set<Bytes> z; for(auto&d:i.sigs) z.insert(d.first); for(size_t c=4+R.below(12);c;c--){ const KP&k=rkey(); Bytes y=ref::der(escalar(),escalar()); y.push_back(1); if(z.insert(k.s33).second) i.sigs.push_back({k.s33,y}); } } ev("psbt.fat"); } if(many) ev("psbt.many-sections"); Bytes b=pser(g); PS q; size_t u; if(pparse(b,q,u)==1) return b; } } default: { EM e=relec(R.chance(1,100)?30:3); return eser(e); } } }
// ---- mut: change something a user can change
inline void mut(ECPoint&o){ Bytes x=genpub(); switch(R.below(3)){ case 0: o=ECPoint(lpub(rkey(),R.chance(1,2))); break; case 1: o.compressed=!o.compressed; break; default: memset(o.point,R.u32(),64); } }
inline void mut(PublicKey&o){ if(R.chance(1,2)) o=lpub(rkey(),R.chance(1,2)); else mut((ECPoint&)o); }
inline void mut(ECScalar&o){ Bytes b=ref::b32(escalar()); o.setSecret(b.data()); }
inline void mut(PrivateKey&o){ if(R.chance(1,2)) o=lpriv(rkey(),R.chance(1,2),NETS[R.below(4)]); else { Bytes b=ref::b32(escalar()); o.setSecret(b.data()); } }
inline void mut(HDPrivateKey&o){ switch(R.below(3)){ case 0: o.chainCode[R.below(32)]^=1; break; case 1: o.depth++; o.childNumber^=77; o.parentFingerprint[1]^=1; break; default: { const HDPrivateKey&r=anyroot(); o=r.child(R.below(20)); } } }
inline void mut(HDPublicKey&o){ switch(R.below(3)){ case 0: o.chainCode[R.below(32)]^=1; break; case 1: o.depth++; o.childNumber^=77; o.parentFingerprint[1]^=1; break; default: o=anypub().child(R.below(20)); } }
inline void mut(Signature&o){ o=lsig(escalar(),escalar()); }
inline void mut(SchnorrSignature&o){ o=SchnorrSignature(R.bytes(64).data()); }
inline void mut(Script&o){ switch(R.below(6)){ case 0: if(o.scriptLen&&o.scriptArray){ o.scriptArray[R.below(o.scriptLen)]^=1; break; } case 1: { Bytes x=R.bytes(1+R.below(80)); o.push(x.data(),x.size()); break; } case 2: o.clear(); break; case 3: o.push((uint8_t)R.u32()); break; case 4: o.push(lpub(rkey())); break; default: o=lscript(rscript()); } }
inline void mut(Witness&o){ switch(R.below(4)){ case 0: { Bytes x=R.bytes(R.below(80)); o.push(x.data(),x.size()); break; } case 1: o.clear(); break; case 2: o.push(lscript(rscript())); break; default: { Witness w=lwit({R.bytes(3),R.bytes(70)}); o=w; } } }
inline void mut(TxIn&o){ switch(R.below(5)){ case 0: o.hash[R.below(32)]^=1; break; case 1: o.outputIndex++; break; case 2: o.sequence--; break; case 3: mut(o.scriptSig); break; default: mut(o.witness); } }
inline void mut(TxOut&o){ if(R.chance(1,2)) o.amount++; else mut(o.scriptPubkey); }
inline void mut(Tx&o){ switch(R.below(7)){ case 0: o.version++; break; case 1: o.locktime++; break; case 2: if(o.inputsNumber<200) o.addInput(lin(rtx(true,0).in[0])); break; case 3: if(o.outputsNumber<200) o.addOutput(TxOut(eamount(),lscript(rscript()))); break; case 4: if(o.inputsNumber&&o.txIns){ mut(o.txIns[R.below(o.inputsNumber)]); break; } case 5: if(o.outputsNumber&&o.txOuts){ mut(o.txOuts[R.below(o.outputsNumber)]); break; } default: if(o.inputsNumber&&o.txIns){ PrivateKey p=lpriv(rkey()); if(R.chance(1,2)) o.signInput(R.below(o.inputsNumber),p); else o.signSegwitInput(R.below(o.inputsNumber),p,eamount()); } } }
inline void mutders(PSBTDerivation*d,size_t n){ if(!d||!n) return; PSBTDerivation&x=d[R.below(n)]; switch(R.below(3)){ case 0: x.fingerprint[0]^=1; break; case 1: if(x.derivationLen&&x.derivation) x.derivation[R.below(x.derivationLen)]^=5; break; default: mut(x.pubkey); } }
inline void mut(PSBT&o){ switch(R.below(6)){ case 0: o.sign(anyroot()); return; case 1: if(o.txOutsMeta&&o.tx.outputsNumber){ auto&m=o.txOutsMeta[R.below(o.tx.outputsNumber)]; switch(R.below(3)){ case 0: mut(m.redeemScript); break; case 1: mut(m.witnessScript); break; default: mutders(m.derivations,m.derivationsLen); } return; } break; case 2: case 3: if(o.txInsMeta&&o.tx.inputsNumber){ auto&m=o.txInsMeta[R.below(o.tx.inputsNumber)]; switch(R.below(5)){ case 0: mut(m.redeemScript); break; case 1: mut(m.witnessScript); break; case 2: mut(m.txOut); break; case 3: if(m.signatures&&m.signaturesLen){ mut(m.signatures[R.below(m.signaturesLen)].signature); break; } default: mutders(m.derivations,m.derivationsLen); } return; } break; default: break; } switch(R.below(3)){ case 0: o.tx.version++; break; case 1: if(o.tx.outputsNumber&&o.tx.txOuts){ mut(o.tx.txOuts[R.below(o.tx.outputsNumber)]); break; } default: if(o.tx.inputsNumber&&o.tx.txIns) mut(o.tx.txIns[R.below(o.tx.inputsNumber)]); else o.tx.locktime++; } }
inline void mut(ElectrumTx&o){ switch(R.below(4)){ case 0: o.sign(anyacc()); break; case 1: if(o.txInsMeta&&o.tx.inputsNumber){ auto&m=o.txInsMeta[R.below(o.tx.inputsNumber)]; if(R.chance(1,2)) m.amount++; else mut(m.hd); break; } default: if(o.tx.outputsNumber&&o.tx.txOuts) mut(o.tx.txOuts[R.below(o.tx.outputsNumber)]); else o.tx.locktime++; } }
struct Obj{ virtual void mut()=0; virtual ~Obj(){} virtual Streamable&s()=0; virtual Obj*clone()const=0; virtual void assign(const Obj&)=0; virtual Bytes state()const=0; virtual void use(Sink&k)=0; virtual Obj*fresh()const=0; };
template<class T> struct ObjT:Obj{ T o; ObjT(){} ObjT(const T&x):o(x){} Streamable&s()override{ return o; } Obj*clone()const override{ return new ObjT<T>(o); } void assign(const Obj&x)override{ o=static_cast<const ObjT<T>&>(x).o; } Bytes state()const override{ Dump d; dump(d,o); return d.b; } void use(Sink&k)override{ if(o.length()>1000000){ k.u(o.length()); ev("huge"); return; } ::use(k,o); } Obj*fresh()const override{ return new ObjT<T>; } void mut()override{ bool mid=o.getStatus()==PARSING_INCOMPLETE; ::mut(o); if(mid) s().reset(); /* changing an object by hand gives up the parsing in progress */ } };
inline Obj*anew(int k){ switch(k){ case A_POINT: return new ObjT<ECPoint>; case A_PUB: return new ObjT<PublicKey>; case A_SCALAR: return new ObjT<ECScalar>; case A_PRIV: return new ObjT<PrivateKey>; case A_XPRV: return new ObjT<HDPrivateKey>; case A_XPUB: return new ObjT<HDPublicKey>; case A_SIG: return new ObjT<Signature>; case A_SCHNORR: return new ObjT<SchnorrSignature>; case A_SCRIPT: return new ObjT<Script>; case A_WIT: return new ObjT<Witness>; case A_TXIN: return new ObjT<TxIn>; case A_TXOUT: return new ObjT<TxOut>; case A_TX: return new ObjT<Tx>; case A_PSBT: return new ObjT<PSBT>; default: return new ObjT<ElectrumTx>; } }
struct OP{ Obj*p; OP(Obj*x):p(x){} ~OP(){ delete p; } OP(const OP&)=delete; void set(Obj*x){ delete p; p=x; } Obj*operator->(){ return p; } Obj&operator*(){ return *p; } };
// big classes get more of the cases
inline int akind(uint64_t n){ static const int w[]={A_POINT,A_PUB,A_SCALAR,A_PRIV,A_XPRV,A_XPUB,A_SIG,A_SIG,A_SCHNORR,A_SCRIPT,A_SCRIPT,A_WIT,A_WIT,A_WIT,A_TXIN,A_TXIN,A_TXOUT,A_TXOUT,A_TX,A_TX,A_TX,A_TX,A_TX,A_PSBT,A_PSBT,A_PSBT,A_PSBT,A_PSBT,A_ELEC,A_ELEC,A_ELEC}; return w[n%(sizeof w/sizeof*w)]; }
inline size_t feedp(Streamable&o,const uint8_t*p,size_t l,bool hx){ Bytes b(p,p+l); if(hx){ std::string h=ref::hex(b); if(R.chance(1,4)) for(auto&c:h) c=toupper(c); XBuf x(ref::B(h)); return o.parse(x.p,x.n,HEX_ENCODING); } XBuf x(b); return o.parse(x.p,x.n,RAW); }
