// pool of reference key pairs shared by workloads (fixed content, chosen per case)
#pragma once
#include "common.h"
#include "Bitcoin.h"
struct KP{ ref::U256 d; ref::Pt P; Bytes s33,s65; };
inline KP mkkp(const ref::U256&d){ KP k; k.d=d; k.P=ref::pmul(d,ref::G); k.s33=ref::sec(k.P,true); k.s65=ref::sec(k.P,false); return k; }
inline const KP& rkey(){ static std::vector<KP> pool; if(pool.empty()){ Rng save=R; R.seed(0x6b6579ull); for(int i=0;i<160;i++) pool.push_back(mkkp(i<12?ref::U256(i+1):rscalar())); R=save; } return pool[R.below(pool.size())]; }
inline PublicKey lpub(const KP&k,bool comp=true){ Bytes x=ref::xy(k.P); return PublicKey(x.data(),comp); }
inline PrivateKey lpriv(const KP&k,bool comp=true,const Network*net=&Mainnet){ Bytes b=ref::b32(k.d); return PrivateKey(b.data(),comp,net); }
static const Network*const NETS[4]={&Mainnet,&Testnet,&Regtest,&Signet};
inline Bytes sbytes(const Script&s){ return s.scriptLen?Bytes(s.scriptArray,s.scriptArray+s.scriptLen):Bytes(); }
inline Script lscript(const Bytes&b){ return b.empty()?Script():Script(b.data(),b.size()); }
inline Bytes ser(const Streamable&o){ size_t n=o.length(); XBuf b(n); size_t l=o.serialize(b.p,n); Bytes r=b.bytes(); if(l<n) r.resize(l); return r; }
inline Signature lsig(const ref::U256&r,const ref::U256&s){ Bytes a=ref::b32(r),b=ref::b32(s); return Signature(a.data(),b.data()); }
// a random but structurally realistic script
inline Bytes rscript(size_t max=200){ using namespace ref; switch(R.below(9)){ case 0: return p2pkh(R.bytes(20)); case 1: return p2sh(R.bytes(20)); case 2: return p2wpkh(R.bytes(20)); case 3: return p2wsh(R.bytes(32)); case 4: { std::vector<Bytes> v; int n=1+R.below(4); for(int i=0;i<n;i++) v.push_back(rkey().s33); return multisig(1+R.below(n),v); } case 5: return Bytes(); case 6: return R.bytes(elen(max)); default: return R.bytes(R.below(40)); } }
