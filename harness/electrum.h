// Electrum unsigned-transaction model and generator
#pragma once
#include "psbt.h"
#include "Electrum.h"
struct EIn{ Root*r; Path acc; HD hd; Bytes xpub; int kind; uint16_t d[2]; uint64_t amt; }; // kind 0 legacy, 1 native, 2 nested
struct EM{ TX tx; std::vector<EIn> in; bool seg; const Network*net; };
inline const uint8_t*pubver(const Network*n,int kind){ return (const uint8_t*)(kind==0?n->xpub:kind==1?n->zpub:n->ypub); }
inline const uint8_t*prvver(const Network*n,int kind){ return (const uint8_t*)(kind==0?n->xprv:kind==1?n->zprv:n->yprv); }
inline Path eacc(){ static const Path a[]={{0x80000000},{0x80000054,0x80000000,0x80000000},{0x80000031,0x80000000,0x80000001},{},{0x8000002c,0x80000000,0x80000002}}; return a[R.below(5)]; }
inline EM relec(int maxin=4){ EM e; e.net=NETS[R.chance(1,2)?0:R.below(2)]; e.seg=R.chance(2,3); e.tx=rtx(false,0); if(e.tx.out.empty()) e.tx.out.push_back({eamount(),rscript()}); size_t n=1+R.below(maxin); e.tx.in.clear(); Root*r0=&root(R.below(2)); Path a0=eacc(); int k0=1+R.below(2);
  for(size_t i=0;i<n;i++){ TIn t; t.prev=R.bytes(32); t.n=R.below(5); t.seq=R.chance(1,2)?0xfffffffd:eu32(); EIn x; x.r=R.chance(2,3)?r0:&root(R.below(3)); x.acc=R.chance(3,4)?a0:eacc(); x.hd=x.r->at(x.acc); x.kind=e.seg?(R.chance(3,4)?k0:1+(int)R.below(2)):0; const uint8_t*v=pubver(e.net,x.kind); x.xpub=ref::hd_ser(x.hd,Bytes(v,v+4),true); x.d[0]=R.below(2); x.d[1]=R.chance(2,3)?R.below(6):R.chance(1,2)?R.below(65536):(R.chance(1,2)?0xffff:255+R.below(3)); if(R.chance(1,10)) x.d[0]=R.below(65536); x.amt=e.seg?(R.chance(9,10)?1+eamount():eu64()):0;
    if(x.kind==2&&R.chance(1,2)){ HD c=ref::hd_ckd_pub(ref::hd_ckd_pub(x.hd,x.d[0]),x.d[1]); t.ss=ref::pushdata(ref::p2wpkh(ref::hash160(ref::sec(c.K)))); } e.tx.in.push_back(t); e.in.push_back(x); } return e; }
inline Bytes eser(const EM&e){ Bytes b={0x45,0x50,0x54,0x46,0xff,0x00}; le(b,e.tx.ver,4); if(e.seg){ b.push_back(0); b.push_back(1); } app(b,ref::varint(e.tx.in.size())); for(size_t i=0;i<e.in.size();i++){ const TIn&t=e.tx.in[i]; app(b,t.prev); le(b,t.n,4); if(e.seg) app(b,ref::varstr(t.ss)); else { Bytes s={0x01,0xff,0x4c,0x53,0xff}; app(s,e.in[i].xpub); le(s,e.in[i].d[0],2); le(s,e.in[i].d[1],2); app(b,ref::varstr(s)); } le(b,t.seq,4); } app(b,ref::varint(e.tx.out.size())); for(auto&o:e.tx.out){ le(b,o.amt,8); app(b,ref::varstr(o.spk)); }
  if(e.seg) for(auto&x:e.in){ Bytes w={0xfe,0xff,0xff,0xff,0xff}; app(b,w); le(b,x.amt,8); Bytes c={0x00,0x00,0x02,0x01,0xff,0x53,0xff}; app(b,c); app(b,x.xpub); le(b,x.d[0],2); le(b,x.d[1],2); } le(b,e.tx.lock,4); return b; }
inline bool same_elec(const ElectrumTx&a,const EM&e,std::string&why){ if(!same_tx(a.tx,e.tx,why)) return false; if(!a.txInsMeta){ why="no input metadata"; return false; } for(size_t i=0;i<e.in.size();i++){ const EIn&x=e.in[i]; std::string at=" of input "+std::to_string(i); if(ser(a.txInsMeta[i].hd)!=x.xpub){ why="extended key"+at; return false; } if(a.txInsMeta[i].derivation[0]!=x.d[0]||a.txInsMeta[i].derivation[1]!=x.d[1]){ why="derivation"+at; return false; } if(a.txInsMeta[i].amount!=x.amt){ why="amount"+at; return false; } } return true; }
