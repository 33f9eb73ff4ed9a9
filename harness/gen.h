// generators of transactions, PSBTs and Electrum transactions (as models and as bytes) and comparison with library objects
#pragma once
#include "keys.h"
using ref::TX; using ref::TIn; using ref::TOut;
inline uint32_t eu32(){ static const uint32_t s[]={0,1,2,0x7f,0x80,0xff,0x100,0xffff,0x10000,0x7fffffff,0x80000000u,0xfffffffe,0xffffffffu}; return R.chance(1,3)?s[R.below(13)]:R.u32(); }
inline uint64_t eu64(){ static const uint64_t s[]={0,1,0xff,0x100,0xffffffffull,0x100000000ull,2100000000000000ull,0x7fffffffffffffffull,0x8000000000000000ull,~0ull}; return R.chance(1,3)?s[R.below(10)]:R.u64()>>R.below(64); }
inline uint64_t eamount(){ static const uint64_t s[]={0,1,546,100000000ull,2100000000000000ull}; return R.chance(1,4)?s[R.below(5)]:R.below(2100000000000000ull)>>R.below(48); }
// size: 0 small, 1 normal, 2 many/long
inline int rsize(){ int x=R.below(40); return x==0?2:x<14?0:1; }
inline Bytes rwit(int sz){ switch(R.below(6)){ case 0: return Bytes(); case 1: return R.bytes(33); case 2: return R.bytes(70+R.below(4)); case 3: { Bytes b=R.bytes(elen(sz==2?3000:300)); return b; } default: return R.bytes(R.below(30)); } }
inline TX rtx(bool allow_wit=true,int sz=-1){ if(sz<0) sz=rsize(); TX t; t.ver=R.chance(1,2)?1+R.below(2):eu32(); t.lock=R.chance(1,2)?0:eu32(); size_t ni=1+R.below(sz==0?2:4),no=R.below(sz==0?3:5); if(!no&&R.chance(3,4)) no=1; if(sz==2){ if(R.chance(1,2)) ni=R.chance(1,3)?252:1+R.below(252); if(R.chance(1,2)) no=R.chance(1,3)?252:R.below(253); }
  bool many=ni+no>20; bool wit=allow_wit&&R.chance(1,2); for(size_t i=0;i<ni;i++){ TIn x; x.prev=R.chance(1,10)?ebytes(32):R.bytes(32); x.n=R.chance(1,2)?R.below(4):eu32(); x.seq=R.chance(1,2)?0xffffffffu-R.below(3):eu32(); if(R.chance(1,2)) x.ss=many?R.bytes(R.below(20)):R.chance(1,6)?R.bytes(elen(sz==2?9000:600)):rscript(); if(wit&&R.chance(2,3)){ size_t n=R.below(4); if(sz==2&&R.chance(1,8)) n=250+R.below(8); for(size_t j=0;j<n;j++) x.wit.push_back(many||n>4?R.bytes(R.below(5)):rwit(sz)); } t.in.push_back(x); }
  for(size_t i=0;i<no;i++){ TOut o; o.amt=R.chance(1,2)?eamount():eu64(); o.spk=many?R.bytes(R.below(20)):R.chance(1,8)?R.bytes(elen(sz==2?9000:600)):rscript(); t.out.push_back(o); } return t; }
inline Bytes witser(const std::vector<Bytes>&w){ Bytes r=ref::varint(w.size()); for(auto&e:w) ref::app(r,ref::varstr(e)); return r; }
inline Script rawscript(const Bytes&b){ Script s; Bytes v=ref::varstr(b); s.parse(v.data(),v.size(),RAW); return s; }
inline bool same_in(const TxIn&a,const TIn&b,std::string&why,bool wit=true){ if(Bytes(a.hash,a.hash+32)!=b.prev){ why="previous hash"; return false; } if(a.outputIndex!=b.n){ why="output index"; return false; } if(sbytes(a.scriptSig)!=b.ss){ why="scriptSig"; return false; } if(a.sequence!=b.seq){ why="sequence"; return false; } if(wit&&(a.witness.count()!=b.wit.size()||ser(a.witness)!=witser(b.wit))){ why="witness"; return false; } return true; }
inline bool same_out(const TxOut&a,const TOut&b,std::string&why){ if(a.amount!=b.amt){ why="amount"; return false; } if(sbytes(a.scriptPubkey)!=b.spk){ why="scriptPubkey"; return false; } return true; }
inline bool same_tx(const Tx&a,const TX&b,std::string&why){ if(a.version!=b.ver){ why="version"; return false; } if(a.locktime!=b.lock){ why="locktime"; return false; } if(a.inputsNumber!=b.in.size()){ why="number of inputs"; return false; } if(a.outputsNumber!=b.out.size()){ why="number of outputs"; return false; } for(size_t i=0;i<b.in.size();i++) if(!same_in(a.txIns[i],b.in[i],why)){ why+=" of input "+std::to_string(i); return false; } for(size_t i=0;i<b.out.size();i++) if(!same_out(a.txOuts[i],b.out[i],why)){ why+=" of output "+std::to_string(i); return false; } return true; }
inline Witness lwit(const std::vector<Bytes>&v){ Witness w; for(auto&e:v){ XBuf x(e); w.push(x.p,x.n); } return w; }
inline TxIn lin(const TIn&i){ Bytes id(i.prev.rbegin(),i.prev.rend()); Script s=rawscript(i.ss); TxIn r=R.chance(1,2)?TxIn(id.data(),i.n,s,i.seq):TxIn(XStr(ref::hex(id)),i.n,s,i.seq); if(i.wit.size()) r.witness=lwit(i.wit); return r; }
inline TxOut lout(const TOut&o){ Script s=rawscript(o.spk); return R.chance(1,2)?TxOut(o.amt,s):TxOut(s,o.amt); }
inline Tx ltx(const TX&t){ Tx r; r.version=t.ver; r.locktime=t.lock; for(auto&i:t.in) r.addInput(lin(i)); for(auto&o:t.out) r.addOutput(lout(o)); return r; }
inline std::string shex(const Bytes&b,size_t n=200){ std::string s=ref::hex(b); return s.size()>n?s.substr(0,n)+"..("+std::to_string(b.size())+")":s; }
// raw or hexadecimal input handed over in exactly sized memory
inline size_t feed(Streamable&o,const Bytes&b,bool hx){ if(hx){ std::string h=ref::hex(b); if(R.chance(1,4)) for(auto&c:h) c=toupper(c); XBuf x(ref::B(h)); return o.parse(x.p,x.n,HEX_ENCODING); } XBuf x(b); return o.parse(x.p,x.n,RAW); }
inline Bytes rev(const Bytes&b){ return Bytes(b.rbegin(),b.rend()); }
