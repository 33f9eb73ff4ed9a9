// PSBT model, generator and independent reader
#pragma once
#include "gen.h"
#include "PSBT.h"
#include <map>
#include <set>
using ref::HD; using ref::app; using ref::le;
typedef std::vector<uint32_t> Path;
typedef std::vector<std::pair<Bytes,Bytes>> PMap;
// reference HD roots with cached children; content depends on the index only
struct Root{ HD m; Bytes fp; std::map<Path,HD> c;
  const HD&at(const Path&p){ auto it=c.find(p); if(it!=c.end()) return it->second; if(p.empty()) return c[p]=m; Path q(p.begin(),p.end()-1); HD k=ref::hd_ckd_priv(at(q),p.back()); return c[p]=k; } };
inline Root& root(size_t i){ static std::vector<Root*> v; while(v.size()<=i){ Bytes s(32,(uint8_t)(0x31+v.size())); Root*r=new Root; r->m=ref::hd_seed(s); r->fp=ref::hd_fp(r->m); v.push_back(r); } return *v[i]; }
inline HDPrivateKey lroot(const Root&r){ Bytes k=ref::b32(r.m.k); return HDPrivateKey(k.data(),r.m.cc.data()); }
inline HDPublicKey lrootpub(const Root&r){ Bytes x=ref::xy(r.m.K); return HDPublicKey(x.data(),r.m.cc.data()); }
inline Path rpath_(){ static const Path acc[]={{0x80000054,0x80000000,0x80000000},{0x8000002c,0x80000000,0x80000001},{0x80000031,0x80000001,0x80000000},{},{0x80000030},{0x80000054,0x80000000},{0x80000030,0x80000000,0x80000000,0x80000002},{5}}; Path p=acc[R.chance(2,3)?R.below(3):R.below(8)]; if(R.chance(9,10)){ p.push_back(R.below(2)); p.push_back(R.below(6)); } if(R.chance(1,20)) p.push_back(0x80000001); return p; }
struct PDer{ Bytes sec,fp; Path path; };
struct PIn{ bool nw=false,w=false; Bytes prevraw; TOut utxo{0,{}}; Bytes redeem,witness; bool hr=false,hw=false; std::vector<PDer> ders; std::vector<std::pair<Bytes,Bytes>> sigs; PMap extra; };
struct POut{ Bytes redeem,witness; bool hr=false,hw=false; std::vector<PDer> ders; PMap extra; };
struct PS{ TX tx; std::vector<PIn> in; std::vector<POut> out; PMap glob; };
inline Bytes derval(const PDer&d){ Bytes v=d.fp; for(auto i:d.path) le(v,i,4); return v; }
inline Bytes pk1(uint8_t c,const Bytes&k){ Bytes r={c}; app(r,k); return r; }
template<class T> void shuf(T&v){ for(size_t i=v.size();i>1;i--) std::swap(v[i-1],v[R.below(i)]); }
inline std::vector<PMap> maps(const PS&p,bool shuffle){ std::vector<PMap> r; PMap g=p.glob; g.insert(g.begin(),{Bytes{0},ref::tx_ser(p.tx,false)}); if(shuffle&&R.chance(1,3)) shuf(g); r.push_back(g);
  for(auto&i:p.in){ PMap m; if(i.nw) m.push_back({Bytes{0},i.prevraw}); if(i.w){ Bytes o; le(o,i.utxo.amt,8); app(o,ref::varstr(i.utxo.spk)); m.push_back({Bytes{1},o}); } for(auto&s:i.sigs) m.push_back({pk1(2,s.first),s.second}); if(i.hr) m.push_back({Bytes{4},i.redeem}); if(i.hw) m.push_back({Bytes{5},i.witness}); for(auto&d:i.ders) m.push_back({pk1(6,d.sec),derval(d)}); for(auto&e:i.extra) m.push_back(e); if(shuffle&&R.chance(1,2)) shuf(m); r.push_back(m); }
  for(auto&o:p.out){ PMap m; if(o.hr) m.push_back({Bytes{0},o.redeem}); if(o.hw) m.push_back({Bytes{1},o.witness}); for(auto&d:o.ders) m.push_back({pk1(2,d.sec),derval(d)}); for(auto&e:o.extra) m.push_back(e); if(shuffle&&R.chance(1,2)) shuf(m); r.push_back(m); } return r; }
inline Bytes mapser(const std::vector<PMap>&v){ Bytes b={0x70,0x73,0x62,0x74,0xff}; for(auto&m:v){ for(auto&kv:m){ app(b,ref::varstr(kv.first)); app(b,ref::varstr(kv.second)); } b.push_back(0); } return b; }
inline Bytes pser(const PS&p,bool shuffle=true){ return mapser(maps(p,shuffle)); }
// ---- reader. verdict: 0 malformed, 1 well-formed, 2 either outcome acceptable
inline bool rdvar(const Bytes&b,size_t&p,uint64_t&v){ if(p>=b.size()) return false; uint8_t c=b[p]; size_t n=c<0xfd?0:c==0xfd?2:c==0xfe?4:8; if(p+1+n>b.size()) return false; if(!n) v=c; else { v=0; for(size_t i=0;i<n;i++) v|=(uint64_t)b[p+1+i]<<(8*i); } if(ref::varint(v).size()!=n+1) return false; p+=1+n; return true; }
inline bool rdstr(const Bytes&b,size_t&p,Bytes&o){ uint64_t l; if(!rdvar(b,p,l)||l>b.size()-p) return false; o.assign(b.begin()+p,b.begin()+p+l); p+=l; return true; }
inline bool keyok(const Bytes&k,Bytes&sec,bool&gray){ sec.assign(k.begin()+1,k.end()); if(sec.size()!=33&&sec.size()!=65) return false; if(sec.size()==65&&(sec[0]==6||sec[0]==7)) gray=true; ref::Pt q; return ref::unsec(sec,q); }
inline bool grayt(const TX&t,const Bytes&raw){ return t.in.empty()||t.in.size()>252||t.out.size()>252||ref::tx_ser(t).size()!=raw.size(); }
inline bool derok(const Bytes&v,PDer&d,bool&gray){ if(v.size()<4||v.size()%4) return false; if(v.size()/4-1>255) gray=true; d.fp.assign(v.begin(),v.begin()+4); d.path.clear(); for(size_t i=4;i<v.size();i+=4) d.path.push_back(v[i]|v[i+1]<<8|v[i+2]<<16|(uint32_t)v[i+3]<<24); return true; }
inline int pparse(const Bytes&b,PS&ps,size_t&used){ ps=PS(); static const Bytes mg={0x70,0x73,0x62,0x74,0xff}; if(b.size()<5||!std::equal(mg.begin(),mg.end(),b.begin())) return 0; size_t p=5; bool gray=false,has=false; size_t sec=0,nsec=1; bool bad=false; std::vector<PMap> maps;
  while(sec<nsec){ std::set<Bytes> ks; for(;;){ Bytes k,v; if(!rdstr(b,p,k)) return 0; if(k.empty()) break; if(!rdstr(b,p,v)) return 0; bool dup=!ks.insert(k).second; uint8_t c=k[0];
      if(sec==0){ if(c==0){ if(k.size()!=1||dup) return 0; TX t; size_t u=0; if(!ref::tx_parse(v,t,&u)||u!=v.size()) return 0; if(grayt(t,v)) gray=true; for(auto&i:t.in) if(i.ss.size()||i.wit.size()) bad=true; ps.tx=t; has=true; } else if(dup) gray=true; continue; }
      if(sec<=ps.tx.in.size()){ PIn&i=ps.in[sec-1]; const TIn&ti=ps.tx.in[sec-1]; switch(c){
          case 0: { if(k.size()!=1) return 0; if(dup) gray=true; TX t; size_t u=0; if(!ref::tx_parse(v,t,&u)||u!=v.size()) return 0; if(grayt(t,v)) gray=true; if(ref::txid_raw(t)!=ti.prev||ti.n>=t.out.size()) return 0; TOut o=t.out[ti.n]; if(i.w&&(o.amt!=i.utxo.amt||o.spk!=i.utxo.spk)){ if((!i.utxo.amt&&i.utxo.spk.empty())||(!o.amt&&o.spk.empty())) gray=true; else bad=true; } i.nw=true; i.utxo=o; break; }
          case 1: { if(k.size()!=1) return 0; if(dup) gray=true; if(v.size()<9) return 0; uint64_t a=0; for(int q=0;q<8;q++) a|=(uint64_t)v[q]<<(8*q); size_t q=8; Bytes s; if(!rdstr(v,q,s)||q!=v.size()) return 0; if((i.nw||i.w)&&(a!=i.utxo.amt||s!=i.utxo.spk)){ if((!i.utxo.amt&&i.utxo.spk.empty())||(!a&&s.empty())) gray=true; else bad=true; } i.w=true; i.utxo={a,s}; break; }
          case 2: { Bytes s; if(!keyok(k,s,gray)||dup) return 0; if(v.size()<2) return 0; Bytes r32,s32; if(!ref::understrict(Bytes(v.begin(),v.end()-1),r32,s32)) return 0; ref::U256 r=ref::u256(r32.data()),z=ref::u256(s32.data()); if(ref::iszero(r)||ref::iszero(z)||ref::cmp(r,ref::N)>=0||ref::cmp(z,ref::N)>=0) gray=true; i.sigs.push_back({s,v}); break; }
          case 4: if(k.size()!=1) return 0; if(dup){ if(i.redeem.empty()||v.empty()) gray=true; else return 0; } i.redeem=v; i.hr=true; break;
          case 5: if(k.size()!=1) return 0; if(dup){ if(i.witness.empty()||v.empty()) gray=true; else return 0; } i.witness=v; i.hw=true; break;
          case 6: { PDer d; if(!keyok(k,d.sec,gray)||dup||!derok(v,d,gray)) return 0; i.ders.push_back(d); break; }
          default: if(dup) gray=true; } continue; }
      POut&o=ps.out[sec-1-ps.tx.in.size()]; switch(c){
          case 0: if(k.size()!=1) return 0; if(dup){ if(o.redeem.empty()||v.empty()) gray=true; else return 0; } o.redeem=v; o.hr=true; break;
          case 1: if(k.size()!=1) return 0; if(dup){ if(o.witness.empty()||v.empty()) gray=true; else return 0; } o.witness=v; o.hw=true; break;
          case 2: { PDer d; if(!keyok(k,d.sec,gray)||dup||!derok(v,d,gray)) return 0; o.ders.push_back(d); break; }
          default: if(dup) gray=true; } }
    if(sec==0){ if(!has) return 0; nsec=1+ps.tx.in.size()+ps.tx.out.size(); ps.in.resize(ps.tx.in.size()); ps.out.resize(ps.tx.out.size()); } sec++; }
  used=p; if(bad) return 0; return gray?2:1; }
// ---- comparison of a library object with the model
inline bool same_der(const PSBTDerivation*a,size_t n,const std::vector<PDer>&b,std::string&why){ if(n!=b.size()){ why="number of derivations"; return false; } for(size_t i=0;i<n;i++){ bool f=false; for(auto&d:b){ if(ser(a[i].pubkey)==d.sec){ f=true; if(Bytes(a[i].fingerprint,a[i].fingerprint+4)!=d.fp){ why="fingerprint"; return false; } if(a[i].derivationLen!=d.path.size()||!std::equal(d.path.begin(),d.path.end(),a[i].derivation)){ why="derivation path"; return false; } } } if(!f){ why="derivation key"; return false; } for(size_t j=0;j<i;j++) if(ser(a[j].pubkey)==ser(a[i].pubkey)){ why="derivation listed twice"; return false; } } return true; }
inline bool same_psbt(const PSBT&a,const PS&b,std::string&why,bool sigs=true){ TX t=b.tx; if(!same_tx(a.tx,t,why)) return false; for(size_t i=0;i<b.in.size();i++){ const PSBTInputMetadata&m=a.txInsMeta[i]; const PIn&n=b.in[i]; std::string at=" of input "+std::to_string(i); if(n.nw||n.w){ if(!same_out(m.txOut,n.utxo,why)){ why="previous output "+why+at; return false; } } else if(m.txOut.amount||m.txOut.scriptPubkey.scriptLen){ why="made-up previous output"+at; return false; } if(sbytes(m.redeemScript)!=n.redeem){ why="redeem script"+at; return false; } if(sbytes(m.witnessScript)!=n.witness){ why="witness script"+at; return false; } if(!same_der(m.derivations,m.derivationsLen,n.ders,why)){ why+=at; return false; }
    if(sigs){ if(m.signaturesLen!=n.sigs.size()){ why="number of signatures"+at; return false; } for(size_t j=0;j<n.sigs.size();j++){ bool f=false; for(auto&s:n.sigs) if(ser(m.signatures[j].pubkey)==s.first&&ser(m.signatures[j].signature)==Bytes(s.second.begin(),s.second.end()-1)) f=true; if(!f){ why="signature"+at; return false; } } } }
  for(size_t i=0;i<b.out.size();i++){ const PSBTOutputMetadata&m=a.txOutsMeta[i]; const POut&n=b.out[i]; std::string at=" of output "+std::to_string(i); if(sbytes(m.redeemScript)!=n.redeem){ why="redeem script"+at; return false; } if(sbytes(m.witnessScript)!=n.witness){ why="witness script"+at; return false; } if(!same_der(m.derivations,m.derivationsLen,n.ders,why)){ why+=at; return false; } } return true; }
// ---- generator
enum Kind{ KPKH,KWPKH,KSHWPKH,KSH,KWSH,KSHWSH,KPK,KPKHU,KTR,KSHPK,KNUM };
struct KeyRef{ Root*r; Path path; bool unc; Bytes sec()const{ return ref::sec(r->at(path).K,!unc); } };
inline KeyRef rkeyref(size_t nroots=3){ return {&root(R.chance(2,3)?0:R.below(nroots)),rpath_(),false}; }
struct Lock{ Kind k; std::vector<KeyRef> keys; Bytes spk,redeem,witness; };
inline Lock rlock(bool taproot=true){ using namespace ref; Lock l; do l.k=(Kind)R.below(KNUM); while(l.k==KTR&&!taproot); size_t nk=(l.k==KSH||l.k==KWSH||l.k==KSHWSH)?1+R.below(3):1; for(size_t i=0;i<nk;i++){ KeyRef x; bool dup; do{ x=rkeyref(); dup=false; for(auto&y:l.keys) if(y.sec()==x.sec()) dup=true; }while(dup); if(l.k==KPKHU) x.unc=true; l.keys.push_back(x); } Bytes s=l.keys[0].sec(); std::vector<Bytes> v; for(auto&x:l.keys) v.push_back(x.sec()); Bytes ms=multisig(1+R.below(nk),v); if(R.chance(1,8)&&(l.k==KWSH||l.k==KSHWSH)){ ms=Bytes(); for(size_t i=0,n=R.below(40)+30;i<n;i++){ ms.push_back(0x61); } app(ms,pushdata(s)); ms.push_back(0xac); if(R.chance(1,2)){ Bytes pad(240,0x61); ms.insert(ms.begin(),pad.begin(),pad.begin()+R.below(241)); } }
  switch(l.k){ case KPKH: case KPKHU: l.spk=p2pkh(hash160(s)); break; case KWPKH: l.spk=p2wpkh(hash160(s)); break; case KSHWPKH: l.redeem=p2wpkh(hash160(s)); l.spk=p2sh(hash160(l.redeem)); break; case KSH: l.redeem=ms; l.spk=p2sh(hash160(ms)); break; case KWSH: l.witness=ms; l.spk=p2wsh(sha256(ms)); break; case KSHWSH: l.witness=ms; l.redeem=p2wsh(sha256(ms)); l.spk=p2sh(hash160(l.redeem)); break; case KPK: l.spk=pushdata(s); l.spk.push_back(0xac); break; case KSHPK: l.redeem=pushdata(s); l.redeem.push_back(0xac); l.spk=p2sh(hash160(l.redeem)); break; case KTR: { l.spk=Bytes{(uint8_t)(0x51+(R.chance(1,3)?R.below(16):0)),0x20}; app(l.spk,R.bytes(32)); break; } default:; } return l; }
inline PDer rder(const KeyRef&k){ return {k.sec(),k.r->fp,k.path}; }
inline void extras(PMap&m,bool in){ if(R.chance(1,4)){ size_t n=1+R.below(2); for(size_t i=0;i<n;i++){ Bytes k; switch(R.below(4)){ case 0: k=pk1(0xfc,R.bytes(R.below(20))); break; case 1: k=pk1(0x10+R.below(0xe0),R.bytes(R.below(5))); break; case 2: k=pk1(in?(R.chance(1,2)?7:8):3+R.below(5),R.chance(1,2)?Bytes():R.bytes(R.below(40))); break; default: k=pk1(9+R.below(20),R.bytes(R.below(300))); } m.push_back({k,R.bytes(R.chance(1,6)?elen(700):R.below(40))}); std::set<Bytes> u; PMap q; for(auto&e:m) if(u.insert(e.first).second) q.push_back(e); m=q; } } }
inline Bytes prevtx(const TOut&o,uint32_t&n,Bytes&id){ TX t=rtx(true,0); if(t.out.size()>6) t.out.resize(6); if(R.chance(1,25)) for(size_t k=R.below(230);k;k--) t.out.push_back({k,Bytes{0x51}}); n=R.below(t.out.size()+1); t.out.insert(t.out.begin()+n,o); id=ref::txid_raw(t); return ref::tx_ser(t); }
inline PS rpsbt(int maxin=4,int maxout=4,std::vector<Lock>*li=nullptr,std::vector<Lock>*lo=nullptr){ PS p; p.tx=rtx(false,0); p.tx.in.clear(); p.tx.out.clear(); size_t ni=1+R.below(maxin),no=R.below(maxout+1); if(!no) no=1; 
  for(size_t i=0;i<ni;i++){ Lock l=rlock(); PIn x; TIn t; t.seq=R.chance(1,2)?0xfffffffd:eu32(); x.utxo={eamount(),l.spk}; x.redeem=l.redeem; x.witness=l.witness; x.hr=l.redeem.size(); x.hw=l.witness.size(); bool seg=l.k==KWPKH||l.k==KSHWPKH||l.k==KWSH||l.k==KSHWSH||l.k==KTR; x.nw=!seg||R.chance(1,2); x.w=seg?(!x.nw||R.chance(1,2)):R.chance(1,6); t.prev=R.bytes(32); t.n=R.below(5); if(x.nw) x.prevraw=prevtx(x.utxo,t.n,t.prev); for(auto&k:l.keys) x.ders.push_back(rder(k));
    if(R.chance(1,6)){ KeyRef k=rkeyref(); bool d=false; for(auto&y:x.ders) if(y.sec==k.sec()) d=true; if(!d) x.ders.push_back(rder(k)); } // key not used by the script
    if(R.chance(1,5)){ const KP&k=rkey(); Bytes g=ref::der(escalar(),escalar()); static const uint8_t st[]={1,1,2,3,0x81,0x83}; g.push_back(st[R.below(6)]); x.sigs.push_back({R.chance(1,8)?k.s65:k.s33,g}); }
    if(R.chance(1,6)) x.extra.push_back({Bytes{3},Bytes{1,0,0,0}}); extras(x.extra,true); p.tx.in.push_back(t); p.in.push_back(x); if(li) li->push_back(l); }
  for(size_t i=0;i<no;i++){ Lock l=rlock(); POut x; TOut t{eamount(),l.spk}; if(R.chance(2,3)){ x.redeem=l.redeem; x.witness=l.witness; x.hr=l.redeem.size(); x.hw=l.witness.size(); for(auto&k:l.keys) x.ders.push_back(rder(k)); } extras(x.extra,false); p.tx.out.push_back(t); p.out.push_back(x); if(lo) lo->push_back(l); }
  if(R.chance(1,5)) p.glob.push_back({pk1(1,R.bytes(78)),R.bytes(4*R.range(1,4))}); if(R.chance(1,8)) p.glob.push_back({Bytes{0xfb},Bytes(4,0)}); if(R.chance(1,8)) p.glob.push_back({pk1(0xfc,R.bytes(5)),R.bytes(R.below(30))}); return p; }
