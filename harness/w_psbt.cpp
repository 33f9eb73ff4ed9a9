// C20 PSBT content, C21 PSBT signing, C22 fee and ownership
#include "psbt.h"
using namespace ref;
// the serialized form must be a well-formed PSBT carrying the transaction and exactly the signatures in `p`
static bool out_ok(const PSBT&a,const PS&p,std::string&why){ Bytes b=ser(a); if(a.length()!=b.size()){ why="length"; return false; } PS q; size_t used=0; int v=pparse(b,q,used); if(v==0||used!=b.size()){ why="not well-formed: "+shex(b,1200); return false; } if(tx_ser(q.tx)!=tx_ser(p.tx,false)){ why="transaction"; return false; } for(size_t i=0;i<p.in.size();i++){ std::set<std::pair<Bytes,Bytes>> x(p.in[i].sigs.begin(),p.in[i].sigs.end()),y(q.in[i].sigs.begin(),q.in[i].sigs.end()); if(x!=y||q.in[i].sigs.size()!=x.size()){ why="signatures of input "+std::to_string(i)+" in "+shex(b,800); return false; } } return true; }
static size_t pfeed(PSBT&t,const Bytes&b,int how){ if(how==2){ std::string s=base64(b); size_t l=t.parseBase64(s); return l; } return feed(t,b,how==1); }
static void p_read(uint64_t n){ PS p=rpsbt(R.chance(1,20)?30:4,R.chance(1,20)?30:4); Bytes b=pser(p); int how=n%3; PSBT t; if(R.chance(1,4)){ PS o=rpsbt(); pfeed(t,pser(o),R.below(2)); ev("reused"); } size_t l=pfeed(t,b,how); REQ(t.getStatus()==PARSING_DONE&&t.isValid(),"refused","status %d how %d after %zu of %zu: %s",t.getStatus(),how,l,b.size(),shex(b,1500).c_str()); REQ(l==b.size(),"consumed","%zu of %zu",l,b.size()); std::string why; REQ(same_psbt(t,p,why),"wrong-content","%s differs (how %d) in %s",why.c_str(),how,shex(b,1500).c_str()); REQ(out_ok(t,p,why),"wrong-output","%s",why.c_str()); if(R.chance(1,4)) REQ(t.toBase64()==base64(ser(t)),"wrong-output","toBase64"); if(R.chance(1,4)) REQ(t.toString()==hex(ser(t)),"wrong-output","toString");
  { PSBT u; Bytes c=ser(t); feed(u,c,false); REQ(u.getStatus()==PARSING_DONE,"refused","own serialization"); PS q; size_t us; pparse(c,q,us); REQ(same_psbt(u,q,why),"wrong-content","reparsed own serialization: %s",why.c_str()); } ev("psbt.read"); for(auto&i:p.in){ if(i.nw) ev("utxo.nonwitness"); if(i.w) ev("utxo.witness"); ev("derivations",i.ders.size()); ev("signatures",i.sigs.size()); } seen(b.data(),b.size()); if(n<2) sample("%zu inputs %zu outputs, %zu bytes: %s",p.in.size(),p.out.size(),b.size(),shex(b,100).c_str()); }
static void p_many(uint64_t n){ // many sections
  PS p; p.tx=rtx(false,0); p.tx.in.clear(); p.tx.out.clear(); size_t ni=R.chance(1,2)?100+R.below(153):1+R.below(10),no=R.chance(1,2)?100+R.below(153):1+R.below(10); for(size_t i=0;i<ni;i++){ TIn t; t.prev=R.bytes(32); t.n=i; t.seq=5; PIn x; x.w=true; x.utxo={i+1,p2wpkh(R.bytes(20))}; if(R.chance(1,20)) x.ders.push_back({rkey().s33,R.bytes(4),{1,2}}); p.tx.in.push_back(t); p.in.push_back(x); } for(size_t i=0;i<no;i++){ p.tx.out.push_back({i,p2wpkh(R.bytes(20))}); POut o; if(R.chance(1,20)) o.ders.push_back({rkey().s33,R.bytes(4),{7}}); p.out.push_back(o); }
  if(R.chance(1,4)){ PIn&x=p.in[0]; x.ders.clear(); std::set<Bytes> u; for(int k=0;k<300;k++){ const KP&q=rkey(); Bytes s=R.chance(1,2)?q.s33:q.s65; if(u.insert(s).second){ x.ders.push_back({s,R.bytes(4),{(uint32_t)k}}); Bytes g=der(escalar(),escalar()); g.push_back(1); x.sigs.push_back({s,g}); } } ev("many.derivations"); }
  Bytes b=pser(p,false); PSBT t; size_t l=pfeed(t,b,n%3); REQ(t.getStatus()==PARSING_DONE&&l==b.size(),"refused","%zu inputs %zu outputs: status %d after %zu of %zu",ni,no,t.getStatus(),l,b.size()); std::string why; REQ(same_psbt(t,p,why),"wrong-content","%zu inputs %zu outputs: %s",ni,no,why.c_str()); REQ(out_ok(t,p,why),"wrong-output","%zu inputs %zu outputs: %s",ni,no,why.c_str()); ev("psbt.many"); }
static void verdict(const Bytes&b,int how,const char*what){ PS q; size_t used=0; int v=pparse(b,q,used); PSBT t; size_t l=pfeed(t,b,how); std::string why; bool done=t.getStatus()==PARSING_DONE&&(l>0||t.tx.inputsNumber||t.tx.outputsNumber);
  if(v==0){ REQ(!done,"malformed-accepted","%s: %s reported complete",what,shex(b,3000).c_str()); ev("bad.refused"); return; } if(v==1) REQ(done,"refused","%s: well-formed %s refused, status %d",what,shex(b,3000).c_str(),t.getStatus()); if(done){ if(how!=2) REQ(l==used,"consumed","%s: %zu want %zu",what,l,used); REQ(same_psbt(t,q,why),"wrong-content","%s: %s differs in %s",what,why.c_str(),shex(b,3000).c_str()); if(v==1) REQ(out_ok(t,q,why),"wrong-output","%s: %s",what,why.c_str()); ev("bad.stillvalid"); } }
static void p_bad(uint64_t n){ PS p=rpsbt(3,3); Bytes b=pser(p); switch(R.below(6)){ case 0: b.resize(R.below(b.size())); break; case 1: { size_t i=R.below(b.size()); b[i]=R.u32(); break; } case 2: { size_t i=R.below(b.size()); b.insert(b.begin()+i,R.chance(1,2)?0:R.u32()); break; } case 3: { size_t i=R.below(b.size()); b.erase(b.begin()+i); break; } case 4: b=mutate(b); break; default: app(b,R.bytes(1+R.below(50))); } if(R.chance(1,2)) seen(b.data(),b.size()); verdict(b,R.below(3)==2?2:R.below(2),"altered bytes"); }
static void p_defect(uint64_t n){ PS p=rpsbt(3,3); std::vector<PMap> m=maps(p,R.chance(1,2)); size_t in=1+R.below(p.in.size()),ou=1+p.in.size()+R.below(p.out.size()); std::string what; auto tx=[&]()->Bytes&{ for(auto&kv:m[0]) if(kv.first==Bytes{0}) return kv.second; return m[0][0].second; }; auto pick=[&](size_t s,int c)->std::pair<Bytes,Bytes>*{ for(auto&kv:m[s]) if(kv.first[0]==c) return &kv; return nullptr; };
  switch(n%22){
    case 0: what="no transaction"; for(size_t i=0;i<m[0].size();i++) if(m[0][i].first==Bytes{0}) m[0].erase(m[0].begin()+i); break;
    case 1: what="second transaction"; m[0].push_back({Bytes{0},R.chance(1,2)?tx():tx_ser(rtx(false,0))}); break;
    case 2: { what="signed transaction"; TX t=p.tx; if(R.chance(1,2)) t.in[0].ss=Bytes{1}; else t.in[0].wit.push_back(Bytes{1}); tx()=tx_ser(t); break; }
    case 3: what="bytes after the transaction"; app(tx(),R.bytes(1+R.below(5))); break;
    case 4: what="transaction cut"; tx().resize(R.below(tx().size())); break;
    case 5: { what="previous transaction of another id"; for(size_t s=1;s<=p.in.size();s++) if(auto*x=pick(s,0)){ TX t; if(tx_parse(x->second,t)){ if(R.chance(1,3)){ TX u=p.tx; u.in[s-1].prev[R.below(32)]^=1<<R.below(8); tx()=tx_ser(u,false); break; } switch(R.below(5)){ case 0: t.lock^=1u<<R.below(32); break; case 1: t.ver^=1u<<R.below(32); break; case 2: t.out[p.tx.in[s-1].n].amt^=1ull<<R.below(64); break; case 3: t.in[0].seq^=1; break; default: t.out[p.tx.in[s-1].n].spk.push_back(0); } x->second=tx_ser(t); break; } } break; }
    case 6: { what="output index beyond the previous transaction"; for(size_t s=1;s<=p.in.size();s++) if(auto*x=pick(s,0)){ TX t; if(tx_parse(x->second,t)){ TX u=p.tx; u.in[s-1].n=t.out.size()+(R.chance(1,2)?0:R.below(3)); if(R.chance(1,4)) u.in[s-1].n=0x80000000u|R.u32(); else if(R.chance(1,4)) u.in[s-1].n=256+p.tx.in[s-1].n; tx()=tx_ser(u,false); break; } } break; }
    case 7: { what="contradicting previous outputs"; for(size_t s=1;s<=p.in.size();s++) if(pick(s,0)){ Bytes o; TOut u=p.in[s-1].utxo; switch(R.below(5)){ case 0: case 1: u.amt^=1ull<<R.below(50); break; case 2: u.amt=u.amt?0:1; break; case 3: if(u.amt&&u.spk.size()) u.spk.clear(); else u.spk.push_back(1); break; default: u.spk.push_back(1); } le(o,u.amt,8); app(o,varstr(u.spk)); if(auto*w=pick(s,1)) w->second=o; else m[s].insert(m[s].begin()+R.below(m[s].size()+1),{Bytes{1},o}); break; } break; }
    case 8: { what="trailing bytes in a previous output"; auto*w=pick(in,R.below(2)); if(w) app(w->second,R.bytes(1+R.below(4))); break; }
    case 9: { what="previous output cut"; auto*w=pick(in,R.below(2)); if(w&&w->second.size()) w->second.resize(R.below(w->second.size())); break; }
    case 10: { what="invalid key"; int c=R.chance(1,2)?6:2; auto*w=pick(in,c); if(!w){ m[in].push_back({pk1(6,rkey().s33),Bytes(8,1)}); w=&m[in].back(); } switch(R.below(5)){ case 0: w->first[1]=R.u32(); break; case 1: w->first.resize(R.below(w->first.size())+1); break; case 2: app(w->first,R.bytes(1+R.below(40))); break; case 3: { Bytes k=R.bytes(32); w->first=pk1(w->first[0],pk1(2+R.below(2),k)); break; } default: { size_t i=1+R.below(w->first.size()-1); w->first[i]^=1<<R.below(8); } } break; }
    case 11: { what="derivation value of wrong length"; size_t s=R.chance(1,2)?in:ou; int c=s==in?6:2; auto*w=pick(s,c); if(!w){ m[s].push_back({pk1(c,rkey().s33),Bytes()}); w=&m[s].back(); } w->second=R.bytes(R.chance(2,3)?R.below(30):R.chance(1,2)?4*R.below(280):4*(254+R.below(6))); break; }
    case 12: { what="duplicated field"; size_t s=R.chance(2,3)?in:ou; if(m[s].size()){ auto kv=m[s][R.below(m[s].size())]; if(R.chance(1,3)&&kv.second.size()) kv.second=mutate(kv.second); m[s].insert(m[s].begin()+R.below(m[s].size()+1),kv); } break; }
    case 13: { what="field key of wrong length"; size_t s=R.chance(2,3)?in:ou; if(m[s].size()){ auto&kv=m[s][R.below(m[s].size())]; app(kv.first,R.bytes(1+R.below(3))); } break; }
    case 14: { what="bad partial signature"; Bytes g=der(escalar(),escalar()); g.push_back(1); switch(R.below(6)){ case 0: g.resize(R.below(g.size())); break; case 1: app(g,R.bytes(1+R.below(3))); break; case 2: g[R.below(g.size())]^=1<<R.below(8); break; case 3: g=R.bytes(R.below(80)); break; case 4: g.clear(); break; default: g.insert(g.begin()+R.below(g.size()),0); } m[in].push_back({pk1(2,rkey().s33),g}); break; }
    case 15: what="missing section"; m.erase(m.begin()+1+R.below(m.size()-1)); break;
    case 16: what="extra section"; m.push_back(R.chance(1,2)?m.back():PMap()); break;
    case 17: { what="sections swapped"; size_t a=1+R.below(m.size()-1),b=1+R.below(m.size()-1); std::swap(m[a],m[b]); break; }
    case 18: { what="output script of any length"; size_t L=R.chance(1,2)?elen(700):248+R.below(10); int c=R.below(2); if(!pick(ou,c)) m[ou].push_back({Bytes{(uint8_t)c},R.bytes(L)}); break; }
    case 19: { what="input script of any length"; size_t L=R.chance(1,2)?elen(700):248+R.below(10); int c=4+R.below(2); auto*w=pick(in,c); if(w) w->second=R.bytes(L); else m[in].push_back({Bytes{(uint8_t)c},R.bytes(L)}); break; }
    case 20: { what="unknown fields of any length"; size_t s=R.below(m.size()); for(int i=0;i<2;i++){ size_t kl=R.chance(1,2)?elen(700):247+R.below(10),vl=R.chance(1,2)?elen(700):247+R.below(10); m[s].insert(m[s].begin()+R.below(m[s].size()+1),{pk1(0x40+R.below(0x80),R.bytes(kl)),R.bytes(vl)}); } break; }
    default: { what="wrong magic"; break; } }
  Bytes b=mapser(m); if(n%22==21) b[R.below(5)]^=1<<R.below(8); verdict(b,R.below(2),what.c_str()); ev("defects"); seen(b.data(),b.size()); }
WORKLOAD(C20,{"read",p_read,5},{"defect",p_defect,9},{"altered",p_bad,6},{"many",p_many,1})
// ---------------------------------------------------------------- C21
// digest the network requires for a key on an input. 0: must not sign, 1: must sign, 2: may sign (with this digest)
static int need(const PS&p,size_t i,const PDer&d,Bytes&dig){ const PIn&x=p.in[i]; if(!x.nw&&!x.w) return 0; Bytes s=x.utxo.spk; if(s.empty()) return 0; bool sh=s.size()==23&&s[0]==0xa9&&s[1]==0x14&&s[22]==0x87; if(sh){ if(p2sh(hash160(x.redeem))!=s) return 0; s=x.redeem; if(s.empty()) return 0; }
  auto has=[&](const Bytes&sc){ Bytes k=pushdata(d.sec); return std::search(sc.begin(),sc.end(),k.begin(),k.end())!=sc.end(); };
  if(s.size()==22&&s[0]==0&&s[1]==20){ Bytes h(s.begin()+2,s.end()); dig=sighash_v0(p.tx,i,p2pkh(h),x.utxo.amt,1); return h==hash160(d.sec)&&d.sec.size()==33?1:2; }
  if(s.size()==34&&s[0]==0&&s[1]==32){ if(p2wsh(sha256(x.witness))!=s) return 0; dig=sighash_v0(p.tx,i,x.witness,x.utxo.amt,1); return has(x.witness)?1:2; }
  if(s.size()>=4&&s.size()<=42&&s[1]==s.size()-2&&(s[0]==0||(s[0]>=0x51&&s[0]<=0x60))) return 0;
  dig=sighash_legacy(p.tx,i,s,1); if(!x.nw) return 2; if(s==p2pkh(hash160(d.sec))) return 1; return has(s)?1:2; }
static bool leads(Root&r,const PDer&d){ if(d.fp!=r.fp||d.path.size()>40) return false; return sec(r.at(d.path).K,d.sec.size()==33)==d.sec; }
static const char* sign_check(PSBT&t,PS&p,Root&r,std::string&why){ size_t c=t.sign(lroot(r)); size_t lo=0,hi=0,fresh=0; for(size_t i=0;i<p.in.size();i++){ std::vector<std::pair<Bytes,Bytes>> now; for(auto&d:p.in[i].ders){ bool mine=leads(r,d); Bytes dig; int nd=mine?need(p,i,d,dig):0; std::pair<Bytes,Bytes>*old=nullptr; for(auto&s:p.in[i].sigs) if(s.first==d.sec) old=&s; if(nd==1) { if(!old) lo++; hi++; } if(nd==2) hi++; int cnt=0; Signature sg; for(size_t j=0;j<t.txInsMeta[i].signaturesLen;j++) if(ser(t.txInsMeta[i].signatures[j].pubkey)==d.sec){ cnt++; sg=t.txInsMeta[i].signatures[j].signature; }
      if(cnt>1){ why="input "+std::to_string(i)+" key "+hex(d.sec)+" has several signatures"; return "duplicate-signature"; } if(nd==0&&!old){ if(cnt){ why="input "+std::to_string(i)+" key "+hex(d.sec)+(mine?" whose script does not fit the previous output":" which is not derivable"); return "signed-foreign"; } continue; } if(nd==1&&!cnt){ why="input "+std::to_string(i)+" spk "+hex(p.in[i].utxo.spk)+" key "+hex(d.sec); return "not-signed"; } if(!cnt) continue; Bytes g=ser(sg); if(old&&Bytes(old->second.begin(),old->second.end()-1)==g){ continue; } if(nd==0){ why="input "+std::to_string(i)+": existing signature replaced"; return "signature-changed"; } Bytes r32,s32; if(!understrict(g,r32,s32)||!ecdsa_verify(r.at(d.path).K,dig,u256(r32.data()),u256(s32.data()))){ why="input "+std::to_string(i)+" spk "+hex(p.in[i].utxo.spk)+" amount "+std::to_string(p.in[i].utxo.amt); return "invalid-signature"; } g.push_back(1); if(old) old->second=g; else { now.push_back({d.sec,g}); fresh++; } ev("signed"); } for(auto&x:now) p.in[i].sigs.push_back(x); }
  if(c<fresh||c<lo||c>hi){ why="returned "+std::to_string(c)+", added "+std::to_string(fresh); return "wrong-count"; } if(!same_psbt(t,p,why)) return "data-changed"; if(!out_ok(t,p,why)) return "wrong-output"; return nullptr; }
static void s_ok(uint64_t n){ std::vector<Lock> li; PS p=rpsbt(R.chance(1,15)?12:4,3,&li); bool twist=n%2; std::string what="plain"; if(twist){ size_t i=R.below(p.in.size()); PIn&x=p.in[i]; switch(R.below(15)){ case 13: if(x.ders.size()){ size_t j=R.below(x.ders.size()); Bytes&z=x.ders[j].sec; if(z.size()==33){ z[0]^=1; if(!x.nw){ x.w=true; x.utxo.spk=R.chance(1,2)?p2wpkh(hash160(z)):p2pkh(hash160(z)); } } } what="opposite key"; break; case 14: x.nw=false; x.w=true; x.utxo.spk={(uint8_t)(R.chance(1,4)?0:0x50+1+R.below(16))}; app(x.utxo.spk,pushdata(R.bytes(2+R.below(39)))); x.hr=x.hw=false; what="other witness program"; break; case 0: if(x.ders.size()){ x.ders[0].fp[R.below(4)]^=1<<R.below(8); } what="fingerprint"; break; case 1: if(x.ders.size()&&x.ders[0].path.size()) x.ders[0].path.back()^=1u<<R.below(3); what="path"; break; case 2: if(x.ders.size()&&x.ders[0].path.size()) x.ders[0].path.pop_back(); what="short path"; break; case 3: if(x.ders.size()) x.ders[0].path.push_back(R.below(3)); what="long path"; break; case 4: if(x.redeem.size()) x.redeem=R.chance(1,2)?mutate(x.redeem):rscript(); what="redeem script"; break; case 5: if(x.witness.size()) x.witness=R.chance(1,2)?mutate(x.witness):rscript(); what="witness script"; break; case 6: x.nw=x.w=false; what="no previous output"; break; case 7: if(!x.nw){ x.utxo.spk=rlock().spk; } what="other output"; break; case 8: if(x.ders.size()) x.ders[0].sec=rkey().s33; what="other key"; break; case 9: if(x.ders.size()) x.ders[0].path.assign(R.below(30),R.below(2)*0x80000000u); what="strange path"; break; case 10: x.redeem=Lock(rlock()).redeem; x.hr=x.redeem.size(); x.witness=rlock().witness; x.hw=x.witness.size(); what="foreign scripts"; break; case 11: if(x.ders.size()){ Path q; x.ders[0].path=q; x.ders[0].sec=sec(root(0).m.K); x.ders[0].fp=root(0).fp; } what="root key"; break; default: x.ders.clear(); what="no derivations"; } }
    std::set<Bytes> u; for(auto&x:p.in){ std::vector<PDer> k; u.clear(); for(auto&d:x.ders) if(u.insert(d.sec).second) k.push_back(d); x.ders=k; x.hr=x.hr&&x.redeem.size(); x.hw=x.hw&&x.witness.size(); if(!x.hr) x.redeem.clear(); if(!x.hw) x.witness.clear(); }
  Bytes b=pser(p); PS q; size_t used; int v=pparse(b,q,used); if(v!=1){ ev("skipped"); return; } p=q; PSBT t; feed(t,b,false); if(t.getStatus()!=PARSING_DONE){ REQ(false,"refused","%s",shex(b,1500).c_str()); } std::string why; const char*k; size_t rounds=1+R.below(3); for(size_t i=0;i<rounds;i++){ size_t ri=i==0?0:R.below(4); Root like; bool lk=R.chance(1,6); if(lk){ like.m=root(ri).m; like.m.cc[R.below(32)]^=1<<R.below(8); like.fp=root(ri).fp; ev("lookalike-root"); } if((k=sign_check(t,p,lk?like:root(ri),why))){ fail(k,"[%s] root %zu round %zu: %s; psbt %s",what.c_str(),ri,i,why.c_str(),shex(b,3000).c_str()); return; } } ev("psbts"); if(twist) ev("twisted"); for(auto&l:li){ static const char*kn[]={"in.p2pkh","in.p2wpkh","in.p2sh-p2wpkh","in.p2sh","in.p2wsh","in.p2sh-p2wsh","in.p2pk","in.p2pkh-uncompressed","in.taproot","in.p2sh-pk"}; ev(kn[l.k]); } seen(b.data(),b.size()); if(n<2) sample("%s: %zu inputs, signatures after signing %zu",what.c_str(),p.in.size(),(size_t)(p.in[0].sigs.size())); }
static void s_near(uint64_t n){ // PSBTs that differ in one place, signed alternately: every signature commits to its own transaction
  PS p=rpsbt(3,3); for(auto&x:p.in) x.extra.clear(); PS q=p; std::string what; size_t i=R.below(p.in.size()),o=R.below(p.out.size()); switch(R.below(8)){ case 0: q.tx.lock^=1u<<R.below(32); what="locktime"; break; case 1: q.tx.out[o].amt^=1ull<<R.below(50); what="output amount"; break; case 2: q.tx.in[i].seq^=1u<<R.below(32); what="sequence"; break; case 3: q.tx.ver^=1u<<R.below(32); what="version"; break; case 4: if(!q.in[i].nw) q.in[i].utxo.amt^=1ull<<R.below(50); what="input amount"; break; case 5: q.tx.out[o].spk=rlock().spk; what="output script"; break; case 6: if(!q.in[i].nw) q.tx.in[i].prev[R.below(32)]^=1<<R.below(8); what="previous id"; break; default: { Lock l=rlock(false); PIn&x=q.in[i]; if(x.sigs.size()) break; x.nw=true; x.w=false; x.utxo.spk=l.spk; x.redeem=l.redeem; x.witness=l.witness; x.hr=l.redeem.size(); x.hw=l.witness.size(); x.ders.clear(); for(auto&k:l.keys) x.ders.push_back(rder(k)); x.prevraw=prevtx(x.utxo,q.tx.in[i].n,q.tx.in[i].prev); what="input"; } }
  Bytes b[2]={pser(p,false),pser(q,false)}; PS m[2]; PSBT t[2]; for(int k=0;k<2;k++){ size_t used; if(pparse(b[k],m[k],used)!=1){ ev("skipped"); return; } feed(t[k],b[k],false); REQ(t[k].getStatus()==PARSING_DONE,"refused","%s",shex(b[k],1500).c_str()); } if(R.chance(1,4)){ PSBT z(t[0]); t[0]=t[1]; t[1]=z; std::swap(m[0],m[1]); ev("near.copied"); } std::string why; const char*k; size_t rounds=2+R.below(3); for(size_t r=0;r<rounds;r++){ int w=r<2?(int)r:(int)R.below(2); size_t ri=R.chance(3,4)?0:R.below(3); if((k=sign_check(t[w],m[w],root(ri),why))){ fail(k,"[neighbour: %s] root %zu round %zu: %s; psbts %s and %s",what.c_str(),ri,r,why.c_str(),shex(b[0],1500).c_str(),shex(b[1],1500).c_str()); return; } } ev("psbts.near"); seen(b[1].data(),b[1].size()); }
// many keys on one input, many inputs, deep paths
static void s_large(uint64_t n){ PS p=rpsbt(2,2); auto fresh=[&](const Bytes&spk,bool prev){ PIn x; TIn t; t.seq=eu32(); t.prev=R.bytes(32); t.n=R.below(300); x.utxo={1+eamount(),spk}; if(prev){ x.nw=true; x.prevraw=prevtx(x.utxo,t.n,t.prev); } else x.w=true; size_t at=R.below(p.in.size()+1); p.tx.in.insert(p.tx.in.begin()+at,t); p.in.insert(p.in.begin()+at,x); return &p.in[at]; }; std::string what;
  switch(n%4){ case 0: case 1: { what="many keys"; size_t nk=4+R.below(13); int k=R.below(3); if(!k&&nk>15) nk=15; std::vector<KeyRef> ks; std::vector<Bytes> v; for(size_t i=0;i<nk;i++){ KeyRef x{&root(R.chance(4,5)?0:1),{0x80000030,0x80000000,(uint32_t)R.below(2),(uint32_t)i},false}; ks.push_back(x); v.push_back(x.sec()); } Bytes ms=multisig(1+R.below(nk),v); Bytes spk=k==0?p2sh(hash160(ms)):k==1?p2wsh(sha256(ms)):p2sh(hash160(p2wsh(sha256(ms)))); PIn*x=fresh(spk,true); if(k==0){ x->redeem=ms; x->hr=true; } else { x->witness=ms; x->hw=true; } if(k==2){ x->redeem=p2wsh(sha256(ms)); x->hr=true; } for(auto&y:ks) x->ders.push_back(rder(y)); shuf(x->ders); if(R.chance(1,3)) for(size_t j=0,c=R.below(12);j<c;j++){ Bytes g=der(escalar(),escalar()); g.push_back(1); x->sigs.push_back({R.chance(1,2)?ks[R.below(nk)].sec():rkey().s33,g}); } { std::set<Bytes> u; decltype(x->sigs) z; for(auto&e:x->sigs) if(u.insert(e.first).second) z.push_back(e); x->sigs=z; } break; }
    case 2: { what="many inputs"; size_t c=R.chance(1,12)?150+R.below(100):10+R.below(30); for(size_t i=0;i<c;i++){ KeyRef x{&root(R.chance(4,5)?0:1),{0x80000054,0x80000000,0x80000000,(uint32_t)R.below(2),(uint32_t)R.below(30)},false}; bool leg=R.chance(1,6); Bytes h=hash160(x.sec()); PIn*y=fresh(leg?p2pkh(h):p2wpkh(h),leg); y->ders.push_back(rder(x)); } break; }
    default: { what="deep paths"; Path b; size_t d=3+R.below(12); for(size_t i=0;i<d;i++) b.push_back(0x80000000u+(uint32_t)i); for(size_t i=0;i<3+R.below(3);i++){ Path q=b; if(i&&R.chance(2,3)) q[R.chance(1,2)?d-1:R.below(d)]^=1; if(R.chance(1,8)) q.resize(R.below(d+1)); q.push_back(R.below(2)); if(R.chance(3,4)) q.push_back(R.below(3)); if(R.chance(1,6)) q.insert(q.end(),1+R.below(8),1); KeyRef x{&root(0),q,false}; PIn*y=fresh(p2wpkh(hash160(x.sec())),false); y->ders.push_back(rder(x)); } } }
  Bytes b=pser(p); PS q; size_t used; if(pparse(b,q,used)!=1){ ev("skipped"); return; } PSBT t; feed(t,b,false); REQ(t.getStatus()==PARSING_DONE,"refused","%s",shex(b,1500).c_str()); std::string why; const char*k; for(int r=0;r<2;r++) if((k=sign_check(t,q,root(r),why))){ fail(k,"[%s: %zu inputs] root %d: %s; psbt %s",what.c_str(),q.in.size(),r,why.c_str(),shex(b,1500).c_str()); return; } ev(("large."+what).c_str()); seen(b.data(),b.size()); }
WORKLOAD(C21,{"sign",s_ok,8},{"near",s_near,2},{"large",s_large,1})
// ---------------------------------------------------------------- C22
static void f_fee(uint64_t n){ PS p=R.chance(1,20)?rpsbt(R.chance(1,2)?250:3,R.chance(1,2)?250:3):rpsbt(5,5); if(p.in.size()>20||p.out.size()>20) ev("fee.large"); unsigned __int128 a=0,o=0; bool unknown=false,zero=false; bool big=R.chance(1,5); for(size_t i=0;i<p.in.size();i++){ PIn&x=p.in[i]; if(big||R.chance(1,6)){ x.nw=false; x.w=true; x.utxo.amt=big?eu64():R.chance(1,2)?0:eamount(); } if(R.chance(1,p.in.size()>20?600:25)){ x.nw=x.w=false; } if(!x.nw&&!x.w) unknown=true; else { a+=x.utxo.amt; if(!x.utxo.amt) zero=true; if(!x.utxo.amt&&x.utxo.spk.empty()) unknown=true; } } for(auto&x:p.tx.out){ if(big) x.amt=eu64(); o+=x.amt; } if(!big&&R.chance(2,3)){ // usually a positive fee
    for(auto&x:p.tx.out) x.amt=0; uint64_t left=a>(unsigned __int128)2100000000000000ull*50?0:(uint64_t)a; o=0; for(auto&x:p.tx.out){ x.amt=R.below(left+1); if(R.chance(1,10)) x.amt=left; left-=x.amt; o+=x.amt; } }
  Bytes b=pser(p); PSBT t; feed(t,b,false); REQ(t.getStatus()==PARSING_DONE,"refused","%s",shex(b,1500).c_str()); uint64_t f=t.fee(); if(unknown){ REQ(f==0||(a>=o&&f==a-o&&false),"fee-of-unknown","fee %llu although an input amount is unknown",(unsigned long long)f); ev("fee.unknown"); } else if(a<o){ REQ(f==0,"negative-fee","inputs below outputs, fee reported %llu",(unsigned long long)f); ev("fee.negative"); } else if((a>>64)||(o>>64)){ REQ(f==0||(unsigned __int128)f==a-o,"fee-overflow","reported %llu",(unsigned long long)f); ev("fee.overflow"); } else { REQ(f==(uint64_t)(a-o),"wrong-fee","reported %llu want %llu",(unsigned long long)f,(unsigned long long)(a-o)); ev("fee.exact"); if(zero) ev("fee.zero-amount-input"); } seen(b.data(),b.size()); if(n<1) sample("fee %llu",(unsigned long long)f);
  if(R.chance(1,3)&&!unknown){ PSBT c(t); for(int k=0;k<3;k++){ PSBT&z=R.chance(1,2)?t:c; size_t i=R.below(p.in.size()),j=R.below(p.out.size()); if(R.chance(1,2)) z.txInsMeta[i].txOut.amount=1+R.below(2100000000000000ull); else z.tx.txOuts[j].amount=R.below(R.chance(1,2)?1000:2100000000000000ull); unsigned __int128 zi=0,zo=0; bool unk=false; for(size_t q=0;q<p.in.size();q++){ zi+=z.txInsMeta[q].txOut.amount; if(!z.txInsMeta[q].txOut.amount) unk=true; } for(size_t q=0;q<p.out.size();q++) zo+=z.tx.txOuts[q].amount; uint64_t g=z.fee(); if(unk||(zi>>64)||(zo>>64)) continue; REQ(g==(zi<zo?0:(uint64_t)(zi-zo)),"wrong-fee","after editing an amount: reported %llu want %llu",(unsigned long long)g,(unsigned long long)(zi<zo?0:(uint64_t)(zi-zo))); ev("fee.edited"); } } }
static void f_mine(uint64_t n){ std::vector<Lock> lo; PS p=rpsbt(2,R.chance(1,25)?252:5,nullptr,&lo); bool lots=p.out.size()>8; if(lots) ev("mine.large"); std::vector<int> tw(p.out.size()); for(size_t i=0;i<p.out.size();i++){ POut&x=p.out[i]; Lock&l=lo[i]; if(x.ders.empty()&&R.chance(3,4)){ x.redeem=l.redeem; x.witness=l.witness; x.hr=l.redeem.size(); x.hw=l.witness.size(); for(auto&k:l.keys) x.ders.push_back(rder(k)); } if(l.k==KSHWPKH&&R.chance(1,4)){ x.redeem.clear(); x.hr=false; } if(R.chance(1,2)){ tw[i]=1+R.below(10); switch(tw[i]){ case 8: case 9: if(x.ders.size()&&x.ders[0].sec.size()==33){ Bytes&z=x.ders[0].sec; z[0]^=1; x.redeem.clear(); x.witness.clear(); Bytes h=hash160(z); p.tx.out[i].spk=R.chance(1,3)?p2pkh(h):R.chance(1,2)?p2wpkh(h):p2sh(hash160(p2wpkh(h))); ev("mine.opposite"); } break; case 1: p.tx.out[i].spk=rlock().spk; break; case 2: if(x.ders.size()&&x.ders[0].path.size()) x.ders[0].path.back()^=1; break; case 3: x.redeem=x.redeem.size()?mutate(x.redeem):Bytes(); break; case 4: x.witness=x.witness.size()?mutate(x.witness):Bytes(); break; case 5: { KeyRef k=rkeyref(1); x.ders.clear(); x.ders.push_back(rder(k)); break; } case 6: p.tx.out[i].spk=mutate(p.tx.out[i].spk); break; case 7: { // claims our key, script is foreign
          Lock f=rlock(); x.redeem=f.redeem; x.witness=f.witness; p.tx.out[i].spk=f.spk; x.ders.clear(); x.ders.push_back(rder(rkeyref(1))); break; } default: x.ders.clear(); } } x.hr=x.redeem.size(); x.hw=x.witness.size(); if(R.chance(1,lots?200:12)&&x.ders.size()){ std::set<Bytes> u; for(auto&d:x.ders) u.insert(d.sec); for(size_t k=2+R.below(10);k;k--){ PDer d=rder(KeyRef{&root(R.below(3)),{0x80000054,(uint32_t)R.below(4),(uint32_t)k},false}); if(u.insert(d.sec).second) x.ders.insert(x.ders.begin()+R.below(x.ders.size()+1),d); } ev("mine.many-derivations"); } }
  Bytes b=pser(p); PS q; size_t used; if(pparse(b,q,used)!=1){ ev("skipped"); return; } PSBT t; feed(t,b,false); REQ(t.getStatus()==PARSING_DONE,"refused","%s",shex(b,1500).c_str());
  for(size_t i=0;i<p.out.size();i++) if(!lots||R.chance(8,p.out.size())) for(size_t ro=0;ro<3;ro++){ size_t ri=ro==1?2:ro/2; Root like; if(ri==2){ if(!R.chance(1,8)) continue; like.m=root(0).m; like.m.cc[R.below(32)]^=1<<R.below(8); like.fp=root(0).fp; ev("mine.lookalike"); } Root&r=ri==2?like:root(ri); const Bytes&spk=p.tx.out[i].spk; bool must=false,may=false; bool pubok=false; for(auto&d:p.out[i].ders){ if(d.path.size()>40||sec(r.at(d.path).K,d.sec.size()==33)!=d.sec) continue; bool hard=false; for(auto s:d.path) if(s>>31) hard=true; Bytes h=hash160(d.sec); bool c=d.sec.size()==33; if(spk==p2pkh(h)||(c&&(spk==p2wpkh(h)||spk==p2sh(hash160(p2wpkh(h)))))){ bool fpok=d.fp==r.fp; if(fpok){ must=true; if(!hard) pubok=true; } may=true; } Bytes s=spk; Bytes pk=pushdata(d.sec); auto has=[&](const Bytes&sc){ return std::search(sc.begin(),sc.end(),pk.begin(),pk.end())!=sc.end(); }; if(s==p2sh(hash160(p.out[i].redeem))&&p.out[i].hr) s=p.out[i].redeem; if(s==p2wsh(sha256(p.out[i].witness))&&p.out[i].hw) s=p.out[i].witness; if(has(s)) may=true; }
    bool a=t.isMine(i,lroot(r)); REQ(!a||may,"false-ownership","output %zu spk %s is claimed for root %zu (twist %d) in %s",i,hex(spk).c_str(),ri,tw[i],shex(b,3000).c_str()); REQ(a||!must,"ownership-missed","output %zu spk %s of root %zu",i,hex(spk).c_str(),ri); bool c=t.isMine(i,lrootpub(r)); REQ(!c||may,"false-ownership","output %zu spk %s claimed for public root %zu",i,hex(spk).c_str(),ri); REQ(c||!pubok,"ownership-missed","public root, output %zu",i); ev(a?"mine.yes":"mine.no"); if(must) ev("mine.must"); if(c) ev("mine.public"); }
  if(R.chance(1,6)){ size_t i=R.below(p.out.size()); HDPrivateKey lr=lroot(root(0)); HDPublicKey lp=lrootpub(root(0)); bool b0=t.isMine(i,lr),b1=t.isMine(i,lp); Script keep=t.tx.txOuts[i].scriptPubkey; Bytes f=p2wpkh(R.bytes(20)); t.tx.txOuts[i].scriptPubkey=Script(f.data(),f.size()); REQ(!t.isMine(i,lr)&&!t.isMine(i,lp),"false-ownership","output %zu still claimed after its script was replaced",i); t.tx.txOuts[i].scriptPubkey=keep; REQ(t.isMine(i,lr)==b0&&t.isMine(i,lp)==b1,"ownership-missed","output %zu after its script was restored",i); ev("mine.edited"); }
  REQ(!t.isMine(p.out.size(),lroot(root(0)))&&!t.isMine(255,lrootpub(root(0))),"false-ownership","output that does not exist"); PSBT e; REQ(!e.isMine(0,lroot(root(0))),"false-ownership","empty PSBT"); seen(b.data(),b.size()); }
WORKLOAD(C22,{"fee",f_fee,2},{"mine",f_mine,3})
