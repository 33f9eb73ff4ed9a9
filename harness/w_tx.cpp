// C16 transactions, C19 signature hashes and input signing
#include "gen.h"
using namespace ref;
static void ids(const Tx&t,const TX&m,const char*how){ Bytes id=txid_raw(m),w=wtxid_raw(m); uint8_t h[32]; 
  REQ(t.hash(h)==32&&Bytes(h,h+32)==id,"wrong-id","%s: hash",how); REQ(t.txid(h)==32&&Bytes(h,h+32)==rev(id),"wrong-id","%s: txid(buf)",how); REQ(t.txid()==hex(rev(id)),"wrong-id","%s: txid %s want %s",how,t.txid().c_str(),hex(rev(id)).c_str()); REQ(t.wtxid(h)==32&&Bytes(h,h+32)==rev(w),"wrong-id","%s: wtxid(buf)",how); REQ(t.wtxid()==hex(rev(w)),"wrong-id","%s: wtxid %s want %s (segwit %d)",how,t.wtxid().c_str(),hex(rev(w)).c_str(),(int)m.segwit()); if(m.segwit()) REQ(t.whash(h)==32&&Bytes(h,h+32)==w,"wrong-id","%s: whash",how); ev("ids"); }
static void full(const Tx&t,const TX&m,const char*how){ std::string why; Bytes b=tx_ser(m); REQ(same_tx(t,m,why),"wrong-field","%s: %s differs, tx %s",how,why.c_str(),shex(b).c_str()); REQ(t.length()==b.size(),"wrong-length","%s: length() %zu, serialized %zu",how,t.length(),b.size()); REQ(ser(t)==b,"wrong-serialization","%s: %s want %s",how,shex(ser(t)).c_str(),shex(b).c_str()); REQ(t.isSegwit()==m.segwit(),"segwit-flag","%s",how); ids(t,m,how); }
static void t_parse(uint64_t n){ TX m=rtx(); Bytes b=tx_ser(m); Tx t; bool hx=R.chance(1,2); if(R.chance(1,3)){ TX o=rtx(); feed(t,tx_ser(o),R.chance(1,2)); ev("reused"); } size_t l=feed(t,b,hx); REQ(t.getStatus()==PARSING_DONE,"refused","%s status %d",shex(b).c_str(),t.getStatus()); REQ(l==b.size(),"consumed","%zu of %zu",l,b.size()); REQ(t.isValid()&&(bool)t,"refused","not valid"); full(t,m,"parsed"); REQ(t.toString()==hex(b),"wrong-serialization","toString"); REQ(t.serialize()==hex(b),"wrong-serialization","serialize()");
  if(R.chance(1,4)){ Tx u; Bytes c=b; app(c,R.bytes(1+R.below(20))); l=feed(u,c,hx); REQ(u.getStatus()==PARSING_DONE&&l==b.size(),"consumed","with trailing bytes: %zu of %zu status %d",l,b.size(),u.getStatus()); full(u,m,"parsed with trailing bytes"); }
  if(R.chance(1,4)){ Tx u; l=u.parse(hex(b)); REQ(u.getStatus()==PARSING_DONE&&l==b.size(),"consumed","std::string"); full(u,m,"parsed std::string"); }
  ev("parsed"); if(m.segwit()) ev("parsed.segwit"); if(m.in.size()>100||m.out.size()>100) ev("parsed.many"); seen(b.data(),b.size()); if(n<2) sample("%s -> txid %s",shex(b,120).c_str(),t.txid().c_str()); }
static void t_build(uint64_t n){ TX m=rtx(); Tx t; t.version=m.ver; t.locktime=m.lock; bool outs_first=R.chance(1,4); auto ao=[&]{ for(size_t i=0;i<m.out.size();i++){ uint8_t r=t.addOutput(lout(m.out[i])); REQ(r==(uint8_t)(i+1),"count","addOutput returned %d",r); } }; if(outs_first) ao(); for(size_t i=0;i<m.in.size();i++){ TIn&x=m.in[i]; uint8_t r; if(x.ss.empty()&&x.wit.empty()&&R.chance(1,2)){ Bytes id=rev(x.prev); TxIn q=R.chance(1,2)?TxIn(id.data(),x.n,x.seq):TxIn(XStr(hex(id)),x.n,x.seq); if(x.seq==0xffffffffu&&R.chance(1,2)) q=TxIn(id.data(),x.n); r=t.addInput(q); } else r=t.addInput(lin(x)); REQ(r==(uint8_t)(i+1),"count","addInput returned %d",r); } if(!outs_first) ao(); full(t,m,"built"); 
  Tx u; Bytes b=tx_ser(m); feed(u,ser(t),false); REQ(u.getStatus()==PARSING_DONE,"refused","own serialization"); full(u,m,"reparsed");
  // edits after the fact
  for(int e=0;e<3;e++){ switch(R.below(6)){ case 0: m.lock=t.locktime=eu32(); break; case 1: m.ver=t.version=eu32(); break; case 2: if(m.out.size()){ size_t i=R.below(m.out.size()); m.out[i].amt=t.txOuts[i].amount=eu64(); } break; case 3: { size_t i=R.below(m.in.size()); m.in[i].seq=t.txIns[i].sequence=eu32(); break; } case 4: { size_t i=R.below(m.in.size()); m.in[i].wit.clear(); size_t k=R.below(3); for(size_t j=0;j<k;j++) m.in[i].wit.push_back(rwit(0)); t.txIns[i].witness=lwit(m.in[i].wit); break; } default: if(m.out.size()<252){ TOut o{eu64(),rscript()}; m.out.push_back(o); t.addOutput(lout(o)); } } full(t,m,"edited"); } ev("built"); seen(b.data(),b.size()); }
static void t_odd(uint64_t n){ // more than 252 inputs or outputs; previous id of wrong size
  TX m=rtx(true,0); bool in=R.chance(1,2); size_t k=253+R.below(50); while(in?m.in.size()<k:m.out.size()<k){ if(in){ TIn x; x.prev=R.bytes(32); x.n=R.below(3); x.seq=eu32(); m.in.push_back(x); } else m.out.push_back({eamount(),R.bytes(R.below(5))}); } Bytes b=tx_ser(m); Tx t; size_t l=feed(t,b,R.chance(1,2)); (void)l; if(t.getStatus()==PARSING_DONE) full(t,m,"parsed"); else ev("many.refused"); Tx q=ltx(m); REQ(q.length()==b.size()&&ser(q)==b,"wrong-serialization","%zu inputs %zu outputs",m.in.size(),m.out.size()); ids(q,m,"many"); ev("many"); }
// one of the length prefixes in a longer than necessary form
static Bytes tx_long(const TX&t,bool wit){ size_t cnt=2+t.in.size()+t.out.size(); if(wit) for(auto&i:t.in) cnt+=1+i.wit.size(); size_t pick=R.below(cnt); auto vi=[&](uint64_t v){ if(pick--) return varint(v); Bytes o; int k=v<0xfd?R.below(3):v<0x10000?1+R.below(2):2; o.push_back(0xfd+k); le(o,v,2<<k); return o; }; auto vs=[&](const Bytes&x){ return cat(vi(x.size()),x); };
  Bytes o; le(o,t.ver,4); if(wit){ o.push_back(0); o.push_back(1); } app(o,vi(t.in.size())); for(auto&i:t.in){ app(o,i.prev); le(o,i.n,4); app(o,vs(i.ss)); le(o,i.seq,4); } app(o,vi(t.out.size())); for(auto&x:t.out){ le(o,x.amt,8); app(o,vs(x.spk)); } if(wit) for(auto&i:t.in){ app(o,vi(i.wit.size())); for(auto&e:i.wit) app(o,vs(e)); } le(o,t.lock,4); return o; }
static void t_bad(uint64_t n){ TX m=rtx(true,R.chance(1,12)?1:0); Bytes b=tx_ser(m); switch(R.below(7)){ case 5: b=tx_long(m,m.segwit()); ev("bad.longform"); break; case 0: b.resize(R.below(b.size())); break; case 1: { size_t i=R.below(b.size()); b[i]=R.chance(1,2)?R.u32():(uint8_t)(0xfc+R.below(4)); break; } case 2: { size_t i=R.below(b.size()); b.insert(b.begin()+i,R.u32()); break; } case 3: { size_t i=R.below(b.size()); b.erase(b.begin()+i); break; } case 4: { size_t i=4+R.below(std::min<size_t>(b.size()-4,60)); b[i]=R.chance(1,2)?0:R.u32(); break; } default: b=mutate(b); }
  if(R.chance(1,6)) app(b,R.bytes(R.below(40))); TX w; size_t used=0; bool ok=tx_parse(b,w,&used); Tx t; if(R.chance(1,4)) feed(t,tx_ser(rtx(true,0)),false); size_t l=feed(t,b,R.chance(1,2)); 
  if(t.getStatus()==PARSING_DONE&&t.inputsNumber+t.outputsNumber+l>0){ REQ(ok,"malformed-accepted","%s reported complete after %zu bytes",hex(b).c_str(),l); std::string why; REQ(l==used,"consumed","%zu want %zu of %s",l,used,shex(b,600).c_str()); REQ(same_tx(t,w,why),"wrong-field","%s differs for %s",why.c_str(),shex(b,600).c_str()); REQ(t.length()==tx_ser(w).size()&&ser(t)==tx_ser(w),"wrong-serialization","%s",shex(b,600).c_str()); ev("bad.stillvalid"); }
  else { bool must=ok&&w.in.size()&&w.in.size()<=252&&w.out.size()<=252&&(w.segwit()||used==tx_ser(w).size()); for(auto&i:w.in) if(i.wit.size()>60000) must=false; if(must) REQ(false,"refused","well-formed %s refused, status %d",shex(b,600).c_str(),t.getStatus()); ev(t.getStatus()==PARSING_FAILED?"bad.failed":"bad.incomplete"); } seen(b.data(),b.size()); }
static void t_parts(uint64_t n){ TX m=rtx(false,0); std::string why; bool hx=R.chance(1,2); { TIn&x=m.in[0]; Bytes b=x.prev; le(b,x.n,4); app(b,varstr(x.ss)); le(b,x.seq,4); TxIn i; if(R.chance(1,2)){ TIn y=rtx(true,0).in[0]; i=lin(y); } size_t l=feed(i,b,hx); REQ(i.getStatus()==PARSING_DONE&&l==b.size(),"refused","input %s",shex(b).c_str()); x.wit.clear(); REQ(same_in(i,x,why),"wrong-field","input: %s",why.c_str()); REQ(i.length()==b.size()&&ser(i)==b&&i.toString()==hex(b),"wrong-serialization","input %s",shex(b).c_str()); TxIn c=lin(x); REQ(ser(c)==b,"wrong-serialization","built input"); }
  if(m.out.size()){ TOut&o=m.out[0]; Bytes b; le(b,o.amt,8); app(b,varstr(o.spk)); TxOut i; if(R.chance(1,2)) i=lout({eu64(),rscript()}); size_t l=feed(i,b,hx); REQ(i.getStatus()==PARSING_DONE&&l==b.size(),"refused","output %s",shex(b).c_str()); REQ(same_out(i,o,why),"wrong-field","output: %s",why.c_str()); REQ(i.length()==b.size()&&ser(i)==b,"wrong-serialization","output %s",shex(b).c_str()); REQ(ser(lout(o))==b,"wrong-serialization","built output"); REQ(i.btcAmount()==(float)o.amt/1e8f||i.btcAmount()==(float)((float)o.amt/1e8),"wrong-field","btcAmount %g",i.btcAmount()); }
  // bad previous ids never give an input that points somewhere made up
  { Bytes id=R.bytes(32); std::string h=hex(id); h=h.substr(0,R.below(64)); TxIn i(XStr(h),3,7); TxIn j(XStr(h),3,Script(),7); static const Bytes z(32,0); REQ(Bytes(i.hash,i.hash+32)==z&&Bytes(j.hash,j.hash+32)==z,"made-up-id","'%s'",h.c_str()); ser(i); ser(j); } ev("parts"); }
WORKLOAD(C16,{"parse",t_parse,6},{"build",t_build,4},{"malformed",t_bad,10},{"parts",t_parts,3},{"many",t_odd,1})
// ---------------------------------------------------------------- C19
static const uint32_t ST[3]={1,2,3};
static void bulk(TX&m){ bool in=R.chance(1,2); size_t k=250+R.below(8)+(R.chance(1,4)?R.below(60):0); while(in?m.in.size()<k:m.out.size()<k){ if(in){ TIn x; x.prev=R.bytes(32); x.n=R.below(3); x.seq=eu32(); m.in.push_back(x); } else m.out.push_back({eamount(),R.bytes(R.below(5))}); } ev("digests.bulk"); }
// one field changed in place
static void touch(TX&m,Tx&t){ size_t i=R.below(m.in.size()),o=m.out.size()?R.below(m.out.size()):0; switch(R.below(m.out.size()?8:5)){ case 0: m.ver=t.version=eu32(); break; case 1: m.lock=t.locktime=eu32(); break; case 2: m.in[i].seq=t.txIns[i].sequence=m.in[i].seq^(1u<<R.below(32)); break; case 3: m.in[i].n=t.txIns[i].outputIndex=m.in[i].n^(1u<<R.below(32)); break; case 4: { size_t b=R.below(32); t.txIns[i].hash[b]=m.in[i].prev[b]^=1<<R.below(8); break; } case 5: case 6: m.out[o].amt=t.txOuts[o].amount=m.out[o].amt^(1ull<<R.below(64)); break; default: m.out[o].spk=rscript(); t.txOuts[o].scriptPubkey=rawscript(m.out[o].spk); } }
static void g_hash(uint64_t n){ TX m=rtx(); if(R.chance(1,64)) bulk(m); Tx t=ltx(m); if(R.chance(1,2)){ Tx u; feed(u,tx_ser(m),false); if(u.getStatus()==PARSING_DONE) t=u; } Bytes before=ser(t); for(int k=0;k<3;k++){ if(k&&R.chance(1,2)){ touch(m,t); before=ser(t); ev("digests.edited"); } size_t i=R.below(m.in.size()); uint32_t ty=ST[R.chance(1,2)?0:R.below(3)]; Bytes code=R.chance(1,8)?R.bytes(elen(1000)):rscript(); 
    { Bytes c2; for(size_t p=0;p<code.size();){ uint8_t op=code[p]; size_t l=1; if(op<=75) l+=op; else if(op==76) l+=1+(p+1<code.size()?code[p+1]:0); else if(op==77) l+=2+(p+2<code.size()?code[p+1]+256*code[p+2]:0); else if(op==78) { l=code.size(); } if(op==0xab) code[p]=0xac; p+=l; } } // OP_CODESEPARATOR is out of scope
    Script s=rawscript(code); uint8_t h[32]; int r=ty==1&&R.chance(1,2)?t.sigHash(h,i,s):t.sigHash(h,i,s,(SigHashType)ty); Bytes w=sighash_legacy(m,i,code,ty); REQ(r==32&&Bytes(h,h+32)==w,"legacy-sighash","type %u input %zu of %zu (outputs %zu): %s want %s",ty,i,m.in.size(),m.out.size(),hex(h,32).c_str(),hex(w).c_str()); uint64_t a=eu64(); r=ty==1&&R.chance(1,2)?t.sigHashSegwit(h,i,s,a):t.sigHashSegwit(h,i,s,a,(SigHashType)ty); w=sighash_v0(m,i,code,a,ty); REQ(r==32&&Bytes(h,h+32)==w,"segwit-sighash","type %u input %zu of %zu (outputs %zu) amount %llu: %s want %s",ty,i,m.in.size(),m.out.size(),(unsigned long long)a,hex(h,32).c_str(),hex(w).c_str()); ev("digests",2); ev(ty==1?"type.all":ty==2?"type.none":"type.single"); seen(h,32); }
  for(int rep=0;rep<2;rep++){ if(rep){ touch(m,t); before=ser(t); } Bytes pv,sq,ou; for(auto&i:m.in){ app(pv,i.prev); le(pv,i.n,4); le(sq,i.seq,4); } for(auto&o:m.out){ le(ou,o.amt,8); app(ou,varstr(o.spk)); } uint8_t h[32]; t.hashPrevouts(h); REQ(Bytes(h,h+32)==dsha(pv),"midstate","prevouts"); t.hashSequence(h); REQ(Bytes(h,h+32)==dsha(sq),"midstate","sequence"); t.hashOutputs(h); REQ(Bytes(h,h+32)==dsha(ou),"midstate","outputs"); REQ(ser(t)==before,"tx-changed","computing digests changed the transaction"); } if(n<1) sample("tx %s",shex(before,120).c_str()); }
static bool onesig(const Bytes&pushed,const KP&k,const Bytes&dig,uint32_t ty,std::string&why){ if(pushed.empty()||pushed.back()!=ty){ why="sighash type byte"; return false; } Bytes r,s; if(!understrict(Bytes(pushed.begin(),pushed.end()-1),r,s)){ why="not strict DER"; return false; } U256 rr=u256(r.data()),ss=u256(s.data()); if(!ecdsa_verify(k.P,dig,rr,ss)){ why="signature does not verify for the digest"; return false; } if(cmp(ss,NHALF)>0){ why="high S"; return false; } return true; }
static bool elems(const Bytes&s,std::vector<Bytes>&v){ size_t p=0; v.clear(); while(p<s.size()){ size_t op=s[p++],l; if(op<=75) l=op; else if(op==76){ if(p>=s.size()) return false; l=s[p++]; } else if(op==77){ if(p+1>=s.size()) return false; l=s[p]+256*s[p+1]; p+=2; } else return false; if(p+l>s.size()) return false; v.push_back(Bytes(s.begin()+p,s.begin()+p+l)); p+=l; } return true; }
static void g_sign(uint64_t n){ TX m=rtx(true,R.chance(1,10)?1:0); if(R.chance(1,2)) for(auto&i:m.in){ i.ss.clear(); i.wit.clear(); } if(m.out.empty()&&R.chance(1,2)) m.out.push_back({5,rscript()}); if(R.chance(1,80)) bulk(m); Tx t=ltx(m); size_t rounds=1+R.below(2);
  for(size_t q=0;q<rounds;q++){ size_t i=R.below(m.in.size()); const KP&k=rkey(); bool seg=R.chance(1,2); bool comp=seg||R.chance(3,4); PrivateKey pk=lpriv(k,comp); Bytes se=comp?k.s33:k.s65; uint64_t amt=eu64(); uint32_t ty=ST[R.chance(2,3)?0:R.below(3)]; std::vector<Bytes> stack; std::string why; Signature sg; Bytes code,dig; TX exp=m; int mode;
    if(!seg){ mode=R.below(3); if(mode==0){ sg=t.signInput(i,pk); ty=1; code=p2pkh(hash160(se)); } else if(mode==1){ code=p2pkh(hash160(se)); sg=t.signInput(i,pk,rawscript(code),(SigHashType)ty); } else { code=Bytes{0x04}; app(code,R.bytes(4)); code.push_back(0xb1); code.push_back(0x75); app(code,pushdata(se)); code.push_back(0xac); sg=t.signInput(i,pk,rawscript(code),(SigHashType)ty); }
      dig=sighash_legacy(m,i,code,ty); Bytes ss=sbytes(t.txIns[i].scriptSig); REQ(elems(ss,stack)&&stack.size()==(mode==2?3:2),"scriptsig-form","mode %d: %s",mode,hex(ss).c_str()); REQ(onesig(stack[0],k,dig,ty,why),"bad-signature","legacy mode %d type %u: %s",mode,ty,why.c_str()); REQ(stack[1]==se,"wrong-key","scriptSig carries %s",hex(stack[1]).c_str()); if(mode==2) REQ(stack[2]==code,"wrong-script","redeem script in scriptSig"); Bytes want; for(auto&e:stack) app(want,pushdata(e)); REQ(ss==want,"scriptsig-form","not minimal pushes: %s",hex(ss).c_str()); exp.in[i].ss=ss; if(exp.in[i].wit.size()&&!t.txIns[i].witness.count()) exp.in[i].wit.clear(); ev("sign.legacy"); }
    else { mode=R.below(4); Bytes h=hash160(k.s33); Bytes ss; if(mode<2){ code=p2pkh(h); if(R.chance(1,2)){ sg=t.signSegwitInput(i,pk,amt,mode?P2SH_P2WPKH:P2WPKH); ty=1; } else sg=t.signSegwitInput(i,pk,rawscript(p2wpkh(h)),amt,mode?P2SH_P2WPKH:P2WPKH,(SigHashType)ty); if(mode) ss=pushdata(p2wpkh(h)); }
      else { code=Bytes{0x04}; app(code,R.bytes(4)); code.push_back(0xb1); code.push_back(0x75); app(code,pushdata(k.s33)); code.push_back(0xac); if(mode==2&&ty==1&&R.chance(1,2)) sg=t.signSegwitInput(i,pk,rawscript(code),amt); else sg=t.signSegwitInput(i,pk,rawscript(code),amt,mode==3?P2SH_P2WSH:P2WSH,(SigHashType)ty); if(mode==3) ss=pushdata(p2wsh(sha256(code))); }
      dig=sighash_v0(m,i,code,amt,ty); Bytes wb=ser(t.txIns[i].witness); TX x=m; Bytes chk; { size_t p=0; stack.clear(); if(wb.size()&&wb[0]<10){ size_t c=wb[p++]; for(size_t j=0;j<c&&p<wb.size();j++){ size_t l=wb[p++]; if(l>=0xfd||p+l>wb.size()) break; stack.push_back(Bytes(wb.begin()+p,wb.begin()+p+l)); p+=l; } } } REQ(stack.size()==(mode<2?2u:3u)&&witser(stack)==wb,"witness-form","mode %d: %s",mode,hex(wb).c_str()); REQ(onesig(stack[0],k,dig,ty,why),"bad-signature","segwit mode %d type %u amount %llu: %s",mode,ty,(unsigned long long)amt,why.c_str()); REQ(stack[1]==k.s33,"wrong-key","witness"); if(mode>=2) REQ(stack[2]==code,"wrong-script","witness script"); Bytes gs=sbytes(t.txIns[i].scriptSig); REQ(gs==ss,"scriptsig-form","mode %d: %s want %s",mode,hex(gs).c_str(),hex(ss).c_str()); exp.in[i].ss=ss; exp.in[i].wit=stack; ev("sign.segwit"); }
    Bytes d=ser(sg); Bytes st(stack[0].begin(),stack[0].end()-1); REQ(d==st,"returned-signature","returned %s placed %s",hex(d).c_str(),hex(st).c_str()); REQ(same_tx(t,exp,why),"tx-changed","signing input %zu changed %s",i,why.c_str()); m=exp; ev(ty==1?"type.all":ty==2?"type.none":"type.single"); seen(dig.data(),32); }
  Tx u; Bytes b=ser(t); REQ(b==tx_ser(m),"tx-changed","serialization"); feed(u,b,false); if(m.in.size()<253&&m.out.size()<253) REQ(u.getStatus()==PARSING_DONE,"unparsable","signed tx"); }
static void g_range(uint64_t n){ TX m=rtx(true,0); Tx t=ltx(m); Bytes b=ser(t); size_t i=m.in.size()+R.below(256-m.in.size()); if(R.chance(1,3)) i=((size_t)1<<(8*(1+R.below(2))))+R.below(m.in.size()+1); uint8_t h[32]; Script s=rawscript(rscript()); const KP&k=rkey(); PrivateKey pk=lpriv(k); int a=t.sigHash(h,i,s); int c=t.sigHashSegwit(h,i,s,5); (void)a;(void)c; t.signInput(i,pk); t.signSegwitInput(i,pk,7); t.signInput(i,pk,s,SIGHASH_SINGLE); t.signSegwitInput(i,pk,s,7,P2SH_P2WSH); REQ(ser(t)==b,"tx-changed","signing input %zu of %zu",i,m.in.size()); Tx e; e.signInput(0,pk); e.sigHash(h,0,s); ev("out-of-range"); }
WORKLOAD(C19,{"digest",g_hash,6},{"sign",g_sign,4},{"range",g_range,1})
