// C24 copies are independent and equal, C25 memory is released, C26 refused allocations are survived
#include "any.h"
#include "Conversion.h"
using namespace ref;
static std::vector<size_t> cuts(size_t n){ std::vector<size_t> c; size_t p=0,m=1+R.below(R.chance(1,3)?3:R.chance(1,2)?40:n+1); while(p<n){ size_t l=std::min<size_t>(n-p,1+R.below(m)); c.push_back(l); p+=l; } return c; }
// bring an object into one of the states a user can reach; returns the unread rest of valid input, if any
static Bytes drive(int k,Obj&o){ Bytes rest; for(int t=1+R.below(3);t--;){ rest.clear(); Bytes b=agen(k); switch(R.below(8)){ case 0: break; case 1: case 2: { size_t a=R.below(b.size()+1); if(o.s().getStatus()==PARSING_FAILED) o.s().reset(); feedp(o.s(),b.data(),a,false); rest.assign(b.begin()+a,b.end()); return rest; } case 3: b=mutate(b); feedp(o.s(),b.data(),b.size(),R.chance(1,4)); break; case 4: b.resize(R.below(b.size()+1)); feedp(o.s(),b.data(),b.size(),false); if(R.chance(1,2)) o.s().reset(); break; default: feedp(o.s(),b.data(),b.size(),R.chance(1,4)); if(R.chance(1,2)) o.mut(); } } return rest; }
static Bytes full(Obj&o){ Dump d; d.v(o.state()).u(o.s().getStatus()); return d.b; }
// a pool of objects of one class with copies, assignments, changes and destructions; every object not named by an operation keeps its state
static void l_pool(uint64_t n){ int k=akind(n); std::vector<Obj*> v; std::vector<Bytes> w; struct Cl{ std::vector<Obj*>&v; ~Cl(){ for(auto*o:v) delete o; } } cl{v}; v.push_back(anew(k)); drive(k,*v[0]); w.push_back(full(*v[0])); int steps=3+R.below(8); for(int t=0;t<steps;t++){ size_t i=v.empty()?0:R.below(v.size()); if(v.empty()) break; const char*what="";
    switch(R.below(8)){ case 0: case 1: what="copy"; v.push_back(v[i]->clone()); w.push_back(w[i]); break; case 2: { what="assignment"; size_t j=R.below(v.size()); v[j]->assign(*v[i]); w[j]=w[i]; if(i==j) ev("self-assignment"); break; } case 3: what="assignment to itself"; v[i]->assign(*v[i]); ev("self-assignment"); break; case 4: what="change"; v[i]->mut(); w[i]=full(*v[i]); break; case 5: what="parsing"; drive(k,*v[i]); w[i]=full(*v[i]); break; case 6: if(v.size()>1){ what="destruction"; delete v[i]; v.erase(v.begin()+i); w.erase(w.begin()+i); break; } default: { what="assignment to a used object"; Obj*o=anew(k); drive(k,*o); o->assign(*v[i]); v.push_back(o); w.push_back(w[i]); } }
    for(size_t j=0;j<v.size();j++){ Bytes g=full(*v[j]); REQ(g==w[j],"not-independent","%s: after %s (step %d) object %zu of %zu (operand %zu) is not as expected",ANAME[k],what,t,j,v.size(),i); ev("states"); } ev(what); } ev(ANAME[k]); seen(w[0].data(),w[0].size()); if(n<2) sample("%s: %d steps, %zu objects alive",ANAME[k],steps,v.size()); }
// a copy taken in the middle of parsing continues like the original
static void l_cont(uint64_t n){ int k=akind(n); Bytes b=agen(k); bool bad=R.chance(1,4); if(bad) b=mutate(b); if(b.empty()) return; size_t a=R.below(b.size()+1); bool hx=R.chance(1,4); OP o(anew(k)); { size_t p=0; for(size_t l:cuts(a)){ feedp(o->s(),b.data()+p,l,hx); p+=l; if(o->s().getStatus()!=PARSING_INCOMPLETE) a=b.size(); if(a==b.size()&&p<b.size()&&o->s().getStatus()!=PARSING_INCOMPLETE) break; } }
  OP c(R.chance(1,2)?o->clone():anew(k)); if(R.chance(1,2)){ Obj*u=anew(k); drive(k,*u); c.set(u); c->assign(*o); ev("assigned-midway"); } else if(R.chance(1,3)){ c.set(o->clone()); c->assign(*c); } else c.set(o->clone()); if(R.chance(1,6)){ OP d(c->clone()); c.set(d->clone()); }
  int who=R.below(3); OP w(anew(k)); // 0: only the copy goes on, the original is destroyed; 1: both go on in turn; 2: copy first, then original
  if(who==0) o.set(anew(k)); size_t pc=a,po=a; auto step=[&](Obj&x,size_t&p){ size_t l=std::min(b.size()-p,1+R.below(R.chance(1,2)?9:b.size()-p+1)); size_t r=feedp(x.s(),b.data()+p,l,hx); p+=l; return r; };
  bool st=true; while(pc<b.size()||(who==1&&po<b.size())){ if(pc<b.size()&&(who!=1||R.chance(1,2))){ if(c->s().getStatus()==PARSING_INCOMPLETE||pc==0) step(*c,pc); else pc=b.size(); } else if(who==1&&po<b.size()){ if(o->s().getStatus()==PARSING_INCOMPLETE||po==0) step(*o,po); else po=b.size(); } }
  if(who==2){ while(po<b.size()){ if(o->s().getStatus()==PARSING_INCOMPLETE||po==0) step(*o,po); else po=b.size(); } } (void)st;
  feedp(w->s(),b.data(),b.size(),hx); parse_status sw=w->s().getStatus(); REQ(c->s().getStatus()==sw,"copy-parses-differently","%s copied after %zu of %zu bytes: status %d, in one piece %d: %s",ANAME[k],a,b.size(),c->s().getStatus(),sw,shex(b,900).c_str()); if(sw==PARSING_DONE) REQ(c->state()==w->state(),"copy-parses-differently","%s copied after %zu of %zu bytes ends up different: %s",ANAME[k],a,b.size(),shex(b,900).c_str());
  if(who){ REQ(o->s().getStatus()==sw,"original-disturbed","%s: original status %d after being copied at %zu of %zu, want %d",ANAME[k],o->s().getStatus(),a,b.size(),sw); if(sw==PARSING_DONE) REQ(o->state()==w->state(),"original-disturbed","%s: original differs after being copied at %zu of %zu",ANAME[k],a,b.size()); } ev(ANAME[k]); ev(bad?"continued-damaged":"continued"); seen(hash64(b.data(),b.size())^a); }
// copies through containers, arguments, return values and base classes
template<class T> static Bytes st1(const T&o){ Dump d; dump(d,o); return d.b; }
template<class T> static T pass(T x){ mut(x); T y=x; mut(x); return y; }
template<class T> static void l_vec(int k){ T a; { ObjT<T> o; for(int t=0;t<4;t++){ Bytes b=agen(k); feedp(o.s(),b.data(),b.size(),false); if(o.s().getStatus()==PARSING_DONE) break; } if(R.chance(1,3)) o.mut(); a=o.o; } Bytes w=st1(a); std::vector<T> v; size_t m=2+R.below(5); for(size_t i=0;i<m;i++) v.push_back(a); { Rng s=R; pass(a); R=s; } REQ(st1(a)==w,"not-independent","%s passed by value and changed inside",ANAME[k]); size_t q=R.below(m); mut(v[q]); Bytes wq=st1(v[q]); size_t e=R.below(m); v.erase(v.begin()+e); for(size_t i=0;i<v.size();i++){ size_t orig=i<e?i:i+1; REQ(st1(v[i])==(orig==q?wq:w),"not-independent","%s in a vector, element %zu of %zu after removing %zu (changed %zu)",ANAME[k],i,m,e,q); } v.insert(v.begin(),v.back()); std::swap(v[0],v[v.size()-1]); T z(v[0]); v.clear(); v.shrink_to_fit(); Bytes wz=st1(z); T y; y=z; mut(z); REQ(st1(y)==wz,"not-independent","%s: copy of a vector element",ANAME[k]); REQ(wz==w||wz==wq,"not-independent","%s: value survived the vector",ANAME[k]); ev("containers"); ev(ANAME[k]); }
static void l_cont2(uint64_t n){ switch(n%15){ case 0: l_vec<ECPoint>(A_POINT); break; case 1: l_vec<PublicKey>(A_PUB); break; case 2: l_vec<ECScalar>(A_SCALAR); break; case 3: l_vec<PrivateKey>(A_PRIV); break; case 4: l_vec<HDPrivateKey>(A_XPRV); break; case 5: l_vec<HDPublicKey>(A_XPUB); break; case 6: l_vec<Signature>(A_SIG); break; case 7: l_vec<SchnorrSignature>(A_SCHNORR); break; case 8: l_vec<Script>(A_SCRIPT); break; case 9: l_vec<Witness>(A_WIT); break; case 10: l_vec<TxIn>(A_TXIN); break; case 11: l_vec<TxOut>(A_TXOUT); break; case 12: l_vec<Tx>(A_TX); break; case 13: l_vec<PSBT>(A_PSBT); break; default: l_vec<ElectrumTx>(A_ELEC); } }
// arguments that are part of the object itself
static void l_alias(uint64_t n){ switch(n%5){ case 0: { Bytes b=rscript(); if(b.empty()) b={1,2,3}; Script s=rawscript(b),t=rawscript(b); size_t r1=s.push(s),r2=t.push(rawscript(b)); REQ(sbytes(s)==sbytes(t)&&r1==r2,"aliasing","script pushed onto itself: %s, want %s",shex(sbytes(s)).c_str(),shex(sbytes(t)).c_str()); break; }
    case 1: { TX m=rtx(true,0); Tx t=ltx(m),u=ltx(m); size_t i=R.below(m.in.size()); for(int q=0;q<3;q++){ t.addInput(t.txIns[i]); u.addInput(lin(m.in[i])); if(m.out.size()){ t.addOutput(t.txOuts[0]); u.addOutput(lout(m.out[0])); } } REQ(ser(t)==ser(u),"aliasing","own input added again"); t.txIns[0]=t.txIns[i]; u.txIns[0]=lin(m.in[i]); REQ(ser(t)==ser(u),"aliasing","input assigned within one transaction"); break; }
    case 2: { Bytes b=agen(A_PSBT); PSBT p; feed(p,b,false); if(!p.tx.inputsNumber) break; Bytes w=st1(p); Tx t=p.tx; Bytes wt=st1(t); t=t; p.tx=p.tx; REQ(st1(p)==w&&st1(t)==wt,"aliasing","psbt transaction assigned to itself"); mut(t); REQ(st1(p)==w,"not-independent","transaction copied out of a psbt"); p.txInsMeta[0].redeemScript=p.txInsMeta[0].redeemScript; p.txInsMeta[0].txOut=p.txInsMeta[0].txOut; REQ(st1(p)==w,"aliasing","psbt fields assigned to themselves"); p.tx.txIns[0].scriptSig=p.txInsMeta[0].txOut.scriptPubkey; Bytes spk=sbytes(p.txInsMeta[0].txOut.scriptPubkey); mut(p.tx.txIns[0].scriptSig); REQ(sbytes(p.txInsMeta[0].txOut.scriptPubkey)==spk,"not-independent","script copied between psbt fields"); break; }
    case 3: { const KP&k=rkey(); PrivateKey p=lpriv(k,R.chance(1,2),NETS[R.below(4)]); ECScalar s=p; PublicKey q=p.publicKey(); Bytes w=st1(p); Bytes x=b32(escalar()); s.setSecret(x.data()); mut(q); REQ(st1(p)==w,"not-independent","private key after changing its scalar and public key copies"); HDPrivateKey h=anyroot().child(R.below(9)); Bytes wh=st1(h); PrivateKey c=h; HDPublicKey hp=h.xpub(); PublicKey hq=hp; Bytes wq=st1(hp); mut(c); mut(hq); REQ(st1(h)==wh&&st1(hp)==wq,"not-independent","extended keys after changing plain copies"); h=HDPrivateKey(); REQ(st1(hp)==wq,"not-independent","public key after its private key is gone"); ECPoint a=lpub(k),b2=a; a+=a; a-=b2; REQ(a==b2,"aliasing","point plus itself minus the original"); ECScalar z=lpriv(k),z0=z; z+=z; z-=z0; REQ(z==z0,"aliasing","scalar plus itself minus the original"); break; }
    default: { Witness w=lwit({R.bytes(5),R.bytes(60)}); Bytes g=ser(w); TxIn i; i.witness=w; TxIn j(i); w.push(lscript({1,2,3})); REQ(ser(i.witness)==g&&ser(j.witness)==g,"not-independent","witness copies"); j.witness=j.witness; i=i; REQ(ser(i.witness)==g&&ser(j.witness)==g,"aliasing","witness assigned to itself"); Script s=lscript(rscript()); TxOut o(5,s); Bytes so=sbytes(o.scriptPubkey); mut(s); REQ(sbytes(o.scriptPubkey)==so,"not-independent","output script"); Script d(o.scriptPubkey,P2SH),e=o.scriptPubkey.scriptPubkey(P2SH); o.scriptPubkey=o.scriptPubkey; o.scriptPubkey=Script(o.scriptPubkey,P2SH); REQ(sbytes(o.scriptPubkey)==sbytes(d)&&d==e,"aliasing","script replaced by its own script hash"); } } ev("aliasing"); seen(R.u64()); }
WORKLOAD(C24,{"pool",l_pool,6},{"continue",l_cont,6},{"containers",l_cont2,3},{"aliasing",l_alias,2})
// ---------------------------------------------------------------- C25
static void m_parse(uint64_t n){ int k=akind(n); OP o(anew(k)); int t=1+R.below(5); while(t--){ Bytes b=agen(k); switch(R.below(5)){ case 0: b=mutate(b); break; case 1: b.resize(R.below(b.size()+1)); break; default:; } size_t p=0; if(R.chance(1,2)) feedp(o->s(),b.data(),b.size(),R.chance(1,2)); else for(size_t l:cuts(b.size())){ feedp(o->s(),b.data()+p,l,false); p+=l; } if(R.chance(1,3)) o->s().reset(); if(R.chance(1,3)){ Sink s; o->use(s); } if(R.chance(1,4)) o->mut(); if(R.chance(1,5)){ OP c(o->clone()); c->assign(*o); o->assign(*o); } ev("parses"); } ev(ANAME[k]); Bytes s=o->state(); seen(s.data(),s.size()); if(n<2) sample("%s parsed repeatedly",ANAME[k]); }
static void m_pool(uint64_t n){ l_pool(n); }
static void m_build(uint64_t n){ switch(n%4){ case 0: { TX m=rtx(true,R.below(2)); Tx t=ltx(m); for(size_t i=0;i<m.in.size()&&i<3;i++){ const KP&k=rkey(); if(R.chance(1,2)) t.signInput(i,lpriv(k)); else t.signSegwitInput(i,lpriv(k),eamount(),R.chance(1,2)?P2WPKH:P2SH_P2WPKH); } Tx u(t); u=t; t=Tx(); ev("built-tx"); break; } case 1: { std::vector<PublicKey> v; size_t q=1+R.below(15); for(size_t i=0;i<q;i++) v.push_back(lpub(rkey())); Script s=R.chance(1,2)?multi(1+R.below(q),v.data(),q):sortedmulti(1+R.below(q),v.data(),q); Script a=sh(s),b=wsh(s),c=sh(b); c.push(s); c.clear(); c=a; s=Script(R.chance(1,2)?"nonsense":segwit("bc",0,R.bytes(20)).c_str()); if(R.chance(1,6)){ Bytes g=varstr(R.bytes(9990+R.below(30))); Script big; feed(big,g,false); Witness w; w.push(c); w.push(big); w.push(c); Script d; d.push(big); d.push(c); c.push(big); TxOut o(1,big); TxIn in; in.scriptSig=big; in.witness=w; in.witness.push(big); ev("too-long"); } ev("built-script"); break; } case 2: { Bytes b=agen(A_PSBT); PSBT p; feed(p,b,false); for(int i=0;i<3;i++){ p.sign(anyroot()); if(R.chance(1,2)){ std::string s=p.toBase64(); PSBT q; q.parseBase64(R.chance(1,2)?s:mutate_text(s,"ABCDabcd0123+/=")); p=q; } Bytes kk=R.bytes(1+R.below(40)),vv=R.bytes(elen(300)); kk[0]=R.below(8); Script a=rawscript(kk),c=rawscript(vv); p.add(R.below(6),&a,&c); if(R.chance(1,2)&&p.tx.inputsNumber){ PSBT g; Bytes b2=agen(A_PSBT); feed(g,b2,false); p=g; } } ev("built-psbt"); break; } default: { ElectrumTx e; for(int i=0;i<3;i++){ Bytes b=agen(A_ELEC); if(R.chance(1,3)) b=mutate(b); feed(e,b,R.chance(1,2)); e.sign(anyacc()); ElectrumTx c(e); e=c; if(R.chance(1,3)) e.reset(); } ev("built-electrum"); } } seen(R.u64()); }
static std::string cs(const char*p){ return p?p:""; }
static void texts_all(Sink&k){ Bytes b=ebytes(elen(200)); std::string t; XBuf o(R.below(300)); switch(R.below(14)){ case 0: k.s(toHex(b.data(),b.size())); t=mutate_text(hex(b),"0123456789abcdefXYZ"); k.u(fromHex(t,o.p,o.n)); break; case 1: k.s(toBase58(b.data(),b.size())); t=mutate_text(base58(b),"123abcXYZ0OIl"); k.u(fromBase58(t,o.p,o.n)); break; case 2: k.s(toBase58Check(b.data(),b.size())); t=R.chance(1,2)?base58check(b):mutate_text(base58check(b),"123abcXYZ0OIl"); k.u(fromBase58Check(t,o.p,o.n)); break; case 3: k.s(toBase43(b.data(),b.size())); t=mutate_text(base43(b),"0123ABC$*+-./:xyz"); k.u(fromBase43(t,o.p,o.n)); break; case 4: { uint8_t f=R.below(4); k.s(toBase64(b.data(),b.size(),f)); t=mutate_text(base64(b,f&2,!(f&1)),"ABCabc012+/=-_ "); k.u(fromBase64(t,o.p,o.n,f)); k.s(base64ToHex(t,f)); k.s(hexToBase64(mutate_text(hex(b),"0123456789abcdefXYZ"),f)); break; } case 5: k.s(toBin(b.data(),b.size())); t=mutate_text(bin(b),"01 2"); k.u(fromBin(t,o.p,o.n)); break;
    case 6: { const KP&q=rkey(); PrivateKey p=lpriv(q,R.chance(1,2),NETS[R.below(4)]); t=p.wif(); k.s(t); PrivateKey z(R.chance(1,2)?t:mutate_text(t,"123abcXYZ")); k.s(z.wif()); k.s(z.address()); k.s(z.nestedSegwitAddress()); break; } case 7: { HDPrivateKey h=anyroot().child(R.below(5)); t=h.xprv(); k.s(t); HDPrivateKey z(XStr(R.chance(1,2)?t:mutate_text(t,"123abcXYZ"))); k.s(z.xprv()); t=h.xpub().xpub(); HDPublicKey y(XStr(R.chance(1,2)?t:mutate_text(t,"123abcXYZ"))); k.s(y.xpub()); k.s(y.address()); k.s(y.fingerprint()); break; } case 8: { HDPrivateKey c=anyroot().derive(XStr(R.chance(1,2)?"m/84h/1'/0H/1/2":mutate_text("m/84h/1'/0H/1/2/","m/'hH0123456789x "))); k.s(c.address()); HDPublicKey d=anypub().derive(XStr(R.chance(1,2)?"m/1/2":mutate_text("m/1/2/","m/'hH0123456789x "))); k.s(d.address()); break; } case 9: { Bytes e=ebytes(16+4*R.below(5)); t=mnemonic(e); k.u(checkMnemonic(t)); if(R.chance(1,2)) t=mutate_text(t,"abcdefghij klmnop"); k.u(checkMnemonic(t)); k.u(mnemonicToEntropy(t,o.p,o.n)); k.s(cs(generateMnemonic(12+3*R.below(5)))); k.s(cs(generateMnemonic((uint8_t)R.u32(),b.data(),b.size()))); k.s(cs(mnemonicFromEntropy(b.data(),b.size()))); break; } case 10: { Script s(XStr(R.chance(1,2)?segwit("tb",R.below(3),R.bytes(R.chance(1,2)?20:32)):mutate_text(base58check(R.bytes(21)),"123abcXYZ"))); k.v(sbytes(s)); k.s(s.address(NETS[R.below(4)])); break; } case 11: { t="wsh(multi(1,"+hex(rkey().s33)+"))"; k.s(descriptorChecksum(R.chance(1,2)?t:mutate_text(t,"abc()[]#\t"))); break; } case 12: { PublicKey p(XStr(mutate_text(hex(rkey().s33),"0123456789abcdef"))); k.s(p.address()); k.s(p.sec()); Signature g(XStr(mutate_text(hex(der(escalar(),escalar())),"0123456789abcdef"))); k.v(ser(g)); break; } default: { TX m=rtx(true,0); Tx x; t=hex(tx_ser(m)); if(R.chance(1,2)) t=mutate_text(t,"0123456789abcdef"); x.parse(XStr(t),t.size()); k.s(x.toString()); k.s(x.txid()); k.s(x.serialize((size_t)0,(size_t)0)); } } }
static void m_text(uint64_t n){ Sink k; int t=1+R.below(4); while(t--) texts_all(k); ev("conversions"); seen(k.h); }
WORKLOAD(C25,{"parse",m_parse,6},{"pool",m_pool,3},{"build",m_build,4},{"text",m_text,3})
// ---------------------------------------------------------------- C26
// runs f with the i-th C allocation refused, for every i (a sample when there are very many); then once more without refusal: the result is as before
template<class F> static void inject(const char*name,F f){ Rng r0=R,l0=LR; auto run=[&](uint64_t at,uint64_t&cnt)->uint64_t{ R=r0; LR=l0; g_rngcalls=0; AM.count=0; AM.failat=at; AM.hit=0; AM.on=true; Sink k; f(k); AM.on=false; cnt=AM.count; if(at&&AM.hit){ ev("refused"); ev(name); seen(hash64(name,strlen(name))^at*0x9e3779b97f4a7c15ull^k.h); } return k.h; };
  uint64_t c0,c1,want=run(0,c0); if(!c0) ev("no-allocation"); uint64_t step=1+c0/24; for(uint64_t i=1+R.below(step);i<=c0;i+=step){ uint64_t c; run(i,c); } uint64_t again=run(0,c1); REQ(again==want,"not-repeatable","%s: result differs after %llu allocations had been refused in turn",name,(unsigned long long)c0); ev("allocation-points",c0); }
static void f_parse(uint64_t n){ int k=akind(n); Bytes b=agen(k); if(b.size()>3000) return; bool hx=R.chance(1,4); inject(ANAME[k],[&](Sink&s){ OP o(anew(k)); if(R.chance(1,2)) feedp(o->s(),b.data(),b.size(),hx); else { size_t p=0; for(size_t l:cuts(b.size())){ feedp(o->s(),b.data()+p,l,hx); p+=l; } } s.u(o->s().getStatus()); if(R.chance(1,3)) o->use(s); if(R.chance(1,3)){ OP c(o->clone()); o->assign(*c); c->mut(); s.v(c->state()); } s.v(o->state()); }); 
  // the same object, after the refusal, can be reset and used again
  Rng r0=R; AM.count=0; AM.failat=0; AM.on=true; { OP o(anew(k)); feedp(o->s(),b.data(),b.size(),hx); } AM.on=false; uint64_t c0=AM.count; OP w(anew(k)); R=r0; feedp(w->s(),b.data(),b.size(),hx); Bytes want=w->state(); for(int t=0;t<6&&c0;t++){ OP o(anew(k)); R=r0; AM.count=0; AM.failat=1+(t*c0/6+n)%c0; AM.hit=0; AM.on=true; feedp(o->s(),b.data(),b.size(),hx); AM.on=false; if(!AM.hit) continue; ev("same-object"); R=r0; o->s().reset(); size_t r=feedp(o->s(),b.data(),b.size(),hx); REQ(r==b.size()&&o->s().getStatus()==PARSING_DONE&&o->state()==want,"not-repeatable","%s: reset and parsed again after allocation %llu of %llu had been refused: status %d: %s",ANAME[k],(unsigned long long)AM.failat,(unsigned long long)c0,o->s().getStatus(),shex(b,900).c_str()); } if(n<2) sample("%s: %llu allocations refused one at a time",ANAME[k],(unsigned long long)c0); }
static void f_copy(uint64_t n){ int k=akind(n); OP o(anew(k)); Bytes b=agen(k); if(b.size()>3000) return; feedp(o->s(),b.data(),b.size(),false); Bytes w=o->state(); inject("copying",[&](Sink&s){ OP c(o->clone()); OP d(anew(k)); Bytes g=agen(k); feedp(d->s(),g.data(),g.size(),false); d->assign(*o); d->assign(*c); c->assign(*c); s.v(c->state()); s.v(d->state()); d->mut(); s.v(d->state()); }); REQ(o->state()==w,"source-changed","%s changed by failing copies",ANAME[k]); }
static void f_text(uint64_t n){ inject("conversions",[&](Sink&s){ texts_all(s); }); }
static void f_use(uint64_t n){ int k=akind(n); Bytes b=agen(k); if(b.size()>3000) return; OP o(anew(k)); feedp(o->s(),b.data(),b.size(),false); inject("operations",[&](Sink&s){ OP c(o->fresh()); { bool a=AM.on; AM.on=false; c->assign(*o); AM.on=a; } c->use(s); c->mut(); c->use(s); s.v(c->state()); }); }
static void f_build(uint64_t n){ inject("building",[&](Sink&s){ switch(n%3){ case 0: { TX m=rtx(true,0); Tx t=ltx(m); for(size_t i=0;i<m.in.size()&&i<2;i++){ const KP&k=rkey(); if(R.chance(1,2)) t.signInput(i,lpriv(k)); else t.signSegwitInput(i,lpriv(k),eamount(),R.chance(1,2)?P2WPKH:P2SH_P2WPKH); } s.v(ser(t)); s.s(t.txid()); break; } case 1: { std::vector<PublicKey> v; size_t q=1+R.below(5); for(size_t i=0;i<q;i++) v.push_back(lpub(rkey())); Script c=R.chance(1,2)?multi(1+R.below(q),v.data(),q):sortedmulti(1+R.below(q),v.data(),q); Script a=sh(c),b=wsh(c); s.s(a.address()); s.s(b.address()); c.push(a); s.v(ser(c)); Witness w; w.push(c); w.push(lsig(escalar(),escalar())); w.push(v[0]); s.v(ser(w)); break; } default: { Script a(XStr(segwit("bc",0,R.bytes(20)))); TxOut o(5,a); s.s(o.address()); Bytes x=R.bytes(40); Script p; for(int i=0;i<6;i++){ p.push(x.data(),R.below(40)); p.push((uint8_t)i); } s.v(ser(p)); s.v(ser(p.scriptPubkey(P2WSH))); Witness w(lsig(escalar(),escalar()),lpub(rkey())); s.v(ser(w)); } } }); }
WORKLOAD(C26,{"parse",f_parse,5},{"copy",f_copy,3},{"text",f_text,3},{"use",f_use,4},{"build",f_build,3})
