// C09 ECDSA signing, C10 ECDSA verification, C11 Schnorr, C12 signature codecs
#include "common.h"
#include "Bitcoin.h"
using namespace ref;
static Bytes dig(){ switch(R.below(5)){ case 0: return b32(e256()); case 1: return ebytes(32); default: return R.bytes(32); } }
static std::string kd(const U256&d,const Bytes&h){ return "key="+hex(b32(d))+" digest="+hex(h); }
static Bytes bin64(const Signature&s){ XBuf b(64); s.bin(b.p,64); return b.bytes(); }
static Signature mksig(const U256&r,const U256&s){ XBuf a(b32(r)),b(b32(s)); return Signature(a.p,b.p); }
static PublicKey mkpub(const Pt&p,bool comp=true){ XBuf b(sec(p,comp)); return PublicKey(b.p); }
static void sign1(uint64_t n){ U256 d=escalar(); Bytes h=dig(); XBuf db(b32(d)),hb(h); PrivateKey k(db.p,R.chance(1,2)); g_rngmode=R.below(6); Signature s=k.sign(hb.p); g_rngmode=0; Bytes g=bin64(s); Sig e=ecdsa_sign(d,h); Bytes eb=cat(b32(e.r),b32(e.s)); int rec=e.rec; if(g!=eb&&cmp(u256(h.data()),N)>=0){ e=ecdsa_sign(d,h,false); eb=cat(b32(e.r),b32(e.s)); rec=e.rec; }
  REQ(g==eb,"signature-mismatch","%s got %s want %s",kd(d,h).c_str(),hex(g).c_str(),hex(eb).c_str()); REQ(s.index==rec,"recovery-index","%s index %d want %d",kd(d,h).c_str(),s.index,rec); REQ(cmp(u256(&g[32]),NHALF)<=0,"high-s","%s",kd(d,h).c_str()); REQ(hb.bytes()==h,"input-changed","digest modified");
  // the recovery index identifies the key
  { Pt Rp; U256 x=e.r; if(rec&2){ unsigned __int128 c=0; for(int i=0;i<4;i++){ c+=(unsigned __int128)x.v[i]+N.v[i]; x.v[i]=(uint64_t)c; c>>=64; } } Pt Q=pmul(d,G); if(lift(x,s.index&1,Rp)){ U256 ri=invm(e.r,N),z=redm(u256(h.data()),N); Pt T=padd(pmul(mulm(e.s,ri,N),Rp),pmul(mulm(negm(z,N),ri,N),G)); REQ(!T.inf&&xy(T)==xy(Q),"recovery-index","%s: recovery gives another key",kd(d,h).c_str()); } else fail("recovery-index","no such point"); }
  REQ(k.publicKey().verify(s,hb.p),"own-signature-rejected","%s",kd(d,h).c_str()); REQ(s.isValid(),"own-signature-invalid","%s",kd(d,h).c_str()); { g_rngmode=R.below(6); PrivateKey k2(k); Signature s2=k2.sign(hb.p); g_rngmode=0; REQ(bin64(s2)==g&&s2.index==s.index&&s2==s,"nondeterministic","%s",kd(d,h).c_str()); } XBuf o(s.length()); size_t l=s.der(o.p,o.n); REQ(l==o.n&&o.bytes()==der(e.r,e.s),"der-mismatch","%s: %s",kd(d,h).c_str(),hex(o.bytes()).c_str());
  ev("signatures"); if(g[0]==0) ev("short-r"); if(g[0]&0x80) ev("padded-r"); if(g[32]==0) ev("short-s"); ev(rec&1?"recovery.1":"recovery.0"); seen(g.data(),64); if(n<2) sample("%s -> %s",kd(d,h).c_str(),hex(g).c_str()); }
static void signhd(uint64_t n){ // derived and imported keys sign the same way
  Bytes seed=R.bytes(16+R.below(49)); HDPrivateKey m; XBuf sb(seed); m.fromSeed(sb.p,sb.n); HD r=hd_seed(seed); uint32_t i=R.u32()&0x7fffffff; bool hd=R.chance(1,2); HDPrivateKey c=m.child(i,hd); HD rc=hd_ckd_priv(r,i|(hd?0x80000000u:0)); Bytes h=dig(); XBuf hb(h); Signature s=c.sign(hb.p); Sig e=ecdsa_sign(rc.k,h,cmp(u256(h.data()),N)<0); if(cmp(u256(h.data()),N)<0) REQ(bin64(s)==cat(b32(e.r),b32(e.s)),"signature-mismatch","derived key: %s",kd(rc.k,h).c_str()); REQ(c.publicKey().verify(s,hb.p),"own-signature-rejected","derived key %s",kd(rc.k,h).c_str()); REQ(c.xpub().verify(s,hb.p),"own-signature-rejected","extended public key %s",kd(rc.k,h).c_str());
  std::string w=PrivateKey(c).wif(); PrivateKey k2(w); REQ(bin64(k2.sign(hb.p))==bin64(s),"signature-mismatch","imported key"); ev("signatures",2); }
static void eout(uint64_t n){ U256 d=N; d.v[0]+=R.chance(1,2)?R.below(500):0; if(R.chance(1,3)){ Bytes b(32,0xff); b[31]=R.u32(); d=u256(b.data()); } XBuf db(b32(d)); PrivateKey k; if(R.chance(1,2)) k=PrivateKey(db.p); else k.setSecret(db.p); if(!k.isValid()){ ev("outside.invalid"); return; } Bytes h=dig(); XBuf hb(h); Signature s=k.sign(hb.p); if(k.isValid()){ uint8_t o[32]; k.getSecret(o); U256 e=redm(u256(o),N); Sig w=ecdsa_sign(e,h); Bytes g=bin64(s); REQ(k.publicKey().verify(s,hb.p)&&!iszero(e)&&ecdsa_verify(pmul(e,G),h,u256(g.data()),u256(g.data()+32)),"invalid-signature","%s",kd(d,h).c_str()); ev("outside.reduced"); } else ev("outside.invalid"); }
// keys and digests that differ in one bit, asked for in turn: the answer must not depend on what was asked before
static U256 bitoff(U256 d){ U256 e; do { e=d; e.v[R.below(4)]^=1ull<<R.below(64); } while(iszero(e)||cmp(e,N)>=0); return e; }
static Bytes bitoff(Bytes h){ h[R.below(h.size())]^=1<<R.below(8); return h; }
static void signn(uint64_t n){ U256 d=escalar(),d2=R.chance(1,4)?negm(d,N):bitoff(d); Bytes h=dig(),h2=bitoff(h); for(int i=0;i<4;i++){ const U256&k=i==2||(i&&R.chance(1,3))?d2:d; const Bytes&m=i==1||(i&&R.chance(1,3))?h2:h; XBuf kb(b32(k)),mb(m); PrivateKey K(kb.p); Bytes g=bin64(K.sign(mb.p)); Sig e=ecdsa_sign(k,m); Bytes eb=cat(b32(e.r),b32(e.s)); if(g!=eb&&cmp(u256(m.data()),N)>=0){ e=ecdsa_sign(k,m,false); eb=cat(b32(e.r),b32(e.s)); } REQ(g==eb,"signature-mismatch","neighbours %s got %s want %s",kd(k,m).c_str(),hex(g).c_str(),hex(eb).c_str()); ev("signatures.neighbours"); } seen(b32(d).data(),32); }
WORKLOAD(C09,{"secret-range",eout,1},{"sign",sign1,8},{"sign-derived",signhd,1},{"neighbours",signn,1})
// ---------------------------------------------------------------- C10
static void expect(const char*what,const PublicKey&K,const Pt&Q,const Bytes&h,const U256&r,const U256&s){ bool e=!Q.inf&&ecdsa_verify(Q,h,r,s); XBuf hb(h); Signature sg=mksig(r,s); bool g=K.verify(sg,hb.p); ev(e?"accepted":"rejected"); uint64_t o[2]={hash64(what,strlen(what)),e}; seen(o,16); seen(b32(r).data(),32); if(g!=e) fail(g?"forgery-accepted":"valid-rejected","%s: Q=%s digest=%s r=%s s=%s",what,Q.inf?"inf":hex(sec(Q)).c_str(),hex(h).c_str(),hex(b32(r)).c_str(),hex(b32(s)).c_str()); }
static void v_mut(uint64_t n){ U256 d=escalar(); Pt Q=pmul(d,G); PublicKey K=mkpub(Q,R.chance(1,2)); Bytes h=dig(); Sig g=ecdsa_sign(d,h); U256 r=g.r,s=g.s; expect("good",K,Q,h,r,s); expect("high-s",K,Q,h,r,negm(s,N)); 
  { Bytes h2=h; h2[R.below(32)]^=1<<R.below(8); expect("digest bit",K,Q,h2,r,s); } { U256 r2=r; r2.v[R.below(4)]^=1ull<<R.below(64); expect("r bit",K,Q,h,r2,s); } { U256 s2=s; s2.v[R.below(4)]^=1ull<<R.below(64); expect("s bit",K,Q,h,r,s2); }
  switch(n%8){ case 0: expect("r=0",K,Q,h,U256(0),s); expect("s=0",K,Q,h,r,U256(0)); expect("both 0",K,Q,h,U256(0),U256(0)); break; case 1: { unsigned __int128 c=0; U256 r2; for(int i=0;i<4;i++){ c+=(unsigned __int128)r.v[i]+N.v[i]; r2.v[i]=(uint64_t)c; c>>=64; } expect("r+n",K,Q,h,r2,s); expect("r=n",K,Q,h,N,s); expect("s=n",K,Q,h,r,N); break; } case 2: expect("s+n edge",K,Q,h,r,e256()); expect("r edge",K,Q,h,e256(),s); break; case 3: { Pt Q2=pmul(rscalar(),G); expect("foreign key",mkpub(Q2),Q2,h,r,s); break; } case 4: { Pt Q2=pneg(Q); expect("negated key",mkpub(Q2),Q2,h,r,s); break; } case 5: expect("swapped",K,Q,h,s,r); break; case 6: { PublicKey bad; expect("empty key",bad,Pt(),h,r,s); Bytes x=sec(Q); XBuf t(x); PublicKey f(t.p); uint8_t j[33]={9}; f.parse(j,33); XBuf hb(h); if(f.verify(mksig(r,s),hb.p)) fail("forgery-accepted","a key whose parsing failed still verifies"); ev("invalid-key"); break; } case 7: { // raw coordinates not on the curve, same x and parity as the signer
      Bytes q=xy(Q); Bytes q2=q; q2[32+R.below(31)]^=1<<R.below(8); XBuf qb(q2); PublicKey f(qb.p,true); XBuf hb(h); if(f.verify(mksig(r,s),hb.p)) fail("forgery-accepted","a key that is not on the curve verifies"); ev("invalid-key"); break; } } }
static void v_craft(uint64_t n){ // signatures built backwards to reach exceptional group cases
  U256 s=escalar(),k=escalar(),two(2); Pt Rp=pmul(k,G); U256 r=redm(Rp.x,N); if(iszero(r)) return; switch(n%6){ case 5: { // any two edge scalars u1, u2: R = u1*G + u2*Q
      U256 u1=R.chance(1,8)?U256(0):escalar(),u2=escalar(); Pt Q=R.chance(1,2)?Rp:pmul(rscalar(),G),X=padd(pmul(u1,G),pmul(u2,Q)); if(X.inf) return; U256 rr=redm(X.x,N); if(iszero(rr)) return; U256 ss=mulm(rr,invm(u2,N),N),z=mulm(u1,ss,N); expect("edge multipliers",mkpub(Q),Q,b32(z),rr,ss); ev("craft.multipliers"); break; } case 0: { // u1*G == u2*Q: final addition is a doubling
      U256 half=mulm(k,invm(two,N),N); U256 z=mulm(s,half,N),t=mulm(z,invm(r,N),N); if(iszero(t)) return; Pt Q=pmul(t,G); expect("doubling",mkpub(Q),Q,b32(z),r,s); ev("craft.doubling"); break; } case 1: { // u1*G == -u2*Q: sum is infinity
      U256 z=redm(e256(),N); if(iszero(z)) z=U256(1); U256 t=negm(mulm(z,invm(r,N),N),N); Pt Q=pmul(t,G); expect("infinity",mkpub(Q),Q,b32(z),r,s); ev("craft.infinity"); break; } case 2: { // R.x in [n,p): r = R.x - n
      Pt X; U256 x=N,ro; uint64_t j=1+R.below(400); for(;;j++){ ro=U256(j); x=N; unsigned __int128 c=j; for(int i=0;i<4;i++){ c+=N.v[i]; x.v[i]=(uint64_t)c; c>>=64; } if(lift(x,R.chance(1,2),X)) break; } U256 z=redm(u256(dig().data()),N),ri=invm(ro,N); Pt Q=padd(pmul(mulm(s,ri,N),X),pmul(mulm(negm(z,N),ri,N),G)); if(Q.inf) return; expect("r wraps the order",mkpub(Q),Q,b32(z),ro,s); ev("craft.wrap"); break; } case 3: { // zero digest (0 and n)
      U256 d=escalar(); Pt Q=pmul(d,G); U256 ss=mulm(mulm(invm(k,N),r,N),d,N); Bytes h=R.chance(1,2)?Bytes(32,0):b32(N); expect("zero digest",mkpub(Q),Q,h,r,ss); ss=negm(ss,N); expect("zero digest",mkpub(Q),Q,h,r,ss); expect("zero digest wrong",mkpub(Q),Q,h,r,s); ev("craft.zero"); break; } case 4: { // key equals generator multiples used inside (Q = +-G, Q = R)
      Pt Q= R.chance(1,2)?(R.chance(1,2)?G:pneg(G)):Rp; U256 d; bool known=false; if(xy(Q)==xy(G)){ d=U256(1); known=true; } else if(xy(Q)==xy(pneg(G))){ d=negm(U256(1),N); known=true; } else { d=k; known=true; } Bytes h=dig(); U256 z=redm(u256(h.data()),N); U256 ss=mulm(invm(k,N),addm(z,mulm(r,d,N),N),N); (void)known; if(iszero(ss)) return; expect("special key",mkpub(Q),Q,h,r,ss); ev("craft.special"); break; } } }
static void v_rand(uint64_t n){ Pt Q=pmul(escalar(),G); Bytes h=dig(); expect("random values",mkpub(Q),Q,h,e256(),e256()); }
static void v_hd(uint64_t n){ Bytes seed=R.bytes(32); XBuf sb(seed); HDPrivateKey m; m.fromSeed(sb.p,sb.n); HD r=hd_seed(seed); HDPublicKey x=m.xpub(); Bytes h=dig(); Sig g=ecdsa_sign(r.k,h); XBuf hb(h); Signature s=mksig(g.r,g.s); if(!x.verify(s,hb.p)) fail("valid-rejected","extended public key rejects a valid signature"); Bytes h2=h; h2[R.below(32)]^=1; XBuf hb2(h2); if(x.verify(s,hb2.p)) fail("forgery-accepted","extended public key"); if(!m.publicKey().verify(s,hb.p)) fail("valid-rejected","hd key"); ev("accepted",2); ev("rejected"); }
static void v_near(uint64_t n){ U256 d=escalar(),d2=R.chance(1,4)?negm(d,N):bitoff(d); Pt Q=pmul(d,G),Q2=pmul(d2,G); PublicKey K=mkpub(Q),K2=mkpub(Q2); Bytes h=dig(),h2=bitoff(h); Sig g=ecdsa_sign(d,h),g2=ecdsa_sign(d2,h),g3=ecdsa_sign(d,h2); for(int i=0;i<8;i++){ int w=i&1?R.below(6):0; switch(w){ case 0: expect("good",K,Q,h,g.r,g.s); break; case 1: expect("neighbouring key",K2,Q2,h,g.r,g.s); break; case 2: expect("neighbouring digest",K,Q,h2,g.r,g.s); break; case 3: expect("signature of the neighbouring key",K,Q,h,g2.r,g2.s); break; case 4: expect("signature of the neighbouring digest",K,Q,h,g3.r,g3.s); break; default: expect("mixed",K,Q,h,g.r,R.chance(1,2)?g2.s:g3.s); } } ev("neighbours"); }
WORKLOAD(C10,{"mutated",v_mut,6},{"neighbours",v_near,1},{"crafted",v_craft,5},{"random",v_rand,1},{"extended-key",v_hd,1})
// ---------------------------------------------------------------- C11
static Bytes sb64(const SchnorrSignature&s){ XBuf b(64); s.serialize(b.p,64); return b.bytes(); }
static void sexpect(const char*what,const PublicKey&K,const Pt&Q,const Bytes&h,const Bytes&sig){ bool e=!Q.inf&&schnorr_verify(b32(Q.x),h,sig); XBuf hb(h),sb(sig); SchnorrSignature s(sb.p); bool g=K.schnorr_verify(s,hb.p); ev(e?"schnorr.accepted":"schnorr.rejected"); seen(sig.data(),64); if(g!=e) fail(g?"forgery-accepted":"valid-rejected","schnorr %s: Q=%s msg=%s sig=%s",what,Q.inf?"inf":hex(sec(Q)).c_str(),hex(h).c_str(),hex(sig).c_str()); }
static void ssign(uint64_t n){ U256 d=escalar(); Bytes h=dig(); XBuf db(b32(d)),hb(h); PrivateKey k(db.p,R.chance(1,2)); g_rngmode=R.below(6); SchnorrSignature s=k.schnorr_sign(hb.p); Bytes g=sb64(s); Bytes e=schnorr_sign_det(d,h); SchnorrSignature s1=k.schnorr_sign(hb.p); g_rngmode=0; Pt Q=pmul(d,G);
  REQ(schnorr_verify(b32(Q.x),h,g),"invalid-signature","%s: signature %s does not verify under BIP340",kd(d,h).c_str(),hex(g).c_str()); REQ(sb64(s1)==g&&s1==s,"nondeterministic","%s",kd(d,h).c_str()); REQ(g==e,"signature-mismatch","%s got %s want %s",kd(d,h).c_str(),hex(g).c_str(),hex(e).c_str()); REQ(k.publicKey().schnorr_verify(s,hb.p),"own-signature-rejected","%s",kd(d,h).c_str());
  // nonces: related keys and messages must give unrelated nonce points
  { Bytes h2=h; h2[R.below(32)]^=1<<R.below(8); XBuf h2b(h2); Bytes g2=sb64(k.schnorr_sign(h2b.p)); REQ(memcmp(g2.data(),g.data(),32),"nonce-reuse","same nonce for two messages: %s and %s",kd(d,h).c_str(),hex(h2).c_str()); U256 d2=addm(d,U256(1),N); if(!iszero(d2)&&cmp(d2,negm(d,N))&&R.chance(1,2)){ XBuf d2b(b32(d2)); PrivateKey k2(d2b.p); Bytes g3=sb64(k2.schnorr_sign(hb.p)); REQ(memcmp(g3.data(),g.data(),32),"nonce-reuse","same nonce for two keys: %s",kd(d,h).c_str()); } ev("nonce.pairs"); }
  ev("schnorr.signatures"); ev(Q.y.v[0]&1?"odd-key":"even-key"); seen(g.data(),64); }
static void sver(uint64_t n){ U256 d=escalar(); Bytes h=dig(); Pt Q=pmul(d,G); PublicKey K=mkpub(Q,R.chance(1,2)); Bytes s=schnorr_sign_det(d,h); sexpect("good",K,Q,h,s); Pt Qn=pneg(Q); sexpect("other parity of the same x-only key",mkpub(Qn),Qn,h,s);
  auto put_=[&](const Bytes&r,const Bytes&ss){ return cat(r,ss); }; Bytes r(s.begin(),s.begin()+32),sv(s.begin()+32,s.end()); { Bytes h2=h; h2[R.below(32)]^=1<<R.below(8); sexpect("message bit",K,Q,h2,s); } { Bytes t=s; t[R.below(64)]^=1<<R.below(8); sexpect("signature bit",K,Q,h,t); }
  switch(n%9){ case 0: sexpect("negated s",K,Q,h,put_(r,b32(negm(u256(sv.data()),N)))); break; case 1: { U256 t=u256(sv.data()); unsigned __int128 c=0; U256 o; for(int i=0;i<4;i++){ c+=(unsigned __int128)t.v[i]+N.v[i]; o.v[i]=(uint64_t)c; c>>=64; } if(!c) sexpect("s+n",K,Q,h,put_(r,b32(o))); sexpect("s=n",K,Q,h,put_(r,b32(N))); sexpect("s=max",K,Q,h,put_(r,Bytes(32,0xff))); break; } case 2: sexpect("r edge",K,Q,h,put_(b32(e256()),sv)); break; case 3: sexpect("s edge",K,Q,h,put_(r,b32(e256()))); break; case 4: { Pt Q2=pmul(rscalar(),G); sexpect("foreign key",mkpub(Q2),Q2,h,s); break; } case 5: { // nonce point with odd y: valid equation, must be rejected
      U256 dd=d; if(Q.y.v[0]&1) dd=negm(d,N); U256 k=escalar(); Pt Rp=pmul(k,G); if(!(Rp.y.v[0]&1)){ k=negm(k,N); Rp=pneg(Rp); } Bytes rx=b32(Rp.x); U256 e=redm(u256(tagged("BIP0340/challenge",cat(cat(rx,b32(Q.x)),h)).data()),N); sexpect("odd nonce point",K,Q,h,cat(rx,b32(addm(k,mulm(e,dd,N),N)))); k=negm(k,N); sexpect("even nonce point",K,Q,h,cat(rx,b32(addm(k,mulm(e,dd,N),N)))); 
      // signed with the wrong key parity
      sexpect("wrong key parity",K,Q,h,cat(rx,b32(addm(k,mulm(e,negm(dd,N),N),N)))); break; } case 6: { // r not on curve, s*G = e*P : R = infinity
      U256 dd=d; if(Q.y.v[0]&1) dd=negm(d,N); Bytes rx=b32(R.chance(1,2)?U256(0):e256()); U256 e=redm(u256(tagged("BIP0340/challenge",cat(cat(rx,b32(Q.x)),h)).data()),N); sexpect("infinite nonce point",K,Q,h,cat(rx,b32(mulm(e,dd,N)))); sexpect("s=0",K,Q,h,cat(rx,Bytes(32,0))); break; } case 7: { PublicKey bad; sexpect("empty key",bad,Pt(),h,s); Bytes q=xy(Q); q[32+R.below(31)]^=4; XBuf qb(q); PublicKey f(qb.p,true); XBuf hb(h),sb(s); if(f.schnorr_verify(SchnorrSignature(sb.p),hb.p)) fail("forgery-accepted","schnorr: off-curve key"); ev("invalid-key"); break; } case 8: { U256 x; Pt t; do x=e256(); while(cmp(x,P)<0&&lift(x,false,t)); sexpect("r not on the curve",K,Q,h,put_(b32(x),sv)); break; } } }
static void srand_(uint64_t n){ Pt Q=pmul(escalar(),G); Bytes h=dig(); sexpect("random values",mkpub(Q),Q,h,cat(b32(e256()),b32(e256()))); HDPrivateKey m; Bytes seed=R.bytes(32); XBuf sb(seed); m.fromSeed(sb.p,32); HD r=hd_seed(seed); XBuf hb(h); SchnorrSignature s=m.schnorr_sign(hb.p); if(sb64(s)!=schnorr_sign_det(r.k,h)) fail("signature-mismatch","extended key schnorr"); if(!m.xpub().schnorr_verify(s,hb.p)) fail("valid-rejected","extended key schnorr"); }
// raw secrets outside [1, n-1]: no key, or a key that is consistent with itself
static U256 outside(){ U256 x=N; switch(R.below(3)){ case 0: x.v[0]+=R.below(500); break; case 1: { Bytes b(32,0xff); size_t k=R.below(17); for(size_t i=31-k;i<32;i++) b[i]=R.u32(); x=u256(b.data()); if(cmp(x,N)<0) x=N; break; } default: x=U256(0); } return x; }
static void sout(uint64_t n){ U256 d=outside(); XBuf db(b32(d)); PrivateKey k; if(R.chance(1,2)) k=PrivateKey(db.p); else k.setSecret(db.p); Bytes h=dig(); XBuf hb(h); SchnorrSignature s=k.schnorr_sign(hb.p); if(k.isValid()){ REQ(k.publicKey().schnorr_verify(s,hb.p),"own-signature-rejected","%s",kd(d,h).c_str()); uint8_t o[32]; k.getSecret(o); U256 e=u256(o); Pt Q=pmul(redm(e,N),G); REQ(!Q.inf&&schnorr_verify(b32(Q.x),h,sb64(s)),"invalid-signature","%s",kd(d,h).c_str()); ev("outside.reduced"); } else ev("outside.invalid"); }
static void snear(uint64_t n){ U256 d=escalar(),d2=bitoff(d); Bytes h=dig(),h2=bitoff(h); Pt Q=pmul(d,G),Q2=pmul(d2,G); PublicKey K=mkpub(Q),K2=mkpub(Q2); Bytes s=schnorr_sign_det(d,h),s2=schnorr_sign_det(d2,h),s3=schnorr_sign_det(d,h2); for(int i=0;i<8;i++){ int w=i&1?R.below(6):0; switch(w){ case 0: sexpect("good",K,Q,h,s); break; case 1: sexpect("neighbouring key",K2,Q2,h,s); break; case 2: sexpect("neighbouring message",K,Q,h2,s); break; case 3: sexpect("signature of the neighbouring key",K,Q,h,s2); break; case 4: sexpect("signature of the neighbouring message",K,Q,h,s3); break; default: { Bytes t=s; std::copy(s3.begin()+32,s3.end(),t.begin()+32); sexpect("mixed",K,Q,h,t); } } }
  for(int i=0;i<3;i++){ const U256&k=i==1?d2:d; const Bytes&m=i==2?h2:h; XBuf kb(b32(k)),mb(m); PrivateKey p(kb.p); Bytes g=sb64(p.schnorr_sign(mb.p)); REQ(g==(i==1?s2:i==2?s3:s),"signature-mismatch","neighbours %s got %s",kd(k,m).c_str(),hex(g).c_str()); } ev("neighbours"); }
WORKLOAD(C11,{"secret-range",sout,1},{"neighbours",snear,1},{"sign",ssign,4},{"verify",sver,6},{"random",srand_,1})
// ---------------------------------------------------------------- C12
static U256 val(){ switch(R.below(4)){ case 0: { Bytes b(32,0); size_t z=R.below(33); for(size_t i=z;i<32;i++) b[i]=(uint8_t)R.u32(); if(z<32&&R.chance(1,2)) b[z]=R.chance(1,2)?0x80:0x7f; return u256(b.data()); } case 1: return U256(R.below(260)); default: return e256(); } }
static void d_rt(uint64_t n){ U256 r=val(),s=val(); Bytes e=der(r,s),rs=cat(b32(r),b32(s)); Signature g=mksig(r,s); REQ(g.length()==e.size(),"length","length %zu want %zu for %s",g.length(),e.size(),hex(rs).c_str()); { XBuf o(e.size()+R.below(3)); memset(o.p,0x77,o.n); size_t l=g.der(o.p,o.n); REQ(l==e.size()&&Bytes(o.p,o.p+l)==e,"der-mismatch","%s: der %s want %s",hex(rs).c_str(),hex(o.bytes()).c_str(),hex(e).c_str()); } { XBuf o(e.size()); size_t l=g.serialize(o.p,o.n); REQ(l==e.size()&&o.bytes()==e,"der-mismatch","serialize %s",hex(o.bytes()).c_str()); } std::string t=g.toString(); REQ(t==hex(e),"der-mismatch","toString %s want %s",t.c_str(),hex(e).c_str());
  auto chk=[&](const char*how,Signature&x,size_t used){ REQ(bin64(x)==rs,"parse-mismatch","%s of %s gave %s",how,hex(e).c_str(),hex(bin64(x)).c_str()); REQ(x.getStatus()==PARSING_DONE,"parse-status","%s of %s status %d",how,hex(e).c_str(),x.getStatus()); REQ(used==e.size(),"parse-count","%s consumed %zu of %zu",how,used,e.size()); REQ(x==g&&!(x!=g),"equality","%s",how); bool z=iszero(r)&&iszero(s); REQ(x.isValid()==!z,"validity","%s r,s=%s",how,hex(rs).c_str()); ev("der.parsed"); };
  XBuf eb(e); { Signature x; size_t u=x.fromDer(eb.p,eb.n); chk("fromDer",x,u); // object reuse
    U256 r2=val(),s2=val(); Bytes e2=der(r2,s2); XBuf e2b(e2); u=x.fromDer(e2b.p,e2b.n); REQ(bin64(x)==cat(b32(r2),b32(s2))&&u==e2.size(),"parse-mismatch","reused object: %s",hex(e2).c_str()); } { Signature x(eb.p,eb.n); chk("ctor(len)",x,e.size()); } { Signature x(eb.p); chk("ctor",x,e.size()); } { XStr h(hex(e)); Signature x((const char*)h); chk("hex ctor",x,e.size()); } { Signature x; size_t u=x.parse(hex(e)); chk("parse hex",x,u); } { Bytes tr=e; tr.push_back(1); XBuf tb(tr); Signature x; size_t u=x.fromDer(tb.p,tb.n); chk("trailing byte",x,u); }
  // binary forms
  { uint8_t ix=(uint8_t)R.below(4); Bytes b=rs; b.push_back(ix); XBuf bb(b); Signature x; x.fromBin(bb.p,65); REQ(bin64(x)==rs&&x.index==ix,"bin-mismatch","fromBin(65)"); XBuf o(65); x.bin(o.p,65); REQ(o.bytes()==b,"bin-mismatch","bin(65) %s want %s",hex(o.bytes()).c_str(),hex(b).c_str()); XBuf b4(rs); Signature y; y.fromBin(b4.p,64); REQ(bin64(y)==rs,"bin-mismatch","fromBin(64)"); REQ(y==x,"bin-mismatch","64 vs 65"); { Signature u=mksig(e256(),e256()); if(R.chance(1,3)){ XBuf t(R.bytes(5)); u.fromDer(t.p,t.n); } u.fromBin(bb.p,65); REQ(bin64(u)==rs&&u.index==ix&&u.isValid()==!(iszero(r)&&iszero(s)),"bin-mismatch","fromBin into a used object");  } ev("bin.roundtrips",2); }
  // schnorr 64-byte form
  { XBuf b(rs); SchnorrSignature x(b.p); XBuf o(64); REQ(x.serialize(o.p,64)==64&&o.bytes()==rs&&x.length()==64,"schnorr-codec","serialize"); XStr h(hex(rs)); SchnorrSignature y((const char*)h); REQ(y==x,"schnorr-codec","hex"); XBuf a1(b32(r)),a2(b32(s)); SchnorrSignature z(a1.p,a2.p); REQ(z==x&&std::string(z.toString())==hex(rs),"schnorr-codec","r,s ctor"); SchnorrSignature w; size_t u=w.parse(b.p,b.n); REQ(u==64&&w.getStatus()==PARSING_DONE&&w==x,"schnorr-codec","parse"); size_t c=R.below(64); XBuf tb(Bytes(rs.begin(),rs.begin()+c)); SchnorrSignature v; u=v.parse(tb.p,tb.n); REQ(u==c&&v.getStatus()!=PARSING_DONE&&!v.isValid(),"truncated-accepted","schnorr signature of %zu bytes",c); ev("schnorr.codec",5); } seen(e.data(),e.size()); }
static void d_bad(uint64_t n){ U256 r=val(),s=val(); Bytes e=der(r,s),m=e; switch(n%10){ case 0: m[R.below(R.chance(1,2)?6:m.size())]^=1<<R.below(8); break; case 1: m.resize(R.below(m.size())); break; case 2: m=mutate(m); break; case 3: { // non-minimal zero padding
      Bytes rb(m.begin()+4,m.begin()+4+m[3]); size_t k=1+R.below(2); m.insert(m.begin()+4,k,0); m[3]+=k; m[1]+=k; break; } case 4: { size_t so=4+m[3]; size_t k=1+R.below(2); m.insert(m.begin()+so+2,k,0); m[so+1]+=k; m[1]+=k; break; } case 5: { // strip the sign byte => negative
      if(m[4]==0&&m[3]>1){ m.erase(m.begin()+4); m[3]--; m[1]--; } else { size_t so=4+m[3]; if(m[so+2]==0&&m[so+1]>1){ m.erase(m.begin()+so+2); m[so+1]--; m[1]--; } else m[0]=0x31; } break; } case 6: m[1]+=(uint8_t)(R.chance(1,2)?1+R.below(3):-1-(int)R.below(3)); break; case 7: { // empty integer
      Bytes t={0x30,0,2,0,2,1,5}; if(R.chance(1,2)) t={0x30,0,2,1,5,2,0}; t[1]=t.size()-2; m=t; break; } case 8: { // 33-byte integer with non-zero first byte
      Bytes t={0x30,70,2,33}; Bytes x=R.bytes(33); x[0]=1+R.below(127); app(t,x); t.push_back(2); t.push_back(33); x=R.bytes(33); x[0]=R.chance(1,2)?0:1; app(t,x); m=t; break; } default: m=R.bytes(R.below(80)); if(m.size()>1){ m[0]=0x30; m[1]=(uint8_t)(m.size()-2); } if(m.size()>3){ m[2]=2; m[3]=R.below(40); } }
  Bytes a,b; // a stream parser stops after the announced total length
  Bytes pre=m; bool ok=false; if(m.size()>=2&&m[0]==0x30&&m.size()>=(size_t)m[1]+2){ pre.resize(m[1]+2); ok=understrict(pre,a,b); }
  auto chk=[&](const char*how,Signature&x,size_t used){ if(ok){ REQ(x.getStatus()==PARSING_DONE&&bin64(x)==cat(a,b)&&used==pre.size(),"valid-rejected","%s %s status %d used %zu",how,hex(m).c_str(),x.getStatus(),used); ev("bad.stillvalid"); } else { REQ(x.getStatus()!=PARSING_DONE||m.empty(),"malformed-accepted","%s %s accepted as %s",how,hex(m).c_str(),hex(bin64(x)).c_str()); REQ(!x.isValid(),"malformed-usable","%s %s leaves a signature that reports itself valid",how,hex(m).c_str()); ev("bad.rejected"); } };
  XBuf mb(m); { Signature x; size_t u=x.fromDer(mb.p,mb.n); chk("fromDer",x,u); } { Signature x(mb.p,mb.n); chk("ctor",x,ok?pre.size():0); } { Signature x; size_t u=x.parse(hex(m)); chk("hex",x,u); } { // into an object that already holds a signature
    Signature x=mksig(U256(5),U256(7)); size_t u=x.fromDer(mb.p,mb.n); if(!m.empty()) chk("reused object",x,u); } seen(m.data(),m.size()); }
WORKLOAD(C12,{"roundtrip",d_rt,3},{"malformed",d_bad,4})
