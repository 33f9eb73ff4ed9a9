// C07 scalar/point arithmetic and comparisons, C08 public key encodings, C27 ECDH
#include "common.h"
#include "Bitcoin.h"
using namespace ref;
static ECScalar mks(const U256&x){ Bytes b=b32(x); XBuf a(b); switch(R.below(3)){ case 0:{ ECScalar s; s.setSecret(a.p); return s; } case 1: if(!iszero(x)) return ECScalar(a.p,32); default:{ XStr h(hex(b)); if(iszero(x)){ ECScalar s; return s; } return ECScalar((const char*)h); } } }
static Bytes sv(const ECScalar&s){ Bytes b(32); s.getSecret(b.data()); return b; }
static U256 sc(){ if(R.chance(1,12)) return U256(0); return escalar(); }
static bool eqs(const char*op,const ECScalar&g,const U256&e,const U256&a,const U256&b){ ev("scalar.ops"); Bytes gb=sv(g); if(gb!=b32(e)){ fail("scalar-mismatch","%s a=%s b=%s got %s want %s",op,hex(b32(a)).c_str(),hex(b32(b)).c_str(),hex(gb).c_str(),hex(b32(e)).c_str()); return false; } seen(gb.data(),32); return true; }
static void s_ops(uint64_t n){ U256 a=sc(),b=R.chance(1,10)?a:R.chance(1,10)?negm(a,N):sc(); ECScalar A=mks(a),B_=mks(b); uint32_t u= R.chance(1,3)?R.u32():(R.chance(1,2)?R.below(4):0xffffffffu-R.below(3)); U256 U(u);
  eqs("a+b",A+B_,addm(a,b,N),a,b); eqs("a-b",A-B_,subm(a,b,N),a,b); eqs("-a",-A,negm(a,N),a,b); eqs("a*b",A*B_,mulm(a,b,N),a,b); if(!iszero(b)) eqs("a/b",A/B_,mulm(a,invm(b,N),N),a,b);
  eqs("a+u",A.operator+(u),addm(a,U,N),a,U); eqs("a-u",A.operator-(u),subm(a,U,N),a,U); eqs("u+a",u+A,addm(a,U,N),a,U); eqs("a+u",::operator+(A,u),addm(a,U,N),a,U); eqs("a-u",::operator-(A,u),subm(a,U,N),a,U); if((bool)A!=A.isValid()) fail("scalar-compare","truth value of %s",hex(b32(a)).c_str()); eqs("u-a",u-A,subm(U,a,N),a,U); eqs("u*a",u*A,mulm(a,U,N),a,U); eqs("a*u",A*u,mulm(a,U,N),a,U); if(!iszero(a)) eqs("u/a",u/A,mulm(U,invm(a,N),N),a,U); if(u) eqs("a/u",A/u,mulm(a,invm(U,N),N),a,U);
  { ECScalar t=A; t+=B_; eqs("+=",t,addm(a,b,N),a,b); t=A; t-=B_; eqs("-=",t,subm(a,b,N),a,b); t=A; t*=B_; eqs("*=",t,mulm(a,b,N),a,b); if(!iszero(b)){ t=A; t/=B_; eqs("/=",t,mulm(a,invm(b,N),N),a,b); } t=A; t+=u; eqs("+=u",t,addm(a,U,N),a,U); t=A; t-=u; eqs("-=u",t,subm(a,U,N),a,U); t=A; t+=t; eqs("t+=t",t,addm(a,a,N),a,a); }
  eqs("u32 ctor",ECScalar(u),U,U,U);
  int c=cmp(a,b); if((A<B_)!=(c<0)||(A>B_)!=(c>0)||(A<=B_)!=(c<=0)||(A>=B_)!=(c>=0)||(A==B_)!=(c==0)||(A!=B_)!=(c!=0)) fail("scalar-compare","a=%s b=%s",hex(b32(a)).c_str(),hex(b32(b)).c_str()); ev("scalar.comparisons",6);
  if(A.isValid()!=!iszero(a)) fail("scalar-valid","a=%s isValid=%d",hex(b32(a)).c_str(),A.isValid()); eqs("operand a kept",A,a,a,b); eqs("operand b kept",B_,b,a,b); }
static void s_parse(uint64_t n){ // 32-byte values at/above the order: parsing reduces modulo the order
  U256 x=e256(); XBuf a(b32(x)); ECScalar s(a.p,32); U256 m=cmp(x,N)<0?x:subm(x,N,N); U256 want; { // x mod n
    U256 t=x; if(cmp(t,N)>=0){ unsigned __int128 br=0; for(int i=0;i<4;i++){ unsigned __int128 d=(unsigned __int128)t.v[i]-N.v[i]-br; t.v[i]=(uint64_t)d; br=(d>>64)&1; } } want=t; } (void)m; eqs("parse",s,want,x,N); if(s.isValid()!=!iszero(want)) fail("scalar-valid","parsed %s",hex(b32(x)).c_str()); }
// ---- points
static ECPoint mkp(const Pt&p){ if(p.inf) return R.chance(1,2)?ECPoint():InfinityPoint; Bytes s=sec(p,R.chance(2,3)); XBuf b(s); switch(R.below(3)){ case 0: return ECPoint(b.p); case 1:{ ECPoint q; q.fromSec(b.p,b.n); return q; } default: { Bytes q=xy(p); XBuf c(q); return ECPoint(c.p,R.chance(1,2)); } } }
static Bytes pv(const ECPoint&p){ return Bytes(p.point,p.point+64); }
static Bytes rxy(const Pt&p){ return p.inf?Bytes(64,0):xy(p); }
static bool eqp(const char*op,const ECPoint&g,const Pt&e,const std::string&ctx){ ev("point.ops"); if(pv(g)!=rxy(e)){ fail("point-mismatch","%s (%s): got %s want %s",op,ctx.c_str(),hex(pv(g)).c_str(),hex(rxy(e)).c_str()); return false; } if(g.isValid()!=!e.inf){ fail("point-valid","%s (%s): isValid=%d for %s",op,ctx.c_str(),g.isValid(),e.inf?"infinity":"a curve point"); return false; } seen(g.point,64); return true; }
static bool smally(uint64_t y,Pt&o){ // a point with this tiny y: x is a cube root of y^2-7
  static U256 ce=[]{ U256 e=P; unsigned __int128 c=2; for(int i=0;i<4;i++){ c+=e.v[i]; e.v[i]=(uint64_t)c; c>>=64; } unsigned __int128 r=0; for(int i=3;i>=0;i--){ r=(r<<64)|e.v[i]; e.v[i]=(uint64_t)(r/9); r%=9; } return e; }(); U256 t=subm(U256(y*y),U256(7),P),x=powm(t,ce,P); if(cmp(mulm(mulm(x,x,P),x,P),t)) return false; o=Pt(); o.inf=false; o.x=x; o.y=U256(y); return true; }
static Pt tinyy(){ Pt p; for(;;) if(smally(1+R.below(900),p)) return R.chance(1,2)?p:pneg(p); }
static Pt tinyx(){ Pt p; for(;;) if(lift(U256(1+R.below(900)),R.chance(1,2),p)) return p; }
static Pt edgept(){ Pt p; if(R.chance(1,6)) return tinyy(); for(int i=0;i<200;i++){ U256 x=e256(); if(cmp(x,P)<0&&lift(x,R.chance(1,2),p)) return p; } return G; }
static Pt rp(){ switch(R.below(8)){ case 0: return G; case 1: return pneg(G); case 2: return Pt(); case 3: { Pt p=G; int k=R.below(20); for(int i=0;i<k;i++) p=padd(p,G); return p; } case 4: case 5: return edgept(); default: return pmul(rscalar(),G); } }
static const U256 BETA=u256hex("7ae96a2b657c07106e64479eac3434e99cf0497512f58995c1396c28719501ee");
static void p_add(uint64_t n){ Pt a=rp(),b; const char*rel="generic"; switch(R.below(6)){ case 0: b=a; rel="equal"; break; case 1: b=pneg(a); rel="opposite"; break; case 2: b=Pt(); rel="infinity"; break; case 3: b=a; if(!a.inf){ b.x=mulm(a.x,BETA,P); if(R.chance(1,2)) b=pneg(b); rel="same-y"; } break; case 4: { // the sum is a chosen point
      Pt s=R.chance(1,2)?edgept():R.chance(1,2)?tinyx():tinyy(); if(R.chance(1,3)){ static const U256 half=invm(U256(2),N); a=pmul(half,s); b=a; rel="chosen-double"; } else { if(a.inf) a=G; b=padd(s,pneg(a)); rel="chosen-sum"; } break; } default: b=rp(); }
  std::string ctx=std::string(rel)+" a="+hex(rxy(a))+" b="+hex(rxy(b)); ECPoint A=mkp(a),B_=mkp(b); ev(rel);
  eqp("a+b",A+B_,padd(a,b),ctx); eqp("b+a",B_+A,padd(b,a),ctx); eqp("a-b",A-B_,padd(a,pneg(b)),ctx); eqp("-a",-A,a.inf?a:pneg(a),ctx); { ECPoint t=A; t+=B_; eqp("+=",t,padd(a,b),ctx); t=A; t-=B_; eqp("-=",t,padd(a,pneg(b)),ctx); t=A; t+=t; eqp("t+=t",t,padd(a,a),ctx); }
  bool same=rxy(a)==rxy(b); if((A==B_)!=same||(A!=B_)==same) fail("point-equality","%s",ctx.c_str());
  if(!a.inf&&!b.inf){ ECPoint X=A,Y=B_; X.compressed=Y.compressed=R.chance(1,2); Bytes s1=sec(a,X.compressed),s2=sec(b,X.compressed); int c=memcmp(s1.data(),s2.data(),s1.size()); if((X<Y)!=(c<0)||(X>Y)!=(c>0)||(X<=Y)!=(c<=0)||(X>=Y)!=(c>=0)) fail("point-compare","%s compressed=%d: encodings compare %d but < is %d > is %d",ctx.c_str(),X.compressed,c,X<Y,X>Y); ev("point.comparisons",4); 
    if(X.isEven()!=!(a.y.v[0]&1)) fail("point-parity","%s",ctx.c_str()); } 
  eqp("operand a kept",A,a,ctx); eqp("operand b kept",B_,b,ctx); }
static void p_mul(uint64_t n){ U256 k; switch(R.below(8)){ case 0: k=U256(R.below(40)); break; case 1: k=negm(U256(1+R.below(40)),N); break; case 2: { // 4-bit window patterns
    k=U256(0); for(int i=0;i<64;i++){ static const int nib[]={0,1,7,8,9,15}; k.v[i/16]|=(uint64_t)nib[R.below(6)]<<(4*(i%16)); } k=redm(k,N); break; } default: k=sc(); } Pt a=R.chance(1,3)?G:rp(); if(!iszero(k)&&R.chance(1,6)) a=pmul(invm(k,N),R.chance(1,2)?tinyx():tinyy()); /* the product has a tiny coordinate */ std::string ctx="k="+hex(b32(k))+" P="+hex(rxy(a)); ECScalar K=mks(k); ECPoint A=mkp(a); Pt e=pmul(k,a);
  switch(n%4){ case 0: eqp("k*P",K*A,e,ctx); break; case 1: eqp("P*k",A*K,e,ctx); break; case 2: if(!iszero(k)) eqp("P/k",A/K,pmul(invm(k,N),a),ctx); break; case 3: { PrivateKey pk(K); eqp("public key",pk.publicKey(),pmul(k,G),ctx); if(a.inf) eqp("k*inf",K*InfinityPoint,a,ctx); else { XBuf q(xy(a)); PublicKey PA(q.p,true); eqp("k*PublicKey",pk*PA,e,ctx); } break; } } }
static void p_gen(uint64_t n){ // single-window scalars: every entry of the generator table (64 windows x 15 digits) and its neighbours
  int i=n%64,d=1+(n/64)%15; U256 k; k.v[i/16]=(uint64_t)d<<(4*(i%16)); if((n/960)%2) k=subm(k,U256(1+R.below(3)),N); k=redm(k,N); ECScalar K=mks(k); eqp("k*G",K*GeneratorPoint,pmul(k,G),"k="+hex(b32(k))); ev("gtable.entries"); }
static void p_laws(uint64_t n){ // algebraic identities on library results alone
  U256 a=sc(),b=sc(); Pt p=rp(); ECScalar A=mks(a),B_=mks(b); ECPoint X=mkp(p); ECPoint l=(A+B_)*X,r=A*X+B_*X; if(!(l==r)) fail("distributive","a=%s b=%s P=%s",hex(b32(a)).c_str(),hex(b32(b)).c_str(),hex(rxy(p)).c_str()); ECPoint l2=(A*B_)*X,r2=A*(B_*X); if(!(l2==r2)) fail("associative","a=%s b=%s P=%s",hex(b32(a)).c_str(),hex(b32(b)).c_str(),hex(rxy(p)).c_str()); if(!((-A)*X==-(A*X))) fail("negation","a=%s P=%s",hex(b32(a)).c_str(),hex(rxy(p)).c_str()); ev("laws",3); seen(l.point,64); }
static void s_div0(uint64_t n){ ECScalar a=mks(sc()),z; volatile bool v=(a/z).isValid(); (void)v; ev("division-by-zero-terminates"); }
WORKLOAD(C07,{"scalar-ops",s_ops,6},{"scalar-parse",s_parse,2},{"point-add",p_add,6},{"point-mul",p_mul,4},{"generator-table",p_gen,2},{"laws",p_laws,1},{"div-zero",s_div0,1})
// ---------------------------------------------------------------- C08
static void chk_key(const char*how,const ECPoint&k,const Pt&p,bool comp){ Bytes s=sec(p,comp); ev("key.parsed"); if(!k.isValid()||!(bool)k){ fail("valid-rejected","%s: key %s reported invalid",how,hex(s).c_str()); return; } if(pv(k)!=xy(p)){ fail("wrong-point","%s: parsed %s to %s",how,hex(s).c_str(),hex(pv(k)).c_str()); return; } if(k.compressed!=comp) fail("wrong-format","%s: compressed=%d want %d",how,k.compressed,comp); 
  XBuf o(s.size()+R.below(2)*(comp?4:0)); memset(o.p,0x55,o.n); size_t l=k.sec(o.p,o.n); if(l!=s.size()||Bytes(o.p,o.p+l)!=s) fail("encode-mismatch","%s: sec() gave %s want %s",how,hex(o.p,l<=o.n?l:o.n).c_str(),hex(s).c_str()); std::string h=k.sec(); if(h!=hex(s)) fail("encode-mismatch","%s: sec() text %s want %s",how,h.c_str(),hex(s).c_str()); Bytes xs(32); k.x(xs.data(),32); if(xs!=b32(p.x)||k.x()!=hex(b32(p.x))) fail("encode-mismatch","%s: x() wrong",how); if(k.length()!=s.size()||k.stringLength()!=2*s.size()) fail("encode-mismatch","length %zu",k.length()); XBuf ser(s.size()); if(k.serialize(ser.p,ser.n)!=s.size()||ser.bytes()!=s) fail("encode-mismatch","%s: serialize",how); std::string ts=k.toString(); if(ts!=hex(s)) fail("encode-mismatch","%s: toString '%s'",how,ts.c_str()); if(k.isEven()!=!(p.y.v[0]&1)) fail("parity","%s",how); seen(k.point,64); }
static void k_rt(uint64_t n){ Pt p=R.chance(1,2)?edgept():pmul(rscalar(),G); bool c=n&1; Bytes s=sec(p,c); XBuf b(s); XStr h(hex(s));
  { ECPoint k(b.p); chk_key("ECPoint(sec)",k,p,c); } { PublicKey k(b.p); chk_key("PublicKey(sec)",k,p,c); } { ECPoint k((const char*)h); chk_key("ECPoint(hex)",k,p,c); } { PublicKey k((const char*)h); chk_key("PublicKey(hex)",k,p,c); } { ECPoint k; size_t r=k.fromSec(b.p,b.n); if(r!=s.size()||k.getStatus()!=PARSING_DONE) fail("parse-status","fromSec consumed %zu status %d",r,k.getStatus()); chk_key("fromSec",k,p,c); // reuse object
     Pt q=pmul(U256(1+R.below(50)),G); Bytes s2=sec(q,!c); XBuf b2(s2); k.fromSec(b2.p,b2.n); chk_key("reused object",k,q,!c); } { PublicKey k; k.parse(b.p,b.n); chk_key("parse",k,p,c); } { PublicKey k; std::string hs=hex(s); for(auto&ch:hs) if(R.chance(1,3)) ch=toupper(ch); k.parse(hs); chk_key("parse hex",k,p,c); } { XBuf q(xy(p)); PublicKey k(q.p,c); chk_key("PublicKey(xy)",k,p,c); ECPoint e(q.p,c); chk_key("ECPoint(xy)",e,p,c); PublicKey k2=e; chk_key("PublicKey(point)",k2,p,c); }
  { Pt ev_; lift(p.x,false,ev_); XBuf xo(b32(p.x)); ECPoint k; size_t r=k.from_x(xo.p,xo.n); (void)r; chk_key("from_x",k,ev_,true); } 
  { // extra bytes after the key are not consumed
    Bytes t=s; t.push_back(7); t.push_back(9); XBuf b3(t); PublicKey k; size_t r=k.parse(b3.p,b3.n); if(r!=s.size()) fail("overconsumed","consumed %zu of a %zu-byte key",r,s.size()); chk_key("trailing data",k,p,c); } }
static void k_bad(uint64_t n){ Bytes s; Pt p=R.chance(1,2)?edgept():pmul(U256(1+R.below(1000)),G); int kind=n%9; switch(kind){ case 7: { Pt q=tinyy(); if(q.y.v[1]) q=pneg(q); U256 yp; unsigned __int128 c=0; for(int i=0;i<4;i++){ c+=(unsigned __int128)q.y.v[i]+P.v[i]; yp.v[i]=(uint64_t)c; c>>=64; } s=Bytes(1,R.chance(3,4)?4:6+(yp.v[0]&1)); app(s,b32(q.x)); app(s,b32(yp)); ev("bad.y-out-of-range"); break; } case 0: s=sec(p,true); s[0]=(uint8_t)(R.chance(1,2)?R.below(8):R.u32()); break; case 1: s=sec(p,false); s[0]=(uint8_t)(R.chance(1,2)?R.below(8):R.u32()); break; case 2: s=sec(p,true); s[1+R.below(32)]^=1<<R.below(8); break; case 3: s=sec(p,false); s[1+R.below(64)]^=1<<R.below(8); break; case 4: { s=Bytes(1,2+R.below(2)); app(s,b32(e256())); break; } case 5: { s=Bytes(1,4); app(s,b32(e256())); app(s,b32(e256())); break; } case 6: { // non-canonical coordinates x+p, y+p when they fit
      U256 x(R.below(1000)); Pt q; if(!lift(x,R.chance(1,2),q)) { s=sec(p,true); break; } U256 xp=x; unsigned __int128 c=0; for(int i=0;i<4;i++){ c+=(unsigned __int128)x.v[i]+P.v[i]; xp.v[i]=(uint64_t)c; c>>=64; } if(R.chance(1,2)){ s=Bytes(1,2+(q.y.v[0]&1)); app(s,b32(xp)); } else { s=Bytes(1,4); app(s,b32(xp)); app(s,b32(q.y)); } break; } default: s=sec(p,R.chance(1,2)); s.resize(R.below(s.size())); }
  if(s.size()>33&&(s[0]==2||s[0]==3)) s.resize(33); Pt e; bool ok=unsec(s,e); bool comp=s.size()==33; XBuf b(s); auto chk=[&](const char*how,const ECPoint&k,parse_status st){ ev(ok?"bad.stillvalid":"bad.rejected"); if(ok) chk_key(how,k,e,comp); else if(k.isValid()||(bool)k) fail("invalid-accepted","%s: %s accepted as %s",how,hex(s).c_str(),hex(pv(k)).c_str()); else if(st==PARSING_DONE&&s.size()) fail("invalid-accepted","%s: %s reported completely parsed",how,hex(s).c_str()); };
  { PublicKey k; k.parse(b.p,b.n); chk("parse",k,k.getStatus()); } { ECPoint k; k.fromSec(b.p,b.n); chk("fromSec",k,k.getStatus()); } { XStr h(hex(s)); PublicKey k((const char*)h); chk("hex",k,k.getStatus()); ECPoint k2((const char*)h); chk("ECPoint hex",k2,k2.getStatus()); } if(s.size()==65||(s.size()==33&&s[0]!=4)){ ECPoint k(b.p); chk("ECPoint(sec)",k,k.getStatus()); PublicKey k2(b.p); chk("PublicKey(sec)",k2,k2.getStatus()); }
  if(s.size()==65){ XBuf q(Bytes(s.begin()+1,s.end())); Pt t; Bytes u=s; u[0]=4; bool on=unsec(u,t); PublicKey k(q.p,R.chance(1,2)); if(k.isValid()!=on) fail(on?"valid-rejected":"invalid-accepted","raw coordinates %s isValid=%d",hex(u).c_str(),k.isValid()); ECPoint k2(q.p,R.chance(1,2)); if(k2.isValid()!=on) fail(on?"valid-rejected":"invalid-accepted","raw coordinates %s isValid=%d",hex(u).c_str(),k2.isValid()); ev("bad.rawxy"); }
  if(s.size()==33){ XBuf q(Bytes(s.begin()+1,s.end())); U256 x=u256(q.p); Pt t; bool on=cmp(x,P)<0&&lift(x,false,t); ECPoint k; k.from_x(q.p,32); if(on) chk_key("from_x",k,t,true); else if(k.isValid()) fail("invalid-accepted","x-only %s",hex(b32(x)).c_str()); ev("bad.xonly"); } seen(s.data(),s.size()); }
static void k_pieces(uint64_t n){ // several keys arriving alternately
  size_t m=2+R.below(2); std::vector<Pt> p(m); std::vector<Bytes> b(m); std::vector<size_t> pos(m,0); std::vector<PublicKey> k(m); for(size_t i=0;i<m;i++){ p[i]=R.chance(1,3)&&i?pneg(p[i-1]):R.chance(1,2)?edgept():pmul(U256(1+R.below(1000)),G); b[i]=sec(p[i],R.chance(3,4)); } for(size_t left=m;left;){ size_t i=R.below(m); if(pos[i]>=b[i].size()) continue; size_t l=1+R.below(R.chance(1,2)?b[i].size()-pos[i]:1); XBuf x(Bytes(b[i].begin()+pos[i],b[i].begin()+pos[i]+l)); k[i].parse(x.p,x.n); pos[i]+=l; if(pos[i]==b[i].size()) left--; } for(size_t i=0;i<m;i++) chk_key("in pieces",k[i],p[i],b[i].size()==33); ev("pieces",m); }
static void k_misc(uint64_t n){ // no key: default, infinity, reset, x buffer too short
  ECPoint a; PublicKey b; if(a.isValid()||b.isValid()||InfinityPoint.isValid()) fail("invalid-accepted","empty key reports valid"); PrivateKey z; if(z.isValid()||z.publicKey().isValid()) fail("invalid-accepted","empty private key"); Pt p=pmul(U256(1+n),G); XBuf s(sec(p)); PublicKey k(s.p); k.reset(); if(k.isValid()) fail("invalid-accepted","reset key still valid"); k.parse(s.p,s.n); chk_key("after reset",k,p,true); 
  // failed parse, then reset, then good parse
  PublicKey f; uint8_t bad[33]={5}; f.parse(bad,33); if(f.isValid()) fail("invalid-accepted","prefix 05"); f.reset(); f.parse(s.p,s.n); chk_key("after failure+reset",f,p,true); size_t l=R.below(32); XBuf sh(l); ECPoint q; q.from_x(sh.p,l); if(q.isValid()) fail("invalid-accepted","short x"); XBuf sx(l); if(k.x(sx.p,l)!=0) fail("short-x","x() wrote into %zu bytes",l); ev("misc"); }
static void k_smallx(uint64_t n){ // every small x exhaustively
  U256 x(n); for(int odd=0;odd<2;odd++){ Bytes s(1,2+odd); app(s,b32(x)); Pt p; bool on=lift(x,odd,p); XBuf b(s); PublicKey k(b.p); if(on) chk_key("small x",k,p,true); else if(k.isValid()) fail("invalid-accepted","x=%llu",(unsigned long long)n); U256 xm=subm(U256(0),U256(n+1),P); Bytes s2(1,2+odd); app(s2,b32(xm)); bool on2=lift(xm,odd,p); XBuf b2(s2); PublicKey k2(b2.p); if(on2) chk_key("large x",k2,p,true); else if(k2.isValid()) fail("invalid-accepted","x=p-%llu",(unsigned long long)n+1); } ev("smallx",4); }
WORKLOAD(C08,{"pieces",k_pieces,1},{"roundtrip",k_rt,4},{"invalid",k_bad,6},{"misc",k_misc,1},{"small-x",k_smallx,1})
// ---------------------------------------------------------------- C27
static void dh(uint64_t n){ U256 a=escalar(),b=escalar(); bool ca=R.chance(1,2),cb=R.chance(1,2); XBuf ab(b32(a)),bb(b32(b)); PrivateKey A(ab.p,ca),B_(bb.p,cb); Pt sh=pmul(mulm(a,b,N),G); Bytes e=ref::sha256(xy(sh)),ex=b32(sh.x); auto chk=[&](const char*w,PrivateKey&k,const PublicKey&q){ XBuf o(32); int r=k.ecdh(q,o.p); if(r!=1||o.bytes()!=e) fail("ecdh-mismatch","%s a=%s b=%s got %s want %s",w,hex(b32(a)).c_str(),hex(b32(b)).c_str(),hex(o.bytes()).c_str(),hex(e).c_str()); XBuf o2(32); k.ecdh(q,o2.p,false); if(o2.bytes()!=ex) fail("ecdh-mismatch","%s x only a=%s b=%s got %s want %s",w,hex(b32(a)).c_str(),hex(b32(b)).c_str(),hex(o2.bytes()).c_str(),hex(ex).c_str()); ev("ecdh.secrets",2); seen(o.p,32); };
  chk("A",A,B_.publicKey()); chk("B",B_,A.publicKey()); Bytes s=sec(pmul(b,G),n&1); XBuf sb(s); PublicKey Q(sb.p); chk("parsed peer key",A,Q); if(n%4==0){ XStr h(hex(s)); PublicKey Q2((const char*)h); chk("parsed hex peer",A,Q2); } if(n%8==0){ PrivateKey g(ab.p); PublicKey GP=GeneratorPoint; XBuf o(32); g.ecdh(GP,o.p,false); if(o.bytes()!=b32(pmul(a,G).x)) fail("ecdh-mismatch","with generator a=%s",hex(b32(a)).c_str()); } 
  if(n%5==0){ // peer key with an edge x coordinate, discrete log unknown
    Pt p=edgept(); XBuf q(sec(p,R.chance(1,2))); PublicKey Q3(q.p); XBuf o(32); A.ecdh(Q3,o.p); if(o.bytes()!=ref::sha256(xy(pmul(a,p)))) fail("ecdh-mismatch","edge peer a=%s P=%s",hex(b32(a)).c_str(),hex(q.bytes()).c_str()); ev("ecdh.edgepeer"); } }
// one argument changed at a time: the answer must not depend on what was asked before
static void dhn(uint64_t n){ U256 a=escalar(); Pt p=R.chance(1,3)?edgept():pmul(rscalar(),G); U256 a2=a; do a2.v[R.below(4)]^=1ull<<R.below(64); while(iszero(a2)||cmp(a2,N)>=0); for(int i=0;i<6;i++){ U256 k=i&&R.chance(1,2)?a2:a; Pt q=i&&R.chance(1,2)?(R.chance(1,2)?pneg(p):padd(p,G)):p; if(q.inf) q=p; bool hs=R.chance(1,2); XBuf kb(b32(k)),qb(sec(q,R.chance(1,2))),o(32); PrivateKey K(kb.p); PublicKey Q(qb.p); int r=K.ecdh(Q,o.p,hs); Pt s=pmul(k,q); if(r!=1||o.bytes()!=(hs?ref::sha256(xy(s)):b32(s.x))) fail("ecdh-mismatch","neighbours: k=%s Q=%s hash=%d got %s",hex(b32(k)).c_str(),hex(qb.bytes()).c_str(),hs,hex(o.bytes()).c_str()); ev("ecdh.neighbours"); } seen(b32(a).data(),32); }
WORKLOAD(C27,{"ecdh",dh,3},{"neighbours",dhn,1})
