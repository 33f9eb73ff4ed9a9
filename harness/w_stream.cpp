// C17 parsing in pieces, C18 serialization windows
#include "any.h"
using namespace ref;
static std::vector<size_t> cuts(size_t n){ std::vector<size_t> c; switch(R.below(6)){ case 0: for(size_t i=0;i<n;i++) c.push_back(1); break; case 1: { size_t a=R.below(n+1); c={a,n-a}; break; } case 2: { size_t k=1+R.below(7); for(size_t i=0;i<n;i+=k) c.push_back(std::min(k,n-i)); break; } case 3: { size_t p=0; while(p<n){ size_t l=std::min<size_t>(n-p,R.chance(1,5)?0:1+R.below(60)); c.push_back(l); p+=l; } break; } case 4: { size_t a=R.below(n+1),b=R.below(n-a+1); c={a,b,n-a-b}; break; } default: { size_t p=0; while(p<n){ size_t l=std::min<size_t>(n-p,R.chance(1,2)?1+R.below(3):1+R.below(n)); c.push_back(l); p+=l; } } } return c; }
// one parser among several being fed alternately
struct Job{ int k; Bytes b; OP o; std::vector<size_t> c; size_t ci=0,pos=0; bool hx,mix; Job(int kk,const Bytes&bb):k(kk),b(bb),o(anew(kk)){ c=cuts(b.size()); hx=R.chance(1,2); mix=R.chance(1,10); } };
static void s_pieces(uint64_t n){ size_t nj=R.chance(1,2)?1:2+R.below(2); std::vector<Job*> v; struct Clean{ std::vector<Job*>&v; ~Clean(){ for(auto*j:v) delete j; } } cl{v};
  for(size_t i=0;i<nj;i++){ int k=i==0||R.chance(1,2)?akind(n+i*(R.chance(1,2)?0:7)):akind(R.u32()); v.push_back(new Job(k,agen(k))); Job&j=*v.back(); if(R.chance(1,4)){ // the object has a past
      Bytes p=agen(k); feedp(j.o->s(),p.data(),p.size(),false); if(R.chance(1,3)){ Sink s; j.o->use(s); } bool pd=j.o->s().getStatus()==PARSING_DONE; if(pd&&k!=A_PRIV&&R.chance(1,3)){ j.o->mut(); ev("reused.edited"); } if(!pd){ fail("refused","%s %s in one piece",ANAME[k],shex(p,900).c_str()); return; } ev("reused"); } }
  size_t left=nj; while(left){ Job&j=*v[R.below(nj)]; if(j.ci>=j.c.size()) { bool any=false; for(auto*q:v) if(q->ci<q->c.size()) any=true; if(!any) break; continue; } size_t l=j.c[j.ci++]; bool hx=j.mix?R.chance(1,2):j.hx; size_t r=feedp(j.o->s(),j.b.data()+j.pos,l,hx); REQ(r==l,"count","%s: piece of %zu bytes at %zu of %zu, %zu reported (%s) in %s",ANAME[j.k],l,j.pos,j.b.size(),r,hx?"hex":"raw",shex(j.b,900).c_str()); j.pos+=l; parse_status st=j.o->s().getStatus(); if(j.pos<j.b.size()){ if(j.pos) REQ(st==PARSING_INCOMPLETE,"status","%s: status %d after %zu of %zu bytes of %s",ANAME[j.k],st,j.pos,j.b.size(),shex(j.b,900).c_str()); } else { REQ(st==PARSING_DONE||!l,"status","%s: status %d after all %zu bytes of %s",ANAME[j.k],st,j.b.size(),shex(j.b,900).c_str()); j.ci=j.c.size(); left--; } ev("pieces"); }
  for(auto*q:v){ Job&j=*q; OP w(anew(j.k)); size_t r=feedp(w->s(),j.b.data(),j.b.size(),R.chance(1,2)); REQ(r==j.b.size()&&w->s().getStatus()==PARSING_DONE,"refused","%s %s in one piece: %zu, status %d",ANAME[j.k],shex(j.b,900).c_str(),r,w->s().getStatus()); REQ(w->state()==j.o->state(),"different-object","%s parsed in %zu pieces (%s) differs from one piece: %s",ANAME[j.k],j.c.size(),j.hx?"hex":"raw",shex(j.b,900).c_str()); Bytes sv=ser(w->s()); REQ(sv==ser(j.o->s()),"different-object","%s serialization",ANAME[j.k]); if(j.k!=A_PSBT&&j.k!=A_ELEC) REQ(sv==j.b,"roundtrip","%s %s becomes %s",ANAME[j.k],shex(j.b,600).c_str(),shex(sv,600).c_str()); ev(ANAME[j.k]); seen(hash64(j.b.data(),j.b.size())^j.c.size()); } if(nj>1) ev("interleaved"); if(n<2) sample("%s of %zu bytes in %zu pieces",ANAME[v[0]->k],v[0]->b.size(),v[0]->c.size()); }
// every single boundary of one object
static void s_every(uint64_t n){ int k=akind(n); Bytes b=agen(k); if(b.size()>700) b=agen(k); if(b.size()>700){ ev("skipped"); return; } OP w(anew(k)); feedp(w->s(),b.data(),b.size(),false); Bytes want=w->state(); size_t st=1+b.size()/120; for(size_t a=1+R.below(st);a<b.size();a+=st){ OP o(anew(k)); bool hx=R.chance(1,4); size_t r=feedp(o->s(),b.data(),a,hx); REQ(r==a&&o->s().getStatus()==PARSING_INCOMPLETE,"status","%s: first %zu of %zu bytes: %zu consumed, status %d",ANAME[k],a,b.size(),r,o->s().getStatus()); r=feedp(o->s(),b.data()+a,b.size()-a,hx); REQ(r==b.size()-a&&o->s().getStatus()==PARSING_DONE,"status","%s: split at %zu of %zu: %zu consumed, status %d: %s",ANAME[k],a,b.size(),r,o->s().getStatus(),shex(b,900).c_str()); REQ(o->state()==want,"different-object","%s split at %zu of %s",ANAME[k],a,shex(b,900).c_str()); ev("splits"); } ev(ANAME[k]); seen(b.data(),b.size()); }
// a user-defined stream through which bytes arrive over time; several objects in a row
struct Drip:ParseStream{ const Bytes&b; size_t pos=0,lim=0; Drip(const Bytes&x):b(x){} size_t available()override{ return lim-pos; } int last=-1; int read()override{ return pos<lim?last=b[pos++]:-1; } size_t read(uint8_t*a,size_t l)override{ size_t i=0; while(i<l&&pos<lim) a[i++]=b[pos++]; if(i) last=a[i-1]; return i; } int getLast()override{ return last; } };
static void s_drip(uint64_t n){ Bytes all; std::vector<int> ks; std::vector<Bytes> bs; size_t m=1+R.below(3); for(size_t i=0;i<m;i++){ int k=akind(n*3+i); ks.push_back(k); bs.push_back(agen(k)); app(all,bs.back()); } Drip d(all); for(size_t i=0;i<m;i++){ OP o(anew(ks[i])); size_t got=0; int spin=0; size_t burst=1+R.below(R.chance(1,2)?4:80); while(got<bs[i].size()){ d.lim=std::min(all.size(),d.lim+R.below(burst+1)); if(d.lim==d.pos&&d.lim<all.size()) d.lim++; size_t a=d.pos,r=d.parse(&o->s()); got+=r; REQ(r==d.pos-a,"count","%s took %zu bytes from the stream and reported %zu",ANAME[ks[i]],d.pos-a,r); if(got<bs[i].size()) REQ(o->s().getStatus()==PARSING_INCOMPLETE,"status","%s: status %d after %zu of %zu",ANAME[ks[i]],o->s().getStatus(),got,bs[i].size()); REQ(r||++spin<5,"stuck","%s makes no progress at %zu of %zu",ANAME[ks[i]],got,bs[i].size()); if(r) spin=0; } REQ(got==bs[i].size()&&o->s().getStatus()==PARSING_DONE,"status","%s: %zu of %zu, status %d",ANAME[ks[i]],got,bs[i].size(),o->s().getStatus()); OP w(anew(ks[i])); feedp(w->s(),bs[i].data(),bs[i].size(),false); REQ(w->state()==o->state(),"different-object","%s from a slow stream: %s",ANAME[ks[i]],shex(bs[i],900).c_str()); ev("streamed"); } seen(all.data(),all.size()); }
// damaged or over-long input: pieces and whole agree
static void s_bad(uint64_t n){ int k=akind(n); Bytes b=agen(k); switch(R.below(4)){ case 0: app(b,R.bytes(1+R.below(20))); break; case 1: b.resize(R.below(b.size()+1)); break; case 2: if(b.size()) b[R.below(b.size())]^=1<<R.below(8); break; default: b=mutate(b); } if(b.empty()) return; OP w(anew(k)); bool hx=R.chance(1,2); size_t tw=feedp(w->s(),b.data(),b.size(),hx); parse_status sw=w->s().getStatus(); REQ(tw<=b.size(),"count","%s reported %zu of %zu bytes",ANAME[k],tw,b.size()); OP o(anew(k)); size_t to=0,pos=0; for(size_t l:cuts(b.size())){ if(!l&&!pos) continue; size_t r=feedp(o->s(),b.data()+pos,l,hx); pos+=l; to+=r; REQ(r<=l,"count","%s reported %zu of %zu bytes",ANAME[k],r,l); if(o->s().getStatus()!=PARSING_INCOMPLETE) break; REQ(r==l,"count","%s incomplete although %zu of %zu bytes were taken",ANAME[k],r,l); } parse_status so=o->s().getStatus(); if(k==A_ELEC&&so!=sw){} REQ(so==sw,"different-status","%s: %d in pieces, %d at once: %s",ANAME[k],so,sw,shex(b,1000).c_str()); if(sw!=PARSING_FAILED) REQ(to==tw,"count","%s: %zu in pieces, %zu at once of %s",ANAME[k],to,tw,shex(b,1000).c_str()); if(sw==PARSING_DONE){ REQ(w->state()==o->state(),"different-object","%s %s",ANAME[k],shex(b,1000).c_str()); ev("bad.done"); } else ev(sw==PARSING_FAILED?"bad.failed":"bad.incomplete");
  if(sw==PARSING_FAILED){ Bytes g=agen(k); size_t r=feedp(o->s(),g.data(),g.size(),false); REQ(o->s().getStatus()==PARSING_FAILED&&r==0,"status","%s accepts more input after failing",ANAME[k]); } seen(b.data(),b.size()); }
// parsing abandoned half-way or failed, then reset() and another object
static void s_reset(uint64_t n){ int k=akind(n); OP o(anew(k)); Bytes b=agen(k); if(R.chance(1,3)) b=mutate(b); size_t a=R.below(b.size()+1); feedp(o->s(),b.data(),a,false); if(R.chance(1,3)) feedp(o->s(),b.data()+a,R.below(b.size()-a+1),false); o->s().reset(); REQ(o->s().getStatus()==PARSING_DONE,"status","%s after reset: %d",ANAME[k],o->s().getStatus()); Bytes g=agen(k); size_t pos=0; for(size_t l:cuts(g.size())){ if(!l) continue; size_t r=feedp(o->s(),g.data()+pos,l,false); pos+=l; REQ(r==l,"count","%s after reset: %zu of %zu at %zu of %zu",ANAME[k],r,l,pos,g.size()); } OP w(anew(k)); feedp(w->s(),g.data(),g.size(),false); REQ(o->s().getStatus()==PARSING_DONE&&o->state()==w->state(),"different-object","%s parsed after %zu bytes of another one and reset: %s after %s",ANAME[k],a,shex(g,600).c_str(),shex(b,600).c_str()); ev("resets"); seen(g.data(),g.size()); }
// the byte stream itself: every byte once, in order, and nothing beyond the end or behind a character that is not hexadecimal
static void s_bytes(uint64_t n){ Bytes b=R.bytes(elen(300)); bool hx=n&1; std::string t=hex(b); size_t good=b.size(); if(hx){ for(auto&c:t) if(R.chance(1,4)) c=toupper(c); if(R.chance(1,3)) t+="a"; else if(R.chance(1,3)&&t.size()){ static const char bad[]="gG/:@`xX \n\xff"; size_t p=R.below(t.size()); t[p]=bad[R.below(sizeof(bad)-1)]; good=p/2; } } XBuf raw(hx?Bytes(t.begin(),t.end()):b); XStr z(t); bool str=hx&&R.chance(1,3); ParseByteStream rs(raw.p,raw.n,hx?HEX_ENCODING:RAW),zs(z,HEX_ENCODING); ParseByteStream&s=str?zs:rs; size_t pos=0; for(int k=0;k<60&&pos<=good;k++){ size_t av=s.available(); REQ((av==0)==(pos==good),"stream","available %zu after %zu of %zu bytes",av,pos,good); if(good==b.size()) REQ(av==b.size()-pos,"stream","available %zu after %zu of %zu bytes",av,pos,good); if(R.chance(1,2)){ int c=s.read(); REQ(c==(pos<good?(int)b[pos]:-1),"stream","byte %zu of %zu read as %d",pos,good,c); if(pos<good){ REQ(s.getLast()==b[pos],"stream","last byte"); pos++; } } else { size_t l=R.below(R.chance(1,3)?80:6); XBuf o(l); size_t w=std::min(l,good-pos); size_t r=s.read(o.p,o.n); REQ(r==w&&!memcmp(o.p,b.data()+pos,w),"stream","read of %zu at %zu of %zu returned %zu",l,pos,good,r); pos+=w; if(w) REQ(s.getLast()==b[pos-1],"stream","last byte after a block"); } ev("stream.reads"); } seen(raw.p,raw.n); }
WORKLOAD(C17,{"byte-stream",s_bytes,1},{"reset",s_reset,2},{"pieces",s_pieces,6},{"boundaries",s_every,2},{"slow",s_drip,4},{"damaged",s_bad,5})
// ---------------------------------------------------------------- C18
static Obj*built(int k,Bytes&full){ // an object in one of its usual states
  OP o(anew(k)); bool blank=R.chance(1,25); if(!blank){ Bytes b=agen(k); feedp(o->s(),b.data(),b.size(),false); if(o->s().getStatus()!=PARSING_DONE){ fail("refused","%s %s",ANAME[k],shex(b,900).c_str()); return nullptr; } if(k==A_PSBT&&R.chance(1,2)) static_cast<ObjT<PSBT>&>(*o).o.sign(anyroot()); if(k==A_ELEC&&R.chance(1,2)) static_cast<ObjT<ElectrumTx>&>(*o).o.sign(anyacc()); if(k==A_TX&&R.chance(1,8)){ Tx&t=static_cast<ObjT<Tx>&>(*o).o; size_t n=253+R.below(30); bool in=R.chance(1,2); TxIn x; TxOut y(5,Script()); while(in?t.inputsNumber<n:t.outputsNumber<n) in?t.addInput(x):t.addOutput(y); } } else ev("blank"); full=ser(o->s()); Obj*r=o.p; o.p=nullptr; return r; }
struct Cap:SerializeStream{ Bytes b; size_t lim; Cap(size_t l):lim(l){} size_t available()override{ return lim-b.size(); } size_t write(uint8_t c)override{ if(b.size()>=lim) return 0; b.push_back(c); return 1; } size_t write(const uint8_t*a,size_t l)override{ size_t i=0; while(i<l&&b.size()<lim) b.push_back(a[i++]); return i; } };
static bool win(Streamable&o,const Bytes&full,size_t off,size_t sz,int mode,const char*nm){ size_t want=off>=full.size()?0:std::min(sz,full.size()-off); Bytes slice(full.begin()+std::min(off,full.size()),full.begin()+std::min(off,full.size())+want); ev("windows"); if(mode==0){ XBuf x(sz); size_t r=o.serialize(x.p,x.n,off,RAW); Bytes g=x.bytes(); g.resize(std::min(r,g.size())); if(r!=want||g!=slice){ fail("wrong-window","%s raw [%zu,+%zu) of %zu: returned %zu bytes %s, want %s",nm,off,sz,full.size(),r,shex(g,300).c_str(),shex(slice,300).c_str()); return false; } }
  else if(mode==1){ size_t cs=2*sz+R.below(2); XBuf x(cs); size_t r=R.chance(1,2)?o.serialize(x.p,x.n,off,HEX_ENCODING):o.serialize(x.c(),x.n,off); std::string g((char*)x.p,std::min(2*r,cs)); if(r!=want||g!=hex(slice)){ fail("wrong-window","%s hex [%zu,+%zu) of %zu: returned %zu, %s want %s",nm,off,sz,full.size(),r,g.substr(0,300).c_str(),shex(slice,300).c_str()); return false; } }
  else if(mode==2){ std::string g=R.chance(2,3)?o.serialize(off,sz):R.chance(1,2)?o.serialize((int)off,(int)sz):o.serialize(off,(int)sz); if(sz==0) slice.assign(full.begin()+std::min(off,full.size()),full.end()); if(g!=hex(slice)){ fail("wrong-window","%s text [%zu,+%zu) of %zu: %s want %s",nm,off,sz,full.size(),g.substr(0,300).c_str(),shex(slice,300).c_str()); return false; } }
  else { Cap c(sz); size_t r=c.serialize(&o,off); if(r!=want||c.b!=slice){ fail("wrong-window","%s stream [%zu,+%zu) of %zu: returned %zu bytes %s, want %s",nm,off,sz,full.size(),r,shex(c.b,300).c_str(),shex(slice,300).c_str()); return false; } } return true; }
static void w_win(uint64_t n){ int k=akind(n); Bytes full; Obj*q=built(k,full); if(!q) return; OP o(q); Streamable&s=o->s(); REQ(s.length()==full.size(),"length","%s: length %zu, serialization %zu",ANAME[k],s.length(),full.size()); { XBuf x(full.size()+1+R.below(50)); size_t r=s.serialize(x.p,x.n); Bytes g=x.bytes(); g.resize(std::min(r,g.size())); REQ(r==full.size()&&g==full,"length","%s: %zu bytes with room to spare, length %zu",ANAME[k],r,full.size()); } std::string nm=ANAME[k]; size_t L=full.size(); size_t rounds=L>5000?20:80; for(size_t i=0;i<rounds;i++){ size_t off,sz; switch(R.below(6)){ case 0: off=R.below(L+1); sz=R.below(4); break; case 1: off=L+R.below(40); sz=R.below(40); break; case 2: off=R.chance(1,2)?R.below(std::min<size_t>(L,12)+1):L-R.below(std::min<size_t>(L,12)+1); sz=R.below(12); break; case 3: off=R.below(L+1); sz=R.below(L-off+1)+(R.chance(1,4)?R.below(9):0); break; case 4: off=R.below(L+1); sz=1; break; default: off=R.below(L+1); sz=R.below(80); } if(!win(s,full,off,sz,i%4,nm.c_str())) return; }
  if(L>65000||R.chance(1,10)){ size_t off=R.chance(1,2)?0:R.below(20); if(!win(s,full,off,0,2,nm.c_str())) return; ev("whole-text"); }
  // consecutive windows concatenate
  { Bytes c; size_t w=1+R.below(R.chance(1,2)?9:200); if(L/w>400) w=L/400+1; while(c.size()<L){ XBuf x(w); size_t r=s.serialize(x.p,x.n,c.size()); REQ(r&&r<=w,"wrong-window","%s: windows of %zu stop at %zu of %zu",nm.c_str(),w,c.size(),L); app(c,x.p,r); } REQ(c==full,"wrong-window","%s: consecutive windows of %zu bytes",nm.c_str(),w); } if(R.chance(1,6)) for(size_t off: {(size_t)-1,(size_t)-2,(size_t)1<<32,(size_t)1<<63}) { XBuf x(8); size_t r=s.serialize(x.p,x.n,off); REQ(r==0,"wrong-window","%s: %zu bytes at offset %zu",nm.c_str(),r,off); } ev(ANAME[k]); seen(full.data(),full.size()); if(n<2) sample("%s of %zu bytes, %zu windows",nm.c_str(),L,rounds); }
// every offset
static void w_all(uint64_t n){ int k=akind(n); Bytes full; Obj*q=built(k,full); if(!q) return; OP o(q); if(full.size()>1500) return; size_t w=1+R.below(3); for(size_t off=0;off<=full.size()+1;off++) if(!win(o->s(),full,off,w,off%4==2?3:off%4,ANAME[k])) return; ev("all-offsets"); seen(full.data(),full.size()); }
// the bounded byte stream: accepts bytes exactly up to its capacity
static void w_bytes(uint64_t n){ size_t cap=elen(150); bool hx=n&1; XBuf o(cap); size_t room=hx?cap/2:cap; Bytes m; SerializeByteStream rs(o.p,o.n,hx?HEX_ENCODING:RAW),cs(o.c(),o.n,hx?HEX_ENCODING:RAW); SerializeByteStream&s=R.chance(1,2)?rs:cs; for(int k=0;k<30;k++){ REQ(s.available()==room-m.size(),"stream","available %zu, %zu of %zu written",s.available(),m.size(),room); if(R.chance(1,2)){ uint8_t c=R.u32(); size_t r=s.write(c); REQ(r==(m.size()<room?1u:0u),"stream","write returned %zu",r); if(m.size()<room) m.push_back(c); } else { Bytes x=R.bytes(R.below(R.chance(1,3)?60:6)); XBuf xb(x); size_t r=s.write(xb.p,xb.n),w=std::min(x.size(),room-m.size()); REQ(r==w,"stream","write of %zu with room for %zu returned %zu",x.size(),room-m.size(),r); app(m,x.data(),w); } ev("stream.writes"); } std::string h=hex(m); Bytes want=hx?Bytes(h.begin(),h.end()):m; want.resize(cap,0); REQ(o.bytes()==want,"stream","content %s want %s",shex(o.bytes(),300).c_str(),shex(want,300).c_str()); seen(m.data(),m.size()); }
WORKLOAD(C18,{"byte-stream",w_bytes,1},{"windows",w_win,4},{"offsets",w_all,3})
