// C23 Electrum unsigned transactions
#include "electrum.h"
using namespace ref;
static HDPrivateKey lacc(const HD&h,const Network*net,int kind){ const uint8_t*v=prvver(net,kind); return HDPrivateKey(XStr(base58check(hd_ser(h,Bytes(v,v+4),false)))); }
static void pieces(Streamable&o,const Bytes&b){ size_t p=0; while(p<b.size()){ size_t l=1+R.below(std::min<size_t>(b.size()-p,R.chance(1,4)?200:24)); XBuf x(Bytes(b.begin()+p,b.begin()+p+l)); o.parse(x.p,x.n,RAW); p+=l; } }
static bool fees(const ElectrumTx&t,const EM&e,std::string&why){ unsigned __int128 a=0,o=0; bool zero=false; for(auto&x:e.in){ a+=x.amt; if(!x.amt) zero=true; } for(auto&x:e.tx.out) o+=x.amt; uint64_t f=t.fee(); if(!e.seg){ if(f){ why="fee without known amounts"; return false; } return true; } if(zero) return true; if(a<o){ if(f){ why="negative fee reported as "+std::to_string(f); return false; } ev("fee.negative"); return true; } if((a>>64)||(o>>64)){ if(f&&(unsigned __int128)f!=a-o){ why="overflow"; return false; } return true; } if(f!=(uint64_t)(a-o)){ why="fee "+std::to_string(f)+" want "+std::to_string((uint64_t)(a-o)); return false; } ev("fee.exact"); return true; }
static bool stack_of(const Bytes&w,std::vector<Bytes>&v){ v.clear(); size_t p=0; if(w.empty()||w[0]>=0xfd) return false; size_t c=w[p++]; for(size_t i=0;i<c;i++){ if(p>=w.size()||w[p]>=0xfd) return false; size_t l=w[p++]; if(p+l>w.size()) return false; v.push_back(Bytes(w.begin()+p,w.begin()+p+l)); p+=l; } return p==w.size(); }
static bool pushes(const Bytes&s,std::vector<Bytes>&v){ v.clear(); size_t p=0; while(p<s.size()){ size_t l=s[p++]; if(l>75||p+l>s.size()) return false; v.push_back(Bytes(s.begin()+p,s.begin()+p+l)); p+=l; } return true; }
struct ES{ EM e; ElectrumTx t; TX x; std::vector<bool> done; };
static bool e_load(ES&s){ EM&e=s.e; ElectrumTx&t=s.t; Bytes b=eser(e); bool again=R.chance(1,5); if(again) feed(t,eser(relec(2)),false); if(R.chance(1,2)) pieces(t,b); else feed(t,b,R.chance(1,2)); REQ0(t.getStatus()==PARSING_DONE,"refused","%s input %s, status %d",e.seg?"segwit":"legacy",shex(b,1200).c_str(),t.getStatus()); std::string why; REQ0(same_elec(t,e,why),"wrong-field","%s in %s",why.c_str(),shex(b,1200).c_str()); REQ0(fees(t,e,why),"wrong-fee","%s",why.c_str()); REQ0(ser(t)==tx_ser(e.tx,false),"wrong-serialization","unsigned transaction %s",shex(ser(t)).c_str()); ev(e.seg?"parsed.segwit":"parsed.legacy"); s.x=e.tx; s.done.assign(e.in.size(),false); seen(b.data(),b.size()); return true; }
// sign with one of the recorded accounts, or with a key that only resembles one
static bool e_round(ES&z_,uint64_t n,size_t&want){ EM&e=z_.e; ElectrumTx&t=z_.t; TX&x=z_.x; std::string why; want=0; size_t fresh=0;
  EIn&s=e.in[R.below(e.in.size())]; HD key=s.hd; int tw=n%3?0:1+R.below(5); switch(tw){ case 1: key.cc[R.below(32)]^=1<<R.below(8); break; case 2: key=root(3).at(s.acc); break; case 3: key.k=subm(U256(0),key.k,N); key.K=pneg(key.K); break; case 4: { Path p=s.acc; p.push_back(s.d[0]); key=s.r->at(p); break; } case 5: key=s.r->m; break; default:; } 
  HDPrivateKey acc=lacc(key,e.net,R.chance(2,3)?s.kind:R.below(3)); size_t cnt=t.sign(acc); for(size_t i=0;i<e.in.size();i++){ EIn&y=e.in[i]; std::string gs=hex(sbytes(t.tx.txIns[i].scriptSig)),gw=hex(ser(t.tx.txIns[i].witness)); bool mine=!cmp(y.hd.k,key.k)&&y.hd.cc==key.cc; if(!mine){ if(z_.done[i]) continue; REQ0(sbytes(t.tx.txIns[i].scriptSig)==e.tx.in[i].ss&&t.tx.txIns[i].witness.count()==0,"signed-foreign","input %zu (twist %d): scriptSig %s witness %s",i,tw,gs.c_str(),gw.c_str()); ev("foreign"); continue; } want++; if(!z_.done[i]) fresh++; z_.done[i]=true; HD c=hd_ckd_priv(hd_ckd_priv(key,y.d[0]),y.d[1]); Bytes pub=sec(c.K),h=hash160(pub),dig; std::vector<Bytes> st; if(y.kind==0){ REQ0(pushes(sbytes(t.tx.txIns[i].scriptSig),st)&&st.size()==2&&t.tx.txIns[i].witness.count()==0,"not-signed","legacy input %zu scriptSig %s witness %s",i,gs.c_str(),gw.c_str()); dig=sighash_legacy(e.tx,i,p2pkh(h),1); x.in[i].ss=sbytes(t.tx.txIns[i].scriptSig); ev("signed.legacy"); } else { REQ0(stack_of(ser(t.tx.txIns[i].witness),st)&&st.size()==2,"not-signed","segwit input %zu witness %s",i,gw.c_str()); Bytes ss=y.kind==2?pushdata(p2wpkh(h)):Bytes(); REQ0(sbytes(t.tx.txIns[i].scriptSig)==ss,"wrong-scriptsig","input %zu: %s",i,gs.c_str()); dig=sighash_v0(e.tx,i,p2pkh(h),y.amt,1); x.in[i].ss=ss; x.in[i].wit=st; ev(y.kind==2?"signed.nested":"signed.native"); }
    REQ0(st[1]==pub,"wrong-key","input %zu signed with %s want %s (path %u/%u)",i,hex(st[1]).c_str(),hex(pub).c_str(),y.d[0],y.d[1]); Bytes r,z; REQ0(st[0].size()>8&&st[0].back()==1&&understrict(Bytes(st[0].begin(),st[0].end()-1),r,z),"bad-signature","input %zu form %s",i,hex(st[0]).c_str()); REQ0(ecdsa_verify(c.K,dig,u256(r.data()),u256(z.data()))&&cmp(u256(z.data()),NHALF)<=0,"bad-signature","input %zu kind %d amount %llu does not verify",i,y.kind,(unsigned long long)y.amt); }
  REQ0(cnt<=want&&cnt>=fresh,"wrong-count","returned %zu, signed %zu (twist %d)",cnt,want,tw); REQ0(ser(t)==tx_ser(x)&&t.length()==tx_ser(x).size(),"wrong-serialization","signed transaction"); REQ0(same_tx(t.tx,x,why),"tx-changed","%s",why.c_str()); if(tw) ev("lookalike"); return true; }
static void e_sign(uint64_t n){ ES a; a.e=relec(R.chance(1,20)?20:R.chance(1,120)?252:4); if(a.e.in.size()>50) ev("large"); EM&e=a.e; if(R.chance(1,2)) for(auto&o:e.tx.out) o.amt=o.amt%1000; if(!e_load(a)) return; size_t want=0; if(!e_round(a,n,want)) return; if(n<2) sample("%s, %zu inputs, %zu signed",e.seg?"segwit":"legacy",e.in.size(),want); if(!R.chance(1,5)) return;
  // further accounts, and a transaction that differs in one place, signed alternately
  ES b; b.e=a.e; EM&f=b.e; size_t i=R.below(f.in.size()); for(size_t k=0;k<f.in.size();k++) f.tx.in[k].ss.clear(); switch(R.below(7)){ case 0: if(f.seg) f.in[i].amt^=1ull<<R.below(40); break; case 1: f.in[i].d[1]^=1<<R.below(16); break; case 2: f.tx.lock^=1u<<R.below(32); break; case 3: f.tx.out[R.below(f.tx.out.size())].amt^=1ull<<R.below(40); break; case 4: f.tx.in[i].n^=1u<<R.below(32); break; case 5: f.tx.in[i].prev[R.below(32)]^=1<<R.below(8); break; default: { EIn&x=f.in[i]; x.r=&root(R.below(3)); x.hd=x.r->at(x.acc); const uint8_t*v=pubver(f.net,x.kind); x.xpub=hd_ser(x.hd,Bytes(v,v+4),true); } } if(!e_load(b)) return; size_t rounds=1+R.below(3); for(size_t r=0;r<rounds;r++) if(!e_round(r%2?a:b,R.below(6),want)) return; ev("alternately"); if(R.chance(1,3)){ ES c; c.e=b.e; c.t=a.t; c.t=b.t; c.x=b.x; c.done=b.done; if(!e_round(c,1,want)) return; if(!e_round(b,1,want)) return; ev("copied"); } std::string why; REQ(fees(a.t,a.e,why)&&fees(b.t,b.e,why),"wrong-fee","%s after signing",why.c_str()); }
static void e_bad(uint64_t n){ EM e=relec(3); Bytes b=eser(e); std::string what; size_t wit=b.size()-4-102*e.in.size(); size_t i=R.below(e.in.size()); switch(n%8){ case 5: { what="bytes after the extended key of a legacy input"; e.seg=false; TX t=e.tx; for(size_t j=0;j<t.in.size();j++){ Bytes s={0x01,0xff,0x4c,0x53,0xff}; app(s,e.in[j].xpub); le(s,e.in[j].d[0],2); le(s,e.in[j].d[1],2); if(j==i){ if(R.chance(2,3)) app(s,R.bytes(1+R.below(6))); else s.resize(s.size()-1-R.below(4)); } t.in[j].ss=s; } b=Bytes{0x45,0x50,0x54,0x46,0xff,0x00}; app(b,tx_ser(t,false)); break; }
    case 6: { what="damaged witness"; if(!e.seg){ e.seg=true; for(auto&x:e.in) x.amt=1; b=eser(e); wit=b.size()-4-102*e.in.size(); } Bytes w; size_t c=1+R.below(4); w.push_back(c); for(size_t k=0;k+1<c&&R.chance(2,3);k++) app(w,varstr(R.bytes(R.below(12)))); if(R.chance(1,2)) app(w,Bytes{0xfe,0xff,0xff,0xff,0xff}); else { w.push_back(0xff); app(w,Bytes(8,0xff)); } if(R.chance(1,2)) b.insert(b.begin()+wit,w.begin(),w.end()); else { for(size_t k=0;k<w.size()&&wit+k<b.size();k++) b[wit+k]=w[k]; } TX z; size_t u; if(tx_parse(Bytes(b.begin()+6,b.end()),z,&u)) return; break; }
    case 0: what="prefix"; b[R.below(6)]^=1<<R.below(8); break; case 1: what="cut"; b.resize(R.below(b.size())); break; case 2: { what="extended key prefix"; size_t p=e.seg?wit+102*i+20:0; if(!e.seg){ auto it=std::search(b.begin(),b.end(),e.in[i].xpub.begin(),e.in[i].xpub.end()); p=it-b.begin(); } b[p+R.below(4)]^=1<<R.below(8); bool known=false; for(auto*nt:NETS) for(int k=0;k<5;k++){ const uint8_t*v=(const uint8_t*)(k==0?nt->xpub:k==1?nt->ypub:k==2?nt->zpub:k==3?nt->Ypub:nt->Zpub); if(!memcmp(&b[p],v,4)) known=true; } if(known) return; break; }
    case 3: { what="extended key point"; auto it=std::search(b.begin(),b.end(),e.in[i].xpub.begin(),e.in[i].xpub.end()); size_t p=it-b.begin(); switch(R.below(4)){ case 0: b[p+45]=R.chance(1,2)?0:4+R.below(250); break; case 1: for(int k=0;k<32;k++) b[p+46+k]=0; break; case 2: for(int k=0;k<32;k++) b[p+46+k]=0xff; break; default: { Pt q; Bytes z; do{ z=R.bytes(32); }while(lift(u256(z.data()),false,q)); std::copy(z.begin(),z.end(),b.begin()+p+46); } } break; }
    case 4: what="unsigned-input marker"; if(!e.seg){ e.seg=true; for(auto&x:e.in) x.amt=1; b=eser(e); wit=b.size()-4-102*e.in.size(); } b[wit+102*i+R.below(5)]^=1<<R.below(8); { TX w; size_t u; if(tx_parse(Bytes(b.begin()+6,b.end()),w,&u)) return; } if(i==0&&b[wit]<0xfd) return; if(b[wit+102*i]==0xff) return; break;
    default: { what="script of a legacy input"; e.seg=false; b=Bytes{0x45,0x50,0x54,0x46,0xff,0x00}; TX t=e.tx; for(auto&x:t.in) x.ss=R.bytes(R.chance(1,2)?R.below(87):88+R.below(20)); app(b,tx_ser(t,false)); } }
  ElectrumTx t; if(R.chance(1,2)) pieces(t,b); else feed(t,b,R.chance(1,2)); REQ(t.getStatus()!=PARSING_DONE||(b.empty()),"malformed-accepted","%s: %s",what.c_str(),shex(b,1200).c_str()); t.sign(lacc(e.in[0].hd,e.net,0)); t.fee(); ser(t); ElectrumTx c(t); ev(("bad."+what).c_str()); seen(b.data(),b.size()); }
WORKLOAD(C23,{"sign",e_sign,3},{"malformed",e_bad,2})
