// C02: hashes, HMAC, tagged hash, PBKDF2 equal the standards for every length, chunking, reuse and interleaving
#include "common.h"
#include "Hash.h"
#include <unistd.h>
extern "C" {
#include "utility/trezor/pbkdf2.h"
}
using namespace ref;
static const char*AN[]={"rmd160","sha256","hash160","doubleSha","sha512"};
static Bytes refh(int a,const Bytes&m){ switch(a){ case 0:return rmd160(m); case 1:return ref::sha256(m); case 2:return ref::hash160(m); case 3:return dsha(m); default:return ref::sha512(m);} }
static size_t HL(int a){ return a==4?64:(a==0||a==2)?20:32; }
static int one(int a,const uint8_t*d,size_t n,uint8_t*o){ switch(a){ case 0:return ::rmd160(d,n,o); case 1:return ::sha256(d,n,o); case 2:return ::hash160(d,n,o); case 3:return doubleSha(d,n,o); default:return ::sha512(d,n,o);} }
static int onec(int a,const char*d,size_t n,uint8_t*o){ switch(a){ case 0:return ::rmd160(d,n,o); case 1:return ::sha256(d,n,o); case 2:return ::hash160(d,n,o); case 3:return doubleSha(d,n,o); default:return ::sha512(d,n,o);} }
static int ones(int a,const std::string&s,uint8_t*o){ switch(a){ case 0:return ::rmd160(s,o); case 1:return ::sha256(s,o); case 2:return ::hash160(s,o); case 3:return doubleSha(s,o); default:return ::sha512(s,o);} }
static HashAlgorithm*mk(int a){ switch(a){ case 0:return new RMD160; case 1:return new SHA256; case 2:return new Hash160; case 3:return new DoubleSha; default:return new SHA512; } }
static void rebegin(int a,HashAlgorithm*h){ switch(a){ case 0:((RMD160*)h)->begin();break; case 1: case 2: case 3:((SHA256*)h)->begin();break; default:((SHA512*)h)->begin(); } }
static void del(int a,HashAlgorithm*h){ switch(a){ case 0:delete (RMD160*)h;break; case 1:delete (SHA256*)h;break; case 2:delete (Hash160*)h;break; case 3:delete (DoubleSha*)h;break; default:delete (SHA512*)h; } }
static void check(int a,const char*how,const Bytes&m,const uint8_t*o){ Bytes e=refh(a,m); if(memcmp(e.data(),o,HL(a))) fail("hash-mismatch","%s via %s len=%zu got %s want %s msg=%s",AN[a],how,m.size(),hex(o,HL(a)).c_str(),hex(e).c_str(),hex(m).substr(0,200).c_str()); seen(o,HL(a)); }
static void oneshot(uint64_t n){ // length n enumerated exhaustively up to 700, then edge-biased
  size_t len = n<700? n : (n%50==0? 60000+R.below(20000) : elen(3000)); Bytes m= R.chance(1,2)?R.bytes(len):ebytes(len); XBuf in(m);
  for(int a=0;a<5;a++){ XBuf o(HL(a)); int r=one(a,in.p,in.n,o.p); if(r!=(int)HL(a)) fail("hash-length","%s returned %d",AN[a],r); check(a,"one-shot",m,o.p);
    if(n%3==0){ XBuf o2(HL(a)); onec(a,(const char*)in.p,in.n,o2.p); check(a,"char*",m,o2.p); XBuf o3(HL(a)); ones(a,std::string((char*)in.p,in.n),o3.p); check(a,"string",m,o3.p); } }
  if(in.bytes()!=m) fail("input-changed","input modified"); ev("hash.oneshot",5); if(n==700) sample("all lengths 0..699 hashed for 5 algorithms"); }
static void feed(HashAlgorithm*h,const Bytes&m,size_t&p,size_t k){ XBuf c(Bytes(m.begin()+p,m.begin()+p+k)); size_t w; if(k==1&&R.chance(1,2)) w=h->write(c.p[0]); else w=h->write(c.p,k); if(w!=k) fail("write-count","write returned %zu for %zu bytes",w,k); p+=k; ev("hash.chunks"); }
static void chunked(uint64_t n){ // several live hashers, chunks interleaved in random order, objects re-used after begin()
  int live=R.range(1,4); std::vector<int> al(live); std::vector<HashAlgorithm*> hs(live); std::vector<Bytes> ms(live); std::vector<size_t> ps(live,0); std::vector<int> left(live,R.range(1,3)); uint64_t sched=1469598103934665603ull;
  auto newmsg=[&](int i){ ms[i]=ebytes(elen(700)); ps[i]=0; };
  for(int i=0;i<live;i++){ al[i]=R.below(5); hs[i]=mk(al[i]); newmsg(i); }
  int alive=live; while(alive){ int i=R.below(live); if(!left[i]) continue; sched=(sched^i)*1099511628211ull; size_t rem=ms[i].size()-ps[i]; size_t k; switch(R.below(5)){ case 0:k=0;break; case 1:k=1;break; case 2:k=63+R.below(3);break; case 3:k=R.below(rem+1);break; default:k=127+R.below(3); } if(k>rem) k=rem; feed(hs[i],ms[i],ps[i],k); sched=(sched^k)*1099511628211ull;
    if(ps[i]==ms[i].size()&&R.chance(2,3)){ XBuf o(HL(al[i])); hs[i]->end(o.p); check(al[i],"chunked/interleaved",ms[i],o.p); if(--left[i]){ rebegin(al[i],hs[i]); if(R.chance(1,4)){ // abandoned partial message before a fresh begin
            uint8_t junk[40]={7}; hs[i]->write(junk,R.below(40)); rebegin(al[i],hs[i]); } newmsg(i);} else { del(al[i],hs[i]); alive--; } } }
  seen(sched); ev("hash.interleavings"); }
static void hmac(uint64_t n){ size_t kl=n<300?n:elen(400),ml=elen(400); Bytes k=ebytes(kl),m=ebytes(ml); XBuf K(k),M(m); Bytes e2=hmac256(k,m),e5=hmac512(k,m);
  { XBuf o(32); int rr=sha256Hmac(K.p,K.n,M.p,M.n,o.p); if(rr!=32) fail("hash-length","sha256Hmac returned %d",rr); if(o.bytes()!=e2) fail("hmac-mismatch","hmac-sha256 klen=%zu mlen=%zu",kl,ml); seen(o.p,32); }
  { XBuf o(64); int rr=sha512Hmac(K.p,K.n,M.p,M.n,o.p); if(rr!=64) fail("hash-length","sha512Hmac returned %d",rr); if(o.bytes()!=e5) fail("hmac-mismatch","hmac-sha512 klen=%zu mlen=%zu",kl,ml); seen(o.p,64); }
  // streaming, two MACs interleaved on different objects, plus a plain hash on the same object afterwards
  SHA256 a; SHA512 b; a.beginHMAC(K.p,K.n); b.beginHMAC(K.p,K.n); size_t pa=0,pb=0; while(pa<ml||pb<ml){ if(R.chance(1,2)&&pa<ml){ size_t c=1+R.below(ml-pa); feed(&a,m,pa,c);} else if(pb<ml){ size_t c=1+R.below(ml-pb); feed(&b,m,pb,c);} }
  XBuf oa(32),ob(64); a.endHMAC(oa.p); b.endHMAC(ob.p); if(oa.bytes()!=e2) fail("hmac-mismatch","streamed hmac-sha256 klen=%zu mlen=%zu",kl,ml); if(ob.bytes()!=e5) fail("hmac-mismatch","streamed hmac-sha512 klen=%zu mlen=%zu",kl,ml);
  a.begin(); a.write(M.p,M.n); a.end(oa.p); check(1,"after-hmac",m,oa.p); b.begin(); b.write(M.p,M.n); b.end(ob.p); check(4,"after-hmac",m,ob.p);
  // output may alias key and data (deterministic nonces rely on it)
  Bytes kv=ebytes(32); XBuf al(kv); sha256Hmac(al.p,32,M.p,M.n,al.p); if(al.bytes()!=hmac256(kv,m)) fail("hmac-alias","hmac-sha256 writing over its key"); XBuf al2(kv); sha256Hmac(K.p,K.n,al2.p,32,al2.p); if(al2.bytes()!=hmac256(k,kv)) fail("hmac-alias","hmac-sha256 writing over its message"); ev("hmac.checked",8); }
// messages of more than 2^32 bits (thorough: 2^32 bytes), where length counters carry; digests of 0x5a... computed with OpenSSL
static void huge(uint64_t n){ static const char*W[2][3]={{"26c5fed949c187663161a94902bdf8411d19654e","a6a6469d84a4643950ff2319adfdaa6d9d59828fe84167f4ec05134565982dbc","dfd664b17de2000272619e1ef367d9fcadf6598304e2701975e7e7b6d232f36e033f785f9b8817e824c79de73c8b42783a6c67c9c267315b7e9619b8ed33efdd"},{"80c9f85051004618bd3b75737d91f3c9cbc37be3","fd0d9374de700c3e400b1ad520a92887c9985c192f1904a1ec52362a0fef77b4","146e3678eed63abb6d5de82556565a44e07ff3ba96cb19dddf9d100e728e7e0a31a4b4b261cc0c10823c58871722de7d08ac6be4a5de64b7f2da92084b91a046"}};
#if defined(VH_MSAN)
  return;
#endif
  alarm(600); int a=n%3,al[]={0,1,4}; uint64_t left=(n>=3?1ull<<32:1ull<<29)+77; bool big=left>>32; Bytes z(1<<20,0x5a); HashAlgorithm*h=mk(al[a]); while(left){ size_t k=std::min<uint64_t>(left,z.size()-R.below(100)); h->write(z.data(),k); left-=k; } uint8_t o[64]; h->end(o); del(al[a],h); if(hex(o,HL(al[a]))!=W[big][a]) fail("hash-mismatch","%s of a message of 2^%d+77 bytes: %s",AN[al[a]],big?32:29,hex(o,HL(al[a])).c_str()); ev("hash.huge"); seen(o,20); }
static void tagd(uint64_t n){ if(n>=100&&n<(g_tier?106:103)) huge(n-100); static const char*T[]={"BIP0340/challenge","BIP0340/nonce","BIP0340/aux","TapLeaf","","a"}; std::string t= R.chance(2,3)?T[R.below(6)]:rtext(elen(200),"abcXYZ/ 09"); Bytes m=ebytes(elen(300)); XBuf M(m); Bytes e=tagged(t,m);
  XBuf o(32); tagged_hash(t.c_str(),M.p,M.n,o.p); if(o.bytes()!=e) fail("tagged-mismatch","tag=%s len=%zu",t.c_str(),m.size()); XBuf o2(32); tagged_hash(std::string(t),std::string((char*)M.p,M.n),o2.p); if(o2.bytes()!=e) fail("tagged-mismatch","string form tag=%s len=%zu",t.c_str(),m.size()); XBuf o3(32); tagged_hash(t.c_str(),(const char*)M.p,M.n,o3.p); if(o3.bytes()!=e) fail("tagged-mismatch","char form");
  TaggedHash a(t.c_str()); TaggedHash b("other"); size_t p=0; while(p<m.size()){ size_t k=1+R.below(m.size()-p); feed(&a,m,p,k); b.write(M.p,k); } XBuf o4(32); a.end(o4.p); if(o4.bytes()!=e) fail("tagged-mismatch","streamed tag=%s len=%zu",t.c_str(),m.size()); seen(o.p,32); ev("tagged.checked",4); }
static void pbk(uint64_t n){ Bytes pw=ebytes(elen(200)),salt=ebytes(elen(150)); int it=R.chance(1,5)?1:R.range(1,40); int kl=R.chance(1,4)?R.range(1,16)*32:R.range(1,200); XBuf P_(pw),S(salt); 
  { XBuf o(kl); pbkdf2_hmac_sha512(P_.p,(int)P_.n,S.p,(int)S.n,it,o.p,kl); if(o.bytes()!=pbkdf2_512(pw,salt,it,kl)) fail("pbkdf2-mismatch","sha512 pw=%zu salt=%zu it=%d kl=%d",pw.size(),salt.size(),it,kl); seen(o.p,kl); }
  { XBuf o(kl); pbkdf2_hmac_sha256(P_.p,(int)P_.n,S.p,(int)S.n,it,o.p,kl); if(o.bytes()!=pbkdf2_256(pw,salt,it,kl)) fail("pbkdf2-mismatch","sha256 pw=%zu salt=%zu it=%d kl=%d",pw.size(),salt.size(),it,kl); seen(o.p,kl); }
  { int it2=R.range(0,20); PBKDF2_HMAC_SHA512_CTX c; pbkdf2_hmac_sha512_Init(&c,P_.p,(int)P_.n,S.p,(int)S.n,1); pbkdf2_hmac_sha512_Update(&c,it); pbkdf2_hmac_sha512_Update(&c,it2); uint8_t o[64]; pbkdf2_hmac_sha512_Final(&c,o); if(Bytes(o,o+64)!=pbkdf2_512(pw,salt,it+it2,64)) fail("pbkdf2-mismatch","split rounds sha512 it=%d+%d",it,it2); }
  { int it2=R.range(0,20); PBKDF2_HMAC_SHA256_CTX c; pbkdf2_hmac_sha256_Init(&c,P_.p,(int)P_.n,S.p,(int)S.n,1); pbkdf2_hmac_sha256_Update(&c,it); pbkdf2_hmac_sha256_Update(&c,it2); uint8_t o[32]; pbkdf2_hmac_sha256_Final(&c,o); if(Bytes(o,o+32)!=pbkdf2_256(pw,salt,it+it2,32)) fail("pbkdf2-mismatch","split rounds sha256 it=%d+%d",it,it2); }
  ev("pbkdf2.checked",4); }
// arguments that differ in one place, asked for in turn
static void near_(uint64_t n){ std::string t=rtext(1+R.below(80),"abcXYZ/09"); if(R.chance(1,3)) t="BIP0340/"+t; std::string t2=t; t2[R.below(t2.size())]^=1; Bytes k=ebytes(1+R.below(200)),k2=k,m=ebytes(R.below(200)),s=ebytes(1+R.below(100)),s2=s; k2[R.below(k2.size())]^=1<<R.below(8); s2[R.below(s2.size())]^=1<<R.below(8); for(int i=0;i<6;i++){ const std::string&T=i&&R.chance(1,2)?t2:t; const Bytes&K=i&&R.chance(1,2)?k2:k,&S=i&&R.chance(1,2)?s2:s; XBuf mb(m),kb(K),sb(S); switch(R.below(4)){ case 0: { XBuf o(32); tagged_hash(T.c_str(),mb.p,mb.n,o.p); if(o.bytes()!=tagged(T,m)) fail("tagged-mismatch","neighbouring tags '%s' '%s'",t.c_str(),t2.c_str()); break; } case 1: { XBuf o(32); sha256Hmac(kb.p,kb.n,sb.p,sb.n,o.p); if(o.bytes()!=hmac256(K,S)) fail("hmac-mismatch","neighbouring keys, hmac-sha256"); XBuf o5(64); sha512Hmac(kb.p,kb.n,sb.p,sb.n,o5.p); if(o5.bytes()!=hmac512(K,S)) fail("hmac-mismatch","neighbouring keys, hmac-sha512"); break; } case 2: { XBuf o(64); pbkdf2_hmac_sha512(kb.p,(int)kb.n,sb.p,(int)sb.n,3,o.p,64); if(o.bytes()!=pbkdf2_512(K,S,3,64)) fail("pbkdf2-mismatch","neighbouring passwords"); break; } default: { int a=R.below(5); XBuf o(HL(a)); one(a,sb.p,sb.n,o.p); check(a,"neighbours",S,o.p); } } ev("hash.neighbours"); } }
WORKLOAD(C02,{"neighbours",near_,1},{"oneshot",oneshot,3},{"chunked",chunked,4},{"hmac",hmac,2},{"tagged",tagd,1},{"pbkdf2",pbk,1})
