#include "common.h"
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#if defined(VH_ASAN)
#include <sanitizer/asan_interface.h>
#include <sanitizer/allocator_interface.h>
#endif
#if defined(VH_MSAN)
template class std::basic_string<char>; // instrumented copy: libstdc++'s own is not
#include <bits/stl_tree.h>
namespace std { // instrumented stand-ins for libstdc++'s tree primitives (unbalanced, which is enough here)
void _Rb_tree_insert_and_rebalance(const bool left,_Rb_tree_node_base*x,_Rb_tree_node_base*p,_Rb_tree_node_base&h) throw(){ x->_M_parent=p; x->_M_left=0; x->_M_right=0; x->_M_color=_S_black; if(left){ p->_M_left=x; if(p==&h){ h._M_parent=x; h._M_right=x; } else if(p==h._M_left) h._M_left=x; } else { p->_M_right=x; if(p==h._M_right) h._M_right=x; } h._M_color=_S_red; }
_Rb_tree_node_base*_Rb_tree_increment(_Rb_tree_node_base*x) throw(){ if(x->_M_right){ x=x->_M_right; while(x->_M_left) x=x->_M_left; return x; } _Rb_tree_node_base*y=x->_M_parent; while(x==y->_M_right){ x=y; y=y->_M_parent; } return x->_M_right!=y?y:x; }
_Rb_tree_node_base*_Rb_tree_decrement(_Rb_tree_node_base*x) throw(){ if(x->_M_color==_S_red&&x->_M_parent&&x->_M_parent->_M_parent==x) return x->_M_right; if(x->_M_left){ x=x->_M_left; while(x->_M_right) x=x->_M_right; return x; } _Rb_tree_node_base*y=x->_M_parent; while(x==y->_M_left){ x=y; y=y->_M_parent; } return y; }
const _Rb_tree_node_base*_Rb_tree_increment(const _Rb_tree_node_base*x) throw(){ return _Rb_tree_increment((_Rb_tree_node_base*)x); }
const _Rb_tree_node_base*_Rb_tree_decrement(const _Rb_tree_node_base*x) throw(){ return _Rb_tree_decrement((_Rb_tree_node_base*)x); }
}
#endif
Rng R,LR; uint64_t g_case; int g_tier; bool g_inject; int g_rngmode; uint64_t g_rngcalls;
static std::vector<std::pair<std::string,std::pair<const Scen*,size_t>>>&regs(){ static std::vector<std::pair<std::string,std::pair<const Scen*,size_t>>> v; return v; }
Reg::Reg(const char*p,const Scen*s,size_t n){ regs().push_back({p,{s,n}}); }
// ------------------------------------------------------------- library randomness
uint64_t g_rngk;
// 0 random; 1/2 a run of all-zero/all-one words, then random; 3 counter; 4 constant; 5 sparse bits
static uint32_t rnd32(){ g_rngcalls++; switch(g_rngmode){ case 1: if(g_rngcalls<=g_rngk) return 0; return LR.u32(); case 2: if(g_rngcalls<=g_rngk) return 0xffffffffu; return LR.u32(); case 3: return (uint32_t)g_rngcalls; case 4: return (uint32_t)g_rngk|1; case 5: return LR.u32()&LR.u32()&LR.u32(); default: return LR.u32(); } }
Bytes*g_rngtap;
extern "C" uint32_t random32(void){ uint32_t r=rnd32(); if(g_rngtap) for(int i=0;i<4;i++) g_rngtap->push_back((uint8_t)(r>>(8*i))); return r; }
// ------------------------------------------------------------- C allocator monitor (link-time wrapped malloc family)
extern "C" { void*__real_malloc(size_t); void*__real_calloc(size_t,size_t); void*__real_realloc(void*,size_t); void __real_free(void*); size_t malloc_usable_size(void*); }
AllocMon AM; std::vector<Bytes>*g_secrets; uint64_t g_freed,g_leaks;
static bool deny(){ if(!AM.on) return false; AM.count++; if(AM.count==AM.failat){ AM.hit++; return true; } return false; }
static void scan(void*p){ if(!g_secrets||!p) return; auto*sv=g_secrets; g_secrets=nullptr; size_t n=malloc_usable_size(p); g_freed++; for(auto&s:*sv) if(s.size()&&s.size()<=n&&memmem(p,n,s.data(),s.size())){ g_leaks++; break; } g_secrets=sv; }
void*xmalloc(size_t n){ return __real_malloc(n); }
extern "C" void*__wrap_malloc(size_t n){ return deny()?nullptr:__real_malloc(n); }
extern "C" void*__wrap_calloc(size_t a,size_t b){ return deny()?nullptr:__real_calloc(a,b); }
extern "C" void*__wrap_realloc(void*p,size_t n){ return deny()?nullptr:__real_realloc(p,n); }
extern "C" void __wrap_free(void*p){ scan(p); __real_free(p); }
// ------------------------------------------------------------- events
static const char*g_scen="";
struct Ev{ const char*n; uint64_t c; }; static Ev g_ev[4096]; static size_t g_nev;
void ev(const char*name,uint64_t n){ for(size_t i=0;i<g_nev;i++) if(g_ev[i].n==name||!strcmp(g_ev[i].n,name)){ g_ev[i].c+=n; return; } if(g_nev<4096){ g_ev[g_nev].n=strdup(name); g_ev[g_nev++].c=n; } }
static const size_t SETN=1<<20; static uint64_t*g_set; static size_t g_nset;
void seen(uint64_t h){ if(!h) h=1; if(g_nset>SETN/2) return; size_t i=(h*0x9e3779b97f4a7c15ull)>>44; for(;;i=(i+1)&(SETN-1)){ if(g_set[i]==h) return; if(!g_set[i]){ g_set[i]=h; g_nset++; return; } } }
uint64_t hash64(const void*p,size_t n,uint64_t h){ const uint8_t*b=(const uint8_t*)p; for(size_t i=0;i<n;i++){ h^=b[i]; h*=0x100000001b3ull; } return h; }
void seen(const void*p,size_t n){ seen(hash64(p,n)^hash64(g_scen,strlen(g_scen))); }
static int g_nsample; static int g_quiet;
static void outesc(const char*s){ for(;*s;s++){ unsigned char c=*s; if(c=='"'||c=='\\') printf("\\%c",c); else if(c<32||c>126) printf("\\u%04x",c); else putchar(c); } }
void sample(const char*fmt,...){ if(g_nsample>=4) return; g_nsample++; char b[600]; va_list a; va_start(a,fmt); vsnprintf(b,sizeof b,fmt,a); va_end(a); printf("SAMPLE {\"case\":%llu,\"scenario\":\"%s\",\"text\":\"",(unsigned long long)g_case,g_scen); outesc(b); printf("\"}\n"); }
static uint64_t g_viol; static bool g_casefailed;
void fail(const char*kind,const char*fmt,...){ if(g_quiet) return; g_casefailed=true; g_viol++; if(g_viol>200) return; char b[1500]; va_list a; va_start(a,fmt); vsnprintf(b,sizeof b,fmt,a); va_end(a); printf("VIOL {\"case\":%llu,\"scenario\":\"%s\",\"kind\":\"%s\",\"detail\":\"",(unsigned long long)g_case,g_scen,kind); outesc(b); printf("\"}\n"); fflush(stdout); }
// ------------------------------------------------------------- buffers
#if defined(VH_ASAN)
XBuf::~XBuf(){ if(n==0) __asan_unpoison_memory_region(p,1); free(p); }
void XBuf::poison_tail(){ if(n==0) __asan_poison_memory_region(p,1); }
#else
XBuf::~XBuf(){ free(p); }
void XBuf::poison_tail(){}
#endif
// ------------------------------------------------------------- generators
size_t elen(size_t max){ static const int e[]={0,1,2,3,4,5,7,8,9,15,16,17,19,20,21,31,32,33,34,54,55,56,57,63,64,65,74,75,76,77,78,110,111,112,113,119,120,127,128,129,191,192,239,240,247,248,251,252,253,254,255,256,257,258,259,511,512,513,519,520,521,1023,1024,65534,65535,65536,65537};
  switch(R.below(4)){ case 0: case 1: for(int k=0;k<20;k++){ size_t v=e[R.below(sizeof(e)/sizeof(int))]; if(v<=max) return v; } return max; case 2: return R.below((max<64?max:64)+1); default: return R.below(max+1); } }
Bytes ebytes(size_t n){ Bytes b; switch(R.below(6)){ case 0: b.assign(n,0); break; case 1: b.assign(n,0xff); break; case 2: { b=R.bytes(n); size_t z=n?R.below(n+1):0; for(size_t i=0;i<z;i++) b[i]=0; break; } case 3: { b.assign(n,0); if(n) b[R.below(n)]=(uint8_t)R.u32(); break; } default: b=R.bytes(n); } return b; }
using namespace ref;
U256 rscalar(){ for(;;){ Bytes b=R.bytes(32); U256 x=u256(b.data()); if(!iszero(x)&&cmp(x,N)<0) return x; } }
U256 e256(){ static const char*c[]={"e00000000000000000000000000000014551231950b75fc4402da1732fc9bebf","1ffffffffffffffffffffffffffffffd755db9cd5e9140777fa4bd19a06c8282","0","1","2","3","7","ffffffff","100000000","ffffffffffffffff","7fffffffffffffffffffffffffffffff5d576e7357a4501ddfe92f46681b20a0","7fffffffffffffffffffffffffffffff5d576e7357a4501ddfe92f46681b20a1","fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364140","fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141","fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364142","fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2e","fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f","fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc30","ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff","8000000000000000000000000000000000000000000000000000000000000000","3fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff","5363ad4cc05c30e0a5261c028812645a122e22ea20816678df02967c1b23bd72","ac9c52b33fa3cf1f5ad9e3fd77ed9ba4a880b9fc8ec739c2e0cfc810b51283ce"};
  switch(R.below(7)){ case 5: { U256 r; for(int i=0;i<9;i++){ uint64_t l; switch(R.below(5)){ case 0: l=0;break; case 1: l=0x3fffffff;break; case 2: l=R.below(3);break; case 3: l=0x3fffffff-R.below(3);break; default: l=R.below(1u<<30); } for(int b=0;b<30;b++) if(l>>b&1){ int k=i*30+b; if(k<256) r.v[k/64]|=1ull<<(k%64); } } return r; } case 0: return u256hex(c[R.below(sizeof(c)/sizeof(char*))]); case 1: { U256 r; int k=R.range(1,4); for(int i=0;i<k;i++){ int b=R.range(0,255); r.v[b/64]|=1ull<<(b%64);} return r; } case 2: { U256 r; bool on=false; for(int i=255;i>=0;){ int l=R.range(1,80); for(int j=0;j<l&&i>=0;j++,i--) if(on) r.v[i/64]|=1ull<<(i%64); on=!on; } return r; } case 3: { Bytes b=R.bytes(32); size_t z=R.below(32); for(size_t i=0;i<z;i++) b[i]=0; return u256(b.data()); } case 4: { U256 r=N; int64_t d=(int64_t)R.below(40)-20; r.v[0]+=d; return r; } default: { Bytes b=R.bytes(32); return u256(b.data()); } } }
U256 escalar(){ for(;;){ U256 x=e256(); if(!iszero(x)&&cmp(x,N)<0) return x; } }
std::string rtext(size_t n,const char*al){ std::string s; size_t l=strlen(al); for(size_t i=0;i<n;i++) s+=al[R.below(l)]; return s; }
std::string mutate_text(std::string s,const char*al){ size_t l=strlen(al); int k=R.chance(2,3)?1:R.range(1,4); for(int i=0;i<k;i++){ switch(R.below(7)){ case 0: case 1: if(s.size()) s[R.below(s.size())]=al[R.below(l)]; break; case 2: if(s.size()) s.erase(R.below(s.size()),1); break; case 3: s.insert(s.begin()+R.below(s.size()+1),al[R.below(l)]); break; case 4: if(s.size()>1){ size_t a=R.below(s.size()-1); std::swap(s[a],s[a+1]); } break; case 5: if(s.size()) s[R.below(s.size())]=(char)R.range(1,255); break; case 6: s=s.substr(0,R.below(s.size()+1)); break; } } return s; }
Bytes mutate(Bytes b){ int k=R.chance(1,2)?1:R.range(1,6); for(int i=0;i<k;i++){ size_t n=b.size(); switch(R.below(11)){ case 10: if(n){ size_t p=R.below(n); if(b[p]<0xfd){ int k=R.below(3); b.insert(b.begin()+p,(uint8_t)(0xfd+k)); b.insert(b.begin()+p+2,(2<<k)-1,0); } } break; case 0: case 1: if(n) b[R.below(n)]^=1<<R.below(8); break; case 2: if(n) b[R.below(n)]=(uint8_t)R.u32(); break; case 3: if(n){ static const uint8_t s[]={0,1,0x7f,0x80,0xfc,0xfd,0xfe,0xff,2,3,4,0x30,0x21,0x20}; b[R.below(n)]=s[R.below(sizeof s)]; } break; case 4: if(n){ size_t p=R.below(n),l=1+R.below(n-p<9?n-p:9); b.erase(b.begin()+p,b.begin()+p+l);} break; case 5: { Bytes x=ebytes(1+R.below(9)); b.insert(b.begin()+R.below(n+1),x.begin(),x.end()); break; } case 6: if(n){ b.resize(R.below(n+1)); } break; case 7: if(n>1){ size_t p=R.below(n),l=1+R.below(n-p<40?n-p:40); Bytes x(b.begin()+p,b.begin()+p+l); b.insert(b.begin()+R.below(n+1),x.begin(),x.end()); } break; case 8: if(n){ size_t p=R.below(n); for(size_t j=p;j<n&&j<p+8;j++) b[j]=0xff; } break; case 9: { Bytes x=R.bytes(R.below(20)); b.insert(b.end(),x.begin(),x.end()); break; } } } return b; }
// ------------------------------------------------------------- scheduler
struct Prog{ volatile uint64_t cur; volatile uint64_t done; volatile uint64_t started_ms; };
static Prog*g_prog; static unsigned g_caselimit=20;
static uint64_t nowms(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return (uint64_t)t.tv_sec*1000+t.tv_nsec/1000000; }
static void onalarm(int){ static const char m[]="HANG\n"; (void)!write(2,m,sizeof m-1); _exit(77); }
static uint64_t allocated(){
#if defined(VH_ASAN)
  return __sanitizer_get_current_allocated_bytes();
#else
  return 0;
#endif
}
int main(int argc,char**argv){
  if(argc<9){ fprintf(stderr,"usage: vh PROP SEED START END STRIDE PROGRESS SIGFILE TIER [deadline_s] [leak]\n"); return 2; }
  std::string prop=argv[1]; uint64_t seed=strtoull(argv[2],0,10),start=strtoull(argv[3],0,10),end=strtoull(argv[4],0,10),stride=strtoull(argv[5],0,10); g_tier=atoi(argv[8]);
  uint64_t deadline=argc>9?strtoull(argv[9],0,10)*1000:0; bool leak=argc>10&&!strcmp(argv[10],"leak");
  if(argc>11) g_caselimit=atoi(argv[11]);
  int fd=open(argv[6],O_RDWR|O_CREAT,0600); if(fd<0||ftruncate(fd,4096)){ perror("progress"); return 2; } g_prog=(Prog*)mmap(0,4096,PROT_READ|PROT_WRITE,MAP_SHARED,fd,0);
  g_set=(uint64_t*)calloc(SETN,8);
  std::vector<Scen> sc; for(auto&r:regs()) if(prop==r.first) for(size_t i=0;i<r.second.second;i++) sc.push_back(r.second.first[i]);
  if(sc.empty()){ fprintf(stderr,"no workload for %s\n",prop.c_str()); return 2; }
  { unsigned tot=0; for(auto&s:sc) tot+=s.weight; if(tot%2==0) sc[0].weight++; } // odd period: every worker sees every scenario
  std::vector<unsigned> slot; { unsigned mx=0; for(auto&s:sc) if(s.weight>mx) mx=s.weight; for(unsigned k=0;k<mx;k++) for(unsigned i=0;i<sc.size();i++) if(k<sc[i].weight) slot.push_back(i); }
  std::vector<unsigned> before(slot.size()); { std::vector<unsigned> c(sc.size()); for(size_t i=0;i<slot.size();i++) before[i]=c[slot[i]]++; }
  signal(SIGALRM,onalarm);
  static char obuf[1<<16]; setvbuf(stdout,obuf,_IOFBF,sizeof obuf);
  uint64_t t0=nowms(),ph=hash64(prop.data(),prop.size()); uint64_t ran=0; bool cut=false;
  for(uint64_t i=start;i<end;i+=stride){ if(deadline&&nowms()-t0>deadline){ cut=true; break; }
    g_case=i; g_prog->cur=i; size_t k=i%slot.size(); const Scen&s=sc[slot[k]]; g_scen=s.name; uint64_t n=(i/slot.size())*s.weight+before[k];
    auto once=[&]{ R.seed(seed*0x100000001b3ull^ph^(i*0x9e3779b97f4a7c15ull)); LR.seed(R.u64()^0x1234567); g_rngmode=0; g_rngcalls=0; g_rngk=R.chance(1,2)?R.below(200):R.below(2000); alarm(g_caselimit); s.fn(n); alarm(0); };
    g_casefailed=false; uint64_t a0=allocated(); once(); ran++; ev(s.name);
    if(leak&&!g_casefailed){ uint64_t a1=allocated(); if(a1>a0){ // confirm: static one-time allocations do not repeat
        ev("leak-rechecks"); g_quiet=1; uint64_t b0=allocated(); once(); uint64_t b1=allocated(); uint64_t c0=b1; once(); uint64_t c1=allocated(); g_quiet=0; if(b1>b0&&c1>c0) fail("leak","scenario %s retained %llu bytes after every object was destroyed (repeatable)",s.name,(unsigned long long)(b1-b0)); } }
    g_prog->done=ran; }
  FILE*f=fopen(argv[7],"wb"); if(f){ for(size_t i=0;i<SETN;i++) if(g_set[i]) fwrite(&g_set[i],8,1,f); fclose(f); }
  printf("SUMMARY {\"cases\":%llu,\"cut\":%s,\"viol\":%llu,\"distinct\":%llu,\"ms\":%llu,\"events\":{",(unsigned long long)ran,cut?"true":"false",(unsigned long long)g_viol,(unsigned long long)g_nset,(unsigned long long)(nowms()-t0));
  for(size_t i=0;i<g_nev;i++) printf("%s\"%s\":%llu",i?",":"",g_ev[i].n,(unsigned long long)g_ev[i].c);
  printf("}}\n"); fflush(stdout); return g_viol?1:0; }
