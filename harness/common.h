// Runtime-monitoring harness: case scheduler, random source, monitors and verdict reporting.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <algorithm>
#include "../ref/ref.h"
using ref::Bytes;

struct Rng{
  uint64_t s[4];
  static uint64_t sm(uint64_t&x){ uint64_t z=(x+=0x9e3779b97f4a7c15ull); z=(z^(z>>30))*0xbf58476d1ce4e5b9ull; z=(z^(z>>27))*0x94d049bb133111ebull; return z^(z>>31); }
  void seed(uint64_t x){ for(int i=0;i<4;i++) s[i]=sm(x); }
  static uint64_t rl(uint64_t x,int k){ return (x<<k)|(x>>(64-k)); }
  uint64_t u64(){ uint64_t r=rl(s[1]*5,7)*9,t=s[1]<<17; s[2]^=s[0];s[3]^=s[1];s[1]^=s[2];s[0]^=s[3];s[2]^=t;s[3]=rl(s[3],45); return r; }
  uint32_t u32(){ return (uint32_t)(u64()>>32); }
  uint64_t below(uint64_t n){ return n?u64()%n:0; }
  bool chance(unsigned num,unsigned den){ return below(den)<num; }
  int range(int a,int b){ return a+(int)below((uint64_t)(b-a+1)); }
  Bytes bytes(size_t n){ Bytes b(n); for(auto&x:b) x=(uint8_t)(u64()>>56); return b; }
};

extern Rng R;                 // per-case generator: a function of (seed, property, case index) only
extern uint64_t g_rngk; extern uint64_t g_case;       // current case index
extern int g_tier;            // 0 quick, 1 thorough
extern bool g_inject;         // true while allocation faults are being injected

// event counters: what the monitors actually observed
void ev(const char*name,uint64_t n=1);
void seen(uint64_t h);        // distinct non-trivial state/outcome
void seen(const void*p,size_t n);
void sample(const char*fmt,...) __attribute__((format(printf,1,2)));
void fail(const char*kind,const char*fmt,...) __attribute__((format(printf,2,3)));
uint64_t hash64(const void*p,size_t n,uint64_t h=0xcbf29ce484222325ull);

#define REQ(cond,kind,...) do{ if(!(cond)){ fail(kind,__VA_ARGS__); return; } }while(0)
#define REQ0(cond,kind,...) do{ if(!(cond)){ fail(kind,__VA_ARGS__); return 0; } }while(0)

struct Scen{ const char*name; void(*fn)(uint64_t n); unsigned weight; };
// each property workload file registers its scenarios
struct Reg{ Reg(const char*prop,const Scen*s,size_t n); };
#define WORKLOAD(prop,...) static const Scen scens_##prop[]={__VA_ARGS__}; static Reg reg_##prop(#prop,scens_##prop,sizeof(scens_##prop)/sizeof(Scen));

void*xmalloc(size_t n); // harness memory: never refused by the fault injector
// exact-size heap buffer: any byte outside is a red zone under ASan; contents start uninitialised (MSan) / 0xbe (ASan)
struct XBuf{ uint8_t*p; size_t n; explicit XBuf(size_t k):p((uint8_t*)xmalloc(k?k:1)),n(k){ 
#if defined(VH_ASAN)
   poison_tail();
#endif
 } 
 XBuf(const Bytes&b):XBuf(b.size()){ if(n) memcpy(p,b.data(),n); }
 ~XBuf(); XBuf(const XBuf&)=delete; XBuf&operator=(const XBuf&)=delete;
 void poison_tail(); char*c(){ return (char*)p; } Bytes bytes()const{ return Bytes(p,p+n); } };
// exact-size NUL-terminated text
struct XStr{ char*p; size_t n; explicit XStr(const std::string&s):p((char*)xmalloc(s.size()+1)),n(s.size()){ memcpy(p,s.data(),n); p[n]=0; } ~XStr(){ free(p); } XStr(const XStr&)=delete; XStr&operator=(const XStr&)=delete; operator const char*()const{ return p; } };

// ---- input generators
size_t elen(size_t max);                 // edge-biased length
Bytes ebytes(size_t n);                  // edge-biased content (zero runs, ff runs, random)
ref::U256 e256();                        // edge-biased 256-bit value, any
ref::U256 escalar();                     // edge-biased scalar in [1,n-1]
ref::U256 rscalar();                     // uniform-ish in [1,n-1]
std::string mutate_text(std::string s,const char*alphabet); // one or more edits
Bytes mutate(Bytes b);
std::string rtext(size_t n,const char*alphabet);

// RNG seen by the library (random32/random_buffer are weak symbols meant to be overridden)
extern Rng LR; extern int g_rngmode; extern uint64_t g_rngcalls; extern Bytes*g_rngtap;
// every malloc/calloc/realloc/free of library and harness goes through the monitor
struct AllocMon{ bool on; uint64_t count,failat,hit; }; extern AllocMon AM;
extern std::vector<Bytes>*g_secrets; extern uint64_t g_freed,g_leaks;
