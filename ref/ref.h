// Independent reference model used as oracle by the runtime monitors.
// Written from the public specifications (FIPS 180-4, RIPEMD-160, RFC 2104/8018/6979,
// SEC1/SEC2, BIP 11/16/32/39/66/67/141/143/144/173/174/340/350/380, SLIP-132);
// shares no code with the library under test.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <array>
namespace ref {
typedef std::vector<uint8_t> Bytes;
typedef unsigned __int128 u128;

// ---- bytes helpers
Bytes cat(const Bytes&a,const Bytes&b);
inline void app(Bytes&a,const Bytes&b){ a.insert(a.end(),b.begin(),b.end()); }
inline void app(Bytes&a,const uint8_t*b,size_t n){ a.insert(a.end(),b,b+n); }
inline Bytes B(const uint8_t*p,size_t n){ return Bytes(p,p+n); }
inline Bytes B(const std::string&s){ return Bytes(s.begin(),s.end()); }
std::string hex(const Bytes&b);
std::string hex(const uint8_t*p,size_t n);
bool unhex(const std::string&s,Bytes&out); // strict
void le(Bytes&o,uint64_t v,int n);
void be(Bytes&o,uint64_t v,int n);
Bytes varint(uint64_t v);
Bytes varstr(const Bytes&b);

// ---- hashes
Bytes sha256(const Bytes&);
Bytes sha512(const Bytes&);
Bytes rmd160(const Bytes&);
Bytes hash160(const Bytes&);
Bytes dsha(const Bytes&);
Bytes hmac256(const Bytes&k,const Bytes&m);
Bytes hmac512(const Bytes&k,const Bytes&m);
Bytes pbkdf2_512(const Bytes&pw,const Bytes&salt,int rounds,int outlen);
Bytes pbkdf2_256(const Bytes&pw,const Bytes&salt,int rounds,int outlen);
Bytes tagged(const std::string&tag,const Bytes&m);

// ---- text encodings
std::string base58(const Bytes&);
bool unbase58(const std::string&,Bytes&);
std::string base58check(const Bytes&);
bool unbase58check(const std::string&,Bytes&);
std::string base43(const Bytes&);
bool unbase43(const std::string&,Bytes&);
std::string base64(const Bytes&,bool urlsafe=false,bool pad=true);
bool unbase64(const std::string&,Bytes&,bool urlsafe=false); // padded, canonical length; ignores unused bits
std::string bin(const Bytes&);
// segwit addresses. enc: 1 = bech32, 2 = bech32m
std::string segwit(const std::string&hrp,int ver,const Bytes&prog,int enc=0 /*0=auto*/);
bool unsegwit(const std::string&hrp,const std::string&addr,int&ver,Bytes&prog,int&enc);
std::string bech32_raw(const std::string&hrp,const std::vector<uint8_t>&data5,uint32_t konst);
std::string descsum(const std::string&); // descriptor checksum, "" if invalid char

// ---- 256-bit arithmetic
struct U256{ uint64_t v[4]; U256(){v[0]=v[1]=v[2]=v[3]=0;} explicit U256(uint64_t x){v[0]=x;v[1]=v[2]=v[3]=0;} };
U256 u256(const uint8_t*be32);
U256 u256hex(const char*);
void put(const U256&,uint8_t*be32);
Bytes b32(const U256&);
int cmp(const U256&,const U256&);
bool iszero(const U256&);
extern const U256 P,N,NHALF;
U256 addm(const U256&,const U256&,const U256&m);
U256 subm(const U256&,const U256&,const U256&m);
U256 mulm(const U256&,const U256&,const U256&m);
U256 powm(const U256&,const U256&,const U256&m);
U256 invm(const U256&,const U256&m);
U256 redm(const U256&,const U256&m); // x mod m, for any 256-bit x
U256 negm(const U256&,const U256&m);
struct Pt{ bool inf; U256 x,y; Pt():inf(true){} };
extern const Pt G;
bool oncurve(const Pt&);
Pt padd(const Pt&,const Pt&);
Pt pneg(const Pt&);
Pt pmul(const U256&k,const Pt&); // any 256-bit k
bool lift(const U256&x,bool odd,Pt&out);
Bytes sec(const Pt&,bool compressed=true);
bool unsec(const Bytes&,Pt&);
Bytes xy(const Pt&);
// ---- signatures
struct Sig{ U256 r,s; int rec; };
Sig ecdsa_sign(const U256&d,const Bytes&h,bool reduce=true); // RFC6979, low S; reduce=false: digest enters the nonce unreduced (libsecp256k1)
bool ecdsa_verify(const Pt&Q,const Bytes&h,const U256&r,const U256&s); // r,s in [1,n-1]
Bytes der(const U256&r,const U256&s);
bool understrict(const Bytes&,Bytes&r32,Bytes&s32); // strict minimal DER of two non-negative integers <2^256, whole input
Bytes schnorr_sign_det(const U256&d,const Bytes&m); // deterministic nonce: H_nonce(d_even||px||m)
bool schnorr_verify(const Bytes&px,const Bytes&m,const Bytes&sig);
// ---- BIP39 / BIP32
extern const char*const WORDS[2048];
std::string mnemonic(const Bytes&ent);
int mn_entropy(const std::string&m,Bytes&ent); // returns 1 if checksum ok, 0 words ok checksum bad, -1 malformed
Bytes mn_seed(const std::string&m,const std::string&pass);
struct HD{ bool priv; U256 k; Pt K; Bytes cc; uint8_t depth; Bytes pfp; uint32_t num; };
HD hd_seed(const Bytes&seed);
HD hd_ckd_priv(const HD&,uint32_t i);
HD hd_ckd_pub(const HD&,uint32_t i);
Bytes hd_fp(const HD&);
Bytes hd_ser(const HD&,const Bytes&ver,bool pub);
// ---- transactions
struct TIn{ Bytes prev; uint32_t n; Bytes ss; uint32_t seq; std::vector<Bytes> wit; };
struct TOut{ uint64_t amt; Bytes spk; };
struct TX{ uint32_t ver; std::vector<TIn> in; std::vector<TOut> out; uint32_t lock;
  bool segwit()const{ for(auto&i:in) if(i.wit.size()) return true; return false; } };
Bytes tx_ser(const TX&,bool wit=true); // wit => extended form if any witness
bool tx_parse(const Bytes&,TX&,size_t*used=nullptr); // canonical rules, minimal varints
Bytes txid_raw(const TX&); // internal byte order
Bytes wtxid_raw(const TX&);
Bytes sighash_legacy(const TX&,size_t i,const Bytes&code,uint32_t type);
Bytes sighash_v0(const TX&,size_t i,const Bytes&code,uint64_t amt,uint32_t type);
Bytes p2pkh(const Bytes&h20); Bytes p2sh(const Bytes&h20); Bytes p2wpkh(const Bytes&h20); Bytes p2wsh(const Bytes&h32);
Bytes pushdata(const Bytes&);
Bytes multisig(int m,const std::vector<Bytes>&secs);
}
