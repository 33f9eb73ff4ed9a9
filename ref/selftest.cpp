// Published vectors for the reference model itself; run at build time by the driver (fast).
#include "ref.h"
#include <cstdio>
#include <algorithm>
using namespace ref;
static int bad=0;
static void eq(const char*n,const std::string&a,const std::string&b){ if(a!=b){ bad++; fprintf(stderr,"ref selftest %s: %s != %s\n",n,a.c_str(),b.c_str()); } }
static Bytes H(const char*s){ Bytes b; unhex(s,b); return b; }
int main(){
  eq("sha256",hex(sha256(B(std::string("abc")))),"ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad");
  eq("sha512",hex(sha512(B(std::string("abc")))),"ddaf35a193617abacc417349ae20413112e6fa4e89a97ea20a9eeee64b55d39a2192992a274fc1a836ba3c23a3feebbd454d4423643ce80e2a9ac94fa54ca49f");
  eq("rmd",hex(rmd160(B(std::string("abc")))),"8eb208f7e05d987a9b044a8e98c6b087f15a0bfc");
  eq("rmd0",hex(rmd160(Bytes())),"9c1185a5c5e9fc54612808977ee8f548b2258d31");
  eq("hmac512",hex(hmac512(Bytes(131,0xaa),B(std::string("Test Using Larger Than Block-Size Key - Hash Key First")))),"80b24263c7c1a3ebb71493c1dd7be8b49b46d1f41b4aeec1121b013783f8f3526b56d037e05f2598bd0fd2215d6a1e5295e64f73f63f0aec8b915a985d786598");
  // BIP39 vector (Trezor)
  std::string mn="abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon about";
  eq("bip39",mnemonic(Bytes(16,0)),mn);
  eq("seed",hex(mn_seed(mn,"TREZOR")),"c55257c360c07c72029aebc1b53c05ed0362ada38ead3e3e9efa3708e53495531f09a6987599d18264c1e1c92f2cf141630c7a3c4ab7c81b2f001698e7463b04");
  Bytes e; if(mn_entropy(mn,e)!=1||e!=Bytes(16,0)) bad++;
  // BIP32 vector 1
  HD m=hd_seed(H("000102030405060708090a0b0c0d0e0f"));
  eq("xprv",base58check(hd_ser(m,H("0488ade4"),false)),"xprv9s21ZrQH143K3QTDL4LXw2F7HEK3wJUD2nW2nRk4stbPy6cq3jPPqjiChkVvvNKmPGJxWUtg6LnF5kejMRNNU3TGtRBeJgk33yuGBxrMPHi");
  HD c=hd_ckd_priv(hd_ckd_priv(m,0x80000000u),1);
  eq("xpub01",base58check(hd_ser(c,H("0488b21e"),true)),"xpub6ASuArnXKPbfEwhqN6e3mwBcDTgzisQN1wXN9BJcM47sSikHjJf3UFHKkNAWbWMiGj7Wf5uMash7SyYq527Hqck2AxYysAA7xmALppuCkwQ");
  // BIP173/350
  eq("b32",segwit("bc",0,H("751e76e8199196d454941c45d1b3a323f1433bd6")),"bc1qw508d6qejxtdg4y5r3zarvary0c5xw7kv8f3t4");
  eq("b32m",segwit("bc",1,H("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798")),"bc1p0xlxvlhemja6c4dqv22uapctqupfhlxm9h8z3k2e72q4k9hcz7vqzk5jj0");
  // ECDSA RFC6979 secp256k1 ("Satoshi Nakamoto", key 1)
  Sig s=ecdsa_sign(U256(1),sha256(B(std::string("Satoshi Nakamoto"))));
  eq("rfc6979",hex(b32(s.r))+hex(b32(s.s)),"934b1ea10a4b3c1757e2b0c017d0b6143ce3c9a7e6a4a49860d7a6ab210ee3d82442ce9d2b916064108014783e923ec36b49743e2ffa1c4496f01a512aafd9e5");
  if(!ecdsa_verify(G,sha256(B(std::string("Satoshi Nakamoto"))),s.r,s.s)) bad++,fprintf(stderr,"verify\n");
  // BIP340 vectors 0,1 (verification) and 4
  if(!schnorr_verify(H("F9308A019258C31049344F85F89D5229B531C845836F99B08601F113BCE036F9"),Bytes(32,0),H("E907831F80848D1069A5371B402410364BDF1C5F8307B0084C55F1CE2DCA821525F66A4A85EA8B71E482A74F382D2CE5EBEEE8FDB2172F477DF4900D310536C0"))) bad++,fprintf(stderr,"bip340-0\n");
  if(!schnorr_verify(H("D69C3509BB99E412E68B0FE8544E72837DFA30746D8BE2AA65975F29D22DC7B9"),H("4DF3C3F68FCC83B27E9D42C90431A72499F17875C81A599B566C9889B9696703"),H("00000000000000000000003B78CE563F89A0ED9414F5AA28AD0D96D6795F9C6376AFB1548AF603B3EB45C9F8207DEE1060CB71C04E80F593060B07D28308D7F4"))) bad++,fprintf(stderr,"bip340-4\n");
  // vector 6 (has_even_y(R) false) and 7 must fail
  if(schnorr_verify(H("DFF1D77F2A671C5F36183726DB2341BE58FEAE1DA2DECED843240F7B502BA659"),H("243F6A8885A308D313198A2E03707344A4093822299F31D0082EFA98EC4E6C89"),H("FFF97BD5755EEEA420453A14355235D382F6472F8568A18B2F057A14602975563CC27944640AC607CD107AE10923D9EF7A73C643E166BE5EBEAFA34B1AC553E2"))) bad++,fprintf(stderr,"bip340-6\n");
  // group order
  if(!pmul(N,G).inf||cmp(pmul(subm(U256(),U256(1),N),G).x,G.x)) bad++,fprintf(stderr,"group\n");
  // BIP143 P2WPKH example
  TX t; if(!tx_parse(H("0100000002fff7f7881a8099afa6940d42d1e7f6362bec38171ea3edf433541db4e4ad969f0000000000eeffffffef51e1b804cc89d182d279655c3aa89e815b1b309fe287d9b2b55d57b90ec68a0100000000ffffffff02202cb206000000001976a9148280b37df378db99f66f85c95a783a76ac7a6d5988ac9093510d000000001976a9143bde42dbee7e4dbe6a21b2d50ce2f0167faa815988ac11000000"),t)) bad++,fprintf(stderr,"txparse\n");
  eq("bip143",hex(sighash_v0(t,1,p2pkh(H("1d0f172a0ecb48aee1be1f2687d2963ae33f71a1")),600000000,1)),"c37af31116d1b27caf68aae9e3ac82f1477929014d5b917657d0eb49478cb670");
  // genesis coinbase txid
  TX g; Bytes gb=H("01000000010000000000000000000000000000000000000000000000000000000000000000ffffffff4d04ffff001d0104455468652054696d65732030332f4a616e2f32303039204368616e63656c6c6f72206f6e206272696e6b206f66207365636f6e64206261696c6f757420666f722062616e6b73ffffffff0100f2052a01000000434104678afdb0fe5548271967f1a67130b7105cd6a828e03909a67962e0ea1f61deb649f6bc3f4cef38c4f35504e51ec112de5c384df7ba0b8d578a4c702b6bf11d5fac00000000");
  if(!tx_parse(gb,g)||tx_ser(g)!=gb) bad++; Bytes id=txid_raw(g); std::reverse(id.begin(),id.end()); eq("genesis",hex(id),"4a5e1e4baab89f3a32518a88c31bc87f618f76673e2cc77ab2127b7afdeda33b");
  eq("desc2",descsum("raw(deadbeef)"),"89f8spxm");
  eq("b58",base58check(cat(H("00"),H("010966776006953d5567439e5e39f86a0d273bee"))),"16UwLL9Risc3QfPqBUvKofHmBQ7wMtjvM");
  eq("b64",base64(B(std::string("fooba"))),"Zm9vYmE=");
  printf("ref selftest %s\n",bad?"FAILED":"ok"); return bad?1:0; }
