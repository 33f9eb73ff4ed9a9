# plant(id, property, [(file, old, new)], needs, breaks, demo)
plant('s01', 'C03', [('src/Conversion.cpp', '''    // size estimation. log(256)/log(43)
    size_t size = (arraySize - zeroCount) * 148 / 100 + 1;
    return size+zeroCount;''', '''    // size estimation. log(256)/log(43)
    size_t size = (arraySize - zeroCount) * 147 / 100 + 1;
    return size+zeroCount;'''), ('src/Conversion.cpp', '''    size_t size = (arraySize - zeroCount) * 148 / 100 + 1;
    if(outputSize < size+zeroCount){''', '''    size_t size = (arraySize - zeroCount) * 147 / 100 + 1;
    if(outputSize < size+zeroCount){''')],
 'a byte string longer than about 230 bytes', 'base43 text of long data loses its most significant digit, so it decodes to other bytes',
 r'''
    for(size_t n=1; n<600; n++){
        std::vector<uint8_t> d(n, 0xff), o(n+8);
        S t = toBase43(d.data(), n);
        size_t l = fromBase43(t.c_str(), t.size(), o.data(), o.size());
        OK(l == n && memcmp(o.data(), d.data(), n) == 0);
        if(bad) break;
    }
''')
plant('s02', 'C04', [('src/Conversion.cpp', '(num >> 32) == 0', '(num >> 31) == 0')],
 'a value between 2^31 and 2^32-1', 'the announced variable-length integer length is 9 where the encoding has 5 bytes',
 r'''
    uint64_t v[] = {0, 252, 253, 65535, 65536, 0x7fffffffULL, 0x80000000ULL, 0xffffffffULL, 0x100000000ULL, ~0ULL};
    int e[] = {1, 1, 3, 3, 5, 5, 5, 5, 9, 9};
    for(int i=0; i<10; i++) OK(lenVarInt(v[i]) == e[i]);
''')
plant('s03', 'C17', [('src/Transaction.cpp', '''        bytes_parsed = 0;
        outputIndex = 0;
        sequence = 0;
        scriptSig = Script();''', '''        bytes_parsed = 0;
        outputIndex = 0;
        scriptSig = Script();''')],
 'parsing a second input into an object that already holds one', 'the sequence number of the second input is added to the one of the first',
 r'''
    S one = rep("11",32) + le(3,4) + "00" + le(0xfffffffd,4), two = rep("22",32) + le(5,4) + "0151" + le(7,4);
    TxIn in; in.parse(one); in.parse(two);
    OK(in.getStatus() == PARSING_DONE && in.outputIndex == 5);
    OK(in.sequence == 7);
''')
plant('s04', 'C18', [('src/Transaction.cpp', 'is_segwit && s->available() && bytes_written+offset == 5', 'is_segwit && s->available() && bytes_written == 5')],
 'serializing a segwit transaction through a window that starts at byte 1 to 5', 'the segwit flag byte is left out of the window',
 r'''
    S t = "02000000" "0001" "01" + rep("ab",32) + le(0,4) + "00" + "ffffffff" + "01" + le(1000,8) + "0151" + "0101aa" + "00000000";
    Tx tx; tx.parse(t);
    OK(tx.getStatus() == PARSING_DONE);
    std::vector<uint8_t> full = un(t);
    for(size_t o=0; o<full.size(); o++) for(size_t w=1; w<12; w++){
        uint8_t b[12]; size_t l = tx.serialize(b, w, o), e = full.size()-o < w ? full.size()-o : w;
        OK(l == e && memcmp(b, full.data()+o, e) == 0);
    }
''')
plant('s05', 'C19', [('src/Transaction.cpp', '''    intToLittleEndian(amount, arr, 8);
    s.write(arr, 8);
    intToLittleEndian(txIns[inputIndex].sequence''', '''    intToLittleEndian((uint32_t)amount, arr, 8);
    s.write(arr, 8);
    intToLittleEndian(txIns[inputIndex].sequence''')],
 'an amount of 2^32 satoshi (about 43 BTC) or more', 'the segwit signature hash commits to the amount modulo 2^32, so two different amounts share a digest',
 r'''
    Tx tx; tx.addInput(TxIn(rep("ab",32).c_str(), 0)); tx.addOutput(TxOut((uint64_t)1000, Script()));
    uint8_t k[32] = {1}; PrivateKey pk(k); uint8_t a[32], b[32];
    tx.sigHashSegwit(a, 0, pk.publicKey().script(P2PKH), 1000);
    tx.sigHashSegwit(b, 0, pk.publicKey().script(P2PKH), 1000 + (1ULL<<32));
    OK(memcmp(a, b, 32) != 0);
''')
plant('s06', 'C24', [('src/Transaction.cpp', '''    locktime = other.locktime;
    segwit_flag = other.segwit_flag;
    status = other.status;
    bytes_parsed = other.bytes_parsed;
    return *this;''', '''    locktime = other.locktime;
    status = other.status;
    bytes_parsed = other.bytes_parsed;
    return *this;''')],
 'assigning a legacy transaction while it is being parsed and continuing with the copy', 'the assigned copy keeps its own segwit flag and reads the rest as witnesses',
 r'''
    std::vector<uint8_t> t = un("01000000" "01" + rep("ab",32) + le(0,4) + "00" + "ffffffff" + "01" + le(1000,8) + "0151" + "00000000");
    for(size_t cut=1; cut<t.size(); cut++){
        Tx a, b;
        a.parse(t.data(), cut);
        b = a;
        b.parse(t.data()+cut, t.size()-cut);
        uint8_t o[200]; size_t l = b.serialize(o, sizeof(o));
        OK(b.getStatus() == PARSING_DONE && l == t.size() && memcmp(o, t.data(), l) == 0);
        if(bad) break;
    }
''')
plant('s07', 'C25', [('src/Conversion.cpp', '''        }else{
            break;
        }
    }
    if(size-shift > outputSize){
        free(tmp);
        return 0;
    }
    memcpy(output, tmp+shift, size-shift);
    free(tmp);''', '''        }else{
            break;
        }
    }
    if(size-shift > outputSize){
        return 0;
    }
    memcpy(output, tmp+shift, size-shift);
    free(tmp);''')],
 'decoding base43 text into a buffer that is too small', 'the temporary buffer is never freed',
 r'''
    for(int i=0; i<100; i++){ uint8_t o[4]; fromBase43("ABCDEFGHIJKLMNOPQRSTUVWXYZ", 26, o, sizeof(o)); }
''', flags='-fsanitize=address')
plant('s08', 'C26', [('src/Script.cpp', 'if(ptr == NULL){ free(scriptArray); scriptArray = NULL; scriptLen = 0; return 0; } // check if realloc failed', 'if(ptr == NULL){ free(scriptArray); scriptLen = 0; return 0; } // check if realloc failed')],
 'the allocator refusing to grow a script by one opcode', 'the script keeps a pointer to freed memory and frees it again when destroyed',
 r'''
    {
        Script s; s.push((uint8_t)0x51);
        fail = 1; size_t l = s.push((uint8_t)0x52); fail = 0;
        OK(l == 0);
    }
''', flags='-fsanitize=address -Wl,--wrap=realloc', pre=r'''
static int fail = 0;
extern "C" void * __real_realloc(void *, size_t);
extern "C" void * __wrap_realloc(void * p, size_t n){ return fail ? NULL : __real_realloc(p, n); }
''')
plant('s09', 'C28', [('src/Conversion.cpp', '''    memzero(arr, arraySize+4); // secret should not stay in RAM
    free(arr);
    return l;''', '''    free(arr);
    return l;''')],
 'exporting a private key and looking at the memory released meanwhile', 'a heap block with the raw private key is released without being wiped',
 r'''
    PrivateKey pk(key); char w[60];
    watch = 1; pk.wif(w, sizeof(w)); watch = 0;
    OK(found == 0);
''', flags='-Wl,--wrap=free', pre=r'''
#include <malloc.h>
static int watch = 0, found = 0;
static const uint8_t key[32] = {1,0x93,0x27,0x15,0x38,0xa1,0xe4,0x5d,7,9,0xbb,0x21,0x55,0x31,0x90,0x18,0x77,3,4,5,6,0xfe,0xed,0x12,0x13,0x14,0x51,0x61,0x17,0x18,0x19,0x1a};
extern "C" void __real_free(void *);
extern "C" void __wrap_free(void * p){
    if(watch && p){ size_t n = malloc_usable_size(p); for(size_t i=0; i+16<=n; i++) if(memcmp((uint8_t*)p+i, key+16, 16) == 0) found = 1; }
    __real_free(p);
}
''')
plant('s10', 'C05', [('src/Conversion.cpp', 'if(outputSize < 2*arraySize){', 'if(outputSize/2 < arraySize/2){')],
 'a hexadecimal output buffer one or two characters too small for an odd number of bytes', 'toHex writes behind the buffer it was given',
 r'''
    for(size_t n=1; n<9; n++) for(size_t o=0; o<2*n; o++){
        std::vector<uint8_t> d(n, 0xab); char * b = (char*)malloc(64); memset(b, 0x7e, 64);
        size_t l = toHex(d.data(), n, b, o);
        OK(l <= o);
        for(size_t i=o; i<64; i++) OK(b[i] == 0x7e);
        free(b);
    }
''')
plant('s11', 'C06', [('src/Script.cpp', 'if(l != 21){ // either wrong checksum', 'if(l < 20){ // either wrong checksum')],
 'base58 text with a valid checksum that carries 20 bytes instead of 21', 'a text that is no address yields a locking script containing a made-up byte',
 r'''
    for(int n=1; n<40; n++){
        uint8_t d[40]; memset(d, 0x11, sizeof(d)); d[0] = 0;
        S t = toBase58Check(d, n);
        Script s(t.c_str());
        OK((s.length() > 1) == (n == 21));
    }
''')
plant('s12', 'C29', [('src/Script.cpp', '''        (scriptArray[2] == 20) &&
        (scriptArray[23] == OP_EQUALVERIFY) &&''', '''        (scriptArray[23] == OP_EQUALVERIFY) &&''')],
 'a 25 byte script of the P2PKH form except for its push length', 'a nonstandard script is named P2PKH',
 r'''
    for(int v=0; v<256; v++){
        uint8_t b[25]; memset(b, 0x33, 25); b[0]=0x76; b[1]=0xa9; b[2]=v; b[23]=0x88; b[24]=0xac;
        Script s(b, 25);
        OK((s.type() == P2PKH) == (v == 20));
    }
''')
plant('s13', 'C16', [('src/Transaction.cpp', '''    for(unsigned int i=0; i<inputsNumber; i++){
        s.serialize(&txIns[i].witness, 0);
    }''', '''    for(unsigned int i=0; i<inputsNumber; i++){
        if(txIns[i].isSegwit()){
            s.serialize(&txIns[i].witness, 0);
        }
    }''')],
 'a transaction with both segwit and legacy inputs', 'the witness id leaves out the empty witnesses',
 r'''
    S in = rep("ab",32) + le(0,4) + "00" + "ffffffff";
    S t = "02000000" "0001" "02" + in + in + "01" + le(1000,8) + "0151" + "0101aa" + "00" + "00000000";
    Tx tx; tx.parse(t);
    std::vector<uint8_t> r = un(t); uint8_t h[32], w[32];
    doubleSha(r.data(), r.size(), h); tx.wtxid(w);
    for(int i=0; i<32; i++) OK(w[i] == h[31-i]);
''')
plant('s14', 'C09', [('src/utility/trezor/ecdsa.c', '''			bn_subtract(&curve->order, s, s);
			by ^= 1;''', '''			bn_subtract(&curve->order, s, s);''')],
 'a digest whose raw S value lies in the upper half of the range', 'the recovery index does not identify the signing key',
 r'''
    // the recovery index has to be the parity of R.y, R = (h + r*d)/s * G
    for(int i=1; i<20; i++){
        uint8_t d[32] = {0}, h[32]; d[31] = i; memset(h, i*7, 32);
        PrivateKey pk(d); Signature s = pk.sign(h);
        uint8_t b[65]; s.bin(b, 65);
        ECScalar H(h, 32), R(b, 32), Q(b+32, 32), D(d, 32);
        ECScalar k = (H + R*D) / Q;
        ECPoint P = k*GeneratorPoint; P.compressed = true;
        uint8_t sec[33]; P.sec(sec, 33);
        OK(memcmp(sec+1, b, 32) == 0 && (b[64] & 1) == (sec[0] & 1));
    }
''')
plant('s15', 'C11', [('src/Bitcoin.cpp', '''    tnonce.write(tmp, sizeof(tmp));
    tnonce.write(hash, 32);
    tnonce.end(nonce);''', '''    tnonce.write(tmp, sizeof(tmp));
    tnonce.write(hash, strnlen((const char *)hash, 32));
    tnonce.end(nonce);''')],
 'two messages that share everything up to a zero byte, signed with one key', 'the same nonce is used for both messages, which reveals the private key',
 r'''
    uint8_t d[32]; memset(d, 5, 32); PrivateKey pk(d);
    uint8_t a[32], b[32], x[64], y[64]; memset(a, 9, 32); memset(b, 9, 32); a[7] = b[7] = 0; b[20] = 1;
    pk.schnorr_sign(a).serialize(x, 64); pk.schnorr_sign(b).serialize(y, 64);
    OK(memcmp(x, y, 32) != 0);
''')
plant('s16', 'C12', [('src/Bitcoin.cpp', '''        if(s[i] > 0){
            if(s[i] < 0x80){''', '''        if(s[i] > 0){
            if(s[i] <= 0x80){''')],
 'an S value whose first significant byte is exactly 0x80', 'the DER form of the signature encodes a negative number',
 r'''
    for(int i=0; i<32; i++) for(int v=0x7f; v<=0x81; v++){
        uint8_t r[32] = {0}, s[32] = {0}; r[31] = 1; s[i] = v;
        Signature g(r, s); uint8_t b[80]; size_t l = g.der(b, sizeof(b));
        OK(l == (size_t)(6+1+32-i+(v>=0x80)) && b[7+(v>=0x80)] == v);
    }
''')
plant('s17', 'C13', [('src/Bitcoin.cpp', 'size_t entropy_len = (num_words*4)/3;', 'size_t entropy_len = (num_words/6)*8;')],
 'a phrase of 15 or 21 words', 'entropy is returned shortened by four bytes',
 r'''
    for(int n=16; n<=32; n+=4){
        uint8_t e[32], o[32]; for(int i=0; i<32; i++) e[i] = i*11+n;
        S m = mnemonicFromEntropy(e, n);
        OK(mnemonicToEntropy(m, o, sizeof(o)) == (size_t)n && memcmp(e, o, n) == 0);
    }
''')
plant('s18', 'C14', [('src/HDWallet.cpp', '''    for(uint8_t i=0; i<4; i++){
        hex[12-i] = ((childNumber >> (i*8)) & 0xFF);
    }
    memcpy(hex+13, chainCode, 32);
    memcpy(hex+46, point, 32);''', '''    for(uint8_t i=0; i<3; i++){
        hex[12-i] = ((childNumber >> (i*8)) & 0xFF);
    }
    memcpy(hex+13, chainCode, 32);
    memcpy(hex+46, point, 32);''')],
 'an extended public key whose child number does not fit in 24 bits', 'the exported extended public key carries a wrong child number',
 r'''
    uint8_t k[32] = {3}, c[32] = {4};
    HDPrivateKey r(k, c);
    HDPublicKey p = r.child(0x01000002).xpub();
    HDPublicKey q(p.xpub().c_str());
    OK(q.childNumber == 0x01000002 && q == p);
''')
P['s18']['property'] = 'C15'
plant('s19', 'C14', [('src/HDWallet.cpp', '''    if(hardened && index < HARDENED_INDEX){
        index += HARDENED_INDEX;
    }''', '''    if(hardened){
        index |= HARDENED_INDEX;
    }
    index &= ~(hardened ? 0 : 0x40000000);''')],
 'a normal child number of 2^30 or more', 'two different child numbers give the same private child, and the public derivation disagrees',
 r'''
    uint8_t k[32] = {3}, c[32] = {4};
    HDPrivateKey r(k, c);
    uint32_t v[] = {0, 1, 0x3fffffff, 0x40000000, 0x7fffffff};
    for(int i=0; i<5; i++){ OK(r.child(v[i]).childNumber == v[i]); OK(r.child(v[i]).xpub() == r.xpub().child(v[i])); }
''')
plant('s20', 'C21', [('src/PSBT.cpp', '''                        pk = root.derive(txInsMeta[i].derivations[j].derivation, txInsMeta[i].derivations[j].derivationLen);
''', '''                        first_derivation = txInsMeta[i].derivations[j].derivation;
                        pk = root.derive(first_derivation, txInsMeta[i].derivations[j].derivationLen);
''')],
 'three inputs, the second and the third from another account than the first one', 'the third input is not signed, its key is derived from the account of the first one',
 r'''
    uint8_t k[32] = {3}, c[32] = {4}; HDPrivateKey r(k, c); uint8_t fp[4]; r.fingerprint(fp);
    S t = "02000000" "03"; for(int i=0; i<3; i++) t += rep("ab",31) + le(i,1) + le(0,4) + "00" + "ffffffff"; t += "01" + le(1000,8) + "0151" + "00000000";
    S p = "70736274ff" "0100" + S(le(t.size()/2,1)) + t + "00";
    for(uint32_t a=0; a<3; a++){
        uint32_t path[5] = {0x80000000u+84, 0x80000000u, 0x80000000u+(a>0), 0, 1};
        PublicKey pub = r.derive(path, 5).publicKey(); uint8_t sec[33]; pub.sec(sec, 33);
        Script sc = pub.script(P2WPKH); uint8_t b[40]; size_t l = sc.serialize(b, 40);
        S o = le(5000,8) + hx(b, l), d = hx(fp, 4); for(int i=0; i<5; i++) d += le(path[i], 4);
        p += "0101" + le(o.size()/2,1) + o + "2206" + hx(sec,33) + le(d.size()/2,1) + d + "00";
    }
    p += "00";
    PSBT ps; ps.parse(p);
    OK(ps.getStatus() == PARSING_DONE);
    OK(ps.sign(r) == 3);
''')
plant('s21', 'C22', [('src/PSBT.cpp', '''    uint64_t input_amount = 0;
    uint64_t output_amount = 0;''', '''    uint64_t input_amount = 0;
    uint32_t output_amount = 0;''')],
 'outputs of 2^32 satoshi or more', 'the reported fee is wrong for large amounts',
 r'''
    S t = "02000000" "01" + rep("ab",32) + le(0,4) + "00" + "ffffffff" + "01" + le(5000000000ULL,8) + "0151" + "00000000";
    S o = le(5000001000ULL,8) + "160014" + rep("11",20);
    S p = "70736274ff" "0100" + le(t.size()/2,1) + t + "00" + "0101" + le(o.size()/2,1) + o + "00" + "00";
    PSBT ps; ps.parse(p);
    OK(ps.getStatus() == PARSING_DONE && ps.fee() == 1000);
''')
plant('s22', 'C20', [('src/PSBT.cpp', 'if(memcmp(hash, tx.txIns[input].hash, 32) != 0){', 'if(strncmp((const char *)hash, (const char *)tx.txIns[input].hash, 32) != 0){')],
 'a previous transaction whose id shares a leading zero byte with the one referred to', 'a wrong previous transaction is accepted, with an amount of the attacker\'s choice',
 r'''
    S prev; std::vector<uint8_t> raw; uint8_t h[32];
    for(uint32_t n=0; n<100000; n++){
        prev = "02000000" "01" + rep("cd",32) + le(n,4) + "00" + "ffffffff" + "01" + le(777,8) + "0151" + "00000000";
        raw = un(prev); doubleSha(raw.data(), raw.size(), h);
        if(h[0] == 0) break;
    }
    uint8_t other[32]; memcpy(other, h, 32); memset(other+1, 0xee, 31);
    for(int same=0; same<2; same++){
        S t = "02000000" "01" + hx(same ? h : other, 32) + le(0,4) + "00" + "ffffffff" + "01" + le(100,8) + "0151" + "00000000";
        S p = "70736274ff" "0100" + le(t.size()/2,1) + t + "00" + "0100" + le(raw.size(),1) + prev + "00" + "00";
        PSBT ps; ps.parse(p);
        OK((ps.getStatus() == PARSING_DONE) == (same == 1));
    }
''')
plant('s23', 'C23', [('src/Electrum.cpp', 'txInsMeta[i].derivation[cur/2] += (c << (8 * (cur % 2)));', 'txInsMeta[i].derivation[cur/2] += (c << (7 * (cur % 2)));')],
 'an address index of 256 or more in a segwit Electrum transaction', 'the input is signed with the key of another index',
 r'''
    uint8_t k[32] = {3}, c[32] = {4}; HDPrivateKey a(k, c, 3, NULL, 0x80000000u, &Mainnet, P2WPKH);
    uint8_t xb[78]; a.xpub().serialize(xb, 78);
    for(unsigned idx=0; idx<1000; idx+=111){
        S t = "45505446ff00" "02000000" "0001" "01" + rep("ab",32) + le(0,4) + "00" + "feffffff" + "01" + le(1000,8) + "0151" +
              "feffffffff" + le(5000,8) + "fd000001ff5300" + hx(xb, 78) + le(0,2) + le(idx,2) + "00000000";
        std::vector<uint8_t> r = un(t);
        ElectrumTx e; e.parse(r.data(), r.size());
        OK(e.getStatus() == PARSING_DONE);
        if(bad) break;
        OK(e.txInsMeta[0].derivation[1] == idx);
    }
''')
plant('s24', 'C27', [('src/Bitcoin.cpp', '''        // just copy x
        memcpy(shared_secret, sec+1, 32);''', '''        // just copy x
        strncpy((char *)shared_secret, (const char *)sec+1, 32);''')],
 'a shared point whose x coordinate contains a zero byte, plain variant', 'everything after the first zero byte of the shared secret is lost',
 r'''
    uint8_t a[32] = {0}; a[31] = 2; PrivateKey A(a);
    for(int i=1; i<400; i++){
        uint8_t b[32] = {0}; b[30] = i>>8; b[31] = i; PrivateKey B(b);
        uint8_t s[32]; A.ecdh(B.publicKey(), s, false);
        ECPoint P = ECScalar(a,32) * B.publicKey(); uint8_t x[65]; P.compressed = false; P.sec(x, 65);
        OK(memcmp(s, x+1, 32) == 0);
        if(bad) break;
    }
''')
plant('s25', 'C30', [('src/PSBT.cpp', 'if (clscount > 0) c = PolyMod(c, cls);', 'if (cls > 0) c = PolyMod(c, cls);')],
 'a descriptor whose last one or two characters all belong to the first character group', 'the checksum differs from the one Bitcoin Core computes',
 r'''
    OK(descriptorChecksum("raw(deadbeef)") == "89f8spxm");
''')
plant('s26', 'C10', [('src/utility/trezor/ecdsa.c', '''		(!bn_is_less(&r, &curve->order)) ||
		(!bn_is_less(&s, &curve->order))) return 2;''', '''		(!bn_is_less(&r, &curve->order))) return 2;''')],
 'a signature value S of at least the group order, congruent to a valid one', 'a second, out of range form of a signature is accepted',
 r'''
    // choose s = 5: d = (5k - z)/r
    uint8_t z[32], kk[32], five[32] = {0}; memset(z, 0x21, 32); memset(kk, 0x37, 32); five[31] = 5;
    ECScalar Z(z,32), K(kk,32), F(five,32);
    ECPoint P = K*GeneratorPoint; P.compressed = true; uint8_t sec[33]; P.sec(sec, 33);
    ECScalar R(sec+1,32); ECScalar D = (F*K - Z)/R;
    uint8_t d[32]; D.getSecret(d); PrivateKey pk(d);
    std::vector<uint8_t> n = un("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364146");
    Signature good(sec+1, five), twin(sec+1, n.data()); // order + 5
    OK(pk.publicKey().verify(good, z));
    OK(!pk.publicKey().verify(twin, z));
''')
plant('s27', 'C08', [('src/utility/trezor/ecdsa.c', '''	if (!bn_is_less(&(pub->x), &curve->prime) || !bn_is_less(&(pub->y), &curve->prime)) {''', '''	if (!bn_is_less(&(pub->x), &curve->prime)) {''')],
 'an uncompressed key whose y coordinate is written as y plus the field prime (y below 2^32)', 'an encoding that is no point of the curve gives a key that reports itself valid',
 r'''
    // x^3 + 7 = y^2 with small y, found by taking cube roots
    std::vector<uint8_t> k = un("04" "@X@" "@Y@"), g = un("04" "@X@" "@YP@");
    PublicKey a, b; a.parse(k.data(), 65); b.parse(g.data(), 65);
    OK(a.isValid()); OK(!b.isValid());
''')
p=2**256-2**32-977
for y in range(1,200):
    a=(y*y-7)%p
    x=pow(a,(p+2)//9,p)
    if pow(x,3,p)==a: break
P['s27']['demo']=P['s27']['demo'].replace('@X@','%064x'%x).replace('@YP@','%064x'%(y+p)).replace('@Y@','%064x'%y)
plant('s28', 'C02', [('src/utility/trezor/hmac.c', '''	if (keylen > SHA512_BLOCK_LENGTH) {
		sha512_Raw(''', '''	if (keylen >= SHA512_BLOCK_LENGTH) {
		sha512_Raw(''')],
 'an HMAC-SHA512 key of exactly 128 bytes', 'the key is hashed although it fits, so the code differs from the standard one',
 r'''
    // HMAC by definition
    for(size_t n=126; n<131; n++){
        std::vector<uint8_t> k(n, 0x5a), pad(128, 0), m(9, 7); uint8_t h[64], o[64];
        if(n > 128) sha512(k.data(), n, pad.data()); else memcpy(pad.data(), k.data(), n);
        std::vector<uint8_t> a = pad, b = pad; for(auto &c : a) c ^= 0x36; for(auto &c : b) c ^= 0x5c;
        a.insert(a.end(), m.begin(), m.end()); sha512(a.data(), a.size(), h);
        b.insert(b.end(), h, h+64); sha512(b.data(), b.size(), h);
        sha512Hmac(k.data(), n, m.data(), m.size(), o);
        OK(memcmp(h, o, 64) == 0);
    }
''')
plant('s29', 'C10', [('src/utility/trezor/ecdsa.c', 'is_doubling = bn_is_equal(&h, prime);', 'is_doubling = bn_is_zero(&h);')],
 'a signature whose first multiplier makes the generator-table sum add two equal points (30*16^63 - n or its negative)', 'a valid signature is rejected',
 r'''
    PublicKey Q("03f01d6b9018ab421dd410404cb869072065522bf85734008f105cf385a023a80f");
    uint8_t z[32], rs[64];
    fromHex("1bd6e521c4138406cf252d896520158fc0cdbfba98e030b697ef3d031065fa0c",64,z,32);
    fromHex("8c07b66fdfb374f36e3d5d43dcea82a743bcf5d9eb84927254f8c5a11ba82d6a389363348dabec22c69b0d52d66aa4f324588bd25f41e2ab278abc068f68eb3d",128,rs,64);
    Signature g; g.fromBin(rs,64);
    OK(Q.verify(g,z)); z[31] ^= 1; OK(!Q.verify(g,z));
''')
plant('s30', 'C31', [('src/utility/trezor/ecdsa.c', '} while (bn_is_zero(k) || !bn_is_less(k, prime));', '} while (!bn_is_less(k, prime));')],
 'a random source that delivers nine zeros in a row', 'public keys come out as the point at infinity',
 r'''
    uint8_t t[32] = {0}; t[31] = 77;
    PrivateKey a(t); zeros = 9; PrivateKey b(t);
    OK(a.publicKey() == b.publicKey());
''')
P['s30']['pre'] = '@RND@'
plant('s31', 'C01', [('src/utility/segwit_addr.c', 'int v = (input[i] & 0x80) ? -1 : charset_rev[(int)input[i]];', 'int v = charset_rev[(int)input[i]];')],
 'an address like text with a non-ASCII character after the separator', 'the bech32 decoder reads outside its table',
 r'''
    for(int c=128; c<256; c++){ S a = "bc1qqqqqqqqqqqqqqqq"; a[9] = (char)c; Script s(a.c_str()); OK(s.length() == 1); }
''', flags='-fsanitize=address')
# ---- results remembered between calls under keys that are not complete
plant('s32', 'C10', [('src/Bitcoin.cpp', '''    return (ecdsa_verify_digest(&secp256k1, pub, signature, hash)==0);
''', '''    // the same signature is often verified twice in a row
    static uint8_t lastsig[64], lasthash[32];
    static bool last = false;
    if(!last || memcmp(lastsig, signature, 64) != 0 || memcmp(lasthash, hash, 32) != 0){
        last = (ecdsa_verify_digest(&secp256k1, pub, signature, hash)==0);
        memcpy(lastsig, signature, 64);
        memcpy(lasthash, hash, 32);
    }
    return last;
''')],
 'a signature that verified under its key, verified for the same digest under another key right afterwards', 'the signature is accepted for a key that did not make it',
 r'''
    uint8_t a[32] = {1}, b[32] = {2}, z[32] = {3}; PrivateKey ka(a), kb(b); Signature g = ka.sign(z);
    OK(ka.publicKey().verify(g, z)); OK(!kb.publicKey().verify(g, z)); OK(ka.publicKey().verify(g, z));
''')
plant('s33', 'C19', [('src/Transaction.cpp', '''int Tx::hashOutputs(uint8_t h[32]) const{
    DoubleSha s;
    s.begin();
    for(size_t i=0; i<outputsNumber; i++){
        s.serialize(&txOuts[i], 0);
    }
    s.end(h);
    return 32;''', '''int Tx::hashOutputs(uint8_t h[32]) const{
    // outputs are the same for all inputs of the transaction
    static uint8_t last[32];
    static const TxOut * lastOuts = NULL;
    static size_t lastNumber = 0;
    if(lastOuts != txOuts || lastNumber != outputsNumber || lastOuts == NULL){
        DoubleSha s;
        s.begin();
        for(size_t i=0; i<outputsNumber; i++){
            s.serialize(&txOuts[i], 0);
        }
        s.end(last);
        lastOuts = txOuts;
        lastNumber = outputsNumber;
    }
    memcpy(h, last, 32);
    return 32;''')],
 'a signature hash taken, an output amount edited in place, and the hash taken again', 'the signature commits to outputs the transaction does not have any more',
 r'''
    uint8_t p[32] = {9}, k[32] = {1}, h1[32], h2[32], h3[32]; PrivateKey pk(k); Script s = pk.publicKey().script(P2WPKH);
    Tx t; t.addInput(TxIn(p, 0)); t.addOutput(TxOut(1000, s));
    t.sigHashSegwit(h1, 0, pk.publicKey().script(), 5000); t.txOuts[0].amount = 2000; t.sigHashSegwit(h2, 0, pk.publicKey().script(), 5000);
    Tx u; u.addInput(TxIn(p, 0)); u.addOutput(TxOut(2000, s)); u.sigHashSegwit(h3, 0, pk.publicKey().script(), 5000);
    OK(memcmp(h1, h2, 32) != 0); OK(memcmp(h2, h3, 32) == 0);
''')
plant('s34', 'C21', [('src/PSBT.cpp', '''    HDPrivateKey account;
    for(size_t i=0; i<tx.inputsNumber; i++){''', '''    static HDPrivateKey account; // kept for the next transaction
    static uint32_t account_derivation[5];
    static uint8_t account_len = 0xFF;
    for(size_t i=0; i<tx.inputsNumber; i++){'''),
 ('src/PSBT.cpp', '''                        account = root.derive(first_derivation, first_derivation_len);
''', '''                        if(account_len != first_derivation_len || memcmp(account_derivation, first_derivation, first_derivation_len*sizeof(uint32_t)) != 0){
                            account = root.derive(first_derivation, first_derivation_len);
                            account_len = 0xFF;
                            if(first_derivation_len <= 5){
                                memcpy(account_derivation, first_derivation, first_derivation_len*sizeof(uint32_t));
                                account_len = first_derivation_len;
                            }
                        }
''')],
 'two roots that sign one after the other with the same account path', 'the second root does not sign its inputs',
 r'''
    for(uint8_t z=3; z<6; z++){
        uint8_t k[32] = {z}, c[32] = {4}; HDPrivateKey r(k, c); uint8_t fp[4]; r.fingerprint(fp);
        S t = "02000000" "01" + rep("ab",32) + le(0,4) + "00" + "ffffffff" "01" + le(1000,8) + "0151" + "00000000";
        S p = "70736274ff" "0100" + S(le(t.size()/2,1)) + t + "00";
        uint32_t path[5] = {0x80000000u+84, 0x80000000u, 0x80000000u, 0, 1};
        PublicKey pub = r.derive(path, 5).publicKey(); uint8_t sec[33]; pub.sec(sec, 33);
        Script sc = pub.script(P2WPKH); uint8_t b[40]; size_t l = sc.serialize(b, 40);
        S o = le(5000,8) + hx(b, l), d = hx(fp, 4); for(int i=0; i<5; i++) d += le(path[i], 4);
        p += "0101" + le(o.size()/2,1) + o + "2206" + hx(sec,33) + le(d.size()/2,1) + d + "00" "00";
        PSBT ps; ps.parse(p);
        OK(ps.getStatus() == PARSING_DONE);
        OK(ps.sign(r) == 1);
    }
''')
plant('s35', 'C14', [('src/HDWallet.cpp', '''    uint8_t hash[20] = { 0 };
    hash160(sec, l, hash);
    memcpy(child.parentFingerprint, hash, 4);
    if(hardened''', '''    static uint8_t hash[20]; // the same for all children
    static uint8_t parent[32];
    static bool known = false;
    if(!known || memcmp(parent, chainCode, sizeof(parent)) != 0){
        hash160(sec, l, hash);
        memcpy(parent, chainCode, sizeof(parent));
        known = true;
    }
    memcpy(child.parentFingerprint, hash, 4);
    if(hardened''')],
 'children derived in turn from two parents that share a chain code', 'the child carries the fingerprint of the other parent',
 r'''
    uint8_t a[32] = {1}, b[32] = {2}, c[32] = {7}; HDPrivateKey x(a, c), y(b, c); uint8_t f[4];
    HDPrivateKey p = x.child(5), q = y.child(5, true);
    x.fingerprint(f); OK(memcmp(f, p.parentFingerprint, 4) == 0);
    y.fingerprint(f); OK(memcmp(f, q.parentFingerprint, 4) == 0);
''')
plant('s36', 'C02', [('src/Hash.cpp', '''    sha256(tag, strlen(tag), th);
    write(th, 32);''', '''    static uint8_t last[32]; // tags don't change often
    static char name[10] = "";
    static size_t len = 0;
    if(len == 0 || len != strlen(tag) || strncmp(name, tag, sizeof(name)) != 0){
        sha256(tag, strlen(tag), last);
        strncpy(name, tag, sizeof(name));
        len = strlen(tag);
    }
    memcpy(th, last, 32);
    write(th, 32);''')],
 'two tags of one length that share their first ten characters, used in turn', 'the second tagged hash is that of the first tag',
 r'''
    const char * tags[] = {"BIP0340/challenge-a", "BIP0340/challenge-b", "x", "BIP0340/challenge-a"};
    for(int i=0; i<4; i++){
        uint8_t t[32], o[32], w[32]; sha256(tags[i], strlen(tags[i]), t);
        S m((char*)t, 32); m += S((char*)t, 32) + "msg"; sha256(m.data(), m.size(), w);
        tagged_hash(tags[i], "msg", 3, o); OK(memcmp(o, w, 32) == 0);
    }
''')
plant('s37', 'C07', [('src/BitcoinCurve.cpp', '''		ecdsa_get_public_key65(&secp256k1, num, pubkey);
''', '''		static uint8_t lastnum[32], lastpub[65];
		if(memcmp(lastnum, num, sizeof(num)/2) != 0 || lastpub[0] == 0){ // not the last one
			ecdsa_get_public_key65(&secp256k1, num, lastpub);
			memcpy(lastnum, num, sizeof(num));
		}
		memcpy(pubkey, lastpub, sizeof(pubkey));
''')],
 'two multiples of the generator whose factors share their upper half, computed in turn', 'the second product is that of the first factor',
 r'''
    uint8_t a[32] = {1}, b[32] = {1}, one[32] = {0}; b[31] = 1; one[31] = 1;
    ECScalar x(a, 32), y(b, 32), o(one, 32); ECPoint p = x*GeneratorPoint, q = y*GeneratorPoint, g = GeneratorPoint;
    OK(p != q); OK(q == p + g);
''')
plant('s38', 'C22', [('src/PSBT.cpp', '''uint64_t PSBT::fee() const{
    uint64_t input_amount = 0;''', '''uint64_t PSBT::fee() const{
    static const PSBTInputMetadata * known = NULL;
    static uint64_t input_amount = 0; // inputs are fixed once they are parsed
    static uint64_t known_amount = 0;
    input_amount = 0;'''),
 ('src/PSBT.cpp', '''    if(output_amount > input_amount){
        return 0;
    }
    return input_amount-output_amount;''', '''    if(known != txInsMeta){
        known = txInsMeta;
        known_amount = input_amount;
    }
    if(output_amount > known_amount){
        return 0;
    }
    return known_amount-output_amount;''')],
 'the amount of an input corrected in place after the fee was asked for (or another transaction at the same address)', 'the fee of the earlier amounts is reported',
 r'''
    S t = "02000000" "01" + rep("ab",32) + le(0,4) + "00" + "ffffffff" + "01" + le(5000ULL,8) + "0151" + "00000000";
    S o = le(6000ULL,8) + "160014" + rep("11",20);
    S p = "70736274ff" "0100" + le(t.size()/2,1) + t + "00" + "0101" + le(o.size()/2,1) + o + "00" + "00";
    PSBT ps; ps.parse(p);
    OK(ps.getStatus() == PARSING_DONE && ps.fee() == 1000);
    ps.txInsMeta[0].txOut.amount = 7000; OK(ps.fee() == 2000);
''')
