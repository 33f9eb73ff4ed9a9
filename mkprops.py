#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text is reviewable in one place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe_at=None):
    M = {"chunkings": "schedules", "interleavings": "schedules", "operation sequences": "histories", "lifecycles": "histories", "object states": "histories",
         "buffer sizes": "configurations", "networks": "configurations", "allocation points": "fault_sequences"}
    o2 = []
    for x in over:
        y = M.get(x, "inputs")
        if y not in o2: o2.append(y)
    over = o2
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe_at: a["observe_at"] = observe_at
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

S = "src/"
p("C01", "Hostile input never corrupts memory, runs undefined code or hangs",
  "Whatever bytes or text are fed, in whatever pieces, to any parser or decoder of the library, and however the resulting object is then used through its public operations, every call terminates, touches no memory outside the buffers and objects involved and executes no undefined behaviour. No result ever depends on uninitialised memory.",
  ["inputs", "chunkings", "operation sequences"], "every input string, every chunking of it, every following sequence of public operations on the parsed object",
  "The set of malformed inputs is unbounded; tests feed a handful of well-formed strings and run without sanitizers.",
  [S+"BaseClasses.cpp", S+"Conversion.cpp", S+"Script.cpp", S+"Transaction.cpp", S+"PSBT.cpp", S+"Electrum.cpp", S+"HDWallet.cpp", S+"Bitcoin.cpp", S+"BitcoinCurve.cpp", S+"utility/segwit_addr.c"],
  [("stream parsers", "from_stream of every Streamable class"), ("text decoders", "from* functions of Conversion.cpp, from_str of key classes"), ("PSBT key/value dispatch", "PSBT::add")])
p("C02", "Hashes, MACs and key stretching match their standards",
  "For every message, RIPEMD-160, SHA-256, SHA-512, SHA256-then-RIPEMD160, double SHA-256, tagged SHA-256, HMAC and PBKDF2 return exactly the value their standards define. The result does not depend on how the message is split into writes, on reuse of a hasher object, or on other hashers being used in between.",
  ["message lengths", "chunkings", "interleavings"], "all messages, keys and salts of any length, all ways of splitting the message and interleaving several hashers",
  "Block-boundary, key-length and state-reuse errors show only for particular lengths and call sequences.",
  [S+"Hash.cpp", S+"utility/trezor/sha2.c", S+"utility/trezor/ripemd160.c", S+"utility/trezor/hmac.c", S+"utility/trezor/pbkdf2.c"],
  [("streaming hash classes", "Hash.cpp"), ("block buffering and padding", "sha2.c, ripemd160.c"), ("key padding", "hmac.c")])
p("C03", "Text encodings are exact inverses and reject corrupted text",
  "For every byte string, the hexadecimal, binary, base58, base58-with-checksum, base43 and base64 (standard, unpadded, URL-safe) encoders produce the standard text, and the matching decoder returns exactly the original bytes, whatever the length and number of leading zero bytes. Checksummed text that was altered is rejected, and text containing characters outside the alphabet never contributes made-up bytes.",
  ["byte strings", "texts"], "all byte strings, and all texts obtained by corrupting an encoding",
  "Length- and leading-zero-dependent rounding in the big-number conversions shows only for particular sizes and values.",
  [S+"Conversion.cpp"], [("radix conversion", "toBase58/fromBase58, toBase43/fromBase43"), ("bit packing", "toBase64/fromBase64"), ("checksum", "fromBase58Check")])
p("C04", "Integer and variable-length integer codecs are exact",
  "Every 64-bit value survives conversion to little- or big-endian bytes of sufficient width and back, and its variable-length encoding is the canonical Bitcoin one, has exactly the announced length and decodes to the same value. Decoding truncated input never yields a value read from outside it.",
  ["values", "widths"], "all 64-bit values and all buffer widths", "Boundaries (0xfc/0xfd, 16/32-bit limits) and truncated input are not sampled by tests.",
  [S+"Conversion.cpp"], [("endian conversion", "littleEndianToInt, intToLittleEndian, bigEndianToInt, intToBigEndian"), ("varint", "lenVarInt, readVarInt, writeVarInt")])
p("C05", "Stated output capacity is never exceeded",
  "Every function that is given an output buffer together with its size writes only inside that buffer, for every size including zero. When the result does not fit, the call reports failure or a truncated count instead of claiming a complete result.",
  ["buffer sizes", "inputs"], "all output capacities from zero to beyond the result size, for every encoder, decoder, serializer and address or key formatter",
  "Tests always pass generous buffers.",
  [S+"Conversion.cpp", S+"BaseClasses.cpp", S+"Bitcoin.cpp", S+"Script.cpp", S+"HDWallet.cpp", S+"BitcoinCurve.cpp", S+"PSBT.cpp"],
  [("capacity checks", "to*/from* functions"), ("bounded byte stream", "SerializeByteStream"), ("key and address formatters", "wif, xprv, xpub, *Address, sec, der, bin")])
p("C06", "Addresses and locking scripts correspond one to one",
  "On every supported network each key or script yields exactly the standard legacy, nested-segwit or native-segwit address, and turning an address back into a locking script gives exactly the script that the address stands for. Text that is not a valid address (bad checksum, bad length, unknown prefix, mixed case, wrong witness program) yields an empty script, never a different destination.",
  ["keys", "scripts", "networks", "texts"], "all keys, scripts, networks and all address-like texts", "A wrong destination for some prefix, witness version, network or corruption is not visible in a few samples.",
  [S+"Script.cpp", S+"Bitcoin.cpp", S+"utility/segwit_addr.c", S+"Networks.cpp"],
  [("address parsing", "Script::fromAddress"), ("address formatting", "Script::address, PublicKey::*Address"), ("bech32", "segwit_addr.c")])
p("C07", "Curve and scalar arithmetic obeys the group laws",
  "For all scalars and curve points, including zero, one, values at or next to the group order and the point at infinity, addition, subtraction, negation, multiplication and division give exactly the secp256k1 result. Comparisons order values as their standard byte encodings do.",
  ["scalars", "points"], "all scalars and points including every exceptional case of the addition formulas", "Carry, reduction and exceptional-case errors appear on a vanishing fraction of inputs.",
  [S+"BitcoinCurve.cpp", S+"BitcoinCurve.h", S+"utility/trezor/bignum.c", S+"utility/trezor/ecdsa.c", S+"utility/trezor/secp256k1.c"],
  [("scalar operators", "ECScalar"), ("point operators", "ECPoint"), ("windowed multiplication and precomputed table", "point_multiply, scalar_multiply, secp256k1.table")])
p("C08", "Public key encodings round-trip and off-curve keys are invalid",
  "Every curve point parses from its compressed, uncompressed or x-only encoding to exactly that point and serializes back to the same bytes, in binary and hexadecimal. An encoding that does not describe a point of the curve never produces a key that reports itself valid.",
  ["encodings"], "all 33/65-byte strings and x coordinates", "Half of all x coordinates are off the curve and prefix/parity handling has many corner cases.",
  [S+"BitcoinCurve.cpp", S+"BitcoinCurve.h", S+"utility/trezor/ecdsa.c"], [("point parsing", "ECPoint::from_stream, fromSec, from_x"), ("decompression", "ecdsa_uncompress_pubkey, uncompress_coords"), ("validation", "ECPoint::isValid")])
p("C09", "ECDSA signatures are deterministic, low-S and valid",
  "For every private key and 32-byte digest, signing returns the RFC 6979 signature with the smaller of the two possible S values and a recovery index that identifies the signing key, and that signature verifies under the key. The result never depends on the random source.",
  ["keys", "digests"], "all keys in 1..n-1 and all 32-byte digests (a digest at or above the group order may enter the nonce derivation reduced or as is)", "Wrong nonces or rare high-S, short-R or recovery cases need many keys and digests to appear.",
  [S+"Bitcoin.cpp", S+"utility/trezor/ecdsa.c", S+"utility/trezor/rfc6979.c"], [("signing", "PrivateKey::sign, ecdsa_sign_digest"), ("nonce", "rfc6979.c")])
p("C10", "ECDSA verification accepts exactly the valid signatures",
  "Verification returns true if and only if the two signature values are in range and satisfy the ECDSA equation for that key and digest. Altered digests, altered signatures, zero or out-of-range values and foreign or invalid keys are rejected.",
  ["keys", "digests", "signatures"], "all keys, digests and pairs of 256-bit signature values", "Forgeries exploiting missing range or infinity checks are never part of a positive test.",
  [S+"Bitcoin.cpp", S+"utility/trezor/ecdsa.c"], [("verification", "PublicKey::verify, ecdsa_verify_digest")])
p("C11", "Schnorr signing and verification follow BIP340",
  "For every private key and message, Schnorr signing gives a deterministic signature that is valid under BIP340 and whose nonce differs whenever key or message differs. Verification accepts exactly the signatures BIP340 accepts: an altered message, key, nonce point or scalar, a negated scalar, out-of-range values and non-curve x coordinates are rejected.",
  ["keys", "messages", "signatures"], "all keys, 32-byte messages and 64-byte signatures", "The test suite checks one vector; soundness concerns all invalid signatures.",
  [S+"Bitcoin.cpp", S+"BitcoinCurve.cpp"], [("signing", "PrivateKey::schnorr_sign"), ("verification", "PublicKey::schnorr_verify")])
p("C12", "Signature encodings are strict and lossless",
  "Every pair of signature values serializes to its unique strict DER form and parses back to the same pair; the 64-byte and 65-byte binary forms round-trip as well. Byte strings that are not strict DER (wrong tags, lengths, padding, negative or oversized integers, truncation) are refused and leave no usable signature.",
  ["signature values", "byte strings"], "all pairs of 256-bit values and all byte strings", "Short integers and sign padding occur once in 256 signatures; malformed DER is not tested.",
  [S+"Bitcoin.cpp"], [("DER codec", "Signature::from_stream, der, rlen, slen"), ("binary codec", "Signature::bin, fromBin, SchnorrSignature")])
p("C13", "Mnemonics follow BIP39 in both directions",
  "Every entropy of 16, 20, 24, 28 or 32 bytes maps to its BIP39 English phrase and back to the same entropy, and the seed and master key computed from any phrase and passphrase are the BIP39/BIP32 ones. A phrase made of supplied data encodes the SHA-256 of all of that data, cut to the requested length. The phrase check accepts exactly the phrases with known words, a valid word count and a correct checksum.",
  ["entropies", "phrases", "passphrases"], "all entropies, all word sequences and all passphrases", "Only one phrase is tested; checksum bits and word counts vary.",
  [S+"Bitcoin.cpp", S+"HDWallet.cpp", S+"utility/trezor/bip39.c"], [("phrase codec", "mnemonic_from_data, mnemonic_to_entropy, mnemonic_check"), ("seed", "HDPrivateKey::fromMnemonic")])
p("C14", "Hierarchical key derivation follows BIP32",
  "For every master key and every path, private and public child derivation give exactly the BIP32 keys, chain codes, depths, parent fingerprints and child numbers, and deriving publicly commutes with taking the public key. Textual and numeric paths agree, and the standard purpose and coin type select the matching script type and network. Malformed or overflowing paths and hardened derivation from a public key yield an invalid key, never a wrong one.",
  ["seeds", "paths"], "all seeds, all index sequences and all path strings", "Path syntax, hardened boundaries and deep paths form an unbounded space.",
  [S+"HDWallet.cpp"], [("child derivation", "HDPrivateKey::child, HDPublicKey::child"), ("path parsing", "derive"), ("fingerprint", "fingerprint")])
p("C15", "Private and extended keys survive export and import",
  "Exporting a private key in wallet-import format, or an extended key in any of its script-type and network variants, and importing the text again yields an equal key with the same network, compression, script type and derivation data. Text with a wrong checksum, length, version or key value outside the valid range yields an invalid key.",
  ["keys", "networks", "texts"], "all keys, networks and script types (networks that share their prefixes are indistinguishable) and all corrupted texts", "Version-byte tables, leading zero bytes and rejection paths are not sampled.",
  [S+"HDWallet.cpp", S+"Bitcoin.cpp", S+"Networks.cpp"], [("extended keys", "HDPrivateKey/HDPublicKey from_str, to_bytes, from_stream"), ("WIF", "PrivateKey::wif, fromWIF")])
p("C16", "Transactions round-trip exactly and ids are correct",
  "Every well-formed legacy or segwit transaction parses to exactly its fields and serializes back to the same bytes, the announced length equals the serialized length, and transaction id and witness id equal the double SHA-256 of the standard serializations. A transaction assembled field by field serializes in the same standard form, and malformed or truncated bytes are never reported as a complete transaction with other content.",
  ["transactions"], "all transactions with up to 252 inputs and outputs and any sizes of scripts and witnesses", "Length-prefix boundaries and witness shapes are combinatorial.",
  [S+"Transaction.cpp", S+"Script.cpp"], [("transaction codec", "Tx::from_stream, to_stream, length"), ("ids", "Tx::hash, whash"), ("script and witness codec", "Script, Witness")])
p("C17", "Parsing in pieces equals parsing at once",
  "Feeding the serialized form of any object to its parser in arbitrary pieces, in binary or hexadecimal, with other objects being parsed in between, ends in the same status and the same object as parsing it in one call. Before the last byte the status is incomplete, and the byte counts reported add up to the bytes consumed.",
  ["objects", "chunkings", "interleavings"], "all objects, all ways to cut their serialization, all interleavings of several parsers, fresh objects and objects reused after completion or reset", "The number of chunkings is exponential; each boundary is a distinct resume state.",
  [S+"BaseClasses.cpp", S+"Transaction.cpp", S+"Script.cpp", S+"PSBT.cpp", S+"BitcoinCurve.cpp", S+"Bitcoin.cpp", S+"HDWallet.cpp", S+"Electrum.cpp"], [("resume logic", "bytes_parsed/status in every from_stream")])
p("C18", "Serialization windows concatenate to the whole",
  "Serializing any object from any offset into any window, in binary or hexadecimal, yields exactly that slice of its full serialization, and the count returned is the slice length. Windows that start beyond the end yield nothing.",
  ["objects", "offsets", "window sizes"], "all objects and all (offset, size) windows", "Every offset inside nested structures is a separate resume point.",
  [S+"BaseClasses.cpp", S+"Transaction.cpp", S+"Script.cpp", S+"PSBT.cpp", S+"BitcoinCurve.cpp", S+"Bitcoin.cpp", S+"HDWallet.cpp"], [("offset handling", "to_stream of every Streamable class")])
p("C19", "Signature hashes and signed inputs are consensus-valid",
  "For every transaction, input, script and amount, the legacy and segwit signature hashes equal the consensus (original and BIP143) digests. Signing an input produces a signature valid for exactly that digest and places the signature and key or script where the network requires them, changing nothing else in the transaction.",
  ["transactions", "inputs", "scripts", "hash types"], "all transactions, input positions, scripts, amounts and supported hash types", "Digest errors for later inputs, long scripts or unusual sequences are invisible in one sample.",
  [S+"Transaction.cpp", S+"Script.cpp"], [("digests", "Tx::sigHash, sigHashSegwit, hashPrevouts, hashSequence, hashOutputs"), ("signing", "Tx::signInput, signSegwitInput")])
p("C20", "PSBT content is read faithfully and never misattributed",
  "Parsing any well-formed partially signed transaction, raw, hexadecimal or base64, exposes exactly its unsigned transaction, previous outputs, scripts, derivations and signatures, each on the input or output it belongs to, ignoring unknown fields. A previous transaction whose id does not match the input it is attached to, or previous outputs that contradict each other, are rejected, malformed PSBTs are not reported complete, and the serialized result is a well-formed PSBT with the same transaction and exactly the signatures held.",
  ["PSBTs"], "all PSBT maps with up to 252 inputs and outputs: any key order, unknown records, field sizes", "Key-value orders, section boundaries and hostile maps are unbounded; PSBT has no tests.",
  [S+"PSBT.cpp"], [("map parsing", "PSBT::from_stream, add"), ("serialization", "PSBT::to_stream, length"), ("previous-transaction check", "PSBT::add")])
p("C21", "PSBT signing adds exactly the right, valid signatures",
  "Signing with a root key adds one signature for each input key whose fingerprint and path lead from that root to the listed public key, each valid for the digest the network requires for that input's script type, and returns the number added. It never signs for keys that are not derivable, never alters the transaction or other inputs' data, and never signs with an amount or script other than that of the previous output.",
  ["PSBTs", "root keys"], "all PSBTs with any mix of script types, derivations and foreign or wrong metadata", "Wrong-key, wrong-path and mixed-type situations are not tested at all.",
  [S+"PSBT.cpp", S+"Transaction.cpp"], [("signing", "PSBT::sign")])
p("C22", "PSBT fee and output ownership are computed truthfully",
  "The reported fee is exactly the sum of the previous outputs' amounts minus the sum of the outputs. An output is reported as belonging to a key only if its locking script really pays to keys or scripts derived, by the recorded path, from that key, and it is reported whenever that is the case for a standard single-key output.",
  ["PSBTs", "keys"], "all amounts, output scripts and derivation records, including forged ones", "Change-detection attacks use forged metadata that no test contains.",
  [S+"PSBT.cpp"], [("fee", "PSBT::fee"), ("ownership", "PSBT::isMine")])
p("C23", "Electrum unsigned transactions are read and signed correctly",
  "Parsing an Electrum partial transaction, legacy or segwit, exposes the unsigned transaction, each input's extended key, derivation and amount, and the fee. Signing with the account key signs exactly the inputs whose recorded account key matches, with the derived child key, producing consensus-valid signatures, and foreign keys sign nothing. Input that is not in this format (wrong prefix, truncated, invalid extended key, wrong unsigned-input marker) is not accepted.",
  ["transactions", "keys"], "all Electrum transactions of the supported format and all account keys", "The format has no tests.",
  [S+"Electrum.cpp"], [("parsing", "ElectrumTx::from_stream"), ("signing", "ElectrumTx::sign"), ("fee", "ElectrumTx::fee")])
p("C24", "Copies are independent and equal",
  "Copying or assigning any key, script, witness, signature, transaction or PSBT, at any moment including during parsing or after failure and to itself, gives an object equal to the source that stays unchanged when the source is modified or destroyed, and vice versa. Continuing to parse with a copy behaves as with the original.",
  ["object states", "operation sequences"], "all object states reachable by parsing, building and signing, and all sequences of copies, assignments and mutations (an object changed by hand in the middle of parsing gives up that parse)", "Aliasing faults need particular sequences of copy, mutate and destroy.",
  [S+"Script.cpp", S+"Transaction.cpp", S+"PSBT.cpp", S+"Electrum.cpp", S+"Bitcoin.h"], [("copy constructors and assignments", "Script, Witness, TxIn, TxOut, Tx, PSBT, ElectrumTx")])
p("C25", "Memory is fully released",
  "After any sequence of operations, including failed and abandoned parsing, repeated parsing into the same object, assignment and signing, destroying the objects involved returns all memory they had obtained. Repeating the sequence therefore never grows memory use.",
  ["operation sequences", "inputs"], "all sequences of parse, build, copy, assign, sign and destroy, with valid and hostile input", "Leaks do not change results, so functional tests cannot see them.",
  [S+"Script.cpp", S+"Transaction.cpp", S+"PSBT.cpp", S+"Electrum.cpp", S+"Conversion.cpp", S+"HDWallet.cpp"], [("ownership", "clear/destructors/error paths")])
p("C26", "Running out of memory is survived",
  "If any single dynamic memory request made through the C allocator during any operation is refused, the operation finishes without crashing or touching memory it does not own. The object can still be destroyed safely, and after a reset the same operation succeeds when it is repeated with memory available.",
  ["allocation points", "operations"], "every allocation point reached by the workloads, refused one at a time", "Allocation failure never happens in tests but is routine on microcontrollers.",
  [S+"Script.cpp", S+"Conversion.cpp", S+"BaseClasses.cpp", S+"HDWallet.cpp", S+"PSBT.cpp"], [("malloc/calloc/realloc call sites", "all")])
p("C27", "Key agreement is symmetric and correct",
  "For every two private keys the shared secret computed by either side with the other's public key is the same, and equals the standard value (SHA-256 of both coordinates, or the x coordinate alone).",
  ["key pairs"], "all pairs of private keys, compressed or not", "Rare coordinate values and scalar edge cases are not sampled.",
  [S+"Bitcoin.cpp", S+"BitcoinCurve.cpp"], [("ECDH", "PrivateKey::ecdh")])
p("C28", "Destroyed keys leave no secret behind",
  "When a private key, scalar or extended private key object is destroyed, the memory it occupied no longer contains its secret or chain code. Heap memory the library releases while exporting or importing secret keys does not contain the secret either.",
  ["keys", "lifecycles"], "all keys and all ways of creating, copying, deriving, exporting and destroying them", "Residue is invisible to functional tests.",
  [S+"BitcoinCurve.h", S+"Bitcoin.cpp", S+"HDWallet.cpp", S+"Conversion.cpp"], [("destructors", "~ECScalar, ~PrivateKey, ~HDPrivateKey"), ("scratch wiping", "toBase58Check, fromBase58Check")])
p("C29", "Scripts are built and recognised exactly",
  "Pushing keys, signatures and scripts produces the standard minimal push for every length, witness stacks hold exactly the pushed elements, and key-hash, script-hash, witness and (sorted) multisig constructors produce exactly the standard scripts, sorted multisig being independent of the order of the keys. Script type recognition names a standard type only for scripts that have exactly that form.",
  ["keys", "data lengths", "scripts"], "all keys, key sets, thresholds, data lengths and script byte strings", "Push-opcode boundaries and look-alike scripts are not sampled.",
  [S+"Script.cpp"], [("pushes", "Script::push"), ("constructors", "pkh, wpkh, sh, wsh, multi, sortedmulti, Script(...)"), ("recognition", "Script::type")])
p("C30", "Descriptor checksums match Bitcoin Core",
  "For every text over the descriptor alphabet the computed checksum is the one Bitcoin Core computes, and text with a character outside the alphabet yields no checksum.",
  ["texts"], "all texts of any length", "Group-of-three handling depends on length and symbol classes.",
  [S+"PSBT.cpp"], [("checksum", "descriptorChecksum")])
p("C31", "Randomness affects only what it should",
  "Whatever values the random source delivers, key, signature, derivation and arithmetic results are unchanged. Generated phrases of every supported length are valid, encode exactly the randomness or the hash of the supplied entropy, and two different entropies never share a phrase.",
  ["random streams", "operations"], "all outputs of the random source, including long constant runs, and all entropies", "The random source is fixed in tests; blinding errors appear for particular values only.",
  [S+"Bitcoin.cpp", S+"utility/trezor/ecdsa.c", S+"utility/trezor/rand.c", S+"utility/trezor/bip39.c"], [("blinding", "generate_k_random, curve_to_jacobian"), ("phrase generation", "generateMnemonic")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
