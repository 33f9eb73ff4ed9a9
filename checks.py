"""Per-property configuration: workload files, builds and case counts per tier, evidence text.

quick/thorough: list of (build, cases[, workload of another property]); builds: asan (ASan+UBSan), msan (MSan), fast (-O2, no sanitizer).
"""
REF = "the independent reference model in /verif/ref is correct (setup_cmd validates it against published test vectors)"
SAN = "clang 18's AddressSanitizer, UndefinedBehaviorSanitizer and MemorySanitizer report what they claim to report"
SMP = "exploration: inputs are generated, not enumerated; nothing is claimed for inputs that were not run"
CHECKS = {}


def c(pid, f, quick, thorough, rule, expect=(), level="exploration", assume=(REF,), note="", **kw):
    CHECKS[pid] = dict(files=[f] if isinstance(f, str) else f, level=level, quick=quick, thorough=thorough, rule=rule,
                       expect=list(expect), assumptions=list(assume) + [SAN, SMP], note=note, **kw)


A, M, F = "asan", "msan", "fast"
ALLFILES = ["w_hash.cpp", "w_enc.cpp", "w_curve.cpp", "w_sig.cpp", "w_hd.cpp", "w_rng.cpp", "w_script.cpp", "w_tx.cpp", "w_psbt.cpp",
            "w_electrum.cpp", "w_stream.cpp", "w_cap.cpp", "w_life.cpp", "w_hostile.cpp"]
_X = ["C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19",
      "C20", "C21", "C22", "C23", "C24", "C27", "C29", "C30"]
_NM = {"C05"}  # its oracle reads whole output buffers, written or not

c("C01", ALLFILES,
  [(A, 30000), (M, 12000)] + [(A, 600, w) for w in _X] + [(M, 300, w) for w in _X if w not in _NM],
  [(A, 600000), (M, 100000)] + [(A, 8000, w) for w in _X] + [(M, 3000, w) for w in _X if w not in _NM],
  "one case = one hostile or damaged byte string / text / PSBT record sequence / odd argument set fed in random pieces to one of 17 parsers or decoders, followed by copies, mutations, serialization, signing and formatting of whatever resulted; plus the workloads of the other properties, of which only sanitizer reports, crashes and hangs count here. Non-trivial: the input reached the library and its hash was not seen before.",
  ["done", "failed", "incomplete", "records", "texts", "arguments", "hex-fed", "text-fed"], assume=(),
  note="Sanitizers are the oracle; per-case watchdog detects hangs; buffers are exact-size heap blocks so an over-read by one byte is reported.")
c("C02", "w_hash.cpp", [(A, 250000)], [(A, 900000), (M, 60000)],
  "one case = messages, keys and salts of boundary-biased lengths hashed one-shot, in random chunks, with several hashers interleaved and reused, each digest compared with the reference. Non-trivial: distinct message/key/chunking hash.",
  ["hash.oneshot", "hash.chunks", "hash.interleavings", "hmac.checked", "pbkdf2.checked", "tagged.checked"])
c("C03", "w_enc.cpp", [(A, 600000), (M, 20000)], [(A, 2500000), (M, 100000)],
  "one case = a byte string (biased to leading zeros, extreme and boundary lengths) encoded and decoded in one codec, or an encoding that was damaged and decoded again. Non-trivial: distinct (codec, bytes or text).",
  ["enc.roundtrips", "corrupt.rejected", "corrupt.hex", "corrupt.radix", "corrupt.bin"])
c("C04", "w_enc.cpp", [(A, 600000)], [(A, 2500000), (M, 100000)],
  "one case = a batch of 64-bit values around every power-of-two and varint boundary, all widths and truncations. Non-trivial: distinct (codec, value, width).",
  ["varint.values", "varint.raw", "int.endian"])
c("C05", "w_cap.cpp", [(A, 200000)], [(A, 900000)],
  "one case = one output function called with an exact-size heap buffer for capacities below, at and above the result size (0 included); ASan red zones catch every byte written outside. Non-trivial: distinct (function, input, capacity) tuple.",
  ["calls", "too-small"])
c("C06", "w_script.cpp", [(A, 1500000)], [(A, 6000000), (M, 100000)],
  "one case = a key or script turned into all address kinds on a network and back, or an address-like text (valid, damaged, wrong version/length/case/prefix, re-checksummed) turned into a script. Non-trivial: distinct text or script.",
  ["key.addresses", "script.addresses", "text.valid", "text.invalid"])
c("C07", "w_curve.cpp", [(A, 80000)], [(A, 900000), (M, 40000)],
  "one case = scalars and points biased to 0, 1, n-1, n, field and carry boundaries, equal/opposite/same-y pairs and infinity, every operator compared with affine reference arithmetic; the precomputed table is checked entry by entry. Non-trivial: distinct operand tuple.",
  ["scalar.ops", "point.ops", "infinity", "equal", "opposite", "gtable.entries", "scalar.comparisons", "point.comparisons"])
c("C08", "w_curve.cpp", [(A, 90000)], [(A, 900000), (M, 40000)],
  "one case = one encoding (compressed, uncompressed, x-only, hex, raw; valid, off-curve, wrong prefix/parity, out-of-range, truncated). Non-trivial: distinct encoding.",
  ["key.parsed", "bad.rejected", "bad.xonly", "bad.rawxy"])
c("C09", "w_sig.cpp", [(A, 25000)], [(A, 250000), (M, 4000)],
  "one case = (private key, digest) biased to extreme values, signed repeatedly under different random sources, compared with an RFC 6979 reference incl. recovery index, and verified. Non-trivial: distinct (key, digest).",
  ["signatures", "recovery.0", "recovery.1"])
c("C10", "w_sig.cpp", [(A, 12000)], [(A, 300000), (M, 4000)],
  "one case = a signature (genuine, high-S, crafted for infinity/doubling/wrap-around/zero, mutated, out of range, foreign or invalid key) whose verdict is compared with the reference equation. Non-trivial: distinct (key, digest, r, s).",
  ["accepted", "rejected", "craft.infinity", "craft.doubling", "craft.wrap", "craft.zero"])
c("C11", "w_sig.cpp", [(A, 10000)], [(A, 200000), (M, 4000)],
  "one case = a Schnorr signature produced by the library checked with a BIP340 reference, or a genuine/forged signature whose verdict is compared; nonce points of related keys and messages are compared pairwise. Non-trivial: distinct (key, message, signature).",
  ["schnorr.signatures", "schnorr.accepted", "schnorr.rejected", "nonce.pairs", "odd-key", "even-key"])
c("C12", "w_sig.cpp", [(A, 400000)], [(A, 6000000), (M, 60000)],
  "one case = a pair of 256-bit values (biased to short and high-bit ones) through every encoding, or a byte string near strict DER whose acceptance is compared with a strict-DER reference parser. Non-trivial: distinct bytes.",
  ["der.parsed", "bad.rejected", "bin.roundtrips", "schnorr.codec"])
c("C13", "w_hd.cpp", [(A, 50000)], [(A, 250000), (M, 4000)],
  "one case = an entropy through phrase and back, a phrase (valid, one word or checksum wrong, odd spacing or length) through the check, or a phrase and passphrase through seed and master key. Non-trivial: distinct phrase/entropy.",
  ["phrases", "check.good", "check.badsum", "check.malformed", "seeds", "phrases.from-data", "words.12", "words.15", "words.18", "words.21", "words.24"])
c("C14", "w_hd.cpp", [(A, 30000)], [(A, 150000), (M, 4000)],
  "one case = a seed and path (numeric or text, valid or malformed), private and public derivation compared with the BIP32 reference in every serialized field. Non-trivial: distinct (seed, path).",
  ["children", "public-children", "path.good", "path.bad", "pubpath.good", "pubpath.bad", "hardened-refused"])
c("C15", "w_hd.cpp", [(A, 35000)], [(A, 250000), (M, 4000)],
  "one case = a key exported and imported on every network and script type, or a damaged WIF / extended key text that must not import. Non-trivial: distinct text.",
  ["wif", "extended", "wif.refused", "ext.refused"])
c("C16", "w_tx.cpp", [(A, 80000)], [(A, 1500000), (M, 60000)],
  "one case = a generated transaction (0..252 inputs/outputs, script lengths around varint limits, all witness shapes) parsed, re-serialized, hashed, built field by field, or damaged and parsed. Non-trivial: distinct transaction bytes.",
  ["parsed", "parsed.segwit", "parsed.many", "ids", "built", "malformed"])
c("C17", "w_stream.cpp", [(A, 45000)], [(A, 600000), (M, 15000)],
  "one case = one object of 16 stream classes parsed at once and in random (also exhaustive two-piece and byte-wise) cuts, raw and hex, with other parsers interleaved, into fresh and reused objects. Non-trivial: distinct (bytes, cut pattern).",
  ["splits", "pieces", "interleaved", "damaged", "reused"])
c("C18", "w_stream.cpp", [(A, 80000)], [(A, 250000), (M, 8000)],
  "one case = one object and many (offset, size) windows, all offsets for short objects, raw, hex and string. Non-trivial: distinct (object, offset, size).",
  ["windows", "all-offsets"])
c("C19", "w_tx.cpp", [(A, 80000)], [(A, 400000), (M, 15000)],
  "one case = a transaction, input index, script, amount and hash type whose digest is compared with the reference legacy/BIP143 digest, or one signed input checked for placement, validity and unchanged rest. Non-trivial: distinct digest.",
  ["digests", "sign.legacy", "sign.segwit", "type.all", "type.none", "type.single", "digests.bulk"])
c("C20", "w_psbt.cpp", [(A, 25000)], [(A, 600000), (M, 30000)],
  "one case = a generated PSBT (all field kinds, unknown records, orders, up to 252 inputs) compared field by field with the generator's model, or a PSBT with one defect that must not be accepted. Non-trivial: distinct PSBT bytes.",
  ["psbt.read", "defects"])
c("C21", "w_psbt.cpp", [(A, 5000)], [(A, 150000), (M, 5000)],
  "one case = a PSBT with inputs of all script types and genuine, foreign, wrong-path and wrong-fingerprint derivations, signed; every signature verified against the reference digest, the set compared with the expected one. Non-trivial: distinct (PSBT, root).",
  ["signed", "twisted", "large.many keys", "large.many inputs", "large.deep paths", "in.p2pkh", "in.p2sh", "in.p2wpkh", "in.p2wsh", "in.p2sh-p2wpkh", "in.p2sh-p2wsh"])
c("C22", "w_psbt.cpp", [(A, 7000)], [(A, 200000), (M, 7000)],
  "one case = a PSBT whose fee is compared with the exact difference, or an output with genuine or forged derivation metadata whose ownership verdict is compared with the reference. Non-trivial: distinct PSBT.",
  ["fee.exact", "fee.large", "mine.yes", "mine.no", "mine.must", "mine.large", "mine.many-derivations"])
c("C23", "w_electrum.cpp", [(A, 12000)], [(A, 250000), (M, 8000)],
  "one case = a generated Electrum transaction compared field by field, signed by the right, a foreign or a partly matching account key, or damaged. Non-trivial: distinct transaction bytes.",
  ["parsed.legacy", "parsed.segwit", "signed.legacy", "signed.native", "signed.nested", "foreign", "malformed"])
c("C24", "w_life.cpp", [(A, 60000)], [(A, 600000), (M, 15000)],
  "one case = a random history of parse / partial parse / copy / assign / self-assign / mutate / destroy over a pool of objects of one class, each object's serialized state compared with a value model after every step. Non-trivial: distinct history hash.",
  ["pool", "continue", "self-assignment", "containers", "aliasing"], assume=())
c("C25", "w_life.cpp", [(A, 25000)], [(A, 400000)],
  "one case = a history of parse / failed parse / abandon / reuse / build / sign / text conversions whose heap balance (allocator statistics before and after, all objects destroyed) must be zero on a second, warmed-up execution. Non-trivial: distinct history hash.",
  ["parses", "copy", "destruction", "conversions", "built-psbt"], assume=(), leak=True)
c("C26", "w_life.cpp", [(A, 6000)], [(A, 100000)],
  "one case = one operation executed once per C-allocator request it makes, with exactly that request refused; then object use, destruction and a repeat with memory available. Non-trivial: distinct (operation, input, refused request).",
  ["refused", "copying", "building", "conversions"], level="fault_enumeration", assume=("only malloc, calloc and realloc are refused; operator new (std::string) is not",))
c("C27", "w_curve.cpp", [(A, 6000)], [(A, 250000), (M, 8000)],
  "one case = two private keys (biased to extremes) and both shared secrets on both sides, compared with the reference. Non-trivial: distinct key pair.",
  ["ecdh.secrets", "ecdh.edgepeer"])
c("C28", "w_rng.cpp", [(A, 30000), (F, 30000)], [(A, 150000), (F, 150000)],
  "one case = a key created, copied, derived, exported or imported and destroyed in place; its storage and every heap block the library frees meanwhile are searched for the secret, its chain code and their text forms. Non-trivial: distinct secret.",
  ["destroyed", "exports", "derivations"], assume=("stack residue is not inspected",))
c("C29", "w_script.cpp", [(A, 1500000)], [(A, 3000000), (M, 100000)],
  "one case = pushes of boundary lengths, standard script constructors, (sorted) multisig of permuted key sets, or look-alike scripts whose recognised type is compared with the reference. Non-trivial: distinct script.",
  ["push.key", "push.sig", "push.script", "multi.valid", "type.standard", "type.other", "witness.pushes"])
c("C30", "w_script.cpp", [(A, 2000000)], [(A, 4000000), (M, 100000)],
  "one case = a text over the descriptor alphabet (all lengths mod 3, all symbol classes), or with a foreign character, compared with the reference checksum. Non-trivial: distinct text.",
  ["checksums", "badchar"])
c("C31", "w_rng.cpp", [(A, 15000)], [(A, 150000), (M, 4000)],
  "one case = an operation repeated under different random sources (uniform, constant runs, counter, sparse) whose results must agree, or a generated phrase compared with the random bytes drawn. Non-trivial: distinct (operation, input, source).",
  ["operations", "generated", "from-entropy"])
