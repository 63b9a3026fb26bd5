#!/usr/bin/env python3
"""Writes properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("B01", "AES is FIPS 197 and decryption inverts encryption, for every key",
  "For AES-128, AES-192 and AES-256, encrypting any 16-byte block under any key yields exactly the FIPS 197 ciphertext block, and decrypting any 16-byte block yields exactly the FIPS 197 inverse, so decrypting what was encrypted returns the original block. A block or key of any other length is refused with an error.",
  ["inputs"], "all keys of the three sizes x all 16-byte blocks x block lengths 0..40; encryption and decryption",
  "The unit tests run a handful of published vectors; the guarantee is over 2^(128+256) key/block pairs, and a slip in one key-schedule word or one S-box entry shows only for some of them.",
  ["src/aes/aes_amd64.rs", "src/aes/aes.rs"],
  [("key schedule and round function on AES-NI", "src/aes/aes_amd64.rs"), ("length checks in the Cipher impl", "src/aes/aes_amd64.rs")],
  ["AES::{aes_128,aes_192,aes_256}", "Cipher::encrypt", "Cipher::decrypt"])

p("B02", "DES and Triple-DES are FIPS 46-3 and decryption inverts encryption",
  "For every key and every 8-byte block, DES encryption and decryption produce the FIPS 46-3 result (parity bits ignored), and TDES with keys K1,K2,K3 encrypts as E_K3(D_K2(E_K1(x))) and decrypts as its inverse. A block of any other length is refused with an error.",
  ["inputs"], "all 64-bit keys (three independent ones for TDES) x all 8-byte blocks x block lengths 0..24",
  "Published vectors touch few S-box entries and few permutation lines per round; the guarantee is over all 2^128 (2^256 for TDES) pairs.",
  ["src/des/des.rs", "src/des/tdes.rs", "src/des/const_tables.rs"],
  [("key schedule, Feistel rounds, S/P tables", "src/des/des.rs, src/des/const_tables.rs"), ("EDE composition", "src/des/tdes.rs")],
  ["DES::new", "TDES::new", "Cipher::encrypt", "Cipher::decrypt"])

p("B03", "SM4 is GB/T 32907 and decryption inverts encryption, for every key",
  "For every 16-byte key and every 16-byte block, SM4 encryption yields the GB/T 32907-2016 ciphertext and decryption yields its inverse. A block or key of any other length is refused with an error.",
  ["inputs"], "all 128-bit keys x all 16-byte blocks x block lengths 0..40",
  "One vector plus its million-fold iteration cannot visit all 2^256 key/block pairs or every S-box/CK entry in every round position of the key schedule.",
  ["src/sm4/sm4.rs", "src/sm4/sm4_const_tables.rs"],
  [("round function and key schedule", "src/sm4/sm4.rs"), ("S-box, CK, FK tables", "src/sm4/sm4_const_tables.rs")],
  ["SM4::new", "Cipher::encrypt", "Cipher::decrypt"])

def dig(id, title, alg, std, files, mech, obs, bound, why):
    p(id, title,
      "For every message, the digest returned for %s is exactly the one defined by %s, including the padding and length encoding at every message length relative to the block boundary. The digest has the advertised length." % (alg, std),
      ["inputs"], bound, why, files, mech, obs)
dig("H01", "MD5 digests equal RFC 1321 for every message", "MD5", "RFC 1321", ["src/md5/md5.rs", "src/md5/md5_generic.rs"],
    [("compression function", "src/md5/md5_generic.rs"), ("padding and length encoding", "src/md5/md5.rs")], ["MD5::new", "Digest::write", "Digest::checksum"],
    "all message contents; all lengths from 0 past two blocks (thorough past four)",
    "Tests hash a few fixed strings; padding edge lengths and all block contents are not reachable by examples.")
dig("H02", "SHA-1 digests equal FIPS 180-4 for every message", "SHA-1", "FIPS 180-4", ["src/sha/sha1.rs", "src/sha/sha1_generic.rs"],
    [("compression function", "src/sha/sha1_generic.rs"), ("padding and length encoding", "src/sha/sha1.rs")], ["SHA1::new", "Digest::write", "Digest::checksum"],
    "all message contents; all lengths from 0 past two blocks (thorough past four)", "Tests hash a few fixed strings; padding edge lengths and all block contents are not reachable by examples.")
dig("H03", "SHA-224 and SHA-256 digests equal FIPS 180-4 for every message", "SHA-224 and SHA-256", "FIPS 180-4", ["src/sha/sha256.rs", "src/sha/sha256_generic.rs"],
    [("compression function", "src/sha/sha256_generic.rs"), ("padding and length encoding", "src/sha/sha256.rs")], ["SHA224::new", "SHA256::new", "Digest::write", "Digest::checksum"],
    "all message contents; all lengths from 0 past two blocks (thorough past four)", "Tests hash a few fixed strings; padding edge lengths and all block contents are not reachable by examples.")
dig("H04", "SHA-384, SHA-512 and SHA-512/t digests equal FIPS 180-4", "SHA-384, SHA-512, SHA-512/224, SHA-512/256 and the general SHA-512/t", "FIPS 180-4 (SHA-512/t initial values from its generation function)",
    ["src/sha/sha512.rs", "src/sha/sha512_generic.rs"],
    [("compression function", "src/sha/sha512_generic.rs"), ("padding, truncation, IV generation", "src/sha/sha512.rs")],
    ["SHA384::new", "SHA512::new", "SHA512T::new", "SHA512T224::new", "SHA512T256::new", "Digest::checksum"],
    "all message contents; all lengths from 0 past two blocks; the permitted t", "Tests hash a few fixed strings; padding edge lengths, contents and values of t are not reachable by examples.")
dig("H05", "SM3 digests equal GB/T 32905 for every message", "SM3", "GB/T 32905-2016", ["src/sm3/sm3.rs"],
    [("compression function, padding", "src/sm3/sm3.rs")], ["SM3::new", "Digest::write", "Digest::checksum"],
    "all message contents; all lengths from 0 past two blocks (thorough past four)", "Tests hash the two vectors of the standard.")
dig("H06", "SHA-3 and SHAKE digests equal FIPS 202 for every message", "SHA3-224/256/384/512 and SHAKE128/256 (any requested output length)", "FIPS 202",
    ["src/keccak/keccak.rs", "src/sha3/sha3.rs", "src/sha3/shake.rs"],
    [("Keccak-p permutation on a bit array", "src/keccak/keccak.rs"), ("sponge absorb/pad/squeeze", "src/keccak/keccak.rs"), ("domain bits", "src/sha3/*.rs")],
    ["SHA3 types", "SHAKE128/SHAKE256", "Digest::write", "Digest::checksum", "DigestXOF::set_digest_len"],
    "all message contents; lengths around the rate boundary; output lengths past one squeeze", "Tests hash a few fixed vectors; the state is 1600 bits and the padding rule depends on the length modulo the rate.")

p("I01", "Any split of a message into writes gives the one-shot digest",
  "For every digest type, feeding a message in any sequence of writes (including empty ones) gives the same digest as a single write of the whole message. Asking for the checksum again without writing returns the same digest, and after a reset the object behaves exactly like a freshly created one.",
  ["inputs", "histories"], "every pair (bytes already buffered, bytes in the next write) up to past two blocks, all contents; checksum/reset/write sequences; MD5, SHA-1, SHA-2, SM3, SHA-3, SHAKE, HMAC, CMAC",
  "The number of (buffer fill, write length) combinations is quadratic in the block size and every one takes a different path through the buffering code; tests write whole messages.",
  ["src/md5/md5.rs", "src/sha/sha1.rs", "src/sha/sha256.rs", "src/sha/sha512.rs", "src/sm3/sm3.rs", "src/sha3/sha3.rs", "src/sha3/shake.rs", "src/keccak/keccak.rs", "src/hmac/hmac.rs", "src/cmac/cmac.rs"],
  [("block buffer index and fill logic", "write() of each digest"), ("is_checked flag and reset", "checksum()/reset() of each digest")],
  ["Digest::write", "Digest::checksum", "Digest::reset"],
  state=[("buffer and fill index", "bytes not yet compressed", "each digest struct"), ("len", "message length so far", "each digest struct")])

p("M01", "HMAC equals RFC 2104 for every key, message and hash function",
  "For any hash function, any key (shorter than, equal to or longer than the block) and any message, the authentication code is the RFC 2104 value. This stays true when the same object is reused after a reset, when the message arrives in several writes, and after the key is replaced.",
  ["inputs", "histories"], "an arbitrary (uninterpreted) hash; all key lengths around the block size; all message contents and lengths within the bound; write/checksum/reset/set_key sequences",
  "Tests use a few vectors with one hash and one write; the key-normalisation branches, object reuse and independence from the hash are universally quantified.",
  ["src/hmac/hmac.rs"], [("key normalisation and inner/outer pads", "src/hmac/hmac.rs")], ["HMAC::new", "HMAC::set_key", "Digest::{write,checksum,reset}"])

p("M02", "CMAC equals SP 800-38B for every cipher, key and message",
  "For any block cipher with an 8- or 16-byte block and any message of any length (including empty and exact multiples of the block), the authentication code is the SP 800-38B value. This stays true for any split of the message into writes, for repeated checksums, and after a reset.",
  ["inputs", "histories"], "an arbitrary (uninterpreted) block cipher; all message contents, lengths 0 past three blocks; every split into writes",
  "Subkey doubling depends on the top bit of E(0) and the tail branch on the length modulo the block; tests fix both through a few vectors.",
  ["src/cmac/cmac.rs", "src/cmac/const_tables.rs"], [("subkey generation", "src/cmac/cmac.rs"), ("last-block handling", "src/cmac/cmac.rs")], ["CMAC::new", "Digest::{write,checksum,reset}"])

p("C01", "ECB and CBC one-shot encryption follow SP 800-38A and round-trip",
  "For any block cipher, IV and message, ECB and CBC one-shot encryption produce the SP 800-38A ciphertext of the padded message, every block chained as the standard says, and one-shot decryption returns the original message. Input that is not a whole number of blocks (a message without padding, any ciphertext), and with padding a ciphertext whose plaintext ends in no valid padding, is refused with an error.",
  ["inputs"], "an arbitrary block cipher (uninterpreted permutation), all IVs, all message contents, lengths 0 past three blocks; with and without padding",
  "The chaining and padding interact at every length modulo the block size; tests use block-multiple vectors without padding.",
  ["src/cipher_mode/ecb.rs", "src/cipher_mode/cbc.rs", "src/cipher_mode/padding.rs"],
  [("chaining loop", "src/cipher_mode/cbc.rs"), ("padding", "src/cipher_mode/padding.rs")], ["ECB/CBC Cipher::encrypt", "Cipher::decrypt"])

p("C02", "CFB, OFB and CTR one-shot operation follows SP 800-38A and round-trips",
  "For any block cipher, IV or block-sized counter, segment size and message, CFB, OFB and CTR one-shot encryption produce the SP 800-38A ciphertext and decryption from the same starting state returns the message. CFB input that is not a whole number of segments is refused unless padding is used.",
  ["inputs"], "an arbitrary block cipher; all IVs/counters (wrap-around included), all permitted segment sizes, all contents, lengths 0 past three blocks",
  "Counter carry, segment shifting and partial blocks are reached only for particular values and lengths.",
  ["src/cipher_mode/cfb.rs", "src/cipher_mode/ofb.rs", "src/cipher_mode/ctr.rs", "src/cipher_mode/counter.rs"],
  [("shift register", "src/cipher_mode/cfb.rs"), ("keystream feedback", "src/cipher_mode/ofb.rs"), ("counter increment", "src/cipher_mode/counter.rs")],
  ["CFB/OFB/CTR Cipher::encrypt", "Cipher::decrypt"])

p("C03", "Mode streams give the one-shot ciphertext for every chunking",
  "For ECB, CBC, CFB, OFB and CTR, pushing a message through an encryption stream in any chunks and finishing yields the SP 800-38A ciphertext of the whole message, and pushing a ciphertext through a decryption stream in any chunks and finishing yields the plaintext. After finishing, the stream can be reused for a new message and behaves like a fresh one, except that CTR goes on with the next counter block.",
  ["inputs", "histories"], "an arbitrary block cipher; all splits of messages into up to three chunks (empty included), lengths past two blocks; finish and reuse",
  "The number of chunkings is exponential and each buffer fill takes another path; tests use one chunking per mode.",
  ["src/cipher_mode/ecb.rs", "src/cipher_mode/cbc.rs", "src/cipher_mode/cfb.rs", "src/cipher_mode/ofb.rs", "src/cipher_mode/ctr.rs", "src/cipher_mode/pond.rs"],
  [("stream buffers", "*Encrypt/*Decrypt::write and finish"), ("Pond::draw_off", "src/cipher_mode/pond.rs")],
  ["EncryptStream::{write,finish}", "DecryptStream::{write,finish}", "Pond::draw_off"])

p("C04", "Bit padding is reversible and invalid padding is rejected",
  "For every data and block size, the default padding appends the one-bit-then-zeros padding of SP 800-38A up to a block boundary, and removing it returns exactly the original data. Data that does not end in a one bit followed by zero bits is refused with an error and left unchanged.",
  ["inputs"], "block sizes from 1 to 16 bytes (thorough 64); all contents, lengths 0 past three blocks; all (also invalid) buffers for removal",
  "Ambiguity shows only for data that itself ends in padding-like bytes, or at particular lengths.",
  ["src/cipher_mode/padding.rs"], [("padding/unpadding", "src/cipher_mode/padding.rs")], ["DefaultPadding::{padding,unpadding}", "EmptyPadding"])

p("Z01", "ZUC keystream equals the 3GPP specification for every key and IV",
  "For every 128-bit key and IV the generated keystream words are those of the ZUC 1.6 specification, and asking for the keystream in several requests continues the same stream.",
  ["inputs", "histories"], "all keys and IVs; the whole initialisation and a bounded number of keystream words, from the key and IV bytes; every constructor and setter",
  "Modular reduction edge cases of the LFSR (values 0, 2^31-1) occur with probability about 2^-31 and are never hit by vectors.",
  ["src/zuc/zuc_core.rs", "src/zuc/zuc_const_tables.rs"], [("LFSR update mod 2^31-1", "src/zuc/zuc_core.rs"), ("nonlinear function F", "src/zuc/zuc_core.rs")], ["ZUC::new", "ZUC::zuc"])

p("Z02", "ZUC confidentiality (128-EEA3) equals the standard and round-trips",
  "For every key, count, 5-bit bearer, direction and byte message, the ciphertext is the 128-EEA3 one and decrypting it returns the message. A message split over several calls continues the keystream where the previous call ended.",
  ["inputs", "histories"], "all keys, counts, bearers and directions; all message contents, lengths past four keystream words; sequences of calls",
  "Bit lengths that are not multiples of 8 or 32 and leftover keystream between calls give many paths; tests have a few vectors.",
  ["src/zuc/zuc_cipher.rs"], [("keystream buffering and bit masking", "src/zuc/zuc_cipher.rs")], ["ZUCCipher::new", "Cipher::encrypt", "Cipher::decrypt"])

p("Z03", "ZUC integrity (128-EIA3) equals the standard for every message",
  "For every key, count, 5-bit bearer, direction and byte message, the authentication code is the 128-EIA3 value, however the message is split into writes and however often the checksum is requested. After a reset, or with the first write after a checksum, a new message begins.",
  ["inputs", "histories"], "all keys, counts, bearers and directions; all byte messages within the bound; every split into writes; histories of writes, checksums, resets and clones",
  "Tests write each message once and take the checksum once.",
  ["src/zuc/zuc_mac.rs"], [("bitwise accumulation over sliding key words", "src/zuc/zuc_mac.rs")], ["ZUCMac::new", "Digest::{write,checksum,reset}"])

p("R01", "RSA private and public operations invert and refuse out-of-range input",
  "For every valid key (with two or more primes, with or without precomputed CRT values), decrypting the encryption of any integer below the modulus returns that integer, also with blinding. The private operation refuses every input not below the modulus with an error.",
  ["inputs", "configurations"], "small two-, three- and four-prime keys in several prime orders, with and without precomputed values; every input one bit beyond the modulus; arbitrary blinding words",
  "The CRT recombination has sign and ordering cases that depend on key and message values; tests use a couple of keys.",
  ["src/rsa/rsa.rs"], [("CRT recombination", "src/rsa/rsa.rs"), ("range checks", "src/rsa/rsa.rs")], ["PublicKey::encrypt", "PrivateKey::decrypt", "PrivateKey::precompute"])

p("R02", "RSAES-OAEP equals RFC 8017 and rejects every malformed encoding",
  "For every message, label, seed and hash, OAEP encryption produces the RFC 8017 encoding and decryption returns the message. Any ciphertext whose encoding is malformed (nonzero first byte, wrong label hash, missing separator, wrong length) and any over-long message is refused with an error.",
  ["inputs"], "an arbitrary hash; the modular power abstracted to a permutation; all messages, labels and seeds; all encoded blocks; modulus lengths of 41 to 64 bits",
  "Malformed encodings are a set of exponentially many blocks; tests decrypt well-formed ones.",
  ["src/rsa/oaep.rs"], [("EME-OAEP encode/decode and MGF1", "src/rsa/oaep.rs")], ["OAEP::encrypt", "OAEP::decrypt"])

p("R03", "RSAES-PKCS1-v1_5 equals RFC 8017 and rejects malformed encodings",
  "For every message that fits, encryption produces 00 02 PS 00 M with at least eight nonzero padding bytes and decryption returns the message. Any over-long message and any ciphertext whose decoding violates the format is refused with an error.",
  ["inputs"], "all messages; random sources with up to two zero bytes or ending early; all encoded blocks; modulus lengths of 96 to 112 bits",
  "Malformed encodings are exponentially many; tests decrypt well-formed ones.",
  ["src/rsa/pkcs1.rs"], [("EME-PKCS1-v1_5 encode/decode", "src/rsa/pkcs1.rs")], ["PKCS1 Cipher::encrypt", "Cipher::decrypt"])

p("R04", "RSASSA-PKCS1-v1_5 signs and verifies exactly as RFC 8017",
  "For every message and supported hash, the signature is the RSA private operation on the RFC 8017 encoding, and verification accepts a signature if and only if its public operation yields exactly that encoding and it has the modulus length.",
  ["inputs"], "the six supported hashes; the modular power abstracted to a permutation; all messages of a few lengths; all signature strings; modulus lengths around the minimum for each hash",
  "Acceptance of a single malformed encoding is a forgery; tests only verify genuine signatures.",
  ["src/rsa/pkcs1.rs", "src/rsa/signature.rs"], [("EMSA-PKCS1-v1_5 encoding and comparison", "src/rsa/pkcs1.rs")], ["PKCS1 Signature::sign", "Signature::verify"])

p("R05", "RSASSA-PSS signs and verifies exactly as RFC 8017",
  "For every message, salt and hash, the PSS signature is the RSA private operation on the RFC 8017 encoding, and verification accepts a signature if and only if RFC 8017 says consistent. Verification never crashes.",
  ["inputs"], "an arbitrary hash; the modular power abstracted to a permutation; all messages, salts and signature strings; modulus lengths of 41 to 88 bits including every residue modulo 8",
  "Depends on emBits modulo 8 and on single bits of the encoding; genuine signatures do not probe rejection.",
  ["src/rsa/pss.rs", "src/rsa/signature.rs"], [("EMSA-PSS encode/verify", "src/rsa/pss.rs")], ["PSS Signature::sign", "Signature::verify"])

p("D01", "DSA signs and verifies exactly as FIPS 186-4",
  "For every domain, key, nonce and message, a signature is r = (g^k mod p) mod q, s = k^-1(z + xr) mod q with z the leftmost min(N, hash length) bits of the hash, and verification accepts a pair exactly when FIPS 186-4 does; so every generated signature verifies.",
  ["inputs"], "8-bit q (four small domains) through the same code as the FIPS sizes; all nonces, all or chosen keys; all hash values of length up to three times q; all candidate pairs up to 9 bits",
  "Tests sign and verify with matching hash lengths and never probe r,s at 0, q or above.",
  ["src/dsa/dsa.rs", "src/dsa/signature.rs"], [("range checks, truncation, formulas", "src/dsa/dsa.rs")], ["DSA Signature::sign", "Signature::verify"])

p("D02", "ECDSA signs and verifies exactly as FIPS 186-4",
  "For every curve, key, nonce and message, a signature is r = x(kG) mod n, s = k^-1(z + dr) mod n with z the leftmost min(bits of n, hash length) bits of the hash, and verification accepts a pair exactly when FIPS 186-4 does.",
  ["inputs"], "curves of small prime order through the same code as the NIST curves; any nonce; all hash values shorter, equal and longer than the order; all candidate pairs up to and beyond the order",
  "Range checks at 0 and n and truncation for long hashes are not probed by tests.",
  ["src/ecdsa/ecdsa.rs"], [("range checks, truncation, formulas", "src/ecdsa/ecdsa.rs")], ["ECDSA Signature::sign", "Signature::verify"])

p("E01", "P-224 field arithmetic is exact arithmetic modulo the prime",
  "Multiplying, squaring, adding, subtracting and reducing P-224 field elements gives exactly the result modulo p for every element the curve operations can form. The minimal form of an element is its unique representative below p, an element tests as zero exactly when it is a multiple of p, and converting a number to a field element and back returns the number.",
  ["inputs"], "all field elements whose limbs keep the documented bounds (operands of 29 to 31 bits per limb, depending on the operation); all numbers of 1 to 28 bytes",
  "Carry chains fail only on inputs of probability about 2^-60 or less; this class of error has occurred in the ancestor of this code (CVE-2021-3114).",
  ["src/elliptic/p224.rs"], [("limb multiply, reduce, contract, conversions", "src/elliptic/p224.rs")], ["field operations of the P-224 curve through a guarded re-export"], "re-export of the private field functions behind a cfg flag")

p("E02", "P-256 field arithmetic is exact arithmetic modulo the prime",
  "Multiplying, squaring, adding, subtracting, tripling, quadrupling and octupling P-256 field elements (kept in Montgomery form, factor 2^257) gives exactly the result modulo p for every element the curve operations can form, within the size bounds the next operation relies on. Converting a number to a field element and a field element to a number is exact modulo p.",
  ["inputs"], "all field elements whose limbs keep the documented bounds (30 and 29 bits alternately); all numbers of 32 bytes (thorough: also 1, 8 and 31)",
  "Carry chains fail only on inputs of tiny probability.",
  ["src/elliptic/p256.rs"], [("limb multiply, reduce, Montgomery conversion", "src/elliptic/p256.rs")], ["field operations of the P-256 curve through a guarded re-export"], "re-export of the private field functions behind a cfg flag")

p("E03", "Generic curve operations follow the group law including special cases",
  "For the generic implementation, adding or doubling any two points of the curve gives the group-law result, with the identity and inverse cases handled, and a point is reported on the curve exactly when it satisfies the curve equation.",
  ["inputs"], "all points of ten curves of small prime order (p from 11 to 521), identity included; multiples by scalars of up to ten bits; all coordinate pairs for membership",
  "The exceptional cases (P = Q, P = -Q, identity) have negligible probability under random testing.",
  ["src/elliptic/elliptic.rs"], [("Jacobian add/double/affine", "src/elliptic/elliptic.rs")], ["EllipticCurve::{is_on_curve,add,double,scalar}"])

p("K01", "Generated private keys and nonces lie in the permitted range",
  "Whatever the random source delivers, every generated private key and per-message secret for DSA and elliptic curves lies in [1, n-1] and the public key matches it.",
  ["inputs", "fault_sequences"], "every output of the random source, also one that fails at any word; curves of 9- and 10-bit order, 8-bit q",
  "Tests draw a few random values; the boundary values occur with negligible probability.",
  ["src/elliptic/elliptic.rs", "src/dsa/dsa.rs", "src/ecdsa/ecdsa.rs"], [("range reduction/rejection", "generate_key and sign")], ["EllipticCurve::generate_key", "DSA key generation"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
