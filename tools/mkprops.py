#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
        observe_at=observe or [],hook_needed=hook)))
S3=["hash/sha3/sha3.go","hash/sha3/shake.go","hash/sha3/keccakf.go","hash/sha3/keccakf_amd64.s","hash/sha3/xor_unaligned.go","hash/sha3/xor_generic.go","hash/sha3/xor.go"]
p("C01","SHA-3, SHAKE and cSHAKE outputs equal FIPS 202 / SP 800-185",
 "For every message, however it is split over writes, and for every output length, however it is split over reads, SHA3-224/256/384/512, SHAKE128/256 and cSHAKE128/256 (for every function name N and customization string S) return exactly the bytes FIPS 202 and SP 800-185 define. The one-shot and the streaming interfaces agree, and so do the assembly and the portable implementations.",
 ["inputs","histories","configurations"],"all messages, all splittings into writes and reads, all N and S (including lengths at which the encoded prefix is block aligned or needs a multi-byte length), both Keccak back ends",
 "The tests use fixed vectors (mostly whole messages in one or two fixed chunkings) and one cSHAKE N/S pair per length; they reach a few of the (buffer fill, chunk length) combinations and no block-aligned cSHAKE prefix.",
 S3,[("sponge buffering","hash/sha3/sha3.go: Write, finalize_sha3, Read"),("cSHAKE prefix encoding","hash/sha3/shake.go: leftEncode, bytepad, newCShake"),("permutation","hash/sha3/keccakf.go, keccakf_amd64.s")],
 ["return values and output buffers of Write/Read/Sum/ShakeSum128/ShakeSum256"],
 [("idx/isSquezing","fill level of the rate buffer and phase","hash/sha3/sha3.go: state")])
p("C02","SHA-3 hash objects: Sum, Reset, sizes follow hash.Hash in any history",
 "In every sequence of Write, Sum, Reset, Size and BlockSize on a SHA3 hash object, Sum appends the digest of everything written since the last Reset to its argument without disturbing the object (it can be called again, and writing can go on), Write reports that it consumed its whole input, and Reset returns the object to the state of a freshly made one. Size and BlockSize are constant and are the standard's values.",
 ["histories","inputs"],"all finite call sequences on one object, all Sum prefixes (nil, empty, with and without spare capacity)",
 "Tests call Sum once, at the end, mostly with nil; no test continues after Sum or compares two Sums.",
 ["hash/sha3/sha3.go"],[("Sum","hash/sha3/sha3.go: Sum"),("Reset","hash/sha3/sha3.go: Reset")],["return values of hash.Hash methods"],
 [("isSquezing","whether output has begun","hash/sha3/sha3.go")])
p("C03","SHAKE/cSHAKE objects: phases, Clone and Reset in any history",
 "In every sequence of Write, Read, Clone and Reset over a set of SHAKE/cSHAKE objects, successive reads return consecutive parts of one output stream whatever their lengths, and a Write after a Read is refused with an error, consumes nothing and changes nothing. A clone starts in exactly the state of its original, and from then on neither affects the other; Reset returns an object to its initial state, including its N and S.",
 ["histories","inputs"],"all call sequences over an original and its clones (and clones of clones), all read/write lengths",
 "Tests sample one clone and one reset sequence; divergence of clones after particular buffer fills, Reset in the middle of squeezing, and refused writes leaving the state alone are not explored.",
 ["hash/sha3/sha3.go","hash/sha3/shake.go"],[("phase guard","hash/sha3/sha3.go: Write"),("Clone/Reset","hash/sha3/shake.go")],["Write/Read results, Clone"],
 [("idx","unconsumed bytes of the squeezed block","hash/sha3/sha3.go: Read")])
p("C04","SM3 digests equal GB/T 32905 for every message and chunking",
 "For every message, however it is split over writes, the SM3 hash returns exactly the 256-bit value the SM3 standard defines, including the 64-bit length field of long messages.",
 ["inputs","histories"],"all messages and all splittings into writes; messages longer than 2^32 bits",
 "Tests hold a handful of vectors in one chunking; padding boundary lengths (55, 56, 63, 64 mod 64) in every buffer fill and the upper half of the length field are not reached.",
 ["hash/sm3/sm3.go","hash/sm3/compress.go"],[("buffering and padding","hash/sm3/sm3.go: Write, Sum"),("compression","hash/sm3/compress.go")],["Sum(nil)"])
p("C05","SM3 hash objects follow the hash.Hash contract in any history",
 "In every sequence of Write, Sum, Reset, Size and BlockSize on an SM3 object, Write reports having consumed its whole input without error, Sum(nil) is the digest of everything written since the last Reset and leaves the object undisturbed, and Reset makes the object equivalent to a new one. Size is 32 and BlockSize is 64.",
 ["histories","inputs"],"all finite call sequences on one object",
 "No test looks at the count Write returns, writes after Sum at every fill level, or resets a partly filled object.",
 ["hash/sm3/sm3.go"],[("Write/Sum/Reset","hash/sm3/sm3.go")],["hash.Hash method results"],[("len","bytes written since Reset","hash/sm3/sm3.go: digest")])
p("C06","CTR_DRBG output follows SP 800-90A in any history of calls",
 "In every history of instantiations, reseeds and generate requests, with any entropy, personalization and additional input, and any request lengths, the bytes the DRBG returns are exactly those SP 800-90A defines for CTR_DRBG with AES-256 without derivation function (inputs longer than the seed length truncated, shorter ones zero padded). In particular re-initialising an object makes it independent of its earlier use, and objects do not influence each other.",
 ["histories","inputs","configurations"],"all call histories over several objects, all lengths of inputs and outputs, counter carries through every byte of V, both AES back ends",
 "Tests are CAVP vectors with two fixed-size reads after one instantiate; request lengths that are no multiple of the block size, counter carries and re-initialisation are not covered.",
 ["drbg/ctr_drbg.go"],[("state update","drbg/ctr_drbg.go: update, inc"),("generate","drbg/ctr_drbg.go: ReadWithAdditionalData"),("instantiate/reseed","drbg/ctr_drbg.go: Init, Reseed")],
 ["out buffers, return values"],[("(key, v)","working state","drbg/ctr_drbg.go: CtrDrbg")])
p("C07","DRBG never repeats a counter block under one key; rejects short entropy",
 "Within the life of a DRBG instance no keystream block is ever produced twice from the same key and counter value - not within one request, not across requests, and not between output and the internal state update; successive counters under one key are successive values modulo 2^128, so that this holds for requests of any length. An Init with less entropy than the instance's security strength is refused and leaves the working state unchanged.",
 ["histories","inputs"],"all histories of generate requests (of any lengths, also zero), reseeds and inits",
 "A repetition shows only for particular request lengths (partial last blocks) and histories; tests compare fixed-size outputs with vectors.",
 ["drbg/ctr_drbg.go"],[("counter increment before every block","drbg/ctr_drbg.go: inc, ReadWithAdditionalData, update"),("entropy length guard","drbg/ctr_drbg.go: Init")],
 ["distinctness of output blocks, equality with the specified blocks, Init result"])
p("C08","AES back ends implement FIPS 197 for every key and block, in place too",
 "For every key of 16, 24 or 32 bytes that an AES back end accepts and every block, encryption is the FIPS 197 function, decryption is its inverse, the hardware and the table based back end agree, a second SetKey fully replaces the first, and source and destination may be the same buffer. A key of another length is refused.",
 ["inputs","histories","configurations"],"all keys, blocks, sequences of SetKey/Encrypt/Decrypt, both back ends, overlapping buffers",
 "Tests run a few NIST vectors once per key length; re-keying, in-place use and key-size changes on one object are not covered.",
 ["drbg/internal/aes/cipher.go","drbg/internal/aes/generic.go","drbg/internal/aes/cipher_asm.go","drbg/internal/aes/aes_amd64.s"],[("key schedule and rounds","drbg/internal/aes/generic.go, aes_amd64.s"),("interface","drbg/internal/aes/cipher.go, cipher_asm.go")],
 ["SetKey result, Encrypt/Decrypt output"])
p("C09","CPU features are reported only when present; back ends are equivalent",
 "A CPU feature (AES, BMI2, ADX, RDSEED) is reported as available exactly when the processor has it, and switching any subset of the available features off changes no result of any hash, DRBG, SIDH, SIKE or CSIDH operation.",
 ["configurations","inputs"],"all subsets of the features the CPU has, the purego/assembly builds, all inputs",
 "The tests run once, on the configuration the test machine happens to select; only field arithmetic of two primes is re-run with features off.",
 ["utils/cpu.go","utils/cpuid_amd64.go","utils/cpuid_amd64.s","dh/sidh/internal/p503/arith_amd64.s","dh/sidh/internal/p751/arith_amd64.s","dh/csidh/fp511_amd64.s","dh/csidh/fp511_amd64.go"],
 [("cpuid decoding","utils/cpuid_amd64.go: init"),("dispatch","arith_amd64.s of p503/p751, csidh/fp511_amd64.go, drbg.NewCtrDrbg")],["reported flags vs /proc/cpuinfo, outputs per configuration"])
SD=["dh/sidh/sidh.go","dh/sidh/internal/p434/core.go","dh/sidh/internal/p503/core.go","dh/sidh/internal/p751/core.go","dh/sidh/internal/p434/curve.go","dh/sidh/internal/p503/curve.go","dh/sidh/internal/p751/curve.go","dh/sidh/internal/p434/params.go","dh/sidh/internal/p503/params.go","dh/sidh/internal/p751/params.go"]
p("C10","SIDH public keys and shared secrets are the specified isogeny values",
 "For each of p434, p503 and p751, for each of the 2- and 3-torsion sides and for every private key in the key space, the exported public key is the canonical encoding of the images of the other side's basis under the isogeny the key defines (as in the SIKE specification), and the derived shared secret is the canonical encoding of the j-invariant of the curve both parties reach. Hence both parties always derive the same secret.",
 ["inputs","configurations"],"all private keys of the key space (including extreme ones), both sides, three primes, all arithmetic back ends",
 "Tests run one vector per prime plus some random round trips, which cannot see an error both sides share, nor rare carries and extreme scalars.",
 SD,[("three-point ladder, isogeny strategies","core.go: PublicKeyGenA/B, DeriveSecretA/B"),("curve arithmetic","curve.go"),("parameters","params.go")],["Export of public keys, DeriveSecret output"])
p("C11","SIDH/SIKE keys: import, export, generation are exact and history free",
 "Importing a key of the right length makes the object equal to that key whatever it held before (export returns the imported bytes, and all later results depend on them only), and a wrong length is refused with an error and no change. Generate fills a private key from exactly the RNG bytes read, with the key's top bit set and every bit beyond the key length cleared (so it lies in the documented range), and returns an error when the RNG fails.",
 ["inputs","histories","fault_sequences"],"all key kinds and primes, all lengths, all import/export/generate histories on one object, RNG failures at any byte",
 "Tests import into fresh objects only and sample a few generated keys; wrong lengths and failing RNGs are barely touched.",
 ["dh/sidh/sidh.go","dh/sidh/common/utils.go"],[("Import/Export/Generate","dh/sidh/sidh.go"),("byte conversion","dh/sidh/common/utils.go")],["Export bytes, errors, Scalar and S"],
 [("affine3Pt/Scalar/S","key contents","dh/sidh/sidh.go")])
p("C12","Incompatible keys and undersized buffers are refused, never half-used",
 "Public key generation and secret derivation with keys of different fields, or of the same torsion side (or, for generation, different variants), panic before writing to any output; SIKE operations panic on non-SIKE keys, an unallocated KEM, a short output buffer or a ciphertext of the wrong size. Matching keys and sufficient buffers are never refused, and the size functions report the true sizes.",
 ["inputs","configurations"],"all combinations of key variants and fields, all buffer sizes around the required ones",
 "Tests try a few mismatched pairs; the full matrix and the absence of partial output are not checked.",
 ["dh/sidh/sidh.go","dh/sidh/sike.go","kem/mkem/sike.go"],[("guards","dh/sidh/sidh.go: GeneratePublicKey, DeriveSecret"),("KEM guards","dh/sidh/sike.go: Encapsulate, Decapsulate")],["panic or not, output buffers, Size functions"])
p("C13","SIKE KEM: encapsulation and decapsulation agree and match the spec",
 "In every history of Encapsulate, Decapsulate and Reset calls on KEM objects, an encapsulation returns exactly the ciphertext and secret the SIKE specification defines for the public key and the RNG bytes drawn, independent of what the object did before and of how much larger the output buffers are, and decapsulating it with the matching key pair returns the same secret. Nothing beyond the ciphertext and secret sizes is written.",
 ["histories","inputs","configurations"],"all call histories, key pairs, RNG outputs, buffer sizes >= required, three primes",
 "Tests use NIST KAT vectors and round trips on fresh or just-reset objects with exactly sized buffers.",
 ["dh/sidh/sike.go"],[("encapsulation, decapsulation, re-encryption","dh/sidh/sike.go")],["ciphertext, secret, error"],[("msg/secretBytes/shake","scratch kept between calls","dh/sidh/sike.go: KEM")])
p("C14","SIKE decapsulation rejects modified ciphertexts implicitly, reports RNG loss",
 "For every ciphertext that is not exactly the re-encryption of its decryption, decapsulation returns without error the secret H(S || ciphertext) that the SIKE specification prescribes, so it never equals the encapsulated secret, wherever and however the ciphertext was altered. When the RNG fails during encapsulation an error is returned and neither ciphertext nor secret is written, and the KEM remains usable.",
 ["inputs","fault_sequences","histories"],"every byte and bit position of every ciphertext, wrong key pairs, RNG failures after any number of bytes",
 "The tests alter a few positions and check inequality only; a comparison covering only part of the ciphertext or using the wrong S would pass.",
 ["dh/sidh/sike.go","dh/sidh/common/utils.go"],[("re-encryption check and select","dh/sidh/sike.go: Decapsulate"),("Cpick","dh/sidh/common/utils.go")],["secret returned for altered ciphertexts, error values"])
p("C15","SIDH field arithmetic is exact for every operand and back end",
 "For p434, p503 and p751 every field operation (add, subtract, multiply, square, invert, square-root exponentiation, Montgomery conversion and reduction, conditional swap) in GF(p) and GF(p^2) returns a representative of the exact mathematical result within its stated range, for every operand in the allowed range and for every assembly or portable variant of it.",
 ["inputs","configurations"],"all operands in [0,2p) (and the wider ranges the routines accept), including all-ones words and values next to 0, p, 2p, 2^64k; all variants",
 "Tests draw random operands, for which carry chains through whole words almost never occur.",
 ["dh/sidh/internal/p434/arith_generic.go","dh/sidh/internal/p503/arith_generic.go","dh/sidh/internal/p751/arith_generic.go","dh/sidh/internal/p434/arith_amd64.s","dh/sidh/internal/p503/arith_amd64.s","dh/sidh/internal/p751/arith_amd64.s","dh/sidh/internal/p434/fp2.go","dh/sidh/internal/p503/fp2.go","dh/sidh/internal/p751/fp2.go"],
 [("word arithmetic","arith_generic.go, arith_amd64.s"),("extension field","fp2.go")],["results of field routines (in-package)"])
p("C16","CSIDH computes the class-group action: exact, commutative, path independent",
 "For every private exponent vector and every valid public key, public key generation and secret derivation return the unique Montgomery coefficient of the curve reached by that class-group action (in the key's fixed encoding), whatever random points the RNG supplies. So both parties of an exchange always derive the same secret.",
 ["inputs","histories","configurations"],"all exponent vectors (also zero, one-sided and extreme), all starting curves, all RNG streams, both arithmetic back ends",
 "Tests use a few vectors and random exchanges with one RNG; the result's independence of the RNG stream and errors common to both parties are not checked.",
 ["dh/csidh/csidh.go","dh/csidh/curve.go","dh/csidh/fp511.go","dh/csidh/consts.go"],[("group action loop","dh/csidh/csidh.go: groupAction"),("isogeny, ladder","dh/csidh/curve.go")],["exported public key, derived secret"])
p("C17","CSIDH validation accepts exactly the supersingular curves",
 "Validation returns true for every public key that encodes the coefficient of a supersingular curve and false for every other 64-byte key (not reduced mod p, singular, or ordinary), whatever random points the RNG supplies. Secret derivation refuses an invalid key by returning false and leaves the output untouched.",
 ["inputs","histories"],"all 64-byte encodings, all RNG streams",
 "Tests hold a handful of valid and invalid keys with one RNG.",
 ["dh/csidh/csidh.go"],[("range, singularity and order checks","dh/csidh/csidh.go: Validate, cofactorMul")],["Validate and DeriveSecret results, out buffer"])
p("C18","CSIDH keys: import, export and generation are exact and history free",
 "Importing a key of an accepted length makes the object equal to that key whatever it held before, export returns the same bytes, and a wrong length is refused with false and no change. Private key generation uses the RNG bytes in order, keeping exactly those in [-5,5] as successive exponents, and returns an error if the RNG fails.",
 ["inputs","histories","fault_sequences"],"all byte strings of all lengths, all import/export/generate histories, RNG failures at any read",
 "Tests import into fresh objects with right-sized buffers only and never check the distribution or the RNG error path.",
 ["dh/csidh/csidh.go"],[("Import/Export/GeneratePrivateKey","dh/csidh/csidh.go")],["Export bytes, results, errors"],[("e / a","exponents / coefficient","dh/csidh/csidh.go")])
p("C19","CSIDH field arithmetic is exact for every operand and back end",
 "Every GF(p511) operation used by CSIDH (add, subtract, multiply, exponentiation, 512x64-bit multiply, comparison, quadratic residuosity, conditional swap) returns the exact, fully reduced result for every operand, in the BMI2/ADX, plain assembly and portable variants alike.",
 ["inputs","configurations"],"all operands in [0,p) and the wider ranges accepted, including carry-chain and boundary values; all variants",
 "Tests draw random operands plus a few constants, for which rare carries and the final conditional subtraction at the boundary do not occur.",
 ["dh/csidh/fp511.go","dh/csidh/fp511_generic.go","dh/csidh/fp511_amd64.go","dh/csidh/fp511_amd64.s"],[("Montgomery multiplication","fp511_amd64.s, fp511_generic.go"),("exponentiation, residuosity, compare","fp511.go")],["results of field routines (in-package)"])
p("C20","mkem CSIDH PKE and multi-recipient PKE decrypt correctly in any history",
 "In every history of encryptions, decryptions and multi-recipient encryptions sharing one PKE object, each ciphertext is the one defined for the public key, plaintext and ephemeral key (c0 = ephemeral public key, c1 = SHAKE128(shared secret) xor plaintext), each recipient decrypts to exactly the plaintext encrypted for it, and no result depends on earlier calls on the object. Nothing is encrypted for an invalid public key, or decrypted from an invalid ephemeral one, with a mask that anybody can compute.",
 ["histories","inputs"],"all interleavings of Enc, Dec and multi-recipient Encrypt over one object, any number of recipients up to the number allocated and any keys/plaintexts",
 "Tests run each operation once on a fresh object; a stale hash state shows only for particular orders of calls.",
 ["kem/mkem/csidh.go"],[("hash of shared secret, xor","kem/mkem/csidh.go: Enc, Dec, Encrypt")],["ciphertexts and plaintexts"],[("H","shared hash object","kem/mkem/csidh.go: PKE")])
p("C21","Multi-recipient SIKE KEM: all recipients agree, tampering rejected",
 "For every set of recipients, after one multi-recipient encapsulation every recipient that decapsulates its own ciphertext with its own key pair obtains the encapsulated secret, in any order, any number of times, and also after Reset; all values are those the mKEM construction defines. A ciphertext altered in any bit, or decapsulated with another recipient's keys, yields the rejection secret derived from the private key's S instead of an error or the true secret.",
 ["histories","inputs"],"all recipient counts up to the allocation, all orders of decapsulation and Reset, every altered position",
 "Tests encapsulate once and decapsulate directly afterwards on the same object state; reset, reuse and tampering are not covered.",
 ["kem/mkem/sike.go"],[("per recipient masks, re-encryption check","kem/mkem/sike.go: MultiKEM.Encapsulate, Decapsulate")],["secrets, ct0 and cts (in-package)"],[("msg, ct0, cts, j","state shared between calls","kem/mkem/sike.go: MultiKEM")],None)
p("C22","The mkem module's single-recipient KEM is the SIKE KEM, byte for byte",
 "For every key pair, RNG stream, ciphertext and call history, the mkem module's single-recipient KEM produces the same ciphertexts, secrets, sizes, errors and implicit rejections as the SIKE specification prescribes, so it interoperates with the sidh package's KEM.",
 ["histories","inputs","fault_sequences"],"all call histories mixing both implementations, altered ciphertexts, RNG failures",
 "The copy has only round-trip and one vector test of its own and is never compared with the other implementation.",
 ["kem/mkem/sike.go"],[("Encapsulate, Decapsulate","kem/mkem/sike.go")],["ciphertext, secret, error"])
p("C23","Distinct objects can be used concurrently; results equal sequential ones",
 "Operations running concurrently on distinct hash, DRBG, key and KEM objects - including ones that share read-only public or private keys - return exactly what they return when run alone, under every schedule.",
 ["schedules"],"all interleavings of operations on distinct objects that share only read-only inputs",
 "No test runs two operations at the same time; hidden package-level scratch state would go unnoticed.",
 ["hash/sha3/sha3.go","hash/sm3/sm3.go","drbg/ctr_drbg.go","dh/sidh/sidh.go","dh/sidh/sike.go","dh/sidh/common/params.go","dh/csidh/csidh.go","kem/mkem/sike.go","kem/mkem/csidh.go"],[("no package-level mutable state after init","all packages")],["results under concurrency, race detector reports"])
p("C24","Calls change nothing but their documented outputs",
 "No call of the library modifies its input slices or key arguments, or memory of the caller beyond the documented output region; and values returned or copied out stay unaffected by later calls on the object they came from. Inputs placed directly in front of unrelated data, with spare capacity behind them, or given as empty or nil slices behave alike.",
 ["inputs","histories"],"all API calls, all slice layouts (spare capacity, adjacency, nil/empty)",
 "Tests never compare inputs before and after a call nor surround outputs with guard bytes.",
 ["hash/sha3/sha3.go","hash/sha3/shake.go","hash/sm3/sm3.go","drbg/ctr_drbg.go","dh/sidh/sidh.go","dh/sidh/sike.go","dh/csidh/csidh.go","kem/mkem/sike.go","kem/mkem/csidh.go"],[("copy-in/copy-out discipline","all public entry points")],["guard bytes around every buffer, input snapshots"])
p("C25","SIDH and SIKE: what is executed does not depend on secrets",
 "For every field and key variant, which statements of the library a SIDH or SIKE operation executes, and how often each, is settled by its public shape (parameters, key variants, buffer lengths, the order of calls) and not by secrets: importing and exporting a private key, generating a public key and deriving a shared secret take the same course for every private key of the right form; encapsulation takes the same course for every message drawn; decapsulation takes the same course for every key, every rejection value S and every well-formed ciphertext, whether it is accepted or rejected. This holds for the sidh package and for the single-recipient KEM of mkem, with the assembly (whose callers are observed) and with the portable field arithmetic.",
 ["inputs","configurations"],"all private keys (including 0, 1, sparse and dense scalars), messages, rejection values, accepted and altered ciphertexts of one length; both arithmetic back ends",
 "Tests compare results only. A comparison that stops at the first difference, a ladder that skips leading zero bits or a rejection path of its own returns exactly the right values.",
 ["dh/sidh/sidh.go","dh/sidh/sike.go","dh/sidh/common/utils.go","dh/sidh/internal/p434/curve.go","dh/sidh/internal/p503/curve.go","dh/sidh/internal/p751/curve.go","dh/sidh/internal/p434/arith_generic.go","kem/mkem/sike.go"],
 [("constant-time select and compare","dh/sidh/common/utils.go: Cpick; dh/sidh/sike.go, kem/mkem/sike.go: Decapsulate, decrypt"),("three-point ladder with masked swap","dh/sidh/internal/p*/curve.go: ScalarMul3Pt; fp2.go: cswap"),("fixed isogeny strategy","dh/sidh/internal/p*: traverse*")],
 ["execution counters of a -cover build"])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
