# property -> (technique, what assurance the check gives and what it trusts)
COMMON = (' Trusts: TLC and the JSON/IO community modules; the Java overrides of the function library '
          '(compared with the TLA+ definitions by setup_cmd); the driver, which only executes scripts and records results.')
NOTE.update({
 'C01': (TV, 'The sponge implementation model refines the hash-object specification in all bounded histories; every recorded result of generated histories '
        '(all transitions of the quotient graph of buffer fill levels and phases, plus long random ones and length sweeps) equals the TLA+ definition of FIPS 202 / SP 800-185, for the assembly, generic and byte-wise builds. '
        'Message contents are sampled, lengths and chunkings systematic.' + COMMON),
 'C02': (TV, 'As C01 for the hash.Hash contract: results of Sum, Write, Reset, sizes in every generated history over several objects.' + COMMON),
 'C03': (TV, 'As C01 for phases, Clone and Reset over families of SHAKE/cSHAKE objects.' + COMMON),
 'C04': (TV, 'SM3 as defined in TLA+ against recorded digests: every message length around block boundaries, chunkings, and messages beyond 2^32 bits.' + COMMON),
 'C05': (TV, 'Contract of the SM3 object in generated histories; one known finding (Sum with a non-empty argument) is a named deviation of the trace specification.' + COMMON),
 'C06': (TV, 'The DRBG model (SP 800-90A shape over symbolic terms) is checked exhaustively in small bounds; histories generated from it are replayed and every output byte is compared with the TLA+ definition of CTR_DRBG, on the hardware and the table AES.' + COMMON),
 'C07': (TV, 'Invariant "no (key, counter) pair is used twice" checked on the model, and on every recorded run from the block-cipher calls a spy sees, including counter carries into every byte.' + COMMON),
 'C08': (TV, 'Key-schedule model checked; every recorded block result equals FIPS 197 as defined in TLA+, for both back ends. Keys and blocks are sampled; lengths, re-keying histories, aliasing and buffer lengths are enumerated.' + COMMON),
})
SI = 'The key/KEM implementation model (key memory, KEM scratch, SHAKE phases, over symbolic terms) refines the object specification and satisfies agreement and rejection in all bounded histories; '
NOTE.update({
 'C10': (TV, SI + 'every public key and shared secret recorded from generated histories equals the TLA+ definition of the isogeny computation, and both parties of every exchange agree; default, portable (GOARCH=386) and feature-masked back ends. Keys are sampled (plus edge values), histories generated.' + COMMON),
 'C11': (TV, SI + 'import, export, generation and sizes are compared in all transitions of the quotient graph of one object and in long histories over several, with objects exported at the end.' + COMMON),
 'C12': (TV, SI + 'every combination of two keys, every KEM precondition and buffer length around the limits: refused by a panic with keys and buffers unchanged; sidh and mkem objects.' + COMMON),
 'C13': (TV, SI + 'ciphertexts and secrets of generated histories equal the SIKE definition in TLA+; decapsulations give the encapsulated secret.' + COMMON),
 'C14': (TV, SI + 'altered ciphertexts (positions, both parts, non-canonical field elements, random) give exactly the rejection secret, an RNG that ends gives an error and leaves outputs alone.' + COMMON),
 'C21': (TV, 'The multi-recipient implementation model refines its specification for every recipient list, order, failure and tampering in bounds; recorded histories with up to 5 recipients (ct0 and parts read through an overlay) equal the mKEM construction in TLA+.' + COMMON),
 'C22': (TV, SI + 'histories on the mkem copy, and on both packages together (one encapsulates, the other decapsulates), equal the same SIKE definition.' + COMMON),
})
CS = 'The CSIDH algorithms are checked over the toy prime 419 against the class-group action defined by point counting and kernels; '
NOTE.update({
 'C16': (TV, CS + 'every public key and secret of generated histories (exponent classes incl. zero, one-sided, extreme; random streams that start with special points: infinity, zero, points of low order, unreduced blocks) equals the TLA+ definition of the action, which uses other points; both parties agree; BMI2/ADX, plain and portable arithmetic. Keys are sampled.' + COMMON),
 'C17': (TV, CS + 'every validation and derivation result over all classes of encodings equals "supersingular" as defined in TLA+, with adversarial random points.' + COMMON),
 'C18': (TV, 'All transitions of the quotient graph of one private / one public key, and long histories over several keys, replayed; bytes, results and error cases equal the object specification.' + COMMON),
})
NOTE.update({
 'C20': (TV, 'The PKE implementation model (shared hash object, shared secret buffer) gives the defined result after every history in bounds; recorded histories of Enc, Dec and Encrypt over several objects are judged with the recipients\' private keys: c1 and plaintexts equal the definition, ephemeral curves are valid, fresh, and determined by the random generator alone. One known finding (invalid public keys) is a named deviation. Keys are sampled.' + COMMON),
})
FA = 'A word-by-word model of the arithmetic refines the exact field machine for all operands over toy primes and word sizes; '
NOTE.update({
 'C15': (TV, FA + 'every instruction with every aliasing and relation of its operands, and generated programs, run on p434, p503 and p751 in the ADX, BMI2, plain assembly and portable variants, on operands around carries, borrows, reduction columns and corrections; every result judged against the exact field. '
         'Operands are sampled from those classes, not exhausted. arm64 assembly cannot run here.' + COMMON),
 'C19': (TV, FA + 'as C15 for the CSIDH field: ADX, BMI2, plain assembly and portable variants.' + COMMON),
 'C09': (TV, 'Detection and dispatch are model-checked over a family of processors; the real detection is run on 1920 simulated processors (an overlay makes CPUID a variable) and on this machine, compared with what the operating system reports; '
         'histories of hash, DRBG, SIDH, SIKE, mkem, PKE and CSIDH operations are recorded under every subset of the features and in the portable builds, the field routines in every variant, and the recordings must be alike (SameTrace).' + COMMON),
})
NOTE.update({
 'C23': (TV, 'Every interleaving of calls whose working memory is local to the call, to the object, or initialised once refines the specification in which a call is one step (and the model notices working memory in shared keys or packages); '
         'programs generated for up to eight threads that share keys are run alone (each thread in a process of its own), freely concurrent, under the race detector, and in generated orders that switch threads inside calls at every read from a generator; '
         'all recordings must be alike (SameTrace) and no data race may be reported. Schedules inside calls are sampled; races are found by happens-before analysis of what ran.' + COMMON),
 'C24': (TV, 'The frame specification (memory arena, slices, calls) is refined by copying objects and by none of six other habits; histories of every kind of object are run with guard bytes around and snapshots of every buffer, key and earlier result, '
         'in a plain, a wide (nil, spare capacity, buffers overwritten after the call) and a mixed layout of the caller\'s memory: no call may touch anything else, and all recordings must be alike (SameTrace).' + COMMON),
 'C25': (TV, 'The masked ladder, walk and implicit rejection refine a specification in which the course of a call is settled before the secrets are drawn, for every pair of secrets in small bounds (and the model notices five other ways to write them); '
         'TLC-generated key and KEM histories are run by a driver built with execution counters, repeatedly, each time with other private keys (edge scalars included), messages, rejection values and accepted or altered ciphertexts; the counters of every call must be alike (SameTrace). '
         'Statements of Go code are observed, in the assembly and in the portable build; what happens inside assembly routines or in the processor (caches, instruction timing) is not.' + COMMON),
})
