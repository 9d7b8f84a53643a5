# one-off generator for properties.jsonl (kept so that edits stay valid JSON)
import json
P=[]
def add(id,title,statement,over,text,why,files,mech,**kw):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    a.update(kw)
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

add("P01","KEM calls never access memory outside the documented buffers",
"For every content of keys, ciphertexts and seeds, key generation, encapsulation and decapsulation read and write only inside the caller's buffers of the documented lengths and inside their own live, initialised-size objects. They require no alignment of the caller's buffers beyond that of a byte, and every access respects the alignment its object is declared with. This holds for the portable and the AVX2 implementation and for all three parameter sets.",
["inputs","configurations"],"all byte values of every buffer (well-formed or adversarial), every length of the rejection-sampling loop, both implementations x 3 parameter sets",
"Tests run a few thousand honest keys with stack buffers under valgrind, which does not see stack overruns into neighbouring objects, adversarial encodings or rare rejection-sampling paths.",
["ref/kem.c","ref/indcpa.c","ref/poly.c","ref/polyvec.c","ref/cbd.c","ref/verify.c","ref/symmetric-shake.c","avx2/indcpa.c","avx2/poly.c","avx2/polyvec.c","avx2/cbd.c","avx2/rejsample.c","avx2/verify.c","avx2/ntt.S","avx2/invntt.S","avx2/basemul.S","avx2/shuffle.S","avx2/fq.S"],
[("buffer layout of API functions","ref/kem.c, ref/api.h"),("rejection sampling cursor bounds","ref/indcpa.c rej_uniform, avx2/rejsample.c rej_uniform_avx"),("vector loads/stores","avx2/*.c, avx2/*.S"),("over-wide vector store order in compression","avx2/polyvec.c poly_compress11 / avx2/indcpa.c pack_ciphertext")])

add("P02","Coefficient arithmetic never overflows, for any key or ciphertext",
"For every input, including malformed public keys, secret keys and ciphertexts whose encoded coefficients are not reduced, no signed integer overflow, out-of-range shift or division by zero occurs. No polynomial coefficient ever leaves the range of its 16-bit (or, for products, 32-bit) storage while it is added, subtracted, multiplied or reduced.",
["inputs","configurations"],"every 12-bit value of every coefficient of pk and sk, every ciphertext, every noise value, both implementations x 3 parameter sets",
"Overflow needs worst-case operands in many positions at once; random honest keys stay far from the extremes and tests never decode non-canonical keys.",
["ref/ntt.c","ref/reduce.c","ref/poly.c","ref/polyvec.c","ref/indcpa.c","avx2/ntt.S","avx2/invntt.S","avx2/basemul.S","avx2/fq.S","avx2/poly.c","avx2/indcpa.c"],
[("lazy reduction schedule","ref/indcpa.c indcpa_enc/indcpa_dec, ref/ntt.c"),("Montgomery/Barrett reduction input ranges","ref/reduce.c, avx2/fq.inc"),("product accumulation over the module rank","ref/polyvec.c polyvec_basemul_acc_montgomery")])

add("P03","No secret-dependent branches, addresses or variable-time operations",
"No conditional branch, memory address, loop bound or variable-latency instruction (such as division) executed by key generation, encapsulation or decapsulation depends on secret data. Secrets are the random seeds and coins, the secret key, the encapsulated message, the noise, and whether a ciphertext was accepted; only values published in the public key and ciphertext may influence control flow and addresses.",
["inputs","configurations","programs"],"all pairs of executions differing only in secrets; both implementations x 3 parameter sets",
"Functional tests compare outputs, not timing; a leaking variant computes the same outputs.",
["ref/verify.c","ref/kem.c","ref/poly.c","ref/cbd.c","ref/reduce.c","ref/polyvec.c","ref/fips202.c","avx2/verify.c","avx2/poly.c","avx2/polyvec.c","avx2/cbd.c","avx2/*.S"],
[("constant-time comparison and conditional move with optimisation barrier","ref/verify.c verify/cmov/cmov_int16, avx2/verify.c"),("division-free compression and message decoding","ref/poly.c poly_compress/poly_tomsg, ref/polyvec.c polyvec_compress"),("message encoding","ref/poly.c poly_frommsg")])

add("P04","Decapsulation rejects implicitly, on the full ciphertext, without leaking",
"For every ciphertext and secret key, decapsulation outputs the key derived from re-hashing the decrypted message with the stored public-key hash exactly when re-encrypting that message with the derived coins reproduces every byte of the ciphertext. In every other case it outputs the hash of the stored rejection secret and the whole received ciphertext. Every bit of the output is taken from one of the two keys, never a mixture.",
["inputs"],"every ciphertext (including those differing from a valid one in any single bit) and every secret key",
"Tests flip one random byte in 1000 runs and only see that the secret differs; they never check the rejection value bit-exactly for every differing position, nor keys with inconsistent fields.",
["ref/kem.c","ref/verify.c","ref/symmetric-shake.c","avx2/verify.c","avx2/kem.c"],
[("re-encryption comparison","ref/kem.c crypto_kem_dec, ref/verify.c verify, avx2/verify.c verify"),("selection of shared secret","ref/verify.c cmov, avx2/verify.c cmov"),("rejection key","ref/symmetric-shake.c kyber_shake256_rkprf")])

add("P05","Key generation and encapsulation bind exactly the specified values",
"The secret key is always the concatenation of the decryption key, the public key, the SHA3-256 hash of that public key and the rejection seed. Encapsulation always derives shared secret and encryption coins from the 32-byte message concatenated with the hash of the whole public key, and key generation derives its two seeds from the seed concatenated with the parameter-set rank. The randomised calls behave exactly like the seeded ones on 64, respectively 32, fresh random bytes.",
["inputs","configurations"],"every seed, coin value and public key; 3 parameter sets; both implementations",
"Test vectors only exercise honest public keys through matching encapsulation/decapsulation pairs from a deterministic generator.",
["ref/kem.c","ref/indcpa.c","ref/symmetric.h","avx2/indcpa.c"],
[("seed expansion with rank byte","ref/indcpa.c indcpa_keypair_derand"),("public key hash and message hash","ref/kem.c crypto_kem_enc_derand"),("secret key layout","ref/kem.c crypto_kem_keypair_derand")])

add("P06","Keys, ciphertexts and plaintexts satisfy the exact module-lattice equations",
"For all sampled or decoded polynomial values, the public key is exactly A*s+e, the ciphertext carries exactly A^T*r+e1 and t*r+e2+message, and decryption forms exactly v-s*u, in the ring of integers modulo 3329 modulo x^256+1. The polynomial arithmetic is exact for every operand value, including operands that are not reduced modulo 3329.",
["inputs","configurations"],"all coefficient values of every polynomial operand; both implementations x 3 parameter sets",
"Vectors sample ten thousand honest keys; a reduction error confined to rare coefficient combinations or to non-canonical encodings is not reached.",
["ref/ntt.c","ref/reduce.c","ref/poly.c","ref/polyvec.c","ref/indcpa.c","avx2/ntt.S","avx2/invntt.S","avx2/basemul.S","avx2/fq.S","avx2/consts.c","avx2/poly.c","avx2/polyvec.c"],
[("number-theoretic transform and its inverse","ref/ntt.c, avx2/ntt.S, avx2/invntt.S"),("pointwise products","ref/ntt.c basemul, avx2/basemul.S"),("modular reductions","ref/reduce.c, avx2/fq.inc"),("linear algebra","ref/indcpa.c indcpa_keypair_derand/indcpa_enc/indcpa_dec")])

add("P07","The public matrix is the rejection-sampled XOF stream of seed and position",
"For every 32-byte seed, each matrix entry consists of the first 256 values below 3329 among the consecutive 12-bit little-endian groups of the SHAKE128 stream of seed, column and row, however many stream blocks that takes. Encapsulation uses the transpose of the matrix used by key generation.",
["inputs","configurations"],"every seed, in particular those whose stream needs one or many extra blocks; both implementations x 3 parameter sets",
"The number of rejected groups is random: vectors hit few block-boundary situations and never long rejection runs.",
["ref/indcpa.c","ref/symmetric-shake.c","avx2/indcpa.c","avx2/rejsample.c","avx2/rejsample.h"],
[("rejection sampler","ref/indcpa.c rej_uniform, avx2/indcpa.c rej_uniform, avx2/rejsample.c rej_uniform_avx"),("refill loop","ref/indcpa.c gen_matrix, avx2/indcpa.c gen_matrix"),("domain bytes and transposition","ref/symmetric-shake.c kyber_shake128_absorb, avx2/indcpa.c gen_matrix")])

add("P08","Noise polynomials are centred-binomial from distinct per-call nonces",
"Every secret and error polynomial is the centred binomial distribution of the specified width applied to the SHAKE256 output of the 32-byte noise seed and a one-byte counter. The counters used within one key generation or one encryption are pairwise distinct and follow the specified order, and each coefficient uses its own bits of that output.",
["inputs","configurations"],"every seed and every value of the sampled bytes; both implementations x 3 parameter sets",
"Distributional defects that keep encapsulation and decapsulation consistent, or concern byte values not sampled, are invisible to round-trip tests.",
["ref/cbd.c","ref/poly.c","ref/indcpa.c","ref/symmetric-shake.c","avx2/cbd.c","avx2/poly.c","avx2/indcpa.c"],
[("binomial sampling","ref/cbd.c, avx2/cbd.c"),("noise generation from seed and nonce","ref/poly.c poly_getnoise_eta1/eta2, avx2/poly.c poly_getnoise_eta1_4x"),("nonce sequence","ref/indcpa.c, avx2/indcpa.c")])

add("P09","Encoding, compression and message coding are exact for every value",
"Polynomials are serialised as 256 packed 12-bit values in canonical form and deserialised bit for bit; ciphertext components are the exactly rounded compression of the value to 10, 11, 4 or 5 bits, and decompression rounds exactly, for every residue and every encoded value. A message bit is encoded as 0 or 1665 and decoded as the nearest of the two for every coefficient value.",
["inputs","configurations"],"all residues modulo 3329 in every representation that can occur, all encoded field values, all positions; both implementations x 3 parameter sets",
"Boundary residues in each of the 256 positions, and field values that honest encryption does not produce, are not all reached by sampled vectors.",
["ref/poly.c","ref/polyvec.c","avx2/poly.c","avx2/polyvec.c","avx2/shuffle.S"],
[("serialisation","ref/poly.c poly_tobytes/poly_frombytes, avx2/shuffle.S"),("compression","ref/poly.c poly_compress/poly_decompress, ref/polyvec.c polyvec_compress/polyvec_decompress, avx2/poly.c, avx2/polyvec.c"),("message coding","ref/poly.c poly_frommsg/poly_tomsg, avx2/poly.c")])

add("P10","SHA-3 and SHAKE are correct for every length and every chunking",
"The one-shot SHA3-256, SHA3-512, SHAKE128 and SHAKE256 functions produce the FIPS 202 result for every input and output length. The incremental SHAKE interface gives the same stream however input is split over absorb calls and output over squeeze calls, including empty and block-straddling pieces. Neither touches memory outside the given lengths.",
["inputs","histories"],"all message lengths, output lengths and sequences of absorb/squeeze calls",
"The KEM tests use a handful of fixed lengths; the split points around the block size and the incremental SHAKE128 interface are never exercised.",
["ref/fips202.c","ref/fips202.h","avx2/fips202.c"],
[("sponge absorb/finalize/squeeze with position cursor","ref/fips202.c keccak_absorb, keccak_finalize, keccak_squeeze"),("one-shot absorb and block squeeze","ref/fips202.c keccak_absorb_once, keccak_squeezeblocks"),("permutation","ref/fips202.c KeccakF1600_StatePermute")],
state=[{"name":"keccak_state.s/pos","meaning":"sponge state and byte position inside the current block"}])

add("P11","Four-way parallel SHAKE equals four independent SHAKE computations",
"For every input length, output length and content, lane i of the four-way SHAKE128/SHAKE256 functions produces exactly the single-stream SHAKE result for input i, independent of the other lanes. The functions write only the requested output bytes.",
["inputs"],"all input contents, input lengths, numbers of output blocks and output lengths; all four lanes",
"The KEM only calls the four-way functions with 33- and 34-byte inputs and whole-block outputs.",
["avx2/fips202x4.c","avx2/fips202x4.h","avx2/keccak4x/KeccakP-1600-times4-SIMD256.c"],
[("four-way absorb and squeeze","avx2/fips202x4.c keccakx4_absorb_once, keccakx4_squeezeblocks"),("four-way permutation","avx2/keccak4x/KeccakP-1600-times4-SIMD256.c"),("one-shot wrappers","avx2/fips202x4.c shake128x4, shake256x4")])

add("P12","Random bytes come only from the OS, completely, or the process stops",
"A request for n random bytes returns only after all n bytes have been written by the operating system's random source, whatever sequence of short reads, interruptions and errors that source produces. Interruptions are retried; any other failure terminates the process, so no caller ever continues with unfilled, partially filled or predictable bytes. On every supported platform branch a provider handle or descriptor opened for a call is released, or kept open for later calls, before the call returns.",
["fault_sequences","configurations"],"every sequence of results (short count, interruption, error) of the system random source, every request length, each platform branch",
"Tests replace the generator or run where the system call always succeeds in one go.",
["ref/randombytes.c","ref/randombytes.h","ref/kem.c","avx2/randombytes.c"],
[("getrandom retry loop","ref/randombytes.c (Linux)"),("device read loop","ref/randombytes.c (/dev/urandom)"),("CryptGenRandom","ref/randombytes.c (Windows)"),("requests of the KEM","ref/kem.c crypto_kem_keypair, crypto_kem_enc")])

add("P13","Calls are reentrant: no shared mutable state, heap, files or I/O",
"Key generation, encapsulation, decapsulation and the hash functions keep no state between calls and share none between threads: their result depends only on their arguments and, for the randomised calls, on fresh random bytes. They allocate no heap memory and perform no I/O or other system interaction apart from obtaining random bytes.",
["schedules","histories"],"all interleavings of concurrent calls and all call histories",
"Tests are single-threaded and call the functions in one fixed order.",
["ref/*.c","avx2/*.c","avx2/*.S","avx2/keccak4x/KeccakP-1600-times4-SIMD256.c"],
[("constant tables","ref/ntt.c zetas, avx2/consts.c qdata, avx2/rejsample.c idx, ref/fips202.c KeccakF_RoundConstants"),("only external effect","ref/kem.c randombytes call sites")])

add("P14","Inputs stay unmodified and outputs are fully and solely determined by them",
"No call modifies a buffer documented as input, and every call writes every byte of each output buffer on every path. No output byte and no decision ever depends on uninitialised memory, so equal inputs always give equal outputs.",
["inputs","configurations"],"every input value and path; both implementations x 3 parameter sets",
"Tests compare results, not untouched inputs, and stale stack contents are often accidentally equal between runs.",
["ref/kem.c","ref/indcpa.c","avx2/indcpa.c","avx2/polyvec.c","avx2/poly.c","ref/verify.c"],
[("const parameters of the API","ref/api.h, ref/kem.h"),("local buffers reused as vector scratch","avx2/indcpa.c gen_matrix, avx2/polyvec.c")])

add("P15","Every KEM call completes and returns 0, whatever the input",
"Key generation, encapsulation and decapsulation return 0 for every content of their buffers; in particular the return value of decapsulation never reveals whether the ciphertext was accepted. No input content makes a call abort, trap or loop without consuming fresh stream or random bytes.",
["inputs","configurations"],"every key, ciphertext and seed content; both implementations x 3 parameter sets",
"Tests never look at the return value of decapsulation for crafted inputs and cannot show absence of a non-terminating or aborting path.",
["ref/kem.c","ref/indcpa.c","avx2/indcpa.c","avx2/kem.c"],
[("return statements","ref/kem.c"),("only data-dependent loop","ref/indcpa.c gen_matrix, avx2/indcpa.c gen_matrix")])

add("P16","Public headers, lengths and symbol namespaces match the built libraries",
"For each parameter set and implementation, the lengths and prototypes published in the public header equal those of the implementation and the documented key, ciphertext and secret sizes. Every global symbol a library defines carries that library's documented prefix, so that all parameter sets and implementations can be linked into one program without clashes.",
["configurations","programs"],"every program including the public header and linking any subset of the libraries; both implementations x 3 parameter sets",
"No test includes the public header or links two parameter sets together.",
["ref/api.h","avx2/api.h","ref/params.h","avx2/params.h","ref/kem.h","avx2/kem.h","ref/Makefile","avx2/Makefile","README.md","Kyber512_META.yml","Kyber768_META.yml","Kyber1024_META.yml"],
[("public API header","ref/api.h, avx2/api.h"),("parameter header and namespaces","ref/params.h, avx2/params.h"),("hash namespaces","ref/fips202.h, avx2/fips202x4.h")])

add("P17","Portable and AVX2 implementations compute identical results",
"For every seed, key and ciphertext content, including malformed ones, the portable and the AVX2 implementation produce bit-identical public keys, secret keys, ciphertexts and shared secrets, so that either can replace the other at any point of a key's life.",
["inputs","configurations"],"all inputs of all deterministic entry points, 3 parameter sets",
"Vectors compare both on ten thousand honest inputs only; non-canonical keys, crafted ciphertexts and rare sampling paths are not compared.",
["ref/*.c","avx2/*.c","avx2/*.S"],
[("all arithmetic, sampling and coding code","ref/, avx2/"),("shared KEM layer","ref/kem.c = avx2/kem.c")])

add("P18","Honest decapsulation fails with at most the published probability",
"Whatever the encapsulated message, decapsulating an honestly made ciphertext with an honestly generated key returns exactly the encapsulated secret, except with the published failure probability of at most 2^-138.8, 2^-164.8 and 2^-174.8 for the three parameter sets, taken over keys and coins in the published error model. No particular key, message or coin value raises that probability beyond the error the scheme itself specifies.",
["inputs"],"all messages; probability over all seeds and coins",
"A probability around 2^-139 is unobservable by sampling, and a defect that fails for one in a billion keys is too.",
["ref/indcpa.c","ref/poly.c","ref/polyvec.c","ref/cbd.c","avx2/poly.c","avx2/polyvec.c"],
[("noise widths, rounding and decoding","ref/params.h, ref/poly.c")])

add("P19","The NIST KAT generator is the AES-256 CTR_DRBG for every state and request",
"For every entropy input, personalisation string and sequence of requests of any sizes below 2 GiB, the generator behind the NIST known-answer files returns exactly the bytes of the SP 800-90A CTR_DRBG with AES-256 and no derivation function: the 128-bit counter is incremented with full carry before each block, unused bytes of the last block are discarded, and key and counter are updated after every request. The seed expander returns one AES counter-mode stream however the requests split it and never serves a request beyond its declared length. A failing AES call ends the program instead of letting unencrypted data through. No call touches memory outside its buffers.",
["inputs","histories","fault_sequences"],"every key, counter and seed value, every carry length in the counter, every request length and chunking, failure of each AES library call",
"The known-answer run uses one seed and requests of 32, 48 and 64 bytes only; long carries occur with probability 2^-16 and less, other request sizes, the personalisation string, the seed expander and library failures never.",
["ref/nistkat/rng.c","ref/nistkat/rng.h"],
[("counter increment and output loop","ref/nistkat/rng.c randombytes"),("state update","ref/nistkat/rng.c AES256_CTR_DRBG_Update, randombytes_init"),("seed expander","ref/nistkat/rng.c seedexpander_init, seedexpander"),("AES call and failure handling","ref/nistkat/rng.c AES256_ECB, handleErrors")])
with open('/verif/properties.jsonl','w') as f:
    for p in P: f.write(json.dumps(p)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in P: jsonschema.validate(p,s); assert len(p['title'])<=80,(p['id'],len(p['title']))
print(len(P))
