#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements are easy to edit)."""
import json
P = []
def prop(id, title, statement, over, q, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=q), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [], mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe or [], hook_needed=hook)))

prop("C01", "Key generation is exactly the specified function of its random bytes",
 "For every string of random bytes delivered by the random generator, key generation returns success and produces byte for byte the public key and secret key that the FrodoKEM specification defines for those bytes (seed expansion, noise, B = A*S + E, packing, embedded public key, S in little-endian order and public-key hash), consuming exactly the specified number of random bytes in the specified order. This holds for FrodoKEM-640, -976 and -1344 with AES128 or SHAKE128 matrix generation at every optimisation level.",
 ["inputs", "configurations"], "all random byte strings, all six parameter sets, all shipped build options",
 "test_KEM only checks that encapsulation and decapsulation agree with each other on 100 random keys; there are no known-answer files, so any self-consistent deviation and any deviation on a rare noise value passes.",
 ["src/kem.c", "src/frodo640.c", "src/frodo976.c", "src/frodo1344.c", "src/noise.c", "src/frodo_macrify.c", "src/frodo_macrify_reference.c", "src/util.c"],
 [("crypto_kem_keypair", "src/kem.c"), ("frodo_sample_n", "src/noise.c"), ("frodo_mul_add_as_plus_e", "src/frodo_macrify*.c"), ("frodo_pack", "src/util.c")],
 observe=["crypto_kem_keypair outputs", "random bytes consumed"])

prop("C02", "Encapsulation is exactly the specified function of public key and message",
 "For every public key byte string (honestly generated or not) and every random message delivered by the random generator, encapsulation returns success and produces byte for byte the ciphertext and shared secret that the FrodoKEM specification defines. It consumes exactly the specified number of random bytes and holds for all six parameter sets at every optimisation level.",
 ["inputs", "configurations"], "all public key strings, all messages, all six parameter sets, all shipped build options",
 "The tests never compare a ciphertext or shared secret with an expected value and only use honest random keys and random messages.",
 ["src/kem.c", "src/noise.c", "src/frodo_macrify.c", "src/frodo_macrify_reference.c", "src/util.c"],
 [("crypto_kem_enc", "src/kem.c"), ("frodo_mul_add_sa_plus_e", "src/frodo_macrify*.c"), ("frodo_mul_add_sb_plus_e", "src/util.c"), ("frodo_key_encode", "src/util.c")],
 observe=["crypto_kem_enc outputs"])

prop("C03", "Decapsulation is exactly the specified function of secret key and ciphertext",
 "For every secret key byte string and every ciphertext byte string, whether or not they belong together or were honestly generated, decapsulation returns success and produces byte for byte the shared secret that the FrodoKEM specification defines for that pair, in the accepting and in the rejecting case. It draws no random bytes and holds for all six parameter sets at every optimisation level.",
 ["inputs", "configurations"], "all (secret key, ciphertext) string pairs, all six parameter sets, all shipped build options",
 "The tests decapsulate honest ciphertexts and 100 ciphertexts with one changed word per run and never compare the rejected secret with the specified value; malformed keys, extreme coefficients and borderline noise are never reached.",
 ["src/kem.c", "src/util.c", "src/frodo_macrify.c", "src/frodo_macrify_reference.c"],
 [("crypto_kem_dec", "src/kem.c"), ("frodo_mul_bs", "src/util.c"), ("frodo_key_decode", "src/util.c"), ("ct_verify / ct_select", "src/util.c")],
 observe=["crypto_kem_dec output"])

prop("C04", "Encapsulated secret is recovered whenever the noise is within tolerance",
 "An honestly produced ciphertext decapsulates to the encapsulated shared secret, for every key, every message and every honest noise: recovery must succeed whenever every coefficient of the accumulated error lies in [-q/2^(B+1), q/2^(B+1)), and a ciphertext whose accumulated error leaves that interval in some coefficient must not yield the encapsulated secret. Encoding followed by decoding is the identity on every message.",
 ["inputs", "configurations"], "all keys, all messages, all error values in every coefficient position, three parameter sets, all builds",
 "Honest noise is far inside the tolerance, so random testing never visits the decoding boundaries nor most (position, symbol) combinations.",
 ["src/util.c", "src/kem.c"],
 [("frodo_key_encode / frodo_key_decode", "src/util.c"), ("crypto_kem_enc / crypto_kem_dec", "src/kem.c")],
 observe=["shared secrets of both parties"])

prop("C05", "Any modified ciphertext is rejected implicitly with a secret pseudorandom key",
 "If a ciphertext differs in any way from the one that re-encrypting the decoded message would produce, decapsulation returns success and outputs the hash of the received ciphertext and the secret rejection value of the key, never the hash with the re-derived key, never an error or a constant. This holds for every position, width, number and combination of changed bits.",
 ["inputs", "configurations"], "all ciphertext modifications of all ciphertexts under all keys, all six parameter sets, all builds",
 "The tests change one word per iteration at a random position with a value equal to the position, so the first word, high bits, coordinated changes and changes that leave the decoded message intact are not covered, and they only check that the secrets differ.",
 ["src/kem.c", "src/util.c"],
 [("ct_verify", "src/util.c"), ("ct_select", "src/util.c"), ("crypto_kem_dec", "src/kem.c")],
 observe=["crypto_kem_dec output for modified ciphertexts"])

prop("C06", "All build options, compilers and optimisation levels interoperate byte for byte",
 "For the same parameter set, matrix generation and random bytes, every supported build (reference, generic fast and AVX2 fast; OpenSSL, AES-NI or standalone AES; gcc or clang; every architecture option of the makefile) produces identical public keys, secret keys, ciphertexts and shared secrets, so keys and ciphertexts made by one build work with any other. The matrix generation method is the only option that may change the output.",
 ["configurations", "inputs"], "all pairs of builds, all inputs",
 "Each build is only tested against itself; no test passes a key or ciphertext from one build to another.",
 ["Makefile", "src/config.h", "src/frodo_macrify.c", "src/frodo_macrify_reference.c", "src/aes/aes.c", "src/aes/aes_c.c", "src/aes/aes_ni.c", "src/sha3/fips202.c", "src/sha3/fips202x4.c"],
 [("USE_OPT_LEVEL / USE_OPENSSL / GENERATION_A selection", "Makefile, src/*.c"), ("frodo_mul_add_as_plus_e variants", "src/frodo_macrify*.c")],
 observe=["outputs of all builds on the same inputs"])

prop("C07", "The Python reference implementation computes the same scheme",
 "For each of the six variants the Python reference implementation produces, from the same random bytes, exactly the specified keys, ciphertexts and shared secrets, including rejected ciphertexts and borderline noise, so it interoperates with the C library. It refuses inputs of the wrong length and unknown variant names.",
 ["inputs", "configurations"], "all random strings, keys, ciphertexts, coefficient values, variant names",
 "The Python tests only check that the Python code agrees with itself on a few keys per variant.",
 ["python3/frodokem.py"],
 [("FrodoKEM class", "python3/frodokem.py")],
 observe=["kem_keygen / kem_encaps / kem_decaps results and component functions"])

prop("C08", "Every operation's result is independent of the history of earlier calls",
 "The result of key generation, encapsulation or decapsulation depends only on its arguments and the random bytes it draws: after any sequence of earlier successful or rejecting calls, with any other keys, same or different buffers, in the same process, it returns exactly what it returns as the first call of a fresh process.",
 ["histories", "inputs"], "all sequences of API calls with all arguments",
 "The tests run the same keygen-encaps-decaps order with fresh keys each time and never repeat an operation with expected values after a different history.",
 ["src/kem.c", "src/frodo_macrify.c", "src/aes/aes.c", "src/aes/aes_c.c", "src/sha3/fips202.c", "src/random/random.c"],
 [("no mutable static state carries information between calls", "src/**")],
 state=[dict(name="writable static storage of the library", meaning="anything that survives a call", where="src/random/random.c, src/aes/*.c")],
 observe=["results after enumerated call histories", "writable memory of the library"])

prop("C09", "Concurrent operations in different threads do not influence each other",
 "When several threads run key generation, encapsulation and decapsulation at the same time, with shared read-only keys and ciphertexts or with their own, each call returns exactly what it would return alone, under every interleaving, and no data race occurs inside the library. The random generator too may be used by several threads at once, each request being filled completely.",
 ["schedules", "configurations"], "all interleavings of two or three concurrent operations, all builds",
 "All tests are single-threaded.",
 ["src/kem.c", "src/aes/aes_c.c", "src/aes/aes.c", "src/frodo_macrify.c", "src/random/random.c"],
 [("all working data on the stack or per call", "src/**"), ("file descriptor handling of randombytes", "src/random/random.c")],
 observe=["results of every interleaving", "conflicting accesses to shared memory"])

prop("C10", "Random bytes are completely and freshly filled or failure is reported",
 "A request for any number of random bytes either returns success with every requested byte taken in order, once, from the system random source and not one byte outside the buffer written, or returns failure; success is never reported for a partially filled buffer. This holds for every way the system can answer (short reads, interrupted or failing reads and opens, end of file), for every request size up to the full range of the length argument, no descriptor is leaked, and processes that fork between requests are never given the same bytes.",
 ["fault_sequences", "inputs", "histories"], "all sequences of system call answers, all request sizes, all earlier requests",
 "The tests never see a short or failing read, never request more than a few dozen bytes and never look at the generator's output.",
 ["src/random/random.c"],
 [("randombytes read loop", "src/random/random.c")],
 state=[dict(name="lock", meaning="cached descriptor of the random source", where="src/random/random.c")],
 observe=["buffer, return value, system calls issued"])

prop("C11", "A failing random generator never yields a key or ciphertext",
 "If the random generator reports failure for any request made during key generation or encapsulation, the operation reports failure to its caller instead of returning success with keys, ciphertexts or secrets derived from missing randomness. After the generator recovers, later operations succeed and are correct.",
 ["fault_sequences", "histories"], "all failing requests in all operations, all builds",
 "The generator never fails in a test, and the return codes of the operations are not exercised.",
 ["src/kem.c", "src/random/random.c"],
 [("return value of randombytes", "src/kem.c")],
 observe=["return value of crypto_kem_keypair / crypto_kem_enc under injected generator failure"])

prop("C12", "A failing cryptographic backend call never results in success with wrong output",
 "If any call into the OpenSSL backend fails (context allocation, key setup, encryption), the operation does not report success with output that differs from the specified one: it reports failure or terminates the process. When nothing fails, every backend object allocated during an operation is released before it returns.",
 ["fault_sequences", "configurations"], "every backend call made by every operation failing, every build using OpenSSL",
 "Backend calls never fail in the tests and leaks of backend objects are not looked for in the OpenSSL builds' inner loops.",
 ["src/aes/aes.c", "src/frodo_macrify.c", "src/frodo_macrify_reference.c", "src/sha3/fips202.c"],
 [("handleErrors on every EVP return value", "src/aes/aes.c, src/frodo_macrify*.c"), ("EVP_CIPHER_CTX_free / AES128_free_schedule", "src/aes/aes.c")],
 observe=["return value/termination under each injected failure", "allocation balance"])

prop("C13", "Buffers: exact sizes, any alignment, read-only inputs, full overwrite of outputs",
 "Each operation accesses its buffers only within the sizes the public header announces, works for buffers at any alignment without undefined behaviour, never modifies its inputs, writes every byte of its outputs, and its results do not depend on the previous contents of output buffers. The sizes in the public headers equal the specified ones.",
 ["inputs", "configurations"], "all alignments, all prior contents, all inputs, all builds",
 "The tests use a single heap or stack layout per build; alignment, prior contents and input preservation are never varied, and overreads inside one allocation are invisible.",
 ["src/kem.c", "src/api_frodo640.h", "src/api_frodo976.h", "src/api_frodo1344.h", "src/util.c"],
 [("size constants", "src/api_frodo*.h"), ("pointer arithmetic into pk, sk, ct", "src/kem.c")],
 observe=["guard pages, canaries, input copies around every buffer"])

prop("C14", "Secret intermediate values are erased before an operation returns",
 "When key generation, encapsulation or decapsulation returns, none of the secret values it handled internally (secret matrices S, S', error matrices E, E', E'', raw noise seeds, message, re-derived key material, rejection value copy, noisy product) is left in its stack frames, in static storage, or in heap memory it released; only the output buffers hold what they must. This holds on accepting and on rejecting decapsulation. (Dead scratch inside the hash and cipher primitives' own frames is not counted.)",
 ["inputs", "configurations"], "all inputs, accept and reject paths, all builds and optimisation levels",
 "No test inspects memory after an operation.",
 ["src/kem.c", "src/util.c", "src/noise.c", "src/aes/aes.c", "src/sha3/fips202.c"],
 [("clear_bytes before return", "src/kem.c, src/util.c")],
 observe=["stack, static and released heap memory after return"])

prop("C15", "Control flow and memory addresses do not depend on secrets",
 "For fixed public data (parameter set, public key, ciphertext), the sequence of executed branches and of accessed memory addresses in key generation, encapsulation and decapsulation is the same for all secret keys, messages, noise values and for accepted and rejected ciphertexts alike.",
 ["inputs", "configurations"], "all secret values for fixed public values, all builds",
 "Functional tests cannot see timing; the valgrind run only covers branches on undefined bytes on a handful of keys and only for data it marks, not the rejection outcome against chosen ciphertexts or noise extremes.",
 ["src/kem.c", "src/util.c", "src/noise.c", "src/frodo_macrify.c", "src/frodo_macrify_reference.c"],
 [("ct_verify / ct_select", "src/util.c"), ("branch-free frodo_sample_n", "src/noise.c")],
 observe=["instrumented branch and address traces"])

prop("C16", "SHAKE128, SHAKE256 and four-way SHAKE are exact for all lengths",
 "SHAKE128, SHAKE256 and the four-way parallel SHAKE128 compute exactly the FIPS 202 function for every message, every input length and every output length, also when absorbing and block-wise squeezing are used separately, at any buffer alignment, without writing outside the output; the four lanes are independent.",
 ["inputs", "configurations"], "all input lengths and contents, all output lengths, all squeeze splits, all lanes",
 "The library uses only a handful of fixed input and output lengths, and no test compares any hash value with a known answer.",
 ["src/sha3/fips202.c", "src/sha3/fips202x4.c", "src/sha3/keccak4x"],
 [("keccak_absorb / keccak_squeezeblocks", "src/sha3/fips202.c"), ("shake128_4x", "src/sha3/fips202x4.c")],
 observe=["hash outputs against an independent Keccak"])

prop("C17", "AES-128/256 are exact for every key, block, count and backend",
 "Every shipped AES backend (portable C and AES-NI) computes exactly FIPS-197 AES-128 and AES-256 encryption in ECB mode for every key, every plaintext block and every number of blocks, with input and output buffers distinct or identical, at any alignment of key and data, touching only the requested blocks; releasing a key schedule wipes it.",
 ["inputs", "configurations"], "all keys, blocks, block counts, backends",
 "The library only encrypts fixed-shape counter blocks; no test has an AES known answer, and AES-256 is never called.",
 ["src/aes/aes.c", "src/aes/aes_c.c", "src/aes/aes_ni.c", "src/aes/aes.h"],
 [("AES128_ECB_enc_sch etc.", "src/aes/aes.c")],
 observe=["ciphertext blocks against an independent AES"])

prop("C18", "Noise sampling maps every random word to the specified table value",
 "Each 16-bit random word is mapped to the noise value that the inverse-CDF table of the parameter set in the specification assigns to it: magnitude from the upper 15 bits, sign from the lowest bit, stored modulo 2^16; every position of a sampled array is treated alike, so that secret and error matrices have exactly the specified distribution and support.",
 ["inputs", "configurations"], "all 65536 random words at every position, three parameter sets",
 "A slightly wrong table or comparison shifts the distribution by 1/32768 and both parties still agree; no test looks at sampled values.",
 ["src/noise.c", "src/frodo640.c", "src/frodo976.c", "src/frodo1344.c"],
 [("CDF_TABLE", "src/frodo*.c"), ("frodo_sample_n", "src/noise.c")],
 observe=["S in the secret key; E recomputed from the public key"])

prop("C19", "Matrix packing is a bijection and the wire format is the specified one",
 "Packing a matrix of D-bit coefficients into bytes and unpacking it again returns the same matrix for all contents, unpacking every byte string and packing it again returns the same bytes, bits appear on the wire most significant first in the specified order, and bits above D in the input do not leak into neighbouring coefficients.",
 ["inputs", "configurations"], "all coefficient values at all positions for D = 15 and 16, all byte strings",
 "Round trips of random matrices inside one build cannot see a different but self-consistent wire format, and high bits beyond D rarely matter.",
 ["src/util.c", "src/kem.c"],
 [("frodo_pack / frodo_unpack", "src/util.c")],
 observe=["public key and ciphertext bytes; packed arrays"])

prop("C20", "Matrix expansion and products are exact modulo q for every seed and matrix",
 "The public matrix derived from a 16-byte seed is exactly the specified one for every seed, in every build, and the products A*S+E, S'*A+E', S'*B+E'' and B'*S are exact modulo q for all matrices the operations can be given, including extreme coefficients.",
 ["inputs", "configurations"], "all seeds, all coefficient values and positions, all builds",
 "Both parties use the same build, so a matrix entry or product term that is wrong in the same way on both sides still gives matching secrets; extreme coefficients never occur in random tests.",
 ["src/frodo_macrify.c", "src/frodo_macrify_reference.c", "src/util.c"],
 [("frodo_mul_add_as_plus_e / frodo_mul_add_sa_plus_e", "src/frodo_macrify*.c"), ("frodo_mul_add_sb_plus_e / frodo_mul_bs", "src/util.c")],
 observe=["products for basis matrices; keys and ciphertexts"])

prop("C21", "Big-endian machines produce and accept the same bytes as little-endian ones",
 "On a big-endian machine the portable builds produce byte for byte the same public keys, secret keys, ciphertexts and shared secrets from the same random bytes as on a little-endian machine, and accept and reject the same ciphertexts, so keys and ciphertexts can be exchanged between them.",
 ["configurations", "inputs"], "all inputs, portable builds, big-endian byte order",
 "The tests run on a little-endian machine only.",
 ["src/config.h", "src/kem.c", "src/util.c", "src/frodo_macrify.c", "src/frodo_macrify_reference.c", "src/sha3/fips202.c"],
 [("LE_TO_UINT16 / UINT16_TO_LE", "src/config.h and callers")],
 observe=["outputs of the library compiled with big-endian memory semantics"])

prop("C22", "Python results do not depend on history, other objects or interruptions",
 "An operation of a Python FrodoKEM object returns exactly the specified result for its arguments, its own variant and the random bytes it draws, whatever happened before or happens in between: any sequence of earlier operations on the same object and on other objects of the same or other variants, refused inputs, failing random sources, printing of intermediate values switched on, and other operations (in other threads) running in the middle of it on the same object.",
 ["histories", "schedules", "configurations"], "all sequences of operations on several objects, all points of interruption",
 "The Python tests run key generation, encapsulation and decapsulation once per fresh object and never reuse, mix or interrupt objects.",
 ["python3/frodokem.py"],
 [("no state is kept on the object, the class or the module by the operations", "python3/frodokem.py")],
 state=[dict(name="FrodoKEM instance attributes", meaning="parameters set by the constructor only", where="python3/frodokem.py")],
 observe=["results after enumerated histories and interruptions"])

prop("C23", "Python draws fresh system randomness; its KAT program prints the NIST values",
 "The built-in random source of a Python FrodoKEM object returns exactly the requested number of bytes for every size, each position uniformly distributed and taken afresh from the operating system's generator (no bytes repeated between requests or objects, no seeded generator), and key generation and encapsulation draw exactly the specified amounts from it. The known-answer program feeds every variant exactly the bytes of the first NIST known-answer entry and prints the specified keys, ciphertext and secret, however many runs precede it.",
 ["inputs", "histories"], "all request sizes, all system random streams, all sequences of known-answer runs",
 "No test looks at the random source's output or compares the known-answer output with anything.",
 ["python3/frodokem.py", "python3/nist_kat.py"],
 [("randombytes", "python3/frodokem.py"), ("NISTKAT", "python3/nist_kat.py")],
 observe=["output of randombytes under scripted system randomness; printed known answers"])

with open("/verif/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
