import json
A=["crypto_aead/*/*/isap.c","crypto_aead/*/*/crypto_aead.c","crypto_aead/isapxv20/ref/*.c","crypto_aead/isapxv20/ref/lib/*/*"]
AH=A+["crypto_aead_hash/isapa128av20/*/*"]
P=[]
def p(id,title,st,over,text,why,files,mech,state=None,obs=None,hook=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    d["anchors"]["observe_at"]=obs or ["crypto_aead_encrypt / crypto_aead_decrypt API boundary"]
    d["anchors"]["hook_needed"]=hook
    P.append(d)
p("C01","Encryption computes exactly ISAP v2.0 for every input",
 "For every key, nonce, associated data and plaintext of any length, every implementation's authenticated encryption returns 0, reports a ciphertext length of plaintext length + 16, and writes exactly the ciphertext and tag that the ISAP v2.0 specification defines for its algorithm (ISAP-A-128a, ISAP-A-128, ISAP-K-128a or ISAP-K-128). This holds for every architecture variant (portable, AVX-512, ARM) and for all four configurations of the generic reference.",
 ["inputs","configurations"],
 "all (key, nonce, ad, m) including long, structured and value-dependent inputs; all implementation directories, four parameter sets of the generic reference, x86 / AVX-512 / ARM targets",
 "The KATs use one key, one nonce, counting-byte data and lengths 0..32; carries, lane boundaries above 32 bytes, multi-block loops, other keys/nonces/data values and AVX-512 are never executed.",
 A,[("isap_rk / isap_mac / isap_enc","crypto_aead/*/*/isap.c"),("round functions","crypto_aead/*/*/asconp.h, KeccakP-400-*"),("generic reference","crypto_aead/isapxv20/ref/lib")])
p("C02","Decryption of every genuine ciphertext succeeds and restores the plaintext",
 "For every key, nonce, associated data and plaintext, decrypting the specification-conforming ciphertext with the same key, nonce and associated data returns 0, reports the plaintext length, and writes exactly the original plaintext. This holds whichever implementation of the same algorithm produced the ciphertext, so implementations interoperate in every pairing.",
 ["inputs","configurations"],
 "all (key, nonce, ad, m), all pairs producer implementation x consumer implementation of one algorithm",
 "The KAT generator decrypts only its own output, for one key/nonce and lengths up to 32; a decrypt-only fault on other values, lengths or foreign ciphertexts is never executed.",
 A,[("crypto_aead_decrypt","crypto_aead/*/*/crypto_aead.c"),("isap_enc","crypto_aead/*/*/isap.c")])
p("C03","Every modified or mismatched ciphertext is rejected",
 "If the ciphertext body, the tag, the associated data, the nonce, the key or any of the lengths differs in any way from what encryption produced, decryption returns a non-zero failure code. In particular every one of the 128 tag bits takes part in the comparison, differences cannot cancel out, and moving bytes between associated data and ciphertext, truncating or extending is detected.",
 ["inputs"],
 "all genuine tuples and all their alterations (single/multi-bit, byte swaps, cancelling differences, truncation, extension, boundary shifts, substitution of key/nonce/ad)",
 "No existing test ever submits an altered ciphertext: a decrypt that always returns 0 passes the whole suite.",
 A,[("tag comparison","crypto_aead/*/*/crypto_aead.c"),("pvp","crypto_aead/isapa128av20/*_stp/isap.c"),("isap_mac domain separation","crypto_aead/*/*/isap.c")])
p("C04","Nothing is decrypted or released before the tag has been verified",
 "When decryption rejects, it has written nothing at all through the plaintext pointer: the caller's plaintext buffer is byte-for-byte what it was, even transiently. Message decryption starts only after verification has succeeded, so the work done on a rejected message does not include the per-block decryption work.",
 ["inputs"],
 "all rejected inputs (every kind of forgery and every message length), observed during the call and after it",
 "No test exercises rejection; nothing inspects the plaintext buffer on failure or the order verify-then-decrypt, which is the documented protection against DPA on plaintext recovery.",
 A,[("verify before isap_enc","crypto_aead/*/*/crypto_aead.c crypto_aead_decrypt")],obs=["plaintext buffer mapped inaccessible during the call","count of executed basic blocks"])
p("C05","Ciphertexts shorter than a tag are rejected safely",
 "Decrypting an input whose total length is less than 16 bytes returns a failure code without reading outside the given buffers, writing to the plaintext buffer, hanging or crashing, whatever the associated data, key, nonce and buffer contents.",
 ["inputs"],
 "ciphertext lengths 0..15 with arbitrary contents, any associated data length",
 "The generator only decrypts outputs of encryption, which are at least 16 bytes long; a length underflow is never executed.",
 A,[("length computation","crypto_aead/*/*/crypto_aead.c crypto_aead_decrypt")])
p("C06","All memory accesses stay inside the caller's buffers",
 "Encryption, decryption and hashing read only within the given key (16), nonce (16), associated data, plaintext, ciphertext and message buffers, and write only the ciphertext (plaintext length + 16), the plaintext (ciphertext length - 16), the 32-byte digest and the length output. No access before or after any of them, or outside an internal object, happens for any lengths.",
 ["inputs","configurations"],
 "all length combinations, both ends of every buffer placed against inaccessible memory, all implementations on x86 and ARM",
 "The tests use oversized stack buffers, so overreads and overwrites go unnoticed, and only lengths up to 32.",
 AH,[("block loops and tail handling","crypto_aead/*/*/isap.c")],obs=["guard pages","AddressSanitizer red zones"])
p("C07","No undefined behaviour and no use of uninitialised memory",
 "No call of the public functions with valid arguments executes undefined behaviour of the C language (shift out of range, signed overflow, misaligned or wrongly typed access, null-pointer access, bad function type, invalid object size) or lets a result, a branch or a memory address depend on uninitialised memory.",
 ["inputs","configurations"],
 "all lengths, contents and buffer alignments, all implementations that a sanitizer can instrument",
 "The tests are built without sanitizers, at one optimisation level, with well aligned buffers.",
 AH,[("lane loads/stores, rotations, shifts","crypto_aead/*/*/isap.c, asconp.h, lib/*")],obs=["UndefinedBehaviorSanitizer","MemorySanitizer","valgrind memcheck"])
p("C08","Calls are pure: no history dependence and inputs left untouched",
 "The result of every call depends only on the arguments of that call: no sequence of earlier encryptions, decryptions (accepted or rejected) or hashes, of any lengths and however many, no leftover contents of stack or output buffers, and nothing the system could be asked (environment variables, time, random numbers, process ids) changes it. Key, nonce, associated data, plaintext, ciphertext and message inputs are never modified, even transiently, and inputs may share memory with one another.",
 ["histories"],
 "all sequences of calls of all public functions in one process, any initial contents of output buffers and stack",
 "The KAT program makes one fixed sequence of calls with one key; repeated/mixed histories, rejected calls and dirty buffers are not exercised.",
 AH,[("no static mutable state","crypto_aead/*/*/isap.c")],state=[("file-scope variables","must not carry state between calls","crypto_aead/isapa128av20/*_stp/isap.c")],obs=["API boundary over recorded call histories","read-only mapped inputs"])
p("C09","Concurrent and re-entrant calls do not interfere",
 "Any number of threads may call the public functions at the same time on disjoint output buffers: every call returns the same result as if it ran alone, under every interleaving, and no data race occurs.",
 ["schedules"],
 "all interleavings of any number of concurrent calls of the public functions",
 "All tests are single-threaded.",
 AH,[("no shared mutable state","crypto_aead/*/*/isap.c")],state=[("file-scope variables","shared by all threads","crypto_aead/isapa128av20/*_stp/isap.c")],obs=["ThreadSanitizer","controlled pre-emption at every basic block, results compared with a sequential run"])
p("C10","Control flow and memory addresses do not depend on secrets",
 "For fixed lengths, nonce and associated data, the sequence of executed instructions and accessed addresses in encryption does not depend on the key or the plaintext, and in decryption it depends on the key, the message contents and the expected tag only through the final accept/reject decision: in particular tag verification takes the same path wherever and however the tags differ.",
 ["inputs","configurations"],
 "all pairs of secrets (keys, plaintexts, expected tags) for the same public lengths; all implementations",
 "Tests compare outputs only; a secret-dependent branch, table lookup or early-exit comparison leaves every output unchanged.",
 A,[("constant-time tag comparison","crypto_aead/*/*/crypto_aead.c"),("bit-sliced permutations","crypto_aead/*/*/asconp.h, KeccakP-400-*")],obs=["basic-block and load/store address traces","valgrind memcheck with secrets marked undefined","qemu instruction traces for ARM"])
p("C11","Hashing computes exactly Ascon-Hash for every message",
 "For every message of any length, the hash function of every implementation that offers one returns 0 and writes exactly the 32-byte Ascon-Hash digest the Ascon v1.2 specification defines.",
 ["inputs","configurations"],
 "all messages, all hash-capable implementations on x86 and ARM",
 "The KAT hashes counting bytes of lengths 0..1024 only: other contents, longer messages and other bit patterns are not executed.",
 ["crypto_aead_hash/isapa128av20/*/*","crypto_aead/isapa128av20/*/isap.c"],[("crypto_hash","crypto_aead/isapa128av20/*/isap.c"),("Ascon permutation","crypto_aead/isapa128av20/*/asconp.h")],obs=["crypto_hash API boundary"])
p("C12","Results do not depend on buffer placement or alignment",
 "Every public function works and gives the same result for every alignment of every buffer, for zero-length inputs given as null pointers, for buffers that lie directly next to each other in any order, and for inputs that share memory with each other; byte-aligned buffers never cause a misaligned access fault. (Outputs overlapping inputs are not included.)",
 ["inputs"],
 "all address residues of every buffer (key, nonce, ad, message, ciphertext, digest, length output excluded), null for empty inputs, all orders of adjacent buffers, inputs sharing memory",
 "The tests use fixed, well-aligned stack buffers.",
 AH,[("lane loads/stores through casts","crypto_aead/*/*/isap.c")],obs=["API boundary","UndefinedBehaviorSanitizer alignment checks on x86 and ARM builds"])
p("C13","Results do not depend on compiler, optimisation level or feature switches",
 "Every implementation gives the specified results whichever supported compiler (gcc, clang), optimisation level, inlining, sanitizer and hash-enabling switch it is built with, and builds compute identical results on the same inputs.",
 ["configurations","inputs"],
 "all implementations x compilers x -O0/-O1/-O2/-O3/-Os/-march=native/LTO x hash on/off",
 "The tests build once with gcc -O3; type-punning, inline-assembly constraints and unrolling only break under other optimisers.",
 AH,[("inline assembly constraints","crypto_aead/*/*arm*/asconp.h"),("lane type punning","crypto_aead/*/*/isap.c")])
p("C14","Lengths are handled in full 64-bit width",
 "Associated data, plaintext, ciphertext and hash inputs of 4 GiB and more are processed to their full length: no length or index is truncated to 32 bits or fewer, every byte of the input influences the result, and the reported output lengths are exact.",
 ["inputs"],
 "all lengths up to what the address space of the target holds, in particular around 2^16, 2^31, 2^32 and their sums with small values",
 "The tests use inputs of at most 1024 bytes.",
 AH,[("loop counters and length parameters","crypto_aead/*/*/isap.c, isap.h")],obs=["inaccessible page placed after a prefix of a nominally huge input"])
p("C15","Resource use is bounded: constant stack, no heap, no system calls",
 "Every call uses a stack space bounded by a constant independent of input lengths and contents, allocates no heap memory, makes no system call and terminates with work that grows linearly with the input lengths.",
 ["inputs"],
 "all inputs and lengths",
 "The tests measure no resources.",
 AH,[("in-place streaming over caller buffers","crypto_aead/*/*/isap.c")],obs=["painted stack high-water mark","interposed allocator","system-call trap","instruction counts"])
p("C16","Leakage-resilient tag verification never compares the tags themselves",
 "In the implementations with leakage-resilient tag verification, the received tag is accepted or rejected by comparing values obtained by applying the permutation to the expected and the received tag separately: the difference between the expected and received tag is never computed, and a rejected tag gives the verifier's comparison no value correlated with single tag bits.",
 ["inputs"],
 "all rejected ciphertexts in the *_stp variants",
 "Whether the comparison works on tags or on permuted values does not change any output, so no test of outputs can see it.",
 ["crypto_aead/isapa128av20/bi_32_stp/*","crypto_aead/isapa128av20/opt_32_stp/*","crypto_aead/isapa128av20/bi_32_armv6m_stp/*","docs/documentation.pdf"],[("pvp","crypto_aead/isapa128av20/*_stp/isap.c")],obs=["register values single-stepped through a rejecting decryption"])
p("C17","The declared interface is the real one",
 "The sizes each implementation's api.h declares are the true ones: key, nonce, tag (and digest) have exactly CRYPTO_KEYBYTES, CRYPTO_NPUBBYTES, CRYPTO_ABYTES (CRYPTO_BYTES) bytes, a ciphertext is exactly CRYPTO_ABYTES longer than its plaintext, every declared key, nonce and tag byte influences the result, nothing beyond them does, the secret-message-number argument (CRYPTO_NSECBYTES 0) is never read or written whatever pointer is given, and a length is reported through exactly eight bytes.",
 ["inputs","configurations"],
 "all implementations, all lengths and contents, every byte of every declared field, any pointer as secret message number",
 "The KAT program passes NULL as secret message number, uses large buffers around everything and never varies key or nonce; a declared size that is wrong in either direction, or an ignored key byte, is invisible at one key and nonce.",
 AH,[("CRYPTO_*BYTES","crypto_aead/*/*/api.h"),("crypto_aead_encrypt / crypto_aead_decrypt","crypto_aead/*/*/crypto_aead.c")],obs=["API boundary with buffers of the declared sizes between inaccessible pages"])
p("C18","Specified results on every little-endian processor family",
 "The portable implementations compute exactly the specified encryption, decryption, rejection and hashing on 32-bit and 64-bit little-endian processors alike, whatever the width of long and pointers, the signedness of char, the processor's alignment rules and the optional features of the processor model; the ARM implementations do so on every core that accepts their instructions, from armv6 to armv7 and M-profile code.",
 ["configurations","inputs"],
 "nine processor families (i386, aarch64, aarch64 without unaligned access, riscv32, riscv64, mipsel, mips64el, ppc64le, loongarch64) and ten ARM core/compiler pairs, all lengths and contents",
 "The tests run portable code on x86-64 only and ARM code on one core each; integer widths, promotions and alignment behave differently elsewhere.",
 AH,[("lane and length types","crypto_aead/*/*/isap.c"),("word arithmetic","crypto_aead/*/*/asconp.h"),("Keccak lanes","crypto_aead/isapk128av20/*/*")],obs=["API boundary of cross-built code under qemu user emulation"])
p("C19","Calls keep the platform's calling convention",
 "Every public function returns with all callee-saved registers, the stack pointer, the caller's stack beyond the arguments, the floating-point control words, the x87/MMX register stack and the processor's mode flags as the platform's calling convention demands, and its result does not depend on what the caller left in scratch registers, unused argument positions, arithmetic flags or floating-point modes. On ARM this holds for callers in ARM and in Thumb state alike.",
 ["inputs","configurations"],
 "all calls on x86-64, AVX-512 and ARM builds, with arbitrary contents of all registers and modes, several compilers and optimisation levels",
 "A register that inline or separate assembly clobbers without saying so does damage only if the caller happens to keep something in it; the KAT program, one build of it, mostly does not.",
 AH,[("inline assembly clobbers","crypto_aead/*/*arm*/asconp.h"),("assembly permutation","crypto_aead/isapk*/*arm*/*.s"),("vector code","crypto_aead/*/avx*/*")],obs=["registers, stack and control words before and after each call"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(d)+"\n" for d in P))
