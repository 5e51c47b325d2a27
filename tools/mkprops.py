#!/usr/bin/env python3
"""Writes properties.jsonl (the one place the property texts live)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=False):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":qtext},why_tests_cant=why,anchors=a))
CORE="tiny_sphincs.c"
p("C01","Signature bytes do not depend on how the caller slices its requests",
 "However a caller splits the production of a signature into requests of any sizes (including 0, 1, larger than a hash and larger than everything that is left), each request returns exactly min(requested, remaining) bytes and the concatenation of everything returned is the same byte string. The total is exactly the advertised signature size for the parameter set, and every later request returns 0 and writes nothing.",
 ["inputs","histories"],"all parameter sets, all messages and keys, every sequence of request sizes 0..2^32-1 and every position inside the signature",
 "The tests read signatures in one or two fixed chunk patterns for a few keys and messages; the number of ways to slice a signature is astronomically large and a defect can sit at one particular offset/size combination.",
 [CORE,"size.c"],[("streaming copy loop","tiny_sphincs.c: ts_sign, while(m) loop"),("block generators and control automaton","tiny_sphincs.c: ts_sign switch(state)"),("advertised size","size.c: ts_size_signature")],
 [("stream position","which hash-sized block of the signature comes next and how much of the current block was handed out")],["bytes written to the caller's buffer","return value"])
p("C02","The verification verdict does not depend on how the signature is fed in",
 "Feeding the same signature bytes to the verifier in any sequence of chunks (including empty ones and chunks that end anywhere inside or after the signature) yields the same final verdict as feeding them in one piece. A call that has not completed a rejected signature reports 'good so far'.",
 ["inputs","histories"],"all parameter sets, all messages/keys/signature bytes, every sequence of chunk sizes",
 "Tests use a Fibonacci chunking and whole-buffer calls on few signatures; they cannot enumerate chunk boundaries relative to every state of the verifier.",
 ["verify.c"],[("input buffering","verify.c: ts_update_verify, for(;;) loop"),("final verdict","verify.c: ts_verify")],
 [("pending bytes","how many bytes of the current block were received")],["verdict of the final verify call","return value of each update"])
p("C03","Only an exact-length signature that recomputes the public root is accepted",
 "The verifier reports success only if the number of signature bytes fed in total is exactly the advertised signature size and every byte of the root it recomputed from message, signature and public key equals the root in the public key. Once it has rejected, no further input makes it accept, and input after an acceptable signature turns the verdict into rejection.",
 ["inputs","histories"],"all parameter sets, all messages, public keys, signature byte strings of any length, all call sequences",
 "The tests flip bit 0 of every fifth byte and try a few wrong lengths for some parameter sets; acceptance must be impossible for every other forgery shape, e.g. differences in single bits of the last root byte, or bytes after the end delivered in a later call.",
 ["verify.c"],[("root comparison and end-of-signature test","verify.c: ts_update_verify, top of the hypertree"),("verdict","verify.c: ts_verify"),("phase guard","verify.c: ts_update_verify entry check")],
 [("verdict state","undecided / success / fail")],["return value of the final verify call"])
p("C04","Calls made in the wrong phase do nothing and never report success",
 "Asking for signature bytes from a context that is not in a signing phase (including one that was zeroed and never initialised) returns 0 and changes neither the context nor the output buffer. Feeding signature bytes to a context that is not verifying, or that already failed, returns 0 and changes nothing, and asking for the verdict in any phase other than 'completed and matched' returns 0.",
 ["histories","inputs"],"every phase value a context can hold, every data content of the context, every call order of the public functions",
 "Tests only call functions in the intended order (plus one or two misuse cases); the phase space times the call orders is not sampled.",
 [CORE,"verify.c"],[("signing phase guard","tiny_sphincs.c: ts_sign entry"),("verification phase guard","verify.c: ts_update_verify entry"),("verdict","verify.c: ts_verify")],
 [("phase","the context's position in the signing or verification process")],["return values","context and output buffers"])
p("C05","No out-of-bounds access, uninitialised use or undefined arithmetic",
 "For every supported tuning of the library and every parameter set that tuning offers, key generation, signing and verification access memory only inside the caller's documented buffers, the context and live local storage, never compute from uninitialised bytes, and perform no undefined shift, division or signed overflow. Byte buffers of the caller need no alignment. This holds for every message length, chunk size, signature content and random source behaviour.",
 ["inputs","configurations"],"all tune settings x offered parameter sets x all inputs",
 "Tests run five tune settings without sanitizers on benign inputs; array sizes depend on tune settings that are never built (L3-only, L1-only, no-S, single hash family).",
 [CORE,"verify.c","key_gen.c","sha256.c","sha512.c","fips202.c","tiny_sphincs.h","tune.h"],[("array sizing","tiny_sphincs.h: TS_MAX_* macros and struct ts_context"),("subtree stack","tiny_sphincs.c: ts_merkle_path"),("digit array","tiny_sphincs.c: compute_wots_digits")],
 None,["every load, store, memcpy, memset of the library"])
p("C06","Results never depend on what the context memory held before",
 "Starting a signing or a verification operation on a context fully determines everything that follows: outputs, return values and memory accesses are the same whatever bytes the context held before (garbage, an abandoned signing, a failed verification). Key generation likewise does not depend on prior stack contents.",
 ["histories","inputs"],"all previous contents of the context and of the stack, all inputs, all parameter sets",
 "Tests start from a handful of context contents (mostly zeroed or the previous test's); reliance on a stale field shows only for particular earlier histories.",
 [CORE,"verify.c","key_gen.c"],[("signing start","tiny_sphincs.c: ts_init_sign"),("verification start","verify.c: ts_init_verify and first block in ts_update_verify"),("key generation context","key_gen.c: ts_gen_key")],
 None,["signature bytes","verdicts"])
p("C07","The library keeps no hidden state and uses no heap or recursion",
 "All mutable state lives in the caller-supplied context, the caller's buffers and bounded local variables: the library defines no writable global or static data, never allocates from the heap, uses no variable-length stack allocation and no recursion, and calls nothing outside itself except pure memory primitives and the caller's random source. Hence operations on distinct contexts are independent and may be interleaved or run concurrently.",
 ["schedules","configurations","histories"],"all interleavings of operations on distinct contexts, all tune settings",
 "No test interleaves two contexts or runs threads, and absence of allocation or recursion is not observable by output comparison.",
 [CORE,"verify.c","key_gen.c","fips202.c","sha256.c","sha512.c"],[("global data","all library translation units"),("call graph","all library translation units, function pointers in the parameter tables")],
 None,["globals, call graph and allocation sites of the linked library"])
p("C08","Caller buffers: inputs are never written, outputs are written exactly",
 "Messages, public keys, private keys given for signing and fed signature bytes are never modified. Key generation writes exactly the advertised private-key and (if requested) public-key sizes, a signing request writes exactly the number of bytes it reports, and after signing has been started the message is not touched again, while verification does not touch the message after the first hash-sized block was consumed.",
 ["inputs","histories"],"all parameter sets, all inputs, all request sizes",
 "Tests hand in buffers with slack and never compare inputs afterwards; message lifetime is not exercised.",
 [CORE,"verify.c","key_gen.c"],[("message use","tiny_sphincs.c: ts_init_sign; verify.c: first block"),("key output","key_gen.c: ts_gen_key")],
 None,["stores into caller memory; loads of the message"])
p("C09","Secret key material only leaves through the specified hashes",
 "The two secret seeds of a private key influence signatures, public keys and the context only through the keyed-hash constructions of the scheme: no seed byte, nor any value computed from it other than by hashing, is ever placed in an output or left in the context in clear (the working storage inside a hash context while and after it processes a block is part of the hashing). Verification reads nothing outside the advertised public key size, so it works on, and can leak nothing beyond, a bare public key.",
 ["inputs"],"all keys, messages, parameter sets and positions in the signature",
 "Output comparison with vectors cannot show absence of residual copies nor of reads before the public key.",
 [CORE,"verify.c","key_gen.c","shake256_hash.c","sha256_hash.c","sha256_L1_hash.c","sha512_hash.c"],[("seed access","internal.h: CONVERT_PUBLIC_KEY_TO_* macros"),("PRF and PRF_msg","*_hash.c")],
 None,["bytes written to outputs and context; reads relative to the public key"])
p("C10","Random source protocol",
 "Key generation with no random source, no output buffer or no parameter set fails without writing anything; a random source that reports failure makes key generation fail, and otherwise the source is asked exactly once, for exactly the three seeds, and key generation succeeds whatever nonzero value it returns. Signing asks the source at most once, for exactly one hash length, and with no source or a failed one the signature is the deterministic one, independent of anything the source wrote.",
 ["fault_sequences","inputs"],"every return value and every (partial) write behaviour of the random source, all parameter sets",
 "Tests use a source that always returns 1 or none at all; failing sources and partially filled buffers are never exercised.",
 [CORE,"key_gen.c"],[("key generation randomness","key_gen.c: ts_gen_key"),("signing randomness","tiny_sphincs.c: ts_init_sign")],
 None,["calls made to the random source, return value of key generation, signature bytes"])
p("C11","Control flow and addresses do not depend on secrets",
 "No branch, loop bound, memory address or length evaluated during key generation, signing or hashing depends on secret seed bytes, on the random input of a keyed hash, or on secret chain/leaf values that the signature does not reveal. Within the hash primitives no branch or address depends on the data being hashed.",
 ["inputs"],"all keys, messages and parameter sets, every execution path",
 "Timing independence is a statement over pairs of runs with different secrets; functional tests never compare paths.",
 [CORE,"fips202.c","sha256.c","sha512.c","sha256_L1_hash.c","sha512_hash.c"],[("branches in the signer","tiny_sphincs.c"),("branches in the primitives","sha256.c, sha512.c, fips202.c")],
 None,["conditions and addresses in the compiler's intermediate representation"])
p("C12","Produced signatures are exactly the SPHINCS+ (simple) signatures",
 "For every message, private key and randomiser, the bytes produced are exactly those the SPHINCS+ submission (simple variants) defines: R, then every FORS secret value and authentication path, then every WOTS+ chain value and Merkle path of the hypertree, every one computed with the specified tweakable hash input and the specified, fully set hash address.",
 ["inputs"],"all messages (any length), all private keys, all randomisers, all parameter sets",
 "The tests compare a single message and key per parameter set; tree indices, leaf positions, digit values and address fields take values no vector exercises.",
 [CORE,"shake256_hash.c","shake256_simple.c","sha256_hash.c","sha2_simple.c","sha256_L1_hash_simple.c","sha512_L35_hash_simple.c"],[("hash address setters","tiny_sphincs.c: set_*_adr"),("authentication path generation","tiny_sphincs.c: ts_merkle_path"),("chains","tiny_sphincs.c: generate_next_wots_hash, ts_wots_leaf")],
 None,["signature bytes"])
p("C13","The verifier recomputes exactly the SPHINCS+ root",
 "For every message, public key and signature byte string of the right size, the root that decides acceptance is the one SPHINCS+ (simple variants) defines: FORS roots from revealed values and paths, compressed, then each layer's WOTS+ key completed, compressed and hashed up its path with the specified addresses. A signature is accepted whenever that root equals the public root.",
 ["inputs"],"all messages, public keys and signature byte strings, all parameter sets",
 "Verification vectors exercise one path through the trees per parameter set; each left/right decision and digit value combination changes the inputs hashed.",
 ["verify.c",CORE],[("authentication path step","verify.c: next_auth_path"),("chain completion","verify.c: wots state"),("FORS leaf","verify.c: fors leaf state")],
 None,["verdict"])
p("C14","Key generation computes the specified key pair",
 "A generated private key consists of the three random seeds followed by the SPHINCS+ root of the top-layer tree defined by those seeds, and the public key returned (if asked for) is the third seed followed by the same root. Asking for the public key or not does not change the private key.",
 ["inputs"],"all random inputs, all parameter sets",
 "One fixed seed triple per parameter set is compared with a vector; the seeds are 3n bytes of input.",
 ["key_gen.c",CORE],[("root generation","key_gen.c: ts_gen_key"),("top tree","tiny_sphincs.c: ts_merkle_path, ts_wots_leaf")],
 None,["key bytes"])
p("C15","Parameter sets and advertised sizes are those of SPHINCS+",
 "Each exported parameter set has the hash length, tree counts, heights and layer count the SPHINCS+ submission assigns to its name and uses the hash family and security-level-specific functions of that name. The advertised private key, public key and signature sizes are 4n, 2n and n(1+k(t+1)+d(2n+3)+h).",
 ["configurations"],"all twelve parameter sets in every tune setting that offers them",
 "Signature sizes are only checked for seven sets, in five of the many tune settings.",
 ["size.c","shake256_128f_simple.c","sha2_192s_simple.c","sha2_256s_simple.c"],[("parameter tables","{shake256,sha2}_*_simple.c"),("sizes","size.c")],
 None,["exported tables, size functions"])
p("C16","Tuning changes memory and speed, never availability or results",
 "Every combination of the tune settings compiles and offers exactly the parameter sets its settings promise. For a parameter set offered by several tunings, keys, signatures and verdicts are the same in all of them, whatever hash implementation or precomputation option is selected.",
 ["configurations","inputs"],"all combinations of the tune settings, all inputs",
 "Five of the 70+ combinations are ever built; results are compared for one message.",
 ["tune.h","tiny_sphincs.h","fips202.c","sha256_L1_hash_simple.c","sha512_L35_hash_simple.c"],[("feature selection","tiny_sphincs.h and #if guards"),("precomputed prefix state","sha256_L1_hash_simple.c, sha512_L35_hash_simple.c"),("Keccak variants","fips202.c")],
 None,["exported symbols; outputs per tuning"])
p("C17","RAM use stays within the documented low-memory figures",
 "For each parameter set, in the minimal tuning that offers it, the size of the context and the worst-case stack of key generation, signing (including the context) and verification (including the context) do not exceed the documented figures by more than a quarter. The bound holds for every input because stack use is the maximum over all call paths, none of which is recursive or allocates dynamically.",
 ["inputs","configurations"],"all call paths, all parameter sets in their minimal tuning",
 "The documented figures come from one measured run per set; nothing in the test suite bounds memory.",
 ["ramspace.out","tiny_sphincs.h",CORE],[("context layout","tiny_sphincs.h: struct ts_context"),("stack frames","all library functions")],
 None,["compiler-reported frame sizes along the call graph; size of the context"])
p("C18","SHA-256 is correct for every input and every incremental split",
 "For every byte string (shorter than 2^61 bytes) and every way of splitting it into successive updates, the digest and every truncated digest are those of FIPS 180-4 SHA-256. Saving the state after a whole first block and restoring it gives the same digest as hashing straight through.",
 ["inputs","histories"],"all inputs of all lengths, all splits, all truncations the scheme uses",
 "There is no SHA-256 vector in the tests at all; the lengths reached through signing never hit the two-block padding case.",
 ["sha256.c","endian.c","sha2.h"],[("compression","sha256.c: compress"),("buffering","sha256.c: ts_SHA256_update"),("padding","sha256.c: ts_SHA256_final_trunc")],
 [("hash context","chaining value, bit count, fill level, pending bytes")],["digest bytes"])
p("C19","SHA-512 is correct for every input and every incremental split",
 "For every byte string (shorter than 2^61 bytes) and every way of splitting it into successive updates, the digest and every truncated digest are those of FIPS 180-4 SHA-512. Saving the state after a whole first block and restoring it gives the same digest as hashing straight through.",
 ["inputs","histories"],"all inputs of all lengths, all splits, all truncations the scheme uses",
 "A few vectors with special contents (often zero bytes) at a few lengths and two split patterns are tested.",
 ["sha512.c","endian.c","sha2.h"],[("compression","sha512.c: sha512_compress"),("buffering","sha512.c: ts_SHA512_update"),("padding","sha512.c: ts_SHA512_final_trunc")],
 [("hash context","chaining value, bit count, fill level, pending bytes")],["digest bytes"])
p("C20","SHAKE256 is correct for every input and every split of input and output",
 "For every byte string and every way of splitting it into successive absorbs, and for every output length and way of splitting it into successive squeezes, the output is that of FIPS 202 SHAKE256. This holds for each selectable permutation implementation.",
 ["inputs","histories","configurations"],"all inputs, all input and output splits, the three permutation implementations",
 "A few vectors with one or two split patterns are tested.",
 ["fips202.c","fips202.h"],[("permutation","fips202.c: KeccakF1600_StatePermute"),("absorb/pad/squeeze","fips202.c: keccak_inc_*")],
 [("sponge context","25 lanes and the fill level")],["output bytes"])
p("C21","Message hashing and randomiser derivation are as specified for any message",
 "For every message of every length, the randomiser R is the specified keyed function of the secret PRF key, the optional randomness and the message, and the message digest is the specified function of R, the public key and the message (SHAKE256 directly; HMAC and MGF1 over SHA-256 or SHA-512 for the SHA2 sets). Every byte of the message is included exactly once, in order.",
 ["inputs"],"all messages of all lengths, all keys, all parameter sets",
 "One three-byte message is used throughout; long messages, empty messages and lengths near block or integer-width boundaries are not.",
 ["shake256_hash.c","sha256_L1_hash.c","sha512_hash.c"],[("PRF_msg","*_prf_msg"),("H_msg","*_hash_msg")],
 None,["first signature block; digest consumed by signer and verifier"])
p("C22","Digest bits select FORS leaves, tree and leaf exactly as specified",
 "For every message digest, signer and verifier derive the FORS leaf indices (big-endian bit strings in order), the hypertree index and the bottom leaf index exactly as SPHINCS+ specifies, each within its range. For every value being signed, the WOTS+ digits are its nibbles from most significant on followed by the three-nibble checksum.",
 ["inputs"],"all digests, all hash values, all parameter sets",
 "Each parameter set is exercised with one digest and the handful of values it leads to.",
 [CORE],[("digest splitting","tiny_sphincs.c: ts_convert_message_hash_to_hypertree_position"),("digits","tiny_sphincs.c: compute_wots_digits")],
 None,["addresses hashed and chain lengths walked by signer and verifier"])
p("C23","Honestly produced signatures verify",
 "For every key pair generated by the library, every message and every random source behaviour, the signature produced is accepted by the verifier under the corresponding public key.",
 ["inputs"],"all keys, messages and parameter sets",
 "Round trips are tested for a few keys and messages.",
 [CORE,"verify.c","key_gen.c"],[("signer","tiny_sphincs.c"),("verifier","verify.c")],None,["verdict"])
p("C24","Signatures are existentially unforgeable",
 "No feasible adversary who sees signatures on messages of its choice can produce an accepted signature on a new message.",
 ["programs"],"all feasible adversaries",
 "Security against all adversaries is not testable.",
 ["verify.c"],[("scheme","whole library")],None,["verdict"])
p("C25","Work is bounded by the parameter set",
 "Producing a signature, generating a key and verifying take a bounded number of hash computations fixed by the parameter set: every tree node, leaf and chain the scheme needs is computed once, so the total stays within a quarter of what the scheme itself takes, and it varies only with the WOTS+ digit values.",
 ["inputs"],"all inputs",
 "Tests do not count hash computations.",
 [CORE,"verify.c"],[("loops","tiny_sphincs.c, verify.c")],None,["number of hash computations"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80, x["title"]
        f.write(json.dumps(x)+"\n")
print(len(P))
