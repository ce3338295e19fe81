#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as a script so that the wording is easy to diff and edit).
import json,os
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

SE="spec-examples/src/"
prop("C01","Sealed records survive a hostile channel: intact opens, damaged is refused",
"A record sealed with AES-128-GCM, AES-256-GCM or ChaCha20-Poly1305 opens, at any peer that follows the published standard, to exactly the sealed plaintext, however often and in whatever order it is delivered or read back, for every key, nonce, associated data and plaintext length including empty. A record whose ciphertext, tag, nonce, associated data, key or length was changed in any way on the wire or on disk is refused with an error value, never opened to anything and never a crash. Sealing and opening conform to the standards, so either side may be a different conforming implementation.",
["fault_sequences","histories","inputs"],
"All histories of seal, deliver and open between conforming peers over a channel and a store that lose, duplicate, reorder, delay, truncate, extend, splice, swap and bit-flip records, for all keys, nonces, associated data and plaintexts.",
"The tests open a handful of fixed intact vectors; no test damages a record in transit, opens out of order, or meets a second implementation at block-boundary lengths.",
[SE+"aes_gcm/aesgcm.rs",SE+"aes_gcm/aes.rs",SE+"aes_gcm/gf128.rs",SE+"chacha20_poly1305/chacha20poly1305.rs",SE+"chacha20_poly1305/poly1305.rs",SE+"chacha20_poly1305/chacha20.rs"],
[("tag recomputation and comparison before decryption",SE+"aes_gcm/aesgcm.rs: decrypt_aes; "+SE+"chacha20_poly1305/chacha20poly1305.rs: decrypt"),("padding and length block of the authenticated data","pad_aad_msg in both files"),("one-time MACs",SE+"aes_gcm/gf128.rs: gmac; "+SE+"chacha20_poly1305/poly1305.rs: poly")],
["return values of encrypt_aes128/256, decrypt_aes128/256, chacha20_poly1305::encrypt/decrypt"])
prop("C02","Key agreement: all parties reach the same secret in any delivery order",
"Parties that exchange X25519 public values and apply their own secrets end with the same shared value, in any order of delivery, duplication or retransmission, also in a group chain and also when some of the parties are other conforming implementations or restarted from their stored secret. Public values that were damaged on the wire, including points not on the curve's main subgroup and non-canonical encodings, never crash a party and lead to what the standard prescribes for the received bytes. P-256 public points derived from a scalar equal those of any conforming implementation for every 256-bit scalar that is not a multiple of the group order.",
["schedules","fault_sequences","inputs"],
"All schedules and fault sequences of a key exchange among two or more parties, all 32-byte secrets and received points, all P-256 scalars.",
"Tests are fixed X25519 and P-256 vectors, one direction, no delivery order, no damaged or small-order points, no public-key derivation.",
[SE+"curve25519/curve25519.rs",SE+"p256/p256.rs","abstract-integers/src/nat_mod.rs","hacspec/src/math_integers.rs"],
[("clamping, decoding, ladder, encoding",SE+"curve25519/curve25519.rs: scalarmult"),("public value from secret",SE+"curve25519/curve25519.rs: secret_to_public"),("Jacobian ladder",SE+"p256/p256.rs: point_mul")],
["results of curve25519::scalarmult, secret_to_public, p256::point_mul"])
prop("C03","Digest-addressed storage: intact blobs verify everywhere, damage is detected",
"A blob stored under its SHA-256, SHA3-224/256/384/512, SHAKE128/256 (any output length) or BLAKE2b-512 digest verifies when read back intact, at the writer or at any other conforming implementation, for every blob length. A blob altered by a torn, short, lost, misdirected or bit-flipped write no longer verifies. Computing a digest never crashes, whatever a faulty store or a short read hands back.",
["fault_sequences","crash_points","inputs"],
"All sequences of writes, crashes, storage faults and reads over a content-addressed store shared by different implementations, all blob contents and lengths.",
"The tests hash a few fixed strings whose lengths miss whole block-length classes (e.g. the empty and block-multiple lengths); none re-reads damaged data or compares implementations.",
[SE+"sha2/sha2.rs",SE+"fips202/fips202.rs",SE+"blake2/blake2b.rs"],
[("padding and final block",SE+"sha2/sha2.rs: hash; "+SE+"blake2/blake2b.rs: blake2; "+SE+"fips202/fips202.rs: keccak"),("compression / permutation","compress, keccakf1600")],
["digests returned by sha2::hash, fips202::*, blake2b::blake2b"])
prop("C04","MAC and key-schedule peers stay in step; damaged messages are rejected",
"Peers sharing a secret that derive keys with HKDF-SHA256 and authenticate messages with HMAC-SHA256 obtain identical keys and tags, also when one of them is another conforming implementation, after any loss, duplication, reordering, restart or resynchronisation, for every key, salt, info and message length and every output length the standard allows. A tag verifies exactly for the message and key it was computed for: a message, tag or key damaged on the way does not verify. No permitted length crashes a peer, and an output length the standard does not allow is refused.",
["histories","fault_sequences","inputs"],
"All histories of a ratcheting session between two peers over a faulty channel with restarts, all key, salt, info, message and output lengths permitted by RFC 2104 and RFC 5869.",
"Tests are the RFC vectors: few lengths, no maximum output length, no block-multiple messages, no history longer than one call.",
[SE+"hmac/hmac.rs",SE+"hkdf/hkdf.rs",SE+"sha2/sha2.rs"],
[("key block and nested hash",SE+"hmac/hmac.rs: hmac"),("extract, expand loop and output bound",SE+"hkdf/hkdf.rs: extract, expand")],
["results of hmac::hmac, hkdf::extract, hkdf::expand"])
prop("C05","Keystream segments decrypt on their own, in any order, from any offset",
"A message encrypted with AES-128-CTR, AES-256-CTR or ChaCha20 can be sent as separately delivered block-aligned segments: each segment decrypts by itself from its starting counter (in AES-CTR any 32-bit start, wrapping around; in ChaCha20 block by block), in any order of arrival and however often, also at another conforming implementation, and the reassembled segments are the message. Damage to some ciphertext bytes changes exactly the same plaintext bytes and no others.",
["schedules","fault_sequences","inputs"],
"All segmentations of a message, all delivery orders with loss, duplication, retransmission and byte damage, all keys, nonces, start counters and lengths.",
"Tests encrypt fixed vectors in one piece from one counter value; none starts mid-stream, crosses the counter wrap, or reassembles.",
[SE+"aes_gcm/aes.rs",SE+"chacha20_poly1305/chacha20.rs"],
[("counter handling per block",SE+"aes_gcm/aes.rs: aes_counter_mode, aes_ctr_keyblock; "+SE+"chacha20_poly1305/chacha20.rs: chacha, block"),("partial last block","subr(0..block_len) in both")],
["results of aes128/256_encrypt/decrypt, aes128/256_encrypt_block, chacha, block"])
prop("C06","Chunked transfers reassemble exactly, in any order and after retransmission",
"A sequence or fixed-size array cut into chunks of any positive size, delivered in any order with duplicates and retransmissions, reassembles to exactly the original, at receivers using sequences or arrays, whatever buffer content the receiver starts from once every chunk has arrived; while chunks are missing, exactly the positions of the arrived chunks carry new data. Copying any sub-range into another buffer changes exactly the addressed range. A frame naming a chunk or range outside the buffer, or carrying the wrong number of elements, is refused by a panic and leaves the receiver's buffer as it was.",
["schedules","fault_sequences","inputs"],
"All lengths, chunk sizes, element types, delivery orders, duplications, losses, header damage and receiver crash-restarts.",
"Doc-tests and unit tests use one or two fixed slices in order; no test covers out-of-order delivery, partial arrival, odd chunk sizes or bad frames.",
["hacspec/src/seq.rs","hacspec/src/array.rs","hacspec/src/traits.rs"],
[("chunk arithmetic","hacspec/src/seq.rs and hacspec/src/array.rs: num_chunks, get_chunk, get_chunk_len, set_chunk"),("range copy and its bounds checks","hacspec/src/traits.rs: update_sub, update, update_start; sub, subr, from_sub, from_sub_range, from_slice, from_seq")],
["buffers after each delivered frame"])
prop("C07","Concurrent callers never affect each other's results",
"When several threads call any of the library's operations at the same time (integers, modular and bounded integers, polynomials, sequences and arrays, and all example primitives), every call returns what the same call returns when made alone, in every interleaving, whatever was called before, and however other calls end, including calls that panic. No call waits forever on another one: once a stalled or slow thread resumes, all calls complete.",
["schedules","histories","fault_sequences"],
"All interleavings of calls by several threads at basic-block granularity, all call histories per thread, calls that panic and threads that stall at any point.",
"The test harness runs tests on threads but never compares against a solo run, cannot choose an interleaving inside a call, and never stalls a thread or mixes panicking and normal calls.",
["hacspec/src/lib.rs","secret-integers/src/lib.rs","abstract-integers/src/nat_mod.rs","abstract-integers/src/abstract_int.rs","hacspec/src/poly.rs","hacspec/src/math_util.rs","hacspec/src/machine_integers.rs","spec-examples/src/lib.rs"],
[("operations take their inputs by value or shared reference and keep no shared mutable state","all crates: no static mut, no thread-local, no cell; moduli and constant tables are rebuilt or const")],
["return value or panic of each call"])
prop("C08","A call that fails leaves every value as it was and the thread usable",
"If an operation panics (out-of-range index or chunk, wrong length, overflow or underflow of a bounded integer, division by zero, nonzero element without inverse, bad hex, too-large literal) or returns an error, every value the caller still holds, operands included, is unchanged, and the same thread's later calls give the same results as if the failed call had not happened. Copies and clones of a value are independent: updating one never changes another. What fails does so by panic or error, never by hanging, aborting the process or silently returning a value.",
["fault_sequences","histories"],
"All histories mixing successful and failing operations on a pool of live values of every type, at any failure point.",
"The should_panic tests end at the panic: none looks at the operands or at the thread afterwards.",
["hacspec/src/traits.rs","hacspec/src/seq.rs","hacspec/src/array.rs","hacspec/src/poly.rs","abstract-integers/src/abstract_int.rs","abstract-integers/src/nat_mod.rs","secret-integers/src/lib.rs","hacspec/src/util.rs"],
[("bounds checks before the first write of a multi-element update","hacspec/src/traits.rs: update_sub; set_chunk"),("overflow, underflow, division and inversion panics","abstract-integers/src/abstract_int.rs, nat_mod.rs; hacspec/src/math_util.rs: extended_euclid_invert"),("input validation","from_hex, from_literal, from_slice, from_vec")],
["values of all live objects after each operation"])
prop("C09","Random values stay fresh and complete under entropy faults",
"Random byte sequences, arrays and polynomials have exactly the requested length with every element in range, and every element depends on the system's entropy: different entropy gives different values at every position, and values drawn by different calls, threads or restarted processes never repeat. Interrupted or short entropy reads, or an entropy source that only works through its fallback, change nothing about this. If no entropy can be obtained the call panics: it never returns constant, default, partly filled or predictable data.",
["fault_sequences","schedules","histories"],
"All sequences of random draws over threads and process restarts, all failure patterns of the entropy system calls (interruption, short read, missing call, missing device, hard error).",
"Tests call random() once or twice with a healthy entropy source and look at the length at most; a seeded, repeated, truncated or default result would pass.",
["hacspec/src/array.rs","hacspec/src/seq.rs","hacspec/src/poly.rs"],
[("element-wise draw from the thread's generator","hacspec/src/seq.rs: get_random_vec, random; hacspec/src/array.rs: random, get_random_vec; hacspec/src/poly.rs: poly! random")],
["returned values; entropy system calls made"])
prop("C10","Loading test vectors gives the file's exact content or fails, never partial data",
"Loading a test-vector file gives exactly the records in the file, in order and with every field as written, however the file system slices the reads, interrupts them or delays them. If the file is missing, unreadable, torn, truncated, corrupted to something that is not the described structure, or fails in the middle of reading, the load panics; it never returns partial, stale or default records, and a later load of a repaired file succeeds. Concurrent or repeated loads do not influence each other.",
["fault_sequences","crash_points","histories"],
"All file contents of the described structure, all read slicings, all I/O error and interruption points, truncation and tearing at every offset, all histories of loads with files replaced between them.",
"Tests load healthy small files from the real file system in one read each.",
["hacspec-dev/src/test_vectors.rs","hacspec-dev/src/lib.rs"],
[("open, buffered read, deserialise or panic","hacspec-dev/src/test_vectors.rs: create_test_vectors! new and new_array")],
["value or panic of new/new_array; system calls on the file"])
prop("C11","Results never depend on the state of the standard streams",
"Calling any operation of the arithmetic library or of the example primitives gives the same result whether standard output and standard error are healthy, closed, full, interrupted or slow, and writes nothing to standard output.",
["fault_sequences","inputs"],
"All operations, all failure modes of writes to the standard streams (closed, broken pipe, no space, I/O error, interruption, short writes).",
"Tests run with captured healthy output, so a print inside an operation is invisible and never fails.",
["hacspec/src/machine_integers.rs","hacspec/src/math_util.rs","hacspec/src/poly.rs",SE+"chacha20_poly1305/chacha20poly1305.rs"],
[("operations are computations without I/O","hacspec/src/machine_integers.rs: sub_mod; hacspec/src/math_util.rs: extended_euclid_invert; hacspec/src/poly.rs: inv")],
["return values; write system calls on descriptors 1 and 2"])
prop("C12","State checkpointed to bytes or hex resumes after a crash exactly where it was",
"A computation that saves its values in the library's byte or hex form (machine and secret integers in both byte orders, arrays of them, byte sequences, modular and bounded integers) and is restarted from the last complete save ends in exactly the state of an uninterrupted run, at whatever point it crashed and whichever implementation reads the save. A save of the wrong length or with characters that are not hex digits, as a torn or damaged write leaves behind, is refused with a panic or stays recognisable by its length, never silently read as another value.",
["crash_points","fault_sequences","histories"],
"All histories of updates, saves, crashes and restores, all values of every serialisable type, all tear points of a save.",
"Tests convert a few constants one way; no round trip over all values, widths and byte orders, no interrupted save.",
["hacspec/src/transmute.rs","hacspec/src/traits.rs","hacspec/src/array.rs","hacspec/src/seq.rs","hacspec/src/util.rs","hacspec/src/math_integers.rs","abstract-integers/src/abstract_int.rs","secret-integers/src/lib.rs"],
[("integer to and from bytes","hacspec/src/transmute.rs; hacspec/src/traits.rs: UnsignedSecretInteger, UnsignedPublicInteger; secret-integers/src/lib.rs: to_le_bytes_multiple etc."),("array and sequence conversions","hacspec/src/array.rs: to_be_bytes, to_le_bytes, to_be_U32s ..., from_hex, to_hex; hacspec/src/seq.rs: from_hex, to_hex"),("modular and bounded integers","hacspec/src/math_integers.rs: from_byte_seq_le, to_byte_seq_le; abstract-integers: from_le_bytes, to_le_bytes, from_hex")],
["restored values; bytes and strings produced"])
prop("C13","Replicas applying the same arithmetic updates in any order agree",
"Replicas that apply the same set of commuting updates (additions, subtractions, multiplications by public factors, share combinations) to modular integers, or wrapping and bit-wise updates to secret and public machine integers and arrays of them, in any delivery order and with restarts and de-duplicated retransmissions, end in the same canonical state, which is the mathematically exact one. A secret shared among parties over a prime modulus is reconstructed exactly by every sufficiently large subset of the parties, whoever is down. Bounded integers give the exact result or panic when a total leaves their range; they never wrap.",
["schedules","fault_sequences","histories"],
"All delivery orders, duplications, losses with retransmission, crash-restarts and surviving subsets; all moduli, widths and operand values including the extremes.",
"Tests evaluate a few fixed expressions per type in one order; none compares orders, replicas, representations or surviving subsets.",
["abstract-integers/src/nat_mod.rs","abstract-integers/src/abstract_int.rs","hacspec/src/math_integers.rs","hacspec/src/machine_integers.rs","hacspec/src/vec_integers.rs","secret-integers/src/lib.rs"],
[("reduction after every operation","abstract-integers/src/nat_mod.rs: Add, Sub, Mul, inv, pow"),("range checks","abstract-integers/src/abstract_int.rs: Add, Sub, Mul, From<BigInt>"),("wrapping machine arithmetic","secret-integers/src/lib.rs; hacspec/src/machine_integers.rs; hacspec/src/vec_integers.rs")],
["replica states after every delivery"])
prop("C14","Replicated and shared polynomials agree in any order and reconstruct exactly",
"Parties holding polynomials over a prime modulus, reduced by a common polynomial, that add, subtract and multiply each other's contributions in any delivery order and grouping end with the same canonical polynomial, equal to the exact product or sum reduced modulo both. A contribution that was multiplied in can be divided out again exactly by its inverse, whoever does it and in whatever order; a division returns quotient and remainder that recombine to the dividend. A nonzero element that has no inverse is refused with a panic or error.",
["schedules","fault_sequences","histories"],
"All delivery orders and groupings, losses with retransmission, crash-restarts; all coefficient vectors, moduli and reduction polynomials of the supported kind.",
"Tests check a few fixed polynomials over one or two rings, mostly with a single operation.",
["hacspec/src/poly.rs","hacspec/src/math_util.rs","hacspec/src/machine_integers.rs"],
[("coefficient-wise and convolution operations","hacspec/src/poly.rs: poly_add, poly_sub, poly_mul, poly_div"),("inversion","hacspec/src/poly.rs: extended_euclid, divstepsx; hacspec/src/math_util.rs: extended_euclid_invert"),("modular coefficient arithmetic","hacspec/src/machine_integers.rs: ModNumeric impls")],
["polynomial coefficients after every operation"])
# Not claimed: outside what this technique can decide.
prop("N01","Every arithmetic operator is exact for all operands",
"Each arithmetic, comparison, shift, rotation, mask and constant-time helper operation on secret, public, bounded, modular and vector integers returns the mathematically defined result for all operands, and secret and public versions agree.",
["inputs"],"All operands of all operations and types.",
"Tests sample a few operands per operation.",
["secret-integers/src/lib.rs","hacspec/src/machine_integers.rs","hacspec/src/math_util.rs","hacspec/src/vec_integers.rs","abstract-integers/src/abstract_int.rs"],
[("operator implementations","all listed files")])
prop("N02","Secret values cannot steer branches, division or indexing unless declassified",
"A program that compares, divides, branches on or indexes with a secret integer without an explicit declassification does not compile; only declassification and the conversions documented as declassifying reveal a secret value.",
["programs"],"All client programs.","Tests are programs that compile; none shows that a forbidden one does not.",
["secret-integers/src/lib.rs","hacspec/src/seq.rs"],[("missing trait implementations on secret types","secret-integers/src/lib.rs")])
prop("N03","Secret operations run in time independent of their secret operands",
"Operations on secret integers documented as constant-time execute no secret-dependent branch or memory access.",
["inputs"],"All pairs of secret operands.","Tests observe results only.",
["secret-integers/src/lib.rs","hacspec/src/math_util.rs"],[("branch-free comparison masks and conditional swap","secret-integers/src/lib.rs: comp_eq etc.; hacspec/src/math_util.rs: cswap")])
prop("N04","The language checker attributes accept hacspec functions unchanged",
"With the attribute feature on, an annotated function keeps its meaning and the tool lists exactly the annotated functions.",
["programs"],"All annotated programs.","The feature is not built by the tests.",
["attributes/src/lib.rs"],[("attribute macros returning their input","attributes/src/lib.rs")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P:
        f.write(json.dumps(p,ensure_ascii=False)+"\n")
try:
    import jsonschema
    s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in P: jsonschema.validate(p,s)
    print("valid",len(P))
except ImportError: pass
