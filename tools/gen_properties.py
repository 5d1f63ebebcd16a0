#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that long lines stay reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or []
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Streamed hashing yields the standard digest for every delivery schedule",
 "For every hash function the library offers, the bytes read out of a hash object equal the digest its published standard defines for the concatenation of everything fed since the object was last created or recreated, for the salt, output length and supported number of rounds it was given, no matter how input and output were split into calls, what the object was used for before, or what other objects did in between. The one-shot call gives the same bytes as the object interface.",
 ["histories","inputs","schedules"],
 "all hash functions; all output lengths (for Skein and Keccak also beyond 2^32 bytes, from the one-shot call), round counts and salts a function accepts; all message lengths (including beyond 2^32 bits and 2^32 bytes); all partitions into input and output calls; all sequences of create/recreate/reuse/destroy and all interleavings with other objects",
 "The vector tests feed a handful of short messages, in one call, to freshly created objects; BLAKE, BLAKE2, Skein and Keccak-800 have no test at all, and no test splits input, reads output in pieces, reuses a finished object or reaches a length-counter carry.",
 ["lib/hash.c","lib/hash/*.c","include/kripto/hash.h"],
 [("per-function block buffering, length counters and padding","lib/hash/*.c: *_input, *_finish, *_output"),("reinitialisation","lib/hash/*.c: *_recreate"),("one-shot path","lib/hash/*.c: *_hash")],
 [("buf,i","partial block and fill level","struct kripto_hash in each lib/hash/*.c"),("len/tweak","message length so far","same")],
 ["kripto_hash_output","kripto_hash_all"])

p("C02","Stream ciphers produce one continuous keystream however calls are split",
 "For every native stream cipher, the bytes produced by encrypting, decrypting or generating since the object was last keyed are the published keystream for that key, nonce and round count, continued without gap, repeat or skip across calls of any length, in place or not. Decryption with an equally keyed object restores the plaintext, and rekeying forgets everything of the previous key.",
 ["histories","inputs","schedules"],
 "ChaCha/XChaCha, Salsa20/XSalsa20, RC4, Skein and Keccak streams; all key, nonce and round choices; all partitions of the byte stream into encrypt/decrypt/prng calls, in place or not; all rekeying histories",
 "Tests run whole vectors through ChaCha and Salsa20 in one call; RC4, Skein and Keccak streams have no test, and no test splits a stream at arbitrary offsets, mixes call kinds or rekeys mid-block.",
 ["lib/stream.c","lib/stream/chacha.c","lib/stream/salsa20.c","lib/stream/rc4.c","lib/stream/skein256.c","lib/stream/skein512.c","lib/stream/skein1024.c","lib/stream/keccak.c"],
 [("keystream buffer and used counter","lib/stream/*.c: *_crypt, *_prng"),("key/nonce setup","lib/stream/*.c: *_recreate")],
 [("buf,used","unused keystream","struct kripto_stream")],
 ["kripto_stream_encrypt","kripto_stream_decrypt","kripto_stream_prng"])

p("C03","Block-cipher modes transform any split of a message exactly as the mode defines",
 "For every block cipher and each of ECB, CBC, CFB, OFB and CTR, the output over any sequence of calls equals the mode applied to the concatenated data under that cipher, key and initialisation vector, in place or not. Decryption is the exact inverse of encryption even when the two sides split the data differently, and the CTR counter advances as one full-width big-endian integer.",
 ["histories","inputs","configurations","schedules"],
 "5 modes x all block ciphers x keys, IVs (any length up to the block, including all-ones counters), rounds; all legal partitions of the data on either side; rekeying at any point",
 "Only CTR with AES has a test (two vectors, one call); CBC, CFB, ECB and OFB are untested, and the space of partitions, IVs at counter carry points and cipher/mode pairs is unbounded.",
 ["lib/stream/cbc.c","lib/stream/cfb.c","lib/stream/ctr.c","lib/stream/ecb.c","lib/stream/ofb.c"],
 [("chaining value and fill level","lib/stream/{cbc,cfb,ctr,ofb}.c: *_encrypt, *_decrypt, *_crypt"),("descriptor composition","lib/stream/*.c: kripto_stream_*")],
 [("iv/prev/x,used","chaining state","struct kripto_stream")],
 ["kripto_stream_encrypt","kripto_stream_decrypt","kripto_stream_prng"])

p("C04","Tags depend only on key and whole message; only the right tag verifies",
 "For HMAC, OMAC, XCBC and the Skein and Keccak MACs, the tag equals the one the algorithm defines for the key and the concatenation of everything fed since the last (re)keying, for every split of the message and every earlier use of the object. Verification succeeds for exactly that tag and for no altered one.",
 ["histories","inputs","schedules"],
 "HMAC over every hash, OMAC and XCBC over every block cipher, native MACs; all key lengths (shorter, equal and longer than a block), tag lengths and messages; all partitions; all reuse histories; every altered candidate tag",
 "Tests cover a few RFC vectors for HMAC/OMAC/XCBC in single calls, never verification, never reuse with a different key size, and none of the Skein and Keccak MACs.",
 ["lib/mac.c","lib/mac/hmac.c","lib/mac/omac.c","lib/mac/xcbc.c","lib/mac/keccak.c","lib/mac/skein256.c","lib/mac/skein512.c","lib/mac/skein1024.c"],
 [("lazy last block","lib/mac/{omac,xcbc}.c: *_input, *_tag"),("inner/outer hash","lib/mac/hmac.c: hmac_init, hmac_tag"),("comparison","lib/mac.c: kripto_mac_verify")],
 [("buf,i,f","partial block, fill, finished flag","struct kripto_mac")],
 ["kripto_mac_tag","kripto_mac_verify","kripto_mac_all"])

p("C05","Authenticated channels deliver exactly what was sent or reject it",
 "When one side encrypts a message with associated data under EAX or EAX2 and the other decrypts what arrives over a channel that may lose, duplicate, reorder, truncate, extend or corrupt pieces, the receiver's verification succeeds exactly when nonce, associated data and ciphertext arrived unchanged, and then the plaintext is byte-identical. Ciphertext and tag equal those the published mode defines, whatever the splitting on either side and whatever the object's past.",
 ["fault_sequences","histories","inputs","schedules"],
 "EAX over every block cipher, EAX2 over stream cipher x MAC; all nonce lengths up to the advertised maximum, header/message lengths including empty, tag lengths; every channel fault sequence; every chunking by sender and receiver; fresh and reused objects",
 "One EAX-AES vector with a full-length nonce in one call per phase is all that is tested; nothing tampers with anything, uses a short nonce, splits calls, or touches EAX2.",
 ["lib/ae.c","lib/ae/eax.c","lib/ae/eax2.c"],
 [("nonce/header/ciphertext MAC domains","lib/ae/eax.c, lib/ae/eax2.c: *_create, *_recreate, *_tag"),("encrypt-then-MAC order","lib/ae/*.c: *_encrypt, *_decrypt")],
 [("iv","MACed nonce","struct kripto_ae")],
 ["kripto_ae_encrypt","kripto_ae_decrypt","kripto_ae_tag","kripto_ae_verify"])

p("C06","A block cipher object always acts as its latest rounds, key and tweak dictate",
 "At every point of any sequence of create, rekey, change of rounds, tweak, encrypt and decrypt calls, a block cipher object computes exactly the permutation selected by the most recent rounds, key and tweak, in either direction and in place or not, and decryption inverts encryption. Nothing of an earlier configuration, and no other object's activity, influences it.",
 ["histories","inputs","configurations"],
 "all block ciphers, GOST also with S-boxes of the caller's own; all key lengths and round counts; all tweaks where supported; all sequences of reconfiguration and use, interleaved over many objects",
 "Vector tests set one key with default rounds on a fresh object, and recreate only with the same shape; switching rounds or key sizes on a live object (the path that replaces the object) is never exercised.",
 ["lib/block.c","lib/block/*.c"],
 [("rekeying in place or by replacement","lib/block/*.c: *_recreate, *_setup"),("tweak","lib/block/threefish*.c, lib/block/trax_*.c: *_tweak")],
 [("k,rounds,t","key schedule, rounds, tweak","struct kripto_block")],
 ["kripto_block_encrypt","kripto_block_decrypt"])

p("C07","Tasks using separate objects never influence each other under any interleaving",
 "When several tasks of one process each use only objects they created themselves, every result each task observes is the one it would have observed running alone, for every preemptive interleaving of their library calls, including preemption in the middle of a call. This includes objects derived from a shared algorithm descriptor and one-shot calls.",
 ["schedules","histories"],
 "all interleavings, at memory-access granularity, of 2-4 tasks running arbitrary histories over all object families and one-shot functions",
 "All tests are single-threaded; hidden shared mutable state (a static scratch buffer, a lazily filled table, a cached key schedule) is invisible without adversarial preemption.",
 ["lib/*.c","lib/block/*.c","lib/hash/*.c","lib/mac/*.c","lib/stream/*.c","lib/ae/*.c"],
 [("all mutable state lives in the caller's object or on the stack","whole library: no writable statics"),("immutable descriptors","kripto_desc_* statics and heap descriptors")],
 None,["every result-producing call"])

p("C08","Concurrent reads of one shared object or descriptor are safe",
 "A block cipher object that is not being reconfigured may be used for encryption and decryption by any number of tasks at once, and one descriptor may serve any number of tasks creating and using objects; every result equals the one a sole user would get, under every preemptive interleaving. Using them leaves the shared object bit-for-bit unchanged.",
 ["schedules","inputs"],
 "all block ciphers, all heap and static descriptors; 2-4 tasks; all interleavings at memory-access granularity",
 "No test shares anything between tasks; the const-qualified interface promises this but nothing observes a write through a cast or a cached intermediate.",
 ["lib/block.c","lib/block/*.c","include/kripto/block.h","lib/stream/*.c","lib/mac/*.c","lib/ae/*.c"],
 [("const object parameter on encrypt/decrypt","include/kripto/block.h"),("scratch only on the stack","lib/block/*.c: *_encrypt, *_decrypt")],
 None,["kripto_block_encrypt","kripto_block_decrypt"])

p("C09","A failed allocation fails only the call that met it",
 "If memory runs out at any allocation point, the call in progress reports failure through its documented return value instead of crashing, hanging or returning an object that does not work. Every other object keeps giving the results it would have given, and the same request succeeds once memory is available again.",
 ["fault_sequences","histories"],
 "every allocation point inside every create, recreate, one-shot, descriptor and key-derivation call; single, repeated and persistent failures; arbitrary surrounding histories",
 "No test makes an allocation fail, so no error path of the library has ever executed in the suite.",
 ["lib/ae/*.c","lib/mac/*.c","lib/stream/*.c","lib/hash/*.c","lib/block/*.c","lib/pbkdf2.c","lib/scrypt.c","lib/mac.c","lib/random.c"],
 [("null checks and unwinding","goto err chains in lib/ae/*.c, lib/mac/*.c, lib/pbkdf2.c, lib/scrypt.c"),("recreate frees on failure","lib/*/*.c: *_recreate")],
 None,["return values of create/recreate/all/pbkdf2/scrypt"],None)

p("C10","Every resource acquired is released exactly once, on success and failure paths",
 "After any history in which the caller destroys the objects it was given and frees the descriptors it created, no memory and no file handle acquired by the library remains, including after calls that failed or that replaced an object. Nothing is released twice or used after its release.",
 ["histories","fault_sequences"],
 "all histories over all object families, key derivation and random sources with allocation, open and read failures injected at every point",
 "Tests do not track allocations and never reach the failure and replacement paths where leaks and double frees occur.",
 ["lib/ae/*.c","lib/mac/*.c","lib/stream/*.c","lib/hash/*.c","lib/block/*.c","lib/pbkdf2.c","lib/scrypt.c","lib/random.c"],
 [("destroy functions and error unwinding","lib/*/*.c: *_destroy, err labels"),("object replacement on reconfiguration","lib/block/*.c: *_recreate")],
 None,["allocator and file seams"])

p("C11","No call touches memory outside the buffers and objects it was given",
 "For all arguments the interface accepts, a library call reads and writes only the bytes of the caller's buffers it was told about, its own live objects and constant data: never before or beyond a buffer, never an object already released. Indices stay inside the array they address and words are only accessed at addresses aligned for them, whatever the alignment of the caller's buffers. Input buffers are left unmodified.",
 ["inputs","histories","fault_sequences","configurations"],
 "all calls of all families with all accepted lengths, alignments and histories, including failure paths",
 "Tests use a few generously sized buffers and no memory checker; off-by-one accesses, stale object use and partial-block overruns are silent.",
 ["lib/*.c","lib/block/*.c","lib/hash/*.c","lib/mac/*.c","lib/stream/*.c","lib/ae/*.c","include/kripto/loadstore.h"],
 [("length-driven loops and load/store helpers","include/kripto/loadstore.h; lib/*/*.c")],
 None,["instrumented loads/stores, guarded buffers"])

p("C12","Results never depend on uninitialised or recycled memory",
 "Running the same history with different prior contents of fresh heap memory, recycled heap memory and stack gives bit-identical results from every call (generated randomness aside). Equal inputs therefore always give equal outputs.",
 ["histories","inputs","configurations"],
 "all histories over all families; arbitrary prior memory contents; fresh and recycled allocations",
 "Tests run on mostly zero memory and once; a value read before it is written produces the expected vector by accident.",
 ["lib/ae/*.c","lib/mac/*.c","lib/stream/*.c","lib/hash/*.c","lib/block/*.c","lib/pkcs7.c","lib/random.c"],
 [("explicit initialisation in create/recreate/setup","lib/*/*.c")],
 None,["all results"])

p("C13","Secrets are erased from memory before it is released",
 "Whenever the library returns memory to the allocator that held a key, key schedule, chaining value, buffered data or derived secret, including on failure and replacement paths, the contents at the moment of release carry no information about the secrets: two executions differing only in secret values release identical bytes.",
 ["histories","fault_sequences","inputs"],
 "all destroy, recreate-with-replacement, failed create/recreate and key-derivation paths of all families, for all keys, messages, passwords and histories",
 "Erasure has no functional effect, so result-checking tests cannot see it at all, and failure paths are never run.",
 ["lib/memory.c","lib/block/*.c","lib/hash/*.c","lib/mac/*.c","lib/stream/*.c","lib/ae/*.c","lib/pbkdf2.c","lib/scrypt.c"],
 [("kripto_memory_wipe before free","all *_destroy and error paths")],
 None,["contents of each block at the release seam"])

p("C14","Comparing secrets takes time independent of where they differ",
 "The number of execution steps and the memory locations touched by the secret-comparison function and by tag verification do not depend on where or how the contents compared differ, only on their length (acting on the final verdict aside). The comparison still reports equality exactly when all bytes are equal.",
 ["inputs","histories"],
 "all lengths, all pairs of contents (equal, differing in one or many positions, at any place); verification through every MAC and authenticated mode",
 "Tests check results at best, never cost; an early exit passes them all.",
 ["lib/memory.c","lib/mac.c","lib/ae.c"],
 [("accumulate-then-test loop","lib/memory.c: kripto_memory_equals"),("verification through it","lib/mac.c: kripto_mac_verify; lib/ae.c: kripto_ae_verify")],
 None,["virtual clock (executed edges and access trace) around the call"])

p("C15","Random reads report exactly what the source delivered, under any device fault",
 "Whatever the random device does (short reads, interruptions, errors, end of file, refusal to open), a read returns the number of bytes it actually delivered and fills precisely those with device bytes in order, each used at most once and none skipped or invented; a source that cannot be opened is reported as such. The device named by the environment is the one used, and after faults stop full reads succeed again (an end of file may be final).",
 ["fault_sequences","histories"],
 "all request-size sequences, up to more than 4 GiB in one request, and all device fault sequences, one or several sources open at once; the Unix device and both Windows generators",
 "The random module has no test, and real devices practically never exhibit these faults on demand.",
 ["lib/random.c","include/kripto/random.h"],
 [("stdio read of the device and its short count","lib/random.c: kripto_random_gen"),("device selection","lib/random.c: kripto_random_create")],
 None,["kripto_random_create","kripto_random_gen"])

p("C16","The random self-test never passes a broken source and accepts healthy ones",
 "The self-test of a random source fails whenever the device delivers fewer bytes than the test needs or output that is constant, short-periodic, counting, heavily biased or serially dependent — one measured statistic well outside its bounds is enough — and it consumes device bytes like any other read. Healthy uniformly random devices pass with only the false-rejection rate its thresholds imply.",
 ["fault_sequences","inputs"],
 "all device behaviours in the stuck/periodic/biased/dependent/short classes at any severity above threshold; all healthy devices, statistically",
 "There is no test, and the property ranges over device behaviours and over probability.",
 ["lib/random.c"],
 [("statistics and thresholds","lib/random.c: kripto_random_test")],
 None,["kripto_random_test"])

p("C17","The fallback generator reseeds on volume and age and survives faults",
 "In builds without a system random device, generated bytes never repeat an earlier stretch, a reseed happens before more than the configured volume has been produced from one seed (one larger request counting as a unit) or once the configured age has passed, and a failed reseed is reported as zero bytes rather than by producing output, also when only a part of the seed derivation fails. No memory is leaked or freed twice across reseeds and failures.",
 ["histories","fault_sequences","configurations"],
 "all request-size sequences, clock advances and jumps, and allocation failures during seeding and reseeding",
 "This configuration is never built by the suite, and it depends on elapsed time, volume and allocation failure.",
 ["lib/random.c"],
 [("reseed condition","lib/random.c: kripto_random_gen (portable branch)"),("seed","lib/random.c: seed, create")],
 [("output,time","bytes since seed, seed time","struct kripto_random")],
 ["kripto_random_gen"])

p("C18","Key derivation gives the standard key or an error, never a partial result",
 "PBKDF2 and scrypt return success only with output equal to the published function of password, salt, cost parameters, underlying MAC and requested length, whatever the length relative to the tag size and however memory is laid out. When memory runs out at any point they return the documented error, leave nothing allocated and remain usable.",
 ["inputs","fault_sequences","configurations"],
 "all MACs, passwords, salts, iteration counts, scrypt N/r/p and output lengths; allocation failure at every point of the derivation",
 "One PBKDF2 and one scrypt vector are tested; multi-block outputs, other costs, other MACs and all failure paths are not.",
 ["lib/pbkdf2.c","lib/scrypt.c"],
 [("block counter and output copying","lib/pbkdf2.c"),("work-area layout and mixing","lib/scrypt.c: kripto_scrypt, smix, blockmix")],
 None,["kripto_pbkdf2","kripto_scrypt"])

p("C19","Padded transport returns every message intact and never trusts corrupt padding",
 "Any message padded, sent through a block mode over a channel and unpadded arrives with its exact length and contents when the channel behaved, and padding never writes past the stated capacity. When the channel corrupted the data, unpadding never reports more than it was given, and malformed padding is not stripped.",
 ["fault_sequences","inputs"],
 "all message lengths and capacities, all block sizes the library offers, all chunkings, all corruptions of the last blocks in transit",
 "PKCS#7 has no test; malformed trailers and exact-capacity cases are unbounded in number.",
 ["lib/pkcs7.c","lib/stream/cbc.c","lib/stream/ecb.c"],
 [("pad/unpad","lib/pkcs7.c")],
 None,["kripto_pkcs7_add","kripto_pkcs7_rem"])

p("C20","Every call finishes within a bounded number of steps",
 "Each library call returns within a number of execution steps bounded by a fixed multiple of its stated work (bytes processed, rounds and iterations requested), under every allocation or device fault and for all accepted arguments. Work stated four or sixteen times as large, as longer data, more calls, longer keys, salts or outputs, more iterations or higher scrypt costs, costs no more than proportionally more. No call loops forever.",
 ["inputs","fault_sequences","histories"],
 "all calls of all families, key derivation and random reads, with and without injected faults",
 "A hang appears only for specific argument combinations or fault timings that the vectors do not include.",
 ["lib/*.c","lib/block/*.c","lib/hash/*.c","lib/mac/*.c","lib/stream/*.c","lib/ae/*.c"],
 [("loop bounds","all processing loops; lib/pbkdf2.c output loop; lib/random.c")],
 None,["virtual step clock"])

p("C21","All supported build configurations give identical results",
 "The library built for a declared little-endian target, with the portable C code paths, with another compiler or optimisation level, with unsigned plain characters, or without assertions gives, for every history of calls, the same results as the default build.",
 ["configurations","histories","inputs"],
 "endianness macro, assembler vs portable code paths, gcc and clang, optimisation levels, assertions compiled in or out, signedness of char; all histories over all families",
 "The suite builds one configuration only.",
 ["include/kripto/loadstore.h","include/kripto/rotate.h","lib/block/3way.c"],
 [("conditional load/store and rotate helpers","include/kripto/loadstore.h, include/kripto/rotate.h")],
 None,["all results"])

p("C22","Modes and constructions work over any primitive a caller supplies",
 "Given a block cipher, hash, stream cipher or MAC that a caller supplies through the public descriptor structures, with any block size from 1 to 255 bytes and any advertised limits, the library's modes, MACs, authenticated encryption, key derivation and padding compute exactly what the construction defines over that primitive. They respect its interface throughout: only live objects, lengths within the advertised limits, the pointer returned by a rekeying that moved the object, nothing after it is destroyed, exactly one destroy, and a refused creation or rekeying reported to the caller.",
 ["inputs","faults","histories"],
 "primitives with all block sizes, key, nonce, tag, salt and output limits and granularities; rekeying in place or moving; refusal at any creation or rekeying; all histories of the constructions over them",
 "The suite only runs the constructions over the library's own primitives, whose block sizes are few powers of two and which rekey in one way each.",
 ["include/kripto/desc/block.h","include/kripto/desc/hash.h","include/kripto/desc/stream.h","include/kripto/desc/mac.h","lib/mac/omac.c","lib/mac/hmac.c","lib/ae/eax2.c"],
 [("descriptor structures","include/kripto/desc/*.h"),("constructions","lib/stream/{ecb,cbc,cfb,ofb,ctr}.c, lib/mac/{hmac,omac,xcbc}.c, lib/ae/*.c, lib/pbkdf2.c, lib/scrypt.c")],
 None,["allocation failure","primitive refuses or moves"])

p("C23","Advertised limits are honest and objects answer for their own descriptor",
 "Every descriptor states, at every moment of its life, the sizes, granularity and greatest key, nonce, salt, tweak, tag and output lengths its algorithm has. Every request up to and including those limits is accepted, first or on rekeying, and is carried out with all of the given key, nonce or salt: where no limit is stated, also for lengths beyond 255 and 65535 bytes. Every object names the descriptor it was made from, and keeps its granularity, through any history of use, rekeying and recovery from failed allocations.",
 ["inputs","histories","faults"],
 "all descriptors, native, constructed and supplied by the caller, constructions nested; all lengths from the least to the greatest advertised (unlimited ones to 100000 bytes); all rekeying histories between extreme configurations; allocation failures",
 "The suite never queries a limit or an object's descriptor, and its keys, nonces and salts have a few everyday lengths.",
 ["lib/block.c","lib/hash.c","lib/stream.c","lib/mac.c","lib/ae.c","include/kripto/desc/*.h"],
 [("limit queries","kripto_*_max*, kripto_*_size, kripto_*_multof, kripto_*_getdesc"),("limits of constructions, derived from the primitive","lib/stream/{ecb,cbc,cfb,ofb,ctr}.c, lib/mac/{hmac,omac,xcbc}.c, lib/ae/*.c: descriptor constructors"),("handling of long keys, nonces and salts","lib/hash/skein*.c, lib/stream/{skein*,keccak}.c, lib/mac/*.c, lib/block/*.c: recreate")],
 None,["limit and descriptor queries","results at the limits"])

p("N01","Each block cipher equals its published specification for all keys and blocks",
 "For every block cipher the library names, the permutation computed for a supported key length and the default number of rounds is the one its public specification defines, for all keys, tweaks and blocks.",
 ["inputs"],
 "all ciphers, keys, tweaks and plaintext blocks",
 "The suite samples a few vectors of a 2^128-sized domain per cipher.",
 ["lib/block/*.c"],
 [("round functions and key schedules","lib/block/*.c")],
 None,["kripto_block_encrypt","kripto_block_decrypt"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    assert x["statement"].count(". ")<=2,x["id"]
print(len(P))
