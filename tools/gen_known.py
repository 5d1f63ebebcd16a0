import json,subprocess
M={ # commit subject prefix -> (props, what)
"block recreate with another":("C11","recreate with another round count read the descriptor out of the destroyed object"),
"rijndael key setup":("C11","rijndael key setup read past the round constant table for many rounds"),
"safer and safer++":("C11","safer/safer++ read past keys shorter than half a key"),
"3way decryption":("C06","3way decryption with fewer than 11 rounds did not invert encryption"),
"speck key setup":("C20","speck key setup divided by zero for single-word keys"),
"gost descriptor":("C09","gost descriptor written without checking its allocation"),
"skein hash":("C01","skein digests of messages ending on a block, with salt, or longer than a block were wrong"),
"one-shot keccak and skein":("C01","kripto_hash_all asked for 4 GiB of output or more truncated the length to 32 bits: Skein hashes hit an assertion (or configured and bounded the output wrongly without assertions), Keccak hashes absorbed at the rate of the truncated length"),
"skein MAC":("C04","skein MACs of full blocks and for keys other than one full block were wrong"),
"skein stream":("C02","skein streams used the key setup block as first keystream"),
"blake2 processed":("C01","blake2 digests of messages of whole blocks were wrong"),
"blake counter":("C01","blake digests were wrong when the padding block holds no message"),
"keccak800":("C01","keccak800 round constants and default rounds were wrong"),
"whirlpool":("C01","whirlpool asserted on its own round count"),
"cfb decryption":("C03","cfb decryption overwrote the chaining value in the caller's buffer"),
"ctr counter":("C03","the ctr counter did not carry into byte 0"),
"shacal2":("C11","shacal2 key schedule overflowed with fewer than 16 rounds"),
"hmac with":("C04","hmac rekeyed to another tag length, or with long keys hashed to more than a block, was wrong"),
"pbkdf2 changed":("C18","pbkdf2 with short outputs used another tag length; a failed MAC was used"),
"pbkdf2 overflowed":("C18","pbkdf2 with a MAC without a maximum (HMAC over Keccak or Skein) overflowed its buffer for 2 GiB of output or more, and never ended for 4 GiB"),
"scrypt":("C18","scrypt's work areas overlapped and their size overflowed"),
"eax with":("C05","eax with nonces or tags shorter than a block; crash after a failed recreate"),
"eax2 key":("C05","eax2 key split, stream nonce length; crash after a failed recreate"),
"ae refused":("C05","eax2 asserted for every tag length with MACs that have no maximum"),
"xcbc released":("C13","a failed xcbc create released subkeys without wiping"),
"pkcs7":("C19","pkcs7 corrupted data for non-power-of-two sizes, never stripped full padding blocks, and stripped malformed padding"),
"random self-test":("C16","the self-test rejected every healthy source"),
"xtea decryption":("C06","xtea decryption with an odd number of rounds did not invert encryption"),
"keccak lost":("C23","Keccak hashes (and HMAC, PBKDF2, scrypt, EAX2 over them) asked for 100 (keccak800: 50) bytes of output or more absorbed input past the end of their state"),
"hmac kept":("C22","HMAC over a supplied hash went on using the object that kripto_hash_recreate had replaced"),
"omac placed":("C22","OMAC (and EAX) over blocks of 123, 137, 152, 154, 157, 221, 237, 243, 246, 247, 251 or 253 bytes reduced with the wrong polynomial bytes"),
"omac used reducible":("C22","OMAC (and EAX) over blocks of 33 or 207 bytes used a reducible polynomial"),
"random.c does not compile for CryptGenRandom":("C15","the library could not be built for Windows with KRIPTO_CRYPTGENRANDOM (sizeof in a preprocessor condition)"),
"result of RtlGenRandom":("C15","the BOOLEAN result of RtlGenRandom was compared as a whole register, whose upper bytes are undefined: delivered bytes were reported as 0"),
"random source using RtlGenRandom":("C10","kripto_random_destroy never freed the object of the RtlGenRandom source"),
"reads of 4 GiB and more":("C15","kripto_random_gen passed lengths of 4 GiB and more to RtlGenRandom and CryptGenRandom truncated to 32 bits and reported all of them as delivered"),
"random fallback":("C17","the fallback generator leaked a descriptor per reseed and freed itself when a reseed failed"),
}
out=[];seen=set()
for l in subprocess.check_output(["git","-C","/repo","log","--reverse","--format=%h %s"],text=True).splitlines():
    h,s=l.split(" ",1)
    if not s.startswith("fix: "): continue
    k=[k for k in M if s[5:].startswith(k)]
    if not k: print("missing",s); continue
    out.append("fixed: property=%s %s %s"%(M[k[0]][0],h,M[k[0]][1])); seen.add(k[0])
print(set(M)-seen)
json.dump({"findings":[],"fixed":out},open("/verif/known_findings.json","w"),indent=1)
