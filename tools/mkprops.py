#!/usr/bin/env python3
# Generates /verif/properties.jsonl (edit the table here, then re-run).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    d={"id":id,"title":title,"statement":statement,
       "quantifier":{"over":over,"text":text},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}}
    if state: d["anchors"]["state"]=[{"name":a,"meaning":b,"where":c} for a,b,c in state]
    assert len(title)<=80,(id,len(title)); P.append(d)
I=["inputs"];H=["inputs","histories"]

p("C01","SM3 digests equal the standard for every message",
 "For every message of every length, including the empty message and every length around the 4-byte word and 64-byte block boundaries, the one-shot function and the New/Write/Sum interface both return the 32-byte digest that GB/T 32905 defines for that message. The padding encodes the full 64-bit bit length of the message, also for messages longer than 2^32 bits.",
 I,"all message contents, for each message length (bounded), and all total lengths as seen by the length field",
 "Tests hash two fixed messages (3 and 64 bytes); the padding cases, multi-block chaining and the high half of the length field are never exercised.",
 ["sm3/sm3.go"],[("compression function and message expansion","sm3/sm3.go processBlock, ff0/ff1/gg0/gg1/p0/p1, gT"),("padding and length block","sm3/sm3.go finish, processLength"),("one-shot entry","sm3/sm3.go Sum")],
 ["sm3.Sum","sm3.New().Write/Sum"],[("v","chaining value","sm3/sm3.go sm3Digest"),("byteCount","bytes absorbed so far","sm3/sm3.go sm3Digest")])
p("C02","SM3 streaming does not depend on call history",
 "However a message is split into Write calls (of any sizes, including empty ones), the digest equals that of the concatenation and each Write reports its full length with a nil error. Sum appends the digest to the slice it is given without disturbing the state, so it can be called repeatedly and writing can continue afterwards, and Reset makes a used hash indistinguishable from a new one.",
 H,"all splits of all messages into Write calls interleaved with Sum and Reset (bounded number of calls and total length)",
 "One test writes three fixed 30-40 byte pieces and compares with itself after Reset; no other split, no Sum in mid-stream, no empty write.",
 ["sm3/sm3.go"],[("partial-word buffering","sm3/sm3.go Write, xBuf/xBufOff"),("non-destructive finalisation","sm3/sm3.go Sum, checkSum"),("state reset","sm3/sm3.go Reset")],
 ["hash.Hash returned by sm3.New"],[("xBuf,xBufOff","bytes of an incomplete word","sm3/sm3.go sm3Digest"),("inWords,xOff","words of an incomplete block","sm3/sm3.go sm3Digest")])
p("C03","SM3 reports its true geometry, so HMAC over it is HMAC-SM3",
 "The hash object reports a 32-byte digest and the 64-byte block that SM3 really has. Consequently HMAC built by the standard library over this hash equals HMAC-SM3 (RFC 2104 with a 64-byte block) for every key and message.",
 I,"all keys and messages (bounded lengths, keys shorter than, equal to and longer than a block)",
 "No test looks at BlockSize or builds an HMAC.",
 ["sm3/sm3.go"],[("geometry constants","sm3/sm3.go DigestLength, BlockSize, Size(), BlockSize()")],["hash.Hash.BlockSize/Size","crypto/hmac over sm3.New"])
p("C04","SM4 block encryption equals the standard for every key and block",
 "For every 128-bit key and every 128-bit block, encrypting the block yields the ciphertext that GB/T 32907 defines (key schedule, round function, S-box and final reversal).",
 I,"all 2^128 keys and all 2^128 blocks",
 "Tests check five fixed ciphertext blocks under one key; 256 S-box entries, 32 round constants and rotations are each only sampled.",
 ["sm4/sm4.go"],[("key schedule","sm4/sm4.go expandKey, encRound, tAp, lAp, cK, fK"),("rounds","sm4/sm4.go processBlock, f0..f3, t, l, tau, sBox, r")],["cipher.Block.Encrypt from sm4.NewCipher"])
p("C05","SM4 decryption inverts encryption, in place or not",
 "For every key and block, Decrypt(Encrypt(b)) and Encrypt(Decrypt(b)) give b back, whether destination and source are distinct buffers, the same buffer, or overlapping parts of one buffer. A call reads the first 16 source bytes, writes exactly the first 16 destination bytes and changes nothing else.",
 I,"all keys, all blocks, every relative placement of source and destination in one buffer",
 "Tests decrypt a handful of fixed blocks between distinct buffers.",
 ["sm4/sm4.go"],[("reversed round keys","sm4/sm4.go expandKey, decRound"),("block transform","sm4/sm4.go processBlock")],["cipher.Block.Encrypt/Decrypt"])
p("C06","SM4 ECB and CBC compute the mode exactly and invert it",
 "For every key, IV and whole-block message, ECB and CBC encryption produce the mode's ciphertext (each block enciphered, in CBC after XOR with the previous ciphertext block or the IV) of the same length, and decryption restores the message. A message that is not a whole number of blocks, a key that is not 16 bytes or an IV that is not 16 bytes is refused with an error instead of a panic, and no caller buffer is modified.",
 I,"all keys, IVs, messages (bounded number of blocks) and all wrong lengths up to a bound",
 "Tests use two CBC and three ECB vectors of at most two blocks and never a bad length.",
 ["sm4/sm4.go"],[("length checks","sm4/sm4.go NewCipher, ECBEncrypt, ECBDecrypt, CBCEncrypt, CBCDecrypt"),("block loop and CBC chaining","sm4/sm4.go, crypto/cipher CBC")],["sm4.ECBEncrypt/ECBDecrypt/CBCEncrypt/CBCDecrypt"])
p("C07","An SM4 cipher object is immutable and safe to share",
 "Once created, an SM4 cipher depends only on the key value at creation time: later changes to the caller's key slice have no effect. Encrypt and Decrypt write to no memory other than the destination block, so any number of goroutines may use one cipher concurrently and any interleaving gives the same results as separate use.",
 ["schedules","inputs","histories"],"all keys and blocks; all interleavings of calls on one shared cipher (reduced to: no call stores to any location another call reads)",
 "Tests are sequential and use a cipher once.",
 ["sm4/sm4.go"],[("round keys computed once","sm4/sm4.go NewCipher, expandKey"),("stack-local working state","sm4/sm4.go processBlock")],["cipher.Block from sm4.NewCipher"],[("enc,dec","round keys","sm4/sm4.go sm4Cipher")])
p("C08","Padding is exact, reversible and leaves the caller's memory alone",
 "For every input and block size, PKCS5 padding (block sizes 1..255) and zero padding append between one and one full block of padding so that the result is a whole number of blocks starting with the input; PKCS5 padding bytes all equal the padding length, and un-padding restores the input. Padding never writes to memory reachable through the caller's slice, even when that slice has spare capacity.",
 I,"all inputs (bounded length), block sizes 1..255, any spare capacity",
 "Tests pad a few strings for block size 16 as part of SM4 tests, always without spare capacity.",
 ["util/padding.go"],[("padding length arithmetic","util/padding.go PKCS5Padding, ZeroPadding"),("removal","util/padding.go PKCS5UnPadding, UnZeroPadding")],["util.PKCS5Padding/PKCS5UnPadding/ZeroPadding/UnZeroPadding"])
p("C09","Arithmetic helpers compute exactly and never touch their operands",
 "Each big-integer helper (add, subtract, multiply, modulo, modular inverse, shift, and, set-bit) returns the exact mathematical result in a new number and leaves its operands unchanged, also when both operands are the same object. The point-at-infinity test is true exactly for (0,0).",
 I,"all operand values (bounded width where the arithmetic is not linear), including aliased operands",
 "Two tests add 1 and 1 and print the result without asserting anything.",
 ["util/bigint.go","util/ec.go"],[("fresh result variable","util/bigint.go"),("infinity predicate","util/ec.go IsEcPointInfinity")],["util.Add/Sub/Mul/Mod/ModInverse/Lsh/And/SetBit/IsEcPointInfinity"])
p("C10","Every signature the library makes verifies",
 "For every private key d in [1,n-2], every message, every user id (or none) and every nonce the random source may deliver, the (r,s) produced by signing is accepted by verification under the matching public key for the same message and user id.",
 ["inputs","fault_sequences"],"all keys, messages and ids (bounded lengths), all random-source outputs including those that force a retry",
 "Tests sign a few messages with random keys; nonces that force a retry and keys or coordinates with leading zero bytes are practically never drawn.",
 ["sm2/sm2.go","util/bigint.go"],[("signature equation","sm2/sm2.go SignToRS"),("verification equation","sm2/sm2.go VerifyByRS"),("shared digest","sm2/sm2.go calculateE, getZ")],["sm2.SignToRS + sm2.VerifyByRS","sm2.Sign + sm2.Verify"])
p("C11","Signing follows the SM2 equations and never emits a weak signature",
 "A signature is r = (e + x1) mod n and s = (1+d)^-1 (k - r d) mod n, where x1 is the x-coordinate of [k]G for a nonce k in [1,n-1] taken fresh from the random source for each attempt. A nonce giving r = 0, r + k = n or s = 0 is discarded and a new one drawn, and an error of the random source is returned instead of a signature. A private key outside [1,n-2], for which no signature exists, is refused with an error.",
 ["inputs","fault_sequences"],"all keys, digests and nonce sequences (bounded number of retries), random source failures at any draw",
 "Tests only see that a signature verifies; retries and random-source failures never occur.",
 ["sm2/sm2.go"],[("nonce generation","sm2/sm2.go nextK"),("signature equation and rejection","sm2/sm2.go SignToRS")],["sm2.SignToRS"])
p("C12","Verification accepts exactly the valid signatures",
 "Verification returns true if and only if r and s are in [1,n-1], (r+s) mod n is not 0 and (e + x) mod n = r, where (x,y) = [s]G + [t]P is not the point at infinity; every other pair, including out-of-range, negative and zero values, is rejected.",
 I,"all integer pairs (r,s) of bounded width, all public keys on the curve, all digests",
 "Tests only verify valid signatures; nothing is ever rejected in a test.",
 ["sm2/sm2.go","util/ec.go"],[("range checks","sm2/sm2.go VerifyByRS"),("verification equation","sm2/sm2.go VerifyByRS")],["sm2.VerifyByRS"])
p("C13","The signed digest binds user id, curve, key and message",
 "The digest that is signed and verified is SM3(Z || M) with Z = SM3(ENTL || ID || a || b || xG || yG || xA || yA), where ENTL is the 16-bit bit length of the id and every field element occupies exactly 32 bytes whatever its leading zeros. A nil user id means the standard default id 1234567812345678; an empty id means an empty id. An id whose bit length does not fit in ENTL is refused.",
 I,"all keys (including coordinates with leading zero bytes), ids and messages (bounded lengths, including empty)",
 "Tests use the nil id and random keys; a coordinate with a leading zero byte has probability 1/128 per key.",
 ["sm2/sm2.go"],[("Z value","sm2/sm2.go getZ"),("digest","sm2/sm2.go calculateE"),("fixed-width coordinates","sm2/sm2.go bigIntTo32Bytes"),("default id","sm2/sm2.go sm2SignDefaultUserId")],["sm2.SignToRS","sm2.VerifyByRS"])
p("C14","Decryption restores every encrypted message",
 "For every key pair, every plaintext and both ciphertext orders, decrypting an encryption of the plaintext with the matching private key and the same order returns exactly the plaintext, for every nonce the random source may deliver. Encryption always terminates with a ciphertext or an error.",
 ["inputs","fault_sequences"],"all keys, plaintexts of bounded length (including empty and beyond one hash block of key stream), both orders, all nonces",
 "Tests encrypt one 10-byte message with random keys: one key-stream block, no short coordinate, no empty message.",
 ["sm2/sm2.go"],[("encryption","sm2/sm2.go Encrypt"),("decryption","sm2/sm2.go Decrypt"),("key stream","sm2/sm2.go kdf")],["sm2.Encrypt","sm2.Decrypt"])
p("C15","SM2 ciphertexts have the standard contents and layout",
 "A ciphertext is C1 = 04||x1||y1 of [k]G, C2 = M xor KDF(x2||y2), C3 = SM3(x2||M||y2) with (x2,y2) = [k]P, every coordinate 32 bytes, KDF the counter-mode SM3 of GM/T 0003 with counters 1,2,..., concatenated as C1C2C3 or C1C3C2 as requested. A nonce whose key stream is all zero is discarded, an unknown order is refused, and a random-source error is returned.",
 ["inputs","fault_sequences"],"all keys, nonces, plaintexts of bounded length, both orders and arbitrary unknown order values",
 "Tests only check that the library can read its own output back; interoperability is never tested.",
 ["sm2/sm2.go"],[("encryption","sm2/sm2.go Encrypt"),("key derivation","sm2/sm2.go kdf"),("layout","sm2/sm2.go Encrypt")],["sm2.Encrypt"])
p("C16","Decryption releases plaintext only for authentic ciphertexts",
 "Decryption returns a plaintext only if C1 decodes to a point on the curve and C3 equals SM3(x2||M'||y2) for the recovered M', and then returns M'. Every other byte string of any length, whether truncated, with a malformed or off-curve point, with altered C2 or C3, or with an unknown order, is answered by an error and no plaintext, never by a panic.",
 I,"all byte strings of all lengths up to a bound, both orders and unknown order values, all private keys",
 "Tests never decrypt anything but fresh, intact ciphertexts.",
 ["sm2/sm2.go"],[("length and point checks","sm2/sm2.go Decrypt"),("C3 comparison","sm2/sm2.go Decrypt")],["sm2.Decrypt"])
p("C17","The DER form of ciphertexts is faithful and its decoder total",
 "Converting any raw ciphertext (04||x||y||...) to its DER form and back with the same order returns the identical bytes, including coordinates with leading zero bytes. The encoder refuses input that is too short or of unknown order, and the decoder answers any other byte string, including integers that are negative or do not fit in 32 bytes, with an error; neither panics.",
 I,"all raw ciphertexts with bounded payload; arbitrary byte strings and arbitrary DER integers up to a bound for the decoder",
 "Tests convert one random ciphertext per order back and forth.",
 ["sm2/sm2.go"],[("encoder","sm2/sm2.go MarshalCipher"),("decoder","sm2/sm2.go UnmarshalCipher"),("fixed-width coordinates","sm2/sm2.go bigIntTo32Bytes")],["sm2.MarshalCipher","sm2.UnmarshalCipher"])
p("C18","Signature DER encoding is faithful, strict and total",
 "Encoding (r,s) to DER and decoding it returns the same integers for all r and s. The decoder accepts only the one DER encoding of a pair, so appended bytes, non-minimal integers or lengths are errors, and signature verification on arbitrary bytes returns false rather than panicking.",
 I,"all (r,s) in [0,2^256), arbitrary byte strings up to a bound, arbitrary bytes appended to a valid encoding",
 "One fixed signature is decoded in tests; malformed encodings are never tried.",
 ["sm2/sm2.go"],[("codec","sm2/sm2.go MarshalSign, UnmarshalSign"),("DER verification","sm2/sm2.go Verify")],["sm2.MarshalSign","sm2.UnmarshalSign","sm2.Verify"])
p("C19","Key encodings are fixed width and reversible",
 "A public key always serialises to 64 raw bytes (65 with the leading 04) and a private key to 32 bytes, with leading zero bytes preserved, and decoding them gives the same key back on the SM2 curve. Decoders refuse every other length with an error, and the public key computed from a private key is [d]G.",
 I,"all coordinates and scalars below 2^256, all input lengths up to a bound",
 "Tests only print random keys; short values appear with probability 1/256.",
 ["sm2/sm2.go"],[("encoders","sm2/sm2.go GetUnCompressBytes, GetRawBytes"),("decoders","sm2/sm2.go RawBytesToPublicKey, RawBytesToPrivateKey"),("derivation","sm2/sm2.go CalculatePubKey")],["sm2.PublicKey/PrivateKey encoders and decoders"])
p("C20","Key generation yields valid matching key pairs",
 "For every behaviour of the random source, key generation either returns a private key d with 1 <= d <= n-2 together with the public key [d]G on the SM2 curve, or returns the source's error and no key. The curve it uses carries the standard SM2 parameters.",
 ["inputs","fault_sequences"],"all byte streams the random source may deliver (bounded number of redraws) and failures at any read",
 "Tests generate a few random keys and check nothing about range or failure.",
 ["sm2/sm2.go"],[("generation","sm2/sm2.go GenerateKey"),("curve parameters","sm2/sm2.go initSm2P256V1")],["sm2.GenerateKey","sm2.GetSm2P256V1"])
p("C21","Both parties of a key exchange agree on key and confirmations",
 "For all static and ephemeral key pairs, ids and key lengths, responder and initiator derive the same key of the requested length, the initiator accepts the responder's confirmation S1, and the initiator's S2 equals the S2 the responder computed, so final confirmation succeeds.",
 I,"all key pairs and ids, key lengths of bounded size including more than one hash block and lengths that are not a multiple of 8 bits",
 "One test exchanges a 128-bit key with random keys and fixed ids.",
 ["sm2/keyexchange.go"],[("shared point","sm2/keyexchange.go calculateU, reduce"),("key derivation","sm2/keyexchange.go kdfForExch"),("confirmation","sm2/keyexchange.go calculateInnerHash, s1, s2")],["sm2.CalculateKeyWithConfirmation","sm2.ResponderConfirm"])
p("C22","Key exchange follows the standard and refuses wrong confirmations",
 "The shared point is U = [h t](P + [x']R) with x' = 2^127 + (x mod 2^127), the key is KDF(xU||yU||ZA||ZB), S1 and S2 are SM3(02||yU||..) and SM3(03||yU||..) over SM3(xU||ZA||ZB||x1||y1||x2||y2), with every coordinate 32 bytes and A always the initiator. An initiator given no confirmation, or one that differs from S1, gets an error and no key; a peer key that is no point of the curve, or a shared point at infinity, is an error for both roles.",
 I,"all key pairs (including coordinates with leading zero bytes), ids, key lengths of bounded size, arbitrary confirmation tags",
 "The test only compares the two sides of the same implementation and never presents a wrong tag.",
 ["sm2/keyexchange.go"],[("shared point","sm2/keyexchange.go calculateU, reduce"),("key derivation","sm2/keyexchange.go kdfForExch"),("tag check","sm2/keyexchange.go CalculateKeyWithConfirmation")],["sm2.CalculateKeyWithConfirmation"])
p("C23","SM2 operations leave keys, inputs and shared state untouched",
 "Signing, verifying, encrypting, decrypting, key exchange and the codecs modify no argument (keys, messages, ids, signatures, ciphertexts) and no package-level state such as the curve parameters or the default id. Results therefore never depend on earlier or concurrent calls that share the same keys.",
 ["schedules","histories","inputs"],"all arguments within the bounds of the operations; all interleavings of calls sharing keys (reduced to: no call stores to any location that existed before it)",
 "Tests are sequential and never re-inspect their arguments.",
 ["sm2/sm2.go","sm2/keyexchange.go","util/bigint.go"],[("fresh big integers","util/bigint.go"),("copied buffers","sm2/sm2.go Encrypt, Decrypt")],["all exported sm2 operations"])
p("C24","Byte-string readers stay in bounds and account for every byte",
 "On every input and for every requested size, the fixed-size, length-prefixed and byte readers either succeed, returning exactly the next bytes (big-endian for integers) and leaving exactly the rest, or report failure; they never panic and never return bytes outside the input. Skipping, copying and the emptiness test agree with reading.",
 I,"all byte strings up to a bounded length, all requested sizes including negative and huge ones",
 "The package has no tests in this repository.",
 ["cryptobyte/string.go"],[("central bounds check","cryptobyte/string.go read"),("length prefixes","cryptobyte/string.go readLengthPrefixed")],["cryptobyte.String methods"])
p("C25","The ASN.1 element reader accepts exactly DER headers",
 "Reading any ASN.1 element succeeds exactly when the input starts with a low-tag-number identifier followed by a definite length in minimal DER form and at least that many content bytes; then tag, header and contents are split at the right places and the rest remains. Tag-checked, optional, skipping and peeking variants agree with it, and no input makes them panic.",
 I,"all byte strings up to a bounded length with arbitrary header bytes (all length forms, 0..4+ length octets), all tags",
 "The package has no tests; name-constraint parsing, its only user, is not tested either.",
 ["cryptobyte/asn1.go"],[("header decoding","cryptobyte/asn1.go readASN1"),("optional elements","cryptobyte/asn1.go ReadOptionalASN1, SkipOptionalASN1, PeekASN1Tag")],["cryptobyte.String ASN.1 readers"])
p("C26","ASN.1 integers round-trip and only minimal encodings are read",
 "Every int64, uint64, enumerated value and arbitrary-precision integer that is written reads back as the same value and is written in its unique minimal DER form. Readers accept only minimal encodings whose value fits the destination type, reject everything else, and never panic.",
 I,"all int64 and uint64 values, big integers of bounded size including negative ones, all content bytes up to a bounded length",
 "The package has no tests.",
 ["cryptobyte/asn1.go"],[("encoders","cryptobyte/asn1.go addASN1Signed, AddASN1Uint64, AddASN1BigInt"),("minimality and range checks","cryptobyte/asn1.go checkASN1Integer, asn1Signed, asn1Unsigned, readASN1BigInt")],["cryptobyte Builder.AddASN1Int64/Uint64/Enum/BigInt and String.ReadASN1Integer/ReadASN1Enum"])
p("C27","Other ASN.1 values round-trip and are read strictly",
 "Booleans, octet strings, bit strings, NULL and object identifiers that are written read back as the same value. Their readers accept only the DER form (booleans 00 or FF, bit strings with at most 7 zero padding bits, minimally encoded OID arcs) under the right tag, optional readers yield the value or the default according to presence, and no input makes them panic.",
 I,"all booleans, byte strings and OIDs of bounded size and arc width; all content bytes up to a bounded length",
 "The package has no tests.",
 ["cryptobyte/asn1.go"],[("boolean, bit string, OID codecs","cryptobyte/asn1.go AddASN1Boolean/ReadASN1Boolean, AddASN1BitString/ReadASN1BitString, AddASN1ObjectIdentifier/ReadASN1ObjectIdentifier"),("optional readers","cryptobyte/asn1.go ReadOptionalASN1*")],["cryptobyte Builder and String ASN.1 methods"])
p("C28","Length-prefixed building writes exact lengths or fails",
 "A length-prefixed section, nested to any depth, appears in the output as the big-endian length of its contents in the requested width followed by exactly those contents; for ASN.1 elements the length is the minimal DER form, also when it needs several bytes. Contents too long for the prefix make the builder fail instead of producing a wrong prefix.",
 ["inputs","programs"],"all contents; section lengths across every prefix-width boundary up to 70000 bytes; nesting to a bounded depth",
 "The package has no tests; only short name constraints could exercise it.",
 ["cryptobyte/builder.go"],[("length fix-up","cryptobyte/builder.go flushChild"),("nesting","cryptobyte/builder.go addLengthPrefixed")],["cryptobyte.Builder"],[("child, offset, pendingLenLen","open section","cryptobyte/builder.go Builder")])
p("C29","A fixed-size builder never overruns and never truncates",
 "A builder over a fixed buffer either returns exactly the bytes a growing builder would return for the same calls, stored in the given buffer, or reports an error because the capacity is too small. It never reallocates, never writes outside the buffer and never returns partial or corrupted contents.",
 ["inputs","programs"],"all capacities and sequences of plain, length-prefixed and ASN.1 writes (bounded), all contents",
 "The package has no tests and nothing else in the repository uses fixed builders.",
 ["cryptobyte/builder.go"],[("capacity check","cryptobyte/builder.go add"),("propagation of child results","cryptobyte/builder.go flushChild")],["cryptobyte.NewFixedBuilder"])
p("C30","Builder errors are sticky and continuations unwind cleanly",
 "Once a builder has failed, further writes have no effect and the first error is what Bytes reports (and BytesOrPanic panics with). A continuation that panics with a BuildError, at any nesting depth, turns into that error; any other panic propagates unchanged; values that fail to marshal make the builder fail with their error.",
 ["inputs","programs","fault_sequences"],"all sequences of builder calls of bounded length with failures injected at any point and depth",
 "The package has no tests.",
 ["cryptobyte/builder.go"],[("error latch","cryptobyte/builder.go add, AddValue"),("panic recovery","cryptobyte/builder.go callContinuation")],["cryptobyte.Builder"])
p("C31","A certificate request carries what was asked for and is self-signed",
 "Creating a certificate request and parsing it returns the same subject, public key, alternative names and requested extensions, for every public key on the curve and all names within the encodable character sets. The signature is SM2-with-SM3 over exactly the to-be-signed bytes with the given user id, and checking the parsed request verifies exactly those bytes with the embedded key and the given id; a request whose key is not an SM2 key does not verify.",
 I,"all key pairs, SAN contents of bounded count and length, extension payloads, user ids",
 "One test creates one request with one DNS name and an explicit SAN extension.",
 ["sm2/cert/gmx509.go"],[("assembly and signing","sm2/cert/gmx509.go CreateCertificateRequest"),("parsing","sm2/cert/gmx509.go parseCertificateRequest, parseSANExtension"),("check","sm2/cert/gmx509.go VerifyCSRSign, VerifyDERCSRSign")],["cert.CreateCertificateRequest","cert.ParseCertificateRequest","cert.VerifyCSRSign","cert.VerifyDERCSRSign"])
p("C32","An explicitly given extension overrides the derived one exactly once",
 "In requests and certificates, an extension supplied explicitly by the caller suppresses the one that would be derived from the template fields, so each extension id appears at most once, all explicitly supplied ones appear unchanged and in order, and extensions are merged into an existing extension-request attribute. Building never modifies the caller's template.",
 ["inputs","configurations"],"all combinations of template fields and explicit extensions for each supported extension id; symbolic extension contents",
 "One test covers the alternative-name case for requests only.",
 ["sm2/cert/gmx509.go"],[("presence test","sm2/cert/gmx509.go oidInExtensions, buildExtensions"),("attribute merge","sm2/cert/gmx509.go CreateCertificateRequest")],["cert.CreateCertificateRequest","cert.CreateCertificateInfo"])
p("C33","Certificate fields survive issuing and parsing",
 "Key usage (all nine bits), extended key usages, CA flag and path length, subject and authority key ids, OCSP and issuer URLs, alternative names, policies, name constraints and CRL distribution points put in a template come back unchanged from parsing the issued certificate, with key usage and basic constraints marked critical and alternative names critical exactly when the subject is empty. A path length of zero counts as 'no limit' (-1) unless the path-length-zero flag is set. Serial number, validity, subject, issuer and subject public key are those of template, parent and request. An extended key usage that has no identifier is refused with an error.",
 ["inputs","configurations"],"all values of the flag and number fields, byte and string fields of bounded length with symbolic contents",
 "One test issues one certificate and only prints its DNS names.",
 ["sm2/cert/gmx509.go"],[("building","sm2/cert/gmx509.go buildExtensions, CreateCertificateInfo"),("parsing","sm2/cert/gmx509.go parseCertificate, parseNameConstraintsExtension"),("bit order","sm2/cert/gmx509.go reverseBitsInAByte, asn1BitLength")],["cert.CreateCertificateInfo","cert.CreateCertificate","cert.ParseCertificate"])
p("C34","Issued certificates sign exactly the bytes they contain",
 "The certificate issued by a CA key contains as its to-be-signed part exactly the prepared certificate information, signed with SM2-SM3 under the CA key and given user id, and a certificate assembled from an external signature contains that signature unchanged. Parsing returns those to-be-signed bytes and that signature verbatim.",
 I,"all CA keys and user ids, all externally supplied signature byte strings of bounded length",
 "One test assembles a certificate and does not look at its signature.",
 ["sm2/cert/gmx509.go"],[("signing","sm2/cert/gmx509.go IssueCertificateBySoftCAKey"),("assembly","sm2/cert/gmx509.go CreateCertificate"),("parsing","sm2/cert/gmx509.go parseCertificate")],["cert.IssueCertificateBySoftCAKey","cert.CreateCertificate","cert.ParseCertificate"])
p("C35","Parsers refuse foreign algorithms, bad keys and trailing bytes",
 "Parsing a request or certificate succeeds only if the signature algorithm (for a certificate: both inside and outside the signed part) is SM3-with-SM2, the key is an elliptic-curve key on the SM2 curve given as a valid uncompressed point, and nothing follows the structure or the nested values of known extensions. Anything else is an error.",
 I,"all values of the algorithm, curve, point, length and trailing bytes in otherwise valid structures",
 "Tests only parse structures the library itself produced.",
 ["sm2/cert/gmx509.go"],[("algorithm and key checks","sm2/cert/gmx509.go parseCertificateRequest, parseCertificate, parsePublicKey"),("trailing data checks","sm2/cert/gmx509.go")],["cert.ParseCertificateRequest","cert.ParseCertificate"])
p("C36","Name constraints and alternative names are validated when parsed",
 "A certificate whose name constraints contain a non-contiguous IP mask, an IP constraint of the wrong length, a malformed or non-ASCII domain, a malformed mailbox, an IP address as URI host, or no subtree at all is refused, and every well-formed constraint is reported as given. Alternative names with an IP of a length other than 4 or 16 or a URI with an invalid host are refused.",
 I,"all constraint and name contents of bounded length",
 "No test parses name constraints or refuses an alternative name.",
 ["sm2/cert/gmx509.go"],[("constraint checks","sm2/cert/gmx509.go parseNameConstraintsExtension, isValidIPMask, domainToReverseLabels, parseRFC2821Mailbox"),("SAN checks","sm2/cert/gmx509.go parseSANExtension, forEachSAN")],["cert.ParseCertificate"])
p("C37","Critical extensions the parser does not handle are reported",
 "After parsing a certificate, every extension appears in order in the extension list, and an extension that is marked critical but whose id is unknown, or whose contents the parser could not represent (alternative names none of which is of a supported kind, name constraints with a subtree of an unsupported kind), is listed among the unhandled critical extensions; handled or non-critical extensions are not.",
 I,"all extension ids of bounded size near the supported arcs and all criticality flags",
 "No test contains an unknown or critical foreign extension.",
 ["sm2/cert/gmx509.go"],[("dispatch on extension id","sm2/cert/gmx509.go parseCertificate")],["cert.ParseCertificate"])
p("C38","Parsing arbitrary bytes never panics",
 "Whatever bytes are presented as a certificate request or certificate, parsing and request verification return a value or an error; they never panic.",
 I,"arbitrary short byte strings, and valid structures with arbitrary bytes in bounded windows placed anywhere in their variable parts",
 "Tests only parse structures the library itself produced.",
 ["sm2/cert/gmx509.go","cryptobyte/asn1.go","cryptobyte/string.go"],[("error returns in parsers","sm2/cert/gmx509.go")],["cert.ParseCertificateRequest","cert.ParseCertificate","cert.VerifyDERCSRSign"])
p("C39","GeneralizedTime values keep their instant and are read strictly",
 "A time with a year from 0 to 9999 that is written as GeneralizedTime reads back as the same second, whatever its time zone; other years make the builder fail. The reader accepts exactly YYYYMMDDHHMMSS with existing dates and times followed by Z or by a non-zero zone of hours and minutes, and returns that instant; fractions, missing or zero zones, surplus bytes and other tags are refused, never with a panic.",
 I,"instants around calendar boundaries, zones with whole and broken minutes, and every single-byte change, insertion or cut of valid forms",
 "Nothing tests the time functions at all.",
 ["cryptobyte/asn1.go"],[("AddASN1GeneralizedTime / ReadASN1GeneralizedTime","cryptobyte/asn1.go")],["cryptobyte.Builder.AddASN1GeneralizedTime","cryptobyte.String.ReadASN1GeneralizedTime"])
p("C40","A certificate made from a request carries the request's subject, key and names",
 "A template filled from a parsed request and issued gives a certificate with exactly the subject, public key and alternative names of that request, the serial number, validity, usages and key id of the template and the issuer and authority key id of the parent. Filling one template from another request afterwards leaves nothing of the first one, and neither the requests nor the parent are changed.",
 I,"requests with free keys and names in every combination of kinds; one template used for two requests in a row",
 "Tests issue one certificate from one request and compare nothing.",
 ["sm2/cert/gmx509.go"],[("FillCertificateTemplateByCSR / CreateCertificateInfo","sm2/cert/gmx509.go")],["cert.FillCertificateTemplateByCSR","cert.CreateCertificateInfo","cert.CreateCertificate"])
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(P))
