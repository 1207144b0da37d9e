#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the statements stay reviewable)."""
import json,os
P=[]
def p(id,title,statement,text,why,files,mech,state=(),observe=(),over=("inputs",)):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=list(over),text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
ENC="ed25519_encode.go"; MOD="ed25519_model.go"; CON="ed25519_const.go"; CR="crypto.go"; SIG="signature.go"; KM="key_model.go"; KP="key_pair.go"
p("C01","Every signature that signing produces is accepted by verification",
 "For every 32-byte private key and every message of any length, the signature that signing returns for a key pair whose public key was derived from that private key is accepted when the same message is verified under that public key. This holds for a key pair that carries both keys and for one that carries only the public key.",
 "all private keys, all messages (any length, nil included)",
 "the tests sign a handful of fixed or random messages; a carry, digit or table error that needs a rare scalar or digest value is not reached by them",
 [MOD,ENC,CON,CR,SIG],[("signing",MOD+": Ed25519DsaSigner.Sign"),("verification",MOD+": Ed25519DsaSigner.Verify"),("fixed-base and double-scalar multiplication",ENC+": scalarMultiply, doubleScalarMultiplyVariableTime"),("reduction modulo the group order",ENC+": modQ, multiplyAndAddModQ")],
 observe=["Signer.Sign","Signer.Verify"])
p("C02","Verification accepts exactly the signatures that satisfy the equation",
 "Verification of (R, S) on message M under public key A returns true exactly when R and S are 32 bytes, S read little-endian satisfies 0 < S < L, A is not the all-zero string and decompresses to a curve point, and the 32 bytes of R equal the canonical encoding of S*B - h*A with h = SHA3-512(R || A || M) mod L. Every bit of R, S, A and M takes part: nothing is truncated, masked or skipped.",
 "all messages, all 32-byte public keys, all signatures, adversarially chosen",
 "the tests try a few modified signatures; forgeries that exploit a skipped comparison, a truncated input or a non-canonical S need inputs that no test draws",
 [MOD,ENC,CON,CR,SIG],[("canonical-S check",MOD+": IsCanonicalSignature"),("equation and comparison",MOD+": Ed25519DsaSigner.Verify"),("double-scalar multiplication",ENC+": doubleScalarMultiplyVariableTime"),("point decompression",ENC+": Ed25519EncodedGroupElement.Decode")],
 observe=["Signer.Verify","DsaSigner.Verify"])
p("C03","Signatures are the deterministic EdDSA signatures over SHA3-512",
 "Signing message M with private key k and public key A returns exactly R = enc(r*B) and S = (r + h*a) mod L, where D = SHA3-512(k), a is the first 32 bytes of D clamped (three lowest bits and highest bit cleared, second-highest bit set), r = SHA3-512(D[32..64] || M) mod L and h = SHA3-512(R || A || M) mod L. The nonce depends on nothing else (no randomness, no state), so the same key and message always give the same signature, and a nonce is never computed from less than the whole secret half of D and the whole of M.",
 "all private keys, all messages",
 "a few fixed vectors cannot show that the nonce covers every byte of key and message nor that S is reduced for every digest",
 [MOD,ENC,CR],[("transcript and nonce",MOD+": Ed25519DsaSigner.Sign"),("clamping",ENC+": PrepareForScalarMultiply"),("S",ENC+": multiplyAndAddModQ")],
 observe=["Signer.Sign"],over=("inputs","histories"))
p("C04","Canonical signatures: 0 < S < L, checked on the whole of S and restorable",
 "A signature is reported canonical exactly when the whole 256-bit S satisfies 0 < S < L. Canonicalising a signature keeps R and replaces S by S mod L as 32 little-endian bytes, for every 32-byte S, so adding a multiple of L to S can never give a second accepted signature.",
 "all 32-byte S values, 2^256 of them",
 "the tests use one non-canonical value; comparisons that look at part of S pass them",
 [MOD,ENC],[("check",MOD+": IsCanonicalSignature"),("reduction",MOD+": MakeSignatureCanonical")],
 state=[("group order","L = 2^252 + 27742317777372353535851937790883648493",ENC+": Ed25519Group.GROUP_ORDER")],
 observe=["Signer.IsCanonicalSignature","Signer.MakeSignatureCanonical"])
p("C05","Verification never panics: malformed signatures are just rejected",
 "Verification returns a boolean and never panics for any message, any signature value (nil, parts that are nil or of any length, any bytes) and any 32-byte public key. A signature that is nil or whose parts are not both 32 bytes is rejected. So is every signature under a public key that is shorter than 32 bytes.",
 "all signature contents and lengths, all 32-byte public keys, all messages",
 "the tests only pass well-formed signatures and two or three broken ones",
 [MOD,ENC,SIG],[("length checks",MOD+": Ed25519DsaSigner.Verify"),("digit recoding and table lookups",ENC+": slide, doubleScalarMultiplyVariableTime")],
 observe=["Signer.Verify"])
p("C06","The public key is the clamped SHA3-512 half of the private key times B",
 "The public key derived from a private key k is the 32-byte canonical encoding of a*B, where a is the first 32 bytes of SHA3-512(k) with the three lowest bits and the highest bit cleared and the second-highest bit set. Derivation is a function of the private key bytes alone.",
 "all private keys",
 "the tests check a few vectors out of 2^256 keys; digits, carries and table entries used by other keys are not exercised",
 [MOD,ENC,CON],[("derivation",MOD+": DerivePublicKey"),("clamping",ENC+": PrepareForScalarMultiply"),("fixed-base multiplication",ENC+": scalarMultiply, Select")],
 observe=["KeyGenerator.DerivePublicKey","NewKeyPair"])
p("C07","Generated keys take 32 fresh bytes of the configured entropy, or fail",
 "Generating a key pair reads exactly 32 bytes, completely, from the randomness source of the generator (the system source when none is configured), uses exactly those bytes as the private key, and pairs it with the public key derived from it. When the source fails or delivers fewer bytes, generation returns an error and no key pair.",
 "all behaviours of the randomness source: any bytes, short reads, errors at any point",
 "the tests use a source that always delivers; short reads and failures, and the independence of the key from anything else, are not sampled",
 [MOD,KP,"crypto_engine.go"],[("reading the seed",MOD+": GenerateKeyPair"),("default source",MOD+": NewEd25519KeyGenerator")],
 observe=["KeyGenerator.GenerateKeyPair","NewRandomKeyPair","NewKeyPairByEngine"],over=("inputs","fault_sequences"))
p("C08","Decryption inverts encryption for every message and key pair",
 "For every message of any length (empty included) and any two key pairs, whenever encryption from sender to recipient succeeds, decrypting its output with the same two parties returns exactly the message and no error, both when the recipient holds only its own private key and when both are held.",
 "all messages and lengths, all key pairs with derived public keys, all randomness",
 "the tests round-trip a few short messages; padding at block boundaries, the empty message and long messages are samples at best",
 [MOD,ENC,"cipher_model.go"],[("encryption",MOD+": Ed25519BlockCipher.Encrypt, encode"),("decryption",MOD+": Ed25519BlockCipher.Decrypt, decode"),("key agreement",MOD+": GetSharedKey")],
 observe=["BlockCipher.Encrypt","BlockCipher.Decrypt"])
p("C09","Ciphertexts are salt || IV || AES-256-CBC with fresh salt and IV",
 "Encrypting produces a 32-byte salt and a 16-byte IV, each read completely from the randomness source and used unchanged, followed by the AES-256-CBC encryption of the message padded with PKCS#7, under the key SHA3-256(enc(a*P) xor salt) with a the clamped scalar of the sender's private key and P the recipient's public point. When the source fails or delivers fewer bytes, encryption returns an error and no ciphertext.",
 "all messages, keys and behaviours of the randomness source",
 "round-trip tests pass for any format that both sides agree on (reused salt, fixed IV, unused salt, truncated key), and no test injects a failing source",
 [MOD,ENC],[("format",MOD+": Ed25519BlockCipher.Encrypt"),("padding and CBC",MOD+": encode"),("key",MOD+": GetSharedKey")],
 observe=["BlockCipher.Encrypt","Ed25519BlockCipher.GetSharedKey"],over=("inputs","fault_sequences"))
p("C10","Decryption never panics and returns only correctly padded plaintext",
 "Decryption returns a plaintext or an error, and never panics, for every input byte string, including truncated and arbitrary ones, and every pair of key pairs, including pairs without private keys. It returns a plaintext only when the input is a salt, an IV and one or more whole blocks whose decryption ends in complete PKCS#7 padding, and the plaintext is then that decryption without the padding.",
 "all input byte strings of all lengths; key pairs with 32-byte public keys",
 "the tests decrypt only what encryption produced; the space of malformed inputs is not sampled",
 [MOD],[("length checks",MOD+": Decrypt, decode"),("padding check",MOD+": decode")],
 observe=["BlockCipher.Decrypt"])
p("C11","Field arithmetic is exact modulo 2^255-19 on every limb vector in bounds",
 "Addition, subtraction, negation, multiplication, squaring and inversion of field elements return a representation of the exact result modulo p = 2^255-19 for every limb vector within the documented bounds, without integer overflow. The results stay within the bounds that the callers rely on for their next operation.",
 "all pairs of limb vectors within the documented bounds (about 2^540 of them)",
 "random tests multiply a few values whose limbs are far from the bounds; a carry that is needed only near the bounds, or one wrong term with a small factor, is not hit",
 [ENC],[("schoolbook multiplication and carry chain",ENC+": multiply, squareAndOptionalDouble"),("inversion chain",ENC+": invert, pow2to9, pow2to252sub4")],
 observe=["field element operations used by every group operation"])
p("C12","Field elements encode canonically and decode without loss",
 "Encoding a field element gives the unique 32-byte little-endian representative in [0, p), for every limb vector within bounds. Decoding any 32 bytes gives the element of value (the number read little-endian without its top bit) modulo p, within the limb bounds, so that decoding then encoding reduces modulo p.",
 "all limb vectors within bounds, all 32-byte strings (values in [p, 2^255) included)",
 "values close to p, where the final subtraction matters, have probability about 2^-250 in random tests",
 [ENC],[("reduction",ENC+": modP"),("byte packing",ENC+": Ed25519FieldElement.Encode, Ed25519EncodedFieldElement.Decode")],
 observe=["every encoded key, signature and shared secret"])
p("C13","Scalar arithmetic is exact modulo the group order and fully reduced",
 "Reducing any 64-byte little-endian number gives the 32-byte little-endian representative of it in [0, L), and multiply-and-add of any three 32-byte little-endian numbers a, b, c gives the representative of a*b + c in [0, L). No intermediate result overflows.",
 "all 2^512 digests, all 2^768 triples",
 "random inputs do not reach the carries that matter only for extreme limbs, nor results next to L",
 [ENC],[("reduction",ENC+": modQ"),("multiply-add",ENC+": multiplyAndAddModQ")],
 observe=["nonce, challenge and S of every signature"])
p("C14","The group operations compute the twisted Edwards group law",
 "Addition, subtraction, doubling and the mixed operations with precomputed points return, in every supported coordinate system, the sum, difference or double of their operands on the curve -x^2+y^2 = 1 + d x^2 y^2, for all operands including equal, opposite and neutral ones; conversions between coordinate systems keep the point. All field operands that they form stay within the limb bounds.",
 "all points, all projective representatives, all coordinate systems for which the operation is defined",
 "tests compare a few random points with a slow reference",
 [ENC],[("formulas",ENC+": add, subtract, dbl, precomputedAdd, precomputedSubtract, negate"),("conversions",ENC+": toCoordinateSystem")],
 observe=["every scalar multiplication"])
p("C15","Table-based scalar multiplication computes a*P for every scalar",
 "Scalar multiplication with the table of a point P returns a*P for every scalar a below 2^255, for the built-in table of the base point and for a table computed for any decompressed point. Every table index stays in range and every selection returns the entry of the requested signed digit. Points that operations return carry no table, or their own.",
 "all scalars in [0, 2^255), all points",
 "a few random scalars do not touch all 64 positions times 17 digits, nor all carries of the recoding",
 [ENC,CON],[("recoding",ENC+": toRadix16"),("selection",ENC+": Select"),("accumulation",ENC+": scalarMultiply"),("tables",ENC+": PrecomputeForScalarMultiplication")],
 observe=["public keys, nonce points and shared secrets"])
p("C16","Double scalar multiplication computes b*B - a*A",
 "Double scalar multiplication returns b*B - a*A for all scalars a and b below L and every decompressed point A. Its signed-digit recoding represents each scalar exactly with digits that index the precomputed odd multiples within range.",
 "all pairs of scalars below L, all points A",
 "random scalars seldom produce long carry ripples or digits at the window limits",
 [ENC,CON],[("recoding",ENC+": slide"),("accumulation",ENC+": doubleScalarMultiplyVariableTime"),("tables",ENC+": PrecomputeForDoubleScalarMultiplication")],
 observe=["every verification"])
p("C17","Point compression and decompression are exact and reject non-points",
 "Compressing a point gives the canonical little-endian y with the parity of the affine x in the top bit. Decompressing 32 bytes returns an error exactly when no curve point has that y, and otherwise returns the point with that y, whose x has the parity of the top bit (x = 0 excepted) and which satisfies the curve equation, for every one of the four square-root cases.",
 "all points and representatives, all 32-byte strings",
 "each branch of the square root and each sign is reached by chance only; x = 0 and non-canonical y are not drawn",
 [ENC],[("compression",ENC+": Ed25519GroupElement.Encode"),("square root and sign",ENC+": GetAffineX, Ed25519FieldElementSqrt")],
 observe=["public keys, R, shared secrets"])
p("C18","All built-in curve constants and table entries are right",
 "The field prime, the curve constant d and its double, the square root of -1 (and the exported variables SqrtM1 and A), the group order, the base point, and every one of the 264 precomputed multiples of the base point have exactly the values that Ed25519 defines, and each is within the limb bounds.",
 "all constants and all 264 x 3 x 10 table limbs",
 "a wrong limb in one table entry is used by a small fraction of scalars only",
 [CON,ENC],[("tables",CON+": basePrecSingle, basePrecDouble"),("constants",CON+": d, d2, SqrtM1; "+ENC+": Ed25519Field, init")],
 observe=["every operation"])
p("C19","Secret keys do not influence control flow or memory addresses",
 "While a public key is derived, a message is signed or a shared key is computed, no branch condition, loop bound, array index, slice bound, shift count or division operand inside this library depends on the private key, the nonce or the shared point. Only values that are published (the public key and the signature parts) are released from this rule.",
 "all paths of the signing, derivation and key-agreement code for all secrets",
 "functional tests see only results; a secret-dependent branch or lookup gives the same results",
 [ENC,MOD,CR],[("constant-time selection",ENC+": Select, cmov; "+CR+": isConstantTimeByteEq, isNegativeConstantTime"),("branch-free arithmetic",ENC+": multiply, modQ, Encode")],
 observe=["Signer.Sign","DerivePublicKey","GetSharedKey"],over=("inputs","programs"))
p("C20","No operation modifies the caller's data or hands out shared buffers",
 "Signing, verifying, encrypting, decrypting, deriving keys, hashing, canonicalising and serialising never write to a byte slice, key, signature or key pair that the caller passed in or that an earlier call returned. Each call's freshly computed outputs share no memory with the library's own state.",
 "all operations, all aliasing and spare capacity of the arguments, all sequences of calls",
 "tests do not compare their arguments before and after, and use slices without spare capacity",
 [MOD,ENC,SIG,KM,CR],[("buffers",MOD+": Encrypt, Decrypt, MakeSignatureCanonical"),("serialisation",SIG+": Bytes")],
 observe=["arguments and earlier results after each call"],over=("inputs","histories"))
p("C21","Concurrent use is safe: no shared state is written after start-up",
 "After package initialisation no operation of the library writes to package-level state, or to memory reachable from it or from the shared default engines, such as the base point and its tables. Operations on distinct or shared keys can therefore run concurrently without data races, and no call influences a later one.",
 "all interleavings of any operations in any number of goroutines, all call histories",
 "the tests are sequential and check each call on its own",
 [ENC,CON,MOD,"crypto_engine.go","math.go"],[("copying the base point",ENC+": BASE_POINT, copy"),("lazy tables",ENC+": PrecomputeForScalarMultiplication, PrecomputeForDoubleScalarMultiplication")],
 state=[("base point and tables","shared, read-only after init",ENC+": Ed25519Group; "+CON),("engines","shared defaults","crypto_engine.go: CryptoEngines")],
 observe=["package-level variables"],over=("schedules","histories"))
p("C22","Secrets never reach the output, the log, an error or a panic message",
 "No operation prints, logs, or puts into an error or a panic value anything derived from a private key, a nonce, a shared key or a plaintext. Only an explicit request for the string form of a private key reveals it.",
 "all operations on all paths, failing ones included",
 "tests do not inspect standard output or error texts",
 [MOD,ENC,KM,CR],[("diagnostics",MOD+": Verify; "+ENC+": PrepareForScalarMultiply, Equals")],
 observe=["stdout, errors, panics"])
p("C23","Key and signature constructors accept exactly the well-formed inputs",
 "A key from a hex string is accepted exactly when the string (with a zero prepended if its length is odd) is valid hex of exactly 32 bytes, and then holds those bytes; a signature is accepted exactly from two 32-byte parts, from a byte string of exactly 64 bytes, or from two integers in [0, 2^256) written as 32 little-endian bytes; a key pair with a given public key is accepted exactly when that key is 32 bytes. Everything else yields an error and no object, never a truncated or padded one.",
 "all strings, byte strings and integers",
 "tests use one malformed input per constructor",
 [KM,KP,SIG,ENC],[("keys",KM+": NewPrivateKeyfromHexString, NewPublicKeyfromHex"),("signatures",SIG+": NewSignature, NewSignatureFromBytes, NewSignatureFromBigInt"),("key pairs",KP+": NewKeyPair")],
 observe=["constructors"])
p("C24","Keys and signatures survive serialisation unchanged",
 "The 64 bytes of a signature are R followed by S, and parsing them gives the same R and S; the integer accessors return the little-endian values of the parts, and a signature rebuilt from them has the same parts. The string forms of a signature and of a private or public key are the hex of all their bytes in order, and parsing a 32-byte key's string gives the same key. A private key made from an integer below 2^256 is that integer in exactly 32 big-endian bytes, so that its string parses back too.",
 "all keys and signatures (leading and trailing zero bytes included)",
 "values with leading zero bytes or extreme integers are not sampled",
 [SIG,KM],[("signature",SIG+": Bytes, GetR, GetS, String"),("keys",KM+": String, NewPrivateKeyFromBigInt")],
 observe=["Signature.Bytes, String, GetR, GetS","PrivateKey.String","PublicKey.String"])
p("C25","The hash helpers return the named digest of their whole input",
 "Each hash helper returns the digest of the named function (SHA-256, Keccak-256, SHA3-256, SHA3-512, RIPEMD-160) over all of its input, the concatenation in order of all parts for the variadic one, for inputs of any length and number, without retaining state between calls. They never return a digest together with an error.",
 "all inputs, any number of parts",
 "the tests hash one or two strings; a part that is skipped or a different function on some path is not noticed",
 [CR],[("hash helpers",CR+": HashesSha_256, HashesKeccak_256, HashesSha3_256, HashesSha3_512, HashesRipemd160")],
 observe=["hash helpers"])
p("C26","Facades and defaults delegate unchanged to the configured engine",
 "Signer, key pair and block cipher facades pass their arguments unchanged to the engine or signer that they were built with and return its results unchanged; without an engine they use the default Ed25519 engine, whose randomness source is the system's cryptographic one. A custom engine or randomness source, once configured, is the one that is used for every operation.",
 "all engines, signers, arguments and results",
 "tests with mocks cover single fixed values; a swapped sender and recipient or an ignored engine goes unnoticed when both sides share it",
 ["signer.go",KP,"cipher_model.go","crypto_engine.go",MOD],[("facades","signer.go; cipher_model.go; key_pair.go"),("engine","crypto_engine.go; "+MOD+": Ed25519SeedCryptoEngine")],
 observe=["NewSignerFromKeyPair, NewKeyPair, NewBlockCipher, NewRandomKeyPair"],over=("inputs","configurations"))
p("C27","The reference arithmetic agrees with the optimised arithmetic",
 "The exported big-integer reference arithmetic (MathUtils) computes the same as the optimised implementation. Byte strings, limb vectors, field elements, encoded elements and integers convert into each other without loss (integers of 256 bits or more are refused, field elements take integers below 2^255); reduction and multiply-and-add modulo the group order give the 32-byte representative in [0, L); addition and doubling of points in P2 or P3, negation of P3 points, scalar multiplication f*g and f1*g1 - f2*g2 give exactly that point of the curve in P3 coordinates, and other coordinate systems are refused; converting a point from any coordinate system to any other gives the same point; decompression gives the point of the curve with that y and the parity of x in the top bit (x = 0 excepted) and an error exactly when there is none.",
 "all field elements with limbs in bounds, all points in every coordinate system, all 32- and 64-byte strings, all integers below 2^255 or 2^256; the random helpers are left out",
 "tests compare the two on a few random values, and use the reference as the oracle of everything else: an error in a branch that they rarely take (a square-root case, a coordinate system) makes wrong code look right",
 ["math.go"],[("conversions","math.go: BytesToBigInteger, FieldToBigInteger, IntsToBigInteger, ToByteArray, ToFieldElement, ToEncodedFieldElement"),("points","math.go: AddGroupElements, DoubleGroupElement, NegateGroupElement, ScalarMultiplyGroupElement, doubleScalarMultiplyGroupElements"),("coordinate systems","math.go: ToRepresentation"),("decompression","math.go: ToGroupElement, GetAffineXFromAffineY"),("scalars","math.go: ReduceModGroupOrder, multiplyAndAddModGroupOrder")],observe=["MathUtils"])
p("C28","A failed operation returns its error and no usable result",
 "Whenever signing, encryption, decryption, key generation, shared-key derivation, decoding or construction fails in any internal step (randomness, decoding, missing private key), the caller gets a non-nil error together with a nil result; a nil error always comes with a result. Signing or encrypting without a private key is refused this way.",
 "every failing internal step of every operation",
 "tests provoke almost none of the internal failures",
 [MOD,ENC,KM,KP,SIG,CR],[("error returns",MOD+": Sign, Encrypt, Decrypt, GetSharedKey, GenerateKeyPair")],
 observe=["(result, error) pairs"],over=("inputs","fault_sequences"))
p("C29","Equality compares the mathematical value, not the representation",
 "Field elements compare equal exactly when their values modulo p are equal, encoded elements exactly when all their bytes are equal, and group elements in the same coordinate system exactly when they denote the same point, whatever limbs or projective scale represent them.",
 "all representations of all values",
 "tests compare a few elements with one alternative representation each",
 [ENC,CR],[("field",ENC+": Ed25519FieldElement.Equals, IsNonZero"),("encoded",ENC+": Equals; "+CR+": isEqualConstantTime"),("group",ENC+": Ed25519GroupElement.Equals")],
 observe=["Equals"])
p("C30","Predicates, constructors and strings of elements report the mathematical fact",
 "A field element is negative exactly when its value in [0,p) is odd and non-zero exactly when its value is not 0, whatever limbs represent it; an encoded element is negative when its lowest bit is set and non-zero when any byte is. SatisfiesCurveEquation is true exactly for the coordinates x, y with -x^2+y^2 = 1+d*x^2*y^2, in P2, P3 and P1xP1. Ed25519FieldElementSqrt(u,v) gives x with (v*x^2)^4 = u^4. Encoded field elements are accepted with 32 or 64 bytes, encoded points with 32 bytes, and nothing else; the constructors of elements hold their arguments in the named coordinate system. The strings of field elements are the hex form of their canonical encoding. The accessors of a group element return its coordinates and coordinate system, its string lists the hex forms of those that it has, and the affine coordinates and string of an encoded point give its decoded y and the x of the curve with the encoded sign, or an error exactly when there is none. A public key is compressed exactly when it has 32 bytes; HasPrivateKey and IsPrecomputedForDoubleScalarMultiplication tell whether the private key and the table exist.",
 "all limb vectors in bounds, all coordinates and scales (on the curve or not), all byte strings of any length",
 "tests try few values, almost all of them canonical and on the curve; a predicate that ignores a byte, a limb representation or a coordinate still passes",
 [ENC,KP],[("signs and zero tests",ENC+": IsNegative, IsNonZero"),("curve equation",ENC+": SatisfiesCurveEquation"),("roots",ENC+": Ed25519FieldElementSqrt"),("constructors",ENC+": NewEd25519EncodedFieldElement, NewEd25519EncodedGroupElement, NewEd25519GroupElement..."),("key pairs",KP+": HasPrivateKey; "+ENC+": IsKeyCompressed")],
 observe=["IsNegative","IsNonZero","SatisfiesCurveEquation","IsKeyCompressed","String","GetX","GetAffineX"])
p("C31","Everything but key generation and encryption is fixed by its arguments",
 "Apart from key generation, encryption and the random helpers of the tests, every operation (signing, verifying, deriving keys and shared keys, decrypting, hashing, parsing, arithmetic) depends on its arguments only: it draws no randomness, does not look at the clock, the environment, addresses or scheduling, runs through no map, and leaves nothing behind that a later call could see. The same arguments give the same result at any time, in any order of calls, in any process.",
 "all call histories, all points in time, all environments, all arguments",
 "tests run once, in one order, in one environment, soon after they were written",
 [MOD,ENC,KM,KP,SIG,CR,"math.go","signer.go","cipher_model.go","crypto_engine.go"],[("signing",MOD+": Sign, Verify"),("keys",MOD+": DerivePublicKey, GetSharedKey; "+KP+": NewKeyPair"),("entropy",MOD+": seed fields, io.ReadFull")],
 observe=["results of repeated calls"],over=("inputs","histories"))
p("C32","Group operations refuse coordinates that they are not defined for",
 "A group element exists in one of six coordinate systems, and each operation is defined for some of them. Applied to any other combination, addition, subtraction, doubling, negation, conversion, encoding, the conditional move and the curve equation test refuse: they panic or return an error or nil; they never hand back a group element that is not the sum, difference, double, inverse or same point, or bytes that are not its encoding, or an element that is not in the coordinate system asked for. A conditional move between different coordinate systems, or with a condition other than 0 and 1, gives no element, and a multiplication by means of a table that was never built gives no wrong one.",
 "all combinations of coordinate systems (and unknown ones), all points, all scales, all conditions",
 "tests apply the operations to the coordinates that they are made for; a lost guard shows only when coordinates are mixed up, and then as a wrong point that still looks like one",
 [ENC],[("addition and subtraction",ENC+": add, subtract, precomputedAdd, precomputedSubtract"),("doubling, negation",ENC+": dbl, negate"),("conversions",ENC+": toCoordinateSystem, toP2, toP3, toCached"),("conditional move",ENC+": cmov"),("encoding",ENC+": Encode, SatisfiesCurveEquation")],
 observe=["add","subtract","dbl","toP2","toP3","toCached","Encode"])
p("C33","The random helpers of MathUtils return fresh randomness in full",
 "The random helpers of MathUtils draw from the system's randomness on every call and return what they drew: GetRandomByteArray(n) exactly the n bytes that it read, GetRandomInt64 the little-endian number in the 8 bytes that it read, GetRandomEncodedFieldElement(32 or 64) the bytes that it read without bit 255 (other lengths are refused), GetRandomGroupElement the curve point, in P3, that 32 freshly read bytes encode, after drawing again as long as they encode none, GetRandomEncodedGroupElement the encoding of such a point, and GetRandomFieldElement an element all of whose limbs come from what was read and are ones that the field operations accept. A source that fails or comes up short is a panic, never a result, and nothing else is.",
 "all contents of the randomness source, all failing and short reads, all lengths",
 "tests use the helpers to make their inputs and never look at them; a helper that returns a constant, or zeros after a failed read, makes every test that uses it weaker and none fail",
 ["math.go"],[("bytes and numbers","math.go: random, GetRandomByteArray, GetRandomInt64"),("elements","math.go: GetRandomFieldElement, GetRandomEncodedFieldElement, GetRandomGroupElement, GetRandomEncodedGroupElement")],
 observe=["results of the random helpers"],over=("inputs","fault_sequences"))
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
