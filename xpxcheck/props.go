package main

const tAI = "abstract interpretation of the Go SSA form (exact polynomial and interval domains, no solver, nothing executed)"

func prop(id string, groups []string, level, technique, note, explanation string, trusted ...string) *propCheck {
	props[id] = &propCheck{id: id, groups: groups, level: level, technique: technique, note: note, explanation: explanation, trusted: trusted}
	return props[id]
}

const trustCurve = "the textbook facts about edwards25519: the addition law is complete (1±d·x1x2y1y2 is never zero on curve points), the curve group has order 8L, B has order L (so no multiple of B has y = 0), p and L are prime"

const trustHash = "crypto/sha256, golang.org/x/crypto (sha3, ripemd160), crypto/aes and crypto/cipher compute the named functions; CBC decryption inverts CBC encryption; equal digests come from equal inputs only (collision freedom)"

// the arithmetic below the protocol, which a property may not depend on
var arithmetic = []string{"scalar.modQ", "scalar.mulAdd", "mul.single", "mul.recode", "mul.double"}

func init() {
	prop("C01", []string{"proto.roundtrip"}, "proof", tAI,
		"Every private key and every message (symbolic bytes, symbolic length). Trusts the analyser's domains, the standard hashes and the stated facts.",
		"Deriving, signing and verifying are interpreted one after the other on a symbolic private key and message, with the contracts of the arithmetic that the same run proves; on every path on which signing returns a signature the verdict must be true.", trustCurve, trustHash)
	prop("C02", []string{"proto.verify"}, "proof", tAI,
		"All signatures, keys and messages (symbolic bytes, symbolic lengths). Trusts the analyser's domains, the standard hashes and the stated facts.",
		"Verification is interpreted on a symbolic public key, message and signature; on each path that returns true the facts must entail every condition of the specification, on each path that returns false they must contradict one.", trustCurve, trustHash)
	prop("C03", []string{"proto.sign"}, "proof", tAI,
		"Every private key and every message (symbolic bytes, symbolic length), every way of configuring the signer. Trusts the analyser's domains, the standard hashes and the stated facts.",
		"Signing is interpreted on symbolic keys and a message of symbolic length; the bytes of R and S must be the terms of the specification, in which hashes are free symbols of their whole input.", trustCurve, trustHash)
	prop("C04", []string{"proto.canonical"}, "proof", tAI,
		"All signatures (symbolic bytes). Trusts the analyser's domains.",
		"IsCanonicalSignature and MakeSignatureCanonical are interpreted on symbolic signatures; true must entail 0 < S < L and false must contradict it; the canonical S must be S mod L and R unchanged.", trustCurve)
	prop("C05", []string{"proto.verify"}, "proof", tAI,
		"All signatures, keys and messages (nil, any length, any bytes). Trusts the analyser's domains and that the standard library does not panic on these calls.",
		"No path of the interpreted verification, for nil, malformed and well-formed signatures of symbolic length, ends in a panic, and the malformed ones return false.", trustCurve, trustHash)
	prop("C06", []string{"proto.derive"}, "proof", tAI,
		"Every private key (symbolic bytes). Trusts the analyser's domains, the standard hashes and the stated facts.",
		"Derivation is interpreted on a symbolic private key; the bytes of the public key must be the encoding of the clamped half of the digest times B.", trustCurve, trustHash)
	prop("C07", []string{"proto.generate"}, "proof", tAI,
		"Every content of the randomness source and every failing or short read. Trusts the analyser's domains and io.ReadFull.",
		"Key generation is interpreted with a randomness source whose bytes are symbols and each of whose reads may fail or come up short; success must have read exactly 32 bytes, which are the private key, and any failure must give an error and no key pair.", trustCurve, trustHash).granted = arithmetic
	prop("C08", []string{"cipher.roundtrip"}, "proof", tAI,
		"All key pairs and messages (symbolic bytes, symbolic length). Trusts the analyser's domains, AES-CBC and the stated facts.",
		"Encryption and then decryption are interpreted on symbolic keys, a message of symbolic length and symbolic randomness; both sides' shared points must be the same multiple, and the cancellation of decryption with encryption must leave the message on every path.", trustCurve, trustHash)
	prop("C09", []string{"cipher.encrypt"}, "proof", tAI,
		"All key pairs, messages and contents of the randomness source. Trusts the analyser's domains, AES-CBC and the stated facts.",
		"Encryption is interpreted on symbolic keys, message and randomness; the output must be the term that the specification gives, and a failing or short read must give an error.", trustCurve, trustHash)
	prop("C10", []string{"cipher.decrypt"}, "proof", tAI,
		"All byte strings (symbolic bytes and length) and key pairs, with and without private keys. Trusts the analyser's domains, AES-CBC and the stated facts.",
		"Decryption is interpreted on an input of symbolic length and bytes; no path may panic, and the facts of each path that returns a plaintext must entail whole blocks and complete padding.", trustCurve, trustHash)
	prop("C11", []string{"field.linear", "field.multiply", "field.square", "field.invert"}, "proof", tAI,
		"All limb vectors in the stated bounds; every path of the limb functions is analysed on the current source. Trusts the analyser's domains.",
		"Every limb function is interpreted on ten symbolic limbs with the bounds of its contract; the resulting limb polynomials are compared with the exact product, sum or difference modulo p, and interval analysis shows every result limb in the bounds and every intermediate in the range of its machine type.")
	prop("C12", []string{"field.encode", "field.decode"}, "proof", tAI,
		"All limb vectors within 1.1·2^26/2^25 and all 32-byte strings. Trusts the analyser's domains.",
		"Encode and Decode are interpreted on symbolic limbs and bytes; Encode's bytes must be the residue of the represented number in [0,p), Decode's limbs must represent the number without its top bit.")
	prop("C13", []string{"scalar.modQ", "scalar.mulAdd"}, "proof", tAI,
		"All 64-byte inputs of modQ and all triples of 32-byte inputs of multiplyAndAddModQ. Trusts the analyser's domains.",
		"The limb code is interpreted on symbolic bytes; the result bytes must be congruent to the exact value modulo L and provably in [0,L), with no overflow on the way.")
	prop("C14", []string{"group.ops", "group.convert"}, "proof", tAI,
		"All operands, given as symbolic affine points with symbolic non-zero projective scales. Trusts the completeness of the addition law and the analyser's domains.",
		"Every operation and conversion on group elements is interpreted on field elements that are symbolic affine coordinates times symbolic scales; the fractions of the result are compared, as rational functions modulo the curve equation, with the twisted Edwards law, and the operands formed on the way are checked against the limb bounds of the field contracts.", trustCurve)
	prop("C15", []string{"mul.single"}, "proof", tAI,
		"All 32-byte scalars with the top byte at most 127, for the built-in table and for the table of any point (symbolic). The selection is run for each value of its digit. Trusts the analyser's domains and the stated facts.",
		"The table building and the scalar multiplication are interpreted on a symbolic point and 32 symbolic scalar bytes: every point operation adds up symbolic multiples, and the multiple of the result must equal the number that the bytes denote. The table selection is interpreted once for every digit value that its argument can take; the points must be in proportion to the digit.", trustCurve)
	prop("C16", []string{"mul.recode", "mul.double"}, "proof", tAI,
		"All scalars below 2^253 (symbolic bits and bytes), every point (symbolic). Trusts the analyser's domains and the stated facts.",
		"The recoding is interpreted on 253 symbolic bits: merged paths carry the invariant that the digits written so far and the bits left over represent the scalar. The multiplication is interpreted on 256 symbolic digits, with the paths of each digit merged; the multiples of A and B that the result is must equal the numbers that the digits represent.", trustCurve)
	prop("C17", []string{"group.encode", "group.decode", "decode.contract"}, "proof", tAI,
		"All points (symbolic affine coordinates and projective scales, every coordinate system) and all 32-byte strings. Trusts the analyser's domains and the stated facts.",
		"Compression is interpreted on a symbolic point and its bytes compared with the canonical y and the parity of x. Decompression is interpreted on 32 symbolic bytes: on every path that returns a point the facts of the path must entail the curve equation for its coordinates, y must be the decoded value and the parity of x the top bit; on every path that returns an error they must entail that the candidate x^2 is a non-square.", trustCurve)
	prop("C18", []string{"consts.field", "consts.group", "consts.exported"}, "proof", tAI,
		"Every package-level constant and table of curve values, as the initialisers of the current source build it. Trusts the analyser's domains.",
		"The package initialisers are interpreted abstractly on constants; each resulting constant and each of the table entries is compared with a value computed independently from the definition of Ed25519.", trustCurve)
	prop("C23", []string{"model.construct"}, "proof", tAI,
		"All strings, byte strings and integers (symbolic bytes, symbolic length). Trusts the analyser's domains, encoding/hex and math/big.",
		"Every constructor is interpreted on symbolic arguments; a path that returns an object must entail that the input is well formed and the object must hold its bytes, and a path that returns an error must contradict it.")
	prop("C24", []string{"model.serial", "model.integer"}, "proof", tAI,
		"All keys and signatures (symbolic bytes), all integers below 2^256 (one run for each length). Trusts the analyser's domains, encoding/hex and math/big.",
		"Serialisers and parsers are interpreted on symbolic keys and signatures, alone and one after the other; the bytes that come out must be the bytes that went in, in order.")
	prop("C25", []string{"model.hash"}, "proof", tAI,
		"All inputs of any length; the variadic helper with 0 to 64 parts (400 in the thorough run). Trusts the analyser's domains and the standard hashes.",
		"Every hash helper is interpreted on inputs of symbolic length; the digest must be the named function's of the whole concatenation.", trustHash)
	prop("C26", []string{"facade.delegate", "facade.default"}, "proof", tAI,
		"All arguments (opaque values) and engines (mocks whose every call is recorded). Trusts the analyser's domains.",
		"The facades are interpreted with mock engines and signers; the recorded calls must carry the very arguments, and the results must be the very results. Without an engine, the results must be those of the default engine with the system's randomness.", trustCurve, trustHash).granted = arithmetic
	prop("C27", []string{"ref.scalar", "ref.multiply", "ref.coords", "ref.decode"}, "proof", tAI,
		"All field elements with limbs in bounds, all points in every coordinate system (symbolic affine coordinates and projective scales), all byte strings of the lengths that are named, all integers below 2^255 or 2^256 (symbolic bytes). Trusts the analyser's domains and math/big.",
		"The methods of MathUtils are interpreted on symbolic numbers and points; integers modulo p are followed as polynomials over the field, denominators of the addition law are non-zero because d is not a square, and every result is compared with the definition that the optimised code is compared with too. The double-and-add loop is followed bit by bit, with the paths of a bit combined into one multiple.", trustCurve)
	prop("C28", []string{"failures"}, "proof", tAI,
		"Every internal step that can fail, made to fail on every path. Trusts the analyser's domains and that the standard hashes do not fail.",
		"Every public operation that returns an error is interpreted with every internal failure as a separate path; each path must return either a nil error and a result or an error and no result.", trustCurve, trustHash).granted = arithmetic
	prop("C29", []string{"equal"}, "proof", tAI,
		"All limb vectors within the bounds, all byte strings of the two lengths, all pairs of points in the same coordinate system. Trusts the analyser's domains.",
		"Every comparison is interpreted on two symbolic values; where it returns true the facts of the path must entail that the values are equal, and where it returns false equality must contradict them.", trustCurve)
	prop("C30", []string{"element.predicates", "element.construct", "element.strings", "element.accessors", "element.coordinates", "keypair.predicates"}, "proof", tAI,
		"All limb vectors in the bounds, all affine coordinates (on the curve or not) and projective scales, all byte strings of any length. Trusts the analyser's domains and encoding/hex.",
		"Every predicate is interpreted on symbolic elements; where it returns true the facts of the path must entail the mathematical condition, where it returns false they must contradict it. The constructors are interpreted on arguments of symbolic length and content, and the result must hold them.")
	prop("C32", []string{"group.refuse"}, "proof", tAI,
		"Every combination of the six coordinate systems and one that does not exist, generic points and scales, every condition of a conditional move; the double multiplication without a table is not covered. Trusts the analyser's domains.",
		"Each operation is interpreted on a generic point in every coordinate system (every pair of them for two operands, every target for conversions); each path must end in a panic, an error or nil, or in the right point.", trustCurve)
	prop("C33", []string{"random.helpers"}, "other", tAI,
		"Every content of the system's randomness, every failing or short read, any length of byte arrays; random points are followed for up to two rejected candidates before the one that is returned. Trusts the analyser's domains and io.ReadFull.",
		"Each helper is interpreted with a randomness source whose bytes are symbols and each of whose reads may fail or come up short; the result must be the term that the statement gives, over the bytes of this call's reads, and only a failing source may make it panic.", trustCurve)
	const tFlow = "interprocedural effect, escape and taint analysis of the Go SSA form (points-to, cloned per call path, flow-insensitive)"
	flowNote := "Every exported function and method, every call path below them, for any arguments. Trusts the analyser and its table of what the standard library writes."
	prop("C20", []string{"flow.caller"}, "proof", tFlow, flowNote,
		"Starting at every exported function with arguments that belong to the caller, the analysis follows every store, copy, append and library write on every call path; none may reach memory of the caller, and no returned bytes, key or signature may share memory with package-level state.")
	prop("C21", []string{"flow.shared"}, "proof", tFlow, flowNote,
		"Starting at every exported function, the analysis follows every store, copy, append and library write on every call path; none may reach package-level state, an engine, or any object of the library that concurrent calls may share (a group element's own explicit precomputation excepted).")
	prop("C31", []string{"flow.fixed"}, "proof", "interprocedural effect analysis of the Go SSA form (cloned per call path, flow-insensitive)",
		"Every exported function and method of the package except those that exist to draw randomness (encryption, key generation, the random helpers), on every call path inside the package and its helper module; library calls by name (clock, environment, random sources, readers, map order, channels, addresses as numbers). Engines of other packages are taken to be deterministic themselves. Trusts the analyser.",
		"Starting at every exported operation that does not exist to draw randomness, the analysis follows every call path; none may reach a random source, a read from a reader that is not the library's own buffer or hash, the clock, the environment, a channel receive or select, an iteration over a map or the numeric value of an address, and none may write state that a later call could see.")
	prop("C22", []string{"flow.secrets"}, "proof", tFlow, flowNote+" Follows explicit data flow; a decision on a secret is the subject of C19.",
		"Private keys, plaintexts and freshly drawn key material are marked, and everything computed from them follows the mark on every call path; no marked value may be an argument of a printing or logging call, an error, a panic value or the string form of anything but a private key.")
	prop("C19", []string{"flow.timing"}, "proof", "interprocedural taint analysis of the Go SSA form (cloned per call path, flow-insensitive) with a possible-bits analysis of the marked conditions",
		"Derivation, signing and the shared key, for every key and message, on every call path inside the library and its helper module. The standard library's own timing is outside the property. Trusts the analyser.",
		"Private keys and everything computed from them are marked on every call path below the three operations; no branch condition, index, slice bound, length, shift count, division operand, string comparison or called function may be marked, unless the bits that its operands can have decide it. The objects that hold the published results (signature parts, public key) are released.")
}
