From db96ea2ec374bab158827970d92460179d8a52db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:42 +0000
Subject: [PATCH 01/13] fix: IsCanonicalSignature compares the whole of S with
 the group order

Only the low 64 bits of S were compared, and only for equality with the low
64 bits of the group order, so S + L was accepted as canonical (signature
malleability) and a valid S whose low 64 bits are zero was rejected.
---
 ed25519_model.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ed25519_model.go b/ed25519_model.go
index 77e25af..f6b043f 100644
--- a/ed25519_model.go
+++ b/ed25519_model.go
@@ -324,8 +324,8 @@ func (ref *Ed25519DsaSigner) Verify(mess []byte, signature *Signature) (res bool
 // IsCanonicalSignature check signature on canonical
 func (ref *Ed25519DsaSigner) IsCanonicalSignature(signature *Signature) bool {
 
-	sgnS := signature.GetS().Uint64()
-	return sgnS != Ed25519Group.GROUP_ORDER.Uint64() && sgnS > 0
+	sgnS := signature.GetS()
+	return sgnS.Sign() > 0 && sgnS.Cmp(Ed25519Group.GROUP_ORDER) < 0
 }
 
 // MakeSignatureCanonical return canonical signature
-- 
2.43.0


From 80bbdd1d41333ed003d3985bb8879f1234951fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:42 +0000
Subject: [PATCH 02/13] fix: Signature.Bytes no longer writes into the buffer
 behind R

append(ref.R, ref.S...) reuses R's spare capacity: for a signature whose R
is the front of a caller's 64 byte slice, it overwrote what follows R.
---
 signature.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/signature.go b/signature.go
index 8d1bae4..e466fc7 100644
--- a/signature.go
+++ b/signature.go
@@ -71,7 +71,7 @@ func (ref *Signature) GetS() *big.Int {
 // Bytes Gets a little-endian 64-byte representation of the signature.
 func (ref *Signature) Bytes() []byte {
 
-	return append(ref.R, ref.S...)
+	return append(append([]byte(nil), ref.R...), ref.S...)
 }
 
 func (ref *Signature) String() string {
-- 
2.43.0


From 791e3eb02d2bc74bbe9dde7215fa2f50e2b607a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:42 +0000
Subject: [PATCH 03/13] fix: Decrypt returns an error for a ciphertext that is
 not whole blocks

CryptBlocks panics on an input that is not a multiple of the block size, so
a truncated message crashed the recipient.
---
 ed25519_model.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ed25519_model.go b/ed25519_model.go
index f6b043f..3a04e42 100644
--- a/ed25519_model.go
+++ b/ed25519_model.go
@@ -94,6 +94,10 @@ func (ref *Ed25519BlockCipher) decode(ciphertext []byte, sharedKey []byte, ivDat
 		return nil, err
 	}
 
+	if len(ciphertext) == 0 || len(ciphertext)%c.BlockSize() != 0 {
+		return nil, errors.New("blocks are corrupted, ciphertext is not a whole number of blocks")
+	}
+
 	dec := cipher.NewCBCDecrypter(c, ivData)
 	buf := make([]byte, len(ciphertext))
 	dec.CryptBlocks(buf, ciphertext)
-- 
2.43.0


From 49223ed84d04356e1cd587e88716767956927b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:42 +0000
Subject: [PATCH 04/13] fix: Encrypt, Decrypt and GetSharedKey return an error
 without a private key

A key pair without private key made them dereference a nil pointer.
---
 ed25519_model.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ed25519_model.go b/ed25519_model.go
index 3a04e42..75941a0 100644
--- a/ed25519_model.go
+++ b/ed25519_model.go
@@ -123,6 +123,10 @@ func (ref *Ed25519BlockCipher) decode(ciphertext []byte, sharedKey []byte, ivDat
 // GetSharedKey create shared bytes
 func (ref *Ed25519BlockCipher) GetSharedKey(privateKey *PrivateKey, publicKey *PublicKey, salt []byte) ([]byte, error) {
 
+	if privateKey == nil {
+		return nil, errors.New("cannot derive a shared key without private key")
+	}
+
 	grA, err := NewEd25519EncodedGroupElement(publicKey.Raw)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 8c50dd5b85cc5a3ed1c903b6d3445050c150355e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:42 +0000
Subject: [PATCH 05/13] fix: Verify rejects a nil signature and parts that are
 not 32 bytes

It panicked on them (nil dereference, index out of range).
---
 ed25519_model.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ed25519_model.go b/ed25519_model.go
index 75941a0..d2ac914 100644
--- a/ed25519_model.go
+++ b/ed25519_model.go
@@ -277,6 +277,10 @@ func (ref *Ed25519DsaSigner) Sign(mess []byte) (*Signature, error) {
 // prevent  panic inside ed25519.Verify
 func (ref *Ed25519DsaSigner) Verify(mess []byte, signature *Signature) (res bool) {
 
+	if signature == nil || len(signature.R) != 32 || len(signature.S) != 32 {
+		return false
+	}
+
 	if !ref.IsCanonicalSignature(signature) {
 		return false
 	}
-- 
2.43.0


From e4cd8433a5dacf56034d5d44d2dd700ede76b5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:42 +0000
Subject: [PATCH 06/13] fix: NewSignatureFromBigInt accepts exactly the 32 byte
 values

It looked at the low 64 bits only: 2^64+1 and -1 were silently truncated,
and every R or S above 2^31 that a real signature has was refused.
---
 signature.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/signature.go b/signature.go
index e466fc7..db7080a 100644
--- a/signature.go
+++ b/signature.go
@@ -7,7 +7,6 @@ package crypto
 import (
 	"encoding/hex"
 	"errors"
-	"math"
 	"math/big"
 
 	"github.com/proximax-storage/go-xpx-utils"
@@ -37,8 +36,8 @@ func NewSignature(r []byte, s []byte) (*Signature, error) {
 // NewSignatureFromBigInt create new Signature from big.Int parts
 func NewSignatureFromBigInt(rInt, sInt *big.Int) (*Signature, error) {
 	if (rInt == nil) || (sInt == nil) ||
-		(rInt.Uint64() > math.MaxInt32) ||
-		(sInt.Uint64() > math.MaxInt32) {
+		(rInt.Sign() < 0) || (rInt.BitLen() > 256) ||
+		(sInt.Sign() < 0) || (sInt.BitLen() > 256) {
 		return nil, errBadParamNewSignatureBigInt
 	}
 
-- 
2.43.0


From d74c593561b635263710d511dbd63310cf76e26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:42 +0000
Subject: [PATCH 07/13] fix: NewPrivateKeyFromBigInt keeps the leading zero
 bytes of the key

big.Int.Bytes drops them, so one key in 256 got a shorter raw form, hence
another public key and a hex string NewPrivateKeyfromHexString refuses.
---
 key_model.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/key_model.go b/key_model.go
index ef1ba0a..5342e1c 100644
--- a/key_model.go
+++ b/key_model.go
@@ -44,7 +44,11 @@ func NewPrivateKey(raw []byte) *PrivateKey {
 
 // NewPrivateKeyFromBigInt creates a new private key from []byte
 func NewPrivateKeyFromBigInt(val *big.Int) *PrivateKey {
-	return &PrivateKey{val, val.Bytes()}
+	raw := val.Bytes()
+	if len(raw) < 32 {
+		raw = append(make([]byte, 32-len(raw)), raw...)
+	}
+	return &PrivateKey{val, raw}
 }
 
 // NewPrivateKeyfromHexString creates a private key from a hex strings.
-- 
2.43.0


From 508e7d26ae90520ba9578cbfbe795051db8d3a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:19 +0000
Subject: [PATCH 08/13] fix: constant-time selection and point encoding no
 longer branch on secrets

cmov, documented as constant-time, branched on the secret digit and returned
a pointer whose address depended on it; Encode branched on the sign of x,
which is secret when the shared key is derived.
---
 ed25519_encode.go | 40 ++++++++++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/ed25519_encode.go b/ed25519_encode.go
index 05b61a7..fdcc992 100644
--- a/ed25519_encode.go
+++ b/ed25519_encode.go
@@ -2313,11 +2313,8 @@ func (ref *Ed25519GroupElement) Encode() (*Ed25519EncodedGroupElement, error) {
 		x := ref.X.multiply(inverse)
 		y := ref.Y.multiply(inverse)
 		s := y.Encode().Raw
-		if x.IsNegative() {
-			s[len(s)-1] |= 0x80
-		} else {
-			s[len(s)-1] |= 0
-		}
+		// the sign of x, without a branch: the element may be secret (shared key)
+		s[len(s)-1] |= (x.Encode().Raw[0] & 1) << 7
 		return NewEd25519EncodedGroupElement(s)
 	}
 	return ref.toP2().Encode()
@@ -2782,12 +2779,35 @@ func (ref *Ed25519GroupElement) negate() (*Ed25519GroupElement, error) {
 // * @return u if b == 1; ref if b == 0; nil otherwise.
 func (ref *Ed25519GroupElement) cmov(u *Ed25519GroupElement, b int) (*Ed25519GroupElement, error) {
 
-	if b == 1 {
-		return u, nil
-	} else if b == 0 {
-		return ref, nil
+	if b&^1 != 0 {
+		return nil, errors.New("parameter 'b' must by in range {0,1}")
+	}
+	if ref.coordinateSystem != u.coordinateSystem {
+		return nil, errors.New("both elements must have the same coordinate system")
 	}
-	return nil, errors.New("parameter 'b' must by in range {0,1}")
+
+	return NewEd25519GroupElement(
+		ref.coordinateSystem,
+		ref.X.cmov(u.X, b),
+		ref.Y.cmov(u.Y, b),
+		ref.Z.cmov(u.Z, b),
+		ref.T.cmov(u.T, b)), nil
+}
+
+// Constant-time conditional move: neither the control flow nor the addresses depend on b.
+// * @param g The field element to return if b == 1.
+// * @param b in {0, 1}
+// * @return a copy of g if b == 1, a copy of ref if b == 0 (nil for a coordinate that is not used).
+func (ref *Ed25519FieldElement) cmov(g *Ed25519FieldElement, b int) *Ed25519FieldElement {
+	if ref == nil || g == nil {
+		return nil
+	}
+
+	var h FieldElements
+	for i := range h {
+		h[i] = ref.Raw[i] + int64(b)*(g.Raw[i]-ref.Raw[i])
+	}
+	return &Ed25519FieldElement{h}
 }
 
 /**
-- 
2.43.0


From 9d14b09f070e67e7e81a838ddf77d2ee7d8cb215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:57 +0000
Subject: [PATCH 09/13] fix: MathUtils no longer writes into the arguments of
 ToGroupElement and XMulY_Plus_ZMulT_DelD

---
 math.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/math.go b/math.go
index 480e390..cb52526 100644
--- a/math.go
+++ b/math.go
@@ -172,8 +172,8 @@ func (ref *mathUtils) ToFieldElement(b *big.Int) *Ed25519FieldElement {
 func (ref *mathUtils) ToGroupElement(bytes []byte) (*Ed25519GroupElement, error) {
 
 	shouldBeNegative := (bytes[31] >> 7) != 0
-	bytes[31] &= 0x7f
 	y := ref.BytesToBigInteger(bytes)
+	y.SetBit(y, 255, 0)
 	x, err := ref.GetAffineXFromAffineY(y, shouldBeNegative)
 	if err != nil {
 		return nil, err
@@ -542,7 +542,7 @@ func (ref *mathUtils) AddGroupElements(g1 *Ed25519GroupElement, g2 *Ed25519Group
 
 func (ref *mathUtils) XMulY_Plus_ZMulT_DelD(x big.Int, y, z, t, d *big.Int) *big.Int {
 	b := &x
-	return b.Mul(b, y).Add(b, (&big.Int{}).Mul(z, t)).Mul(b, d.ModInverse(d, Ed25519Field.P)).Mod(b, Ed25519Field.P)
+	return b.Mul(b, y).Add(b, (&big.Int{}).Mul(z, t)).Mul(b, (&big.Int{}).ModInverse(d, Ed25519Field.P)).Mod(b, Ed25519Field.P)
 }
 
 /** DoubleGroupElement
-- 
2.43.0


From 4b52f7101c9e5f75978909a86a0b354681092e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:47 +0000
Subject: [PATCH 10/13] fix: GetAffineXFromAffineY checks v*x^2 and keeps x
 when it reads its parity

---
 math.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/math.go b/math.go
index cb52526..0cf8b5d 100644
--- a/math.go
+++ b/math.go
@@ -206,7 +206,7 @@ func (ref *mathUtils) GetAffineXFromAffineY(y *big.Int, shouldBeNegative bool) (
 	x := ref.getSqrtOfFraction(u, v)
 
 	vx2 := (&big.Int{}).Mul(v, x)
-	vx2.Mul(v, x)
+	vx2.Mul(vx2, x)
 
 	if v.Sub(vx2, u).Mod(v, Ed25519Field.P).Cmp(bigIntegerZERO()) != 0 {
 		if vx2.Add(vx2, u).Mod(vx2, Ed25519Field.P).Cmp(bigIntegerZERO()) != 0 {
@@ -216,7 +216,7 @@ func (ref *mathUtils) GetAffineXFromAffineY(y *big.Int, shouldBeNegative bool) (
 		x = x.Mul(x, ref.IntsToBigInteger(Ed25519Field.I.Raw)).Mod(x, Ed25519Field.P)
 	}
 
-	isNegative := x.Mod(x, big.NewInt(2)).Cmp(bigIntegerONE()) == 0 // final
+	isNegative := x.Bit(0) == 1
 	if (shouldBeNegative && !isNegative) || (!shouldBeNegative && isNegative) {
 		x = x.Neg(x).Mod(x, Ed25519Field.P)
 	}
-- 
2.43.0


From 23378a6968e2ad18ba8c4517cf8b843590e5fa82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:47 +0000
Subject: [PATCH 11/13] fix: ToRepresentation(PRECOMPUTED) halves y+x and y-x
 instead of inverting them

---
 math.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/math.go b/math.go
index 0cf8b5d..1b1d05d 100644
--- a/math.go
+++ b/math.go
@@ -287,12 +287,11 @@ func (ref *mathUtils) ToRepresentation(g *Ed25519GroupElement, newCoorSys Coordi
 
 		return ref.getNeeCoor(x, y, newCoorSys)
 	case PRECOMPUTED:
-		// safaty gX for next calculation
-		x := (&big.Int{}).Sub(gX, gY)
-		x = x.Mul(x, gZ.Mul(gZ, big.NewInt(2))).ModInverse(x, Ed25519Field.P).Mod(x, Ed25519Field.P)
+		// gX = y + x and gY = y - x
+		two := big.NewInt(2)
+		x := xMulYModInverseAndModP((&big.Int{}).Sub(gX, gY), two)
+		y := xMulYModInverseAndModP((&big.Int{}).Add(gX, gY), two)
 
-		y := gX.Add(gX, gY)
-		y = y.Mul(y, big.NewInt(2)).ModInverse(y, Ed25519Field.P).Mod(y, Ed25519Field.P)
 		return ref.getNeeCoor(x, y, newCoorSys)
 	}
 	return nil, errors.New("NewUnsupportedOperationException")
-- 
2.43.0


From 42d56a4727c2368d06545097a5a15124bc84ef66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:47 +0000
Subject: [PATCH 12/13] fix: XMulY_Plus_ZMulT_DelD no longer writes into the
 words of its first argument

---
 math.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/math.go b/math.go
index 1b1d05d..c8b34e9 100644
--- a/math.go
+++ b/math.go
@@ -540,8 +540,9 @@ func (ref *mathUtils) AddGroupElements(g1 *Ed25519GroupElement, g2 *Ed25519Group
 }
 
 func (ref *mathUtils) XMulY_Plus_ZMulT_DelD(x big.Int, y, z, t, d *big.Int) *big.Int {
-	b := &x
-	return b.Mul(b, y).Add(b, (&big.Int{}).Mul(z, t)).Mul(b, (&big.Int{}).ModInverse(d, Ed25519Field.P)).Mod(b, Ed25519Field.P)
+	// not in x: the caller's number shares its words
+	b := (&big.Int{}).Mul(&x, y)
+	return b.Add(b, (&big.Int{}).Mul(z, t)).Mul(b, (&big.Int{}).ModInverse(d, Ed25519Field.P)).Mod(b, Ed25519Field.P)
 }
 
 /** DoubleGroupElement
-- 
2.43.0


From 37b5c65bf7ef4956bd63f19987585216887de200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:34 +0000
Subject: [PATCH 13/13] fix: the string of a group element without T does not
 panic

Points in affine, P2 and precomputed coordinates have no T; String called a
method on it and dereferenced nil.
---
 ed25519_encode.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ed25519_encode.go b/ed25519_encode.go
index fdcc992..8cce0b9 100644
--- a/ed25519_encode.go
+++ b/ed25519_encode.go
@@ -2919,10 +2919,14 @@ func (ref *Ed25519GroupElement) SatisfiesCurveEquation() bool {
 
 func (ref *Ed25519GroupElement) String() string {
 
-	return fmt.Sprintf(
-		"X=%s\nY=%s\nZ=%s\nT=%s\n",
+	s := fmt.Sprintf(
+		"X=%s\nY=%s\nZ=%s\n",
 		ref.X.String(),
 		ref.Y.String(),
-		ref.Z.String(),
-		ref.T.String())
+		ref.Z.String())
+	// there is no T in affine, P2 and precomputed coordinates
+	if ref.T != nil {
+		s += fmt.Sprintf("T=%s\n", ref.T.String())
+	}
+	return s
 }
-- 
2.43.0

