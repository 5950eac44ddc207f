From cec8cc75718a53c645a797c079fd36df64a438fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:12 +0000
Subject: [PATCH 01/39] fix: verify signature shares against their committed
 numerator and denominator

---
 sign/share.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sign/share.go b/sign/share.go
index d527dc1..bd148eb 100644
--- a/sign/share.go
+++ b/sign/share.go
@@ -69,18 +69,22 @@ func (t ThresholdEcdsaSigShareInternal) Verify(derivationPath *key.DerivationPat
 	kappaTimesLambdaJ := kappaTimesLambda.EvaluateAt(signerIndex)
 	keyTimesLambdaJ := keyTimesLambda.EvaluateAt(signerIndex)
 	sigmaNum := lambdaj.Clone().ScalarMul(lambdaj, theta)
-	sigmaNum = sigmaNum.AddPoints(sigmaNum, keyTimesLambdaJ.Clone().ScalarMul(kappaTimesLambdaJ, rho))
+	sigmaNum = sigmaNum.AddPoints(sigmaNum, keyTimesLambdaJ.Clone().ScalarMul(keyTimesLambdaJ, rho))
 	sigmaDen := lambdaj.Clone().ScalarMul(lambdaj, randomizer)
 	sigmaDen = sigmaDen.AddPoints(sigmaDen, kappaTimesLambdaJ)
-	if k, ok := t.sigmaNumerator.(*poly2.PedersenCommitmentOpening); ok {
+	if k, ok := t.sigmaNumerator.(poly2.PedersenCommitmentOpening); ok {
 		if sigmaNum.Equal(curve.Point.Pedersen(k[0], k[1])) != 1 {
 			return errors.New("invalid commitment")
 		}
+	} else {
+		return errors.New("unexpected commitment type")
 	}
-	if k, ok := t.sigmaDenominator.(*poly2.PedersenCommitmentOpening); ok {
-		if sigmaNum.Equal(curve.Point.Pedersen(k[0], k[1])) != 1 {
+	if k, ok := t.sigmaDenominator.(poly2.PedersenCommitmentOpening); ok {
+		if sigmaDen.Equal(curve.Point.Pedersen(k[0], k[1])) != 1 {
 			return errors.New("invalid commitment")
 		}
+	} else {
+		return errors.New("unexpected commitment type")
 	}
 	return nil
 }
-- 
2.43.0


From e5b67219faa11ac3c6625d4d1c8b5c0a595f556f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:28 +0000
Subject: [PATCH 02/39] fix: compare scalar values, not Montgomery limbs, in
 IsHigh

---
 curve/k256_scalar.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curve/k256_scalar.go b/curve/k256_scalar.go
index d0942cc..6a384b7 100644
--- a/curve/k256_scalar.go
+++ b/curve/k256_scalar.go
@@ -125,7 +125,7 @@ func (s Secp256k1Scalar) IsZero() int {
 }
 
 func (s Secp256k1Scalar) IsHigh() bool {
-	return s.scalar.Cmp(OrderHalf) > 0
+	return s.scalar.BigInt().Cmp(OrderHalf.BigInt()) > 0
 	return true
 }
 func (s Secp256k1Scalar) MarshalCBOR() ([]byte, error) {
-- 
2.43.0


From 597aba87529d385f6a623825e0105a8cb8a096a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:28 +0000
Subject: [PATCH 03/39] fix: reject non-Pedersen openings when creating a
 signature share

---
 sign/share.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sign/share.go b/sign/share.go
index bd148eb..cbb698f 100644
--- a/sign/share.go
+++ b/sign/share.go
@@ -29,6 +29,8 @@ func NewThresholdEcdsaSigShareInternal(derivationPath *key.DerivationPath, hashe
 	if l, ok := lambda.(poly2.PedersenCommitmentOpening); ok {
 		lambdaValue = l[0]
 		lambdaMask = l[1]
+	} else {
+		return nil, errors.New("unexpected commitment type")
 	}
 	var nu poly2.CommitmentOpening
 	if k, ok := keyTimesLambda.(poly2.PedersenCommitmentOpening); ok {
@@ -37,6 +39,8 @@ func NewThresholdEcdsaSigShareInternal(derivationPath *key.DerivationPath, hashe
 		nuMask := theta.Clone().Mul(theta, lambdaMask)
 		nuMask = nuMask.Add(nuMask, rho.Clone().Mul(rho, k[1]))
 		nu = poly2.PedersenCommitmentOpening{nuValue, nuMask}
+	} else {
+		return nil, errors.New("unexpected commitment type")
 	}
 
 	var mu poly2.CommitmentOpening
@@ -46,6 +50,8 @@ func NewThresholdEcdsaSigShareInternal(derivationPath *key.DerivationPath, hashe
 		muMask := randomizer.Clone().Mul(randomizer, lambdaMask)
 		muMask = muMask.Add(muMask, k[1])
 		mu = poly2.PedersenCommitmentOpening{muValue, muMask}
+	} else {
+		return nil, errors.New("unexpected commitment type")
 	}
 	return &ThresholdEcdsaSigShareInternal{
 		sigmaNumerator:   nu,
-- 
2.43.0


From ed59e7f6f57c4350c88e690e3d9207f6ee782328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:57 +0000
Subject: [PATCH 04/39] fix: convert message hashes longer than the group order
 as ECDSA does

---
 sign/sign.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sign/sign.go b/sign/sign.go
index ffc12c7..4232126 100644
--- a/sign/sign.go
+++ b/sign/sign.go
@@ -15,6 +15,10 @@ func EcdsaConversion(pt curve.EccPoint) (curve.EccScalar, error) {
 }
 
 func ConvertHashToInteger(hashedMsg []byte, curveType curve.EccCurveType) (curve.EccScalar, error) {
+	// as in ECDSA, only the leftmost bytes of a longer hash are used
+	if len(hashedMsg) > curveType.ScalarBytes() {
+		hashedMsg = hashedMsg[:curveType.ScalarBytes()]
+	}
 	return curve.Scalar.FromBytesWide(curveType, hashedMsg)
 }
 
-- 
2.43.0


From 2e53380f1f16c11d201c438e2f7da22af9fcfd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:36 +0000
Subject: [PATCH 05/39] fix: reject point encodings that are out of range or
 not on the curve

---
 curve/k256_point.go | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/curve/k256_point.go b/curve/k256_point.go
index be85de5..b7861d2 100644
--- a/curve/k256_point.go
+++ b/curve/k256_point.go
@@ -6,6 +6,7 @@ import (
 	"github.com/coinbase/kryptology/pkg/core/curves/native/k256"
 	"github.com/coinbase/kryptology/pkg/core/curves/native/k256/fp"
 	"github.com/fxamacker/cbor/v2"
+	"github.com/pkg/errors"
 	"math/big"
 	"math/bits"
 )
@@ -44,26 +45,47 @@ func (e EccK256Point) Deserialize(bytes []byte) (*Secp256k1Point, error) {
 	return e.fromEncodedPoint(ec)
 }
 
+// coordinate decodes an affine coordinate, which must be a reduced field element
+func (e EccK256Point) coordinate(bytes []byte) (*native.Field, error) {
+	v := new(big.Int).SetBytes(bytes)
+	if v.Cmp(fp.K256FpNew().Params.BiModulus) >= 0 {
+		return nil, errors.New("invalid point, coordinate is out of range")
+	}
+	return fp.K256FpNew().SetBigInt(v), nil
+}
+
 func (e EccK256Point) fromUncompressed(xb, yb []byte) (*Secp256k1Point, error) {
-	x := fp.K256FpNew().SetBigInt(new(big.Int).SetBytes(xb))
+	x, err := e.coordinate(xb)
+	if err != nil {
+		return nil, err
+	}
 
-	y := fp.K256FpNew().SetBigInt(new(big.Int).SetBytes(yb))
+	y, err := e.coordinate(yb)
+	if err != nil {
+		return nil, err
+	}
 
 	value := k256.K256PointNew()
 	value.X = x
 	value.Y = y
 	value.Z.SetOne()
+	if !value.IsOnCurve() {
+		return nil, errors.New("invalid point, not on curve")
+	}
 	return &Secp256k1Point{point: value}, nil
 }
 func (e EccK256Point) decompress(bytes []byte, sign int) (*Secp256k1Point, error) {
-	x := fp.K256FpNew().SetBigInt(new(big.Int).SetBytes(bytes))
+	x, err := e.coordinate(bytes)
+	if err != nil {
+		return nil, err
+	}
 
 	value := k256.K256PointNew().Identity()
 	rhs := fp.K256FpNew()
 	p := k256.K256PointNew()
 	p.Arithmetic.RhsEq(rhs, x)
 	// test that rhs is quadratic residue
-	// if not, then this Point is at infinity
+	// if not, then there is no point with this x coordinate
 	y, wasQr := fp.K256FpNew().Sqrt(rhs)
 	if wasQr {
 		// fix the sign
@@ -74,13 +96,15 @@ func (e EccK256Point) decompress(bytes []byte, sign int) (*Secp256k1Point, error
 		value.X = x
 		value.Y = y
 		value.Z.SetOne()
+	} else {
+		return nil, errors.New("invalid point, not on curve")
 	}
 	return &Secp256k1Point{point: value}, nil
 }
 func (e EccK256Point) fromEncodedPoint(encodePoint EncodePoint) (pt *Secp256k1Point, err error) {
 	cd := encodePoint.Coordinates()
 	switch c := cd.(type) {
-	case *IdentityCoordinates:
+	case IdentityCoordinates:
 		pt = e.Identity()
 	case *CompactCoordinates:
 		pt, err = e.decompress(c.x, 0)
-- 
2.43.0


From cf6e6d25fa4b2f8788502d459a130f5e7ad948fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:39 +0000
Subject: [PATCH 06/39] fix: reject empty point encodings and unknown tags

---
 curve/encode.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/curve/encode.go b/curve/encode.go
index e675ab1..cf5ff01 100644
--- a/curve/encode.go
+++ b/curve/encode.go
@@ -120,7 +120,13 @@ func (e encode32) toSize() int {
 }
 
 func (e encode32) FromBytes(input []byte) (EncodePoint, error) {
+	if len(input) == 0 {
+		return nil, errors.New("point decode failed")
+	}
 	tag := Tag(input[0])
+	if tag == Tag(1) || tag > Compact {
+		return nil, errors.New("point decode failed")
+	}
 	expected := tag.MessageLen(e.toSize())
 	if len(input) != expected {
 		return nil, errors.New("point decode failed")
-- 
2.43.0


From 0e237982192341a6aac26853d6d35efbdc5bf245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:42 +0000
Subject: [PATCH 07/39] fix: make room for both coordinates in uncompressed
 point encodings

---
 curve/k256_point.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/curve/k256_point.go b/curve/k256_point.go
index b7861d2..8d19956 100644
--- a/curve/k256_point.go
+++ b/curve/k256_point.go
@@ -184,6 +184,9 @@ func (s Secp256k1Point) encodePoint(compress bool) []byte {
 	}
 	encode := Encode.ConditionalSelect(Encode.FromAffineCoordinates(x.AsBytes(), y.AsBytes(), compress), Encode.Identity(), choice)
 	result := make([]byte, 33, 33)
+	if encode.Len() > len(result) {
+		result = make([]byte, encode.Len())
+	}
 	copy(result[0:encode.Len()], encode.AsBytes())
 	return result
 }
-- 
2.43.0


From aed6032502242962b51e75a36b31e622b4efbb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:45 +0000
Subject: [PATCH 08/39] fix: point addition and subtraction into the right-hand
 operand

---
 curve/k256_point.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/curve/k256_point.go b/curve/k256_point.go
index 8d19956..fa79627 100644
--- a/curve/k256_point.go
+++ b/curve/k256_point.go
@@ -126,6 +126,10 @@ func (s Secp256k1Point) CurveType() EccCurveType {
 func (s *Secp256k1Point) AddPoints(lhs, rhs EccPoint) EccPoint {
 	l := lhs.(*Secp256k1Point)
 	r := rhs.(*Secp256k1Point)
+	if s.point == r.point {
+		// the receiver is overwritten with lhs before rhs is read
+		r = r.Clone().(*Secp256k1Point)
+	}
 	s.point.Add(l.point, r.point)
 	return s
 }
@@ -133,6 +137,10 @@ func (s *Secp256k1Point) AddPoints(lhs, rhs EccPoint) EccPoint {
 func (s *Secp256k1Point) SubPoints(lhs, rhs EccPoint) EccPoint {
 	l := lhs.(*Secp256k1Point)
 	r := rhs.(*Secp256k1Point)
+	if s.point == r.point {
+		// the receiver is overwritten with lhs before rhs is read
+		r = r.Clone().(*Secp256k1Point)
+	}
 	s.point.Sub(l.point, r.point)
 	return s
 }
-- 
2.43.0


From 5e76127edd216080ee6f928bb907012382e93569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:48 +0000
Subject: [PATCH 09/39] fix: strip the curve tag when deserializing tagged
 points and scalars

---
 curve/point.go  | 5 ++++-
 curve/scalar.go | 5 +++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/curve/point.go b/curve/point.go
index 7848ffa..ee77ff9 100644
--- a/curve/point.go
+++ b/curve/point.go
@@ -101,7 +101,10 @@ func (p point) DeserializeTagged(curve EccCurveType, bytes []byte) (EccPoint, er
 	if len(bytes) == 0 {
 		return nil, errors.New("invalid point, bytes is empty")
 	}
-	return p.Deserialize(EccCurveType(bytes[0]), bytes[:])
+	if FromTag(bytes[0]) != curve || curve != K256 {
+		return nil, errors.New("invalid point, curve mismatch")
+	}
+	return p.Deserialize(curve, bytes[1:])
 }
 func (p point) Deserialize(curve EccCurveType, bytes []byte) (EccPoint, error) {
 	if len(bytes) != curve.PointBytes() {
diff --git a/curve/scalar.go b/curve/scalar.go
index de33348..891d8e1 100644
--- a/curve/scalar.go
+++ b/curve/scalar.go
@@ -51,8 +51,9 @@ func (s scalar) DeserializeTagged(bytes []byte) (EccScalar, error) {
 	var err error
 	switch EccCurveType(bytes[0]) {
 	case K256:
-		scalar, err = K256Scalar.Deserialize(bytes[0:])
-
+		scalar, err = K256Scalar.Deserialize(bytes[1:])
+	default:
+		err = errors.New("invalid scalar, unknown curve")
 	}
 	return scalar, err
 }
-- 
2.43.0


From 30c07b2271ac290488789dfaea76d070ddf832be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:48 +0000
Subject: [PATCH 10/39] fix: reject scalar and field element encodings of the
 wrong length

---
 curve/k256_fe.go     | 4 ++++
 curve/k256_scalar.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/curve/k256_fe.go b/curve/k256_fe.go
index 6badaaa..3d285aa 100644
--- a/curve/k256_fe.go
+++ b/curve/k256_fe.go
@@ -5,6 +5,7 @@ import (
 	"github.com/PlatONnetwork/tecdsa/common"
 	"github.com/coinbase/kryptology/pkg/core/curves/native"
 	"github.com/coinbase/kryptology/pkg/core/curves/native/k256/fp"
+	"github.com/pkg/errors"
 	"math/big"
 )
 
@@ -34,6 +35,9 @@ func (e EccK256Field) FromHex(h string) *Secp256k1Field {
 }
 func (EccK256Field) FromBytes(bytes []byte) (*Secp256k1Field, error) {
 	var r [32]byte
+	if len(bytes) != len(r) {
+		return nil, errors.New("invalid field element length")
+	}
 	copy(r[:], common.ReverseBytes(bytes[:]))
 	field, err := fp.K256FpNew().SetBytes(&r)
 	if err != nil {
diff --git a/curve/k256_scalar.go b/curve/k256_scalar.go
index 6a384b7..1529b4a 100644
--- a/curve/k256_scalar.go
+++ b/curve/k256_scalar.go
@@ -5,6 +5,7 @@ import (
 	"github.com/coinbase/kryptology/pkg/core/curves/native"
 	"github.com/coinbase/kryptology/pkg/core/curves/native/k256/fq"
 	"github.com/fxamacker/cbor/v2"
+	"github.com/pkg/errors"
 	"math/big"
 )
 
@@ -21,6 +22,9 @@ type Secp256k1Scalar struct {
 
 func (EccK256Scalar) Deserialize(bytes []byte) (*Secp256k1Scalar, error) {
 	var buf [32]byte
+	if len(bytes) != len(buf) {
+		return nil, errors.New("invalid scalar length")
+	}
 	copy(buf[:], common.ReverseBytes(bytes))
 	field, err := fq.K256FqNew().SetBytes(&buf)
 	if err != nil {
-- 
2.43.0


From b30be5a2199abf2fa541fc742f019acbc1f8ae7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:01 +0000
Subject: [PATCH 11/39] fix: validate the tag and length of CBOR encoded points
 and scalars

---
 curve/k256_point.go  | 4 ++--
 curve/k256_scalar.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/curve/k256_point.go b/curve/k256_point.go
index fa79627..413b8fd 100644
--- a/curve/k256_point.go
+++ b/curve/k256_point.go
@@ -243,10 +243,10 @@ func (s *Secp256k1Point) UnmarshalCBOR(data []byte) error {
 	if err := cbor.Unmarshal(data, &bytes); err != nil {
 		return err
 	}
-	tmp, err := K256Point.Deserialize(bytes[1:])
+	tmp, err := Point.DeserializeTagged(K256, bytes)
 	if err != nil {
 		return err
 	}
-	s.point = tmp.point
+	s.point = tmp.(*Secp256k1Point).point
 	return nil
 }
diff --git a/curve/k256_scalar.go b/curve/k256_scalar.go
index 1529b4a..63a2598 100644
--- a/curve/k256_scalar.go
+++ b/curve/k256_scalar.go
@@ -141,11 +141,11 @@ func (s *Secp256k1Scalar) UnmarshalCBOR(data []byte) error {
 	if err := cbor.Unmarshal(data, &bytes); err != nil {
 		return err
 	}
-	tmp, err := K256Scalar.Deserialize(bytes[1:])
+	tmp, err := Scalar.DeserializeTagged(bytes)
 	if err != nil {
 		return err
 	}
-	s.scalar = tmp.scalar
+	s.scalar = tmp.(*Secp256k1Scalar).scalar
 	return nil
 }
 func (s Secp256k1Scalar) BigInt() *big.Int {
-- 
2.43.0


From 076c06207cb67c89f2f8835cfd74c13269c5fb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:04 +0000
Subject: [PATCH 12/39] fix: reject wide encodings longer than 64 bytes instead
 of panicking or truncating

---
 curve/fe.go     | 8 +++++++-
 curve/scalar.go | 3 +++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/curve/fe.go b/curve/fe.go
index 35277c1..f940160 100644
--- a/curve/fe.go
+++ b/curve/fe.go
@@ -1,6 +1,9 @@
 package curve
 
-import "math/big"
+import (
+	"github.com/pkg/errors"
+	"math/big"
+)
 
 var (
 	Field = field{}
@@ -114,6 +117,9 @@ func (f field) FromBytes(curve EccCurveType, bytes []byte) (fe EccFieldElement,
 
 func (f field) FromBytesWide(curve EccCurveType, bytes []byte) (EccFieldElement, error) {
 	var fe EccFieldElement
+	if len(bytes) > 2*curve.FieldBytes() {
+		return nil, errors.New("invalid field element, too many bytes")
+	}
 	switch curve {
 	case K256:
 		fe = K256Field.FromBytesWide(bytes)
diff --git a/curve/scalar.go b/curve/scalar.go
index 891d8e1..0d931b6 100644
--- a/curve/scalar.go
+++ b/curve/scalar.go
@@ -73,6 +73,9 @@ func (s scalar) Deserialize(curve EccCurveType, bytes []byte) (EccScalar, error)
 
 func (s scalar) FromBytesWide(curve EccCurveType, bytes []byte) (EccScalar, error) {
 	var scalar EccScalar
+	if len(bytes) > 2*curve.ScalarBytes() {
+		return nil, errors.New("invalid scalar, too many bytes")
+	}
 	switch curve {
 	case K256:
 		scalar = K256Scalar.FromWideBytes(bytes)
-- 
2.43.0


From f64eb398ef18f89770f3d67ac35287e8c15184e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:07 +0000
Subject: [PATCH 13/39] fix: return the serialized bytes from ToScalarBytes

---
 curve/scalar.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/curve/scalar.go b/curve/scalar.go
index 0d931b6..6e4d344 100644
--- a/curve/scalar.go
+++ b/curve/scalar.go
@@ -123,6 +123,7 @@ func (s scalar) ToScalarBytes(scalar EccScalar) EccScalarBytes {
 	case K256:
 		var k256 Secp256K1ScalarBytes
 		copy(k256[:], scalar.Serialize())
+		bytes = k256
 	}
 	return bytes
 }
-- 
2.43.0


From 0d004d5d7cd111d9da256a85052c7c2ab0a6e723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:08 +0000
Subject: [PATCH 14/39] fix: accept random oracle inputs of any length that
 fits the length prefix

---
 ro/ro.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ro/ro.go b/ro/ro.go
index 78ee0b3..0b83761 100644
--- a/ro/ro.go
+++ b/ro/ro.go
@@ -42,7 +42,7 @@ func (r *RandomOracle) AddInput(name string, input []byte, ty RandomOracleInputT
 		return errors.New("invalid name length")
 	}
 
-	if len(input) > math.MaxUint8 {
+	if uint64(len(input)) > math.MaxUint32 {
 		return errors.New("invalid input length")
 	}
 	var encodedInput []byte
-- 
2.43.0


From d6cd2f96ba874341f23578975f2ee3c592a36952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:09 +0000
Subject: [PATCH 15/39] fix: use the product proof's own domain separator

---
 zk/product.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zk/product.go b/zk/product.go
index 62d5979..cee2d10 100644
--- a/zk/product.go
+++ b/zk/product.go
@@ -89,7 +89,7 @@ func (p *proofOfProductInstance) Create(seed *seed.Seed, lhs curve.EccScalar, rh
 }
 
 func (p ProofOfProductInstance) HashToChallenge(c1 curve.EccPoint, c2 curve.EccPoint, associatedData []byte) (curve.EccScalar, error) {
-	ro := ro2.NewRandomOracle(ProofOfEqualOpeningsDst)
+	ro := ro2.NewRandomOracle(ProofOfProductDst)
 	ro.AddBytesString("associated_data", associatedData)
 	ro.AddPoint("instance_g", p.g)
 	ro.AddPoint("instance_h", p.h)
-- 
2.43.0


From 9529f557282512d61a83ddd4e72f9ce9144795d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:11 +0000
Subject: [PATCH 16/39] fix: deep copy product proofs when cloning

---
 zk/product.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zk/product.go b/zk/product.go
index cee2d10..2c00978 100644
--- a/zk/product.go
+++ b/zk/product.go
@@ -115,8 +115,8 @@ func (p *ProofOfProduct) Verify(lhsCom curve.EccPoint, rhsCom curve.EccPoint, pr
 }
 func (p *ProofOfProduct) Clone() *ProofOfProduct {
 	return &ProofOfProduct{
-		challenge: p.challenge,
-		response1: p.response1,
-		response2: p.response2,
+		challenge: p.challenge.Clone(),
+		response1: p.response1.Clone(),
+		response2: p.response2.Clone(),
 	}
 }
-- 
2.43.0


From 880341e6cbbea9e2868003998a2114542aaf7dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:24 +0000
Subject: [PATCH 17/39] fix: count only trailing zero coefficients so that
 commitments never truncate

---
 poly/poly.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/poly/poly.go b/poly/poly.go
index 39f8c43..cf6d4e2 100644
--- a/poly/poly.go
+++ b/poly/poly.go
@@ -72,13 +72,11 @@ func (p Polynomial) Coeff(idx int) curve.EccScalar {
 	return curve.Scalar.Zero(p.curve)
 }
 
-/// Return the count of non-zero coefficients
+/// Return the number of coefficients up to the last one which is not zero
 func (p Polynomial) NonZeroCoefficients() int {
 	zeros := 0
-	for _, c := range p.coefficients {
-		if c.IsZero() == 1 {
-			zeros++
-		}
+	for i := len(p.coefficients) - 1; i >= 0 && p.coefficients[i].IsZero() == 1; i-- {
+		zeros++
 	}
 	return len(p.coefficients) - zeros
 }
-- 
2.43.0


From 72142103a5cd70b490ce05d4fc825aefa8ceb56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:37 +0000
Subject: [PATCH 18/39] fix: scale the given polynomial in MulScalar

---
 poly/poly.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/poly/poly.go b/poly/poly.go
index cf6d4e2..d552fde 100644
--- a/poly/poly.go
+++ b/poly/poly.go
@@ -122,7 +122,7 @@ func (p *Polynomial) Mul(lhs, rhs *Polynomial) *Polynomial {
 func (p *Polynomial) MulScalar(lhs *Polynomial, scalar curve.EccScalar) *Polynomial {
 	coeffs := make([]curve.EccScalar, len(lhs.coefficients), len(lhs.coefficients))
 	for i := range coeffs {
-		coeffs[i] = curve.Scalar.Zero(lhs.curve).Mul(p.coefficients[i], scalar)
+		coeffs[i] = curve.Scalar.Zero(lhs.curve).Mul(lhs.coefficients[i], scalar)
 	}
 	p.coefficients = coeffs
 	return p
-- 
2.43.0


From 6d07b5bd1a7dee3f2c976ffa3a6abe758799c4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:51 +0000
Subject: [PATCH 19/39] fix: interpolate samples which already lie on the
 interpolant

---
 poly/poly.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/poly/poly.go b/poly/poly.go
index d552fde..ad3267f 100644
--- a/poly/poly.go
+++ b/poly/poly.go
@@ -179,8 +179,7 @@ func (p polynomial) Interpolate(curveType curve.EccCurveType, samples [][2]curve
 			return nil, errors.New("inv is zero")
 		}
 		diff = diff.Mul(diff, inv)
-		base = base.MulScalar(base, diff)
-		poly = poly.Add(poly, base)
+		poly = poly.Add(poly, Poly.Zero(curveType).MulScalar(base, diff))
 		base = base.Mul(base, Poly.New(curveType, []curve.EccScalar{x.Negate(x), one}))
 	}
 	return poly, nil
-- 
2.43.0


From a7fefb195a20d802fc9493aeb302bfddcfc371d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:05 +0000
Subject: [PATCH 20/39] fix: tag serialized Pedersen openings as Pedersen

---
 poly/commitment.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/poly/commitment.go b/poly/commitment.go
index 97398d7..4f3f6ef 100644
--- a/poly/commitment.go
+++ b/poly/commitment.go
@@ -102,7 +102,7 @@ func (p PedersenCommitmentOpening) Serialize() ([]byte, error) {
 	}
 	c := &commitmentOpeningCbor{
 		CurveType:  p[0].CurveType(),
-		CommitType: Simple,
+		CommitType: Pedersen,
 		Message:    data,
 	}
 	return cbor.Marshal(c)
-- 
2.43.0


From 35d6b3249dff99343d961f9f84faa01ebef32fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:51 +0000
Subject: [PATCH 21/39] fix: check openings of any type without panicking

---
 poly/commitment.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/poly/commitment.go b/poly/commitment.go
index 4f3f6ef..d8ad95b 100644
--- a/poly/commitment.go
+++ b/poly/commitment.go
@@ -39,6 +39,21 @@ type commitmentOpening struct {
 type SimpleCommitmentOpening [1]curve.EccScalar
 type PedersenCommitmentOpening [2]curve.EccScalar
 
+// OpeningValue returns the value of an opening which may be held by reference, as deserialized openings are
+func OpeningValue(opening CommitmentOpening) CommitmentOpening {
+	switch o := opening.(type) {
+	case *SimpleCommitmentOpening:
+		if o != nil {
+			return *o
+		}
+	case *PedersenCommitmentOpening:
+		if o != nil {
+			return *o
+		}
+	}
+	return opening
+}
+
 type commitmentOpeningCbor struct {
 	CurveType  curve.EccCurveType
 	CommitType PolynomialCommitmentType
@@ -242,7 +257,10 @@ func (s *SimpleCommitment) EvaluateAt(evalPoint common.NodeIndex) curve.EccPoint
 }
 
 func (s *SimpleCommitment) CheckOpening(evalPoint common.NodeIndex, opening CommitmentOpening) bool {
-	o := opening.(SimpleCommitmentOpening)
+	o, ok := OpeningValue(opening).(SimpleCommitmentOpening)
+	if !ok {
+		return false
+	}
 	return s.checkOpening(evalPoint, o[0])
 }
 func (s *SimpleCommitment) checkOpening(evalPoint common.NodeIndex, value curve.EccScalar) bool {
@@ -364,7 +382,10 @@ func (p *PedersenCommitment) EvaluateAt(evalPoint common.NodeIndex) curve.EccPoi
 	return evaluateAt(p.points, evalPoint)
 }
 func (p *PedersenCommitment) CheckOpening(evalPoint common.NodeIndex, opening CommitmentOpening) bool {
-	o := opening.(PedersenCommitmentOpening)
+	o, ok := OpeningValue(opening).(PedersenCommitmentOpening)
+	if !ok {
+		return false
+	}
 	return p.checkOpening(evalPoint, o[0], o[1])
 }
 
-- 
2.43.0


From 2f484049e78387acd5670fcc8d943d7c2c675954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:31 +0000
Subject: [PATCH 22/39] fix: accept deserialized openings when combining
 openings and creating signature shares

---
 dealings/commitment.go | 6 +++---
 dealings/transcript.go | 4 ++--
 sign/share.go          | 6 +++---
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/dealings/commitment.go b/dealings/commitment.go
index e7bfb86..b168f24 100644
--- a/dealings/commitment.go
+++ b/dealings/commitment.go
@@ -74,7 +74,7 @@ func (commitmentOpening) CombineOpenings(nodeIndexOpenings []common.NodeIndex, c
 		combinedValue := curve.Scalar.Zero(curveType)
 		combinedMask := curve.Scalar.Zero(curveType)
 		for _, opening := range commitmentOpenings {
-			switch o := opening.(type) {
+			switch o := poly.OpeningValue(opening).(type) {
 			case poly.PedersenCommitmentOpening:
 				combinedValue = combinedValue.Add(combinedValue, o[0])
 				combinedMask = combinedMask.Add(combinedMask, o[1])
@@ -90,7 +90,7 @@ func (commitmentOpening) CombineOpenings(nodeIndexOpenings []common.NodeIndex, c
 			values := make([]curve.EccScalar, 0, len(commitmentOpenings))
 			for i := 0; i < len(commitmentOpenings); i++ {
 				dealerIndex, opening := nodeIndexOpenings[i], commitmentOpenings[i]
-				switch o := opening.(type) {
+				switch o := poly.OpeningValue(opening).(type) {
 				case poly.SimpleCommitmentOpening:
 					xValues = append(xValues, dealerIndex)
 					values = append(values, o[0])
@@ -115,7 +115,7 @@ func (commitmentOpening) CombineOpenings(nodeIndexOpenings []common.NodeIndex, c
 			masks := make([]curve.EccScalar, 0, len(commitmentOpenings))
 			for i := 0; i < len(commitmentOpenings); i++ {
 				dealerIndex, opening := nodeIndexOpenings[i], commitmentOpenings[i]
-				switch o := opening.(type) {
+				switch o := poly.OpeningValue(opening).(type) {
 				case poly.PedersenCommitmentOpening:
 					xValues = append(xValues, dealerIndex)
 					values = append(values, o[0])
diff --git a/dealings/transcript.go b/dealings/transcript.go
index d0f517e..c86fe4b 100644
--- a/dealings/transcript.go
+++ b/dealings/transcript.go
@@ -149,7 +149,7 @@ func ReconstructShareFromOpenings(dealing *IDkgDealingInternal, openings *btree.
 		xValues := make([]common.NodeIndex, 0, openings.Len())
 		values := make([]curve.EccScalar, 0, openings.Len())
 		openings.Scan(func(receiverIndex common.NodeIndex, opening poly.CommitmentOpening) bool {
-			switch o := opening.(type) {
+			switch o := poly.OpeningValue(opening).(type) {
 			case poly.SimpleCommitmentOpening:
 				xValues = append(xValues, receiverIndex)
 				values = append(values, o[0])
@@ -176,7 +176,7 @@ func ReconstructShareFromOpenings(dealing *IDkgDealingInternal, openings *btree.
 		values := make([]curve.EccScalar, 0, openings.Len())
 		masks := make([]curve.EccScalar, 0, openings.Len())
 		openings.Scan(func(receiverIndex common.NodeIndex, opening poly.CommitmentOpening) bool {
-			switch o := opening.(type) {
+			switch o := poly.OpeningValue(opening).(type) {
 			case poly.PedersenCommitmentOpening:
 				xValues = append(xValues, receiverIndex)
 				values = append(values, o[0])
diff --git a/sign/share.go b/sign/share.go
index cbb698f..bbfedb3 100644
--- a/sign/share.go
+++ b/sign/share.go
@@ -26,14 +26,14 @@ func NewThresholdEcdsaSigShareInternal(derivationPath *key.DerivationPath, hashe
 	theta := e.Add(e, rho.Clone().Mul(rho, keyTweak))
 	var lambdaValue curve.EccScalar
 	var lambdaMask curve.EccScalar
-	if l, ok := lambda.(poly2.PedersenCommitmentOpening); ok {
+	if l, ok := poly2.OpeningValue(lambda).(poly2.PedersenCommitmentOpening); ok {
 		lambdaValue = l[0]
 		lambdaMask = l[1]
 	} else {
 		return nil, errors.New("unexpected commitment type")
 	}
 	var nu poly2.CommitmentOpening
-	if k, ok := keyTimesLambda.(poly2.PedersenCommitmentOpening); ok {
+	if k, ok := poly2.OpeningValue(keyTimesLambda).(poly2.PedersenCommitmentOpening); ok {
 		nuValue := theta.Clone().Mul(theta, lambdaValue)
 		nuValue = nuValue.Add(nuValue, rho.Clone().Mul(rho, k[0]))
 		nuMask := theta.Clone().Mul(theta, lambdaMask)
@@ -44,7 +44,7 @@ func NewThresholdEcdsaSigShareInternal(derivationPath *key.DerivationPath, hashe
 	}
 
 	var mu poly2.CommitmentOpening
-	if k, ok := kappaTimesLambda.(poly2.PedersenCommitmentOpening); ok {
+	if k, ok := poly2.OpeningValue(kappaTimesLambda).(poly2.PedersenCommitmentOpening); ok {
 		muValue := randomizer.Clone().Mul(randomizer, lambdaValue)
 		muValue = muValue.Add(muValue, k[0])
 		muMask := randomizer.Clone().Mul(randomizer, lambdaMask)
-- 
2.43.0


From 334aec3e4f19f9b691ed8a8dd398fac693da563b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:51 +0000
Subject: [PATCH 23/39] fix: commitments of different types are not equal

---
 poly/commitment.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/poly/commitment.go b/poly/commitment.go
index d8ad95b..50d97ff 100644
--- a/poly/commitment.go
+++ b/poly/commitment.go
@@ -220,7 +220,7 @@ func (s *SimpleCommitment) Len() int {
 	return len(s.points)
 }
 func (s *SimpleCommitment) Equal(other PolynomialCommitment) int {
-	if s.Len() != other.Len() {
+	if s.Len() != other.Len() || s.Type() != other.Type() {
 		return 0
 	}
 	for i := range s.points {
@@ -346,7 +346,7 @@ func (p *PedersenCommitment) Len() int {
 	return len(p.points)
 }
 func (p *PedersenCommitment) Equal(other PolynomialCommitment) int {
-	if p.Len() != other.Len() {
+	if p.Len() != other.Len() || p.Type() != other.Type() {
 		return 0
 	}
 	for i := range p.points {
-- 
2.43.0


From 8596348fe82e24e80aba74bca089ddb619162379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:10 +0000
Subject: [PATCH 24/39] fix: report malformed openings when deserializing

---
 poly/commitment.go | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/poly/commitment.go b/poly/commitment.go
index 50d97ff..8679a66 100644
--- a/poly/commitment.go
+++ b/poly/commitment.go
@@ -73,16 +73,40 @@ func (commitmentOpening) Deserialize(data []byte) (CommitmentOpening, error) {
 	case Simple:
 		switch c.CurveType {
 		case curve.K256:
+			var scalars []*curve.Secp256k1Scalar
+			if err := cbor.Unmarshal(c.Message, &scalars); err != nil {
+				return nil, err
+			}
 			o := &SimpleCommitmentOpening{curve.Scalar.Zero(c.CurveType)}
-			cbor.Unmarshal(c.Message, &o)
+			if len(scalars) != len(o) {
+				return nil, errors.New("unexpected number of scalars")
+			}
+			for i, scalar := range scalars {
+				if scalar == nil {
+					return nil, errors.New("missing scalar")
+				}
+				o[i] = scalar
+			}
 			return o, nil
 		}
 
 	case Pedersen:
 		switch c.CurveType {
 		case curve.K256:
+			var scalars []*curve.Secp256k1Scalar
+			if err := cbor.Unmarshal(c.Message, &scalars); err != nil {
+				return nil, err
+			}
 			o := &PedersenCommitmentOpening{curve.Scalar.Zero(c.CurveType), curve.Scalar.Zero(c.CurveType)}
-			cbor.Unmarshal(c.Message, &o)
+			if len(scalars) != len(o) {
+				return nil, errors.New("unexpected number of scalars")
+			}
+			for i, scalar := range scalars {
+				if scalar == nil {
+					return nil, errors.New("missing scalar")
+				}
+				o[i] = scalar
+			}
 			return o, nil
 		}
 	}
-- 
2.43.0


From 451ddc3c4459a007d083dacab986da4571931147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:29 +0000
Subject: [PATCH 25/39] fix: deserialize Pedersen commitments and reject
 missing points

---
 poly/commitment.go | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/poly/commitment.go b/poly/commitment.go
index 8679a66..48a02e5 100644
--- a/poly/commitment.go
+++ b/poly/commitment.go
@@ -441,6 +441,20 @@ type PolynomialCommitment interface {
 	Clone() PolynomialCommitment
 }
 
+func toPoints(ps []*curve.Secp256k1Point) ([]curve.EccPoint, error) {
+	if len(ps) == 0 {
+		return nil, errors.New("commitment without points")
+	}
+	points := make([]curve.EccPoint, len(ps), len(ps))
+	for i, p := range ps {
+		if p == nil {
+			return nil, errors.New("missing point")
+		}
+		points[i] = p
+	}
+	return points, nil
+}
+
 type polynomialCommitment struct{}
 
 func (polynomialCommitment) Deserialize(bytes []byte) (PolynomialCommitment, error) {
@@ -456,13 +470,25 @@ func (polynomialCommitment) Deserialize(bytes []byte) (PolynomialCommitment, err
 			if err := cbor.Unmarshal(c.Message, &ps); err != nil {
 				return nil, err
 			}
-			points := make([]curve.EccPoint, len(ps), len(ps))
-			for i, _ := range points {
-				points[i] = ps[i]
+			points, err := toPoints(ps)
+			if err != nil {
+				return nil, err
 			}
 			return &SimpleCommitment{points: points}, nil
 		}
 	case Pedersen:
+		switch c.CurveType {
+		case curve.K256:
+			var ps []*curve.Secp256k1Point
+			if err := cbor.Unmarshal(c.Message, &ps); err != nil {
+				return nil, err
+			}
+			points, err := toPoints(ps)
+			if err != nil {
+				return nil, err
+			}
+			return &PedersenCommitment{points: points}, nil
+		}
 	}
 	return nil, errors.New("invalid commitment")
 
-- 
2.43.0


From 6fb076b2f8b093ac766309d0fecce2b8e889133e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:56 +0000
Subject: [PATCH 26/39] fix: compare a transcript with the other one, not with
 itself

---
 dealings/transcript_operation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dealings/transcript_operation.go b/dealings/transcript_operation.go
index e2eeb5a..b85efe2 100644
--- a/dealings/transcript_operation.go
+++ b/dealings/transcript_operation.go
@@ -18,6 +18,6 @@ func (t IDkgTranscriptInternal) EvaluateAt(evalPoint common.NodeIndex) curve.Ecc
 }
 func (t IDkgTranscriptInternal) Compare(other IDkgTranscriptInternal) int {
 	lhs := t.CombinedCommitment.StableRepresentation()
-	rhs := t.CombinedCommitment.StableRepresentation()
+	rhs := other.CombinedCommitment.StableRepresentation()
 	return bytes.Compare(lhs, rhs)
 }
-- 
2.43.0


From c81c7022aef9bb358b93865ce83a497dfd61992a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:58 +0000
Subject: [PATCH 27/39] fix: reject product dealings without a proof instead of
 panicking

---
 dealings/dealings.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dealings/dealings.go b/dealings/dealings.go
index 0f24024..d8c1c07 100644
--- a/dealings/dealings.go
+++ b/dealings/dealings.go
@@ -164,7 +164,7 @@ func (dealing IDkgDealingInternal) PubliclyVerify(curveType curve.EccCurveType,
 				return errors.New("invalid commitment")
 			}
 		}
-	} else if t, ok := transcriptType.(*UnmaskedTimesMaskedTranscript); ok && dealing.Proof.Type() == ProofOfProduct {
+	} else if t, ok := transcriptType.(*UnmaskedTimesMaskedTranscript); ok && dealing.Proof != nil && dealing.Proof.Type() == ProofOfProduct {
 		if err := dealing.Commitment.VerifyIs(poly2.Pedersen, curveType); err != nil {
 			return err
 		}
-- 
2.43.0


From ddee6a57441c5279e2bf35ae769b1c93474c0109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:59 +0000
Subject: [PATCH 28/39] fix: check resharings of a transcript's combined
 commitment against the previous sharing

---
 dealings/dealings.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/dealings/dealings.go b/dealings/dealings.go
index d8c1c07..ef22d8a 100644
--- a/dealings/dealings.go
+++ b/dealings/dealings.go
@@ -156,13 +156,8 @@ func (dealing IDkgDealingInternal) PubliclyVerify(curveType curve.EccCurveType,
 		if err := dealing.Ciphertext.VerifyIs(mega.CiphertextSingle, curveType); err != nil {
 			return err
 		}
-		switch c := t.P1.(type) {
-		case *poly2.PedersenCommitment:
-			return errors.New("unexpected commitment type")
-		case *poly2.SimpleCommitment:
-			if c.EvaluateAt(dealerIndex).Equal(dealing.Commitment.ConstantTerm()) != 1 {
-				return errors.New("invalid commitment")
-			}
+		if t.P1.EvaluateAt(dealerIndex).Equal(dealing.Commitment.ConstantTerm()) != 1 {
+			return errors.New("invalid commitment")
 		}
 	} else if t, ok := transcriptType.(*UnmaskedTimesMaskedTranscript); ok && dealing.Proof != nil && dealing.Proof.Type() == ProofOfProduct {
 		if err := dealing.Commitment.VerifyIs(poly2.Pedersen, curveType); err != nil {
-- 
2.43.0


From f41a926b79e7bcfdd15aab3ec0c1acdfc1dded06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:01 +0000
Subject: [PATCH 29/39] fix: require a masked resharing's previous commitment
 to be a Pedersen one

---
 dealings/dealings.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dealings/dealings.go b/dealings/dealings.go
index ef22d8a..4eb83fe 100644
--- a/dealings/dealings.go
+++ b/dealings/dealings.go
@@ -143,6 +143,9 @@ func (dealing IDkgDealingInternal) PubliclyVerify(curveType curve.EccCurveType,
 		if err := dealing.Ciphertext.VerifyIs(mega.CiphertextSingle, curveType); err != nil {
 			return err
 		}
+		if err := t.P1.VerifyIs(poly2.Pedersen, curveType); err != nil {
+			return err
+		}
 		if err := dealing.Proof.(*MaskedResharingProof).Verify(t.P1.EvaluateAt(dealerIndex), dealing.Commitment.ConstantTerm(), ad); err != nil {
 			return err
 		}
-- 
2.43.0


From 2b104aac374a40510d9a0c4837ddc409b2cfc40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:03 +0000
Subject: [PATCH 30/39] fix: reject negative thresholds when creating a dealing

---
 dealings/dealings.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dealings/dealings.go b/dealings/dealings.go
index 4eb83fe..3751a8f 100644
--- a/dealings/dealings.go
+++ b/dealings/dealings.go
@@ -58,7 +58,7 @@ type IDkgDealingInternal struct {
 }
 
 func NewIDkgDealingInternal(shares SecretShares, curveType curve.EccCurveType, seed *seed.Seed, threshold int, recipients []*mega.MEGaPublicKey, dealerIndex common.NodeIndex, ad []byte) (*IDkgDealingInternal, error) {
-	if threshold == 0 || threshold > len(recipients) {
+	if threshold <= 0 || threshold > len(recipients) {
 		return nil, errors.New("invalid threshold")
 	}
 
-- 
2.43.0


From bffd27714215f7b2e4c2d00363fe64235cdf4be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:04 +0000
Subject: [PATCH 31/39] fix: return usable secret shares, or an error, when
 converting openings

---
 dealings/secret_shares.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dealings/secret_shares.go b/dealings/secret_shares.go
index 255558d..feafd49 100644
--- a/dealings/secret_shares.go
+++ b/dealings/secret_shares.go
@@ -41,7 +41,7 @@ func (secretShares) From(cob1 poly.CommitmentOpeningBytes, cob2 poly.CommitmentO
 	switch cm1 := cob1.(type) {
 	case *poly.SimpleCommitmentOpeningBytes:
 		if cob2 == nil {
-			share = ReshareOfUnmaskedSecret{S1: cm1[0].ToScalar()}
+			share = &ReshareOfUnmaskedSecret{S1: cm1[0].ToScalar()}
 		} else {
 			if p, ok := cob2.(*poly.PedersenCommitmentOpeningBytes); ok {
 				s1 := cm1[0].ToScalar()
@@ -60,6 +60,8 @@ func (secretShares) From(cob1 poly.CommitmentOpeningBytes, cob2 poly.CommitmentO
 			return nil, errors.New("inconsistent combination of commitment types")
 		}
 		share = &ReshareOfMaskedSecret{S1: cm1[0].ToScalar(), S2: cm1[1].ToScalar()}
+	default:
+		return nil, errors.New("unknown commitment type")
 	}
 	return share, nil
 }
-- 
2.43.0


From 40d1d62c6ae777ecdd7b510fc75caa8411524e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:04 +0000
Subject: [PATCH 32/39] fix: reject unknown secret shares instead of creating
 an empty dealing

---
 dealings/dealings.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dealings/dealings.go b/dealings/dealings.go
index 3751a8f..e357bd4 100644
--- a/dealings/dealings.go
+++ b/dealings/dealings.go
@@ -113,6 +113,8 @@ func NewIDkgDealingInternal(shares SecretShares, curveType curve.EccCurveType, s
 		}
 		pf, err := zk.ProofOfProductIns.Create(seed.Derive(zk.ProofOfProductDst), s.Left, s.Right[0], s.Right[1], product, productMasking, ad)
 		proof = &ProductProof{pf}
+	default:
+		return nil, errors.New("unknown secret shares")
 	}
 
 	return &IDkgDealingInternal{ciphertext, commitment, proof}, nil
-- 
2.43.0


From 3e3be639d061dfa59699e8191d996603a329f90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:59 +0000
Subject: [PATCH 33/39] fix: interpolate only dealings whose commitments have
 the requested type

---
 dealings/transcript.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dealings/transcript.go b/dealings/transcript.go
index c86fe4b..c69d6a1 100644
--- a/dealings/transcript.go
+++ b/dealings/transcript.go
@@ -25,11 +25,19 @@ type UnmaskedTimesMaskedTranscript struct {
 func CombineCommitmentsViaInterpolation(commitmentType poly.PolynomialCommitmentType, curveType curve.EccCurveType, reconstructionThreshold int, verifiedDealings *btree.Map[common.NodeIndex, *IDkgDealingInternal]) (CombinedCommitment, error) {
 	commitments := make([]poly.PolynomialCommitment, 0, verifiedDealings.Len())
 	indexes := make([]common.NodeIndex, 0, verifiedDealings.Len())
+	var err error
 	verifiedDealings.Scan(func(index common.NodeIndex, dealing *IDkgDealingInternal) bool {
+		if dealing.Commitment.Type() != commitmentType {
+			err = errors.New("unexpected commitment type")
+			return false
+		}
 		indexes = append(indexes, index)
 		commitments = append(commitments, dealing.Commitment.Clone())
 		return true
 	})
+	if err != nil {
+		return nil, err
+	}
 	coefficients, err := poly.Lagrange.AtZero(curveType, indexes)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From aa3782f1bb67f9104501b56913558bdc8c29f71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:59 +0000
Subject: [PATCH 34/39] fix: reject unknown transcript operations instead of
 returning an empty transcript

---
 dealings/transcript.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dealings/transcript.go b/dealings/transcript.go
index c69d6a1..5aa1e1e 100644
--- a/dealings/transcript.go
+++ b/dealings/transcript.go
@@ -126,6 +126,8 @@ func NewTranscriptInternal(curveType curve.EccCurveType, reconstructionThreshold
 		if err != nil {
 			return nil, err
 		}
+	default:
+		return nil, errors.New("unknown transcript operation")
 	}
 	return &IDkgTranscriptInternal{CombinedCommitment: combinedCommitment}, nil
 }
-- 
2.43.0


From 9a3b5f651f16f64b6c85f417824e582ffba1a8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:00 +0000
Subject: [PATCH 35/39] fix: use the child key of the next index when an index
 has none

---
 key/key_derivation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/key/key_derivation.go b/key/key_derivation.go
index 9c45197..d4fabd5 100644
--- a/key/key_derivation.go
+++ b/key/key_derivation.go
@@ -84,7 +84,7 @@ func ckdpub(pk curve.EccPoint, chainKey []byte, index DerivationIndex) (curve.Ec
 	newChainKey := output[32:]
 	newKey := pk.Clone().AddPoints(pk, curve.Point.MulByG(keyOffset))
 	if !bytes.Equal(keyOffset.Serialize(), output[:32]) || newKey.IsInfinity() {
-		ckdpub(pk, chainKey, index.Next())
+		return ckdpub(pk, chainKey, index.Next())
 	}
 	return newKey, newChainKey, keyOffset, nil
 }
-- 
2.43.0


From 45ce93f5ca0e06da809cfe93936a38b2e4f42783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:34 +0000
Subject: [PATCH 36/39] fix: fill buffers with the random stream whatever they
 held before

---
 rand/chacha20.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rand/chacha20.go b/rand/chacha20.go
index 7791a4c..e395142 100644
--- a/rand/chacha20.go
+++ b/rand/chacha20.go
@@ -33,6 +33,9 @@ func (c ChaCha20) Uint64() uint64 {
 }
 
 func (c *ChaCha20) FillUint8(res []uint8) {
+	for i := range res {
+		res[i] = 0
+	}
 	c.cipher.XORKeyStream(res, res)
 }
 
-- 
2.43.0


From 59cba2463cf05c771a824e24b0f0492ca477108c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:48 +0000
Subject: [PATCH 37/39] verif: export commitment deserialization under the
 verif build tag

---
 poly/verif_hooks.go | 9 +++++++++
 1 file changed, 9 insertions(+)
 create mode 100644 poly/verif_hooks.go

diff --git a/poly/verif_hooks.go b/poly/verif_hooks.go
new file mode 100644
index 0000000..b589093
--- /dev/null
+++ b/poly/verif_hooks.go
@@ -0,0 +1,9 @@
+//go:build verif
+
+package poly
+
+// VerifDeserializeCommitment gives the verification harness access to commitment deserialization,
+// which has no exported entry point.
+func VerifDeserializeCommitment(bytes []byte) (PolynomialCommitment, error) {
+	return polynomialCommitment{}.Deserialize(bytes)
+}
-- 
2.43.0


From 8d926af135a4f20dbf82ac8d06dcefb05b75df97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:26 +0000
Subject: [PATCH 38/39] fix: hash node indices in full instead of their low 32
 bits

---
 complaints/complaints.go | 4 ++--
 mega/mega.go             | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/complaints/complaints.go b/complaints/complaints.go
index 793374f..a614746 100644
--- a/complaints/complaints.go
+++ b/complaints/complaints.go
@@ -62,8 +62,8 @@ func NewComplaintInternal(seed *seed.Seed, dealing *dealings.IDkgDealingInternal
 func createProofAssocData(ad []byte, receiverIndex common.NodeIndex, dealerIndex common.NodeIndex, publicKey *mega.MEGaPublicKey) ([]byte, error) {
 	ro := ro2.NewRandomOracle("ic-crypto-tecdsa-complaint-proof-assoc-data")
 	ro.AddBytesString("associated_data", ad)
-	ro.AddUint32("receiver_index", uint32(receiverIndex))
-	ro.AddUint32("dealer_index", uint32(dealerIndex))
+	ro.AddUint64("receiver_index", uint64(receiverIndex))
+	ro.AddUint64("dealer_index", uint64(dealerIndex))
 	ro.AddPoint("receiver_public_key", publicKey.PublicPoint())
 	return ro.OutputByteString(32)
 }
diff --git a/mega/mega.go b/mega/mega.go
index b8d2cfc..21f9387 100644
--- a/mega/mega.go
+++ b/mega/mega.go
@@ -20,8 +20,8 @@ func megaHashToScalars(ctype MEGaCiphertextType, dealerIndex common.NodeIndex, r
 		count = 2
 	}
 	ro := ro2.NewRandomOracle(ctype.EncryptionDomainSep())
-	ro.AddUint32("dealer_index", uint32(dealerIndex))
-	ro.AddUint32("recipient_index", uint32(recipientIndex))
+	ro.AddUint64("dealer_index", uint64(dealerIndex))
+	ro.AddUint64("recipient_index", uint64(recipientIndex))
 	ro.AddBytesString("associated_data", associatedData)
 	ro.AddPoint("public_key", publicKey)
 	ro.AddPoint("ephemeral_key", ephemeralKey)
@@ -37,7 +37,7 @@ func megaHashToScalars(ctype MEGaCiphertextType, dealerIndex common.NodeIndex, r
 func ComputePopBase(ctype MEGaCiphertextType, curveType curve.EccCurveType, ad []byte, dealerIndex common.NodeIndex, ephemeralKey curve.EccPoint) (curve.EccPoint, error) {
 	ro := ro2.NewRandomOracle(ctype.PopBaseDomainSep())
 	ro.AddBytesString("associated_data", ad)
-	ro.AddUint32("dealer_index", uint32(dealerIndex))
+	ro.AddUint64("dealer_index", uint64(dealerIndex))
 	ro.AddPoint("ephemeral_key", ephemeralKey)
 	return ro.OutputPoint(curveType)
 }
-- 
2.43.0


From e1ee9fd4c00e2e0f4b99374616a78a70f4d616c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:22 +0000
Subject: [PATCH 39/39] fix: the text of an encoded point is that of its
 encoding

---
 curve/encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curve/encode.go b/curve/encode.go
index cf5ff01..4d2523a 100644
--- a/curve/encode.go
+++ b/curve/encode.go
@@ -190,7 +190,7 @@ func (e EncodePoint32) AsBytes() []byte {
 }
 
 func (e EncodePoint32) ToString() string {
-	return hex.EncodeToString(e.bytes)
+	return hex.EncodeToString(e.AsBytes())
 }
 
 func (e EncodePoint32) IsCompact() bool {
-- 
2.43.0

