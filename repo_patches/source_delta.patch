From e329d09b57e4b2bf15e149ccf25ea178b4f8394e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:43 +0000
Subject: [PATCH 01/17] fix: reject missing, negative and oversized point
 coordinates instead of panicking

---
 group/p256.go  |  8 ++++++--
 group/p384.go  |  8 ++++++--
 group/types.go | 16 +++++++++++++++-
 3 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/group/p256.go b/group/p256.go
index d329728..ba2d5fc 100644
--- a/group/p256.go
+++ b/group/p256.go
@@ -186,14 +186,18 @@ func (e *p256Point) UnmarshalJSON(data []byte) error {
 		return err
 	}
 
+	byteLen := 32
+	err = point.check(byteLen)
+	if err != nil {
+		return err
+	}
+
 	// The special case encoding of the point at infinity.
 	if point.X.Cmp(big.NewInt(0)) == 0 && point.Y.Cmp(big.NewInt(0)) == 0 {
 		err = e.val.UnmarshalBinary([]byte{0})
 		return err
 	}
 
-	byteLen := 32
-
 	xBytes := point.X.Bytes()
 	yBytes := point.Y.Bytes()
 
diff --git a/group/p384.go b/group/p384.go
index cd298b1..9b1fd51 100644
--- a/group/p384.go
+++ b/group/p384.go
@@ -186,14 +186,18 @@ func (e *p384Point) UnmarshalJSON(data []byte) error {
 		return err
 	}
 
+	byteLen := 48
+	err = point.check(byteLen)
+	if err != nil {
+		return err
+	}
+
 	// The special case encoding of the point at infinity.
 	if point.X.Cmp(big.NewInt(0)) == 0 && point.Y.Cmp(big.NewInt(0)) == 0 {
 		err = e.val.UnmarshalBinary([]byte{0})
 		return err
 	}
 
-	byteLen := 48
-
 	xBytes := point.X.Bytes()
 	yBytes := point.Y.Bytes()
 
diff --git a/group/types.go b/group/types.go
index a7f38a9..45384f7 100644
--- a/group/types.go
+++ b/group/types.go
@@ -1,6 +1,9 @@
 package group
 
-import "math/big"
+import (
+	"errors"
+	"math/big"
+)
 
 // ECPoint is needed for JSON marshalling EC points.
 type ECPoint struct {
@@ -8,6 +11,17 @@ type ECPoint struct {
 	Y *big.Int `json:"y"`
 }
 
+// check returns an error unless both coordinates are present,
+// non-negative, and fit into byteLen bytes.
+func (p *ECPoint) check(byteLen int) error {
+	for _, c := range []*big.Int{p.X, p.Y} {
+		if c == nil || c.Sign() < 0 || c.BitLen() > 8*byteLen {
+			return errors.New("invalid point coordinates")
+		}
+	}
+	return nil
+}
+
 // GroupId is needed for JSON marshalling groups.
 type GroupId struct {
 	Name string `json:"group"`
-- 
2.43.0


From ef6f1eba1d28c3ed2b26e57a15eb67d79722cf04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:43 +0000
Subject: [PATCH 02/17] fix: decoding the identity into a generator must not
 overwrite the curve's generator

---
 group/p256.go | 16 ++++++++++------
 group/p384.go | 16 ++++++++++------
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/group/p256.go b/group/p256.go
index ba2d5fc..3bbf613 100644
--- a/group/p256.go
+++ b/group/p256.go
@@ -151,8 +151,14 @@ func (e *p256Point) MarshalBinary() ([]byte, error) {
 }
 
 func (e *p256Point) UnmarshalBinary(data []byte) error {
-	err := e.val.UnmarshalBinary(data)
-	return err
+	// Decode into a new element: the coordinates of e may be shared.
+	val := group.P256.NewElement()
+	err := val.UnmarshalBinary(data)
+	if err != nil {
+		return err
+	}
+	e.val = val
+	return nil
 }
 
 func (e *p256Point) MarshalJSON() ([]byte, error) {
@@ -194,8 +200,7 @@ func (e *p256Point) UnmarshalJSON(data []byte) error {
 
 	// The special case encoding of the point at infinity.
 	if point.X.Cmp(big.NewInt(0)) == 0 && point.Y.Cmp(big.NewInt(0)) == 0 {
-		err = e.val.UnmarshalBinary([]byte{0})
-		return err
+		return e.UnmarshalBinary([]byte{0})
 	}
 
 	xBytes := point.X.Bytes()
@@ -206,8 +211,7 @@ func (e *p256Point) UnmarshalJSON(data []byte) error {
 	// Copy while maintaining leading zeroes.
 	copy(tmp[1+byteLen-len(xBytes):byteLen+1], point.X.Bytes())
 	copy(tmp[1+2*byteLen-len(yBytes):], point.Y.Bytes())
-	err = e.val.UnmarshalBinary(tmp)
-	return err
+	return e.UnmarshalBinary(tmp)
 }
 
 func P256() Group {
diff --git a/group/p384.go b/group/p384.go
index 9b1fd51..724a5fe 100644
--- a/group/p384.go
+++ b/group/p384.go
@@ -151,8 +151,14 @@ func (e *p384Point) MarshalBinary() ([]byte, error) {
 }
 
 func (e *p384Point) UnmarshalBinary(data []byte) error {
-	err := e.val.UnmarshalBinary(data)
-	return err
+	// Decode into a new element: the coordinates of e may be shared.
+	val := group.P384.NewElement()
+	err := val.UnmarshalBinary(data)
+	if err != nil {
+		return err
+	}
+	e.val = val
+	return nil
 }
 
 func (e *p384Point) MarshalJSON() ([]byte, error) {
@@ -194,8 +200,7 @@ func (e *p384Point) UnmarshalJSON(data []byte) error {
 
 	// The special case encoding of the point at infinity.
 	if point.X.Cmp(big.NewInt(0)) == 0 && point.Y.Cmp(big.NewInt(0)) == 0 {
-		err = e.val.UnmarshalBinary([]byte{0})
-		return err
+		return e.UnmarshalBinary([]byte{0})
 	}
 
 	xBytes := point.X.Bytes()
@@ -206,8 +211,7 @@ func (e *p384Point) UnmarshalJSON(data []byte) error {
 	// Copy while maintaining leading zeroes.
 	copy(tmp[1+byteLen-len(xBytes):byteLen+1], point.X.Bytes())
 	copy(tmp[1+2*byteLen-len(yBytes):], point.Y.Bytes())
-	err = e.val.UnmarshalBinary(tmp)
-	return err
+	return e.UnmarshalBinary(tmp)
 }
 
 func P384() Group {
-- 
2.43.0


From 19f270ca23ce6e8c96351c6095981ae7f12cf7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:25 +0000
Subject: [PATCH 03/17] fix: JSON coding of ristretto255 elements panicked

---
 group/ristretto255.go | 60 ++++++++++++-------------------------------
 1 file changed, 16 insertions(+), 44 deletions(-)

diff --git a/group/ristretto255.go b/group/ristretto255.go
index 10db44c..97491fd 100644
--- a/group/ristretto255.go
+++ b/group/ristretto255.go
@@ -3,7 +3,6 @@ package group
 import (
 	"crypto/rand"
 	"encoding/json"
-	"fmt"
 	"github.com/cloudflare/circl/group"
 	"math/big"
 )
@@ -151,59 +150,32 @@ func (e *r255Point) MarshalBinary() ([]byte, error) {
 }
 
 func (e *r255Point) UnmarshalBinary(data []byte) error {
-	err := e.val.UnmarshalBinary(data)
-	return err
+	val := group.Ristretto255.NewElement()
+	err := val.UnmarshalBinary(data)
+	if err != nil {
+		return err
+	}
+	e.val = val
+	return nil
 }
 
+// MarshalJSON encodes the canonical 32-byte encoding of the element:
+// ristretto255 elements have no affine coordinates.
 func (e *r255Point) MarshalJSON() ([]byte, error) {
-	tmp, _ := e.val.MarshalBinary()
-	xVal := big.NewInt(0)
-	yVal := big.NewInt(0)
-
-	// If the point is not 0.
-	if tmp[0] != 0 {
-		xBytes := tmp[1 : 32+1]
-		yBytes := tmp[1+32:]
-		if len(xBytes) != 32 || len(xBytes) != len(yBytes) {
-			return nil, fmt.Errorf("error in underlying binary marshalling")
-		}
-		xVal.SetBytes(xBytes)
-		yVal.SetBytes(yBytes)
-	}
-
-	point := ECPoint{
-		X: xVal,
-		Y: yVal,
+	tmp, err := e.val.MarshalBinary()
+	if err != nil {
+		return nil, err
 	}
-
-	return json.Marshal(&point)
+	return json.Marshal(tmp)
 }
 
 func (e *r255Point) UnmarshalJSON(data []byte) error {
-	point := ECPoint{}
-	err := json.Unmarshal(data, &point)
+	var tmp []byte
+	err := json.Unmarshal(data, &tmp)
 	if err != nil {
 		return err
 	}
-
-	// The special case encoding of the point at infinity.
-	if point.X.Cmp(big.NewInt(0)) == 0 && point.Y.Cmp(big.NewInt(0)) == 0 {
-		err = e.val.UnmarshalBinary([]byte{0})
-		return err
-	}
-
-	byteLen := 32
-
-	xBytes := point.X.Bytes()
-	yBytes := point.Y.Bytes()
-
-	tmp := make([]byte, 1+2*byteLen)
-	tmp[0] = 4
-	// Copy while maintaining leading zeroes.
-	copy(tmp[1+byteLen-len(xBytes):byteLen+1], point.X.Bytes())
-	copy(tmp[1+2*byteLen-len(yBytes):], point.Y.Bytes())
-	err = e.val.UnmarshalBinary(tmp)
-	return err
+	return e.UnmarshalBinary(tmp)
 }
 
 func Ristretto255() Group {
-- 
2.43.0


From 410300c541e6f1bfc4d432bcadb5041027ce1166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:01 +0000
Subject: [PATCH 04/17] fix: secp256k1 elements did not survive their JSON and
 binary encodings

---
 group/p256k1.go | 74 +++++++++++++++++++++++++++++++++++--------------
 1 file changed, 53 insertions(+), 21 deletions(-)

diff --git a/group/p256k1.go b/group/p256k1.go
index 233e702..dbaf2ad 100644
--- a/group/p256k1.go
+++ b/group/p256k1.go
@@ -3,6 +3,7 @@ package group
 import (
 	"crypto/rand"
 	"encoding/json"
+	"errors"
 	"github.com/ing-bank/zkrp/crypto/p256"
 	"math/big"
 )
@@ -151,15 +152,39 @@ func (e *p256k1Point) FieldOrder() *big.Int {
 }
 
 func (e *p256k1Point) MapToGroup(s string) (Element, error) {
-	tmp, _ := p256.MapToGroup(s)
-	tmpX := tmp.X.Bytes()
-	tmpY := tmp.Y.Bytes()
-	res := e.curve.Element().SetBytes(append(tmpX, tmpY...))
-	return res, nil
+	tmp, err := p256.MapToGroup(s)
+	if err != nil {
+		return nil, err
+	}
+	return &p256k1Point{curve: e.curve, val: tmp}, nil
+}
+
+// coordinates returns the affine coordinates of e, or (0, 0) for the identity.
+func (e *p256k1Point) coordinates() (*big.Int, *big.Int) {
+	if e.val.IsZero() {
+		return new(big.Int), new(big.Int)
+	}
+	return e.val.X, e.val.Y
+}
+
+// setCoordinates sets e to the point with the given affine coordinates,
+// or returns an error if there is no such point.
+func (e *p256k1Point) setCoordinates(x, y *big.Int) error {
+	val := &p256.P256{X: x, Y: y}
+	if val.IsZero() {
+		e.val = val.SetInfinity()
+		return nil
+	}
+	if x.Cmp(e.curve.fieldOrder) >= 0 || y.Cmp(e.curve.fieldOrder) >= 0 || !val.IsOnCurve() {
+		return errors.New("invalid point")
+	}
+	e.val = val
+	return nil
 }
 
 func (e *p256k1Point) String() string {
-	return e.val.String()
+	x, y := e.coordinates()
+	return (&p256.P256{X: x, Y: y}).String()
 }
 
 func (e *p256k1Point) IsIdentity() bool {
@@ -170,30 +195,37 @@ func (e *p256k1Point) IsIdentity() bool {
 }
 
 func (e *p256k1Point) MarshalBinary() ([]byte, error) {
-	xBytes := make([]byte, 32)
-	if e.val.X != nil {
-		xBytes = e.val.X.Bytes()
-	}
-
-	yBytes := make([]byte, 32)
-	if e.val.Y != nil {
-		yBytes = e.val.Y.Bytes()
-	}
-
-	return append(xBytes, yBytes...), nil
+	x, y := e.coordinates()
+	tmp := make([]byte, 64)
+	x.FillBytes(tmp[:32])
+	y.FillBytes(tmp[32:])
+	return tmp, nil
 }
 
 func (e *p256k1Point) UnmarshalBinary(data []byte) error {
-	e.SetBytes(data)
-	return nil
+	if len(data) != 64 {
+		return errors.New("invalid point length")
+	}
+	return e.setCoordinates(new(big.Int).SetBytes(data[:32]), new(big.Int).SetBytes(data[32:]))
 }
 
 func (e *p256k1Point) MarshalJSON() ([]byte, error) {
-	return json.Marshal(e.val)
+	x, y := e.coordinates()
+	return json.Marshal(&ECPoint{X: x, Y: y})
 }
 
 func (e *p256k1Point) UnmarshalJSON(data []byte) error {
-	return nil
+	point := ECPoint{}
+	err := json.Unmarshal(data, &point)
+	if err != nil {
+		return err
+	}
+
+	err = point.check(32)
+	if err != nil {
+		return err
+	}
+	return e.setCoordinates(point.X, point.Y)
 }
 
 func SecP256k1() Group {
-- 
2.43.0


From 0a1f81c9de668d1caa0312d5166a58ef2a4c9283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:02 +0000
Subject: [PATCH 05/17] fix: decode only members of the ModP group

---
 group/modsafeprime.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/group/modsafeprime.go b/group/modsafeprime.go
index 746f4a4..d123430 100644
--- a/group/modsafeprime.go
+++ b/group/modsafeprime.go
@@ -3,6 +3,7 @@ package group
 import (
 	"crypto/rand"
 	"encoding/json"
+	"errors"
 	"math/big"
 	"strings"
 )
@@ -158,7 +159,16 @@ func (e *ModPElement) MarshalBinary() ([]byte, error) {
 }
 
 func (e *ModPElement) UnmarshalBinary(data []byte) error {
-	e.val = new(big.Int).SetBytes(data)
+	return e.setMember(new(big.Int).SetBytes(data))
+}
+
+// setMember sets e to val, or returns an error if val is not in the group, i.e.
+// not a quadratic residue modulo the safe prime.
+func (e *ModPElement) setMember(val *big.Int) error {
+	if val.Sign() <= 0 || val.Cmp(e.group.fieldOrder) >= 0 || big.Jacobi(val, e.group.fieldOrder) != 1 {
+		return errors.New("not a group element")
+	}
+	e.val = val
 	return nil
 }
 
@@ -167,8 +177,12 @@ func (e *ModPElement) MarshalJSON() ([]byte, error) {
 }
 
 func (e *ModPElement) UnmarshalJSON(data []byte) error {
-	err := e.val.UnmarshalJSON(data)
-	return err
+	val := new(big.Int)
+	err := val.UnmarshalJSON(data)
+	if err != nil {
+		return err
+	}
+	return e.setMember(val)
 }
 
 func NewModPGroup(name string, fieldOrder, generator string) Group {
-- 
2.43.0


From bf11ca8da300c4ef10120d85c8de59d71bcb8e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:39 +0000
Subject: [PATCH 06/17] fix: report undecodable and missing fields of a ballot
 instead of ignoring them

---
 bulletproofs/marshal.go | 107 ++++++++++++++++++++++++----------------
 marshal.go              |  11 ++++-
 voteproof/marshal.go    |  35 ++++++++++---
 3 files changed, 100 insertions(+), 53 deletions(-)

diff --git a/bulletproofs/marshal.go b/bulletproofs/marshal.go
index 71c14af..a91b8eb 100644
--- a/bulletproofs/marshal.go
+++ b/bulletproofs/marshal.go
@@ -2,6 +2,7 @@ package bulletproofs
 
 import (
 	"encoding/json"
+	"errors"
 	"github.com/takakv/msc-poc/group"
 	"math/big"
 )
@@ -36,45 +37,59 @@ type bulletProofJSON struct {
 	Params            json.RawMessage
 }
 
-func ipParamsFromRawMessage(j innerProductParamsJSON, g group.Group) InnerProductParams {
+// elementsFromRawMessages decodes a vector of group elements.
+func elementsFromRawMessages(j []json.RawMessage, g group.Group) ([]group.Element, error) {
+	elements := make([]group.Element, len(j))
+	for i := range j {
+		elements[i] = g.Element()
+		if err := elements[i].UnmarshalJSON(j[i]); err != nil {
+			return nil, err
+		}
+	}
+	return elements, nil
+}
+
+func ipParamsFromRawMessage(j innerProductParamsJSON, g group.Group) (InnerProductParams, error) {
 	params := InnerProductParams{
 		Uu: g.Element(),
-		Gg: make([]group.Element, len(j.Gg)),
-		Hh: make([]group.Element, len(j.Hh)),
 		GP: g,
 	}
 
-	_ = params.Uu.UnmarshalJSON(j.Uu)
-	for i := range j.Gg {
-		params.Gg[i] = g.Element()
-		params.Hh[i] = g.Element()
-		_ = params.Gg[i].UnmarshalJSON(j.Gg[i])
-		_ = params.Hh[i].UnmarshalJSON(j.Hh[i])
+	var err error
+	if err = params.Uu.UnmarshalJSON(j.Uu); err != nil {
+		return params, err
 	}
-
-	return params
+	if params.Gg, err = elementsFromRawMessages(j.Gg, g); err != nil {
+		return params, err
+	}
+	if params.Hh, err = elementsFromRawMessages(j.Hh, g); err != nil {
+		return params, err
+	}
+	return params, nil
 }
 
-func ipProofFromRawMessage(j innerProductProofJSON, g group.Group) InnerProductProof {
+func ipProofFromRawMessage(j innerProductProofJSON, g group.Group) (InnerProductProof, error) {
 	proof := InnerProductProof{
-		L:      make([]group.Element, len(j.L)),
-		R:      make([]group.Element, len(j.R)),
-		P:      g.Element(),
-		Cc:     j.Cc,
-		A:      j.A,
-		B:      j.B,
-		Params: ipParamsFromRawMessage(j.Params, g),
+		P:  g.Element(),
+		Cc: j.Cc,
+		A:  j.A,
+		B:  j.B,
 	}
-
-	for i := range proof.L {
-		proof.L[i] = g.Element()
-		proof.R[i] = g.Element()
-		_ = proof.L[i].UnmarshalJSON(j.L[i])
-		_ = proof.R[i].UnmarshalJSON(j.R[i])
+	if proof.Cc == nil || proof.A == nil || proof.B == nil {
+		return proof, errors.New("missing scalar in inner product proof")
 	}
-	_ = proof.P.UnmarshalJSON(j.P)
 
-	return proof
+	var err error
+	if proof.Params, err = ipParamsFromRawMessage(j.Params, g); err != nil {
+		return proof, err
+	}
+	if proof.L, err = elementsFromRawMessages(j.L, g); err != nil {
+		return proof, err
+	}
+	if proof.R, err = elementsFromRawMessages(j.R, g); err != nil {
+		return proof, err
+	}
+	return proof, proof.P.UnmarshalJSON(j.P)
 }
 
 func BulletProofUnmarshalJSON(b []byte, params BulletProofSetupParams) (BulletProof, error) {
@@ -84,24 +99,30 @@ func BulletProofUnmarshalJSON(b []byte, params BulletProofSetupParams) (BulletPr
 		return BulletProof{}, err
 	}
 
-	decodedProof := BulletProof{
-		V:                 params.GP.Element(),
-		A:                 params.GP.Element(),
-		S:                 params.GP.Element(),
-		T1:                params.GP.Element(),
-		T2:                params.GP.Element(),
+	if tmp.Taux == nil || tmp.Mu == nil || tmp.Tprime == nil {
+		return BulletProof{}, errors.New("missing scalar in range proof")
+	}
+
+	ipProof, err := ipProofFromRawMessage(tmp.InnerProductProof, params.GP)
+	if err != nil {
+		return BulletProof{}, err
+	}
+
+	elements, err := elementsFromRawMessages([]json.RawMessage{tmp.V, tmp.A, tmp.S, tmp.T1, tmp.T2}, params.GP)
+	if err != nil {
+		return BulletProof{}, err
+	}
+
+	return BulletProof{
+		V:                 elements[0],
+		A:                 elements[1],
+		S:                 elements[2],
+		T1:                elements[3],
+		T2:                elements[4],
 		Taux:              tmp.Taux,
 		Mu:                tmp.Mu,
 		Tprime:            tmp.Tprime,
-		InnerProductProof: ipProofFromRawMessage(tmp.InnerProductProof, params.GP),
+		InnerProductProof: ipProof,
 		Params:            params,
-	}
-
-	_ = decodedProof.V.UnmarshalJSON(tmp.V)
-	_ = decodedProof.A.UnmarshalJSON(tmp.A)
-	_ = decodedProof.S.UnmarshalJSON(tmp.S)
-	_ = decodedProof.T1.UnmarshalJSON(tmp.T1)
-	_ = decodedProof.T2.UnmarshalJSON(tmp.T2)
-
-	return decodedProof, nil
+	}, nil
 }
diff --git a/marshal.go b/marshal.go
index add6ced..1735cc3 100644
--- a/marshal.go
+++ b/marshal.go
@@ -31,14 +31,21 @@ func BallotUnmarshalJSON(b []byte, g group.Group) (ElGamalCiphertext, error) {
 		V: g.Element(),
 	}
 
-	_ = ballot.U.UnmarshalJSON(tmp.U)
-	_ = ballot.V.UnmarshalJSON(tmp.V)
+	if err = ballot.U.UnmarshalJSON(tmp.U); err != nil {
+		return ElGamalCiphertext{}, err
+	}
+	if err = ballot.V.UnmarshalJSON(tmp.V); err != nil {
+		return ElGamalCiphertext{}, err
+	}
 	return ballot, nil
 }
 
 func BallotDataUnmarshalJSON(b []byte, pp PublicParameters) (BallotData, error) {
 	tmp := ballotDataJSON{}
 	err := json.Unmarshal(b, &tmp)
+	if err != nil {
+		return BallotData{}, err
+	}
 
 	ballot, err := BallotUnmarshalJSON(tmp.Ballot, pp.RPParams.GFF.I)
 	if err != nil {
diff --git a/voteproof/marshal.go b/voteproof/marshal.go
index efdab93..07205cf 100644
--- a/voteproof/marshal.go
+++ b/voteproof/marshal.go
@@ -2,6 +2,7 @@ package voteproof
 
 import (
 	"encoding/json"
+	"errors"
 	"github.com/takakv/msc-poc/group"
 	"math/big"
 )
@@ -62,10 +63,9 @@ func ProofUnmarshalJSON(b []byte, gFF, gEC group.Group) (SigmaProof, error) {
 	ap.GEC.F = tmp.Params.GEC.F
 	ap.GEC.I = gEC
 
-	_ = ap.GFF.G.UnmarshalJSON(tmp.Params.GFF.G)
-	_ = ap.GFF.H.UnmarshalJSON(tmp.Params.GFF.H)
-	_ = ap.GEC.G.UnmarshalJSON(tmp.Params.GEC.G)
-	_ = ap.GEC.H.UnmarshalJSON(tmp.Params.GEC.H)
+	if ap.GFF.N == nil || ap.GFF.F == nil || ap.GEC.N == nil || ap.GEC.F == nil {
+		return SigmaProof{}, errors.New("missing group order in proof parameters")
+	}
 
 	var pp ProofParams
 	pp.Bx = tmp.Params.Bx
@@ -89,9 +89,28 @@ func ProofUnmarshalJSON(b []byte, gFF, gEC group.Group) (SigmaProof, error) {
 	proof.Sq2 = tmp.Sq2
 	proof.Params = pp
 
-	_ = proof.W.UnmarshalJSON(tmp.W)
-	_ = proof.Kp.UnmarshalJSON(tmp.Kp)
-	_ = proof.Kq1.UnmarshalJSON(tmp.Kq1)
-	_ = proof.Kq2.UnmarshalJSON(tmp.Kq2)
+	for _, s := range []*big.Int{proof.Challenge, proof.Z, proof.Sp, proof.Sq1, proof.Sq2} {
+		if s == nil {
+			return SigmaProof{}, errors.New("missing scalar in proof")
+		}
+	}
+
+	for _, e := range []struct {
+		element group.Element
+		data    json.RawMessage
+	}{
+		{pp.GFF.G, tmp.Params.GFF.G},
+		{pp.GFF.H, tmp.Params.GFF.H},
+		{pp.GEC.G, tmp.Params.GEC.G},
+		{pp.GEC.H, tmp.Params.GEC.H},
+		{proof.W, tmp.W},
+		{proof.Kp, tmp.Kp},
+		{proof.Kq1, tmp.Kq1},
+		{proof.Kq2, tmp.Kq2},
+	} {
+		if err = e.element.UnmarshalJSON(e.data); err != nil {
+			return SigmaProof{}, err
+		}
+	}
 	return proof, nil
 }
-- 
2.43.0


From d904a69803c8c52408a2ef296af8a39f42bef39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:14 +0000
Subject: [PATCH 07/17] fix: range proof verification did not tie the inner
 product to t'

---
 bulletproofs/bp.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bulletproofs/bp.go b/bulletproofs/bp.go
index 19322b3..8c1795d 100644
--- a/bulletproofs/bp.go
+++ b/bulletproofs/bp.go
@@ -326,7 +326,10 @@ func (proof *BulletProof) Verify() (bool, error) {
 	// Verify Inner Product Proof ################################################
 	ok, _ := proof.InnerProductProof.Verify()
 
-	result := c65 && c67 && ok
+	// The inner product proof must be about t' -------------  Condition (68)
+	c68 := proof.InnerProductProof.Cc.Cmp(proof.Tprime) == 0
+
+	result := c65 && c67 && c68 && ok
 
 	return result, nil
 }
-- 
2.43.0


From f6f4fda1eb733871bdf8e425ed8341521794aadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:15 +0000
Subject: [PATCH 08/17] fix: verify inner product proofs with the verifier's
 own generators

---
 bulletproofs/bip.go | 4 ++++
 bulletproofs/bp.go  | 5 ++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/bulletproofs/bip.go b/bulletproofs/bip.go
index 9b2b63c..d9e39a4 100644
--- a/bulletproofs/bip.go
+++ b/bulletproofs/bip.go
@@ -223,6 +223,10 @@ func (proof InnerProductProof) Verify() (bool, error) {
 	gprime := proof.Params.Gg
 	hprime := proof.Params.Hh
 
+	if len(proof.R) != logn || len(gprime) != 1<<logn || len(hprime) != 1<<logn {
+		return false, errors.New("inconsistent inner product proof lengths")
+	}
+
 	// Fiat-Shamir
 	x, _ = hashIP(gprime, hprime, proof.P, proof.Cc) // (6) & (7)
 
diff --git a/bulletproofs/bp.go b/bulletproofs/bp.go
index 8c1795d..4b16b2d 100644
--- a/bulletproofs/bp.go
+++ b/bulletproofs/bp.go
@@ -324,7 +324,10 @@ func (proof *BulletProof) Verify() (bool, error) {
 	c67 := rP.IsIdentity()
 
 	// Verify Inner Product Proof ################################################
-	ok, _ := proof.InnerProductProof.Verify()
+	// The generators are those of the verifier, not those in the proof.
+	ipProof := proof.InnerProductProof
+	ipProof.Params, _ = setupInnerProduct(params.Gg, hp, params.N, params.GP)
+	ok, _ := ipProof.Verify()
 
 	// The inner product proof must be about t' -------------  Condition (68)
 	c68 := proof.InnerProductProof.Cc.Cmp(proof.Tprime) == 0
-- 
2.43.0


From 300945591d63b89996d4e52a967a1dbd114fd253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:16 +0000
Subject: [PATCH 09/17] fix: the range proof challenges y and z were the same
 value

---
 bulletproofs/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bulletproofs/util.go b/bulletproofs/util.go
index c595a02..4986f68 100644
--- a/bulletproofs/util.go
+++ b/bulletproofs/util.go
@@ -67,7 +67,7 @@ func HashBP(A, S group.Element) (*big.Int, *big.Int, error) {
 	buffer2.WriteString(A.String())
 	buffer2.WriteString(S.String())
 	buffer2.WriteString(result1.String())
-	digest2.Write(buffer.Bytes())
+	digest2.Write(buffer2.Bytes())
 	output2 := digest2.Sum(nil)
 	tmp2 := output2[0:]
 	result2 := new(big.Int).SetBytes(tmp2)
-- 
2.43.0


From 22c57e79129f4a8be4754d730f15756cbcdca78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:17 +0000
Subject: [PATCH 10/17] fix: range proof challenges must depend on the
 commitment and on all earlier messages

---
 bulletproofs/bp.go      |  8 ++++----
 bulletproofs/multibp.go | 10 ++++++----
 bulletproofs/util.go    | 10 +++++-----
 3 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/bulletproofs/bp.go b/bulletproofs/bp.go
index 4b16b2d..f994932 100644
--- a/bulletproofs/bp.go
+++ b/bulletproofs/bp.go
@@ -130,7 +130,7 @@ func Prove(secret *big.Int, params BulletProofSetupParams) (BulletProof, *big.In
 	proof.S = S // (48)
 
 	// Fiat-Shamir heuristic to compute challenges y and z.
-	y, z, _ := HashBP(A, S) // (49) & (50)
+	y, z, _ := HashBP(V, A, S) // (49) & (50)
 
 	// ////////////////////////////////////////////////////////////////////////////
 	// Second phase: page 20                                                     //
@@ -187,7 +187,7 @@ func Prove(secret *big.Int, params BulletProofSetupParams) (BulletProof, *big.In
 	proof.T2 = T2 // (54)
 
 	// Fiat-Shamir heuristic to compute 'random' challenge x
-	x, _, _ := HashBP(T1, T2) // (55) & (56)
+	x, _, _ := HashBP(V, A, S, T1, T2) // (55) & (56)
 
 	// ////////////////////////////////////////////////////////////////////////////
 	// Third phase: page 20                                                      //
@@ -250,8 +250,8 @@ func (proof *BulletProof) Verify() (bool, error) {
 	mod := params.GP.N()
 
 	// Recover x, y, z using Fiat-Shamir heuristic
-	x, _, _ := HashBP(proof.T1, proof.T2)
-	y, z, _ := HashBP(proof.A, proof.S)
+	x, _, _ := HashBP(proof.V, proof.A, proof.S, proof.T1, proof.T2)
+	y, z, _ := HashBP(proof.V, proof.A, proof.S)
 
 	zSquared := new(big.Int).Mod(new(big.Int).Mul(z, z), mod)
 	xSquared := new(big.Int).Mod(new(big.Int).Mul(x, x), mod)
diff --git a/bulletproofs/multibp.go b/bulletproofs/multibp.go
index 1755a02..76581a7 100644
--- a/bulletproofs/multibp.go
+++ b/bulletproofs/multibp.go
@@ -95,7 +95,8 @@ func MultiProve(secrets []*big.Int, params BulletProofSetupParams) (MultiBulletP
 	proof.S = S // (48)
 
 	// Fiat-Shamir heuristic to compute challenges y and z.
-	y, z, _ := HashBP(A, S) // (49) & (50)
+	transcript := append(append([]group.Element{}, commitments...), A, S)
+	y, z, _ := HashBP(transcript...) // (49) & (50)
 
 	// ////////////////////////////////////////////////////////////////////////////
 	// Second phase: page 20                                                     //
@@ -158,7 +159,7 @@ func MultiProve(secrets []*big.Int, params BulletProofSetupParams) (MultiBulletP
 	proof.T2 = T2 // (54)
 
 	// Fiat-Shamir heuristic to compute 'random' challenge x
-	x, _, _ := HashBP(T1, T2) // (55) & (56)
+	x, _, _ := HashBP(append(transcript, T1, T2)...) // (55) & (56)
 
 	// ////////////////////////////////////////////////////////////////////////////
 	// Third phase: page 20                                                      //
@@ -232,8 +233,9 @@ func (proof *MultiBulletProof) Verify() (bool, error) {
 	bitsPerValue := int(params.N) / m
 
 	// Recover x, y, z using Fiat-Shamir heuristic
-	x, _, _ := HashBP(proof.T1, proof.T2)
-	y, z, _ := HashBP(proof.A, proof.S)
+	transcript := append(append([]group.Element{}, proof.Vs...), proof.A, proof.S)
+	x, _, _ := HashBP(append(transcript, proof.T1, proof.T2)...)
+	y, z, _ := HashBP(transcript...)
 
 	zSquared := new(big.Int).Mod(new(big.Int).Mul(z, z), mod)
 	xSquared := new(big.Int).Mod(new(big.Int).Mul(x, x), mod)
diff --git a/bulletproofs/util.go b/bulletproofs/util.go
index 4986f68..1cd30d1 100644
--- a/bulletproofs/util.go
+++ b/bulletproofs/util.go
@@ -51,12 +51,13 @@ func powerOf(x *big.Int, n int64, SP group.Group) []*big.Int {
 /*
 HashBP is responsible for the computing a Zp element given elements from GT and G1.
 */
-func HashBP(A, S group.Element) (*big.Int, *big.Int, error) {
+func HashBP(elements ...group.Element) (*big.Int, *big.Int, error) {
 
 	digest1 := sha256.New()
 	var buffer bytes.Buffer
-	buffer.WriteString(A.String())
-	buffer.WriteString(S.String())
+	for _, e := range elements {
+		buffer.WriteString(e.String())
+	}
 	digest1.Write(buffer.Bytes())
 	output1 := digest1.Sum(nil)
 	tmp1 := output1[0:]
@@ -64,8 +65,7 @@ func HashBP(A, S group.Element) (*big.Int, *big.Int, error) {
 
 	digest2 := sha256.New()
 	var buffer2 bytes.Buffer
-	buffer2.WriteString(A.String())
-	buffer2.WriteString(S.String())
+	buffer2.Write(buffer.Bytes())
 	buffer2.WriteString(result1.String())
 	digest2.Write(buffer2.Bytes())
 	output2 := digest2.Sum(nil)
-- 
2.43.0


From e4c79ec16992d79c12a2d38eb212cff0411ba679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:18 +0000
Subject: [PATCH 11/17] fix: aggregated range proofs for in-range values never
 verified

---
 bulletproofs/multibp.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/bulletproofs/multibp.go b/bulletproofs/multibp.go
index 76581a7..0c8566c 100644
--- a/bulletproofs/multibp.go
+++ b/bulletproofs/multibp.go
@@ -83,7 +83,7 @@ func MultiProve(secrets []*big.Int, params BulletProofSetupParams) (MultiBulletP
 
 	// Commitment: (A, alpha)
 	alpha, _ := rand.Int(rand.Reader, mod)                                                            // (43)
-	A := commitVector(aRConcat, aRConcat, alpha, params.H, params.Gg, params.Hh, params.N, params.GP) // (44)
+	A := commitVector(aLConcat, aRConcat, alpha, params.H, params.Gg, params.Hh, params.N, params.GP) // (44)
 
 	// sL, sR and commitment: (S, rho)
 	sL := sampleRandomVector(params.N, params.GP)                                          // (45)
@@ -299,7 +299,7 @@ func (proof *MultiBulletProof) Verify() (bool, error) {
 	for j := 0; j < m; j++ {
 		hpSlide := hp[j*bitsPerValue : (j+1)*bitsPerValue]
 		zp := new(big.Int).Exp(z, big.NewInt(2+int64(j)), mod)
-		exp := VectorAddConst(powersOfTwo, zp, mod)
+		exp, _ := VectorScalarMul(powersOfTwo, zp, mod)
 		val, _ := VectorExp(hpSlide, exp, params.GP)
 		prod.Add(prod, val)
 	}
@@ -320,7 +320,13 @@ func (proof *MultiBulletProof) Verify() (bool, error) {
 	fmt.Println("Check 67:", c67)
 
 	// Verify Inner Product Proof ################################################
-	ok, _ := proof.InnerProductProof.Verify()
+	// The generators are those of the verifier, not those in the proof.
+	ipProof := proof.InnerProductProof
+	ipProof.Params, _ = setupInnerProduct(params.Gg, hp, params.N, params.GP)
+	ok, _ := ipProof.Verify()
+
+	// The inner product proof must be about t' -------------  Condition (68)
+	ok = ok && proof.InnerProductProof.Cc.Cmp(proof.Tprime) == 0
 	fmt.Println("Check 68:", ok)
 
 	result := c65 && c67 && ok
-- 
2.43.0


From bc501b2927e1cc062767b7322350cabf9fead1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:47 +0000
Subject: [PATCH 12/17] fix: k was reduced by the wrong group order for the
 curve commitments

---
 voteproof/voteproof.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/voteproof/voteproof.go b/voteproof/voteproof.go
index ca42be8..252d68c 100644
--- a/voteproof/voteproof.go
+++ b/voteproof/voteproof.go
@@ -135,7 +135,7 @@ func Prove(secret *big.Int, rp *big.Int, rq1, rq2 *big.Int, params ProofParams)
 		// Setup
 		k, _ := rand.Int(rand.Reader, zUpperBound)
 		kp := new(big.Int).Mod(k, params.GFF.N) // k mod p for efficiency
-		kq := new(big.Int).Mod(k, params.GFF.N) // k mod q for efficiency
+		kq := new(big.Int).Mod(k, params.GEC.N) // k mod q for efficiency
 
 		tp, _ := rand.Int(rand.Reader, params.GFF.N)
 		tq1, _ := rand.Int(rand.Reader, params.GEC.N)
-- 
2.43.0


From f36847f281df7052d66ddbed9039055ea17428d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:48 +0000
Subject: [PATCH 13/17] fix: the vote proof challenge must depend on the
 statement

---
 voteproof/voteproof.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/voteproof/voteproof.go b/voteproof/voteproof.go
index 252d68c..94442c0 100644
--- a/voteproof/voteproof.go
+++ b/voteproof/voteproof.go
@@ -109,10 +109,14 @@ func sigmaPedersenCheck(z, s, c *big.Int, k, x group.Element, gp GroupParameters
 	return left.IsEqual(right)
 }
 
-func getFSChallenge(w group.Element, Kp group.Element, Kq1, Kq2 group.Element, pow2bound uint16) *big.Int {
+func getFSChallenge(comm VerCommitments, w group.Element, Kp group.Element, Kq1, Kq2 group.Element, pow2bound uint16) *big.Int {
 	hasher := sha256.New()
 
 	var buffer bytes.Buffer
+	buffer.WriteString(comm.Y.String())
+	buffer.WriteString(comm.Xp.String())
+	buffer.WriteString(comm.Xq1.String())
+	buffer.WriteString(comm.Xq2.String())
 	buffer.WriteString(w.String())
 	buffer.WriteString(Kp.String())
 	buffer.WriteString(Kq1.String())
@@ -130,6 +134,14 @@ func Prove(secret *big.Int, rp *big.Int, rq1, rq2 *big.Int, params ProofParams)
 	// Exclusive upper bound
 	zUpperBound := new(big.Int).Exp(BigTwo, new(big.Int).Add(bxbc, big.NewInt(int64(params.Bb))), nil)
 
+	// The statement, as the verifier will see it.
+	comm := VerCommitments{
+		Y:   params.GFF.I.Element().BaseScale(rp),
+		Xp:  pedersenCommit(secret, rp, params.GFF),
+		Xq1: pedersenCommit(secret, rq1, params.GEC),
+		Xq2: pedersenCommit(secret, rq2, params.GEC),
+	}
+
 	// Abort loop
 	for {
 		// Setup
@@ -148,7 +160,7 @@ func Prove(secret *big.Int, rp *big.Int, rq1, rq2 *big.Int, params ProofParams)
 		Kq2 := pedersenCommit(kq, tq2, params.GEC)
 
 		// Challenge
-		challenge := getFSChallenge(w, Kp, Kq1, Kq2, params.Bc)
+		challenge := getFSChallenge(comm, w, Kp, Kq1, Kq2, params.Bc)
 		z := new(big.Int).Add(k, new(big.Int).Mul(challenge, secret))
 		if z.Cmp(zLowerBound) == -1 || z.Cmp(zUpperBound) != -1 {
 			fmt.Println("Aborted")
@@ -192,7 +204,7 @@ func (proof *SigmaProof) Verify(comm VerCommitments) bool {
 	}
 
 	// Verify challenge correctness.
-	challenge := getFSChallenge(proof.W, proof.Kp, proof.Kq1, proof.Kq2, proof.Params.Bc)
+	challenge := getFSChallenge(comm, proof.W, proof.Kp, proof.Kq1, proof.Kq2, proof.Params.Bc)
 	if challenge.Cmp(proof.Challenge) != 0 {
 		return false
 	}
-- 
2.43.0


From 405325407e758512185f5fd9a3ef390e86eae94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:48 +0000
Subject: [PATCH 14/17] fix: verify the vote proof against the server's
 parameters

---
 server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server.go b/server.go
index 697feeb..2d50098 100644
--- a/server.go
+++ b/server.go
@@ -40,6 +40,9 @@ func verifyVote(proofs BallotData, rpParams voteproof.ProofParams) (bool, []time
 		Xq2: Xq2,             // Upper bound shifted back to the secret
 	}
 
+	// The proof is about the server's parameters, whatever parameters it came with.
+	proofs.VoteProof.Params = rpParams
+
 	// Verify the consistency of the shifted commitments with the ElGamal ciphertext.
 	result := proofs.VoteProof.Verify(commitments)
 	durationRP := time.Since(startRP)
-- 
2.43.0


From 73e8e53a7252b034bc5c88c0fb6a343e27e024f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:49 +0000
Subject: [PATCH 15/17] fix: report verification times for rejected ballots,
 the caller reads them

---
 server.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server.go b/server.go
index 2d50098..1abf3fa 100644
--- a/server.go
+++ b/server.go
@@ -13,13 +13,13 @@ func verifyVote(proofs BallotData, rpParams voteproof.ProofParams) (bool, []time
 	// Verify the vote lower bound.
 	ok1, _ := proofs.BpLower.Verify()
 	if !ok1 {
-		return false, nil
+		return false, verificationTimes
 	}
 
 	// Verify the vote upper bound.
 	ok2, _ := proofs.BpUpper.Verify()
 	if !ok2 {
-		return false, nil
+		return false, verificationTimes
 	}
 	durationBP := time.Since(startBP)
 
-- 
2.43.0


From 8be8359c4203ef74cef8b8ec296af4b0b48b4f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:50 +0000
Subject: [PATCH 16/17] fix: the last candidate could not be chosen

---
 voter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/voter.go b/voter.go
index 6dc080f..d776064 100644
--- a/voter.go
+++ b/voter.go
@@ -17,7 +17,7 @@ type BallotData struct {
 }
 
 func castVote(pp PublicParameters) (BallotData, time.Duration) {
-	rBig, _ := rand.Int(rand.Reader, big.NewInt(int64(pp.candidateMax-pp.candidateMin)))
+	rBig, _ := rand.Int(rand.Reader, big.NewInt(int64(pp.candidateMax-pp.candidateMin)+1))
 
 	var choice = uint16(rBig.Uint64()) + pp.candidateMin
 	ciphertext, rp := encryptVote(choice, pp.EGPK, pp.FFGroupParams.I)
-- 
2.43.0


From a0866c064b97d36795205e366e3a4d34fd35f6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:11 +0000
Subject: [PATCH 17/17] fix: a decoded one-bit range proof was encoded to other
 bytes

---
 bulletproofs/marshal.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bulletproofs/marshal.go b/bulletproofs/marshal.go
index a91b8eb..89277c1 100644
--- a/bulletproofs/marshal.go
+++ b/bulletproofs/marshal.go
@@ -37,8 +37,12 @@ type bulletProofJSON struct {
 	Params            json.RawMessage
 }
 
-// elementsFromRawMessages decodes a vector of group elements.
+// elementsFromRawMessages decodes a vector of group elements. An empty vector
+// encoded as null stays nil, so that it is encoded the same way again.
 func elementsFromRawMessages(j []json.RawMessage, g group.Group) ([]group.Element, error) {
+	if j == nil {
+		return nil, nil
+	}
 	elements := make([]group.Element, len(j))
 	for i := range j {
 		elements[i] = g.Element()
-- 
2.43.0

