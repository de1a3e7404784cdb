From e45da0ec8b9bdb43b822e4626e980240d0319b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:02 +0000
Subject: [PATCH 01/12] fix: G2Affine.Equals compared any two finite points as
 equal

---
 g2.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/g2.go b/g2.go
index 636fa98..e137d50 100644
--- a/g2.go
+++ b/g2.go
@@ -139,7 +139,10 @@ func (g G2Affine) ScaleByCofactor() *G2Projective {
 
 // Equals checks if two affine points are equal.
 func (g G2Affine) Equals(other *G2Affine) bool {
-	return (g.infinity == other.infinity) || (g.x.Equals(other.x) && g.y.Equals(other.y))
+	if g.infinity || other.infinity {
+		return g.infinity == other.infinity
+	}
+	return g.x.Equals(other.x) && g.y.Equals(other.y)
 }
 
 // GetG2PointFromX attempts to reconstruct an affine point given
-- 
2.43.0


From b1c35402d06230784ddf1c310921c60de8d81d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:02 +0000
Subject: [PATCH 02/12] fix: MillerLoop panicked on pairs containing infinity

---
 pairing.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pairing.go b/pairing.go
index 606e250..9c3e419 100644
--- a/pairing.go
+++ b/pairing.go
@@ -14,14 +14,14 @@ type pairingItem struct {
 
 // MillerLoop runs the miller loop algorithm.
 func MillerLoop(items []MillerLoopItem) *FQ12 {
-	pairs := make([]pairingItem, len(items))
-	for i, item := range items {
+	pairs := make([]pairingItem, 0, len(items))
+	for _, item := range items {
 		if !item.P.IsZero() && !item.Q.IsZero() {
-			pairs[i] = pairingItem{
+			pairs = append(pairs, pairingItem{
 				p:      item.P.Copy(),
 				q:      item.Q.coeffs,
 				qIndex: 0,
-			}
+			})
 		}
 	}
 
-- 
2.43.0


From 2f05abd111875c81dd38d0505b6b96109b115ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:02 +0000
Subject: [PATCH 03/12] fix: reject compressed points whose x coordinate is not
 below q

---
 g1.go | 3 +++
 g2.go | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/g1.go b/g1.go
index 13b1371..40a7510 100644
--- a/g1.go
+++ b/g1.go
@@ -221,6 +221,9 @@ func DecompressG1Unchecked(b [48]byte) (*G1Affine, error) {
 	copyBytes[0] &= 0x1f
 
 	x := FQReprFromBytes(copyBytes)
+	if x.Cmp(QFieldModulus) >= 0 {
+		return nil, errors.New("x coordinate is not a canonical field element")
+	}
 	xFQ := FQReprToFQ(x)
 
 	return GetG1PointFromX(xFQ, greatest)
diff --git a/g2.go b/g2.go
index e137d50..b824de9 100644
--- a/g2.go
+++ b/g2.go
@@ -258,8 +258,11 @@ func DecompressG2Unchecked(c [96]byte) (*G2Affine, error) {
 	copy(xC0Bytes[:], c[48:])
 
 	xC0 := FQReprFromBytes(xC0Bytes)
-	xC0FQ := FQReprToFQ(xC0)
 	xC1 := FQReprFromBytes(xC1Bytes)
+	if xC0.Cmp(QFieldModulus) >= 0 || xC1.Cmp(QFieldModulus) >= 0 {
+		return nil, errors.New("x coordinate is not a canonical field element")
+	}
+	xC0FQ := FQReprToFQ(xC0)
 	xC1FQ := FQReprToFQ(xC1)
 
 	x := NewFQ2(xC0FQ, xC1FQ)
-- 
2.43.0


From 2250e81e1ca9060ac4e0631925ea770e1e321746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:02 +0000
Subject: [PATCH 04/12] fix: FRReprToFR overwrote its argument

---
 fr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fr.go b/fr.go
index a6123f0..deb145d 100644
--- a/fr.go
+++ b/fr.go
@@ -40,7 +40,7 @@ var FRR2, _ = FRReprFromString("329490647479426544212979752063071073927857568219
 // FRReprToFR gets a pointer to a FR given a pointer
 // to an FRRepr
 func FRReprToFR(o *FRRepr) *FR {
-	r := &FR{n: o}
+	r := &FR{n: o.Copy()}
 	if r.IsValid() {
 		r.MulAssign(&FR{FRR2})
 		return r
-- 
2.43.0


From f93ae5de3bf0a6af5f5e9a59488f2ded55265122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:02 +0000
Subject: [PATCH 05/12] fix: MulBits multiplied by the bit-reversed integer

---
 fq.go | 4 ++--
 fr.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/fq.go b/fq.go
index 11ea4ec..f4edff7 100644
--- a/fq.go
+++ b/fq.go
@@ -275,9 +275,9 @@ func (f FQ) Parity() bool {
 // MulBits multiplies the number by a big number.
 func (f FQ) MulBits(b *FQRepr) FQ {
 	res := FQZero.Copy()
-	for i := uint(0); i < b.BitLen(); i++ {
+	for i := b.BitLen(); i > 0; i-- {
 		res.DoubleAssign()
-		if b.Bit(i) {
+		if b.Bit(i - 1) {
 			res.AddAssign(f)
 		}
 	}
diff --git a/fr.go b/fr.go
index deb145d..4dda441 100644
--- a/fr.go
+++ b/fr.go
@@ -271,9 +271,9 @@ func (f FR) Parity() bool {
 // MulBits multiplies the number by a big number.
 func (f FR) MulBits(b *FRRepr) *FR {
 	res := bigZeroFR.Copy()
-	for i := uint(0); i < b.BitLen(); i++ {
+	for i := b.BitLen(); i > 0; i-- {
 		res.DoubleAssign()
-		if b.Bit(i) {
+		if b.Bit(i - 1) {
 			res.AddAssign(&f)
 		}
 	}
-- 
2.43.0


From 7eb91f74ef093fc01f7a012dd3ef90a829d1134a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:02 +0000
Subject: [PATCH 06/12] fix: FQ6.MulAssign gave a wrong product when
 multiplying by itself

---
 fq6.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fq6.go b/fq6.go
index 1d948a3..3e0f746 100644
--- a/fq6.go
+++ b/fq6.go
@@ -253,6 +253,9 @@ func (f *FQ6) SquareAssign() {
 
 // MulAssign multiplies two FQ6 elements together.
 func (f *FQ6) MulAssign(other *FQ6) {
+	if other == f {
+		other = f.Copy()
+	}
 	aa := f.c0.Copy()
 	aa.MulAssign(other.c0)
 	bb := f.c1.Copy()
-- 
2.43.0


From f239885bff4a1832f06bb2d76ffbf6346dfd34d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:02 +0000
Subject: [PATCH 07/12] fix: SetRawBytes did not restore the point
 SerializeBytes wrote

---
 g1.go | 10 ++++------
 g2.go |  2 ++
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/g1.go b/g1.go
index 40a7510..046910a 100644
--- a/g1.go
+++ b/g1.go
@@ -172,12 +172,10 @@ func (g *G1Affine) SetRawBytes(uncompressed [96]byte) {
 	var yBytes [48]byte
 	copy(xBytes[:], uncompressed[0:48])
 	copy(yBytes[:], uncompressed[48:96])
-	g.x = FQ{
-		n: FQReprFromBytes(xBytes),
-	}
-	g.y = FQ{
-		n: FQReprFromBytes(yBytes),
-	}
+	g.x = FQReprToFQ(FQReprFromBytes(xBytes))
+	g.y = FQReprToFQ(FQReprFromBytes(yBytes))
+	// infinity is serialized as (0, 1), which is not on the curve
+	g.infinity = g.x.IsZero() && g.y.Equals(FQOne)
 }
 
 // DecompressG1 decompresses the big int into an affine point and checks
diff --git a/g2.go b/g2.go
index b824de9..68633f4 100644
--- a/g2.go
+++ b/g2.go
@@ -214,6 +214,8 @@ func (g *G2Affine) SetRawBytes(uncompressed [192]byte) error {
 		c0: yc0FQ,
 		c1: yc1FQ,
 	}
+	// infinity is serialized as (0, 1), which is not on the curve
+	g.infinity = g.x.IsZero() && g.y.Equals(FQ2One)
 	return nil
 }
 
-- 
2.43.0


From 6fc15e703a6af85c006325b83dc4a5bf3db32a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:02 +0000
Subject: [PATCH 08/12] fix: VerifyAggregate rejected every list containing an
 empty message

---
 g1pubs/bls.go | 6 ++----
 g2pubs/bls.go | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/g1pubs/bls.go b/g1pubs/bls.go
index 259adec..5232186 100644
--- a/g1pubs/bls.go
+++ b/g1pubs/bls.go
@@ -262,14 +262,12 @@ func (s *Signature) VerifyAggregate(pubKeys []*PublicKey, msgs [][]byte) bool {
 	}
 
 	msgsSorted := sortByteArrays(msgsCopy)
-	lastMsg := []byte(nil)
 
 	// check for duplicates
-	for _, m := range msgsSorted {
-		if bytes.Equal(m, lastMsg) {
+	for i := 1; i < len(msgsSorted); i++ {
+		if bytes.Equal(msgsSorted[i], msgsSorted[i-1]) {
 			return false
 		}
-		lastMsg = m
 	}
 
 	lhs := bls.Pairing(bls.G1ProjectiveOne, s.s)
diff --git a/g2pubs/bls.go b/g2pubs/bls.go
index 16d32eb..0931c30 100644
--- a/g2pubs/bls.go
+++ b/g2pubs/bls.go
@@ -250,14 +250,12 @@ func (s *Signature) VerifyAggregate(pubKeys []*PublicKey, msgs [][]byte) bool {
 	}
 
 	msgsSorted := sortByteArrays(msgsCopy)
-	lastMsg := []byte(nil)
 
 	// check for duplicates
-	for _, m := range msgsSorted {
-		if bytes.Equal(m, lastMsg) {
+	for i := 1; i < len(msgsSorted); i++ {
+		if bytes.Equal(msgsSorted[i], msgsSorted[i-1]) {
 			return false
 		}
-		lastMsg = m
 	}
 
 	lhs := bls.Pairing(s.s, bls.G2ProjectiveOne)
-- 
2.43.0


From 9a7bd0a7e124a25497a93be23879a68bd0889214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:02 +0000
Subject: [PATCH 09/12] fix: RandG1 and RandG2 could return infinity

---
 g1.go | 2 +-
 g2.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/g1.go b/g1.go
index 046910a..8d32ce9 100644
--- a/g1.go
+++ b/g1.go
@@ -606,7 +606,7 @@ func RandG1(r io.Reader) (*G1Projective, error) {
 			continue
 		}
 		p1 := p.ScaleByCofactor()
-		if !p.IsZero() {
+		if !p1.IsZero() {
 			return p1, nil
 		}
 	}
diff --git a/g2.go b/g2.go
index 68633f4..aacd09f 100644
--- a/g2.go
+++ b/g2.go
@@ -829,7 +829,7 @@ func RandG2(r io.Reader) (*G2Projective, error) {
 			continue
 		}
 		p1 := p.ScaleByCofactor()
-		if !p.IsZero() {
+		if !p1.IsZero() {
 			return p1, nil
 		}
 	}
-- 
2.43.0


From 85196aa66afbec8180ee0f57800e540ff6c96aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:11 +0000
Subject: [PATCH 10/12] fix: G2Projective.ToAffine handed out the shared
 infinity constant

---
 g2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/g2.go b/g2.go
index aacd09f..46a5a3a 100644
--- a/g2.go
+++ b/g2.go
@@ -372,7 +372,7 @@ func (g G2Projective) Equals(other *G2Projective) bool {
 // ToAffine converts a G2Projective point to affine form.
 func (g G2Projective) ToAffine() *G2Affine {
 	if g.IsZero() {
-		return G2AffineZero
+		return G2AffineZero.Copy()
 	} else if g.z.Equals(FQ2One) {
 		return NewG2Affine(g.x, g.y)
 	}
-- 
2.43.0


From fe506da3ddc0d0bac32bf8dcd09029787ac622a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:36 +0000
Subject: [PATCH 11/12] fix: FR.Sqrt returned 1 for every element

---
 fr.go | 39 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/fr.go b/fr.go
index 4dda441..6892404 100644
--- a/fr.go
+++ b/fr.go
@@ -209,10 +209,43 @@ func (f *FR) SquareAssign() {
 	f.montReduce(r0, r1, r2, r3, r4, r5, r6, r7)
 }
 
-// Sqrt calculates the square root of the field element.
+// Sqrt calculates the square root of the field element, or returns nil if
+// the element is not a square (Tonelli-Shanks with r - 1 = t * 2^32).
 func (f FR) Sqrt() *FR {
-	// TODO: fixme
-	return FRReprToFR(frOne)
+	switch f.Legendre() {
+	case LegendreZero:
+		return bigZeroFR.Copy()
+	case LegendreQuadraticNonResidue:
+		return nil
+	}
+
+	t := RFieldModulus.Copy()
+	t.Rsh(32)
+	tPlus1Over2 := t.Copy()
+	tPlus1Over2.Rsh(1)
+	tPlus1Over2.AddNoCarry(frOne)
+
+	// 7 is a quadratic non-residue
+	c := FRReprToFR(NewFRRepr(7)).Exp(t)
+	root := f.Exp(tPlus1Over2)
+	// root^2 = f * rest, the order of rest divides 2^(m-1), that of c is 2^m
+	rest := f.Exp(t)
+	m := 32
+	for !rest.Equals(bigOneFR) {
+		// find the smallest i with rest^(2^i) = 1
+		i := 0
+		for pow := rest.Copy(); !pow.Equals(bigOneFR); i++ {
+			pow.SquareAssign()
+		}
+		for ; m > i+1; m-- {
+			c.SquareAssign()
+		}
+		root.MulAssign(c)
+		c.SquareAssign()
+		m--
+		rest.MulAssign(c)
+	}
+	return root
 }
 
 // Inverse finds the inverse of the field element.
-- 
2.43.0


From a66555301b3618af7172c37c2f4416dbdf229516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:15 +0000
Subject: [PATCH 12/12] fix: RandG1 and RandG2 used a byte the source had not
 delivered

A Read that returns 0 bytes and no error left the sign byte at zero, so the
point depended on how the source split its bytes.
---
 g1.go | 2 +-
 g2.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/g1.go b/g1.go
index 8d32ce9..7de6294 100644
--- a/g1.go
+++ b/g1.go
@@ -589,7 +589,7 @@ func (g G1Projective) MulFR(b *FRRepr) *G1Projective {
 func RandG1(r io.Reader) (*G1Projective, error) {
 	for {
 		b := make([]byte, 1)
-		_, err := r.Read(b)
+		_, err := io.ReadFull(r, b)
 		if err != nil {
 			return nil, err
 		}
diff --git a/g2.go b/g2.go
index 46a5a3a..7960869 100644
--- a/g2.go
+++ b/g2.go
@@ -812,7 +812,7 @@ func G2AffineToPrepared(q *G2Affine) *G2Prepared {
 func RandG2(r io.Reader) (*G2Projective, error) {
 	for {
 		b := make([]byte, 1)
-		_, err := r.Read(b)
+		_, err := io.ReadFull(r, b)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0

