From a76a4cae9a5919a5b634e39e9a32458aa4ce1b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:32 +0000
Subject: [PATCH 01/31] fix: p256 Add(a, infinity) must return a, not infinity

---
 crypto/p256/p256.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crypto/p256/p256.go b/crypto/p256/p256.go
index 288d2b2..d3eeb65 100644
--- a/crypto/p256/p256.go
+++ b/crypto/p256/p256.go
@@ -77,8 +77,8 @@ func (p *P256) Add(a, b *P256) *P256 {
         p.Y = b.Y
         return p
     } else if b.IsZero() {
-        p.X = b.X
-        p.Y = b.Y
+        p.X = a.X
+        p.Y = a.Y
         return p
 
     }
-- 
2.43.0


From a416679d38d218eb6a849cf2b1fded046b64a9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:36 +0000
Subject: [PATCH 02/31] fix: p256 Neg must negate its argument, not the
 receiver

---
 crypto/p256/p256.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/p256/p256.go b/crypto/p256/p256.go
index d3eeb65..bef3ded 100644
--- a/crypto/p256/p256.go
+++ b/crypto/p256/p256.go
@@ -64,7 +64,7 @@ func (p *P256) Neg(a *P256) *P256 {
     }
     one := new(big.Int).SetInt64(1)
     mone := new(big.Int).Sub(CURVE.N, one)
-    p.ScalarMult(p, mone)
+    p.ScalarMult(a, mone)
     return p
 }
 
-- 
2.43.0


From 56cfd4b01bf403515fb6d8a3ed48804480ddfabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:40 +0000
Subject: [PATCH 03/31] fix: IsPowerOfTwo(MinInt64) is not a power of two
 (Setup panicked)

---
 bulletproofs/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bulletproofs/util.go b/bulletproofs/util.go
index 7a4fd37..bd09a78 100644
--- a/bulletproofs/util.go
+++ b/bulletproofs/util.go
@@ -130,5 +130,5 @@ IsPowerOfTwo returns true for arguments that are a power of 2, false otherwise.
 https://stackoverflow.com/a/600306/844313
 */
 func IsPowerOfTwo(x int64) bool {
-    return (x != 0) && ((x & (x - 1)) == 0)
+    return (x > 0) && ((x & (x - 1)) == 0)
 }
-- 
2.43.0


From 713ee46d3b3e90541ddef08d7a88c69f50af3ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:58 +0000
Subject: [PATCH 04/31] fix: InnerProductProof.Verify must not modify the proof

---
 bulletproofs/bip.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bulletproofs/bip.go b/bulletproofs/bip.go
index badb065..3cfeba1 100644
--- a/bulletproofs/bip.go
+++ b/bulletproofs/bip.go
@@ -227,7 +227,8 @@ func (proof InnerProductProof) Verify() (bool, error) {
 
     gprime := proof.Params.Gg
     hprime := proof.Params.Hh
-    Pprime := proof.Params.P
+    // work on a copy, such that verifying a proof does not modify it
+    Pprime := new(p256.P256).Multiply(proof.Params.P, new(p256.P256).SetInfinity())
     nprime := proof.N
     for i := int64(0); i < int64(logn); i++ {
         nprime = nprime / 2                        // (20)
-- 
2.43.0


From acbeb1f85f299760e15e47e4583c47692e55060f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:02 +0000
Subject: [PATCH 05/31] fix: SetupGeneric must reject ranges it cannot support

---
 bulletproofs/bprp.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bulletproofs/bprp.go b/bulletproofs/bprp.go
index 7b196a5..1e73d13 100644
--- a/bulletproofs/bprp.go
+++ b/bulletproofs/bprp.go
@@ -18,6 +18,7 @@
 package bulletproofs
 
 import (
+    "errors"
     "math/big"
 )
 
@@ -45,6 +46,13 @@ SetupGeneric is responsible for calling the Setup algorithm for each
 BulletProof.
 */
 func SetupGeneric(a, b int64) (*bprp, error) {
+    if a > b {
+        return nil, errors.New("a must be less than or equal to b")
+    }
+    // b - a may not fit in an int64, but it always fits in an uint64.
+    if uint64(b)-uint64(a) > uint64(MAX_RANGE_END) {
+        return nil, errors.New("range size can not be greater than 2**32")
+    }
     params := new(bprp)
     params.A = a
     params.B = b
-- 
2.43.0


From 0504e91162067741ea97e8dc77b8b57d1d84a5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:06 +0000
Subject: [PATCH 06/31] fix: second HashBP challenge ignored its buffer, making
 y equal to z

---
 bulletproofs/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bulletproofs/util.go b/bulletproofs/util.go
index bd09a78..7cba23e 100644
--- a/bulletproofs/util.go
+++ b/bulletproofs/util.go
@@ -71,7 +71,7 @@ func HashBP(A, S *p256.P256) (*big.Int, *big.Int, error) {
     buffer2.WriteString(S.X.String())
     buffer2.WriteString(S.Y.String())
     buffer2.WriteString(result1.String())
-    digest2.Write(buffer.Bytes())
+    digest2.Write(buffer2.Bytes())
     output2 := digest2.Sum(nil)
     tmp2 := output2[0:]
     result2 := new(big.Int).SetBytes(tmp2)
-- 
2.43.0


From da5b60fa0a5ccd8334f9caea297f907fca01ef86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:09 +0000
Subject: [PATCH 07/31] fix: p256 IsOnCurve must not panic on the point at
 infinity

---
 crypto/p256/p256.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crypto/p256/p256.go b/crypto/p256/p256.go
index bef3ded..98d5485 100644
--- a/crypto/p256/p256.go
+++ b/crypto/p256/p256.go
@@ -249,6 +249,10 @@ IsOnCurve returns TRUE if and only if p has coordinates X and Y that satisfy the
 Elliptic Curve equation: y^2 = x^3 + 7.
 */
 func (p *P256) IsOnCurve() bool {
+    // the point at infinity has no affine coordinates
+    if p.X == nil || p.Y == nil {
+        return false
+    }
     // y² = x³ + 7
     y2 := new(big.Int).Mul(p.Y, p.Y)
     y2.Mod(y2, CURVE.P)
-- 
2.43.0


From f981ce58217ca1aa67c91302a18802f87be611a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:07 +0000
Subject: [PATCH 08/31] fix: Fiat-Shamir challenges must bind the whole
 transcript

The commitment V was not part of any challenge, and x did not depend on A and S,
so that a prover could choose V (or A, S) after the challenges were known and
prove false statements (weak Fiat-Shamir).
---
 bulletproofs/bip.go  |  6 +++---
 bulletproofs/bp.go   |  8 ++++----
 bulletproofs/util.go | 21 +++++++++++----------
 3 files changed, 18 insertions(+), 17 deletions(-)

diff --git a/bulletproofs/bip.go b/bulletproofs/bip.go
index 3cfeba1..c2e5c0c 100644
--- a/bulletproofs/bip.go
+++ b/bulletproofs/bip.go
@@ -177,7 +177,7 @@ func computeBipRecursive(a, b []*big.Int, g, h []*p256.P256, u, P *p256.P256, n
         R.Multiply(R, new(p256.P256).ScalarMult(u, cR))
 
         // Fiat-Shamir:                                                       // (26)
-        x, _, _ = HashBP(L, R)
+        x, _, _ = HashBP(P, L, R)
         xinv = bn.ModInverse(x, ORDER)
 
         // Compute g' = g[:n']^(x^-1) * g[n':]^(x)                            // (29)
@@ -231,8 +231,8 @@ func (proof InnerProductProof) Verify() (bool, error) {
     Pprime := new(p256.P256).Multiply(proof.Params.P, new(p256.P256).SetInfinity())
     nprime := proof.N
     for i := int64(0); i < int64(logn); i++ {
-        nprime = nprime / 2                        // (20)
-        x, _, _ = HashBP(proof.Ls[i], proof.Rs[i]) // (26)
+        nprime = nprime / 2                                // (20)
+        x, _, _ = HashBP(Pprime, proof.Ls[i], proof.Rs[i]) // (26)
         xinv = bn.ModInverse(x, ORDER)
         // Compute g' = g[:n']^(x^-1) * g[n':]^(x)                            // (29)
         ngprime = vectorScalarExp(gprime[:nprime], xinv)
diff --git a/bulletproofs/bp.go b/bulletproofs/bp.go
index abe984a..1dccfca 100644
--- a/bulletproofs/bp.go
+++ b/bulletproofs/bp.go
@@ -126,7 +126,7 @@ func Prove(secret *big.Int, params BulletProofSetupParams) (BulletProof, error)
     S := commitVectorBig(sL, sR, rho, params.H, params.Gg, params.Hh, params.N) // (47)
 
     // Fiat-Shamir heuristic to compute challenges y and z, corresponds to    (49)
-    y, z, _ := HashBP(A, S)
+    y, z, _ := HashBP(V, A, S)
 
     // ////////////////////////////////////////////////////////////////////////////
     // Second phase: page 20
@@ -179,7 +179,7 @@ func Prove(secret *big.Int, params BulletProofSetupParams) (BulletProof, error)
     T2, _ := CommitG1(t2, tau2, params.H) // (53)
 
     // Fiat-Shamir heuristic to compute 'random' challenge x
-    x, _, _ := HashBP(T1, T2)
+    x, _, _ := HashBP(V, A, S, T1, T2)
 
     // ////////////////////////////////////////////////////////////////////////////
     // Third phase                                                              //
@@ -244,8 +244,8 @@ Verify returns true if and only if the proof is valid.
 func (proof *BulletProof) Verify() (bool, error) {
     params := proof.Params
     // Recover x, y, z using Fiat-Shamir heuristic
-    x, _, _ := HashBP(proof.T1, proof.T2)
-    y, z, _ := HashBP(proof.A, proof.S)
+    x, _, _ := HashBP(proof.V, proof.A, proof.S, proof.T1, proof.T2)
+    y, z, _ := HashBP(proof.V, proof.A, proof.S)
 
     // Switch generators                                                   // (64)
     hprime := updateGenerators(params.Hh, y, params.N)
diff --git a/bulletproofs/util.go b/bulletproofs/util.go
index 7cba23e..74d94b5 100644
--- a/bulletproofs/util.go
+++ b/bulletproofs/util.go
@@ -49,16 +49,17 @@ func powerOf(x *big.Int, n int64) []*big.Int {
 }
 
 /*
-Hash is responsible for the computing a Zp element given elements from GT and G1.
+Hash is responsible for the computing 2 Zp elements given a list of group elements,
+which must contain the complete transcript of the protocol so far.
 */
-func HashBP(A, S *p256.P256) (*big.Int, *big.Int, error) {
+func HashBP(points ...*p256.P256) (*big.Int, *big.Int, error) {
 
     digest1 := sha256.New()
     var buffer bytes.Buffer
-    buffer.WriteString(A.X.String())
-    buffer.WriteString(A.Y.String())
-    buffer.WriteString(S.X.String())
-    buffer.WriteString(S.Y.String())
+    for _, point := range points {
+        buffer.WriteString(point.X.String())
+        buffer.WriteString(point.Y.String())
+    }
     digest1.Write(buffer.Bytes())
     output1 := digest1.Sum(nil)
     tmp1 := output1[0:]
@@ -66,10 +67,10 @@ func HashBP(A, S *p256.P256) (*big.Int, *big.Int, error) {
 
     digest2 := sha256.New()
     var buffer2 bytes.Buffer
-    buffer2.WriteString(A.X.String())
-    buffer2.WriteString(A.Y.String())
-    buffer2.WriteString(S.X.String())
-    buffer2.WriteString(S.Y.String())
+    for _, point := range points {
+        buffer2.WriteString(point.X.String())
+        buffer2.WriteString(point.Y.String())
+    }
     buffer2.WriteString(result1.String())
     digest2.Write(buffer2.Bytes())
     output2 := digest2.Sum(nil)
-- 
2.43.0


From 634f8943ef77eceb7e89a09017bd4d2ffd0dc696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:10 +0000
Subject: [PATCH 09/31] fix: challenges must not depend on the representation
 of infinity

---
 bulletproofs/util.go | 9 +++++----
 crypto/p256/p256.go  | 4 ++++
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/bulletproofs/util.go b/bulletproofs/util.go
index 74d94b5..276a1ca 100644
--- a/bulletproofs/util.go
+++ b/bulletproofs/util.go
@@ -57,6 +57,10 @@ func HashBP(points ...*p256.P256) (*big.Int, *big.Int, error) {
     digest1 := sha256.New()
     var buffer bytes.Buffer
     for _, point := range points {
+        if point.IsZero() {
+            // infinity has more than one representation
+            point = new(p256.P256).SetInfinity()
+        }
         buffer.WriteString(point.X.String())
         buffer.WriteString(point.Y.String())
     }
@@ -67,10 +71,7 @@ func HashBP(points ...*p256.P256) (*big.Int, *big.Int, error) {
 
     digest2 := sha256.New()
     var buffer2 bytes.Buffer
-    for _, point := range points {
-        buffer2.WriteString(point.X.String())
-        buffer2.WriteString(point.Y.String())
-    }
+    buffer2.Write(buffer.Bytes())
     buffer2.WriteString(result1.String())
     digest2.Write(buffer2.Bytes())
     output2 := digest2.Sum(nil)
diff --git a/crypto/p256/p256.go b/crypto/p256/p256.go
index 98d5485..f58b0a8 100644
--- a/crypto/p256/p256.go
+++ b/crypto/p256/p256.go
@@ -178,6 +178,10 @@ String returns the readable representation of the given elliptic curve point, i.
 the tuple formed by X and Y coordinates.
 */
 func (p *P256) String() string {
+    if p.IsZero() {
+        // infinity has more than one representation
+        p = new(P256).SetInfinity()
+    }
     return "P256(" + p.X.String() + "," + p.Y.String() + ")"
 }
 
-- 
2.43.0


From f49fae03156d13aaf82f9cad6d311b6b9dd543cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:23 +0000
Subject: [PATCH 10/31] fix: bulletproof Verify must not trust parameters
 supplied by the prover

Verify panicked on malformed (decoded) proofs, used whatever generators and
inner-product statement were stored in the proof, did not relate the inner-product
argument to the commitment and to tprime, and accepted any number of folding
rounds. Each of these allowed to prove false statements.
---
 bulletproofs/bip.go | 35 +++++++++++++++++++----
 bulletproofs/bp.go  | 68 ++++++++++++++++++++++++++++++++++++++++++++-
 2 files changed, 96 insertions(+), 7 deletions(-)

diff --git a/bulletproofs/bip.go b/bulletproofs/bip.go
index c2e5c0c..ad30268 100644
--- a/bulletproofs/bip.go
+++ b/bulletproofs/bip.go
@@ -117,18 +117,26 @@ func proveInnerProduct(a, b []*big.Int, P *p256.P256, params InnerProductParams)
         return proof, errors.New("size of first array argument must be equal to the second")
     }
 
+    ux, PP := params.bindClaim(P)
+    // Execute Protocol 2 recursively
+    proof = computeBipRecursive(a, b, params.Gg, params.Hh, ux, PP, n, Ls, Rs)
+    proof.Params = params
+    proof.Params.P = PP
+    return proof, nil
+}
+
+/*
+bindClaim computes u^x and P' = P.u^(x.c), where the challenge x binds the
+generators, the commitment P and the claimed inner product c.
+*/
+func (params *InnerProductParams) bindClaim(P *p256.P256) (*p256.P256, *p256.P256) {
     // Fiat-Shamir:
     // x = Hash(g,h,P,c)
     x, _ := hashIP(params.Gg, params.Hh, P, params.Cc, params.N)
     // Pprime = P.u^(x.c)
     ux := new(p256.P256).ScalarMult(params.Uu, x)
     uxc := new(p256.P256).ScalarMult(ux, params.Cc)
-    PP := new(p256.P256).Multiply(P, uxc)
-    // Execute Protocol 2 recursively
-    proof = computeBipRecursive(a, b, params.Gg, params.Hh, ux, PP, n, Ls, Rs)
-    proof.Params = params
-    proof.Params.P = PP
-    return proof, nil
+    return ux, new(p256.P256).Multiply(P, uxc)
 }
 
 /*
@@ -220,11 +228,26 @@ Verify is responsible for the verification of the Inner Product Proof.
 func (proof InnerProductProof) Verify() (bool, error) {
 
     logn := len(proof.Ls)
+    // the vectors must be folded until exactly one element is left
+    if proof.N <= 0 || logn > 62 || proof.N != int64(1)<<uint(logn) || len(proof.Rs) != logn {
+        return false, errors.New("number of rounds does not match the size of the vectors")
+    }
+    if int64(len(proof.Params.Gg)) != proof.N || int64(len(proof.Params.Hh)) != proof.N {
+        return false, errors.New("number of generators does not match the size of the vectors")
+    }
     var (
         x, xinv, x2, x2inv                   *big.Int
         ngprime, nhprime, ngprime2, nhprime2 []*p256.P256
     )
 
+    // u must be derived from the challenge that binds the commitment P = P'.u^(-x.c) and c
+    uxc := new(p256.P256).ScalarMult(proof.U, proof.Params.Cc)
+    P := new(p256.P256).Multiply(proof.Params.P, uxc.Neg(uxc))
+    ux, _ := proof.Params.bindClaim(P)
+    if ux.String() != proof.U.String() {
+        return false, nil
+    }
+
     gprime := proof.Params.Gg
     hprime := proof.Params.Hh
     // work on a copy, such that verifying a proof does not modify it
diff --git a/bulletproofs/bp.go b/bulletproofs/bp.go
index 1dccfca..cce1c7c 100644
--- a/bulletproofs/bp.go
+++ b/bulletproofs/bp.go
@@ -242,6 +242,9 @@ func Prove(secret *big.Int, params BulletProofSetupParams) (BulletProof, error)
 Verify returns true if and only if the proof is valid.
 */
 func (proof *BulletProof) Verify() (bool, error) {
+    if err := proof.validate(); err != nil {
+        return false, err
+    }
     params := proof.Params
     // Recover x, y, z using Fiat-Shamir heuristic
     x, _, _ := HashBP(proof.V, proof.A, proof.S, proof.T1, proof.T2)
@@ -326,13 +329,76 @@ func (proof *BulletProof) Verify() (bool, error) {
     c67 := rP.IsZero()
 
     // Verify Inner Product Proof ################################################
-    ok, _ := proof.InnerProductProof.Verify()
+    // It must be about the generators, the commitment and tprime used above.
+    proofip := proof.InnerProductProof
+    proofip.N = params.N
+    proofip.Params, _ = setupInnerProduct(params.H, params.Gg, hprime, proof.Tprime, params.N)
+    _, proofip.Params.P = proofip.Params.bindClaim(proof.Commit)
+    ok, _ := proofip.Verify()
 
     result := c65 && c67 && ok
 
     return result, nil
 }
 
+/*
+validate returns an error if the proof is not well-formed: it may have been received
+from an untrusted prover, so that neither its elements nor its parameters can be trusted.
+*/
+func (proof *BulletProof) validate() error {
+    params := proof.Params
+    if params.N <= 0 || params.N > int64(MAX_RANGE_END_EXPONENT) {
+        return errors.New("unsupported range")
+    }
+    expected, err := Setup(int64(1) << uint(params.N))
+    if err != nil {
+        return err
+    }
+    generators := append(append([]*p256.P256{params.G, params.H}, params.Gg...), params.Hh...)
+    expectedGenerators := append(append([]*p256.P256{expected.G, expected.H}, expected.Gg...), expected.Hh...)
+    if len(params.Gg) != len(expected.Gg) || len(params.Hh) != len(expected.Hh) {
+        return errors.New("wrong number of generators")
+    }
+    for i := range generators {
+        if !isValidPoint(generators[i]) || generators[i].String() != expectedGenerators[i].String() {
+            return errors.New("generators differ from the public parameters")
+        }
+    }
+
+    proofip := proof.InnerProductProof
+    points := append([]*p256.P256{proof.V, proof.A, proof.S, proof.T1, proof.T2, proof.Commit, proofip.U}, proofip.Ls...)
+    points = append(points, proofip.Rs...)
+    for _, point := range points {
+        if !isValidPoint(point) {
+            return errors.New("proof contains an invalid group element")
+        }
+    }
+    for _, scalar := range []*big.Int{proof.Taux, proof.Mu, proof.Tprime, proofip.A, proofip.B} {
+        if scalar == nil {
+            return errors.New("proof is incomplete")
+        }
+    }
+    return nil
+}
+
+/*
+isValidPoint returns true if and only if p is a group element with canonical coordinates.
+*/
+func isValidPoint(p *p256.P256) bool {
+    if p == nil {
+        return false
+    }
+    if p.IsZero() {
+        return true
+    }
+    for _, c := range []*big.Int{p.X, p.Y} {
+        if c.Sign() < 0 || c.Cmp(p256.CURVE.P) >= 0 {
+            return false
+        }
+    }
+    return p.IsOnCurve()
+}
+
 /*
 SampleRandomVector generates a vector composed by random big numbers.
 */
-- 
2.43.0


From 5b79b285c84a45a20580a656ce9ab7ad9a589b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:04 +0000
Subject: [PATCH 11/31] fix: both halves of a generic range proof must be about
 one secret and range

ProofBPRP.Verify accepted halves made from different secrets, or for a different
interval than the one being claimed, because nothing related the two commitments.
---
 bulletproofs/bp.go   |  9 ++++++++-
 bulletproofs/bprp.go | 32 ++++++++++++++++++++++++++------
 2 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/bulletproofs/bp.go b/bulletproofs/bp.go
index cce1c7c..afefce5 100644
--- a/bulletproofs/bp.go
+++ b/bulletproofs/bp.go
@@ -102,6 +102,14 @@ eprint version of Bulletproofs papers:
 https://eprint.iacr.org/2017/1066.pdf
 */
 func Prove(secret *big.Int, params BulletProofSetupParams) (BulletProof, error) {
+    gamma, _ := rand.Int(rand.Reader, ORDER)
+    return proveCommitted(secret, gamma, params)
+}
+
+/*
+proveCommitted computes the ZK rangeproof for the commitment to secret with blinding factor gamma.
+*/
+func proveCommitted(secret, gamma *big.Int, params BulletProofSetupParams) (BulletProof, error) {
     var (
         proof BulletProof
     )
@@ -110,7 +118,6 @@ func Prove(secret *big.Int, params BulletProofSetupParams) (BulletProof, error)
     // ////////////////////////////////////////////////////////////////////////////
 
     // commitment to v and gamma
-    gamma, _ := rand.Int(rand.Reader, ORDER)
     V, _ := CommitG1(secret, gamma, params.H)
 
     // aL, aR and commitment: (A, alpha)
diff --git a/bulletproofs/bprp.go b/bulletproofs/bprp.go
index 1e73d13..90fa4e5 100644
--- a/bulletproofs/bprp.go
+++ b/bulletproofs/bprp.go
@@ -18,8 +18,11 @@
 package bulletproofs
 
 import (
+    "crypto/rand"
     "errors"
     "math/big"
+
+    "github.com/ing-bank/zkrp/crypto/p256"
 )
 
 /*
@@ -34,9 +37,11 @@ type bprp struct {
 }
 
 /*
-ProofBPRP stores the generic ZKRP.
+ProofBPRP stores the generic ZKRP, stating that the secret belongs to [A, B).
 */
 type ProofBPRP struct {
+    A  int64
+    B  int64
     P1 BulletProof
     P2 BulletProof
 }
@@ -75,7 +80,14 @@ BulletProofs, as explained in Section 4.3 from the following paper:
 https://infoscience.epfl.ch/record/128718/files/CCS08.pdf
 */
 func ProveGeneric(secret *big.Int, params *bprp) (ProofBPRP, error) {
-    var proof ProofBPRP
+    proof := ProofBPRP{A: params.A, B: params.B}
+
+    // Both proofs use the same blinding factor, such that the verifier is able to
+    // check that they are about the same secret.
+    gamma, errRand := rand.Int(rand.Reader, ORDER)
+    if errRand != nil {
+        return proof, errRand
+    }
 
     // x - b + 2^N
     p2 := new(big.Int).SetInt64(MAX_RANGE_END)
@@ -83,14 +95,14 @@ func ProveGeneric(secret *big.Int, params *bprp) (ProofBPRP, error) {
     xb.Add(xb, p2)
 
     var err1 error
-    proof.P1, err1 = Prove(xb, params.BP1)
+    proof.P1, err1 = proveCommitted(xb, gamma, params.BP1)
     if err1 != nil {
         return proof, err1
     }
 
     xa := new(big.Int).Sub(secret, new(big.Int).SetInt64(params.A))
     var err2 error
-    proof.P2, err2 = Prove(xa, params.BP2)
+    proof.P2, err2 = proveCommitted(xa, gamma, params.BP2)
     if err2 != nil {
         return proof, err2
     }
@@ -99,7 +111,9 @@ func ProveGeneric(secret *big.Int, params *bprp) (ProofBPRP, error) {
 }
 
 /*
-Verify call the Verification algorithm for each BulletProof argument.
+Verify call the Verification algorithm for each BulletProof argument and checks that
+both of them are about the same secret and the interval [proof.A, proof.B), which must
+be compared by the caller with the interval that is expected.
 */
 func (proof ProofBPRP) Verify() (bool, error) {
     ok1, err1 := proof.P1.Verify()
@@ -111,5 +125,11 @@ func (proof ProofBPRP) Verify() (bool, error) {
         return false, err2
     }
 
-    return ok1 && ok2, nil
+    // P1 commits to x - B + 2^N and P2 commits to x - A, thus P1.V.g^(B - 2^N) = P2.V.g^A
+    exp := new(big.Int).Sub(new(big.Int).SetInt64(proof.B), new(big.Int).SetInt64(MAX_RANGE_END))
+    lhs := new(p256.P256).Multiply(proof.P1.V, new(p256.P256).ScalarBaseMult(exp))
+    rhs := new(p256.P256).Multiply(proof.P2.V, new(p256.P256).ScalarBaseMult(new(big.Int).SetInt64(proof.A)))
+    okLink := lhs.String() == rhs.String()
+
+    return ok1 && ok2 && okLink, nil
 }
-- 
2.43.0


From 78fe707414ac486649c9aaf3452b94e4064630a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:20 +0000
Subject: [PATCH 12/31] fix: bn256 point doubling when the receiver is the
 operand

---
 crypto/bn256/curve.go | 9 +++++----
 crypto/bn256/twist.go | 7 ++++---
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/crypto/bn256/curve.go b/crypto/bn256/curve.go
index 6ad76e4..9d48e66 100644
--- a/crypto/bn256/curve.go
+++ b/crypto/bn256/curve.go
@@ -213,6 +213,11 @@ func (c *curvePoint) Double(a *curvePoint, pool *bnPool) {
     f := pool.Get().Mul(e, e)
     f.Mod(f, P)
 
+    // z first, because c.y must not be overwritten before a.y is used if c == a
+    t.Mul(a.y, a.z)
+    t.Mod(t, P)
+    c.z.Add(t, t)
+
     t.Add(d, d)
     c.x.Sub(f, t)
 
@@ -224,10 +229,6 @@ func (c *curvePoint) Double(a *curvePoint, pool *bnPool) {
     t2.Mod(t2, P)
     c.y.Sub(t2, t)
 
-    t.Mul(a.y, a.z)
-    t.Mod(t, P)
-    c.z.Add(t, t)
-
     pool.Put(A)
     pool.Put(B)
     pool.Put(C_)
diff --git a/crypto/bn256/twist.go b/crypto/bn256/twist.go
index d59b228..2fc96d3 100644
--- a/crypto/bn256/twist.go
+++ b/crypto/bn256/twist.go
@@ -191,6 +191,10 @@ func (c *twistPoint) Double(a *twistPoint, pool *bnPool) {
     e := newGFp2(pool).Add(t, A)
     f := newGFp2(pool).Square(e, pool)
 
+    // z first, because c.y must not be overwritten before a.y is used if c == a
+    t.Mul(a.y, a.z, pool)
+    c.z.Add(t, t)
+
     t.Add(d, d)
     c.x.Sub(f, t)
 
@@ -201,9 +205,6 @@ func (c *twistPoint) Double(a *twistPoint, pool *bnPool) {
     t2.Mul(e, c.y, pool)
     c.y.Sub(t2, t)
 
-    t.Mul(a.y, a.z, pool)
-    c.z.Add(t, t)
-
     A.Put(pool)
     B.Put(pool)
     C_.Put(pool)
-- 
2.43.0


From 27fef5578b77af745b84aa2c4ec0dbb51cc89356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:44 +0000
Subject: [PATCH 13/31] fix: bn256 G2 negation in place, and of affine points

The in-place form (used by ScalarMult and ScalarBaseMult with negative scalars)
zeroed the y coordinate, and t was not kept, which made Pair wrong for negated
affine points.
---
 crypto/bn256/twist.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crypto/bn256/twist.go b/crypto/bn256/twist.go
index 2fc96d3..c53ca7c 100644
--- a/crypto/bn256/twist.go
+++ b/crypto/bn256/twist.go
@@ -258,8 +258,7 @@ func (c *twistPoint) MakeAffine(pool *bnPool) *twistPoint {
 
 func (c *twistPoint) Negative(a *twistPoint, pool *bnPool) {
     c.x.Set(a.x)
-    c.y.SetZero()
-    c.y.Sub(c.y, a.y)
+    c.y.Negative(a.y)
     c.z.Set(a.z)
-    c.t.SetZero()
+    c.t.Set(a.t)
 }
-- 
2.43.0


From 40ad69232d07c2b9aa922313607b4f5e26bad428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:47 +0000
Subject: [PATCH 14/31] fix: bn256 G2 identity must stay the identity when made
 affine

---
 crypto/bn256/twist.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crypto/bn256/twist.go b/crypto/bn256/twist.go
index c53ca7c..6235931 100644
--- a/crypto/bn256/twist.go
+++ b/crypto/bn256/twist.go
@@ -240,6 +240,13 @@ func (c *twistPoint) MakeAffine(pool *bnPool) *twistPoint {
         return c
     }
 
+    if c.IsInfinity() {
+        c.x.SetZero()
+        c.y.SetZero()
+        c.t.SetZero()
+        return c
+    }
+
     zInv := newGFp2(pool).Invert(c.z, pool)
     t := newGFp2(pool).Mul(c.y, zInv, pool)
     zInv2 := newGFp2(pool).Square(zInv, pool)
-- 
2.43.0


From a34f499cafacf770401251353cc11be427ffe7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:52 +0000
Subject: [PATCH 15/31] fix: bn256 GT exponentiation with negative exponents,
 and Exp must set its receiver

ScalarMult ignored the sign of the exponent; Exp left its receiver untouched and
overwrote its operand.
---
 crypto/bn256/bn256.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/crypto/bn256/bn256.go b/crypto/bn256/bn256.go
index 22275ed..7b65755 100644
--- a/crypto/bn256/bn256.go
+++ b/crypto/bn256/bn256.go
@@ -356,18 +356,16 @@ func (e *GT) ScalarMult(a *GT, k *big.Int) *GT {
     if e.p == nil {
         e.p = newGFp12(nil)
     }
-    e.p.Exp(a.p, k, new(bnPool))
+    e.p.Exp(a.p, new(big.Int).Abs(k), new(bnPool))
+    if k.Sign() < 0 {
+        e.p.Invert(e.p, new(bnPool))
+    }
     return e
 }
 
+// Exp sets e to a*k and then returns e.
 func (e *GT) Exp(a *GT, k *big.Int) *GT {
-    var returnValue *GT
-    if k.Cmp(big.NewInt(0)) >= 0 {
-        returnValue = a.ScalarMult(a, k)
-    } else {
-        returnValue = a.Invert(a.ScalarMult(a, new(big.Int).Abs(k)))
-    }
-    return returnValue
+    return e.ScalarMult(a, k)
 }
 
 func (e *GT) Invert(a *GT) *GT {
-- 
2.43.0


From 034427cd5e36d2b21e898951f2b4644e1a57893d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:33 +0000
Subject: [PATCH 16/31] fix: bn256 Marshal, String, IsOne and IsZero must not
 modify their receiver

They normalized the element in place, which is a data race when an element is
shared, and String depended on the internal representation for G2 (which made
the Fiat-Shamir challenge of CCS08 depend on it).
---
 crypto/bn256/bn256.go | 49 ++++++++++++++++++++++++-------------------
 crypto/bn256/curve.go |  8 +++++--
 crypto/bn256/gfp12.go | 10 +++++----
 crypto/bn256/twist.go |  5 ++++-
 4 files changed, 43 insertions(+), 29 deletions(-)

diff --git a/crypto/bn256/bn256.go b/crypto/bn256/bn256.go
index 7b65755..5c650cb 100644
--- a/crypto/bn256/bn256.go
+++ b/crypto/bn256/bn256.go
@@ -142,10 +142,12 @@ func (e *G1) Neg(a *G1) *G1 {
 
 // Marshal converts n to a byte slice.
 func (n *G1) Marshal() []byte {
-    n.p.MakeAffine(nil)
+    p := newCurvePoint(nil)
+    p.Set(n.p)
+    p.MakeAffine(nil)
 
-    xBytes := new(big.Int).Mod(n.p.x, P).Bytes()
-    yBytes := new(big.Int).Mod(n.p.y, P).Bytes()
+    xBytes := new(big.Int).Mod(p.x, P).Bytes()
+    yBytes := new(big.Int).Mod(p.y, P).Bytes()
 
     // Each value is a 256-bit number.
     const numBytes = 256 / 8
@@ -283,12 +285,14 @@ func (e *G2) Neg(a *G2) *G2 {
 
 // Marshal converts n into a byte slice.
 func (n *G2) Marshal() []byte {
-    n.p.MakeAffine(nil)
+    p := newTwistPoint(nil)
+    p.Set(n.p)
+    p.MakeAffine(nil)
 
-    xxBytes := new(big.Int).Mod(n.p.x.x, P).Bytes()
-    xyBytes := new(big.Int).Mod(n.p.x.y, P).Bytes()
-    yxBytes := new(big.Int).Mod(n.p.y.x, P).Bytes()
-    yyBytes := new(big.Int).Mod(n.p.y.y, P).Bytes()
+    xxBytes := new(big.Int).Mod(p.x.x, P).Bytes()
+    xyBytes := new(big.Int).Mod(p.x.y, P).Bytes()
+    yxBytes := new(big.Int).Mod(p.y.x, P).Bytes()
+    yyBytes := new(big.Int).Mod(p.y.y, P).Bytes()
 
     // Each value is a 256-bit number.
     const numBytes = 256 / 8
@@ -421,20 +425,21 @@ func (e *GT) Neg(a *GT) *GT {
 
 // Marshal converts n into a byte slice.
 func (n *GT) Marshal() []byte {
-    n.p.Minimal()
-
-    xxxBytes := n.p.x.x.x.Bytes()
-    xxyBytes := n.p.x.x.y.Bytes()
-    xyxBytes := n.p.x.y.x.Bytes()
-    xyyBytes := n.p.x.y.y.Bytes()
-    xzxBytes := n.p.x.z.x.Bytes()
-    xzyBytes := n.p.x.z.y.Bytes()
-    yxxBytes := n.p.y.x.x.Bytes()
-    yxyBytes := n.p.y.x.y.Bytes()
-    yyxBytes := n.p.y.y.x.Bytes()
-    yyyBytes := n.p.y.y.y.Bytes()
-    yzxBytes := n.p.y.z.x.Bytes()
-    yzyBytes := n.p.y.z.y.Bytes()
+    p := newGFp12(nil).Set(n.p)
+    p.Minimal()
+
+    xxxBytes := p.x.x.x.Bytes()
+    xxyBytes := p.x.x.y.Bytes()
+    xyxBytes := p.x.y.x.Bytes()
+    xyyBytes := p.x.y.y.Bytes()
+    xzxBytes := p.x.z.x.Bytes()
+    xzyBytes := p.x.z.y.Bytes()
+    yxxBytes := p.y.x.x.Bytes()
+    yxyBytes := p.y.x.y.Bytes()
+    yyxBytes := p.y.y.x.Bytes()
+    yyyBytes := p.y.y.y.Bytes()
+    yzxBytes := p.y.z.x.Bytes()
+    yzyBytes := p.y.z.y.Bytes()
 
     // Each value is a 256-bit number.
     const numBytes = 256 / 8
diff --git a/crypto/bn256/curve.go b/crypto/bn256/curve.go
index 9d48e66..225094e 100644
--- a/crypto/bn256/curve.go
+++ b/crypto/bn256/curve.go
@@ -48,8 +48,12 @@ func newCurvePoint(pool *bnPool) *curvePoint {
 }
 
 func (c *curvePoint) String() string {
-    c.MakeAffine(new(bnPool))
-    return "(" + c.x.String() + ", " + c.y.String() + ")"
+    a := newCurvePoint(nil)
+    a.Set(c)
+    a.MakeAffine(nil)
+    x := new(big.Int).Mod(a.x, P)
+    y := new(big.Int).Mod(a.y, P)
+    return "(" + x.String() + ", " + y.String() + ")"
 }
 
 func (c *curvePoint) Put(pool *bnPool) {
diff --git a/crypto/bn256/gfp12.go b/crypto/bn256/gfp12.go
index 1974234..902a04a 100644
--- a/crypto/bn256/gfp12.go
+++ b/crypto/bn256/gfp12.go
@@ -68,13 +68,15 @@ func (e *gfP12) Minimal() {
 }
 
 func (e *gfP12) IsZero() bool {
-    e.Minimal()
-    return e.x.IsZero() && e.y.IsZero()
+    t := newGFp12(nil).Set(e)
+    t.Minimal()
+    return t.x.IsZero() && t.y.IsZero()
 }
 
 func (e *gfP12) IsOne() bool {
-    e.Minimal()
-    return e.x.IsZero() && e.y.IsOne()
+    t := newGFp12(nil).Set(e)
+    t.Minimal()
+    return t.x.IsZero() && t.y.IsOne()
 }
 
 func (e *gfP12) Conjugate(a *gfP12) *gfP12 {
diff --git a/crypto/bn256/twist.go b/crypto/bn256/twist.go
index 6235931..334ba10 100644
--- a/crypto/bn256/twist.go
+++ b/crypto/bn256/twist.go
@@ -65,7 +65,10 @@ func newTwistPoint(pool *bnPool) *twistPoint {
 }
 
 func (c *twistPoint) String() string {
-    return "(" + c.x.String() + ", " + c.y.String() + ", " + c.z.String() + ")"
+    a := newTwistPoint(nil)
+    a.Set(c)
+    a.MakeAffine(nil)
+    return "(" + a.x.String() + ", " + a.y.String() + ", " + a.z.String() + ")"
 }
 
 func (c *twistPoint) Put(pool *bnPool) {
-- 
2.43.0


From 77a61f5006fae23b5b0c3534a6909222ec869930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:37 +0000
Subject: [PATCH 17/31] fix: bn256 Unmarshal must reject values that are not
 group elements

Coordinates that are not reduced modulo p, points of the twist outside of G2 and
elements of GF(p^12) outside of GT were accepted.
---
 crypto/bn256/bn256.go | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/crypto/bn256/bn256.go b/crypto/bn256/bn256.go
index 5c650cb..99def47 100644
--- a/crypto/bn256/bn256.go
+++ b/crypto/bn256/bn256.go
@@ -169,6 +169,10 @@ func (e *G1) Unmarshal(m []byte) (*G1, bool) {
         return nil, false
     }
 
+    if !isCanonical(m) {
+        return nil, false
+    }
+
     if e.p == nil {
         e.p = newCurvePoint(nil)
     }
@@ -316,6 +320,10 @@ func (e *G2) Unmarshal(m []byte) (*G2, bool) {
         return nil, false
     }
 
+    if !isCanonical(m) {
+        return nil, false
+    }
+
     if e.p == nil {
         e.p = newTwistPoint(nil)
     }
@@ -337,7 +345,8 @@ func (e *G2) Unmarshal(m []byte) (*G2, bool) {
         e.p.z.SetOne()
         e.p.t.SetOne()
 
-        if !e.p.IsOnCurve() {
+        // The curve over GF(p²) has points that do not belong to G₂.
+        if !e.p.IsOnCurve() || !newTwistPoint(nil).Mul(e.p, Order, new(bnPool)).IsInfinity() {
             return nil, false
         }
     }
@@ -471,6 +480,10 @@ func (e *GT) Unmarshal(m []byte) (*GT, bool) {
         return nil, false
     }
 
+    if !isCanonical(m) {
+        return nil, false
+    }
+
     if e.p == nil {
         e.p = newGFp12(nil)
     }
@@ -488,9 +501,24 @@ func (e *GT) Unmarshal(m []byte) (*GT, bool) {
     e.p.y.z.x.SetBytes(m[10*numBytes : 11*numBytes])
     e.p.y.z.y.SetBytes(m[11*numBytes : 12*numBytes])
 
+    // GT is the subgroup of order Order.
+    if !newGFp12(nil).Exp(e.p, Order, new(bnPool)).IsOne() {
+        return nil, false
+    }
+
     return e, true
 }
 
+// isCanonical returns true iff each 256-bit number in m is less than P.
+func isCanonical(m []byte) bool {
+    for ; len(m) > 0; m = m[32:] {
+        if new(big.Int).SetBytes(m[:32]).Cmp(P) >= 0 {
+            return false
+        }
+    }
+    return true
+}
+
 // Pair calculates an Optimal Ate pairing.
 func Pair(g1 *G1, g2 *G2) *GT {
     return &GT{optimalAte(g2.p, g1.p, new(bnPool))}
-- 
2.43.0


From 0636f8b2aaf460ea0d800ebdc0358717aba29995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:54 +0000
Subject: [PATCH 18/31] fix: bbsignatures Keygen reported an error on success,
 and Sign panicked

ModInverse is nil for the message -privk, for which there is no signature.
---
 crypto/bbsignatures/bb.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crypto/bbsignatures/bb.go b/crypto/bbsignatures/bb.go
index 578ffea..1d5437b 100644
--- a/crypto/bbsignatures/bb.go
+++ b/crypto/bbsignatures/bb.go
@@ -52,7 +52,7 @@ func Keygen() (Keypair, error) {
         return kp, e
     }
     kp.Pubk, res = new(bn256.G1).Unmarshal(new(bn256.G1).ScalarBaseMult(kp.Privk).Marshal())
-    if res {
+    if !res {
         return kp, errors.New("Could not compute scalar multiplication.")
     }
     return kp, e
@@ -67,6 +67,9 @@ func Sign(m *big.Int, privk *big.Int) (*bn256.G2, error) {
         signature *bn256.G2
     )
     inv := bn.ModInverse(bn.Mod(bn.Add(m, privk), bn256.Order), bn256.Order)
+    if inv == nil {
+        return nil, errors.New("Message can not be signed with this private key.")
+    }
     signature, res = new(bn256.G2).Unmarshal(new(bn256.G2).ScalarBaseMult(inv).Marshal())
     if res {
         return signature, nil
-- 
2.43.0


From 2ff66c580fc58faca57b6ad87c694b9ad8731826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:58 +0000
Subject: [PATCH 19/31] fix: ccs08 setups must report errors of the key
 generation and of the signatures

---
 ccs08/ccs08.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/ccs08/ccs08.go b/ccs08/ccs08.go
index 602d579..0bf6686 100644
--- a/ccs08/ccs08.go
+++ b/ccs08/ccs08.go
@@ -101,12 +101,19 @@ func SetupSet(s []int64) (paramsSet, error) {
     var (
         i int
         p paramsSet
+        e error
     )
-    p.kp, _ = bbsignatures.Keygen()
+    p.kp, e = bbsignatures.Keygen()
+    if e != nil {
+        return p, e
+    }
 
     p.signatures = make(map[int64]*bn256.G2)
     for i = 0; i < len(s); i++ {
-        sig_i, _ := bbsignatures.Sign(new(big.Int).SetInt64(int64(s[i])), p.kp.Privk)
+        sig_i, e := bbsignatures.Sign(new(big.Int).SetInt64(int64(s[i])), p.kp.Privk)
+        if e != nil {
+            return p, e
+        }
         p.signatures[s[i]] = sig_i
     }
     // Issue #12: p.H must be computed using MapToPoint method.
@@ -124,12 +131,19 @@ func SetupUL(u, l int64) (paramsUL, error) {
     var (
         i int64
         p paramsUL
+        e error
     )
-    p.kp, _ = bbsignatures.Keygen()
+    p.kp, e = bbsignatures.Keygen()
+    if e != nil {
+        return p, e
+    }
 
     p.signatures = make(map[string]*bn256.G2)
     for i = 0; i < u; i++ {
-        sig_i, _ := bbsignatures.Sign(new(big.Int).SetInt64(i), p.kp.Privk)
+        sig_i, e := bbsignatures.Sign(new(big.Int).SetInt64(i), p.kp.Privk)
+        if e != nil {
+            return p, e
+        }
         p.signatures[strconv.FormatInt(i, 10)] = sig_i
     }
     // Issue #12: p.H must be computed using MapToPoint method.
-- 
2.43.0


From 48e855a28d247a95752db6422355a77d0850a5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:50 +0000
Subject: [PATCH 20/31] fix: ccs08 proofs must not contain the nonces of the
 prover

With s, t and m in the proof, the secret x = (s - zsig)/c and the blinding factor
could be computed by anyone.
---
 ccs08/ccs08.go | 59 +++++++++++++++++++++++++-------------------------
 1 file changed, 30 insertions(+), 29 deletions(-)

diff --git a/ccs08/ccs08.go b/ccs08/ccs08.go
index 0bf6686..0313ed8 100644
--- a/ccs08/ccs08.go
+++ b/ccs08/ccs08.go
@@ -79,8 +79,8 @@ type proofSet struct {
     V              *bn256.G2
     D, C           *bn256.G2
     a              *bn256.GT
-    s, t, zsig, zv *big.Int
-    c, m, zr       *big.Int
+    zsig, zv *big.Int
+    c, zr    *big.Int
 }
 
 /*
@@ -90,8 +90,8 @@ type proofUL struct {
     V              []*bn256.G2
     D, C           *bn256.G2
     a              []*bn256.GT
-    s, t, zsig, zv []*big.Int
-    c, m, zr       *big.Int
+    zsig, zv []*big.Int
+    c, zr    *big.Int
 }
 
 /*
@@ -159,14 +159,14 @@ ProveSet method is used to produce the ZK Set Membership proof.
 */
 func ProveSet(x int64, r *big.Int, p paramsSet) (proofSet, error) {
     var (
-        v         *big.Int
-        proof_out proofSet
+        v, s, t, m *big.Int
+        proof_out  proofSet
     )
 
     // Initialize variables
     proof_out.D = new(bn256.G2)
     proof_out.D.SetInfinity()
-    proof_out.m, _ = rand.Int(rand.Reader, bn256.Order)
+    m, _ = rand.Int(rand.Reader, bn256.Order)
 
     v, _ = rand.Int(rand.Reader, bn256.Order)
     A, ok := p.signatures[x]
@@ -176,17 +176,17 @@ func ProveSet(x int64, r *big.Int, p paramsSet) (proofSet, error) {
     }
 
     // D = g^s.H^m
-    D := new(bn256.G2).ScalarMult(p.H, proof_out.m)
-    proof_out.s, _ = rand.Int(rand.Reader, bn256.Order)
-    aux := new(bn256.G2).ScalarBaseMult(proof_out.s)
+    D := new(bn256.G2).ScalarMult(p.H, m)
+    s, _ = rand.Int(rand.Reader, bn256.Order)
+    aux := new(bn256.G2).ScalarBaseMult(s)
     D.Add(D, aux)
 
     proof_out.V = new(bn256.G2).ScalarMult(A, v)
-    proof_out.t, _ = rand.Int(rand.Reader, bn256.Order)
+    t, _ = rand.Int(rand.Reader, bn256.Order)
     proof_out.a = bn256.Pair(G1, proof_out.V)
-    proof_out.a.ScalarMult(proof_out.a, proof_out.s)
+    proof_out.a.ScalarMult(proof_out.a, s)
     proof_out.a.Invert(proof_out.a)
-    proof_out.a.Add(proof_out.a, new(bn256.GT).ScalarMult(E, proof_out.t))
+    proof_out.a.Add(proof_out.a, new(bn256.GT).ScalarMult(E, t))
     proof_out.D.Add(proof_out.D, D)
 
     // Consider passing C as input,
@@ -196,11 +196,11 @@ func ProveSet(x int64, r *big.Int, p paramsSet) (proofSet, error) {
     proof_out.c, _ = HashSet(proof_out.a, proof_out.D)
     proof_out.c = bn.Mod(proof_out.c, bn256.Order)
 
-    proof_out.zr = bn.Sub(proof_out.m, bn.Multiply(r, proof_out.c))
+    proof_out.zr = bn.Sub(m, bn.Multiply(r, proof_out.c))
     proof_out.zr = bn.Mod(proof_out.zr, bn256.Order)
-    proof_out.zsig = bn.Sub(proof_out.s, bn.Multiply(new(big.Int).SetInt64(x), proof_out.c))
+    proof_out.zsig = bn.Sub(s, bn.Multiply(new(big.Int).SetInt64(x), proof_out.c))
     proof_out.zsig = bn.Mod(proof_out.zsig, bn256.Order)
-    proof_out.zv = bn.Sub(proof_out.t, bn.Multiply(v, proof_out.c))
+    proof_out.zv = bn.Sub(t, bn.Multiply(v, proof_out.c))
     proof_out.zv = bn.Mod(proof_out.zv, bn256.Order)
     return proof_out, nil
 }
@@ -211,7 +211,8 @@ ProveUL method is used to produce the ZKRP proof that secret x belongs to the in
 func ProveUL(x, r *big.Int, p paramsUL) (proofUL, error) {
     var (
         i         int64
-        v         []*big.Int
+        v, s, t   []*big.Int
+        m         *big.Int
         proof_out proofUL
     )
     decx, _ := Decompose(x, p.u, p.l)
@@ -220,30 +221,30 @@ func ProveUL(x, r *big.Int, p paramsUL) (proofUL, error) {
     v = make([]*big.Int, p.l)
     proof_out.V = make([]*bn256.G2, p.l)
     proof_out.a = make([]*bn256.GT, p.l)
-    proof_out.s = make([]*big.Int, p.l)
-    proof_out.t = make([]*big.Int, p.l)
+    s = make([]*big.Int, p.l)
+    t = make([]*big.Int, p.l)
     proof_out.zsig = make([]*big.Int, p.l)
     proof_out.zv = make([]*big.Int, p.l)
     proof_out.D = new(bn256.G2)
     proof_out.D.SetInfinity()
-    proof_out.m, _ = rand.Int(rand.Reader, bn256.Order)
+    m, _ = rand.Int(rand.Reader, bn256.Order)
 
     // D = H^m
-    D := new(bn256.G2).ScalarMult(p.H, proof_out.m)
+    D := new(bn256.G2).ScalarMult(p.H, m)
     for i = 0; i < p.l; i++ {
         v[i], _ = rand.Int(rand.Reader, bn256.Order)
         A, ok := p.signatures[strconv.FormatInt(decx[i], 10)]
         if ok {
             proof_out.V[i] = new(bn256.G2).ScalarMult(A, v[i])
-            proof_out.s[i], _ = rand.Int(rand.Reader, bn256.Order)
-            proof_out.t[i], _ = rand.Int(rand.Reader, bn256.Order)
+            s[i], _ = rand.Int(rand.Reader, bn256.Order)
+            t[i], _ = rand.Int(rand.Reader, bn256.Order)
             proof_out.a[i] = bn256.Pair(G1, proof_out.V[i])
-            proof_out.a[i].ScalarMult(proof_out.a[i], proof_out.s[i])
+            proof_out.a[i].ScalarMult(proof_out.a[i], s[i])
             proof_out.a[i].Invert(proof_out.a[i])
-            proof_out.a[i].Add(proof_out.a[i], new(bn256.GT).ScalarMult(E, proof_out.t[i]))
+            proof_out.a[i].Add(proof_out.a[i], new(bn256.GT).ScalarMult(E, t[i]))
 
             ui := new(big.Int).Exp(new(big.Int).SetInt64(p.u), new(big.Int).SetInt64(i), nil)
-            muisi := new(big.Int).Mul(proof_out.s[i], ui)
+            muisi := new(big.Int).Mul(s[i], ui)
             muisi = bn.Mod(muisi, bn256.Order)
             aux := new(bn256.G2).ScalarBaseMult(muisi)
             D.Add(D, aux)
@@ -260,12 +261,12 @@ func ProveUL(x, r *big.Int, p paramsUL) (proofUL, error) {
     proof_out.c, _ = Hash(proof_out.a, proof_out.D)
     proof_out.c = bn.Mod(proof_out.c, bn256.Order)
 
-    proof_out.zr = bn.Sub(proof_out.m, bn.Multiply(r, proof_out.c))
+    proof_out.zr = bn.Sub(m, bn.Multiply(r, proof_out.c))
     proof_out.zr = bn.Mod(proof_out.zr, bn256.Order)
     for i = 0; i < p.l; i++ {
-        proof_out.zsig[i] = bn.Sub(proof_out.s[i], bn.Multiply(new(big.Int).SetInt64(decx[i]), proof_out.c))
+        proof_out.zsig[i] = bn.Sub(s[i], bn.Multiply(new(big.Int).SetInt64(decx[i]), proof_out.c))
         proof_out.zsig[i] = bn.Mod(proof_out.zsig[i], bn256.Order)
-        proof_out.zv[i] = bn.Sub(proof_out.t[i], bn.Multiply(v[i], proof_out.c))
+        proof_out.zv[i] = bn.Sub(t[i], bn.Multiply(v[i], proof_out.c))
         proof_out.zv[i] = bn.Mod(proof_out.zv[i], bn256.Order)
     }
     return proof_out, nil
-- 
2.43.0


From a1f7a2361ef301423ba7fc838d43d82859cd32c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:53 +0000
Subject: [PATCH 21/31] fix: ccs08 public parameters must not contain the
 signing key

---
 ccs08/ccs08.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ccs08/ccs08.go b/ccs08/ccs08.go
index 0313ed8..e209425 100644
--- a/ccs08/ccs08.go
+++ b/ccs08/ccs08.go
@@ -116,6 +116,8 @@ func SetupSet(s []int64) (paramsSet, error) {
         }
         p.signatures[s[i]] = sig_i
     }
+    // The signing key must not be given to the prover, who could sign any element.
+    p.kp.Privk = nil
     // Issue #12: p.H must be computed using MapToPoint method.
     h := intconversion.BigFromBase10("18560948149108576432482904553159745978835170526553990798435819795989606410925")
     p.H = new(bn256.G2).ScalarBaseMult(h)
@@ -146,6 +148,8 @@ func SetupUL(u, l int64) (paramsUL, error) {
         }
         p.signatures[strconv.FormatInt(i, 10)] = sig_i
     }
+    // The signing key must not be given to the prover, who could sign any element.
+    p.kp.Privk = nil
     // Issue #12: p.H must be computed using MapToPoint method.
     h := intconversion.BigFromBase10("18560948149108576432482904553159745978835170526553990798435819795989606410925")
     p.H = new(bn256.G2).ScalarBaseMult(h)
-- 
2.43.0


From bcfc7d87ff6d75f5db9a0e258fd9bf6cfa6efffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:57 +0000
Subject: [PATCH 22/31] fix: ccs08 verification must recompute the challenge,
 which must bind C and V

The verifier used whatever challenge was in the proof, so that anyone could
simulate a proof for any commitment; and a challenge that does not depend on C
and V can be known before they are chosen.
---
 ccs08/ccs08.go | 20 ++++++++++++++++++--
 util/util.go   | 18 ++++++++++++------
 2 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/ccs08/ccs08.go b/ccs08/ccs08.go
index e209425..ca5817a 100644
--- a/ccs08/ccs08.go
+++ b/ccs08/ccs08.go
@@ -197,7 +197,7 @@ func ProveSet(x int64, r *big.Int, p paramsSet) (proofSet, error) {
     // so that it is possible to delegate the commitment computation to an external party.
     proof_out.C, _ = Commit(new(big.Int).SetInt64(x), r, p.H)
     // Fiat-Shamir heuristic
-    proof_out.c, _ = HashSet(proof_out.a, proof_out.D)
+    proof_out.c, _ = HashSet(proof_out.a, proof_out.D, proof_out.C, proof_out.V)
     proof_out.c = bn.Mod(proof_out.c, bn256.Order)
 
     proof_out.zr = bn.Sub(m, bn.Multiply(r, proof_out.c))
@@ -262,7 +262,7 @@ func ProveUL(x, r *big.Int, p paramsUL) (proofUL, error) {
     // so that it is possible to delegate the commitment computation to an external party.
     proof_out.C, _ = Commit(x, r, p.H)
     // Fiat-Shamir heuristic
-    proof_out.c, _ = Hash(proof_out.a, proof_out.D)
+    proof_out.c, _ = Hash(proof_out.a, append([]*bn256.G2{proof_out.D, proof_out.C}, proof_out.V...)...)
     proof_out.c = bn.Mod(proof_out.c, bn256.Order)
 
     proof_out.zr = bn.Sub(m, bn.Multiply(r, proof_out.c))
@@ -285,6 +285,11 @@ func VerifySet(proof_out *proofSet, p *paramsSet) (bool, error) {
         r1, r2 bool
         p1, p2 *bn256.GT
     )
+    // c must be the challenge for this commitment and these first messages
+    c, _ := HashSet(proof_out.a, proof_out.D, proof_out.C, proof_out.V)
+    if bn.Mod(c, bn256.Order).Cmp(proof_out.c) != 0 {
+        return false, nil
+    }
     // D == C^c.h^ zr.g^zsig ?
     D = new(bn256.G2).ScalarMult(proof_out.C, proof_out.c)
     D.Add(D, new(bn256.G2).ScalarMult(p.H, proof_out.zr))
@@ -321,6 +326,17 @@ func VerifyUL(proof_out *proofUL, p *paramsUL) (bool, error) {
         r1, r2 bool
         p1, p2 *bn256.GT
     )
+    // there must be exactly one element for each digit
+    for _, n := range []int{len(proof_out.V), len(proof_out.a), len(proof_out.zsig), len(proof_out.zv)} {
+        if int64(n) != p.l {
+            return false, errors.New("number of digits does not match the parameters")
+        }
+    }
+    // c must be the challenge for this commitment and these first messages
+    c, _ := Hash(proof_out.a, append([]*bn256.G2{proof_out.D, proof_out.C}, proof_out.V...)...)
+    if bn.Mod(c, bn256.Order).Cmp(proof_out.c) != 0 {
+        return false, nil
+    }
     // D == C^c.h^ zr.g^zsig ?
     D = new(bn256.G2).ScalarMult(proof_out.C, proof_out.c)
     D.Add(D, new(bn256.G2).ScalarMult(p.H, proof_out.zr))
diff --git a/util/util.go b/util/util.go
index 3f7a682..9a309af 100644
--- a/util/util.go
+++ b/util/util.go
@@ -75,26 +75,32 @@ func CommitG1(x, r *big.Int, h *p256.P256) (*p256.P256, error) {
 }
 
 /*
-HashSet is responsible for the computing a Zp element given elements from GT and G2.
+HashSet is responsible for the computing a Zp element given elements from GT and G2,
+which must contain the statement and all messages sent before the challenge.
 */
-func HashSet(a *bn256.GT, D *bn256.G2) (*big.Int, error) {
+func HashSet(a *bn256.GT, D ...*bn256.G2) (*big.Int, error) {
     digest := sha256.New()
     digest.Write([]byte(a.String()))
-    digest.Write([]byte(D.String()))
+    for i := range D {
+        digest.Write([]byte(D[i].String()))
+    }
     output := digest.Sum(nil)
     tmp := output[0:]
     return byteconversion.FromByteArray(tmp)
 }
 
 /*
-Hash is responsible for the computing a Zp element given elements from GT and G2.
+Hash is responsible for the computing a Zp element given elements from GT and G2,
+which must contain the statement and all messages sent before the challenge.
 */
-func Hash(a []*bn256.GT, D *bn256.G2) (*big.Int, error) {
+func Hash(a []*bn256.GT, D ...*bn256.G2) (*big.Int, error) {
     digest := sha256.New()
     for i := range a {
         digest.Write([]byte(a[i].String()))
     }
-    digest.Write([]byte(D.String()))
+    for i := range D {
+        digest.Write([]byte(D[i].String()))
+    }
     output := digest.Sum(nil)
     tmp := output[0:]
     return byteconversion.FromByteArray(tmp)
-- 
2.43.0


From f22965b33e693c390c07ee2a19fb53f2ad9e5a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:12 +0000
Subject: [PATCH 23/31] fix: both halves of a ccs08 range proof must be about
 the same secret

---
 ccs08/ccs08.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ccs08/ccs08.go b/ccs08/ccs08.go
index ca5817a..9177bbe 100644
--- a/ccs08/ccs08.go
+++ b/ccs08/ccs08.go
@@ -458,5 +458,13 @@ Verify is responsible for validating the proof.
 func (zkrp *ccs08) Verify() (bool, error) {
     first, _ := VerifyUL(&zkrp.proof_out.p1, zkrp.p.p)
     second, _ := VerifyUL(&zkrp.proof_out.p2, zkrp.p.p)
-    return first && second, nil
+    if !first || !second {
+        return false, nil
+    }
+    // p1 commits to x - b + ul and p2 commits to x - a, for the same x and r
+    ul := new(big.Int).Exp(new(big.Int).SetInt64(zkrp.p.p.u), new(big.Int).SetInt64(zkrp.p.p.l), nil)
+    shift := new(big.Int).Sub(new(big.Int).SetInt64(zkrp.p.b), new(big.Int).SetInt64(zkrp.p.a))
+    shift.Sub(shift, ul)
+    C := new(bn256.G2).Add(zkrp.proof_out.p1.C, new(bn256.G2).ScalarBaseMult(shift))
+    return bytes.Equal(C.Marshal(), zkrp.proof_out.p2.C.Marshal()), nil
 }
-- 
2.43.0


From ea3d7bb1b40bbec88be1be76505e0d99f053f4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:16 +0000
Subject: [PATCH 24/31] fix: ccs08 ranges with a negative lower bound must use
 enough digits

---
 ccs08/ccs08.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ccs08/ccs08.go b/ccs08/ccs08.go
index 9177bbe..c90ac17 100644
--- a/ccs08/ccs08.go
+++ b/ccs08/ccs08.go
@@ -412,8 +412,17 @@ func (zkrp *ccs08) Setup(a, b int64) error {
         // u = b / int64(logb)
         u = 57
         if u != 0 {
+            // both x - a and x - b + u^l must be less than u^l
+            max := b
+            if a < 0 {
+                max = b - a
+                if max < b {
+                    zkrp.p = nil
+                    return errors.New("range is too large")
+                }
+            }
             l = 0
-            for i := b; i > 0; i = i / u {
+            for i := max; i > 0; i = i / u {
                 l = l + 1
             }
             params_out, e := SetupUL(u, l)
-- 
2.43.0


From ff3062ac2de73de90810a30c77704cff31be9fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:32 +0000
Subject: [PATCH 25/31] fix: ToByteArray must be minimal for -2^(8n-1)

---
 util/byteconversion/conversion.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/util/byteconversion/conversion.go b/util/byteconversion/conversion.go
index eaa5c59..75a108a 100644
--- a/util/byteconversion/conversion.go
+++ b/util/byteconversion/conversion.go
@@ -103,7 +103,12 @@ func ToByteArray(in *big.Int) []byte {
 
         convertedInt := new(big.Int).SetBytes(convertedBytes)
         convertedInt.Add(convertedInt, big.NewInt(1))
-        return convertedInt.Bytes()
+        convertedBytes = convertedInt.Bytes()
+        if len(convertedBytes) > 1 && convertedBytes[0] == 255 && (convertedBytes[1]&128) != 0 {
+            // for -2^(8n-1) the additional byte is not needed
+            convertedBytes = convertedBytes[1:]
+        }
+        return convertedBytes
     }
 }
 
-- 
2.43.0


From b09897d7a8ff2b9faab52cb03539f9d52e11930f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:36 +0000
Subject: [PATCH 26/31] fix: ConvertToBigInt must reject a minus sign without
 digits

---
 util/byteconversion/parse.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/byteconversion/parse.go b/util/byteconversion/parse.go
index 0645c12..4daaadf 100644
--- a/util/byteconversion/parse.go
+++ b/util/byteconversion/parse.go
@@ -63,6 +63,9 @@ func ConvertToBigInt(in []byte) (*big.Int, error) {
     }
 
     s := string(in)
+    if s == "-" {
+        return nil, errInvalidBigInteger
+    }
     i := new(big.Int)
     i.SetString(s, 10)
     return i, nil
-- 
2.43.0


From 1f1fbe7e690ed3bf428c871d8b467edf33c39112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:03 +0000
Subject: [PATCH 27/31] fix: bulletproof Verify must use complete point
 additions

p256 Add returns infinity if its operands are equal, so that condition (67) also
accepted the inverse of the expected commitment.
---
 bulletproofs/bp.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bulletproofs/bp.go b/bulletproofs/bp.go
index afefce5..54ca6fa 100644
--- a/bulletproofs/bp.go
+++ b/bulletproofs/bp.go
@@ -297,7 +297,7 @@ func (proof *BulletProof) Verify() (bool, error) {
     // S^x
     Sx := new(p256.P256).ScalarMult(proof.S, x)
     // A.S^x
-    ASx := new(p256.P256).Add(proof.A, Sx)
+    ASx := new(p256.P256).Multiply(proof.A, Sx)
 
     // g^-z
     mz := bn.Sub(ORDER, z)
@@ -317,12 +317,12 @@ func (proof *BulletProof) Verify() (bool, error) {
     zynz22n, _ := VectorAdd(zyn, z22n)
 
     lP := new(p256.P256)
-    lP.Add(ASx, gpmz)
+    lP.Multiply(ASx, gpmz)
 
     // h'^(z.y^n + z^2.2^n)
     hprimeexp, _ := VectorExp(hprime, zynz22n)
 
-    lP.Add(lP, hprimeexp)
+    lP.Multiply(lP, hprimeexp)
 
     // Compute P - rhs  #################### Condition (67) ######################
 
@@ -332,7 +332,7 @@ func (proof *BulletProof) Verify() (bool, error) {
 
     // Subtract lhs and rhs and compare with poitn at infinity
     lP = lP.Neg(lP)
-    rP.Add(rP, lP)
+    rP.Multiply(rP, lP)
     c67 := rP.IsZero()
 
     // Verify Inner Product Proof ################################################
-- 
2.43.0


From 485ac3e6d9313241fc1912196be50ca5bd95af6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:07 +0000
Subject: [PATCH 28/31] fix: CommitG1 is wrong if g^x equals h^r

---
 util/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/util.go b/util/util.go
index 9a309af..69042e1 100644
--- a/util/util.go
+++ b/util/util.go
@@ -70,7 +70,7 @@ message x, and randomness r, it outputs g^x.h^r.
 func CommitG1(x, r *big.Int, h *p256.P256) (*p256.P256, error) {
     var C = new(p256.P256).ScalarBaseMult(x)
     Hr := new(p256.P256).ScalarMult(h, r)
-    C.Add(C, Hr)
+    C.Multiply(C, Hr)
     return C, nil
 }
 
-- 
2.43.0


From 63eb35412f2a91fd1797688974bb4e2d61fb4c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:11 +0000
Subject: [PATCH 29/31] fix: ccs08 verification must reject the identity as a
 blinded signature

---
 ccs08/ccs08.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ccs08/ccs08.go b/ccs08/ccs08.go
index c90ac17..8a1ca2c 100644
--- a/ccs08/ccs08.go
+++ b/ccs08/ccs08.go
@@ -285,6 +285,10 @@ func VerifySet(proof_out *proofSet, p *paramsSet) (bool, error) {
         r1, r2 bool
         p1, p2 *bn256.GT
     )
+    // V = A^0 would satisfy the equations below without any signature A
+    if proof_out.V.IsZero() {
+        return false, nil
+    }
     // c must be the challenge for this commitment and these first messages
     c, _ := HashSet(proof_out.a, proof_out.D, proof_out.C, proof_out.V)
     if bn.Mod(c, bn256.Order).Cmp(proof_out.c) != 0 {
@@ -332,6 +336,12 @@ func VerifyUL(proof_out *proofUL, p *paramsUL) (bool, error) {
             return false, errors.New("number of digits does not match the parameters")
         }
     }
+    // V[i] = A^0 would satisfy the equations below without any signature A
+    for i = 0; i < p.l; i++ {
+        if proof_out.V[i].IsZero() {
+            return false, nil
+        }
+    }
     // c must be the challenge for this commitment and these first messages
     c, _ := Hash(proof_out.a, append([]*bn256.G2{proof_out.D, proof_out.C}, proof_out.V...)...)
     if bn.Mod(c, bn256.Order).Cmp(proof_out.c) != 0 {
-- 
2.43.0


From 96b7f5ffb2d8678dab2b2a179246a1669cac6766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:42 +0000
Subject: [PATCH 30/31] fix: gfP12.MulScalar ignored its operand and Conjugate
 returned the operand

---
 crypto/bn256/gfp12.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crypto/bn256/gfp12.go b/crypto/bn256/gfp12.go
index 902a04a..7a621f3 100644
--- a/crypto/bn256/gfp12.go
+++ b/crypto/bn256/gfp12.go
@@ -82,7 +82,7 @@ func (e *gfP12) IsOne() bool {
 func (e *gfP12) Conjugate(a *gfP12) *gfP12 {
     e.x.Negative(a.x)
     e.y.Set(a.y)
-    return a
+    return e
 }
 
 func (e *gfP12) Negative(a *gfP12) *gfP12 {
@@ -140,8 +140,8 @@ func (e *gfP12) Mul(a, b *gfP12, pool *bnPool) *gfP12 {
 }
 
 func (e *gfP12) MulScalar(a *gfP12, b *gfP6, pool *bnPool) *gfP12 {
-    e.x.Mul(e.x, b, pool)
-    e.y.Mul(e.y, b, pool)
+    e.x.Mul(a.x, b, pool)
+    e.y.Mul(a.y, b, pool)
     return e
 }
 
-- 
2.43.0


From b9d2eb3142c147a4be5985a3900b890244c83073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:45 +0000
Subject: [PATCH 31/31] fix: nobody may know the discrete logarithm of the
 commitment base H of ccs08

---
 ccs08/ccs08.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/ccs08/ccs08.go b/ccs08/ccs08.go
index 8a1ca2c..55580f6 100644
--- a/ccs08/ccs08.go
+++ b/ccs08/ccs08.go
@@ -36,7 +36,6 @@ import (
     "github.com/ing-bank/zkrp/crypto/bn256"
     . "github.com/ing-bank/zkrp/util"
     "github.com/ing-bank/zkrp/util/bn"
-    "github.com/ing-bank/zkrp/util/intconversion"
 )
 
 /*
@@ -118,9 +117,11 @@ func SetupSet(s []int64) (paramsSet, error) {
     }
     // The signing key must not be given to the prover, who could sign any element.
     p.kp.Privk = nil
-    // Issue #12: p.H must be computed using MapToPoint method.
-    h := intconversion.BigFromBase10("18560948149108576432482904553159745978835170526553990798435819795989606410925")
-    p.H = new(bn256.G2).ScalarBaseMult(h)
+    // Nobody may know log_g(p.H), otherwise the commitments g^x.H^r are not binding.
+    _, p.H, e = bn256.RandomG2(rand.Reader)
+    if e != nil {
+        return p, e
+    }
     return p, nil
 }
 
@@ -150,9 +151,11 @@ func SetupUL(u, l int64) (paramsUL, error) {
     }
     // The signing key must not be given to the prover, who could sign any element.
     p.kp.Privk = nil
-    // Issue #12: p.H must be computed using MapToPoint method.
-    h := intconversion.BigFromBase10("18560948149108576432482904553159745978835170526553990798435819795989606410925")
-    p.H = new(bn256.G2).ScalarBaseMult(h)
+    // Nobody may know log_g(p.H), otherwise the commitments g^x.H^r are not binding.
+    _, p.H, e = bn256.RandomG2(rand.Reader)
+    if e != nil {
+        return p, e
+    }
     p.u = u
     p.l = l
     return p, nil
-- 
2.43.0

