From 82e2d21609ce7a579178ffda521b2fec4f3f81f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:32 +0000
Subject: [PATCH 01/16] fix: Decryptor no longer stays truncated to the lowest
 level it has decrypted

The plaintext pool was re-sliced to the ciphertext's level and never
extended again, so later decryptions of higher-level ciphertexts lost the
higher moduli and wrapped around for values above q_0/scale.
---
 mkckks/decryptor.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mkckks/decryptor.go b/mkckks/decryptor.go
index d567ba9..2d42207 100644
--- a/mkckks/decryptor.go
+++ b/mkckks/decryptor.go
@@ -34,6 +34,8 @@ func (dec *Decryptor) PartialDecrypt(ct *Ciphertext, sk *mkrlwe.SecretKey) {
 func (dec *Decryptor) Decrypt(ciphertext *Ciphertext, skSet *mkrlwe.SecretKeySet) (msg *Message) {
 	ctTmp := ciphertext.CopyNew()
 
+	// undo the truncation to the level of a previously decrypted ciphertext
+	dec.ptxtPool.Value.Coeffs = dec.ptxtPool.Value.Coeffs[:dec.params.MaxLevel()+1]
 	dec.Decryptor.Decrypt(ctTmp.Ciphertext, skSet, dec.ptxtPool.Plaintext)
 	dec.ptxtPool.Scale = ctTmp.Scale
 	msg = new(Message)
-- 
2.43.0


From 544818339b3b010162d7d9c5d6c593b45136a5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:32 +0000
Subject: [PATCH 02/16] fix: Rescale stops at level 0 instead of dividing by
 the last modulus

A scale too large for the remaining chain made the loop divide by q_0 and
index the modulus chain at -1.
---
 mkckks/evaluator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index 3bd8a1f..5ad2eee 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -377,7 +377,7 @@ func (eval *Evaluator) Rescale(ctIn *Ciphertext, minScale float64, ctOut *Cipher
 	var nbRescales int
 	// Divides the scale by each moduli of the modulus chain as long as the scale isn't smaller than minScale/2
 	// or until the output Level() would be zero
-	for ctOut.Scale/float64(ringQ.Modulus[ctIn.Level()-nbRescales]) >= minScale/2 && ctIn.Level()-nbRescales >= 0 {
+	for ctIn.Level()-nbRescales > 0 && ctOut.Scale/float64(ringQ.Modulus[ctIn.Level()-nbRescales]) >= minScale/2 {
 		ctOut.Scale /= (float64(ringQ.Modulus[ctIn.Level()-nbRescales]))
 		nbRescales++
 	}
-- 
2.43.0


From c5fabc3b4d89d118d5a4eece1c726dd42ad33da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:32 +0000
Subject: [PATCH 03/16] fix: Rescale into another ciphertext keeps its input
 and copies when no rescale is due

The not-needed branch assigned a copy to the local parameter, so RescaleNew
returned an all-zero ciphertext; the other branch let the ring division
overwrite the input's top modulus.
---
 mkckks/evaluator.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index 5ad2eee..ae4a928 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -385,12 +385,17 @@ func (eval *Evaluator) Rescale(ctIn *Ciphertext, minScale float64, ctOut *Cipher
 	if nbRescales > 0 {
 		level := ctIn.Level()
 		for i := range ctOut.Value {
-			ringQ.DivRoundByLastModulusManyLvl(level, nbRescales, ctIn.Value[i], eval.polyQPool, ctOut.Value[i])
+			pIn := ctIn.Value[i]
+			if ctIn != ctOut {
+				// the division overwrites its input
+				pIn = pIn.CopyNew()
+			}
+			ringQ.DivRoundByLastModulusManyLvl(level, nbRescales, pIn, eval.polyQPool, ctOut.Value[i])
 			ctOut.Value[i].Coeffs = ctOut.Value[i].Coeffs[:level+1-nbRescales]
 		}
 	} else {
 		if ctIn != ctOut {
-			ctOut = ctIn.CopyNew()
+			ctOut.Ciphertext.Copy(ctIn.Ciphertext)
 		}
 	}
 
-- 
2.43.0


From fedecdad76a6dc40c6a146bef08e61506fc2cee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:06 +0000
Subject: [PATCH 04/16] fix: Conjugate works below the maximum level

The permutation ran over every modulus of the ring and indexed past the
components of a ciphertext whose level had dropped.
---
 mkrlwe/keyswitch.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/mkrlwe/keyswitch.go b/mkrlwe/keyswitch.go
index 59b2a35..88b4f8b 100644
--- a/mkrlwe/keyswitch.go
+++ b/mkrlwe/keyswitch.go
@@ -312,8 +312,17 @@ func (ks *KeySwitcher) Conjugate(ctIn *Ciphertext, ckSet *ConjugationKeySet, ctO
 	}
 
 	// permute ctIn and put it to ctOut
+	mask := uint64(ringQ.N - 1)
+	logN := uint64(bits.Len64(mask))
 	for id := range ctIn.Value {
-		ringQ.Permute(ctIn.Value[id], galEl, ctOut.Value[id])
+		for i := uint64(0); i < uint64(ringQ.N); i++ {
+			indexRaw := i * galEl
+			index := indexRaw & mask
+			tmp := (indexRaw >> logN) & 1
+			for j, qi := range ringQ.Modulus[:level+1] {
+				ctOut.Value[id].Coeffs[j][index] = ctIn.Value[id].Coeffs[j][i]*(tmp^1) | (qi-ctIn.Value[id].Coeffs[j][i])*tmp
+			}
+		}
 	}
 
 	// c0 <- c0 + IP(c_i, rk_i)
-- 
2.43.0


From 5de9e68498c55696d4fb340574277d56bc7cf39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:06 +0000
Subject: [PATCH 05/16] fix: MultByConst with an imaginary part

The evaluation-domain constant vector was applied to ciphertexts that are
kept in the coefficient domain, which decrypted to garbage.
---
 mkckks/evaluator.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index ae4a928..92f3794 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -125,6 +125,15 @@ func (eval *Evaluator) MultByConst(ct0 *Ciphertext, constant interface{}, ctOut
 	// [{                  N/2                }{                N/2               }]
 	// Which is equivalent outside of the NTT domain to adding a to the first coefficient of ct0 and b to the N/2-th coefficient of ct0.
 	ringQ := eval.params.RingQ()
+	in := ct0.Value
+	if cImag != 0 {
+		// ciphertexts are kept out of the NTT domain, the vector above applies in it
+		in = make(map[string]*ring.Poly)
+		for u := range ct0.Value {
+			in[u] = ringQ.NewPolyLvl(level)
+			ringQ.NTTLvl(level, ct0.Value[u], in[u])
+		}
+	}
 	var scaledConst, scaledConstReal, scaledConstImag uint64
 	for i := 0; i < level+1; i++ {
 
@@ -150,7 +159,7 @@ func (eval *Evaluator) MultByConst(ct0 *Ciphertext, constant interface{}, ctOut
 		scaledConst = ring.MForm(scaledConst, qi, bredParams)
 
 		for u := range ct0.Value {
-			p0tmp := ct0.Value[u].Coeffs[i]
+			p0tmp := in[u].Coeffs[i]
 			p1tmp := ctOut.Value[u].Coeffs[i]
 
 			for j := 0; j < ringQ.N>>1; j = j + 8 {
@@ -175,7 +184,7 @@ func (eval *Evaluator) MultByConst(ct0 *Ciphertext, constant interface{}, ctOut
 		}
 
 		for u := range ct0.Value {
-			p0tmp := ct0.Value[u].Coeffs[i]
+			p0tmp := in[u].Coeffs[i]
 			p1tmp := ctOut.Value[u].Coeffs[i]
 			for j := ringQ.N >> 1; j < ringQ.N; j = j + 8 {
 
@@ -194,6 +203,12 @@ func (eval *Evaluator) MultByConst(ct0 *Ciphertext, constant interface{}, ctOut
 		}
 	}
 
+	if cImag != 0 {
+		for u := range ct0.Value {
+			ringQ.InvNTTLvl(level, ctOut.Value[u], ctOut.Value[u])
+		}
+	}
+
 	ctOut.Scale = ct0.Scale * scale
 }
 
-- 
2.43.0


From 997c8a2ffaeee4d132b258810519b7b7f587b30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:06 +0000
Subject: [PATCH 06/16] fix: gadget decomposition with an odd number of special
 primes

The tables were built for a digit size rounded up and looked up for the
largest even number of special primes, so any multiplication or rotation
with 5, 7, ... special primes indexed past them.
---
 mkrlwe/basis_extension.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mkrlwe/basis_extension.go b/mkrlwe/basis_extension.go
index 23574d3..c5c38ed 100644
--- a/mkrlwe/basis_extension.go
+++ b/mkrlwe/basis_extension.go
@@ -379,7 +379,11 @@ func NewDecomposer(ringQ, ringP *ring.Ring, gamma int) (decomposer *Decomposer)
 
 		P := ringP.Modulus[:lvlP+2]
 
-		alpha := int(math.Ceil(float64(len(P)) / float64(gamma)))
+		// digit size of Parameters.Alpha()
+		alpha := len(P) / gamma
+		if alpha == 0 {
+			alpha = 1
+		}
 		beta := int(math.Ceil(float64(len(Q)) / float64(alpha)))
 
 		xalpha := make([]int, beta)
@@ -453,7 +457,7 @@ func (decomposer *Decomposer) DecomposeAndSplit(levelQ, levelP, alpha, beta, gam
 		// Otherwise, we apply a fast exact base conversion for the reconstruction
 	} else {
 
-		params := decomposer.modUpParams[gamma*alpha-2][beta][decompLvl]
+		params := decomposer.modUpParams[levelP-1][beta][decompLvl]
 
 		var v [8]uint64
 		var vi [8]float64
-- 
2.43.0


From d1fff4eba5ec015420773f40d15f72ee06766f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:06 +0000
Subject: [PATCH 07/16] fix: ModDownQPtoP divides by the moduli of Q at levelQ

It selected the inverse of the product of Q by the level of P, which is
wrong (or out of range) whenever the two levels differ.
---
 mkrlwe/basis_extension.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mkrlwe/basis_extension.go b/mkrlwe/basis_extension.go
index c5c38ed..3e1e296 100644
--- a/mkrlwe/basis_extension.go
+++ b/mkrlwe/basis_extension.go
@@ -309,7 +309,7 @@ func (basisextender *FastBasisExtender) ModDownQPtoP(levelQ, levelP int, p1Q, p1
 		p1tmp := p1P.Coeffs[i]
 		p2tmp := p2P.Coeffs[i]
 		p3tmp := polypool.Coeffs[i]
-		params := qi - modDownParams[levelP][i]
+		params := qi - modDownParams[levelQ][i]
 		mredParams := ringP.MredParams[i]
 
 		// Then for each coefficient we compute (P^-1) * (p1[i][j] - polypool[i][j]) mod qi
-- 
2.43.0


From 08153b346d79226ce2019b027e569e6ee39edf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:06 +0000
Subject: [PATCH 08/16] fix: GenKeyPairSparse takes the owner's id

It read the id from its own nil result and always panicked.
---
 mkrlwe/keygen.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mkrlwe/keygen.go b/mkrlwe/keygen.go
index b93b422..3e13268 100644
--- a/mkrlwe/keygen.go
+++ b/mkrlwe/keygen.go
@@ -115,8 +115,8 @@ func (keygen *KeyGenerator) GenKeyPair(id string) (sk *SecretKey, pk *PublicKey)
 }
 
 // GenKeyPairSparse generates a new SecretKey with exactly hw non zero coefficients [1/2, 0, 1/2].
-func (keygen *KeyGenerator) GenKeyPairSparse(hw int) (sk *SecretKey, pk *PublicKey) {
-	sk = keygen.GenSecretKeySparse(hw, sk.ID)
+func (keygen *KeyGenerator) GenKeyPairSparse(hw int, id string) (sk *SecretKey, pk *PublicKey) {
+	sk = keygen.GenSecretKeySparse(hw, id)
 	return sk, keygen.GenPublicKey(sk)
 }
 
-- 
2.43.0


From 58871e5db218c70bbb0ebf62b1eef4b4ac4ad4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:06 +0000
Subject: [PATCH 09/16] fix: GenRotationKey normalises a negative index before
 looking up its CRS

Negative indices were rejected, or collided with the CRS reserved for
relinearization and conjugation and then crashed.
---
 mkrlwe/keygen.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mkrlwe/keygen.go b/mkrlwe/keygen.go
index 3e13268..fa0b361 100644
--- a/mkrlwe/keygen.go
+++ b/mkrlwe/keygen.go
@@ -198,17 +198,17 @@ func (keygen *KeyGenerator) GenRotationKey(rotidx int, sk *SecretKey) (rk *Rotat
 	beta := params.Beta(levelQ)
 	ringQP := params.RingQP()
 
+	// adjust rotidx
+	for rotidx < 0 {
+		rotidx += (params.N() / 2)
+	}
+
 	// check CRS for given rot idx exists
 	_, in := params.CRS[rotidx]
 	if !in {
 		panic("Cannot GenRotationKey: CRS for given rot idx is not generated")
 	}
 
-	// adjust rotidx
-	for rotidx < 0 {
-		rotidx += (params.N() / 2)
-	}
-
 	galEl := keygen.params.GaloisElementForColumnRotationBy(rotidx)
 	galEl = keygen.params.InverseGaloisElement(galEl)
 	index := ring.PermuteNTTIndex(galEl, uint64(params.N()))
-- 
2.43.0


From 1bb7095e4ef13e7b5b56824467a2f514095a2b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:36 +0000
Subject: [PATCH 10/16] fix: Encrypt left stale components of the other
 participants in ctOut

Encrypting into an existing ciphertext with more participants wrote only
the components of the encrypting party: what the ciphertext held before
for the others stayed and spoiled the decryption, and their components
kept the old level when the plaintext was at a lower one.
---
 mkrlwe/encryptor.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mkrlwe/encryptor.go b/mkrlwe/encryptor.go
index f96b91f..4a64d21 100644
--- a/mkrlwe/encryptor.go
+++ b/mkrlwe/encryptor.go
@@ -115,6 +115,14 @@ func (encryptor *Encryptor) Encrypt(plaintext *rlwe.Plaintext, pk *PublicKey, ct
 	ctOut.Value["0"].Coeffs = ctOut.Value["0"].Coeffs[:levelQ+1]
 	ctOut.Value[id].Coeffs = ctOut.Value[id].Coeffs[:levelQ+1]
 
+	// the other participants of ctOut do not contribute to the encryption
+	for other := range ctOut.Value {
+		if other != "0" && other != id {
+			ctOut.Value[other].Coeffs = ctOut.Value[other].Coeffs[:levelQ+1]
+			ctOut.Value[other].Zero()
+			ctOut.Value[other].IsNTT = ctOut.Value["0"].IsNTT
+		}
+	}
 }
 
 // NewEncryptor instatiates a new generic RLWE Encryptor. The key argument can
-- 
2.43.0


From 299db11ef489b5f26821a409717d509062fc25f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:13 +0000
Subject: [PATCH 11/16] fix: constants of 2^63 and more were taken for
 fractions

The test for a fractional part went through int64, which overflows. The
constant was then scaled by a modulus although it is an integer, and the
addition of ciphertexts whose scales differ by such a factor, which counts
on an unscaled product, gave a wrong sum.
---
 mkckks/evaluator.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index 92f3794..6a7d124 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -47,8 +47,7 @@ func (eval *Evaluator) getConstAndScale(level int, constant interface{}) (cReal,
 		cImag = imag(constant)
 
 		if cReal != 0 {
-			valueInt := int64(cReal)
-			valueFloat := cReal - float64(valueInt)
+			valueFloat := cReal - math.Trunc(cReal)
 
 			if valueFloat != 0 {
 				scale = float64(eval.params.RingQ().Modulus[level])
@@ -56,8 +55,7 @@ func (eval *Evaluator) getConstAndScale(level int, constant interface{}) (cReal,
 		}
 
 		if cImag != 0 {
-			valueInt := int64(cImag)
-			valueFloat := cImag - float64(valueInt)
+			valueFloat := cImag - math.Trunc(cImag)
 
 			if valueFloat != 0 {
 				scale = float64(eval.params.RingQ().Modulus[level])
@@ -69,8 +67,7 @@ func (eval *Evaluator) getConstAndScale(level int, constant interface{}) (cReal,
 		cImag = float64(0)
 
 		if cReal != 0 {
-			valueInt := int64(cReal)
-			valueFloat := cReal - float64(valueInt)
+			valueFloat := cReal - math.Trunc(cReal)
 
 			if valueFloat != 0 {
 				scale = float64(eval.params.RingQ().Modulus[level])
-- 
2.43.0


From 147df2785af385746a585d22523af8a9e2d377a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:21 +0000
Subject: [PATCH 12/16] fix: basis conversion panicked on chains of 33 or 34
 moduli

rlwe accepts up to rlwe.MaxModuliCount (34) moduli in Q and in P, but the
scratch arrays of the RNS basis conversion held 32.
---
 mkrlwe/basis_extension.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mkrlwe/basis_extension.go b/mkrlwe/basis_extension.go
index 3e1e296..29209bd 100644
--- a/mkrlwe/basis_extension.go
+++ b/mkrlwe/basis_extension.go
@@ -2,6 +2,7 @@ package mkrlwe
 
 import (
 	"github.com/ldsec/lattigo/v2/ring"
+	"github.com/ldsec/lattigo/v2/rlwe"
 	"math"
 	"math/bits"
 	"unsafe"
@@ -337,7 +338,7 @@ func (basisextender *FastBasisExtender) ModDownQPtoP(levelQ, levelP int, p1Q, p1
 func modUpExact(p1, p2 [][]uint64, ringQ, ringP *ring.Ring, params modupParams) {
 
 	var v [8]uint64
-	var y0, y1, y2, y3, y4, y5, y6, y7 [32]uint64
+	var y0, y1, y2, y3, y4, y5, y6, y7 [rlwe.MaxModuliCount]uint64
 
 	Q := ringQ.Modulus
 	P := ringP.Modulus
@@ -461,7 +462,7 @@ func (decomposer *Decomposer) DecomposeAndSplit(levelQ, levelP, alpha, beta, gam
 
 		var v [8]uint64
 		var vi [8]float64
-		var y0, y1, y2, y3, y4, y5, y6, y7 [32]uint64
+		var y0, y1, y2, y3, y4, y5, y6, y7 [rlwe.MaxModuliCount]uint64
 
 		Q := ringQ.Modulus
 		P := ringP.Modulus
@@ -538,7 +539,7 @@ func (decomposer *Decomposer) DecomposeAndSplit(levelQ, levelP, alpha, beta, gam
 	}
 }
 
-func reconstructRNS(index, x int, p [][]uint64, v *[8]uint64, y0, y1, y2, y3, y4, y5, y6, y7 *[32]uint64, Q, QInv, QbMont []uint64) {
+func reconstructRNS(index, x int, p [][]uint64, v *[8]uint64, y0, y1, y2, y3, y4, y5, y6, y7 *[rlwe.MaxModuliCount]uint64, Q, QInv, QbMont []uint64) {
 
 	var vi [8]float64
 	var qi, qiInv, qoverqiinvqi uint64
@@ -583,7 +584,7 @@ func reconstructRNS(index, x int, p [][]uint64, v *[8]uint64, y0, y1, y2, y3, y4
 }
 
 // Caution, returns the values in [0, 2q-1]
-func multSum(res, v *[8]uint64, y0, y1, y2, y3, y4, y5, y6, y7 *[32]uint64, alpha int, pj, qInv uint64, vtimesqmodp, qoverqimodp []uint64) {
+func multSum(res, v *[8]uint64, y0, y1, y2, y3, y4, y5, y6, y7 *[rlwe.MaxModuliCount]uint64, alpha int, pj, qInv uint64, vtimesqmodp, qoverqimodp []uint64) {
 
 	var rlo, rhi [8]uint64
 	var mhi, mlo, c, hhi uint64
-- 
2.43.0


From 2e73a52620eb0136a3dc75206245929687e97369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:58 +0000
Subject: [PATCH 13/16] fix: MulPtxtNew transformed a plaintext that already is
 in the NTT domain

---
 mkckks/evaluator.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index 6a7d124..3de978a 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -484,7 +484,11 @@ func (eval *Evaluator) MulPtxtNew(ct *Ciphertext, pt *ckks.Plaintext) (ctOut *Ci
 
 	level := ct.Level()
 
-	eval.params.RingQ().NTTLvl(level, pt.Value, eval.polyQPool)
+	if pt.Value.IsNTT {
+		ring.CopyValuesLvl(level, pt.Value, eval.polyQPool)
+	} else {
+		eval.params.RingQ().NTTLvl(level, pt.Value, eval.polyQPool)
+	}
 	eval.params.RingQ().MFormLvl(level, eval.polyQPool, eval.polyQPool)
 
 	for id := range ct.Value {
-- 
2.43.0


From 1ed054ac2f67d8cef5c6fb373dc140c02593ac66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:14 +0000
Subject: [PATCH 14/16] fix: Decrypt ignored the domain of the output plaintext

The output domain is documented to match plaintext.Value.IsNTT, but the
result was written in the domain of the ciphertext while the plaintext kept
its own flag.
---
 mkrlwe/decryptor.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mkrlwe/decryptor.go b/mkrlwe/decryptor.go
index 0566c76..29750f0 100644
--- a/mkrlwe/decryptor.go
+++ b/mkrlwe/decryptor.go
@@ -62,5 +62,11 @@ func (decryptor *Decryptor) Decrypt(ciphertext *Ciphertext, skSet *SecretKeySet,
 		panic("Cannot Decrypt: there is a missing secretkey")
 	}
 
-	ringQ.ReduceLvl(level, ctTmp.Value["0"], plaintext.Value)
+	if ctTmp.Value["0"].IsNTT == plaintext.Value.IsNTT {
+		ringQ.ReduceLvl(level, ctTmp.Value["0"], plaintext.Value)
+	} else if plaintext.Value.IsNTT {
+		ringQ.NTTLvl(level, ctTmp.Value["0"], plaintext.Value)
+	} else {
+		ringQ.InvNTTLvl(level, ctTmp.Value["0"], plaintext.Value)
+	}
 }
-- 
2.43.0


From 1bfb2c753abe0cbfbd2252dbb6dca2de16770568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:19 +0000
Subject: [PATCH 15/16] fix: Rescale without a division into a ciphertext of a
 higher level left stale residues

The output kept its level, so its upper residues were those of whatever it
held before and the result decrypted to another value.
---
 mkckks/evaluator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index 3de978a..2950ad2 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -407,6 +407,9 @@ func (eval *Evaluator) Rescale(ctIn *Ciphertext, minScale float64, ctOut *Cipher
 		}
 	} else {
 		if ctIn != ctOut {
+			if ctOut.Level() > ctIn.Level() {
+				eval.DropLevel(ctOut, ctOut.Level()-ctIn.Level())
+			}
 			ctOut.Ciphertext.Copy(ctIn.Ciphertext)
 		}
 	}
-- 
2.43.0


From 1320c227638100b70dd753bbc73df2f449029667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:53 +0000
Subject: [PATCH 16/16] fix: rotation by an index of large magnitude did not
 end

The index was brought into range by repeated addition or subtraction of N/2;
for an index of 2^40 and more the loop did not end in practice.
---
 mkckks/evaluator.go         | 14 ++++----------
 mkrlwe/keygen.go            |  4 ++--
 mkrlwe/keyswitch.go         |  4 ++--
 mkrlwe/keyswitch_hoisted.go |  4 ++--
 4 files changed, 10 insertions(+), 16 deletions(-)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index 2950ad2..e6286be 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -517,11 +517,8 @@ func (eval *Evaluator) RotateNew(ct0 *Ciphertext, rotidx int, rkSet *mkrlwe.Rota
 func (eval *Evaluator) rotate(ct0 *Ciphertext, rotidx int, rkSet *mkrlwe.RotationKeySet, ctOut *Ciphertext) {
 
 	// normalize rotidx
-	for rotidx >= eval.params.N()/2 {
-		rotidx -= eval.params.N() / 2
-	}
-
-	for rotidx < 0 {
+	rotidx %= eval.params.N() / 2
+	if rotidx < 0 {
 		rotidx += eval.params.N() / 2
 	}
 
@@ -617,11 +614,8 @@ func (eval *Evaluator) RotateHoistedNew(ct0 *Ciphertext, rotidx int, ct0Hoisted
 func (eval *Evaluator) rotateHoisted(ct0 *Ciphertext, rotidx int, ct0Hoisted *mkrlwe.HoistedCiphertext, rkSet *mkrlwe.RotationKeySet, ctOut *Ciphertext) {
 
 	// normalize rotidx
-	for rotidx >= eval.params.N()/2 {
-		rotidx -= eval.params.N() / 2
-	}
-
-	for rotidx < 0 {
+	rotidx %= eval.params.N() / 2
+	if rotidx < 0 {
 		rotidx += eval.params.N() / 2
 	}
 
diff --git a/mkrlwe/keygen.go b/mkrlwe/keygen.go
index fa0b361..39cef02 100644
--- a/mkrlwe/keygen.go
+++ b/mkrlwe/keygen.go
@@ -199,8 +199,8 @@ func (keygen *KeyGenerator) GenRotationKey(rotidx int, sk *SecretKey) (rk *Rotat
 	ringQP := params.RingQP()
 
 	// adjust rotidx
-	for rotidx < 0 {
-		rotidx += (params.N() / 2)
+	if rotidx < 0 {
+		rotidx = (params.N()/2 + rotidx%(params.N()/2)) % (params.N() / 2)
 	}
 
 	// check CRS for given rot idx exists
diff --git a/mkrlwe/keyswitch.go b/mkrlwe/keyswitch.go
index 88b4f8b..18b5a06 100644
--- a/mkrlwe/keyswitch.go
+++ b/mkrlwe/keyswitch.go
@@ -244,8 +244,8 @@ func (ks *KeySwitcher) Rotate(ctIn *Ciphertext, rotidx int, rkSet *RotationKeySe
 	}
 
 	// adjust rotidx
-	for rotidx < 0 {
-		rotidx += (params.N() / 2)
+	if rotidx < 0 {
+		rotidx = (params.N()/2 + rotidx%(params.N()/2)) % (params.N() / 2)
 	}
 
 	// c0 <- c0 + IP(c_i, rk_i)
diff --git a/mkrlwe/keyswitch_hoisted.go b/mkrlwe/keyswitch_hoisted.go
index e16a2bf..3ed2d5b 100644
--- a/mkrlwe/keyswitch_hoisted.go
+++ b/mkrlwe/keyswitch_hoisted.go
@@ -193,8 +193,8 @@ func (ks *KeySwitcher) RotateHoisted(ctIn *Ciphertext, rotidx int, ctInHoisted *
 	}
 
 	// adjust rotidx
-	for rotidx < 0 {
-		rotidx += (params.N() / 2)
+	if rotidx < 0 {
+		rotidx = (params.N()/2 + rotidx%(params.N()/2)) % (params.N() / 2)
 	}
 
 	// c0 <- c0 + Ext(c_i, rk_i)
-- 
2.43.0

