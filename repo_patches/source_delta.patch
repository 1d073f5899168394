From b51604182ffb4ecda9b7e8d99284ba58a32447d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:49 +0000
Subject: [PATCH 01/17] fix: conjugate ciphertexts below the maximum level

ring.Permute walks over all moduli of the ring and ran past the rows of a
ciphertext at a lower level.
---
 mkrlwe/keyswitch.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mkrlwe/keyswitch.go b/mkrlwe/keyswitch.go
index 59b2a35..b692317 100644
--- a/mkrlwe/keyswitch.go
+++ b/mkrlwe/keyswitch.go
@@ -311,9 +311,11 @@ func (ks *KeySwitcher) Conjugate(ctIn *Ciphertext, ckSet *ConjugationKeySet, ctO
 		panic("Cannot Conjugate: ctIn and ctOut have different levels")
 	}
 
-	// permute ctIn and put it to ctOut
+	// permute ctIn and put it to ctOut, only for the moduli of the output level
+	ringQLvl := *ringQ
+	ringQLvl.Modulus = ringQ.Modulus[:level+1]
 	for id := range ctIn.Value {
-		ringQ.Permute(ctIn.Value[id], galEl, ctOut.Value[id])
+		ringQLvl.Permute(ctIn.Value[id], galEl, ctOut.Value[id])
 	}
 
 	// c0 <- c0 + IP(c_i, rk_i)
-- 
2.43.0


From c0f852024d64d62a2caab6a34c070fc34c8f97d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:49 +0000
Subject: [PATCH 02/17] fix: keep the rows of the pooled plaintext across CKKS
 decryptions

Decrypting a ciphertext at a low level truncated the pool for good, so that later
ciphertexts were decoded modulo too few primes.
---
 mkckks/decryptor.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mkckks/decryptor.go b/mkckks/decryptor.go
index 9bec0fd..a3f41aa 100644
--- a/mkckks/decryptor.go
+++ b/mkckks/decryptor.go
@@ -34,6 +34,11 @@ func (dec *Decryptor) PartialDecrypt(ct *Ciphertext, sk *mkrlwe.SecretKey) {
 func (dec *Decryptor) Decrypt(ciphertext *Ciphertext, skSet *mkrlwe.SecretKeySet) (msg *Message) {
 	ctTmp := ciphertext.CopyNew()
 
+	// decrypting shortens the plaintext to the level of the ciphertext: give back
+	// to the pool the rows it had
+	coeffs := dec.ptxtPool.Value.Coeffs
+	defer func() { dec.ptxtPool.Value.Coeffs = coeffs }()
+
 	dec.Decryptor.Decrypt(ctTmp.Ciphertext, skSet, dec.ptxtPool.Plaintext)
 	dec.ptxtPool.Scale = ctTmp.Scale
 	msg = new(Message)
-- 
2.43.0


From 348d4c2dded953f44b4aee56392f5a850671f808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:49 +0000
Subject: [PATCH 03/17] fix: stop rescaling at level zero

The loop divided by the last remaining prime as well and then indexed the moduli
with -1.
---
 mkckks/evaluator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index 0fd7c22..b947cc2 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -377,7 +377,7 @@ func (eval *Evaluator) Rescale(ctIn *Ciphertext, minScale float64, ctOut *Cipher
 	var nbRescales int
 	// Divides the scale by each moduli of the modulus chain as long as the scale isn't smaller than minScale/2
 	// or until the output Level() would be zero
-	for ctOut.Scale/float64(ringQ.Modulus[ctIn.Level()-nbRescales]) >= minScale/2 && ctIn.Level()-nbRescales >= 0 {
+	for ctIn.Level()-nbRescales > 0 && ctOut.Scale/float64(ringQ.Modulus[ctIn.Level()-nbRescales]) >= minScale/2 {
 		ctOut.Scale /= (float64(ringQ.Modulus[ctIn.Level()-nbRescales]))
 		nbRescales++
 	}
-- 
2.43.0


From 61cbfd84190d8bcce3ff18cbbc201fada68b1600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:19 +0000
Subject: [PATCH 04/17] fix: rescale into a separate ciphertext

The division modified the top rows of ctIn, and with nothing to divide the result
was assigned to the local variable, so that RescaleNew returned zeros.
---
 mkckks/evaluator.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index b947cc2..01475f4 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -382,16 +382,18 @@ func (eval *Evaluator) Rescale(ctIn *Ciphertext, minScale float64, ctOut *Cipher
 		nbRescales++
 	}
 
-	if nbRescales > 0 {
-		level := ctIn.Level()
-		for i := range ctOut.Value {
-			ringQ.DivRoundByLastModulusManyLvl(level, nbRescales, ctIn.Value[i], eval.polyQPool, ctOut.Value[i])
-			ctOut.Value[i].Coeffs = ctOut.Value[i].Coeffs[:level+1-nbRescales]
-		}
-	} else {
+	level := ctIn.Level()
+	for i := range ctOut.Value {
+		// the division overwrites rows of its input: work on a copy of ctIn
 		if ctIn != ctOut {
-			ctOut = ctIn.CopyNew()
+			ring.CopyValuesLvl(level, ctIn.Value[i], ctOut.Value[i])
 		}
+
+		if nbRescales > 0 {
+			ringQ.DivRoundByLastModulusManyLvl(level, nbRescales, ctOut.Value[i], eval.polyQPool, ctOut.Value[i])
+		}
+
+		ctOut.Value[i].Coeffs = ctOut.Value[i].Coeffs[:level+1-nbRescales]
 	}
 
 	return nil
-- 
2.43.0


From 56c55f2f9cae8699ed7b9d2c610b5a83e8d1acde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:19 +0000
Subject: [PATCH 05/17] fix: refuse to decrypt a BFV ciphertext without every
 secret key

As mkrlwe.Decryptor does; the message came out as garbage before.
---
 mkbfv/decryptor.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mkbfv/decryptor.go b/mkbfv/decryptor.go
index 6624c83..c649912 100644
--- a/mkbfv/decryptor.go
+++ b/mkbfv/decryptor.go
@@ -49,6 +49,10 @@ func (dec *Decryptor) Decrypt(ciphertext *Ciphertext, skSet *mkrlwe.SecretKeySet
 		}
 	}
 
+	if len(ctTmp.Value) > 1 {
+		panic("Cannot Decrypt: there is a missing secretkey")
+	}
+
 	msg = NewMessage(dec.params)
 	dec.ptxtPool.Value = ctTmp.Value["0"]
 	dec.encoder.DecodeInt(dec.ptxtPool, msg.Value)
-- 
2.43.0


From ebfb8d0c70ecd84e8dd0aabe544141ab003ce24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:19 +0000
Subject: [PATCH 06/17] fix: look up the CRS of a rotation key under its
 normalised index

A negative index was looked up before it was normalised: -1 and -2 passed for
the sake of the CRS of other keys and the others failed.
---
 mkrlwe/keygen.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mkrlwe/keygen.go b/mkrlwe/keygen.go
index b93b422..3937b25 100644
--- a/mkrlwe/keygen.go
+++ b/mkrlwe/keygen.go
@@ -198,17 +198,17 @@ func (keygen *KeyGenerator) GenRotationKey(rotidx int, sk *SecretKey) (rk *Rotat
 	beta := params.Beta(levelQ)
 	ringQP := params.RingQP()
 
+	// adjust rotidx
+	for rotidx < 0 {
+		rotidx += (params.N() / 2)
+	}
+
 	// check CRS for given rot idx exists
 	_, in := params.CRS[rotidx]
 	if !in {
 		panic("Cannot GenRotationKey: CRS for given rot idx is not generated")
 	}
 
-	// adjust rotidx
-	for rotidx < 0 {
-		rotidx += (params.N() / 2)
-	}
-
 	galEl := keygen.params.GaloisElementForColumnRotationBy(rotidx)
 	galEl = keygen.params.InverseGaloisElement(galEl)
 	index := ring.PermuteNTTIndex(galEl, uint64(params.N()))
-- 
2.43.0


From 01dbcd61dea3a64067abd09769f00dd4848fb248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:19 +0000
Subject: [PATCH 07/17] fix: refuse to generate a rotation key for index 0

It was masked by the same CRS as the public key and the relinearization key: its
difference to them is P*s plus noise.
---
 mkrlwe/keygen.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mkrlwe/keygen.go b/mkrlwe/keygen.go
index 3937b25..bed006e 100644
--- a/mkrlwe/keygen.go
+++ b/mkrlwe/keygen.go
@@ -203,6 +203,12 @@ func (keygen *KeyGenerator) GenRotationKey(rotidx int, sk *SecretKey) (rk *Rotat
 		rotidx += (params.N() / 2)
 	}
 
+	// CRS[0] masks the public key and the relinearization key already: a key for the
+	// identity under the same mask would give the secret key away
+	if rotidx == 0 {
+		panic("Cannot GenRotationKey: rotation by 0 needs no key")
+	}
+
 	// check CRS for given rot idx exists
 	_, in := params.CRS[rotidx]
 	if !in {
-- 
2.43.0


From 1286182bfa5ff017ae1b9fdf7cf0de29da24cac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:19 +0000
Subject: [PATCH 08/17] fix: keep an existing CRS in AddCRS

It was replaced, which silently broke every key generated under it.
---
 mkrlwe/params.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mkrlwe/params.go b/mkrlwe/params.go
index a4431a2..389ce3a 100644
--- a/mkrlwe/params.go
+++ b/mkrlwe/params.go
@@ -76,6 +76,11 @@ func (params Parameters) Gamma() int {
 
 func (params *Parameters) AddCRS(idx int) {
 
+	// keys generated under an existing CRS stay valid
+	if _, in := params.CRS[idx]; in {
+		return
+	}
+
 	prng, err := utils.NewPRNG()
 	if err != nil {
 		panic(err)
-- 
2.43.0


From dd636b17c4158d1dc66fd3d4327b24c27ad53c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:52 +0000
Subject: [PATCH 09/17] fix: multiply by complex constants outside of the NTT
 domain

Ciphertexts of this package hold coefficients, where the two constants of the NTT
domain mean nothing.
---
 mkckks/evaluator.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index 01475f4..ce7d32d 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -147,6 +147,22 @@ func (eval *Evaluator) MultByConst(ct0 *Ciphertext, constant interface{}, ctOut
 			scaledConst = ring.CRed(scaledConst+scaledConstImag, qi)
 		}
 
+		// Outside of the NTT domain the imaginary unit is X^(N/2), with X^N = -1
+		if cImag != 0 && !ct0.Value["0"].IsNTT {
+			constReal := ring.MForm(scaledConstReal, qi, bredParams)
+			constImag := ring.MForm(scaleUpExact(cImag, scale, qi), qi, bredParams)
+			for u := range ct0.Value {
+				x := ct0.Value[u].Coeffs[i]
+				z := ctOut.Value[u].Coeffs[i]
+				for j, k := 0, ringQ.N>>1; k < ringQ.N; j, k = j+1, k+1 {
+					xj, xk := x[j], x[k]
+					z[j] = ring.CRed(ring.MRed(xj, constReal, qi, mredParams)+qi-ring.MRed(xk, constImag, qi, mredParams), qi)
+					z[k] = ring.CRed(ring.MRed(xk, constReal, qi, mredParams)+ring.MRed(xj, constImag, qi, mredParams), qi)
+				}
+			}
+			continue
+		}
+
 		scaledConst = ring.MForm(scaledConst, qi, bredParams)
 
 		for u := range ct0.Value {
-- 
2.43.0


From d237c9ce02d0e1373ba6ce80591b6a23e423d867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:15 +0000
Subject: [PATCH 10/17] fix: decrypt into the domain of the plaintext

The documentation promises the domain of the plaintext for the result, but the rows kept
the domain of the ciphertext.
---
 mkrlwe/decryptor.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mkrlwe/decryptor.go b/mkrlwe/decryptor.go
index 0566c76..d0ce33c 100644
--- a/mkrlwe/decryptor.go
+++ b/mkrlwe/decryptor.go
@@ -62,5 +62,12 @@ func (decryptor *Decryptor) Decrypt(ciphertext *Ciphertext, skSet *SecretKeySet,
 		panic("Cannot Decrypt: there is a missing secretkey")
 	}
 
-	ringQ.ReduceLvl(level, ctTmp.Value["0"], plaintext.Value)
+	// bring the result to the domain of the plaintext
+	if isNTT := ctTmp.Value["0"].IsNTT; isNTT == plaintext.Value.IsNTT {
+		ringQ.ReduceLvl(level, ctTmp.Value["0"], plaintext.Value)
+	} else if isNTT {
+		ringQ.InvNTTLvl(level, ctTmp.Value["0"], plaintext.Value)
+	} else {
+		ringQ.NTTLvl(level, ctTmp.Value["0"], plaintext.Value)
+	}
 }
-- 
2.43.0


From 8f995ea1bd390aaf507e60d00f5ab6fa8eac1149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:15 +0000
Subject: [PATCH 11/17] fix: decode BFV ciphertexts that are in the NTT domain

---
 mkbfv/decryptor.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mkbfv/decryptor.go b/mkbfv/decryptor.go
index c649912..eecb94e 100644
--- a/mkbfv/decryptor.go
+++ b/mkbfv/decryptor.go
@@ -53,6 +53,12 @@ func (dec *Decryptor) Decrypt(ciphertext *Ciphertext, skSet *mkrlwe.SecretKeySet
 		panic("Cannot Decrypt: there is a missing secretkey")
 	}
 
+	// the encoder reads coefficients
+	if ctTmp.Value["0"].IsNTT {
+		dec.params.RingQ().InvNTT(ctTmp.Value["0"], ctTmp.Value["0"])
+		ctTmp.Value["0"].IsNTT = false
+	}
+
 	msg = NewMessage(dec.params)
 	dec.ptxtPool.Value = ctTmp.Value["0"]
 	dec.encoder.DecodeInt(dec.ptxtPool, msg.Value)
-- 
2.43.0


From 2cc3ad7c4694e0a502bb4245f96be30599f16198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:00 +0000
Subject: [PATCH 12/17] fix: multiply by a constant into a ciphertext of a
 higher level

---
 mkckks/evaluator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index ce7d32d..d6c59e3 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -118,6 +118,10 @@ func (eval *Evaluator) MultByConst(ct0 *Ciphertext, constant interface{}, ctOut
 
 	var level = utils.MinInt(ct0.Level(), ctOut.Level())
 
+	if ctOut.Level() > level {
+		eval.DropLevel(ctOut, ctOut.Level()-level)
+	}
+
 	cReal, cImag, scale := eval.getConstAndScale(level, constant)
 
 	// Component wise multiplication of the following vector with the ciphertext:
-- 
2.43.0


From b1557cf1c925a25a37a00ed3966664682b70d092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:12 +0000
Subject: [PATCH 13/17] fix: GenKeyPairSparse takes the id of the key, it read
 it from a nil key

---
 mkrlwe/keygen.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mkrlwe/keygen.go b/mkrlwe/keygen.go
index bed006e..a06ae43 100644
--- a/mkrlwe/keygen.go
+++ b/mkrlwe/keygen.go
@@ -115,8 +115,8 @@ func (keygen *KeyGenerator) GenKeyPair(id string) (sk *SecretKey, pk *PublicKey)
 }
 
 // GenKeyPairSparse generates a new SecretKey with exactly hw non zero coefficients [1/2, 0, 1/2].
-func (keygen *KeyGenerator) GenKeyPairSparse(hw int) (sk *SecretKey, pk *PublicKey) {
-	sk = keygen.GenSecretKeySparse(hw, sk.ID)
+func (keygen *KeyGenerator) GenKeyPairSparse(hw int, id string) (sk *SecretKey, pk *PublicKey) {
+	sk = keygen.GenSecretKeySparse(hw, id)
 	return sk, keygen.GenPublicKey(sk)
 }
 
-- 
2.43.0


From a143cc69a30772f35032717796973ac29faf3472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:12 +0000
Subject: [PATCH 14/17] fix: the mask of the public key is the CRS polynomial
 itself, not its Montgomery form

The relinearization key holds -sa + e for the same a; with the public key
holding -s(Ra) + e' the combination of both gave e and e', hence s, to anyone.
---
 mkrlwe/keygen.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mkrlwe/keygen.go b/mkrlwe/keygen.go
index a06ae43..28a90ec 100644
--- a/mkrlwe/keygen.go
+++ b/mkrlwe/keygen.go
@@ -104,6 +104,10 @@ func (keygen *KeyGenerator) GenPublicKey(sk *SecretKey) (pk *PublicKey) {
 	pk.Value[1].Q.Copy(keygen.params.CRS[0].Value[0].Q)
 	pk.Value[1].P.Copy(keygen.params.CRS[0].Value[0].P)
 
+	// the relinearization key has the component -sa + e for the same a: with a scaled
+	// differently here (the CRS is in MForm) their difference would give both errors away
+	ringQP.InvMFormLvl(levelQ, levelP, pk.Value[1], pk.Value[1])
+
 	ringQP.MulCoeffsMontgomeryAndSubLvl(levelQ, levelP, sk.Value, pk.Value[1], pk.Value[0])
 	return pk
 }
-- 
2.43.0


From 4883a44d2d1ed48099fa78216355c1f643ee8f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:18 +0000
Subject: [PATCH 15/17] fix: divide by the modulus of the given level in
 ModDownQPtoP

The inverse was taken at the index of the kept basis (levelP), so the
result was wrong unless levelQ equals levelP.
---
 mkrlwe/basis_extension.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mkrlwe/basis_extension.go b/mkrlwe/basis_extension.go
index 23574d3..e6514dd 100644
--- a/mkrlwe/basis_extension.go
+++ b/mkrlwe/basis_extension.go
@@ -309,7 +309,7 @@ func (basisextender *FastBasisExtender) ModDownQPtoP(levelQ, levelP int, p1Q, p1
 		p1tmp := p1P.Coeffs[i]
 		p2tmp := p2P.Coeffs[i]
 		p3tmp := polypool.Coeffs[i]
-		params := qi - modDownParams[levelP][i]
+		params := qi - modDownParams[levelQ][i]
 		mredParams := ringP.MredParams[i]
 
 		// Then for each coefficient we compute (P^-1) * (p1[i][j] - polypool[i][j]) mod qi
-- 
2.43.0


From 0e54373a55a7a8a0e62599bf028c379fef4b519f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:34 +0000
Subject: [PATCH 16/17] fix: scale alignment keeps the level of the evaluator's
 scratch ciphertext

MultByConst lowers its receiver to the level of the product. evaluateInPlace
used it on the scratch ciphertext, so one sum of ciphertexts at a low level
with different scales left the evaluator unable to align sums at higher levels.
---
 mkckks/evaluator.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index d6c59e3..d7bc711 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -122,6 +122,12 @@ func (eval *Evaluator) MultByConst(ct0 *Ciphertext, constant interface{}, ctOut
 		eval.DropLevel(ctOut, ctOut.Level()-level)
 	}
 
+	eval.multByConst(level, ct0, constant, ctOut)
+}
+
+// multByConst multiplies the first level+1 residues of ct0 by the input constant and writes them in ctOut, which keeps its level.
+func (eval *Evaluator) multByConst(level int, ct0 *Ciphertext, constant interface{}, ctOut *Ciphertext) {
+
 	cReal, cImag, scale := eval.getConstAndScale(level, constant)
 
 	// Component wise multiplication of the following vector with the ciphertext:
@@ -246,7 +252,7 @@ func (eval *Evaluator) evaluateInPlace(c0, c1, ctOut *Ciphertext, evaluate func(
 
 			tmp1 = eval.ctxtPool.El()
 
-			eval.MultByConst(&Ciphertext{c1.El(), c1Scale}, math.Floor(c0Scale/c1Scale), &Ciphertext{tmp1, ctOutScale})
+			eval.multByConst(level, &Ciphertext{c1.El(), c1Scale}, math.Floor(c0Scale/c1Scale), &Ciphertext{tmp1, ctOutScale})
 
 		} else if c1Scale > c0Scale && math.Floor(c1Scale/c0Scale) > 1 {
 
@@ -269,7 +275,7 @@ func (eval *Evaluator) evaluateInPlace(c0, c1, ctOut *Ciphertext, evaluate func(
 
 			tmp0 = eval.ctxtPool.El()
 
-			eval.MultByConst(&Ciphertext{c0.El(), c0Scale}, math.Floor(c1Scale/c0Scale), &Ciphertext{tmp0, ctOutScale})
+			eval.multByConst(level, &Ciphertext{c0.El(), c0Scale}, math.Floor(c1Scale/c0Scale), &Ciphertext{tmp0, ctOutScale})
 
 		} else if c0Scale > c1Scale && math.Floor(c0Scale/c1Scale) > 1 {
 
@@ -292,7 +298,7 @@ func (eval *Evaluator) evaluateInPlace(c0, c1, ctOut *Ciphertext, evaluate func(
 
 			tmp0 = eval.ctxtPool.El()
 
-			eval.MultByConst(&Ciphertext{c0.El(), c0Scale}, math.Floor(c1Scale/c0Scale), &Ciphertext{tmp0, ctOutScale})
+			eval.multByConst(level, &Ciphertext{c0.El(), c0Scale}, math.Floor(c1Scale/c0Scale), &Ciphertext{tmp0, ctOutScale})
 
 			tmp1 = c1.El()
 
@@ -300,7 +306,7 @@ func (eval *Evaluator) evaluateInPlace(c0, c1, ctOut *Ciphertext, evaluate func(
 
 			tmp1 = eval.ctxtPool.El()
 
-			eval.MultByConst(&Ciphertext{c1.El(), c1Scale}, math.Floor(c0Scale/c1Scale), &Ciphertext{tmp1, ctOutScale})
+			eval.multByConst(level, &Ciphertext{c1.El(), c1Scale}, math.Floor(c0Scale/c1Scale), &Ciphertext{tmp1, ctOutScale})
 
 			tmp0 = c0.El()
 
-- 
2.43.0


From b06889436d32be5922f1837e0a6839d1727f948d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:01 +0000
Subject: [PATCH 17/17] fix: decompose with special primes that gamma does not
 divide

The decomposer's constants covered the first gamma*alpha special primes only,
while the digits are extended to all of them: with five special primes and
gamma 2 every key switching panicked with an index out of range.
---
 mkrlwe/basis_extension.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mkrlwe/basis_extension.go b/mkrlwe/basis_extension.go
index e6514dd..888d50e 100644
--- a/mkrlwe/basis_extension.go
+++ b/mkrlwe/basis_extension.go
@@ -401,7 +401,8 @@ func NewDecomposer(ringQ, ringP *ring.Ring, gamma int) (decomposer *Decomposer)
 			for j := 0; j < xalpha[i]-1; j++ {
 
 				Qi := make([]uint64, j+2)
-				Pi := make([]uint64, len(Q)+len(P))
+				// the special primes that gamma does not divide belong to no digit, but get every digit
+				Pi := make([]uint64, len(Q)+len(ringP.Modulus))
 
 				for k := 0; k < j+2; k++ {
 					Qi[k] = Q[i*alpha+k]
@@ -411,8 +412,8 @@ func NewDecomposer(ringQ, ringP *ring.Ring, gamma int) (decomposer *Decomposer)
 					Pi[k] = Q[k]
 				}
 
-				for k := len(Q); k < len(Q)+len(P); k++ {
-					Pi[k] = P[k-len(Q)]
+				for k := len(Q); k < len(Q)+len(ringP.Modulus); k++ {
+					Pi[k] = ringP.Modulus[k-len(Q)]
 				}
 
 				decomposer.modUpParams[lvlP][i][j] = basisextenderparameters(Qi, Pi)
-- 
2.43.0

