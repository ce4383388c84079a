From 40fd186602223c0b43c9493737e486104a849696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:48 +0000
Subject: [PATCH 1/4] fix: BatchXNOR computed XOR (offset sign differed from
 XNOR)

---
 gates/gates.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gates/gates.go b/gates/gates.go
index 0ebd29f..5a34629 100644
--- a/gates/gates.go
+++ b/gates/gates.go
@@ -290,7 +290,7 @@ func BatchXNOR(inputs [][2]*Ciphertext, ck *cloudkey.CloudKey) []*Ciphertext {
 	prepared := make([]*Ciphertext, len(inputs))
 	for i, pair := range inputs {
 		tlweXNOR := pair[0].SubMul(pair[1], 2)
-		tlweXNOR.SetB(tlweXNOR.B() + utils.F64ToTorus(-0.25))
+		tlweXNOR.SetB(tlweXNOR.B() + utils.F64ToTorus(0.25))
 		prepared[i] = tlweXNOR
 	}
 
-- 
2.43.0


From 02b3803d51e1c276745a5f9a1622bd7cf4c40ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:48 +0000
Subject: [PATCH 2/4] fix: BatchBlindRotate returned results inside pooled
 evaluator buffers

---
 trgsw/trgsw.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/trgsw/trgsw.go b/trgsw/trgsw.go
index 5f5a2a9..930167e 100644
--- a/trgsw/trgsw.go
+++ b/trgsw/trgsw.go
@@ -243,7 +243,13 @@ func BatchBlindRotate(srcs []*tlwe.TLWELv0, blindRotateTestvec *trlwe.TRLWELv1,
 			polyEval := evaluatorPool.Get().(*poly.Evaluator)
 			defer evaluatorPool.Put(polyEval)
 
-			results[idx] = BlindRotate(s, blindRotateTestvec, bootstrappingKey, decompositionOffset, polyEval)
+			// The rotated ciphertext lives in the evaluator's buffers, which the
+			// next user of the pooled evaluator overwrites: copy it out
+			rotated := BlindRotate(s, blindRotateTestvec, bootstrappingKey, decompositionOffset, polyEval)
+			result := trlwe.NewTRLWELv1()
+			copy(result.A, rotated.A)
+			copy(result.B, rotated.B)
+			results[idx] = result
 		}(i, src)
 	}
 
-- 
2.43.0


From c33d9483e66ef93d10b90d8a9c30dd533abb6fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:48 +0000
Subject: [PATCH 3/4] fix: gates panicked after switching the security level at
 run time

---
 gates/gates.go | 30 +++++++++++++++++++++---------
 trgsw/trgsw.go |  4 ++++
 2 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/gates/gates.go b/gates/gates.go
index 5a34629..e9a8bc7 100644
--- a/gates/gates.go
+++ b/gates/gates.go
@@ -16,15 +16,27 @@ import (
 type Ciphertext = tlwe.TLWELv0
 
 // Global evaluator for single-threaded operations (zero-allocation)
-var globalEval *evaluator.Evaluator
+var (
+	globalEval      *evaluator.Evaluator
+	globalEvalLevel params.SecurityLevel // Level globalEval's buffers are sized for
+)
 
 func init() {
-	globalEval = evaluator.NewEvaluator(params.GetTRGSWLv1().N)
+	currentEval()
+}
+
+// currentEval returns the global evaluator, recreated if the security level changed
+func currentEval() *evaluator.Evaluator {
+	if globalEval == nil || globalEvalLevel != params.CurrentSecurityLevel {
+		globalEval = evaluator.NewEvaluator(params.GetTRGSWLv1().N)
+		globalEvalLevel = params.CurrentSecurityLevel
+	}
+	return globalEval
 }
 
 // NAND performs homomorphic NAND operation (zero-allocation)
 func NAND(tlweA, tlweB *Ciphertext, ck *cloudkey.CloudKey) *Ciphertext {
-	prepared := globalEval.PrepareNAND(tlweA, tlweB)
+	prepared := currentEval().PrepareNAND(tlweA, tlweB)
 	result := bootstrap(prepared, ck)
 
 	return result
@@ -32,19 +44,19 @@ func NAND(tlweA, tlweB *Ciphertext, ck *cloudkey.CloudKey) *Ciphertext {
 
 // OR performs homomorphic OR operation (zero-allocation)
 func OR(tlweA, tlweB *Ciphertext, ck *cloudkey.CloudKey) *Ciphertext {
-	prepared := globalEval.PrepareOR(tlweA, tlweB)
+	prepared := currentEval().PrepareOR(tlweA, tlweB)
 	return bootstrap(prepared, ck)
 }
 
 // AND performs homomorphic AND operation (zero-allocation)
 func AND(tlweA, tlweB *Ciphertext, ck *cloudkey.CloudKey) *Ciphertext {
-	prepared := globalEval.PrepareAND(tlweA, tlweB)
+	prepared := currentEval().PrepareAND(tlweA, tlweB)
 	return bootstrap(prepared, ck)
 }
 
 // XOR performs homomorphic XOR operation (zero-allocation)
 func XOR(tlweA, tlweB *Ciphertext, ck *cloudkey.CloudKey) *Ciphertext {
-	prepared := globalEval.PrepareXOR(tlweA, tlweB)
+	prepared := currentEval().PrepareXOR(tlweA, tlweB)
 	return bootstrap(prepared, ck)
 }
 
@@ -128,14 +140,14 @@ func Copy(tlweA *Ciphertext) *Ciphertext {
 // bootstrap performs full bootstrapping with key switching (TRUE zero-allocation)
 // Returns pointer to internal buffer - result is only valid until next bootstrap call
 func bootstrapTemp(ctxt *Ciphertext, ck *cloudkey.CloudKey) *Ciphertext {
-	return globalEval.Bootstrap(ctxt, ck.BlindRotateTestvec, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset)
+	return currentEval().Bootstrap(ctxt, ck.BlindRotateTestvec, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset)
 }
 
 // bootstrap2 performs full bootstrapping with key switching (zero-allocation)
 // copies the prepared buffer to the result
 func bootstrap(ctxt *Ciphertext, ck *cloudkey.CloudKey) *Ciphertext {
 	result := tlwe.NewTLWELv0()
-	bootstrapped := globalEval.Bootstrap(ctxt, ck.BlindRotateTestvec, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset)
+	bootstrapped := currentEval().Bootstrap(ctxt, ck.BlindRotateTestvec, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset)
 	copy(result.P, bootstrapped.P)
 	result.SetB(bootstrapped.B())
 	return result
@@ -144,7 +156,7 @@ func bootstrap(ctxt *Ciphertext, ck *cloudkey.CloudKey) *Ciphertext {
 // bootstrapWithoutKeySwitch performs bootstrapping without key switching (uses global eval)
 func bootstrapWithoutKeySwitch(ctxt *Ciphertext, ck *cloudkey.CloudKey) *Ciphertext {
 	trlweResult := trlwe.NewTRLWELv1()
-	globalEval.BlindRotateAssign(ctxt, ck.BlindRotateTestvec, ck.BootstrappingKey, ck.DecompositionOffset, trlweResult)
+	currentEval().BlindRotateAssign(ctxt, ck.BlindRotateTestvec, ck.BootstrappingKey, ck.DecompositionOffset, trlweResult)
 	return trlwe.SampleExtractIndex2(trlweResult, 0)
 }
 
diff --git a/trgsw/trgsw.go b/trgsw/trgsw.go
index 930167e..a3650e2 100644
--- a/trgsw/trgsw.go
+++ b/trgsw/trgsw.go
@@ -241,6 +241,10 @@ func BatchBlindRotate(srcs []*tlwe.TLWELv0, blindRotateTestvec *trlwe.TRLWELv1,
 			defer wg.Done()
 			// Get evaluator from pool (reuse instead of allocate)
 			polyEval := evaluatorPool.Get().(*poly.Evaluator)
+			if n := params.GetTRGSWLv1().N; polyEval.Degree() != n {
+				// Pooled before a switch to a security level of another degree
+				polyEval = poly.NewEvaluator(n)
+			}
 			defer evaluatorPool.Put(polyEval)
 
 			// The rotated ciphertext lives in the evaluator's buffers, which the
-- 
2.43.0


From db7639b0f11f85156a4f63d5a4ea13085e56727c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:48 +0000
Subject: [PATCH 4/4] fix: Evaluator.ShallowCopy allocated a one-level
 decomposer

---
 evaluator/evaluator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evaluator/evaluator.go b/evaluator/evaluator.go
index bce7796..c9c7f55 100644
--- a/evaluator/evaluator.go
+++ b/evaluator/evaluator.go
@@ -40,7 +40,7 @@ func NewEvaluator(n int) *Evaluator {
 func (e *Evaluator) ShallowCopy() *Evaluator {
 	return &Evaluator{
 		PolyEvaluator: e.PolyEvaluator.ShallowCopy(),
-		Decomposer:    poly.NewDecomposer(e.PolyEvaluator.Degree(), len(e.Decomposer.GetPolyDecomposedBuffer(1))),
+		Decomposer:    poly.NewDecomposer(e.PolyEvaluator.Degree(), params.GetTRGSWLv1().L*2), // 2*L levels for A and B
 		Buffers:       NewBufferPool(e.PolyEvaluator.Degree()),
 	}
 }
-- 
2.43.0

