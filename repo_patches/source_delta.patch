From 3b5cd4db77552fd250a1ba7da0d891ad14fd6165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:18 +0000
Subject: [PATCH 01/70] fix: pair the columns of the 2x2 eigenvector matrix
 with their own eigenvalues in exp2x2/log2x2

---
 src/common/functions.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/functions.cpp b/src/common/functions.cpp
index b5d28b1..ce22518 100644
--- a/src/common/functions.cpp
+++ b/src/common/functions.cpp
@@ -142,11 +142,11 @@ void _expLog2x2(const complex* matrix2x2, complex* outMatrix2x2, bool isExp)
         complex eigenvalue1 = (trace + quadraticRoot) / (real1)2.0f;
         complex eigenvalue2 = (trace - quadraticRoot) / (real1)2.0f;
 
-        jacobian[0U] = matrix2x2[0U] - eigenvalue1;
+        jacobian[0U] = matrix2x2[0U] - eigenvalue2;
         jacobian[2U] = matrix2x2[2U];
 
         jacobian[1U] = matrix2x2[1U];
-        jacobian[3U] = matrix2x2[3U] - eigenvalue2;
+        jacobian[3U] = matrix2x2[3U] - eigenvalue1;
 
         outMatrix2x2[0U] = eigenvalue1;
         outMatrix2x2[1U] = ZERO_CMPLX;
-- 
2.43.0


From 9b52f7b2fca7a626148da3e804f55cf3a83f3a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:18 +0000
Subject: [PATCH 02/70] fix: exponentiate uniformly controlled Hamiltonian
 terms with the imaginary factor in TimeEvolve

---
 src/qinterface/gates.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qinterface/gates.cpp b/src/qinterface/gates.cpp
index 7065399..463894e 100644
--- a/src/qinterface/gates.cpp
+++ b/src/qinterface/gates.cpp
@@ -457,6 +457,9 @@ void QInterface::TimeEvolve(Hamiltonian h, real1_f timeDiff_f)
 
         if (op->uniform) {
             std::unique_ptr<complex[]> expMtrx(new complex[maxJ]);
+            for (bitCapIntOcl j = 0U; j < maxJ; ++j) {
+                mtrx[j] *= I_CMPLX;
+            }
             for (bitCapIntOcl j = 0U; j < pow2(op->controls.size()); ++j) {
                 exp2x2(mtrx.get() + (j * 4U), expMtrx.get() + (j * 4U));
             }
-- 
2.43.0


From 53740f993ad4eaccf85ef18fc7b5d94f04e4a3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:18 +0000
Subject: [PATCH 03/70] fix: FSim keeps the sign at theta = pi, uses one phi
 convention in every layer, and maps qubits in QUnitClifford

---
 include/qinterface.hpp    |  6 +++++-
 include/qunitclifford.hpp |  2 +-
 src/qbdt/tree.cpp         |  8 ++++++--
 src/qengine/qengine.cpp   |  4 ++--
 src/qpager.cpp            | 10 +++++++---
 src/qstabilizer.cpp       | 10 ++++++++--
 6 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/include/qinterface.hpp b/include/qinterface.hpp
index 70ef79c..3109f9e 100644
--- a/include/qinterface.hpp
+++ b/include/qinterface.hpp
@@ -2388,7 +2388,11 @@ public:
         MCPhase(controls, ONE_CMPLX, expIPhi, qubit2);
 
         if ((2 * abs(sinTheta)) <= (FP_NORM_EPSILON * PI_R1)) {
-            // ISWAP power is 0.
+            // ISWAP power is 0 or 2.
+            if (cos(theta) < ZERO_R1_F) {
+                Z(qubit1);
+                Z(qubit2);
+            }
             return;
         }
 
diff --git a/include/qunitclifford.hpp b/include/qunitclifford.hpp
index cc260e5..2c78c77 100644
--- a/include/qunitclifford.hpp
+++ b/include/qunitclifford.hpp
@@ -782,7 +782,7 @@ public:
         std::vector<bitLenInt> bits{ c, t };
         std::vector<bitLenInt*> ebits{ &bits[0U], &bits[1U] };
         QStabilizerPtr unit = EntangleInCurrentBasis(ebits.begin(), ebits.end());
-        unit->FSim(theta, phi, c, t);
+        unit->FSim(theta, phi, bits[0U], bits[1U]);
         CombinePhaseOffsets(unit);
         TrySeparate(c);
         TrySeparate(t);
diff --git a/src/qbdt/tree.cpp b/src/qbdt/tree.cpp
index 671a62e..e845320 100644
--- a/src/qbdt/tree.cpp
+++ b/src/qbdt/tree.cpp
@@ -759,11 +759,15 @@ void QBdt::FSim(real1_f theta, real1_f phi, bitLenInt qubit1, bitLenInt qubit2)
 
     const std::vector<bitLenInt> controls{ qubit1 };
     const real1_f sinTheta = sin(theta);
+    const complex expIPhi = exp(complex(ZERO_R1, -(real1)phi));
     if ((sinTheta * sinTheta) <= FP_NORM_EPSILON_F) {
-        return MCPhase(controls, ONE_CMPLX, exp(complex(ZERO_R1, (real1)phi)), qubit2);
+        if (cos(theta) < ZERO_R1_F) {
+            Z(qubit1);
+            Z(qubit2);
+        }
+        return MCPhase(controls, ONE_CMPLX, expIPhi, qubit2);
     }
 
-    const complex expIPhi = exp(complex(ZERO_R1, (real1)phi));
     const real1_f sinThetaDiffNeg = ONE_R1_F + sinTheta;
     if ((sinThetaDiffNeg * sinThetaDiffNeg) <= FP_NORM_EPSILON_F) {
         ISwap(qubit1, qubit2);
diff --git a/src/qengine/qengine.cpp b/src/qengine/qengine.cpp
index c9a1d73..858f395 100644
--- a/src/qengine/qengine.cpp
+++ b/src/qengine/qengine.cpp
@@ -448,8 +448,8 @@ void QEngine::FSim(real1_f theta, real1_f phi, bitLenInt qubit1, bitLenInt qubit
     }
 
     const real1 sinTheta = (real1)sin(theta);
-    if ((sinTheta * sinTheta) > FP_NORM_EPSILON) {
-        const real1 cosTheta = (real1)cos(theta);
+    const real1 cosTheta = (real1)cos(theta);
+    if (((sinTheta * sinTheta) > FP_NORM_EPSILON) || (cosTheta < ZERO_R1)) {
         const complex fSimSwap[4U]{ complex(cosTheta, ZERO_R1), complex(ZERO_R1, -sinTheta),
             complex(ZERO_R1, -sinTheta), complex(cosTheta, ZERO_R1) };
         const bitCapIntOcl qPowersSorted[2U]{ pow2Ocl(qubit1), pow2Ocl(qubit2) };
diff --git a/src/qpager.cpp b/src/qpager.cpp
index 80c4428..4fa0942 100644
--- a/src/qpager.cpp
+++ b/src/qpager.cpp
@@ -1423,12 +1423,16 @@ void QPager::FSim(real1_f theta, real1_f phi, bitLenInt qubit1, bitLenInt qubit2
     const std::vector<bitLenInt> controls{ qubit1 };
     const real1 sinTheta = (real1)sin(theta);
 
+    const complex expIPhi = exp(complex(ZERO_R1, -(real1)phi));
+
     if ((sinTheta * sinTheta) <= FP_NORM_EPSILON) {
-        return MCPhase(controls, ONE_CMPLX, exp(complex(ZERO_R1, (real1)phi)), qubit2);
+        if (cos(theta) < ZERO_R1_F) {
+            Z(qubit1);
+            Z(qubit2);
+        }
+        return MCPhase(controls, ONE_CMPLX, expIPhi, qubit2);
     }
 
-    const complex expIPhi = exp(complex(ZERO_R1, (real1)phi));
-
     const real1 sinThetaDiffNeg = ONE_R1 + sinTheta;
     if ((sinThetaDiffNeg * sinThetaDiffNeg) <= FP_NORM_EPSILON) {
         ISwap(qubit1, qubit2);
diff --git a/src/qstabilizer.cpp b/src/qstabilizer.cpp
index df74a39..877b21a 100644
--- a/src/qstabilizer.cpp
+++ b/src/qstabilizer.cpp
@@ -2357,13 +2357,19 @@ void QStabilizer::FSim(real1_f theta, real1_f phi, bitLenInt qubit1, bitLenInt q
     const std::vector<bitLenInt> controls{ qubit1 };
     real1 sinTheta = (real1)sin(theta);
 
+    const complex expIPhi = exp(complex(ZERO_R1, -(real1)phi));
+
     if (IS_0_R1(sinTheta)) {
-        return MCPhase(controls, ONE_CMPLX, exp(complex(ZERO_R1, (real1)phi)), qubit2);
+        if (cos(theta) < ZERO_R1_F) {
+            Z(qubit1);
+            Z(qubit2);
+        }
+        return MCPhase(controls, ONE_CMPLX, expIPhi, qubit2);
     }
 
     if (IS_1_R1(-sinTheta)) {
         ISwap(qubit1, qubit2);
-        return MCPhase(controls, ONE_CMPLX, exp(complex(ZERO_R1, (real1)phi)), qubit2);
+        return MCPhase(controls, ONE_CMPLX, expIPhi, qubit2);
     }
 
     throw std::domain_error("QStabilizer::FSim() not implemented for non-Clifford/Pauli cases!");
-- 
2.43.0


From 6a454c3b015d72481765e6cdeecaebdc69c045d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:18 +0000
Subject: [PATCH 04/70] fix: IndexedSBC skips only the carry qubit, whatever
 the value register's length

---
 src/qengine/arithmetic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qengine/arithmetic.cpp b/src/qengine/arithmetic.cpp
index 67d640d..1e6e3ec 100644
--- a/src/qengine/arithmetic.cpp
+++ b/src/qengine/arithmetic.cpp
@@ -1122,7 +1122,7 @@ bitCapInt QEngineCPU::IndexedSBC(bitLenInt indexStart, bitLenInt indexLength, bi
     const bitCapIntOcl otherMask = (maxQPowerOcl - 1U) & (~(inputMask | outputMask | carryMask));
     const bitCapIntOcl skipPower = pow2Ocl(carryIndex);
 
-    par_for_skip(0, maxQPowerOcl, skipPower, valueLength, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
+    par_for_skip(0, maxQPowerOcl, skipPower, 1, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
         // These are qubits that are not directly involved in the
         // operation. We iterate over all of their possibilities, but their
         // input value matches their output value:
-- 
2.43.0


From 5c1ebbe6240f917eefb76bba829fff6673decd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:28 +0000
Subject: [PATCH 05/70] fix: ripple the carry through every bit of the quantum
 adder

---
 src/qinterface/arithmetic.cpp | 75 ++++++-----------------------------
 1 file changed, 13 insertions(+), 62 deletions(-)

diff --git a/src/qinterface/arithmetic.cpp b/src/qinterface/arithmetic.cpp
index e80f5b6..79fd1bc 100644
--- a/src/qinterface/arithmetic.cpp
+++ b/src/qinterface/arithmetic.cpp
@@ -329,86 +329,37 @@ void QInterface::CIFullAdd(const std::vector<bitLenInt>& controls, bitLenInt inp
 
 void QInterface::ADC(bitLenInt input1, bitLenInt input2, bitLenInt output, bitLenInt length, bitLenInt carry)
 {
-    if (!length) {
-        return;
-    }
-
-    FullAdd(input1, input2, carry, output);
-
-    if (length == 1U) {
-        return Swap(carry, output);
-    }
-
-    // Otherwise, length > 1.
-    const bitLenInt end = length - 1U;
-    for (bitLenInt i = 1U; i < end; ++i) {
-        FullAdd(input1 + i, input2 + i, output + i, output + i + 1U);
+    // Each step leaves the sum bit in the carry qubit and the carry in the (cleared) output qubit, so exchange them.
+    for (bitLenInt i = 0U; i < length; ++i) {
+        FullAdd(input1 + i, input2 + i, carry, output + i);
+        Swap(carry, output + i);
     }
-    FullAdd(input1 + end, input2 + end, output + end, carry);
 }
 
 void QInterface::IADC(bitLenInt input1, bitLenInt input2, bitLenInt output, bitLenInt length, bitLenInt carry)
 {
-    if (!length) {
-        return;
-    }
-
-    if (length == 1U) {
-        Swap(carry, output);
-
-        return IFullAdd(input1, input2, carry, output);
-    }
-
-    // Otherwise, length > 1.
-    const bitLenInt end = length - 1U;
-    IFullAdd(input1 + end, input2 + end, output + end, carry);
-    for (bitLenInt i = (end - 1); i > 0U; i--) {
-        IFullAdd(input1 + i, input2 + i, output + i, output + i + 1U);
+    for (bitLenInt i = length; i > 0U; --i) {
+        Swap(carry, output + i - 1U);
+        IFullAdd(input1 + i - 1U, input2 + i - 1U, carry, output + i - 1U);
     }
-    IFullAdd(input1, input2, carry, output);
 }
 
 void QInterface::CADC(const std::vector<bitLenInt>& controls, bitLenInt input1, bitLenInt input2, bitLenInt output,
     bitLenInt length, bitLenInt carry)
 {
-    if (!length) {
-        return;
-    }
-
-    CFullAdd(controls, input1, input2, carry, output);
-
-    if (length == 1) {
-        return CSwap(controls, carry, output);
-    }
-
-    // Otherwise, length > 1.
-    const bitLenInt end = length - 1U;
-    for (bitLenInt i = 1; i < end; ++i) {
-        CFullAdd(controls, input1 + i, input2 + i, output + i, output + i + 1U);
+    for (bitLenInt i = 0U; i < length; ++i) {
+        CFullAdd(controls, input1 + i, input2 + i, carry, output + i);
+        CSwap(controls, carry, output + i);
     }
-    CFullAdd(controls, input1 + end, input2 + end, output + end, carry);
 }
 
 void QInterface::CIADC(const std::vector<bitLenInt>& controls, bitLenInt input1, bitLenInt input2, bitLenInt output,
     bitLenInt length, bitLenInt carry)
 {
-    if (!length) {
-        return;
-    }
-
-    if (length == 1U) {
-        CSwap(controls, carry, output);
-
-        return CIFullAdd(controls, input1, input2, carry, output);
-    }
-
-    // Otherwise, length > 1.
-    const bitLenInt end = length - 1U;
-    CIFullAdd(controls, input1 + end, input2 + end, output + end, carry);
-    for (bitLenInt i = (end - 1); i > 0U; i--) {
-        CIFullAdd(controls, input1 + i, input2 + i, output + i, output + i + 1U);
+    for (bitLenInt i = length; i > 0U; --i) {
+        CSwap(controls, carry, output + i - 1U);
+        CIFullAdd(controls, input1 + i - 1U, input2 + i - 1U, carry, output + i - 1U);
     }
-    CIFullAdd(controls, input1, input2, carry, output);
 }
 
 } // namespace Qrack
-- 
2.43.0


From 06f779307cd8f118d7364df78fd24a8d95ae263b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:28 +0000
Subject: [PATCH 06/70] fix: VarianceFloatsFactorized returns the variance of
 the same observable as its expectation

---
 src/qinterface/qinterface.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/qinterface/qinterface.cpp b/src/qinterface/qinterface.cpp
index 0804b1f..977a590 100644
--- a/src/qinterface/qinterface.cpp
+++ b/src/qinterface/qinterface.cpp
@@ -644,11 +644,12 @@ real1_f QInterface::VarianceFloatsFactorized(const std::vector<bitLenInt>& bits,
 
     real1_f expectation = ZERO_R1_F;
     for (bitCapInt lcv = ZERO_BCI; bi_compare(lcv, maxQPower) < 0; bi_increment(&lcv, 1U)) {
-        real1_f weight = ONE_R1_F;
+        real1_f weight = ZERO_R1_F;
         for (size_t p = 0U; p < bits.size(); ++p) {
-            weight *= (bi_compare_0(lcv & bitPowers[p]) == 0) ? weights[p << 1U] : weights[(p << 1U) | 1U];
+            weight += (bi_compare_0(lcv & bitPowers[p]) == 0) ? weights[p << 1U] : weights[(p << 1U) | 1U];
         }
-        expectation += weight * ProbAll(lcv);
+        const real1_f diff = weight - mean;
+        expectation += diff * diff * ProbAll(lcv);
     }
 
     return expectation;
-- 
2.43.0


From 2d286e45200e016f196e248c1bd51569a7b7bed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:23 +0000
Subject: [PATCH 07/70] fix: measurement honours forced values and never
 returns an outcome of zero probability at an extreme random draw

---
 src/qengine/qengine.cpp | 48 +++++++++++++++++------------------------
 src/qengine/state.cpp   |  4 +++-
 2 files changed, 23 insertions(+), 29 deletions(-)

diff --git a/src/qengine/qengine.cpp b/src/qengine/qengine.cpp
index 858f395..0eba91a 100644
--- a/src/qengine/qengine.cpp
+++ b/src/qengine/qengine.cpp
@@ -122,7 +122,7 @@ bitCapInt QEngine::ForceM(const std::vector<bitLenInt>& bits, const std::vector<
 
     // Single bit operations are better optimized for this special case:
     if (bits.size() == 1U) {
-        if (ForceM(bits[0U], values.empty() ? false : values[0U], false, doApply)) {
+        if (ForceM(bits[0U], values.empty() ? false : values[0U], !values.empty(), doApply)) {
             return pow2(bits[0U]);
         }
 
@@ -147,7 +147,7 @@ bitCapInt QEngine::ForceM(const std::vector<bitLenInt>& bits, const std::vector<
         }
         real1_f nrmlzr = ProbMask(regMask, result);
         complex nrm = phase / (real1)(std::sqrt((real1_s)nrmlzr));
-        if ((ONE_R1_F - nrmlzr) > FP_NORM_EPSILON) {
+        if (doApply && ((ONE_R1_F - nrmlzr) > FP_NORM_EPSILON)) {
             ApplyM(regMask, (bitCapInt)result, nrm);
         }
 
@@ -165,27 +165,21 @@ bitCapInt QEngine::ForceM(const std::vector<bitLenInt>& bits, const std::vector<
 
     ProbMaskAll(regMask, probArray.get());
 
-    bitCapIntOcl lcv = 0U;
-    real1 lowerProb = probArray[0U];
+    real1_f lowerProb = ZERO_R1_F;
     bitCapIntOcl result = lengthPower - 1U;
 
-    /*
-     * The value of 'lcv' should not exceed lengthPower unless the stateVec is
-     * in a bug-induced topology - some value in stateVec must always be a
-     * vector.
-     */
+    // Only outcomes with a nonzero probability are eligible, for any random draw.
     real1 nrmlzr = ONE_R1;
-    while ((lowerProb < prob) && (lcv < lengthPower)) {
-        ++lcv;
-        lowerProb += probArray[lcv];
-        if (probArray[lcv] > ZERO_R1) {
-            nrmlzr = probArray[lcv];
-            result = lcv;
+    for (bitCapIntOcl lcv = 0U; lcv < lengthPower; ++lcv) {
+        if (probArray[lcv] <= REAL1_EPSILON) {
+            continue;
         }
-    }
-    if (lcv < lengthPower) {
+        lowerProb += (real1_f)probArray[lcv];
         nrmlzr = probArray[lcv];
         result = lcv;
+        if (lowerProb > prob) {
+            break;
+        }
     }
 
     probArray.reset();
@@ -506,7 +500,6 @@ bitCapInt QEngine::ForceMReg(bitLenInt start, bitLenInt length, const bitCapInt&
     if (doForce) {
         nrmlzr = ProbMask(regMask, result << start);
     } else {
-        bitCapIntOcl lcv = 0;
         std::unique_ptr<real1[]> probArray(new real1[lengthPower]);
         ProbRegAll(start, length, probArray.get());
 
@@ -514,18 +507,17 @@ bitCapInt QEngine::ForceMReg(bitLenInt start, bitLenInt length, const bitCapInt&
         real1_f lowerProb = ZERO_R1_F;
         result = lengthPower - 1U;
 
-        /*
-         * The value of 'lcv' should not exceed lengthPower unless the stateVec is
-         * in a bug-induced topology - some value in stateVec must always be a
-         * vector.
-         */
-        while ((lowerProb < prob) && (lcv < lengthPower)) {
+        // Only outcomes with a nonzero probability are eligible, for any random draw.
+        for (bitCapIntOcl lcv = 0U; lcv < lengthPower; ++lcv) {
+            if (probArray[lcv] <= REAL1_EPSILON) {
+                continue;
+            }
             lowerProb += (real1_f)probArray[lcv];
-            if (probArray[lcv] > ZERO_R1) {
-                nrmlzr = probArray[lcv];
-                result = lcv;
+            nrmlzr = probArray[lcv];
+            result = lcv;
+            if (lowerProb > prob) {
+                break;
             }
-            ++lcv;
         }
 
         probArray.reset();
diff --git a/src/qengine/state.cpp b/src/qengine/state.cpp
index 0eb31c9..235912b 100644
--- a/src/qengine/state.cpp
+++ b/src/qengine/state.cpp
@@ -1565,9 +1565,11 @@ bool QEngineCPU::ForceMParity(const bitCapInt& mask, bool result, bool doForce)
     }
 
     if (!doForce) {
-        result = (Rand() <= ProbParity(mask));
+        result = (Rand() < ProbParity(mask));
     }
 
+    Finish();
+
     real1 oddChance = ZERO_R1;
 
     const unsigned numCores = GetConcurrencyLevel();
-- 
2.43.0


From 7c0908a383b005fd1a59c6d737c70768b4ca1424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:02 +0000
Subject: [PATCH 08/70] fix: the dispatch queue waits for the operation in
 progress when dumped and reports a failed operation instead of hanging

---
 include/common/dispatchqueue.hpp | 14 +++++++++++---
 src/common/dispatchqueue.cpp     | 30 ++++++++++++++++++++++++++----
 2 files changed, 37 insertions(+), 7 deletions(-)

diff --git a/include/common/dispatchqueue.hpp b/include/common/dispatchqueue.hpp
index 025d6b0..3f941de 100644
--- a/include/common/dispatchqueue.hpp
+++ b/include/common/dispatchqueue.hpp
@@ -21,6 +21,7 @@
 #endif
 
 #include <condition_variable>
+#include <exception>
 #include <functional>
 #include <future>
 #include <mutex>
@@ -36,6 +37,7 @@ public:
         : quit_(false)
         , isFinished_(true)
         , isStarted_(false)
+        , isRunning_(false)
     {
         // Intentionally left blank.
     }
@@ -43,12 +45,16 @@ public:
 
     // dispatch and copy
     void dispatch(const DispatchFn& op);
-    // finish queue
+    // finish queue, (and rethrow the first exception of a queued operation, if any)
     void finish();
-    // dump queue
+    // dump queue, (waiting for the operation in progress, if any)
     void dump();
     // check if queue is finished
-    bool isFinished() { return isFinished_; }
+    bool isFinished()
+    {
+        std::lock_guard<std::mutex> lock(lock_);
+        return isFinished_;
+    }
 
     // Deleted operations
     DispatchQueue(const DispatchQueue& rhs) = delete;
@@ -65,6 +71,8 @@ private:
     bool quit_;
     bool isFinished_;
     bool isStarted_;
+    bool isRunning_;
+    std::exception_ptr error_;
 
     void dispatch_thread_handler(void);
 };
diff --git a/src/common/dispatchqueue.cpp b/src/common/dispatchqueue.cpp
index d7a8444..75d2546 100644
--- a/src/common/dispatchqueue.cpp
+++ b/src/common/dispatchqueue.cpp
@@ -46,6 +46,12 @@ void DispatchQueue::finish()
     }
 
     cvFinished_.wait(lock, [this] { return isFinished_ || quit_; });
+
+    if (error_) {
+        std::exception_ptr error = error_;
+        error_ = nullptr;
+        std::rethrow_exception(error);
+    }
 }
 
 void DispatchQueue::dump()
@@ -58,7 +64,12 @@ void DispatchQueue::dump()
 
     std::queue<DispatchFn> empty;
     std::swap(q_, empty);
+    if (isRunning_) {
+        // The operation in progress still uses the caller's data.
+        cvFinished_.wait(lock, [this] { return !isRunning_ || quit_; });
+    }
     isFinished_ = true;
+    error_ = nullptr;
     lock.unlock();
     cvFinished_.notify_all();
 }
@@ -71,12 +82,12 @@ void DispatchQueue::dispatch(const DispatchFn& op)
         return;
     }
 
-    q_.push(op);
-    isFinished_ = false;
     if (!isStarted_) {
-        isStarted_ = true;
         thread_ = std::async(std::launch::async, [this] { dispatch_thread_handler(); });
+        isStarted_ = true;
     }
+    q_.push(op);
+    isFinished_ = false;
 
     // Manual unlocking is done before notifying, to avoid waking up
     // the waiting thread only to block again (see notify_one for details)
@@ -99,14 +110,25 @@ void DispatchQueue::dispatch_thread_handler(void)
 
         const auto op = std::move(q_.front());
         q_.pop();
+        isRunning_ = true;
 
         // unlock now that we're done messing with the queue
         lock.unlock();
 
-        op();
+        std::exception_ptr error;
+        try {
+            op();
+        } catch (...) {
+            error = std::current_exception();
+        }
 
         lock.lock();
 
+        isRunning_ = false;
+        if (error && !error_) {
+            error_ = error;
+        }
+
         if (q_.empty()) {
             isFinished_ = true;
             cvFinished_.notify_all();
-- 
2.43.0


From 5cb2a9b692bba5508900b9d611f3a65c495a08f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:03 +0000
Subject: [PATCH 09/70] fix: QStabilizerHybrid::SetConcurrency sets the
 engine's concurrency instead of recursing without end

---
 include/qstabilizerhybrid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qstabilizerhybrid.hpp b/include/qstabilizerhybrid.hpp
index 06d8c68..a3be715 100644
--- a/include/qstabilizerhybrid.hpp
+++ b/include/qstabilizerhybrid.hpp
@@ -431,7 +431,7 @@ public:
     {
         QInterface::SetConcurrency(threadCount);
         if (engine) {
-            SetConcurrency(GetConcurrencyLevel());
+            engine->SetConcurrency(GetConcurrencyLevel());
         }
     }
 
-- 
2.43.0


From 50a085fb2e1e63bb90e28049c28e4ddfc8532951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:03 +0000
Subject: [PATCH 10/70] fix: hardware random draws stay below 1 when rounded to
 a narrower type

---
 include/common/rdrandwrapper.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/common/rdrandwrapper.hpp b/include/common/rdrandwrapper.hpp
index ffc5bf7..4864725 100644
--- a/include/common/rdrandwrapper.hpp
+++ b/include/common/rdrandwrapper.hpp
@@ -14,6 +14,8 @@
 
 #include "qrack_types.hpp"
 
+#include <limits>
+
 #if ENABLE_DEVRAND
 #include <sys/random.h>
 #endif
@@ -161,7 +163,9 @@ public:
         // NextRaw() has 32 bits; double has >= 53 bits of precision
         constexpr double inc = 1.0 / (double)(1ULL << 32U);
 #if FPPOW < 6
-        return (real1_f)(((double)NextRaw()) * inc);
+        // (Rounding to a narrower type must not reach 1.)
+        const real1_f r = (real1_f)(((double)NextRaw()) * inc);
+        return (r < ONE_R1_F) ? r : (real1_f)(ONE_R1_F - std::numeric_limits<real1_f>::epsilon() / 2);
 #else
         return ((((double)NextRaw()) * inc) + ((double)NextRaw())) * inc;
 #endif
-- 
2.43.0


From 5890a832094daff55ad69ce1c889ea4a7db19e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:03 +0000
Subject: [PATCH 11/70] fix: queued engine operations decide on the state they
 find when they run, and synchronous ones wait for the queue first

---
 include/qengine_cpu.hpp    |  16 +++-
 src/qengine/arithmetic.cpp |  46 +++++++++++-
 src/qengine/state.cpp      | 148 +++++++++++++++++++------------------
 src/qengine/utility.cpp    |   9 ++-
 4 files changed, 141 insertions(+), 78 deletions(-)

diff --git a/include/qengine_cpu.hpp b/include/qengine_cpu.hpp
index e7894ae..c8946a5 100644
--- a/include/qengine_cpu.hpp
+++ b/include/qengine_cpu.hpp
@@ -82,8 +82,17 @@ public:
 
     void SetDevice(int64_t dID) {}
 
+    void SetConcurrency(uint32_t threadsPerEngine)
+    {
+        // Queued operations use the concurrency level.
+        Finish();
+        QEngine::SetConcurrency(threadsPerEngine);
+    }
+
     real1_f FirstNonzeroPhase()
     {
+        Finish();
+
         if (!stateVec) {
             return ZERO_R1_F;
         }
@@ -98,7 +107,12 @@ public:
         runningNorm = ZERO_R1;
     }
 
-    bool IsZeroAmplitude() { return !stateVec; }
+    bool IsZeroAmplitude()
+    {
+        Finish();
+
+        return !stateVec;
+    }
     void GetAmplitudePage(complex* pagePtr, bitCapIntOcl offset, bitCapIntOcl length);
     void SetAmplitudePage(const complex* pagePtr, bitCapIntOcl offset, bitCapIntOcl length);
     void SetAmplitudePage(
diff --git a/src/qengine/arithmetic.cpp b/src/qengine/arithmetic.cpp
index 1e6e3ec..842e7c3 100644
--- a/src/qengine/arithmetic.cpp
+++ b/src/qengine/arithmetic.cpp
@@ -26,6 +26,8 @@ void QEngineCPU::ROL(bitLenInt shift, bitLenInt start, bitLenInt length)
         throw std::invalid_argument("QEngineCPU::ROL range is out-of-bounds!");
     }
 
+    Finish();
+
     CHECK_ZERO_SKIP();
 
     if (!length) {
@@ -65,6 +67,8 @@ void QEngineCPU::INC(const bitCapInt& toAdd, bitLenInt inOutStart, bitLenInt len
         throw std::invalid_argument("QEngineCPU::INC range is out-of-bounds!");
     }
 
+    Finish();
+
     CHECK_ZERO_SKIP();
 
     if (!length) {
@@ -99,6 +103,8 @@ void QEngineCPU::INC(const bitCapInt& toAdd, bitLenInt inOutStart, bitLenInt len
 void QEngineCPU::CINC(
     const bitCapInt& toAdd, bitLenInt inOutStart, bitLenInt length, const std::vector<bitLenInt>& controls)
 {
+    Finish();
+
     CHECK_ZERO_SKIP();
 
     if (controls.empty()) {
@@ -160,6 +166,8 @@ void QEngineCPU::INCDECC(const bitCapInt& toMod, bitLenInt inOutStart, bitLenInt
         throw std::invalid_argument("QEngineCPU::INCDECC carryIndex is out-of-bounds!");
     }
 
+    Finish();
+
     CHECK_ZERO_SKIP();
 
     if (!length) {
@@ -212,6 +220,8 @@ void QEngineCPU::INCS(const bitCapInt& toAdd, bitLenInt inOutStart, bitLenInt le
         throw std::invalid_argument("QEngineCPU::INCS overflowIndex is out-of-bounds!");
     }
 
+    Finish();
+
     CHECK_ZERO_SKIP();
 
     if (!length) {
@@ -263,6 +273,8 @@ void QEngineCPU::INCDECSC(const bitCapInt& toMod, bitLenInt inOutStart, bitLenIn
         throw std::invalid_argument("QEngineCPU::INCDECSC carryIndex is out-of-bounds!");
     }
 
+    Finish();
+
     CHECK_ZERO_SKIP();
 
     if (!length) {
@@ -320,6 +332,8 @@ void QEngineCPU::INCDECSC(
         throw std::invalid_argument("QEngineCPU::INCDECSC overflowIndex is out-of-bounds!");
     }
 
+    Finish();
+
     CHECK_ZERO_SKIP();
 
     if (!length) {
@@ -374,6 +388,8 @@ void QEngineCPU::MULDIV(const IOFn& inFn, const IOFn& outFn, const bitCapInt& to
         throw std::invalid_argument("QEngineCPU::MULDIV range is out-of-bounds!");
     }
 
+    Finish();
+
     CHECK_ZERO_SKIP();
 
     const bitCapIntOcl toMulOcl = (bitCapIntOcl)toMul;
@@ -442,6 +458,8 @@ void QEngineCPU::CMULDIV(const IOFn& inFn, const IOFn& outFn, const bitCapInt& t
 
     ThrowIfQbIdArrayIsBad(controls, qubitCount, "QEngineCPU::CMULDIV control is out-of-bounds!");
 
+    Finish();
+
     CHECK_ZERO_SKIP();
 
     const bitCapIntOcl toMulOcl = (bitCapIntOcl)toMul;
@@ -547,6 +565,8 @@ void QEngineCPU::ModNOut(const MFn& kernelFn, const bitCapInt& modN, const bitLe
         throw std::invalid_argument("QEngineCPU::ModNOut range is out-of-bounds!");
     }
 
+    Finish();
+
     CHECK_ZERO_SKIP();
 
     const bitCapIntOcl modNOcl = (bitCapIntOcl)modN;
@@ -624,6 +644,8 @@ void QEngineCPU::CModNOut(const MFn& kernelFn, const bitCapInt& modN, const bitL
 
     ThrowIfQbIdArrayIsBad(controls, qubitCount, "QEngineCPU::ModNOut control is out-of-bounds!");
 
+    Finish();
+
     CHECK_ZERO_SKIP();
 
     const bitCapIntOcl modNOcl = (bitCapIntOcl)modN;
@@ -724,6 +746,8 @@ void QEngineCPU::INCBCD(const bitCapInt& toAdd, bitLenInt inOutStart, bitLenInt
         throw std::invalid_argument("QEngineCPU::INC range is out-of-bounds!");
     }
 
+    Finish();
+
     CHECK_ZERO_SKIP();
 
     if (!length) {
@@ -798,6 +822,8 @@ void QEngineCPU::INCDECBCDC(const bitCapInt& toMod, bitLenInt inOutStart, bitLen
         throw std::invalid_argument("QEngineCPU::INCDECBCDC carryIndex is out-of-bounds!");
     }
 
+    Finish();
+
     CHECK_ZERO_SKIP();
 
     if (!length) {
@@ -894,6 +920,8 @@ bitCapInt QEngineCPU::IndexedLDA(bitLenInt indexStart, bitLenInt indexLength, bi
         throw std::invalid_argument("QEngineCPU::IndexedLDA range is out-of-bounds!");
     }
 
+    Finish();
+
     if (!stateVec) {
         return ZERO_BCI;
     }
@@ -968,6 +996,8 @@ bitCapInt QEngineCPU::IndexedADC(bitLenInt indexStart, bitLenInt indexLength, bi
         throw std::invalid_argument("QEngineCPU::IndexedADC carryIndex is out-of-bounds!");
     }
 
+    Finish();
+
     if (!stateVec) {
         return ZERO_BCI;
     }
@@ -1083,6 +1113,8 @@ bitCapInt QEngineCPU::IndexedSBC(bitLenInt indexStart, bitLenInt indexLength, bi
         throw std::invalid_argument("QEngineCPU::IndexedSBC carryIndex is out-of-bounds!");
     }
 
+    Finish();
+
     if (!stateVec) {
         return ZERO_BCI;
     }
@@ -1193,6 +1225,8 @@ void QEngineCPU::Hash(bitLenInt start, bitLenInt length, const unsigned char* va
         throw std::invalid_argument("QEngineCPU::Hash range is out-of-bounds!");
     }
 
+    Finish();
+
     CHECK_ZERO_SKIP();
 
     const bitLenInt bytes = (length + 7U) >> 3U;
@@ -1243,6 +1277,8 @@ void QEngineCPU::FullAdd(bitLenInt inputBit1, bitLenInt inputBit2, bitLenInt car
         throw std::invalid_argument("QEngineCPU::FullAdd carryOut is out-of-bounds!");
     }
 
+    Finish();
+
     CHECK_ZERO_SKIP();
 
     const bitCapIntOcl input1Mask = pow2Ocl(inputBit1);
@@ -1327,6 +1363,8 @@ void QEngineCPU::IFullAdd(bitLenInt inputBit1, bitLenInt inputBit2, bitLenInt ca
         throw std::invalid_argument("QEngineCPU::IFullAdd carryOut is out-of-bounds!");
     }
 
+    Finish();
+
     CHECK_ZERO_SKIP();
 
     const bitCapIntOcl input1Mask = pow2Ocl(inputBit1);
@@ -1404,9 +1442,9 @@ void QEngineCPU::CPhaseFlipIfLess(const bitCapInt& greaterPerm, bitLenInt start,
         throw std::invalid_argument("QEngineCPU::CPhaseFlipIfLess flagIndex is out-of-bounds!");
     }
 
-    CHECK_ZERO_SKIP();
-
     Dispatch(maxQPowerOcl, [this, greaterPerm, start, length, flagIndex] {
+        CHECK_ZERO_SKIP();
+
         const bitCapIntOcl regMask = bitRegMaskOcl(start, length);
         const bitCapIntOcl flagMask = pow2Ocl(flagIndex);
         const bitCapIntOcl greaterPermOcl = (bitCapIntOcl)greaterPerm;
@@ -1425,9 +1463,9 @@ void QEngineCPU::PhaseFlipIfLess(const bitCapInt& greaterPerm, bitLenInt start,
         throw std::invalid_argument("QEngineCPU::CPhaseFlipIfLess range is out-of-bounds!");
     }
 
-    CHECK_ZERO_SKIP();
-
     Dispatch(maxQPowerOcl, [this, greaterPerm, start, length] {
+        CHECK_ZERO_SKIP();
+
         const bitCapIntOcl regMask = bitRegMaskOcl(start, length);
         const bitCapIntOcl greaterPermOcl = (bitCapIntOcl)greaterPerm;
 
diff --git a/src/qengine/state.cpp b/src/qengine/state.cpp
index 235912b..df48de3 100644
--- a/src/qengine/state.cpp
+++ b/src/qengine/state.cpp
@@ -78,13 +78,13 @@ void QEngineCPU::SetAmplitudePage(const complex* pagePtr, bitCapIntOcl offset, b
         throw std::invalid_argument("QEngineCPU::SetAmplitudePage range is out-of-bounds!");
     }
 
+    Finish();
+
     if (!stateVec) {
         ResetStateVec(AllocStateVec(maxQPowerOcl));
         stateVec->clear();
     }
 
-    Finish();
-
     stateVec->copy_in(pagePtr, offset, length);
 
     if (doNormalize) {
@@ -104,6 +104,9 @@ void QEngineCPU::SetAmplitudePage(
         throw std::invalid_argument("QEngineCPU::SetAmplitudePage source range is out-of-bounds!");
     }
 
+    Finish();
+    pageEngineCpuPtr->Finish();
+
     StateVectorPtr oStateVec = pageEngineCpuPtr->stateVec;
 
     if (!stateVec && !oStateVec) {
@@ -119,9 +122,6 @@ void QEngineCPU::SetAmplitudePage(
         stateVec->clear();
     }
 
-    Finish();
-    pageEngineCpuPtr->Finish();
-
     stateVec->copy_in(oStateVec, srcOffset, dstOffset, length);
 
     runningNorm = REAL1_DEFAULT_ARG;
@@ -134,6 +134,9 @@ void QEngineCPU::ShuffleBuffers(QEnginePtr engine)
 
     QEngineCPUPtr engineCpu = std::dynamic_pointer_cast<QEngineCPU>(engine);
 
+    Finish();
+    engineCpu->Finish();
+
     if (!stateVec && !(engineCpu->stateVec)) {
         return;
     }
@@ -148,9 +151,6 @@ void QEngineCPU::ShuffleBuffers(QEnginePtr engine)
         engineCpu->stateVec->clear();
     }
 
-    Finish();
-    engineCpu->Finish();
-
     stateVec->shuffle(engineCpu->stateVec);
 
     runningNorm = REAL1_DEFAULT_ARG;
@@ -167,9 +167,9 @@ void QEngineCPU::CopyStateVec(QEnginePtr src)
         return ZeroAmplitudes();
     }
 
-    if (stateVec) {
-        Dump();
-    } else {
+    Dump();
+
+    if (!stateVec) {
         ResetStateVec(AllocStateVec(maxQPowerOcl));
     }
 
@@ -207,15 +207,15 @@ void QEngineCPU::SetAmplitude(const bitCapInt& perm, const complex& amp)
         return;
     }
 
-    if (runningNorm != REAL1_DEFAULT_ARG) {
-        runningNorm += norm(amp) - norm(stateVec->read((bitCapIntOcl)perm));
-    }
-
     if (!stateVec) {
         ResetStateVec(AllocStateVec(maxQPowerOcl));
         stateVec->clear();
     }
 
+    if (runningNorm != REAL1_DEFAULT_ARG) {
+        runningNorm += norm(amp) - norm(stateVec->read((bitCapIntOcl)perm));
+    }
+
     stateVec->write((bitCapIntOcl)perm, amp);
 }
 
@@ -262,32 +262,32 @@ void QEngineCPU::SetQuantumState(const complex* inputState)
 /// Get pure quantum state, in unsigned int permutation basis
 void QEngineCPU::GetQuantumState(complex* outputState)
 {
-    if (!stateVec) {
-        return par_for(
-            0, maxQPowerOcl, [&](const bitCapIntOcl& lcv, const unsigned& cpu) { outputState[lcv] = ZERO_CMPLX; });
-    }
-
     if (doNormalize) {
         NormalizeState();
     }
     Finish();
 
+    if (!stateVec) {
+        return par_for(
+            0, maxQPowerOcl, [&](const bitCapIntOcl& lcv, const unsigned& cpu) { outputState[lcv] = ZERO_CMPLX; });
+    }
+
     stateVec->copy_out(outputState);
 }
 
 /// Get all probabilities, in unsigned int permutation basis
 void QEngineCPU::GetProbs(real1* outputProbs)
 {
-    if (!stateVec) {
-        return par_for(
-            0, maxQPowerOcl, [&](const bitCapIntOcl& lcv, const unsigned& cpu) { outputProbs[lcv] = ZERO_R1; });
-    }
-
     if (doNormalize) {
         NormalizeState();
     }
     Finish();
 
+    if (!stateVec) {
+        return par_for(
+            0, maxQPowerOcl, [&](const bitCapIntOcl& lcv, const unsigned& cpu) { outputProbs[lcv] = ZERO_R1; });
+    }
+
     stateVec->get_probs(outputProbs);
 }
 
@@ -333,8 +333,6 @@ void QEngineCPU::GetProbs(real1* outputProbs)
 void QEngineCPU::Apply2x2(bitCapIntOcl offset1, bitCapIntOcl offset2, const complex* matrix, const bitLenInt bitCount,
     const bitCapIntOcl* qPowsSorted, bool doCalcNorm, real1_f nrm_thresh)
 {
-    CHECK_ZERO_SKIP();
-
     if ((offset1 >= maxQPowerOcl) || (offset2 >= maxQPowerOcl)) {
         throw std::invalid_argument(
             "QEngineCPU::Apply2x2 offset1 and offset2 parameters must be within allocated qubit bounds!");
@@ -356,17 +354,17 @@ void QEngineCPU::Apply2x2(bitCapIntOcl offset1, bitCapIntOcl offset2, const comp
 
     const std::vector<bitCapIntOcl> qPowersSorted(qPowsSorted, qPowsSorted + bitCount);
 
-    const bool doApplyNorm = doNormalize && (bitCount == 1U) && (runningNorm > ZERO_R1);
-    doCalcNorm &= doApplyNorm || (runningNorm <= ZERO_R1);
+    const bool isUpdateNorm = doCalcNorm;
 
-    const real1 nrm = doApplyNorm ? ONE_R1 / (real1)sqrt(runningNorm) : ONE_R1;
+    Dispatch(maxQPowerOcl >> bitCount,
+        [this, mtrxS, qPowersSorted, offset1, offset2, bitCount, isUpdateNorm, nrm_thresh] {
+            CHECK_ZERO_SKIP();
 
-    if (doCalcNorm) {
-        runningNorm = ONE_R1;
-    }
+            // The running norm belongs to the operations queued so far.
+            const bool doApplyNorm = isUpdateNorm && doNormalize && (bitCount == 1U) && (runningNorm > ZERO_R1);
+            const bool doCalcNorm = isUpdateNorm && (doApplyNorm || (runningNorm <= ZERO_R1));
+            const real1 nrm = doApplyNorm ? ONE_R1 / (real1)sqrt(runningNorm) : ONE_R1;
 
-    Dispatch(maxQPowerOcl >> bitCount,
-        [this, mtrxS, qPowersSorted, offset1, offset2, doCalcNorm, doApplyNorm, nrm, nrm_thresh] {
             complex* mtrx = mtrxS.get();
 
             const real1_f norm_thresh = (nrm_thresh < ZERO_R1) ? amplitudeFloor : nrm_thresh;
@@ -463,7 +461,9 @@ void QEngineCPU::Apply2x2(bitCapIntOcl offset1, bitCapIntOcl offset2, const comp
             runningNorm = rNrm;
 
             if (runningNorm <= FP_NORM_EPSILON) {
-                ZeroAmplitudes();
+                // (Queued operations that follow have nothing left to act on.)
+                FreeStateVec();
+                runningNorm = ZERO_R1;
             }
         });
 }
@@ -513,8 +513,6 @@ void QEngineCPU::Apply2x2(bitCapIntOcl offset1, bitCapIntOcl offset2, const comp
 void QEngineCPU::Apply2x2(bitCapIntOcl offset1, bitCapIntOcl offset2, const complex* matrix, const bitLenInt bitCount,
     const bitCapIntOcl* qPowsSorted, bool doCalcNorm, real1_f nrm_thresh)
 {
-    CHECK_ZERO_SKIP();
-
     if ((offset1 >= maxQPowerOcl) || (offset2 >= maxQPowerOcl)) {
         throw std::invalid_argument(
             "QEngineCPU::Apply2x2 offset1 and offset2 parameters must be within allocated qubit bounds!");
@@ -536,17 +534,17 @@ void QEngineCPU::Apply2x2(bitCapIntOcl offset1, bitCapIntOcl offset2, const comp
 
     const std::vector<bitCapIntOcl> qPowersSorted(qPowsSorted, qPowsSorted + bitCount);
 
-    const bool doApplyNorm = doNormalize && (bitCount == 1U) && (runningNorm > ZERO_R1);
-    doCalcNorm &= doApplyNorm || (runningNorm <= ZERO_R1);
+    const bool isUpdateNorm = doCalcNorm;
 
-    const real1 nrm = doApplyNorm ? ONE_R1 / (real1)sqrt(runningNorm) : ONE_R1;
+    Dispatch(maxQPowerOcl >> bitCount,
+        [this, mtrxS, qPowersSorted, offset1, offset2, bitCount, isUpdateNorm, nrm_thresh] {
+            CHECK_ZERO_SKIP();
 
-    if (doCalcNorm) {
-        runningNorm = ONE_R1;
-    }
+            // The running norm belongs to the operations queued so far.
+            const bool doApplyNorm = isUpdateNorm && doNormalize && (bitCount == 1U) && (runningNorm > ZERO_R1);
+            const bool doCalcNorm = isUpdateNorm && (doApplyNorm || (runningNorm <= ZERO_R1));
+            const real1 nrm = doApplyNorm ? ONE_R1 / (real1)sqrt(runningNorm) : ONE_R1;
 
-    Dispatch(maxQPowerOcl >> bitCount,
-        [this, mtrxS, qPowersSorted, offset1, offset2, doCalcNorm, doApplyNorm, nrm, nrm_thresh] {
             complex* mtrx = mtrxS.get();
             const complex mtrx0 = mtrx[0U];
             const complex mtrx1 = mtrx[1U];
@@ -635,7 +633,9 @@ void QEngineCPU::Apply2x2(bitCapIntOcl offset1, bitCapIntOcl offset2, const comp
             runningNorm = rNrm;
 
             if (runningNorm <= FP_NORM_EPSILON) {
-                ZeroAmplitudes();
+                // (Queued operations that follow have nothing left to act on.)
+                FreeStateVec();
+                runningNorm = ZERO_R1;
             }
         });
 }
@@ -647,8 +647,6 @@ void QEngineCPU::XMask(const bitCapInt& mask)
         throw std::invalid_argument("QEngineCPU::XMask mask out-of-bounds!");
     }
 
-    CHECK_ZERO_SKIP();
-
     if (bi_compare_0(mask) == 0) {
         return;
     }
@@ -658,6 +656,8 @@ void QEngineCPU::XMask(const bitCapInt& mask)
     }
 
     Dispatch(maxQPowerOcl, [this, mask] {
+        CHECK_ZERO_SKIP();
+
         const bitCapIntOcl maskOcl = (bitCapIntOcl)mask;
         const bitCapIntOcl otherMask = (maxQPowerOcl - 1U) ^ maskOcl;
         ParallelFunc fn = [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
@@ -687,8 +687,6 @@ void QEngineCPU::PhaseParity(real1_f radians, const bitCapInt& mask)
         throw std::invalid_argument("QEngineCPU::PhaseParity mask out-of-bounds!");
     }
 
-    CHECK_ZERO_SKIP();
-
     if (bi_compare_0(mask) == 0) {
         return;
     }
@@ -699,6 +697,8 @@ void QEngineCPU::PhaseParity(real1_f radians, const bitCapInt& mask)
     }
 
     Dispatch(maxQPowerOcl, [this, mask, radians] {
+        CHECK_ZERO_SKIP();
+
         const bitCapIntOcl parityStartSize = 4U * sizeof(bitCapIntOcl);
         const real1 angle = (real1)(radians / 2);
         const real1 cosine = (real1)cos(angle);
@@ -730,8 +730,6 @@ void QEngineCPU::PhaseRootNMask(bitLenInt n, const bitCapInt& mask)
         throw std::invalid_argument("QEngineCPU::PhaseRootNMask mask out-of-bounds!");
     }
 
-    CHECK_ZERO_SKIP();
-
     if (!n || (bi_compare_0(mask) == 0)) {
         return;
     }
@@ -747,6 +745,8 @@ void QEngineCPU::PhaseRootNMask(bitLenInt n, const bitCapInt& mask)
     }
 
     Dispatch(maxQPowerOcl, [this, n, mask, radians] {
+        CHECK_ZERO_SKIP();
+
         const bitCapIntOcl maskOcl = (bitCapIntOcl)mask;
         const bitCapIntOcl nPhases = pow2Ocl(n);
         par_for(0U, maxQPowerOcl, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
@@ -761,6 +761,8 @@ void QEngineCPU::PhaseRootNMask(bitLenInt n, const bitCapInt& mask)
 void QEngineCPU::UniformlyControlledSingleBit(const std::vector<bitLenInt>& controls, bitLenInt qubitIndex,
     const complex* mtrxs, const std::vector<bitCapInt>& mtrxSkipPowers, const bitCapInt& mtrxSkipValueMask)
 {
+    Finish();
+
     CHECK_ZERO_SKIP();
 
     // If there are no controls, the base case should be the non-controlled single bit gate.
@@ -854,8 +856,6 @@ void QEngineCPU::UniformlyControlledSingleBit(const std::vector<bitLenInt>& cont
         };
     }
 
-    Finish();
-
     par_for_skip(0U, maxQPowerOcl, targetPower, 1U, fn);
 
     if (doNormalize) {
@@ -869,9 +869,9 @@ void QEngineCPU::UniformParityRZ(const bitCapInt& mask, real1_f angle)
         throw std::invalid_argument("QEngineCPU::UniformParityRZ mask out-of-bounds!");
     }
 
-    CHECK_ZERO_SKIP();
-
     Dispatch(maxQPowerOcl, [this, mask, angle] {
+        CHECK_ZERO_SKIP();
+
         const real1 cosine = (real1)cos(angle);
         const real1 sine = (real1)sin(angle);
         const complex phaseFac(cosine, sine);
@@ -895,12 +895,12 @@ void QEngineCPU::CUniformParityRZ(const std::vector<bitLenInt>& cControls, const
 
     ThrowIfQbIdArrayIsBad(cControls, qubitCount, "QEngineCPU::CUniformParityRZ control is out-of-bounds!");
 
-    CHECK_ZERO_SKIP();
-
     std::vector<bitLenInt> controls(cControls.begin(), cControls.end());
     std::sort(controls.begin(), controls.end());
 
     Dispatch(maxQPowerOcl >> cControls.size(), [this, controls, mask, angle] {
+        CHECK_ZERO_SKIP();
+
         bitCapIntOcl controlMask = 0U;
         std::vector<bitCapIntOcl> controlPowers(controls.size());
         for (size_t i = 0U; i < controls.size(); ++i) {
@@ -958,6 +958,9 @@ bitLenInt QEngineCPU::Compose(QEngineCPUPtr toCopy)
         return qubitCount;
     }
 
+    Finish();
+    toCopy->Finish();
+
     if (!stateVec || !toCopy->stateVec) {
         // Compose will have a wider but 0 stateVec
         ZeroAmplitudes();
@@ -1020,6 +1023,9 @@ bitLenInt QEngineCPU::Compose(QEngineCPUPtr toCopy, bitLenInt start)
             "Cannot instantiate a QEngineCPU with greater capacity than environment variable QRACK_MAX_CPU_QB.");
     }
 
+    Finish();
+    toCopy->Finish();
+
     if (!stateVec || !toCopy->stateVec) {
         // Compose will have a wider but 0 stateVec
         ZeroAmplitudes();
@@ -1289,6 +1295,11 @@ void QEngineCPU::Dispose(bitLenInt start, bitLenInt length, const bitCapInt& dis
 
     const bitLenInt nLength = qubitCount - length;
 
+    if (doNormalize) {
+        NormalizeState();
+    }
+    Finish();
+
     if (!stateVec) {
         return SetQubitCount(nLength);
     }
@@ -1298,11 +1309,6 @@ void QEngineCPU::Dispose(bitLenInt start, bitLenInt length, const bitCapInt& dis
     const bitCapIntOcl skipMask = pow2Ocl(start) - 1U;
     const bitCapIntOcl disposedRes = disposedPermOcl << (bitCapIntOcl)start;
 
-    if (doNormalize) {
-        NormalizeState();
-    }
-    Finish();
-
     StateVectorPtr nStateVec = AllocStateVec(remainderPower);
 
     par_for(0U, remainderPower, [&](const bitCapIntOcl& iHigh, const unsigned& cpu) {
@@ -1384,6 +1390,8 @@ real1_f QEngineCPU::Prob(bitLenInt qubit)
 /// "controlState".
 real1_f QEngineCPU::CtrlOrAntiProb(bool controlState, bitLenInt control, bitLenInt target)
 {
+    Finish();
+
     if (!stateVec) {
         return ZERO_R1_F;
     }
@@ -1660,9 +1668,9 @@ real1_f QEngineCPU::SumSqrDiff(QEngineCPUPtr toCompare)
 
 void QEngineCPU::ApplyM(const bitCapInt& regMask, const bitCapInt& result, const complex& nrm)
 {
-    CHECK_ZERO_SKIP();
-
     Dispatch(maxQPowerOcl, [this, regMask, result, nrm] {
+        CHECK_ZERO_SKIP();
+
         const bitCapIntOcl regMaskOcl = (bitCapIntOcl)regMask;
         const bitCapIntOcl resultOcl = (bitCapIntOcl)result;
 
@@ -1680,6 +1688,8 @@ void QEngineCPU::ApplyM(const bitCapInt& regMask, const bitCapInt& result, const
 
 void QEngineCPU::NormalizeState(real1_f nrm_f, real1_f norm_thresh_f, real1_f phaseArg)
 {
+    Finish();
+
     CHECK_ZERO_SKIP();
 
     if ((runningNorm == REAL1_DEFAULT_ARG) && (nrm_f == REAL1_DEFAULT_ARG)) {
@@ -1690,12 +1700,9 @@ void QEngineCPU::NormalizeState(real1_f nrm_f, real1_f norm_thresh_f, real1_f ph
     real1 norm_thresh = (real1)norm_thresh_f;
 
     if (nrm < ZERO_R1) {
-        // runningNorm can be set by OpenCL queue pop, so finish first.
-        Finish();
         nrm = runningNorm;
     }
 
-    // We might avoid the clFinish().
     if (nrm <= FP_NORM_EPSILON) {
         return ZeroAmplitudes();
     }
@@ -1704,9 +1711,6 @@ void QEngineCPU::NormalizeState(real1_f nrm_f, real1_f norm_thresh_f, real1_f ph
         return;
     }
 
-    // We might have async execution of gates still happening.
-    Finish();
-
     if (norm_thresh < ZERO_R1) {
         norm_thresh = amplitudeFloor;
     }
diff --git a/src/qengine/utility.cpp b/src/qengine/utility.cpp
index de8db83..3593b2c 100644
--- a/src/qengine/utility.cpp
+++ b/src/qengine/utility.cpp
@@ -16,6 +16,8 @@ namespace Qrack {
 
 QInterfacePtr QEngineCPU::Clone()
 {
+    Finish();
+
     if (!stateVec) {
         return CloneEmpty();
     }
@@ -23,7 +25,6 @@ QInterfacePtr QEngineCPU::Clone()
     QEngineCPUPtr clone = std::make_shared<QEngineCPU>(qubitCount, ZERO_BCI, rand_generator, ONE_CMPLX, doNormalize,
         randGlobalPhase, false, -1, !hardware_rand_generator ? false : true, false, (real1_f)amplitudeFloor);
 
-    Finish();
     clone->Finish();
     clone->runningNorm = runningNorm;
     clone->stateVec->copy(stateVec);
@@ -67,6 +68,12 @@ bitLenInt QEngineCPU::Allocate(bitLenInt start, bitLenInt length)
 
 real1_f QEngineCPU::GetExpectation(bitLenInt valueStart, bitLenInt valueLength)
 {
+    Finish();
+
+    if (!stateVec) {
+        return ZERO_R1_F;
+    }
+
     const bitCapIntOcl outputMask = bitRegMaskOcl(valueStart, valueLength);
     real1 average = ZERO_R1;
     real1 totProb = ZERO_R1;
-- 
2.43.0


From d692b4fea76dc585f043812a02d3d2d6f47a90b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:03 +0000
Subject: [PATCH 12/70] fix: a parity measurement leaves a normalized state,
 and uniformly controlled gates apply a pending normalization

---
 src/qengine/state.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/qengine/state.cpp b/src/qengine/state.cpp
index df48de3..c9b89b9 100644
--- a/src/qengine/state.cpp
+++ b/src/qengine/state.cpp
@@ -790,7 +790,7 @@ void QEngineCPU::UniformlyControlledSingleBit(const std::vector<bitLenInt>& cont
     const real1 nrm = (runningNorm > ZERO_R1) ? ONE_R1 / (real1)sqrt(runningNorm) : ONE_R1;
 
     ParallelFunc fn;
-    if (doNormalize && ((ONE_R1 - nrm) > FP_NORM_EPSILON)) {
+    if (doNormalize && (abs(ONE_R1 - nrm) > FP_NORM_EPSILON)) {
         fn = [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
             bitCapIntOcl offset = 0U;
             for (size_t j = 0U; j < controls.size(); ++j) {
@@ -1568,16 +1568,17 @@ bool QEngineCPU::ForceMParity(const bitCapInt& mask, bool result, bool doForce)
         throw std::invalid_argument("QEngineCPU::ForceMParity mask out-of-bounds!");
     }
 
+    Finish();
+
     if (!stateVec || (bi_compare_0(mask) == 0)) {
         return false;
     }
 
     if (!doForce) {
-        result = (Rand() < ProbParity(mask));
+        const real1_f oddProb = ProbParity(mask);
+        result = (oddProb >= ONE_R1_F) || (Rand() < oddProb);
     }
 
-    Finish();
-
     real1 oddChance = ZERO_R1;
 
     const unsigned numCores = GetConcurrencyLevel();
@@ -1600,10 +1601,7 @@ bool QEngineCPU::ForceMParity(const bitCapInt& mask, bool result, bool doForce)
     oddChanceBuff.reset();
 
     runningNorm = oddChance;
-
-    if (!doNormalize) {
-        NormalizeState();
-    }
+    NormalizeState();
 
     return result;
 }
-- 
2.43.0


From ea57c2a448f48fb2443912906ce77799744d56aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:03 +0000
Subject: [PATCH 13/70] fix: Decompose reads relative phases independently of
 phase wrapping and does not race on its accumulators

---
 src/qengine/state.cpp | 122 ++++++++++++++++++------------------------
 1 file changed, 51 insertions(+), 71 deletions(-)

diff --git a/src/qengine/state.cpp b/src/qengine/state.cpp
index c9b89b9..44bf58a 100644
--- a/src/qengine/state.cpp
+++ b/src/qengine/state.cpp
@@ -1138,6 +1138,11 @@ void QEngineCPU::DecomposeDispose(bitLenInt start, bitLenInt length, QEngineCPUP
 
     const bitLenInt nLength = qubitCount - length;
 
+    if (doNormalize) {
+        NormalizeState();
+    }
+    Finish();
+
     if (!stateVec) {
         SetQubitCount(nLength);
         if (destination) {
@@ -1149,6 +1154,7 @@ void QEngineCPU::DecomposeDispose(bitLenInt start, bitLenInt length, QEngineCPUP
 
     if (!nLength) {
         if (destination) {
+            destination->Dump();
             destination->stateVec = stateVec;
         }
         stateVec = nullptr;
@@ -1156,6 +1162,10 @@ void QEngineCPU::DecomposeDispose(bitLenInt start, bitLenInt length, QEngineCPUP
         return SetQubitCount(0U);
     }
 
+    if (destination) {
+        destination->Dump();
+    }
+
     if (destination && !destination->stateVec) {
         // Reinitialize stateVec RAM
         destination->SetPermutation(ZERO_BCI);
@@ -1174,87 +1184,57 @@ void QEngineCPU::DecomposeDispose(bitLenInt start, bitLenInt length, QEngineCPUP
         partStateAngle = std::unique_ptr<real1[]>(new real1[partPower]());
     }
 
-    if (doNormalize) {
-        NormalizeState();
-    }
-    Finish();
-
-    if (destination) {
-        par_for(0U, remainderPower, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
-            bitCapIntOcl j = lcv & pow2MaskOcl(start);
-            j |= (lcv ^ j) << length;
-
-            for (bitCapIntOcl k = 0U; k < partPower; ++k) {
-                const complex amp = stateVec->read(j | (k << start));
-                const real1 nrm = norm(amp);
-                remainderStateProb[lcv] += nrm;
-                if (nrm > amplitudeFloor) {
-                    partStateAngle[k] += arg(amp) * nrm;
-                }
-            }
-        });
-        par_for(0U, partPower, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
-            const bitCapIntOcl startMask = pow2MaskOcl(start);
-            const bitCapIntOcl j = lcv << start;
-
-            for (bitCapIntOcl k = 0U; k < remainderPower; ++k) {
-                bitCapIntOcl l = k & startMask;
-                l |= j | ((k ^ l) << length);
-
-                const complex amp = stateVec->read(l);
-                const real1 nrm = norm(amp);
-                partStateProb[lcv] += nrm;
-                if (nrm > amplitudeFloor) {
-                    remainderStateAngle[k] += arg(amp) * nrm;
-                }
-            }
+    const bitCapIntOcl startMask = pow2MaskOcl(start);
+    const auto fullIndex = [&](const bitCapIntOcl& r, const bitCapIntOcl& k) {
+        const bitCapIntOcl low = r & startMask;
+        return low | (k << start) | ((r ^ low) << length);
+    };
 
-            const real1 prob = partStateProb[lcv];
-            if (prob > amplitudeFloor) {
-                partStateAngle[lcv] /= prob;
-            }
-        });
-        par_for(0U, remainderPower, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
-            const real1 prob = remainderStateProb[lcv];
-            if (prob > amplitudeFloor) {
-                remainderStateAngle[lcv] /= prob;
-            }
-        });
-    } else {
-        par_for(0U, remainderPower, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
-            bitCapIntOcl j = lcv & pow2MaskOcl(start);
-            j |= (lcv ^ j) << length;
+    par_for(0U, remainderPower, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
+        for (bitCapIntOcl k = 0U; k < partPower; ++k) {
+            remainderStateProb[lcv] += norm(stateVec->read(fullIndex(lcv, k)));
+        }
+    });
 
-            for (bitCapIntOcl k = 0U; k < partPower; ++k) {
-                remainderStateProb[lcv] += norm(stateVec->read(j | (k << start)));
-            }
-        });
-        par_for(0U, partPower, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
-            const bitCapIntOcl startMask = pow2MaskOcl(start);
-            const bitCapIntOcl j = lcv << start;
+    // Phases of the two factors are read relative to the row and the column of the (most) probable amplitude, so they
+    // do not depend on how each individual phase wraps around.
+    bitCapIntOcl maxR = 0U;
+    for (bitCapIntOcl r = 1U; r < remainderPower; ++r) {
+        if (remainderStateProb[r] > remainderStateProb[maxR]) {
+            maxR = r;
+        }
+    }
+    bitCapIntOcl maxK = 0U;
+    real1 maxNrm = norm(stateVec->read(fullIndex(maxR, 0U)));
+    for (bitCapIntOcl k = 1U; k < partPower; ++k) {
+        const real1 nrm = norm(stateVec->read(fullIndex(maxR, k)));
+        if (nrm > maxNrm) {
+            maxK = k;
+            maxNrm = nrm;
+        }
+    }
+    const real1 maxAngle = arg(stateVec->read(fullIndex(maxR, maxK)));
 
-            for (bitCapIntOcl k = 0U; k < remainderPower; ++k) {
-                bitCapIntOcl l = k & startMask;
-                l |= j | ((k ^ l) << length);
+    par_for(0U, remainderPower, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
+        const complex amp = stateVec->read(fullIndex(lcv, maxK));
+        if (norm(amp) > amplitudeFloor) {
+            remainderStateAngle[lcv] = destination ? (arg(amp) - maxAngle) : arg(amp);
+        }
+    });
 
-                const complex amp = stateVec->read(l);
-                const real1 nrm = norm(amp);
-                if (nrm > amplitudeFloor) {
-                    remainderStateAngle[k] += arg(amp) * nrm;
-                }
+    if (destination) {
+        par_for(0U, partPower, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
+            for (bitCapIntOcl r = 0U; r < remainderPower; ++r) {
+                partStateProb[lcv] += norm(stateVec->read(fullIndex(r, lcv)));
             }
-        });
-        par_for(0U, remainderPower, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
-            const real1 prob = remainderStateProb[lcv];
-            if (prob > amplitudeFloor) {
-                remainderStateAngle[lcv] /= prob;
+            const complex amp = stateVec->read(fullIndex(maxR, lcv));
+            if (norm(amp) > amplitudeFloor) {
+                partStateAngle[lcv] = arg(amp);
             }
         });
     }
 
     if (destination) {
-        destination->Dump();
-
         par_for(0U, partPower, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
             destination->stateVec->write(
                 lcv, std::polar((real1)std::sqrt((real1_s)partStateProb[lcv]), partStateAngle[lcv]));
-- 
2.43.0


From 6dbb25dfd2defa8d531156727fb770535abfe2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:00 +0000
Subject: [PATCH 14/70] fix: engine copies wait for the queue, and modified
 copies do not share their storage

---
 include/qengine_cpu.hpp       | 1 +
 src/qengine/utility.cpp       | 4 ++++
 src/qinterface/qinterface.cpp | 4 ++--
 src/qunit.cpp                 | 5 +++--
 4 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/qengine_cpu.hpp b/include/qengine_cpu.hpp
index c8946a5..a32830e 100644
--- a/include/qengine_cpu.hpp
+++ b/include/qengine_cpu.hpp
@@ -44,6 +44,7 @@ protected:
     void Copy(QInterfacePtr orig) { Copy(std::dynamic_pointer_cast<QEngineCPU>(orig)); }
     void Copy(QEngineCPUPtr orig)
     {
+        Dump();
         QEngine::Copy(std::dynamic_pointer_cast<QEngine>(orig));
         stateVec = orig->stateVec;
     }
diff --git a/src/qengine/utility.cpp b/src/qengine/utility.cpp
index 3593b2c..c8d7e04 100644
--- a/src/qengine/utility.cpp
+++ b/src/qengine/utility.cpp
@@ -44,7 +44,11 @@ QEnginePtr QEngineCPU::CloneEmpty()
 
 QInterfacePtr QEngineCPU::Copy()
 {
+    // (Operations still in the queue could replace or write the state vector.)
+    Finish();
+
     QEngineCPUPtr clone = std::dynamic_pointer_cast<QEngineCPU>(CloneEmpty());
+    clone->runningNorm = runningNorm;
     clone->stateVec = stateVec;
 
     return clone;
diff --git a/src/qinterface/qinterface.cpp b/src/qinterface/qinterface.cpp
index 977a590..4db0ed7 100644
--- a/src/qinterface/qinterface.cpp
+++ b/src/qinterface/qinterface.cpp
@@ -836,9 +836,9 @@ bool QInterface::TryDecompose(bitLenInt start, QInterfacePtr dest, real1_f error
 {
     Finish();
 
-    QInterfacePtr orig = Copy();
+    QInterfacePtr orig = Clone();
     orig->Decompose(start, dest);
-    QInterfacePtr output = orig->Copy();
+    QInterfacePtr output = orig->Clone();
     orig->Compose(dest, start);
 
     const bool didSeparate = ApproxCompare(orig, error_tol);
diff --git a/src/qunit.cpp b/src/qunit.cpp
index a77d95f..c47864f 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -221,7 +221,8 @@ void QUnit::GetQuantumStateOrProbs(complex* outputState, real1* outputProbs)
         OrderContiguous(shards[0U].unit);
         thisCopy = this;
     } else {
-        thisCopyShared = std::dynamic_pointer_cast<QUnit>(Copy());
+        // (The copy is modified, so it must not share storage with this instance.)
+        thisCopyShared = std::dynamic_pointer_cast<QUnit>(Clone());
         thisCopy = thisCopyShared.get();
         thisCopy->EntangleAll();
     }
@@ -307,7 +308,7 @@ bool QUnit::Detach(bitLenInt start, bitLenInt length, QUnitPtr dest, bool isTry,
         }
     }
 
-    const QUnitPtr copy{ isTry ? std::dynamic_pointer_cast<QUnit>(Copy()) : nullptr };
+    const QUnitPtr copy{ isTry ? std::dynamic_pointer_cast<QUnit>(Clone()) : nullptr };
 
     // After ordering all subunits contiguously, since the top level mapping is a contiguous array, all subunit sets are
     // also contiguous. From the lowest index bits, they are mapped simply for the length count of bits involved in the
-- 
2.43.0


From 29c639192682c9ab251eb6528a58091c1a794777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:31 +0000
Subject: [PATCH 15/70] fix: disposing of a whole register with a known value
 leaves no qubits

---
 src/qengine/state.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/qengine/state.cpp b/src/qengine/state.cpp
index 44bf58a..4233802 100644
--- a/src/qengine/state.cpp
+++ b/src/qengine/state.cpp
@@ -1280,7 +1280,9 @@ void QEngineCPU::Dispose(bitLenInt start, bitLenInt length, const bitCapInt& dis
     }
     Finish();
 
-    if (!stateVec) {
+    if (!stateVec || !nLength) {
+        stateVec = nullptr;
+
         return SetQubitCount(nLength);
     }
 
@@ -1296,11 +1298,7 @@ void QEngineCPU::Dispose(bitLenInt start, bitLenInt length, const bitCapInt& dis
         nStateVec->write(iHigh, stateVec->read(iLow | ((iHigh ^ iLow) << (bitCapIntOcl)length) | disposedRes));
     });
 
-    if (!nLength) {
-        SetQubitCount(1U);
-    } else {
-        SetQubitCount(nLength);
-    }
+    SetQubitCount(nLength);
 
     ResetStateVec(nStateVec);
 }
-- 
2.43.0


From 42f57c4c61bbd8fc10afdbebe7f1ea8aff342d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:37 +0000
Subject: [PATCH 16/70] fix: a uniformly controlled gate marked a state of
 unknown norm as normalised

---
 src/qengine/state.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qengine/state.cpp b/src/qengine/state.cpp
index 4233802..11002b0 100644
--- a/src/qengine/state.cpp
+++ b/src/qengine/state.cpp
@@ -858,7 +858,8 @@ void QEngineCPU::UniformlyControlledSingleBit(const std::vector<bitLenInt>& cont
 
     par_for_skip(0U, maxQPowerOcl, targetPower, 1U, fn);
 
-    if (doNormalize) {
+    // (If the norm was not known, it still is not.)
+    if (doNormalize && (runningNorm > ZERO_R1)) {
         runningNorm = ONE_R1;
     }
 }
-- 
2.43.0


From 17825de04ebb9d24103b5e5b614b9712dba8679d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:26 +0000
Subject: [PATCH 17/70] fix: a failed aligned allocation gave a null state
 vector instead of std::bad_alloc

---
 include/statevector.hpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/statevector.hpp b/include/statevector.hpp
index c78b9ee..84303ef 100644
--- a/include/statevector.hpp
+++ b/include/statevector.hpp
@@ -78,7 +78,9 @@ protected:
     complex* _aligned_state_vec_alloc(bitCapIntOcl allocSize)
     {
         void* toRet;
-        posix_memalign(&toRet, QRACK_ALIGN_SIZE, allocSize);
+        if (posix_memalign(&toRet, QRACK_ALIGN_SIZE, allocSize)) {
+            throw std::bad_alloc();
+        }
         return (complex*)toRet;
     }
 #endif
@@ -97,11 +99,17 @@ protected:
         return std::unique_ptr<complex[], void (*)(complex*)>(
             _aligned_state_vec_alloc(allocSize), [](complex* c) { free(c); });
 #elif defined(_WIN32) && !defined(__CYGWIN__)
-        return std::unique_ptr<complex[], void (*)(complex*)>(
-            (complex*)_aligned_malloc(allocSize, QRACK_ALIGN_SIZE), [](complex* c) { _aligned_free(c); });
+        complex* toRet = (complex*)_aligned_malloc(allocSize, QRACK_ALIGN_SIZE);
+        if (!toRet) {
+            throw std::bad_alloc();
+        }
+        return std::unique_ptr<complex[], void (*)(complex*)>(toRet, [](complex* c) { _aligned_free(c); });
 #else
-        return std::unique_ptr<complex[], void (*)(complex*)>(
-            (complex*)aligned_alloc(QRACK_ALIGN_SIZE, allocSize), [](complex* c) { free(c); });
+        complex* toRet = (complex*)aligned_alloc(QRACK_ALIGN_SIZE, allocSize);
+        if (!toRet) {
+            throw std::bad_alloc();
+        }
+        return std::unique_ptr<complex[], void (*)(complex*)>(toRet, [](complex* c) { free(c); });
 #endif
 #endif
     }
-- 
2.43.0


From 93ed931ea8488b8a35caaef2d1d9be90e65b80d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:26 +0000
Subject: [PATCH 18/70] fix: a failed allocation in Compose or Dispose left the
 qubit count and the state vector inconsistent

---
 src/qengine/state.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/qengine/state.cpp b/src/qengine/state.cpp
index 11002b0..063b171 100644
--- a/src/qengine/state.cpp
+++ b/src/qengine/state.cpp
@@ -944,11 +944,12 @@ bitLenInt QEngineCPU::Compose(QEngineCPUPtr toCopy)
 
     if (!qubitCount) {
         Finish();
-        SetQubitCount(toCopy->qubitCount);
         toCopy->Finish();
+        StateVectorPtr nStateVec = toCopy->stateVec ? AllocStateVec(toCopy->maxQPowerOcl) : nullptr;
+        SetQubitCount(toCopy->qubitCount);
         runningNorm = toCopy->runningNorm;
         if (toCopy->stateVec) {
-            stateVec = AllocStateVec(toCopy->maxQPowerOcl);
+            stateVec = nStateVec;
             stateVec->copy(toCopy->stateVec);
         }
 
@@ -1245,13 +1246,15 @@ void QEngineCPU::DecomposeDispose(bitLenInt start, bitLenInt length, QEngineCPUP
         partStateAngle.reset();
     }
 
-    SetQubitCount(nLength);
-
-    ResetStateVec(AllocStateVec(maxQPowerOcl));
+    StateVectorPtr nStateVec = AllocStateVec(remainderPower);
 
     par_for(0U, remainderPower, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
-        stateVec->write(lcv, std::polar((real1)std::sqrt((real1_s)remainderStateProb[lcv]), remainderStateAngle[lcv]));
+        nStateVec->write(lcv, std::polar((real1)std::sqrt((real1_s)remainderStateProb[lcv]), remainderStateAngle[lcv]));
     });
+
+    SetQubitCount(nLength);
+
+    ResetStateVec(nStateVec);
 }
 
 void QEngineCPU::Decompose(bitLenInt start, QInterfacePtr destination)
-- 
2.43.0


From 8906bab84e2e90e1833753fc065d2ffc019ec475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:26 +0000
Subject: [PATCH 19/70] fix: the dispatch queue allocated memory in its
 destructor and terminated the process when that failed

---
 src/common/dispatchqueue.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/common/dispatchqueue.cpp b/src/common/dispatchqueue.cpp
index 75d2546..88d28e1 100644
--- a/src/common/dispatchqueue.cpp
+++ b/src/common/dispatchqueue.cpp
@@ -23,8 +23,10 @@ DispatchQueue::~DispatchQueue()
         return;
     }
 
-    std::queue<DispatchFn> empty;
-    std::swap(q_, empty);
+    // (No allocation: this also runs in destructors.)
+    while (!q_.empty()) {
+        q_.pop();
+    }
     quit_ = true;
 
     lock.unlock();
@@ -62,8 +64,10 @@ void DispatchQueue::dump()
         return;
     }
 
-    std::queue<DispatchFn> empty;
-    std::swap(q_, empty);
+    // (No allocation: this also runs in destructors.)
+    while (!q_.empty()) {
+        q_.pop();
+    }
     if (isRunning_) {
         // The operation in progress still uses the caller's data.
         cvFinished_.wait(lock, [this] { return !isRunning_ || quit_; });
-- 
2.43.0


From 2bb2cb05f4ee2651885b1265537a4d974e38327e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:15 +0000
Subject: [PATCH 20/70] fix: RZ angle of the controlled phase in the default
 FSim gates

---
 include/qinterface.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qinterface.hpp b/include/qinterface.hpp
index 3109f9e..0b63299 100644
--- a/include/qinterface.hpp
+++ b/include/qinterface.hpp
@@ -2412,7 +2412,7 @@ public:
         H(qubit1);
         H(qubit2);
         CNOT(qubit1, qubit2);
-        RZ(2 * theta, qubit2);
+        RZ(theta, qubit2);
         CNOT(qubit1, qubit2);
         H(qubit2);
         H(qubit1);
@@ -2423,7 +2423,7 @@ public:
         H(qubit1);
         H(qubit2);
         CNOT(qubit1, qubit2);
-        RZ(2 * theta, qubit2);
+        RZ(theta, qubit2);
         CNOT(qubit1, qubit2);
         H(qubit2);
         H(qubit1);
-- 
2.43.0


From 4f88a2e4e52c5a8d86299b7bdddd85d7245ddc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:15 +0000
Subject: [PATCH 21/70] fix: default CProb() and ACProb() return conditional
 probabilities

---
 include/qinterface.hpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/include/qinterface.hpp b/include/qinterface.hpp
index 0b63299..8e3692d 100644
--- a/include/qinterface.hpp
+++ b/include/qinterface.hpp
@@ -2462,11 +2462,18 @@ public:
      */
     virtual real1_f CProb(bitLenInt control, bitLenInt target)
     {
+        const real1_f controlProb = Prob(control);
+        if (controlProb <= FP_NORM_EPSILON) {
+            return ZERO_R1_F;
+        }
+
+        const real1_f targetProb = Prob(target);
         AntiCNOT(control, target);
-        const real1_f prob = Prob(target);
+        const real1_f sameProb = Prob(target);
         AntiCNOT(control, target);
 
-        return prob;
+        // ("sameProb" is the probability that both bits are equal.)
+        return clampProb((controlProb + targetProb + sameProb - ONE_R1_F) / (2 * controlProb));
     }
     /**
      * Direct measure of bit probability to be in |1> state, if control bit is |0>.
@@ -2475,11 +2482,19 @@ public:
      */
     virtual real1_f ACProb(bitLenInt control, bitLenInt target)
     {
+        const real1_f controlProb = Prob(control);
+        const real1_f antiControlProb = ONE_R1_F - controlProb;
+        if (antiControlProb <= FP_NORM_EPSILON) {
+            return ZERO_R1_F;
+        }
+
+        const real1_f targetProb = Prob(target);
         CNOT(control, target);
-        const real1_f prob = Prob(target);
+        const real1_f diffProb = Prob(target);
         CNOT(control, target);
 
-        return prob;
+        // ("diffProb" is the probability that the bits are different.)
+        return clampProb((targetProb + diffProb - controlProb) / (2 * antiControlProb));
     }
 
     /**
-- 
2.43.0


From c67c0f6b5e9134cf7425b684db51127bfc6f5aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:15 +0000
Subject: [PATCH 22/70] fix: index arithmetic of the default ProbReg()

---
 src/qinterface/qinterface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinterface/qinterface.cpp b/src/qinterface/qinterface.cpp
index 4db0ed7..85b0773 100644
--- a/src/qinterface/qinterface.cpp
+++ b/src/qinterface/qinterface.cpp
@@ -267,7 +267,7 @@ real1_f QInterface::ProbReg(bitLenInt start, bitLenInt length, const bitCapInt&
     real1 prob = ZERO_R1;
     for (bitCapIntOcl lcv = 0U; lcv < maxLcv; ++lcv) {
         bitCapIntOcl i = lcv & startMask;
-        i |= ((lcv ^ i) | p) << length;
+        i |= ((lcv ^ i) << length) | (p << start);
         prob += ProbAll(i);
     }
 
-- 
2.43.0


From 619a94e04e25d3df06f6e410225a5cc9ddc82aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:15 +0000
Subject: [PATCH 23/70] fix: default MultiShotMeasureMask() shares its
 generator between threads

---
 src/qinterface/qinterface.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/qinterface/qinterface.cpp b/src/qinterface/qinterface.cpp
index 85b0773..803ca26 100644
--- a/src/qinterface/qinterface.cpp
+++ b/src/qinterface/qinterface.cpp
@@ -809,13 +809,11 @@ std::map<bitCapInt, int> QInterface::MultiShotMeasureMask(const std::vector<bitC
         return std::map<bitCapInt, int>();
     }
 
+    // (Clones share this simulator's random number generator, which is not safe for concurrent use.)
     std::map<bitCapInt, int> results;
-    std::mutex resultsMutex;
-    par_for(0U, shots, [&](const bitCapIntOcl& shot, const unsigned& cpu) {
-        const bitCapInt sample = SampleClone(qPowers);
-        std::lock_guard<std::mutex> lock(resultsMutex);
-        ++(results[sample]);
-    });
+    for (unsigned shot = 0U; shot < shots; ++shot) {
+        ++(results[SampleClone(qPowers)]);
+    }
 
     return results;
 }
@@ -827,9 +825,10 @@ void QInterface::MultiShotMeasureMask(
         return;
     }
 
-    par_for(0U, shots, [&](const bitCapIntOcl& shot, const unsigned& cpu) {
-        shotsArray[shot] = (unsigned)(bitCapIntOcl)SampleClone(qPowers);
-    });
+    // (Clones share this simulator's random number generator, which is not safe for concurrent use.)
+    for (unsigned shot = 0U; shot < shots; ++shot) {
+        shotsArray[shot] = (unsigned long long)(bitCapIntOcl)SampleClone(qPowers);
+    }
 }
 
 bool QInterface::TryDecompose(bitLenInt start, QInterfacePtr dest, real1_f error_tol)
-- 
2.43.0


From e85370129aa38317da6e295dd4d88d392a128d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:15 +0000
Subject: [PATCH 24/70] fix: carry bit of the default INCDECC()

---
 src/qinterface/arithmetic.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/qinterface/arithmetic.cpp b/src/qinterface/arithmetic.cpp
index 79fd1bc..ca3559a 100644
--- a/src/qinterface/arithmetic.cpp
+++ b/src/qinterface/arithmetic.cpp
@@ -68,11 +68,16 @@ void QInterface::INCDECC(const bitCapInt& toAdd, bitLenInt start, bitLenInt leng
         }
         X(start + i);
         for (bitLenInt j = 0U; j < (length - i); ++j) {
-            const bitLenInt target = start + (((i + j + 1U) == length) ? carryIndex : ((i + j + 1U) % length));
+            const bitLenInt target = ((i + j + 1U) == length) ? carryIndex : (start + i + j + 1U);
             MACInvert(
                 std::vector<bitLenInt>(bits.begin() + i, bits.begin() + i + j + 1U), ONE_CMPLX, ONE_CMPLX, target);
         }
     }
+
+    if (bi_and_1(toAdd >> length) != 0) {
+        // Adding the modulus carries out.
+        X(carryIndex);
+    }
 }
 
 /** Add integer (without sign, with controls) */
-- 
2.43.0


From 694a07b07d0516ca109b3471fc2ebec067cfe865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:15 +0000
Subject: [PATCH 25/70] fix: carry out when adding exactly the modulus in
 INCDECC() and INCDECSC()

---
 src/qengine/arithmetic.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/qengine/arithmetic.cpp b/src/qengine/arithmetic.cpp
index 842e7c3..31b31b3 100644
--- a/src/qengine/arithmetic.cpp
+++ b/src/qengine/arithmetic.cpp
@@ -179,6 +179,10 @@ void QEngineCPU::INCDECC(const bitCapInt& toMod, bitLenInt inOutStart, bitLenInt
     const bitCapIntOcl toModOcl = (bitCapIntOcl)toMod & lengthMask;
 
     if (!toModOcl) {
+        if ((bitCapIntOcl)toMod & lengthPower) {
+            // Adding exactly the modulus carries out.
+            X(carryIndex);
+        }
         return;
     }
 
@@ -286,6 +290,10 @@ void QEngineCPU::INCDECSC(const bitCapInt& toMod, bitLenInt inOutStart, bitLenIn
     const bitCapIntOcl toModOcl = (bitCapIntOcl)toMod & lengthMask;
 
     if (!toModOcl) {
+        if ((bitCapIntOcl)toMod & lengthPower) {
+            // Adding exactly the modulus carries out.
+            X(carryIndex);
+        }
         return;
     }
 
@@ -345,6 +353,10 @@ void QEngineCPU::INCDECSC(
     const bitCapIntOcl toModOcl = (bitCapIntOcl)toMod & lengthMask;
 
     if (!toModOcl) {
+        if ((bitCapIntOcl)toMod & lengthPower) {
+            // Adding exactly the modulus carries out.
+            X(carryIndex);
+        }
         return;
     }
 
-- 
2.43.0


From bc703beeff94b1b5e58a9c66d950af0d8d13cddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:15 +0000
Subject: [PATCH 26/70] fix: INCS() and DECS() of QBdt and QStabilizerHybrid
 call state vector code

---
 include/qbdt.hpp              |  4 ++--
 include/qstabilizerhybrid.hpp | 10 ++--------
 2 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/include/qbdt.hpp b/include/qbdt.hpp
index 790b39b..cf60a5f 100644
--- a/include/qbdt.hpp
+++ b/include/qbdt.hpp
@@ -471,11 +471,11 @@ public:
     }
     void INCS(const bitCapInt& toAdd, bitLenInt start, bitLenInt length, bitLenInt overflowIndex)
     {
-        QInterface::INCS(toAdd, start, length, overflowIndex);
+        ExecuteAsStateVector([&](QInterfacePtr eng) { eng->INCS(toAdd, start, length, overflowIndex); });
     }
     void DECS(const bitCapInt& toSub, bitLenInt start, bitLenInt length, bitLenInt overflowIndex)
     {
-        QInterface::DECS(toSub, start, length, overflowIndex);
+        ExecuteAsStateVector([&](QInterfacePtr eng) { eng->DECS(toSub, start, length, overflowIndex); });
     }
     void CINC(const bitCapInt& toAdd, bitLenInt inOutStart, bitLenInt length, const std::vector<bitLenInt>& controls)
     {
diff --git a/include/qstabilizerhybrid.hpp b/include/qstabilizerhybrid.hpp
index a3be715..e4a1b7f 100644
--- a/include/qstabilizerhybrid.hpp
+++ b/include/qstabilizerhybrid.hpp
@@ -598,10 +598,7 @@ public:
     }
     void DECS(const bitCapInt& toSub, bitLenInt start, bitLenInt length, bitLenInt overflowIndex)
     {
-        if (stabilizer) {
-            return QInterface::DECS(toSub, start, length, overflowIndex);
-        }
-
+        SwitchToEngine();
         engine->DECS(toSub, start, length, overflowIndex);
     }
     void CINC(const bitCapInt& toAdd, bitLenInt inOutStart, bitLenInt length, const std::vector<bitLenInt>& controls)
@@ -614,10 +611,7 @@ public:
     }
     void INCS(const bitCapInt& toAdd, bitLenInt start, bitLenInt length, bitLenInt overflowIndex)
     {
-        if (stabilizer) {
-            return QInterface::INCS(toAdd, start, length, overflowIndex);
-        }
-
+        SwitchToEngine();
         engine->INCS(toAdd, start, length, overflowIndex);
     }
     void INCDECC(const bitCapInt& toAdd, bitLenInt start, bitLenInt length, bitLenInt carryIndex)
-- 
2.43.0


From cfe78c5d79cc0ed45576ac04d08b74e9447b211e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:15 +0000
Subject: [PATCH 27/70] fix: (C)(I)MULModNOut of QUnit and QBdt for a modulus
 that is no power of two

---
 include/qbdt.hpp  | 26 +++++++++++++++++----
 include/qunit.hpp | 20 ++++-------------
 src/qunit.cpp     | 57 +++++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 83 insertions(+), 20 deletions(-)

diff --git a/include/qbdt.hpp b/include/qbdt.hpp
index cf60a5f..68245e6 100644
--- a/include/qbdt.hpp
+++ b/include/qbdt.hpp
@@ -492,22 +492,40 @@ public:
     void MULModNOut(
         const bitCapInt& toMul, const bitCapInt& modN, bitLenInt inStart, bitLenInt outStart, bitLenInt length)
     {
-        QInterface::MULModNOut(toMul, modN, inStart, outStart, length);
+        if (isPowerOfTwo(modN)) {
+            return QInterface::MULModNOut(toMul, modN, inStart, outStart, length);
+        }
+        ExecuteAsStateVector(
+            [&](QInterfacePtr eng) { QINTERFACE_TO_QALU(eng)->MULModNOut(toMul, modN, inStart, outStart, length); });
     }
     void IMULModNOut(
         const bitCapInt& toMul, const bitCapInt& modN, bitLenInt inStart, bitLenInt outStart, bitLenInt length)
     {
-        QInterface::IMULModNOut(toMul, modN, inStart, outStart, length);
+        if (isPowerOfTwo(modN)) {
+            return QInterface::IMULModNOut(toMul, modN, inStart, outStart, length);
+        }
+        ExecuteAsStateVector(
+            [&](QInterfacePtr eng) { QINTERFACE_TO_QALU(eng)->IMULModNOut(toMul, modN, inStart, outStart, length); });
     }
     void CMULModNOut(const bitCapInt& toMul, const bitCapInt& modN, bitLenInt inStart, bitLenInt outStart,
         bitLenInt length, const std::vector<bitLenInt>& controls)
     {
-        QInterface::CMULModNOut(toMul, modN, inStart, outStart, length, controls);
+        if (isPowerOfTwo(modN)) {
+            return QInterface::CMULModNOut(toMul, modN, inStart, outStart, length, controls);
+        }
+        ExecuteAsStateVector([&](QInterfacePtr eng) {
+            QINTERFACE_TO_QALU(eng)->CMULModNOut(toMul, modN, inStart, outStart, length, controls);
+        });
     }
     void CIMULModNOut(const bitCapInt& toMul, const bitCapInt& modN, bitLenInt inStart, bitLenInt outStart,
         bitLenInt length, const std::vector<bitLenInt>& controls)
     {
-        QInterface::CIMULModNOut(toMul, modN, inStart, outStart, length, controls);
+        if (isPowerOfTwo(modN)) {
+            return QInterface::CIMULModNOut(toMul, modN, inStart, outStart, length, controls);
+        }
+        ExecuteAsStateVector([&](QInterfacePtr eng) {
+            QINTERFACE_TO_QALU(eng)->CIMULModNOut(toMul, modN, inStart, outStart, length, controls);
+        });
     }
     void PhaseFlipIfLess(const bitCapInt& greaterPerm, bitLenInt start, bitLenInt length)
     {
diff --git a/include/qunit.hpp b/include/qunit.hpp
index ee3be55..62508fd 100644
--- a/include/qunit.hpp
+++ b/include/qunit.hpp
@@ -347,25 +347,13 @@ public:
         QInterface::INCDECC(toAdd, start, length, carryIndex);
     }
     virtual void MULModNOut(
-        const bitCapInt& toMul, const bitCapInt& modN, bitLenInt inStart, bitLenInt outStart, bitLenInt length)
-    {
-        QInterface::MULModNOut(toMul, modN, inStart, outStart, length);
-    }
+        const bitCapInt& toMul, const bitCapInt& modN, bitLenInt inStart, bitLenInt outStart, bitLenInt length);
     virtual void IMULModNOut(
-        const bitCapInt& toMul, const bitCapInt& modN, bitLenInt inStart, bitLenInt outStart, bitLenInt length)
-    {
-        QInterface::IMULModNOut(toMul, modN, inStart, outStart, length);
-    }
+        const bitCapInt& toMul, const bitCapInt& modN, bitLenInt inStart, bitLenInt outStart, bitLenInt length);
     virtual void CMULModNOut(const bitCapInt& toMul, const bitCapInt& modN, bitLenInt inStart, bitLenInt outStart,
-        bitLenInt length, const std::vector<bitLenInt>& controls)
-    {
-        QInterface::CMULModNOut(toMul, modN, inStart, outStart, length, controls);
-    }
+        bitLenInt length, const std::vector<bitLenInt>& controls);
     virtual void CIMULModNOut(const bitCapInt& toMul, const bitCapInt& modN, bitLenInt inStart, bitLenInt outStart,
-        bitLenInt length, const std::vector<bitLenInt>& controls)
-    {
-        QInterface::CIMULModNOut(toMul, modN, inStart, outStart, length, controls);
-    }
+        bitLenInt length, const std::vector<bitLenInt>& controls);
 
     virtual void INC(const bitCapInt& toAdd, bitLenInt start, bitLenInt length);
     virtual void CINC(
diff --git a/src/qunit.cpp b/src/qunit.cpp
index c47864f..28f76bd 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -3472,6 +3472,63 @@ void QUnit::CPOWModNOut(const bitCapInt& toMod, const bitCapInt& modN, bitLenInt
     CMULModx(&QAlu::CPOWModNOut, toMod, modN, inStart, outStart, length, controlVec);
 }
 
+void QUnit::MULModNOut(
+    const bitCapInt& toMul, const bitCapInt& modN, bitLenInt inStart, bitLenInt outStart, bitLenInt length)
+{
+    CMULModNOut(toMul, modN, inStart, outStart, length, std::vector<bitLenInt>());
+}
+
+void QUnit::IMULModNOut(
+    const bitCapInt& toMul, const bitCapInt& modN, bitLenInt inStart, bitLenInt outStart, bitLenInt length)
+{
+    CIMULModNOut(toMul, modN, inStart, outStart, length, std::vector<bitLenInt>());
+}
+
+void QUnit::CMULModNOut(const bitCapInt& toMul, const bitCapInt& modN, bitLenInt inStart, bitLenInt outStart,
+    bitLenInt length, const std::vector<bitLenInt>& controls)
+{
+    if (isBadBitRange(inStart, length, qubitCount)) {
+        throw std::invalid_argument("QUnit::CMULModNOut inStart range is out-of-bounds!");
+    }
+
+    if (isBadBitRange(outStart, length, qubitCount)) {
+        throw std::invalid_argument("QUnit::CMULModNOut outStart range is out-of-bounds!");
+    }
+
+    ThrowIfQbIdArrayIsBad(controls, qubitCount,
+        "QUnit::CMULModNOut parameter controls array values must be within allocated qubit bounds!");
+
+    SetReg(outStart, length, ZERO_BCI);
+
+    if (isPowerOfTwo(modN)) {
+        return QInterface::CMULModNOut(toMul, modN, inStart, outStart, length, controls);
+    }
+
+    // The gate-level algorithm does not reduce the accumulated sum for general modulus.
+    CMULModx(&QAlu::CMULModNOut, toMul, modN, inStart, outStart, length, controls);
+}
+
+void QUnit::CIMULModNOut(const bitCapInt& toMul, const bitCapInt& modN, bitLenInt inStart, bitLenInt outStart,
+    bitLenInt length, const std::vector<bitLenInt>& controls)
+{
+    if (isBadBitRange(inStart, length, qubitCount)) {
+        throw std::invalid_argument("QUnit::CIMULModNOut inStart range is out-of-bounds!");
+    }
+
+    if (isBadBitRange(outStart, length, qubitCount)) {
+        throw std::invalid_argument("QUnit::CIMULModNOut outStart range is out-of-bounds!");
+    }
+
+    ThrowIfQbIdArrayIsBad(controls, qubitCount,
+        "QUnit::CIMULModNOut parameter controls array values must be within allocated qubit bounds!");
+
+    if (isPowerOfTwo(modN)) {
+        return QInterface::CIMULModNOut(toMul, modN, inStart, outStart, length, controls);
+    }
+
+    CMULModx(&QAlu::CIMULModNOut, toMul, modN, inStart, outStart, length, controls);
+}
+
 bitCapInt QUnit::GetIndexedEigenstate(bitLenInt indexStart, bitLenInt indexLength, bitLenInt valueStart,
     bitLenInt valueLength, const unsigned char* values)
 {
-- 
2.43.0


From 96e2d291d5d4c769789ae3a658894f1dfa9e5dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:15 +0000
Subject: [PATCH 28/70] fix: QUnit probability queries with buffered gates and
 moved qubits

---
 include/qunit.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/qunit.hpp b/include/qunit.hpp
index 62508fd..a2be92f 100644
--- a/include/qunit.hpp
+++ b/include/qunit.hpp
@@ -140,12 +140,17 @@ public:
 
     virtual real1_f ProbRdm(bitLenInt qubit)
     {
+        if (qubit >= qubitCount) {
+            throw std::invalid_argument("QUnit::ProbRdm target parameter must be within allocated qubit bounds!");
+        }
+
+        ToPermBasisProb(qubit);
         const QEngineShard& shard = shards[qubit];
         if (!shard.unit) {
             return Prob(qubit);
         }
 
-        return shard.unit->ProbRdm(qubit);
+        return shard.unit->ProbRdm(shard.mapped);
     }
     virtual real1_f CProbRdm(bitLenInt control, bitLenInt target)
     {
@@ -442,6 +447,7 @@ public:
     virtual real1_f ProbAllRdm(bool roundRz, const bitCapInt& perm)
     {
         if (shards[0U].unit && (shards[0U].unit->GetQubitCount() == qubitCount)) {
+            ToPermBasisProb();
             OrderContiguous(shards[0U].unit);
             return shards[0U].unit->ProbAllRdm(roundRz, perm);
         }
@@ -639,6 +645,7 @@ protected:
             "QUnit::ExpectationFactorized parameter qubits vector values must be within allocated qubit bounds!");
 
         if (shards[0U].unit && (shards[0U].unit->GetQubitCount() == qubitCount)) {
+            ToPermBasisProb();
             OrderContiguous(shards[0U].unit);
             return isExp  ? isFloat
                      ? (isRdm ? shards[0U].unit->ExpectationFloatsFactorizedRdm(roundRz, bits, weights)
-- 
2.43.0


From 454744b7d21a0081a1b6460a5e522807465a3755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:15 +0000
Subject: [PATCH 29/70] fix: QUnit::Detach() with buffered gates and reset
 mappings

---
 src/qunit.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index 28f76bd..2b13b0b 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -284,8 +284,9 @@ bool QUnit::Detach(bitLenInt start, bitLenInt length, QUnitPtr dest, bool isTry,
         throw std::invalid_argument("QUnit::Detach range is out-of-bounds!");
     }
 
-    for (bitLenInt i = 0U; i < length; ++i) {
-        RevertBasis2Qb(start + i);
+    // (Erasing shards relocates the remainder, so no buffered 2-qubit gates can refer to any shard.)
+    for (bitLenInt i = 0U; i < qubitCount; ++i) {
+        RevertBasis2Qb(i);
     }
 
     // Move "emulated" bits immediately into the destination, which is initialized.
@@ -314,6 +315,7 @@ bool QUnit::Detach(bitLenInt start, bitLenInt length, QUnitPtr dest, bool isTry,
     // also contiguous. From the lowest index bits, they are mapped simply for the length count of bits involved in the
     // entire subunit.
     std::map<QInterfacePtr, bitLenInt> decomposedUnits;
+    std::map<QInterfacePtr, bitLenInt> decomposedStarts;
     for (bitLenInt i = 0U; i < length; ++i) {
         QEngineShard& shard = shards[start + i];
         QInterfacePtr unit = shard.unit;
@@ -324,6 +326,8 @@ bool QUnit::Detach(bitLenInt start, bitLenInt length, QUnitPtr dest, bool isTry,
 
         if (decomposedUnits.find(unit) == decomposedUnits.end()) {
             decomposedUnits[unit] = start + i;
+            // (The mapping of this shard can be reset, below.)
+            decomposedStarts[unit] = shard.mapped;
             const bitLenInt subLen = subunits[unit];
             const bitLenInt origLen = unit->GetQubitCount();
             if (subLen != origLen) {
@@ -355,7 +359,7 @@ bool QUnit::Detach(bitLenInt start, bitLenInt length, QUnitPtr dest, bool isTry,
                 }
 
                 if (subLen == (origLen - 1U)) {
-                    bitLenInt mapped = shards[decomposedUnits[unit]].mapped;
+                    bitLenInt mapped = decomposedStarts[unit];
                     if (!mapped) {
                         mapped += subLen;
                     } else {
@@ -393,7 +397,7 @@ bool QUnit::Detach(bitLenInt start, bitLenInt length, QUnitPtr dest, bool isTry,
     for (auto&& shard : shards) {
         const auto subunit = subunits.find(shard.unit);
         if (subunit != subunits.end() &&
-            shard.mapped >= (shards[decomposedUnits[shard.unit]].mapped + subunit->second)) {
+            shard.mapped >= (decomposedStarts[shard.unit] + subunit->second)) {
             shard.mapped -= subunit->second;
         }
     }
-- 
2.43.0


From f5eb98f70e22fa3c094564805f58bbc4af3409b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:15 +0000
Subject: [PATCH 30/70] fix: QUnit bits that separate while a probability is
 read change basis

---
 src/qunit.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index 2b13b0b..b87dcdc 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -961,6 +961,9 @@ real1_f QUnit::ProbBase(bitLenInt qubit)
         complex amps[2U];
         shard.unit->GetQuantumState(amps);
 
+        // (The basis of the shard might change, below, but the return value is for the original Z basis.)
+        const real1_f prob = clampProb(norm(amps[1U]));
+
         if (IS_AMP_0(amps[0U] - amps[1U])) {
             logFidelity += (double)log(clampProb(ONE_R1_F - norm(amps[0U] - amps[1U])));
             shard.pauliBasis = PauliX;
@@ -993,7 +996,7 @@ real1_f QUnit::ProbBase(bitLenInt qubit)
         shard.mapped = 0U;
         shard.ClampAmps();
 
-        return norm(shard.amp1);
+        return prob;
     }
 
     if (shard.unit && shard.isProbDirty) {
@@ -2567,6 +2570,8 @@ bool QUnit::TrimControls(const std::vector<bitLenInt>& controls, std::vector<bit
         }
 
         ProbBase(control);
+        // (If the bit just separated, then its basis might have changed.)
+        RevertBasis1Qb(control);
 
         // This might determine that we can just skip out of the whole gate, in which case we return.
         if (IS_NORM_0(shard.amp1)) {
@@ -2596,6 +2601,8 @@ bool QUnit::TrimControls(const std::vector<bitLenInt>& controls, std::vector<bit
         RevertBasis1Qb(control);
 
         ProbBase(control);
+        // (If the bit just separated, then its basis might have changed.)
+        RevertBasis1Qb(control);
 
         // This might determine that we can just skip out of the whole gate, in which case we return.
         if (IS_NORM_0(shard.amp1)) {
@@ -2622,6 +2629,7 @@ bool QUnit::TrimControls(const std::vector<bitLenInt>& controls, std::vector<bit
         ToPermBasisProb(control);
 
         ProbBase(control);
+        RevertBasis1Qb(control);
 
         bool isEigenstate = false;
         // This might determine that we can just skip out of the whole gate, in which case we return.
-- 
2.43.0


From 4be7db83258253264dc76dad92e62f15d33b4e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:15 +0000
Subject: [PATCH 31/70] fix: QUnit::CUniformParityRZ() phase and mapping

---
 src/qunit.cpp | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index b87dcdc..648d59f 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -1273,7 +1273,10 @@ void QUnit::CUniformParityRZ(const std::vector<bitLenInt>& cControls, const bitC
         if (controls.empty()) {
             return Phase(phaseFac, phaseFac, 0U);
         } else {
-            return MCPhase(controls, phaseFac, phaseFac, 0U);
+            // (The phase depends only on the controls, and qubit 0 might be one of them.)
+            const bitLenInt target = controls.back();
+            controls.pop_back();
+            return MCPhase(controls, ONE_CMPLX, phaseFac, target);
         }
     }
 
@@ -1295,27 +1298,20 @@ void QUnit::CUniformParityRZ(const std::vector<bitLenInt>& cControls, const bitC
         }
     }
 
-    for (const bitLenInt& eIndex : eIndices) {
-        shards[eIndex].isPhaseDirty = true;
-    }
-
-    QInterfacePtr unit = Entangle(eIndices);
+    std::vector<bitLenInt> allIndices(eIndices);
+    allIndices.insert(allIndices.end(), controls.begin(), controls.end());
+    QInterfacePtr unit = Entangle(allIndices);
 
+    // (All bits must be mapped after the last call to Entangle().)
     bitCapInt mappedMask = ZERO_BCI;
     for (const bitLenInt& eIndex : eIndices) {
+        shards[eIndex].isPhaseDirty = true;
         bi_or_ip(&mappedMask, pow2(shards[eIndex].mapped));
     }
 
     if (controls.empty()) {
         std::dynamic_pointer_cast<QParity>(unit)->UniformParityRZ(mappedMask, flipResult ? -angle : angle);
     } else {
-        std::vector<bitLenInt*> ebits(controls.size());
-        for (size_t i = 0U; i < controls.size(); ++i) {
-            ebits[i] = &controls[i];
-        }
-
-        Entangle(ebits);
-        unit = Entangle({ controls[0U], eIndices[0U] });
 
         std::vector<bitLenInt> controlsMapped(controls.size());
         for (size_t i = 0U; i < controls.size(); ++i) {
-- 
2.43.0


From f2ff1ed22fcbca5683cf3115400d3f72be57d624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:15 +0000
Subject: [PATCH 32/70] fix: QUnit::MultiShotMeasureMask() selection and
 mapping of samples

---
 src/qunit.cpp | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index 648d59f..7211a6d 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -1627,7 +1627,7 @@ std::map<bitCapInt, int> QUnit::MultiShotMeasureMask(const std::vector<bitCapInt
 
                 auto pickIter = topLevelResults.begin();
                 int count = pickIter->second;
-                while (pick > count) {
+                while (pick >= count) {
                     ++pickIter;
                     count += pickIter->second;
                 }
@@ -1718,12 +1718,7 @@ void QUnit::MultiShotMeasureMask(const std::vector<bitCapInt>& qPowers, unsigned
         QInterfacePtr unit = shards[log2(qPowers[0U])].unit;
         if (unit) {
             std::vector<bitCapInt> mappedIndices(qPowers.size());
-            for (bitLenInt j = 0U; j < qubitCount; ++j) {
-                if (qPowers[0U] >= pow2(j)) {
-                    mappedIndices[0U] = pow2(shards[j].mapped);
-                    break;
-                }
-            }
+            mappedIndices[0U] = pow2(shards[log2(qPowers[0U])].mapped);
             for (size_t i = 1U; i < qPowers.size(); ++i) {
                 const size_t qubit = log2(qPowers[i]);
                 if (qubit >= qubitCount) {
@@ -1735,12 +1730,7 @@ void QUnit::MultiShotMeasureMask(const std::vector<bitCapInt>& qPowers, unsigned
                     unit = nullptr;
                     break;
                 }
-                for (bitLenInt j = 0U; j < qubitCount; ++j) {
-                    if (qPowers[i] >= pow2(j)) {
-                        mappedIndices[i] = pow2(shards[j].mapped);
-                        break;
-                    }
-                }
+                mappedIndices[i] = pow2(shards[qubit].mapped);
             }
 
             if (unit) {
@@ -1755,7 +1745,7 @@ void QUnit::MultiShotMeasureMask(const std::vector<bitCapInt>& qPowers, unsigned
     std::map<bitCapInt, int>::iterator it = results.begin();
     while (it != results.end() && (j < shots)) {
         for (int i = 0; i < it->second; ++i) {
-            shotsArray[j] = (unsigned)(bitCapIntOcl)it->first;
+            shotsArray[j] = (unsigned long long)(bitCapIntOcl)it->first;
             ++j;
         }
 
-- 
2.43.0


From 774c20bf7600efdde2d4375f24250cc73ad2d9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:15 +0000
Subject: [PATCH 33/70] fix: QUnit::SetReg() discards gates buffered on the
 register

---
 src/qunit.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index 7211a6d..0317d08 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -1756,10 +1756,13 @@ void QUnit::MultiShotMeasureMask(const std::vector<bitCapInt>& qPowers, unsigned
 /// Set register bits to given permutation
 void QUnit::SetReg(bitLenInt start, bitLenInt length, const bitCapInt& value)
 {
-    MReg(start, length);
+    // Measured bits might still be the target of buffered gates, so their shards can't simply be replaced.
+    const bitCapInt regVal = MReg(start, length);
 
     for (bitLenInt i = 0U; i < length; ++i) {
-        shards[i + start] = QEngineShard(bi_and_1(value >> i) != 0U, GetNonunitaryPhase());
+        if (bi_and_1(regVal >> i) != bi_and_1(value >> i)) {
+            X(i + start);
+        }
     }
 }
 
-- 
2.43.0


From 15303f34b308c1a9092584f23b4aa6523215151e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:15 +0000
Subject: [PATCH 34/70] fix: QUnit maps bits before the last call to Entangle()

---
 src/qunit.cpp | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index 0317d08..e1fdac6 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -1957,14 +1957,9 @@ void QUnit::UniformlyControlledSingleBit(const std::vector<bitLenInt>& controls,
     bits[trimmedControls.size()] = qubitIndex;
     std::sort(bits.begin(), bits.end());
 
-    std::vector<bitLenInt*> ebits(trimmedControls.size() + 1U);
-    for (size_t i = 0U; i < bits.size(); ++i) {
-        ebits[i] = &bits[i];
-    }
-
     QInterfacePtr unit;
     try {
-        unit = Entangle(ebits);
+        unit = Entangle(bits);
 
         std::vector<bitLenInt> mappedControls(trimmedControls.size());
         for (size_t i = 0U; i < trimmedControls.size(); ++i) {
@@ -2950,11 +2945,6 @@ void QUnit::INT(const bitCapInt& _toMod, bitLenInt start, bitLenInt length, bitL
     std::copy(controls.begin(), controls.end(), allBits.begin());
     std::sort(allBits.begin(), allBits.begin() + controlLen);
 
-    std::vector<bitLenInt*> ebits(allBits.size());
-    for (size_t i = 0; i < ebits.size(); ++i) {
-        ebits[i] = &allBits[i];
-    }
-
     // Try ripple addition, to avoid entanglement.
     const bitLenInt origLength = length;
     bool carry = false;
@@ -3034,8 +3024,8 @@ void QUnit::INT(const bitCapInt& _toMod, bitLenInt start, bitLenInt length, bitL
                 EntangleRange(start, partLength);
                 if (controlLen) {
                     allBits[controlLen] = start;
+                    QInterfacePtr unit = Entangle(allBits);
                     DirtyShardIndexVector(allBits);
-                    QInterfacePtr unit = Entangle(ebits);
                     std::vector<bitLenInt> lControls(controlLen);
                     for (bitLenInt cIndex = 0U; cIndex < controlLen; ++cIndex) {
                         lControls[cIndex] = shards[controls[cIndex]].mapped;
@@ -3084,8 +3074,8 @@ void QUnit::INT(const bitCapInt& _toMod, bitLenInt start, bitLenInt length, bitL
         EntangleRange(start, length);
         if (controlLen) {
             allBits[controlLen] = start;
+            QInterfacePtr unit = Entangle(allBits);
             DirtyShardIndexVector(allBits);
-            QInterfacePtr unit = Entangle(ebits);
             std::vector<bitLenInt> lControls(controlLen);
             for (bitLenInt cIndex = 0U; cIndex < controlLen; ++cIndex) {
                 lControls[cIndex] = shards[controls[cIndex]].mapped;
-- 
2.43.0


From 1b798a9268c4c1d02c194f7391ecde711d9730c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:15 +0000
Subject: [PATCH 35/70] fix: QUnit carry out when adding exactly the modulus

---
 src/qunit.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index e1fdac6..1831e12 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -2931,6 +2931,10 @@ void QUnit::INT(const bitCapInt& _toMod, bitLenInt start, bitLenInt length, bitL
     // Keep the bits separate, if cheap to do so:
     bitCapInt toMod = _toMod & pow2Mask(length);
     if (bi_compare_0(toMod) == 0) {
+        if (hasCarry && (bi_compare_0(_toMod & pow2(length)) != 0)) {
+            // Adding exactly the modulus carries out.
+            MCInvert(controls, ONE_CMPLX, ONE_CMPLX, carryIndex);
+        }
         return;
     }
 
@@ -3133,6 +3137,10 @@ void QUnit::INTS(const bitCapInt& _toMod, bitLenInt start, bitLenInt length, bit
 
     bitCapInt toMod = _toMod & pow2Mask(length);
     if (bi_compare_0(toMod) == 0) {
+        if (hasCarry && (bi_compare_0(_toMod & pow2(length)) != 0)) {
+            // Adding exactly the modulus carries out.
+            X(carryIndex);
+        }
         return;
     }
 
-- 
2.43.0


From c889bd8d82b5e88ca26db5880768f29c9a43bd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:15 +0000
Subject: [PATCH 36/70] fix: QUnit arithmetic leaves cached probabilities stale

---
 src/qunit.cpp | 51 ++++++++++++++++++++++++++-------------------------
 1 file changed, 26 insertions(+), 25 deletions(-)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index 1831e12..67145d0 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -2816,12 +2816,13 @@ void QUnit::INCx(INCxFn fn, const bitCapInt& toMod, bitLenInt start, bitLenInt l
         throw std::invalid_argument("QUnit::INCx flagIndex parameter must be within allocated qubit bounds!");
     }
 
+    EntangleRange(start, length);
+    QInterfacePtr unit = Entangle({ start, flagIndex });
+
+    // (Entangling can refresh the cached probabilities, so they are marked as stale only now.)
     DirtyShardRange(start, length);
-    DirtyShardRangePhase(start, length);
     shards[flagIndex].MakeDirty();
 
-    EntangleRange(start, length);
-    QInterfacePtr unit = Entangle({ start, flagIndex });
     ((*std::dynamic_pointer_cast<QAlu>(unit)).*fn)(toMod, shards[start].mapped, length, shards[flagIndex].mapped);
 }
 
@@ -2841,14 +2842,13 @@ void QUnit::INCxx(
     }
 
     // Make sure the flag bits are entangled in the same QU.
+    EntangleRange(start, length);
+    QInterfacePtr unit = Entangle({ start, flag1Index, flag2Index });
+
     DirtyShardRange(start, length);
-    DirtyShardRangePhase(start, length);
     shards[flag1Index].MakeDirty();
     shards[flag2Index].MakeDirty();
 
-    EntangleRange(start, length);
-    QInterfacePtr unit = Entangle({ start, flag1Index, flag2Index });
-
     ((*std::dynamic_pointer_cast<QAlu>(unit)).*fn)(
         toMod, shards[start].mapped, length, shards[flag1Index].mapped, shards[flag2Index].mapped);
 }
@@ -3024,7 +3024,6 @@ void QUnit::INT(const bitCapInt& _toMod, bitLenInt start, bitLenInt length, bitL
 
                 // If toAdd == inReg, this prevents superposition of the carry-out. The carry out of the truth table
                 // is independent of the superposed output value of the quantum bit.
-                DirtyShardRange(start, partLength);
                 EntangleRange(start, partLength);
                 if (controlLen) {
                     allBits[controlLen] = start;
@@ -3038,6 +3037,7 @@ void QUnit::INT(const bitCapInt& _toMod, bitLenInt start, bitLenInt length, bitL
                 } else {
                     shards[start].unit->INC(partMod, shards[start].mapped, partLength);
                 }
+                DirtyShardRange(start, partLength);
 
                 carry = toAdd;
                 bi_rshift_ip(&toMod, partLength);
@@ -3067,14 +3067,13 @@ void QUnit::INT(const bitCapInt& _toMod, bitLenInt start, bitLenInt length, bitL
             // implement, once the QEngine methods were in place.
             throw std::logic_error("ERROR: Controlled-with-carry arithmetic is not implemented!");
         } else {
-            DirtyShardRange(start, length);
-            shards[carryIndex].MakeDirty();
             EntangleRange(start, length);
             QInterfacePtr unit = Entangle({ start, carryIndex });
+            DirtyShardRange(start, length);
+            shards[carryIndex].MakeDirty();
             unit->INCC(toMod, shards[start].mapped, length, shards[carryIndex].mapped);
         }
     } else {
-        DirtyShardRange(start, length);
         EntangleRange(start, length);
         if (controlLen) {
             allBits[controlLen] = start;
@@ -3088,6 +3087,7 @@ void QUnit::INT(const bitCapInt& _toMod, bitLenInt start, bitLenInt length, bitL
         } else {
             shards[start].unit->INC(toMod, shards[start].mapped, length);
         }
+        DirtyShardRange(start, length);
     }
 }
 
@@ -3202,8 +3202,8 @@ void QUnit::INCBCD(const bitCapInt& toMod, bitLenInt start, bitLenInt length)
     }
 
     // BCD variants are low priority for optimization, for the time being.
-    DirtyShardRange(start, length);
     std::dynamic_pointer_cast<QAlu>(EntangleRange(start, length))->INCBCD(toMod, shards[start].mapped, length);
+    DirtyShardRange(start, length);
 }
 
 void QUnit::DECBCD(const bitCapInt& toMod, bitLenInt start, bitLenInt length)
@@ -3213,8 +3213,8 @@ void QUnit::DECBCD(const bitCapInt& toMod, bitLenInt start, bitLenInt length)
     }
 
     // BCD variants are low priority for optimization, for the time being.
-    DirtyShardRange(start, length);
     std::dynamic_pointer_cast<QAlu>(EntangleRange(start, length))->DECBCD(toMod, shards[start].mapped, length);
+    DirtyShardRange(start, length);
 }
 
 void QUnit::INCDECBCDC(const bitCapInt& toMod, bitLenInt start, bitLenInt length, bitLenInt carryIndex)
@@ -3250,12 +3250,12 @@ void QUnit::MUL(const bitCapInt& toMul, bitLenInt inOutStart, bitLenInt carrySta
         return SetReg(carryStart, length, (res >> length) & lengthMask);
     }
 
-    DirtyShardRange(inOutStart, length);
-    DirtyShardRange(carryStart, length);
-
     // Otherwise, form the potentially entangled representation:
     std::dynamic_pointer_cast<QAlu>(EntangleRange(inOutStart, length, carryStart, length))
         ->MUL(toMul, shards[inOutStart].mapped, shards[carryStart].mapped, length);
+
+    DirtyShardRange(inOutStart, length);
+    DirtyShardRange(carryStart, length);
 }
 
 void QUnit::DIV(const bitCapInt& toDiv, bitLenInt inOutStart, bitLenInt carryStart, bitLenInt length)
@@ -3286,12 +3286,12 @@ void QUnit::DIV(const bitCapInt& toDiv, bitLenInt inOutStart, bitLenInt carrySta
         return;
     }
 
-    DirtyShardRange(inOutStart, length);
-    DirtyShardRange(carryStart, length);
-
     // Otherwise, form the potentially entangled representation:
     std::dynamic_pointer_cast<QAlu>(EntangleRange(inOutStart, length, carryStart, length))
         ->DIV(toDiv, shards[inOutStart].mapped, shards[carryStart].mapped, length);
+
+    DirtyShardRange(inOutStart, length);
+    DirtyShardRange(carryStart, length);
 }
 
 void QUnit::POWModNOut(
@@ -3328,8 +3328,6 @@ void QUnit::POWModNOut(
 QInterfacePtr QUnit::CMULEntangle(std::vector<bitLenInt> controlVec, bitLenInt start, bitLenInt carryStart,
     bitLenInt length, std::vector<bitLenInt>* controlsMapped)
 {
-    DirtyShardRangePhase(start, length);
-    DirtyShardRange(carryStart, length);
     EntangleRange(start, length);
     EntangleRange(carryStart, length);
 
@@ -3348,6 +3346,9 @@ QInterfacePtr QUnit::CMULEntangle(std::vector<bitLenInt> controlVec, bitLenInt s
 
     QInterfacePtr unit = Entangle(ebits);
 
+    DirtyShardRangePhase(start, length);
+    DirtyShardRange(carryStart, length);
+
     if (controlVec.size()) {
         controlsMapped->resize(controlVec.size());
         for (size_t i = 0U; i < controlVec.size(); ++i) {
@@ -3707,8 +3708,8 @@ void QUnit::Hash(bitLenInt start, bitLenInt length, const unsigned char* values)
         return SetReg(start, length, value);
     }
 
-    DirtyShardRange(start, length);
     std::dynamic_pointer_cast<QAlu>(EntangleRange(start, length))->Hash(shards[start].mapped, length, values);
+    DirtyShardRange(start, length);
 }
 
 void QUnit::PhaseFlipIfLess(const bitCapInt& greaterPerm, bitLenInt start, bitLenInt length)
@@ -3726,9 +3727,9 @@ void QUnit::PhaseFlipIfLess(const bitCapInt& greaterPerm, bitLenInt start, bitLe
         return;
     }
 
-    DirtyShardRange(start, length);
     std::dynamic_pointer_cast<QAlu>(EntangleRange(start, length))
         ->PhaseFlipIfLess(greaterPerm, shards[start].mapped, length);
+    DirtyShardRange(start, length);
 }
 
 void QUnit::CPhaseFlipIfLess(const bitCapInt& greaterPerm, bitLenInt start, bitLenInt length, bitLenInt flagIndex)
@@ -3749,11 +3750,11 @@ void QUnit::CPhaseFlipIfLess(const bitCapInt& greaterPerm, bitLenInt start, bitL
         return;
     }
 
-    DirtyShardRange(start, length);
-    shards[flagIndex].isPhaseDirty = true;
     EntangleRange(start, length);
     std::dynamic_pointer_cast<QAlu>(Entangle({ start, flagIndex }))
         ->CPhaseFlipIfLess(greaterPerm, shards[start].mapped, length, shards[flagIndex].mapped);
+    DirtyShardRange(start, length);
+    shards[flagIndex].isPhaseDirty = true;
 }
 #endif
 
-- 
2.43.0


From 23735e8ecf704a205331d933cb5a3ec2542f540e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:15 +0000
Subject: [PATCH 37/70] fix: QUnit::SumSqrDiff() of single qubits depends on
 the global phase

---
 src/qunit.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index 67145d0..6cd25b6 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -3867,7 +3867,7 @@ real1_f QUnit::SumSqrDiff(QUnitPtr toCompare)
             oAmps[1U] = thatShard.amp1;
         }
 
-        return (real1_f)(norm(mAmps[0U] - oAmps[0U]) + norm(mAmps[1U] - oAmps[1U]));
+        return ONE_R1_F - clampProb((real1_f)norm(conj(mAmps[0U]) * oAmps[0U] + conj(mAmps[1U]) * oAmps[1U]));
     }
 
     if (CheckBitsPermutation(0U, qubitCount) && toCompare->CheckBitsPermutation(0U, qubitCount)) {
-- 
2.43.0


From 46a124b171ca00b8f2d36452bf57c37dc6bead42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:15 +0000
Subject: [PATCH 38/70] fix: QUnitClifford controlled gates with a separable
 control use the wrong index

---
 include/qunitclifford.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/qunitclifford.hpp b/include/qunitclifford.hpp
index 2c78c77..995227e 100644
--- a/include/qunitclifford.hpp
+++ b/include/qunitclifford.hpp
@@ -106,12 +106,14 @@ protected:
         const real1_f p = Prob(control);
         if (p < (ONE_R1_F / 4)) {
             if (isAnti) {
-                fn(shards[target].unit, target, mtrx);
+                fn(shards[target].unit, shards[target].mapped, mtrx);
+                CombinePhaseOffsets(shards[target].unit);
             }
             return;
         } else if (p > (3 * ONE_R1_F / 4)) {
             if (!isAnti) {
-                fn(shards[target].unit, target, mtrx);
+                fn(shards[target].unit, shards[target].mapped, mtrx);
+                CombinePhaseOffsets(shards[target].unit);
             }
             return;
         }
-- 
2.43.0


From 48a394f5a3bac692d2a47258e13d2798e7823c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:15 +0000
Subject: [PATCH 39/70] fix: QUnitClifford::ProbMask() adds probabilities,
 expectation values add the offset per unit

---
 src/qunitclifford.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/qunitclifford.cpp b/src/qunitclifford.cpp
index 3cc79bd..7bd5a87 100644
--- a/src/qunitclifford.cpp
+++ b/src/qunitclifford.cpp
@@ -66,11 +66,12 @@ real1_f QUnitClifford::ExpVarBitsFactorized(
     real1_f expectation = ZERO_R1;
     if (isExp) {
         for (const auto& p : qubitMap) {
-            expectation += p.first->ExpectationBitsFactorized(p.second, permMap[p.first], offset);
+            expectation += p.first->ExpectationBitsFactorized(p.second, permMap[p.first]);
         }
+        expectation += (real1_f)bi_to_double(offset);
     } else {
         for (const auto& p : qubitMap) {
-            expectation += p.first->VarianceBitsFactorized(p.second, permMap[p.first], offset);
+            expectation += p.first->VarianceBitsFactorized(p.second, permMap[p.first]);
         }
     }
 
@@ -170,12 +171,12 @@ real1_f QUnitClifford::ProbMask(const bitCapInt& mask, const bitCapInt& perm)
         }
     }
 
-    real1 expectation = ZERO_R1;
+    real1 prob = ONE_R1;
     for (const auto& p : maskMap) {
-        expectation += (real1)p.first->ProbMask(p.second, permMap[p.first]);
+        prob *= (real1)p.first->ProbMask(p.second, permMap[p.first]);
     }
 
-    return (real1_f)expectation;
+    return (real1_f)prob;
 }
 
 void QUnitClifford::SetPermutation(const bitCapInt& perm, const complex& phaseFac)
-- 
2.43.0


From 51afb6aa77af45c1fd2dfad76005aa9e9b33ae4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:15 +0000
Subject: [PATCH 40/70] fix: QUnitClifford::Detach() mapping of detached qubits

---
 src/qunitclifford.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/qunitclifford.cpp b/src/qunitclifford.cpp
index 7bd5a87..e752cee 100644
--- a/src/qunitclifford.cpp
+++ b/src/qunitclifford.cpp
@@ -224,12 +224,14 @@ void QUnitClifford::Detach(bitLenInt start, bitLenInt length, QUnitCliffordPtr d
     // also contiguous. From the lowest index bits, they are mapped simply for the length count of bits involved in the
     // entire subunit.
     std::map<QStabilizerPtr, bitLenInt> decomposedUnits;
+    std::map<QStabilizerPtr, bitLenInt> decomposedStarts;
     for (bitLenInt i = 0U; i < length; ++i) {
         CliffordShard& shard = shards[start + i];
         QStabilizerPtr unit = shard.unit;
 
         if (decomposedUnits.find(unit) == decomposedUnits.end()) {
             decomposedUnits[unit] = start + i;
+            decomposedStarts[unit] = shard.mapped;
             bitLenInt subLen = subunits[unit];
             bitLenInt origLen = unit->GetQubitCount();
             if (subLen != origLen) {
@@ -251,6 +253,10 @@ void QUnitClifford::Detach(bitLenInt start, bitLenInt length, QUnitCliffordPtr d
 
         if (dest) {
             dest->shards[i] = shard;
+            if (shard.unit != unit) {
+                // (The qubits are a new unit of their own.)
+                dest->shards[i].mapped -= decomposedStarts[unit];
+            }
         }
     }
 
@@ -258,7 +264,7 @@ void QUnitClifford::Detach(bitLenInt start, bitLenInt length, QUnitCliffordPtr d
     for (auto&& shard : shards) {
         const auto subunit = subunits.find(shard.unit);
         if (subunit != subunits.end() &&
-            shard.mapped >= (shards[decomposedUnits[shard.unit]].mapped + subunit->second)) {
+            shard.mapped >= (decomposedStarts[shard.unit] + subunit->second)) {
             shard.mapped -= subunit->second;
         }
     }
-- 
2.43.0


From aa81257c9354a5d435e974a6ba60d309c6d48c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:15 +0000
Subject: [PATCH 41/70] fix: QUnitClifford::GetQuantumState() without qubits

---
 src/qunitclifford.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/qunitclifford.cpp b/src/qunitclifford.cpp
index e752cee..76d6802 100644
--- a/src/qunitclifford.cpp
+++ b/src/qunitclifford.cpp
@@ -411,7 +411,9 @@ void QUnitClifford::SortUnit(QStabilizerPtr unit, std::vector<QSortEntry>& bits,
 void QUnitClifford::GetQuantumState(complex* stateVec)
 {
     QUnitCliffordPtr thisCopy = std::dynamic_pointer_cast<QUnitClifford>(Clone());
-    thisCopy->shards[0U].unit->NormalizeState(ONE_R1_F, FP_NORM_EPSILON, std::arg(phaseOffset));
+    if (qubitCount) {
+        thisCopy->shards[0U].unit->NormalizeState(ONE_R1_F, FP_NORM_EPSILON, std::arg(phaseOffset));
+    }
     thisCopy->EntangleAll()->GetQuantumState(stateVec);
 }
 
@@ -419,7 +421,9 @@ void QUnitClifford::GetQuantumState(complex* stateVec)
 void QUnitClifford::GetQuantumState(QInterfacePtr eng)
 {
     QUnitCliffordPtr thisCopy = std::dynamic_pointer_cast<QUnitClifford>(Clone());
-    thisCopy->shards[0U].unit->NormalizeState(ONE_R1_F, FP_NORM_EPSILON, std::arg(phaseOffset));
+    if (qubitCount) {
+        thisCopy->shards[0U].unit->NormalizeState(ONE_R1_F, FP_NORM_EPSILON, std::arg(phaseOffset));
+    }
     thisCopy->EntangleAll()->GetQuantumState(eng);
 }
 
@@ -427,7 +431,9 @@ void QUnitClifford::GetQuantumState(QInterfacePtr eng)
 std::map<bitCapInt, complex> QUnitClifford::GetQuantumState()
 {
     QUnitCliffordPtr thisCopy = std::dynamic_pointer_cast<QUnitClifford>(Clone());
-    thisCopy->shards[0U].unit->NormalizeState(ONE_R1_F, FP_NORM_EPSILON, std::arg(phaseOffset));
+    if (qubitCount) {
+        thisCopy->shards[0U].unit->NormalizeState(ONE_R1_F, FP_NORM_EPSILON, std::arg(phaseOffset));
+    }
     return thisCopy->EntangleAll()->GetQuantumState();
 }
 
-- 
2.43.0


From dded8e69d2a23e67a5c59b6af9436983fa37e6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:24 +0000
Subject: [PATCH 42/70] fix: QUnitClifford::MultiShotMeasureMask() selection of
 samples

---
 src/qunitclifford.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qunitclifford.cpp b/src/qunitclifford.cpp
index 76d6802..c356b63 100644
--- a/src/qunitclifford.cpp
+++ b/src/qunitclifford.cpp
@@ -692,7 +692,7 @@ std::map<bitCapInt, int> QUnitClifford::MultiShotMeasureMask(const std::vector<b
 
                 auto pickIter = topLevelResults.begin();
                 int count = pickIter->second;
-                while (pick > count) {
+                while (pick >= count) {
                     ++pickIter;
                     count += pickIter->second;
                 }
-- 
2.43.0


From 5714bb4193de7ebbe5deef5d91665e43e494e32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:24 +0000
Subject: [PATCH 43/70] fix: QStabilizer recognises and isolates separable
 ranges of qubits

---
 include/qstabilizer.hpp |   3 ++
 src/qstabilizer.cpp     | 117 +++++++++++++++++++++++++---------------
 2 files changed, 76 insertions(+), 44 deletions(-)

diff --git a/include/qstabilizer.hpp b/include/qstabilizer.hpp
index 7164e8c..795ba0e 100644
--- a/include/qstabilizer.hpp
+++ b/include/qstabilizer.hpp
@@ -242,6 +242,9 @@ protected:
     real1_f getVariance(const real1_f& mean, const real1_f& nrm, const std::vector<bitCapInt>& bitPowers,
         const std::vector<real1_f>& weights);
 
+    /// Make the generators of a separable range of qubits independent of the rest - does not change the logical state
+    void isolate(const bitLenInt& start, const bitLenInt& length);
+
     void DecomposeDispose(const bitLenInt start, const bitLenInt length, QStabilizerPtr toCopy);
 
     real1_f ApproxCompareHelper(
diff --git a/src/qstabilizer.cpp b/src/qstabilizer.cpp
index 877b21a..bef4dc5 100644
--- a/src/qstabilizer.cpp
+++ b/src/qstabilizer.cpp
@@ -1621,62 +1621,94 @@ bool QStabilizer::CanDecomposeDispose(const bitLenInt start, const bitLenInt len
         throw std::invalid_argument("QStabilizer::CanDecomposeDispose range is out-of-bounds!");
     }
 
-    if (qubitCount == 1U) {
+    if (!length || (length == qubitCount)) {
         return true;
     }
 
     Finish();
 
-    // We want to have the maximum number of 0 cross terms possible.
-    gaussian();
-
+    // The range is separable if (and only if) the generators restricted to it have exactly rank "length".
     const bitLenInt end = start + length;
+    std::vector<BoolVector> rows;
+    rows.reserve(qubitCount);
+    for (bitLenInt i = qubitCount; i < (qubitCount << 1U); ++i) {
+        rows.emplace_back(x[i].begin() + start, x[i].begin() + end);
+        rows.back().insert(rows.back().end(), z[i].begin() + start, z[i].begin() + end);
+    }
 
-    for (bitLenInt i = 0U; i < start; ++i) {
-        const bitLenInt i2 = i + qubitCount;
-        const BoolVector& xi = x[i];
-        const BoolVector& zi = z[i];
-        const BoolVector& xi2 = x[i2];
-        const BoolVector& zi2 = z[i2];
-        for (bitLenInt j = start; j < end; ++j) {
-            if (xi[j] || zi[j] || xi2[j] || zi2[j]) {
-                return false;
+    size_t rank = 0U;
+    for (size_t j = 0U; (j < ((size_t)length << 1U)) && (rank < rows.size()); ++j) {
+        size_t k = rank;
+        while ((k < rows.size()) && !rows[k][j]) {
+            ++k;
+        }
+        if (k == rows.size()) {
+            continue;
+        }
+        if (rank == length) {
+            return false;
+        }
+        std::swap(rows[rank], rows[k]);
+        for (++k; k < rows.size(); ++k) {
+            if (!rows[k][j]) {
+                continue;
+            }
+            for (size_t l = j; l < rows[k].size(); ++l) {
+                rows[k][l] = rows[k][l] ^ rows[rank][l];
             }
         }
+        ++rank;
     }
 
-    for (bitLenInt i = end; i < qubitCount; ++i) {
-        const bitLenInt i2 = i + qubitCount;
-        const BoolVector& xi = x[i];
-        const BoolVector& zi = z[i];
-        const BoolVector& xi2 = x[i2];
-        const BoolVector& zi2 = z[i2];
-        for (bitLenInt j = start; j < end; ++j) {
-            if (xi[j] || zi[j] || xi2[j] || zi2[j]) {
-                return false;
+    return true;
+}
+
+/// Reduce the tableau of a state with a separable range of qubits so that each generator acts either only inside or only
+/// outside of the range, and so that the generators inside (with their destabilizers) have the same indices as the qubits.
+void QStabilizer::isolate(const bitLenInt& start, const bitLenInt& length)
+{
+    const bitLenInt n = qubitCount;
+    const bitLenInt maxLcv = n << 1U;
+    const bitLenInt end = start + length;
+
+    bitLenInt i = n;
+    auto reduceColumn = [&](std::vector<BoolVector>& m, const bitLenInt& j) {
+        for (bitLenInt k = i; k < maxLcv; ++k) {
+            if (!m[k][j]) {
+                continue;
             }
-        }
-    }
 
-    for (bitLenInt i = start; i < end; ++i) {
-        const bitLenInt i2 = i + qubitCount;
-        const BoolVector& xi = x[i];
-        const BoolVector& zi = z[i];
-        const BoolVector& xi2 = x[i2];
-        const BoolVector& zi2 = z[i2];
-        for (bitLenInt j = 0U; j < start; ++j) {
-            if (xi[j] || zi[j] || xi2[j] || zi2[j]) {
-                return false;
+            rowswap(i, k);
+            rowswap(i - n, k - n);
+            for (bitLenInt k2 = n; k2 < maxLcv; ++k2) {
+                if ((k2 != i) && m[k2][j]) {
+                    rowmult(k2, i);
+                    rowmult(i - n, k2 - n);
+                }
             }
+            ++i;
+
+            break;
         }
-        for (bitLenInt j = end; j < qubitCount; ++j) {
-            if (xi[j] || zi[j] || xi2[j] || zi2[j]) {
-                return false;
-            }
+    };
+
+    for (bitLenInt j = 0U; j < n; ++j) {
+        if ((j < start) || (j >= end)) {
+            reduceColumn(x, j);
+            reduceColumn(z, j);
         }
     }
+    for (bitLenInt j = start; j < end; ++j) {
+        reduceColumn(x, j);
+        reduceColumn(z, j);
+    }
 
-    return true;
+    // The generators of the range are the last ones, now.
+    for (const bitLenInt& o : { (bitLenInt)0U, n }) {
+        std::rotate(x.begin() + o + start, x.begin() + o + (n - length), x.begin() + o + n);
+        std::rotate(z.begin() + o + start, z.begin() + o + (n - length), z.begin() + o + n);
+        std::rotate(r.begin() + o + start, r.begin() + o + (n - length), r.begin() + o + n);
+    }
 }
 
 void QStabilizer::DecomposeDispose(const bitLenInt start, const bitLenInt length, QStabilizerPtr dest)
@@ -1696,12 +1728,9 @@ void QStabilizer::DecomposeDispose(const bitLenInt start, const bitLenInt length
 
     const AmplitudeEntry ampEntry = (randGlobalPhase || dest) ? AmplitudeEntry(ZERO_BCI, ONE_CMPLX) : GetAnyAmplitude();
 
-    // We want to have the maximum number of 0 cross terms possible.
-    gaussian();
-
-    // We assume that the bits to "decompose" the representation of already have 0 cross-terms in their generators
-    // outside inter- "dest" cross terms. (Usually, we're "decomposing" the representation of a just-measured single
-    // qubit.)
+    // We assume that the bits to "decompose" the representation of are separable. (Usually, we're "decomposing" the
+    // representation of a just-measured single qubit.)
+    isolate(start, length);
 
     const bitCapInt oMaxQMask = pow2Mask(qubitCount);
     const bitLenInt end = start + length;
-- 
2.43.0


From 56fa02a2bedb080353dccc4a045ae6dc6a9e976d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:24 +0000
Subject: [PATCH 44/70] fix: QStabilizer::Allocate() on an empty register

---
 include/qstabilizer.hpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/include/qstabilizer.hpp b/include/qstabilizer.hpp
index 795ba0e..5fdb30a 100644
--- a/include/qstabilizer.hpp
+++ b/include/qstabilizer.hpp
@@ -396,12 +396,6 @@ public:
             throw std::out_of_range("QStabilizer::Allocate() cannot start past end of register!");
         }
 
-        if (!qubitCount) {
-            SetQubitCount(length);
-            SetPermutation(ZERO_BCI);
-            return 0U;
-        }
-
         QStabilizerPtr nQubits = std::make_shared<QStabilizer>(length, ZERO_BCI, rand_generator, CMPLX_DEFAULT_ARG,
             false, randGlobalPhase, false, -1, !!hardware_rand_generator);
         return Compose(nQubits, start);
-- 
2.43.0


From 4524cecce70ad1cf0afe84cc39db2268590fce52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:24 +0000
Subject: [PATCH 45/70] fix: QStabilizer::MCMtrx() and MACMtrx() without
 controls

---
 include/qstabilizer.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/qstabilizer.hpp b/include/qstabilizer.hpp
index 5fdb30a..9240e82 100644
--- a/include/qstabilizer.hpp
+++ b/include/qstabilizer.hpp
@@ -468,6 +468,10 @@ public:
             return MCInvert(controls, mtrx[1U], mtrx[2U], target);
         }
 
+        if (controls.empty()) {
+            return Mtrx(mtrx, target);
+        }
+
         throw std::domain_error("QStabilizer::MCMtrx() not implemented for non-Clifford/Pauli cases!");
     }
     void MACMtrx(const std::vector<bitLenInt>& controls, const complex* mtrx, bitLenInt target)
@@ -480,6 +484,10 @@ public:
             return MACInvert(controls, mtrx[1U], mtrx[2U], target);
         }
 
+        if (controls.empty()) {
+            return Mtrx(mtrx, target);
+        }
+
         throw std::domain_error("QStabilizer::MACMtrx() not implemented for non-Clifford/Pauli cases!");
     }
     void FSim(real1_f theta, real1_f phi, bitLenInt qubit1, bitLenInt qubit2);
-- 
2.43.0


From 8ab9e4c725be1a3a08d46a7273598291ba081362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:24 +0000
Subject: [PATCH 46/70] fix: QStabilizerHybrid phase gadgets on separable
 targets and with tiny angles

---
 include/qstabilizerhybrid.hpp |  3 +++
 src/qstabilizerhybrid.cpp     | 37 ++++++++++++++++-------------------
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/include/qstabilizerhybrid.hpp b/include/qstabilizerhybrid.hpp
index e4a1b7f..35c8353 100644
--- a/include/qstabilizerhybrid.hpp
+++ b/include/qstabilizerhybrid.hpp
@@ -345,6 +345,9 @@ protected:
     real1_f ApproxCompareHelper(
         QStabilizerHybridPtr toCompare, bool isDiscreteBool, real1_f error_tol = TRYDECOMPOSE_EPSILON);
 
+    void InjectPhaseGadget(const MpsShardPtr& shard, bitLenInt target);
+    void FlushIfInseparable(bitLenInt start, bitLenInt length);
+
     void ISwapHelper(bitLenInt qubit1, bitLenInt qubit2, bool inverse);
 
     complex GetAmplitudeOrProb(const bitCapInt& perm, bool isProb = false);
diff --git a/src/qstabilizerhybrid.cpp b/src/qstabilizerhybrid.cpp
index ce245d6..32442f9 100644
--- a/src/qstabilizerhybrid.cpp
+++ b/src/qstabilizerhybrid.cpp
@@ -214,21 +214,31 @@ void QStabilizerHybrid::FlushIfBlocked(bitLenInt control, bitLenInt target, bool
     shard->gate[0U] = complex(angleCos, -angleSin);
     shard->gate[3U] = complex(angleCos, angleSin);
 
+    InjectPhaseGadget(shard, target);
+}
+
+void QStabilizerHybrid::InjectPhaseGadget(const MpsShardPtr& shard, bitLenInt target)
+{
+    if (stabilizer->IsSeparableZ(target)) {
+        // The phase gate acts only as a global phase factor.
+        return stabilizer->Mtrx(shard->gate, target);
+    }
+
     // Form a representation of state that can entangle a new (or reused) ancilla.
-    bitLenInt ancillaIndex = deadAncillaCount
+    const bitLenInt ancillaIndex = deadAncillaCount
         ? (qubitCount + ancillaCount)
         : stabilizer->Compose(std::make_shared<QUnitClifford>(
               1U, ZERO_BCI, rand_generator, CMPLX_DEFAULT_ARG, false, randGlobalPhase, false, -1, useRDRAND));
-    ++ancillaCount;
-    shards.emplace_back(nullptr);
     if (deadAncillaCount) {
         --deadAncillaCount;
     }
+    ++ancillaCount;
 
-    // Use reverse t-injection gadget.
+    // Use reverse t-injection gadget. (The ancilla buffer must never be empty, no matter how small the phase angle.)
+    QRACK_CONST complex h[4U]{ SQRT1_2_R1, SQRT1_2_R1, SQRT1_2_R1, -SQRT1_2_R1 };
+    shard->Compose(h);
+    shards.push_back(shard);
     stabilizer->CNOT(target, ancillaIndex);
-    Mtrx(shard->gate, ancillaIndex);
-    H(ancillaIndex);
 
     // When we eventually measure, we act postselection, but not yet.
     // ForceM(ancillaIndex, false, true, true);
@@ -1133,20 +1143,7 @@ void QStabilizerHybrid::Mtrx(const complex* lMtrx, bitLenInt target)
                 shard->gate[3U] = complex(angleCos, angleSin);
 
                 // Form potentially entangled representation, with this.
-                bitLenInt ancillaIndex = deadAncillaCount
-                    ? (qubitCount + ancillaCount)
-                    : stabilizer->Compose(std::make_shared<QUnitClifford>(1U, ZERO_BCI, rand_generator,
-                          CMPLX_DEFAULT_ARG, false, randGlobalPhase, false, -1, useRDRAND));
-                ++ancillaCount;
-                shards.emplace_back(nullptr);
-                if (deadAncillaCount) {
-                    --deadAncillaCount;
-                }
-
-                // Use reverse t-injection gadget.
-                stabilizer->CNOT(target, ancillaIndex);
-                Mtrx(shard->gate, ancillaIndex);
-                H(ancillaIndex);
+                InjectPhaseGadget(shard, target);
             }
         }
 
-- 
2.43.0


From aab505e853aa9c927978b7a4377d4c2d7decf3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:24 +0000
Subject: [PATCH 47/70] fix: QStabilizerHybrid reads states with ancillae as if
 they were unbuffered

---
 include/qstabilizerhybrid.hpp | 10 ++++++++++
 src/qstabilizerhybrid.cpp     |  4 ++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/qstabilizerhybrid.hpp b/include/qstabilizerhybrid.hpp
index 35c8353..ddb1f35 100644
--- a/include/qstabilizerhybrid.hpp
+++ b/include/qstabilizerhybrid.hpp
@@ -97,6 +97,11 @@ protected:
     }
     bool EitherIsBuffered(bool logical)
     {
+        if (!logical && ancillaCount) {
+            // (Ancillae are always subject to post-selection, even if their own gate buffers are empty.)
+            return true;
+        }
+
         const size_t maxLcv = logical ? (size_t)qubitCount : shards.size();
         for (size_t i = 0U; i < maxLcv; ++i) {
             if (shards[i]) {
@@ -111,6 +116,11 @@ protected:
     bool IsLogicalBuffered() { return EitherIsBuffered(true); }
     bool EitherIsProbBuffered(bool logical)
     {
+        if (!logical && ancillaCount) {
+            // (Ancillae are always subject to post-selection, even if their own gate buffers are empty.)
+            return true;
+        }
+
         const size_t maxLcv = logical ? (size_t)qubitCount : shards.size();
         for (size_t i = 0U; i < maxLcv; ++i) {
             MpsShardPtr shard = shards[i];
diff --git a/src/qstabilizerhybrid.cpp b/src/qstabilizerhybrid.cpp
index 32442f9..0147370 100644
--- a/src/qstabilizerhybrid.cpp
+++ b/src/qstabilizerhybrid.cpp
@@ -684,7 +684,7 @@ void QStabilizerHybrid::GetQuantumState(complex* outputState)
         return engine->GetQuantumState(outputState);
     }
 
-    if (!IsBuffered()) {
+    if (!IsBuffered() && !deadAncillaCount) {
         return stabilizer->GetQuantumState(outputState);
     }
 
@@ -699,7 +699,7 @@ void QStabilizerHybrid::GetProbs(real1* outputProbs)
         return engine->GetProbs(outputProbs);
     }
 
-    if (!IsProbBuffered()) {
+    if (!IsProbBuffered() && !deadAncillaCount) {
         return stabilizer->GetProbs(outputProbs);
     }
 
-- 
2.43.0


From df699c7483c82f1791a9f3b355ff18222f9298ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:24 +0000
Subject: [PATCH 48/70] fix: order of ancillae in QStabilizerHybrid::Compose()

---
 src/qstabilizerhybrid.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/qstabilizerhybrid.cpp b/src/qstabilizerhybrid.cpp
index 0147370..059ee54 100644
--- a/src/qstabilizerhybrid.cpp
+++ b/src/qstabilizerhybrid.cpp
@@ -530,8 +530,9 @@ bitLenInt QStabilizerHybrid::ComposeEither(QStabilizerHybridPtr toCopy, bool wil
         toRet = willDestroy ? engine->ComposeNoClone(toCopy->engine) : engine->Compose(toCopy->engine);
     } else {
         toRet = stabilizer->Compose(toCopy->stabilizer, qubitCount);
-        stabilizer->ROR(deadAncillaCount, qubitCount + ancillaCount,
-            deadAncillaCount + toCopy->ancillaCount + toCopy->deadAncillaCount);
+        // All live ancillae must come before any dead ancillae.
+        stabilizer->ROR(toCopy->deadAncillaCount, nQubits + toCopy->ancillaCount,
+            toCopy->deadAncillaCount + ancillaCount);
         ancillaCount += toCopy->ancillaCount;
         deadAncillaCount += toCopy->deadAncillaCount;
     }
@@ -580,10 +581,6 @@ bitLenInt QStabilizerHybrid::Compose(QStabilizerHybridPtr toCopy, bitLenInt star
         toRet = engine->Compose(toCopy->engine, start);
     } else {
         toRet = stabilizer->Compose(toCopy->stabilizer, start);
-        stabilizer->ROR(deadAncillaCount, qubitCount + ancillaCount,
-            deadAncillaCount + toCopy->ancillaCount + toCopy->deadAncillaCount);
-        ancillaCount += toCopy->ancillaCount;
-        deadAncillaCount += toCopy->deadAncillaCount;
     }
 
     // Resize the shards buffer.
-- 
2.43.0


From e8334a73fe8cf91082d9f26ec3011f3a29ff3c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:24 +0000
Subject: [PATCH 49/70] fix: QStabilizerHybrid splits qubits that are entangled
 with ancillae

---
 src/qstabilizerhybrid.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/qstabilizerhybrid.cpp b/src/qstabilizerhybrid.cpp
index 059ee54..1a0afbf 100644
--- a/src/qstabilizerhybrid.cpp
+++ b/src/qstabilizerhybrid.cpp
@@ -597,6 +597,14 @@ bitLenInt QStabilizerHybrid::Compose(QStabilizerHybridPtr toCopy, bitLenInt star
     return toRet;
 }
 
+void QStabilizerHybrid::FlushIfInseparable(bitLenInt start, bitLenInt length)
+{
+    // A separable range of qubits might still be entangled with ancillae, which we have not post-selected, yet.
+    if (stabilizer && ancillaCount && !stabilizer->CanDecomposeDispose(start, length)) {
+        SwitchToEngine();
+    }
+}
+
 QInterfacePtr QStabilizerHybrid::Decompose(bitLenInt start, bitLenInt length)
 {
     QStabilizerHybridPtr dest = std::make_shared<QStabilizerHybrid>(engineTypes, length, ZERO_BCI, rand_generator,
@@ -616,6 +624,8 @@ void QStabilizerHybrid::Decompose(bitLenInt start, QStabilizerHybridPtr dest)
 
     const bitLenInt nQubits = qubitCount - length;
 
+    FlushIfInseparable(start, length);
+
     if (engine) {
         dest->SwitchToEngine();
         engine->Decompose(start, dest->engine);
@@ -638,6 +648,8 @@ void QStabilizerHybrid::Dispose(bitLenInt start, bitLenInt length)
 {
     const bitLenInt nQubits = qubitCount - length;
 
+    FlushIfInseparable(start, length);
+
     if (engine) {
         engine->Dispose(start, length);
     } else {
@@ -652,6 +664,8 @@ void QStabilizerHybrid::Dispose(bitLenInt start, bitLenInt length, const bitCapI
 {
     const bitLenInt nQubits = qubitCount - length;
 
+    FlushIfInseparable(start, length);
+
     if (engine) {
         engine->Dispose(start, length, disposedPerm);
     } else {
-- 
2.43.0


From 7fc973bba6491991e41eaf26249327e4d6e4e19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:24 +0000
Subject: [PATCH 50/70] fix: QStabilizerHybrid amplitudes with more than one
 buffered qubit

---
 src/qstabilizerhybrid.cpp | 109 ++++++++++++++------------------------
 1 file changed, 41 insertions(+), 68 deletions(-)

diff --git a/src/qstabilizerhybrid.cpp b/src/qstabilizerhybrid.cpp
index 1a0afbf..f7a82a0 100644
--- a/src/qstabilizerhybrid.cpp
+++ b/src/qstabilizerhybrid.cpp
@@ -754,15 +754,50 @@ complex QStabilizerHybrid::GetAmplitudeOrProb(const bitCapInt& perm, bool isProb
         return toRet;
     }
 
+    // Each buffered (non-monomial) gate mixes the amplitudes with its qubit bit off and on, so we need the amplitudes of
+    // all permutations of the buffered qubit bits.
     std::vector<bitLenInt> indices;
-    std::vector<bitCapInt> perms{ perm };
+    bitCapInt basePerm = perm;
+    complex phaseFactor = ONE_CMPLX;
     for (bitLenInt i = 0U; i < qubitCount; ++i) {
         if (!shards[i]) {
             continue;
         }
-        indices.push_back(i);
-        perms.push_back(perm ^ pow2(i));
+        const complex* mtrx = shards[i]->gate;
+        const bool bit = bi_and_1(perm >> i) != 0;
+        if (shards[i]->IsPhase()) {
+            phaseFactor *= bit ? mtrx[3U] : mtrx[0U];
+        } else if (shards[i]->IsInvert()) {
+            phaseFactor *= bit ? mtrx[2U] : mtrx[1U];
+            basePerm = basePerm ^ pow2(i);
+        } else {
+            indices.push_back(i);
+        }
+    }
+    std::vector<bitCapInt> perms{ basePerm };
+    for (const bitLenInt& i : indices) {
+        const size_t count = perms.size();
+        for (size_t j = 0U; j < count; ++j) {
+            perms.push_back(perms[j] ^ pow2(i));
+        }
     }
+    const size_t aStride = perms.size();
+
+    const auto contract = [&](complex* amps) {
+        size_t count = aStride;
+        for (size_t i = indices.size(); i > 0U; --i) {
+            const bitLenInt& j = indices[i - 1U];
+            const complex* mtrx = shards[j]->gate;
+            const bool bit = bi_and_1(perm >> j) != 0;
+            count >>= 1U;
+            for (size_t k = 0U; k < count; ++k) {
+                amps[k] = bit ? (mtrx[3U] * amps[k] + mtrx[2U] * amps[k + count])
+                              : (mtrx[0U] * amps[k] + mtrx[1U] * amps[k + count]);
+            }
+        }
+
+        return phaseFactor * amps[0U];
+    };
 
     if (!ancillaCount) {
         std::vector<complex> amps;
@@ -774,16 +809,7 @@ complex QStabilizerHybrid::GetAmplitudeOrProb(const bitCapInt& perm, bool isProb
         } else {
             amps = stabilizer->GetAmplitudes(perms);
         }
-        complex amp = amps[0U];
-        for (size_t i = 1U; i < amps.size(); ++i) {
-            const bitLenInt j = indices[i - 1U];
-            const complex* mtrx = shards[j]->gate;
-            if (bi_and_1(perm >> j)) {
-                amp = mtrx[2U] * amps[i] + mtrx[3U] * amp;
-            } else {
-                amp = mtrx[0U] * amp + mtrx[1U] * amps[i];
-            }
-        }
+        const complex amp = contract(amps.data());
 
         if (isRounded) {
             stabilizer = origStabilizer;
@@ -795,10 +821,9 @@ complex QStabilizerHybrid::GetAmplitudeOrProb(const bitCapInt& perm, bool isProb
         return amp;
     }
 
-    const bitLenInt aStride = indices.size() + 1U;
     const bitCapIntOcl ancillaPow = pow2Ocl(ancillaCount);
     for (bitCapIntOcl i = 1U; i < ancillaPow; ++i) {
-        const bitCapInt ancillaPerm = i << qubitCount;
+        const bitCapInt ancillaPerm = ((bitCapInt)i) << qubitCount;
         for (size_t j = 0U; j < aStride; ++j) {
             perms.push_back(perms[j] | ancillaPerm);
         }
@@ -828,61 +853,9 @@ complex QStabilizerHybrid::GetAmplitudeOrProb(const bitCapInt& perm, bool isProb
         CreateQuantumInterface(et, ancillaCount, ZERO_BCI, rand_generator, ONE_CMPLX, false, false, useHostRam, devID,
             useRDRAND, false, (real1_f)amplitudeFloor, deviceIDs, thresholdQubits, separabilityThreshold));
 
-#if ENABLE_COMPLEX_X2
-    std::vector<complex2> top;
-    std::vector<complex2> bottom;
-    // For variable scoping, only:
-    if (true) {
-        complex amp = amps[0U];
-        for (bitLenInt i = 1U; i < aStride; ++i) {
-            const bitLenInt j = indices[i - 1U];
-            const complex* mtrx = shards[j]->gate;
-            top.emplace_back(mtrx[0U], mtrx[1U]);
-            bottom.emplace_back(mtrx[3U], mtrx[2U]);
-            complex2 amp2(amp, amps[i]);
-            if (bi_and_1(perm >> j)) {
-                amp2 = amp2 * bottom.back();
-            } else {
-                amp2 = amp2 * top.back();
-            }
-            amp = amp2.c(0U) + amp2.c(1U);
-        }
-        aEngine->SetAmplitude(0U, amp);
-    }
-    for (bitCapIntOcl a = 1U; a < ancillaPow; ++a) {
-        const bitCapIntOcl offset = a * aStride;
-        complex amp = amps[offset];
-        for (bitLenInt i = 1U; i < aStride; ++i) {
-            const bitLenInt j = indices[i - 1U];
-            complex2 amp2(amp, amps[i]);
-            if (bi_and_1(perm >> j)) {
-                amp2 = amp2 * bottom[j];
-            } else {
-                amp2 = amp2 * top[j];
-            }
-            amp = amp2.c(0U) + amp2.c(1U);
-        }
-        aEngine->SetAmplitude(a, amp);
-    }
-    top.clear();
-    bottom.clear();
-#else
     for (bitCapIntOcl a = 0U; a < ancillaPow; ++a) {
-        const bitCapIntOcl offset = a * aStride;
-        complex amp = amps[offset];
-        for (bitLenInt i = 1U; i < aStride; ++i) {
-            const bitLenInt j = indices[i - 1U];
-            const complex* mtrx = shards[j]->gate;
-            const complex oAmp = amps[i + offset];
-            if (bi_and_1(perm >> j)) {
-                amp = mtrx[3U] * amp + mtrx[2U] * oAmp;
-            } else {
-                amp = mtrx[0U] * amp + mtrx[1U] * oAmp;
-            }
-        }
-        aEngine->SetAmplitude(a, amp);
+        aEngine->SetAmplitude(a, contract(amps.data() + (a * aStride)));
     }
-#endif
     amps.clear();
 
     for (bitLenInt i = 0U; i < ancillaCount; ++i) {
-- 
2.43.0


From 8d23c31589979f81232c3ed0b1969fa60275c738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:24 +0000
Subject: [PATCH 51/70] fix: QStabilizerHybrid::CSwap() leaves buffered gates
 in place

---
 src/qstabilizerhybrid.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/qstabilizerhybrid.cpp b/src/qstabilizerhybrid.cpp
index f7a82a0..9c86614 100644
--- a/src/qstabilizerhybrid.cpp
+++ b/src/qstabilizerhybrid.cpp
@@ -959,9 +959,8 @@ void QStabilizerHybrid::CSwap(const std::vector<bitLenInt>& lControls, bitLenInt
         }
 
         if (controls.empty()) {
-            rdmClone = nullptr;
-
-            return stabilizer->Swap(qubit1, qubit2);
+            // (The buffered gates must be swapped, as well.)
+            return Swap(qubit1, qubit2);
         }
 
         SwitchToEngine();
-- 
2.43.0


From b9584cf0e97da038947cedd4aed600b3f4b941d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:24 +0000
Subject: [PATCH 52/70] fix: QStabilizerHybrid probability and forced
 measurement of separable buffered qubits

---
 src/qstabilizerhybrid.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/qstabilizerhybrid.cpp b/src/qstabilizerhybrid.cpp
index 9c86614..303167d 100644
--- a/src/qstabilizerhybrid.cpp
+++ b/src/qstabilizerhybrid.cpp
@@ -1467,13 +1467,17 @@ real1_f QStabilizerHybrid::Prob(bitLenInt qubit)
     }
 
     if (shard && !shard->IsPhase()) {
-        // Bit was already rotated to Z basis, if separable.
+        // Rotate the bit to Z basis, if separable (as it might have become separable since buffering).
+        if (!stabilizer->IsSeparableZ(qubit)) {
+            CacheEigenstate(qubit);
+        }
+
         if (stabilizer->IsSeparableZ(qubit)) {
             if (stabilizer->M(qubit)) {
-                return (real1_f)norm(shard->gate[3U]);
+                return (real1_f)norm(shards[qubit]->gate[3U]);
             }
 
-            return (real1_f)norm(shard->gate[2U]);
+            return (real1_f)norm(shards[qubit]->gate[2U]);
         }
 
         // Otherwise, buffer will not change the fact that state appears maximally mixed.
@@ -1504,12 +1508,17 @@ bool QStabilizerHybrid::ForceM(bitLenInt qubit, bool result, bool doForce, bool
         if (stabilizer->IsSeparableZ(qubit)) {
             if (doForce) {
                 if (doApply) {
-                    if (result != stabilizer->ForceM(qubit, result, true, true)) {
+                    // (The stabilizer qubit is a Z eigenstate, so the buffered gate determines the probability.)
+                    const bool isZ1 = stabilizer->M(qubit);
+                    if (IS_NORM_0(shard->gate[(result ? 2U : 0U) + (isZ1 ? 1U : 0U)])) {
                         // Sorry to throw, but the requested forced result is definitely invalid.
                         throw std::invalid_argument(
                             "QStabilizerHybrid::ForceM() forced a measurement result with 0 probability!");
                     }
                     shard = nullptr;
+                    if (result != isZ1) {
+                        stabilizer->X(qubit);
+                    }
                 }
 
                 return result;
-- 
2.43.0


From d380a2c71b18f99533590028eee09ec5aa1228c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:24 +0000
Subject: [PATCH 53/70] fix: QStabilizerHybrid::MultiShotMeasureMask()
 remaining shots and shared generator

---
 src/qstabilizerhybrid.cpp | 42 ++++++++-------------------------------
 1 file changed, 8 insertions(+), 34 deletions(-)

diff --git a/src/qstabilizerhybrid.cpp b/src/qstabilizerhybrid.cpp
index 303167d..5cad25e 100644
--- a/src/qstabilizerhybrid.cpp
+++ b/src/qstabilizerhybrid.cpp
@@ -1668,9 +1668,8 @@ void QStabilizerHybrid::UniformlyControlledSingleBit(
 }
 
 #define FILL_REMAINING_MAP_SHOTS()                                                                                     \
-    if (rng.size()) {                                                                                                  \
-        results[d] += shots - rng.size();                                                                              \
-    }                                                                                                                  \
+    /* (Any remaining shots are due to rounding error.) */                                                             \
+    CheckShots(shots, d, 2 * ONE_R1_F, qPowers, rng, shotFunc);                                                        \
     stateMapCache = nullptr;
 
 #define ADD_SHOTS_PROB(m)                                                                                              \
@@ -1708,19 +1707,12 @@ std::map<bitCapInt, int> QStabilizerHybrid::MultiShotMeasureMask(const std::vect
         return roundedClone->MultiShotMeasureMask(qPowers, shots);
     }
 
-    std::map<bitCapInt, int> results;
-
     if (!IsProbBuffered()) {
-        std::mutex resultsMutex;
-        par_for(0U, shots, [&](const bitCapIntOcl& shot, const unsigned& cpu) {
-            const bitCapInt sample = SampleClone(qPowers);
-            std::lock_guard<std::mutex> lock(resultsMutex);
-            ++(results[sample]);
-        });
-
-        return results;
+        return QInterface::MultiShotMeasureMask(qPowers, shots);
     }
 
+    std::map<bitCapInt, int> results;
+
     std::vector<real1_f> rng = GenerateShotProbs(shots);
     const auto shotFunc = [&](bitCapInt sample, unsigned unused) { ++(results[sample]); };
     real1 partProb = ZERO_R1;
@@ -1770,27 +1762,11 @@ std::map<bitCapInt, int> QStabilizerHybrid::MultiShotMeasureMask(const std::vect
     return results;
 }
 
-#ifdef __SIZEOF_INT128__
 #define FILL_REMAINING_ARRAY_SHOTS()                                                                                   \
-    if (rng.size()) {                                                                                                  \
-        const unsigned long long _d = (unsigned long long)(unsigned __int128)d;                                        \
-        for (size_t shot = 0U; shot < rng.size(); ++shot) {                                                            \
-            shotsArray[shot + (shots - rng.size())] = _d;                                                              \
-        }                                                                                                              \
-    }                                                                                                                  \
+    /* (Any remaining shots are due to rounding error.) */                                                             \
+    CheckShots(shots, d, 2 * ONE_R1_F, qPowers, rng, shotFunc);                                                        \
     std::shuffle(shotsArray, shotsArray + shots, prng);                                                                \
     stateMapCache = nullptr;
-#else
-#define FILL_REMAINING_ARRAY_SHOTS()                                                                                   \
-    if (rng.size()) {                                                                                                  \
-        const unsigned long long _d = (unsigned long long)(uint64_t)d;                                                 \
-        for (size_t shot = 0U; shot < rng.size(); ++shot) {                                                            \
-            shotsArray[shot + (shots - rng.size())] = _d;                                                              \
-        }                                                                                                              \
-    }                                                                                                                  \
-    std::shuffle(shotsArray, shotsArray + shots, prng);                                                                \
-    stateMapCache = nullptr;
-#endif
 
 void QStabilizerHybrid::MultiShotMeasureMask(
     const std::vector<bitCapInt>& qPowers, unsigned shots, unsigned long long* shotsArray)
@@ -1815,9 +1791,7 @@ void QStabilizerHybrid::MultiShotMeasureMask(
     }
 
     if (!IsProbBuffered()) {
-        return par_for(0U, shots, [&](const bitCapIntOcl& shot, const unsigned& cpu) {
-            shotsArray[shot] = (bitCapIntOcl)SampleClone(qPowers);
-        });
+        return QInterface::MultiShotMeasureMask(qPowers, shots, shotsArray);
     }
 
     std::vector<real1_f> rng = GenerateShotProbs(shots);
-- 
2.43.0


From 65848b8754fb66c1dedab1c34018ba4893bdc7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:24 +0000
Subject: [PATCH 54/70] fix: QStabilizerHybrid combines ancillae that collapse
 together when it rounds gates

---
 src/qstabilizerhybrid.cpp | 112 ++++++++++++++++++++------------------
 1 file changed, 59 insertions(+), 53 deletions(-)

diff --git a/src/qstabilizerhybrid.cpp b/src/qstabilizerhybrid.cpp
index 5cad25e..631c608 100644
--- a/src/qstabilizerhybrid.cpp
+++ b/src/qstabilizerhybrid.cpp
@@ -1876,69 +1876,75 @@ bool QStabilizerHybrid::ForceMParity(const bitCapInt& mask, bool result, bool do
 void QStabilizerHybrid::RdmCloneFlush(real1_f threshold)
 {
     QRACK_CONST complex h[4U]{ SQRT1_2_R1, SQRT1_2_R1, SQRT1_2_R1, -SQRT1_2_R1 };
-    for (size_t i = shards.size() - 1U; i >= qubitCount; --i) {
-        // We're going to start by non-destructively "simulating" measurement collapse.
-        MpsShardPtr nShard = shards[i]->Clone();
+    for (size_t i = shards.size(); i > qubitCount;) {
+        --i;
 
-        for (int p = 0; p < 2; ++p) {
-            // Say that we hypothetically collapse ancilla index "i" into state |p>...
-            QStabilizerHybridPtr clone = std::dynamic_pointer_cast<QStabilizerHybrid>(Clone());
-            clone->stabilizer->H(i);
-            clone->stabilizer->ForceM(i, p);
-
-            // Do any other ancillae collapse?
-            nShard->Compose(h);
-            bool isCorrected = p;
-            for (size_t j = clone->shards.size() - 1U; j >= clone->qubitCount; --j) {
-                if (i == j) {
-                    continue;
-                }
-                const real1_f prob = clone->stabilizer->Prob(j);
-                const MpsShardPtr& oShard = clone->shards[j];
-                oShard->Compose(h);
-                if (prob < QUARTER_R1_F) {
-                    // Collapsed to 0 - combine buffers
-                    nShard->Compose(oShard->gate);
-                } else if (prob > (3 * QUARTER_R1_F)) {
-                    // Collapsed to 1 - combine buffers, with Z correction
-                    isCorrected = !isCorrected;
-                    nShard->Compose(oShard->gate);
-                }
-            }
+        if (stabilizer->IsSeparable(i)) {
+            // The post-selection has no effect on any other qubit.
+            ClearAncilla(i);
+            i = shards.size();
+            continue;
+        }
 
-            // Calculate the near-Clifford gate phase angle, but don't change the state:
-            const real1 angle =
-                (real1)FractionalRzAngleWithFlush(i, std::arg(nShard->gate[3U] / nShard->gate[0U]), true);
-            if ((2 * abs(angle)) > (threshold * PI_R1)) {
-                // The gate phase angle is too significant to flush.
-                continue;
-            }
+        const QUnitCliffordPtr origStabilizer = stabilizer;
+        stabilizer = std::dynamic_pointer_cast<QUnitClifford>(origStabilizer->Clone());
 
-            const complex phaseFac = nShard->gate[3U] / nShard->gate[0U];
-            logFidelity += (double)log(0.25 * norm(ONE_CMPLX + phaseFac));
+        // Say that we hypothetically collapse ancilla index "i" in the Z basis...
+        const QUnitCliffordPtr clone = std::dynamic_pointer_cast<QUnitClifford>(stabilizer->Clone());
+        clone->ForceM(i, false);
 
-            // We're round the gates to 0, and we eliminate the ancillae.
-            FractionalRzAngleWithFlush(i, std::arg(phaseFac));
-            if (isCorrected) {
-                stabilizer->Z(i);
+        MpsShardPtr nShard = shards[i]->Clone();
+        nShard->Compose(h);
+        complex phaseFac = nShard->gate[3U] / nShard->gate[0U];
+
+        // Do any other ancillae collapse? If so, their phase gates act on the same degree of freedom.
+        std::vector<size_t> indices{ i };
+        for (size_t j = shards.size(); j > qubitCount;) {
+            --j;
+            if ((i == j) || stabilizer->IsSeparableZ(j) || !clone->IsSeparableZ(j)) {
+                continue;
             }
-            stabilizer->H(i);
-            stabilizer->ForceM(i, p);
-            ClearAncilla(i);
+            MpsShardPtr oShard = shards[j]->Clone();
+            oShard->Compose(h);
+            const complex oPhaseFac = oShard->gate[3U] / oShard->gate[0U];
+            phaseFac *= clone->M(j) ? std::conj(oPhaseFac) : oPhaseFac;
+            indices.push_back(j);
+        }
+        std::sort(indices.begin(), indices.end(), std::greater<size_t>());
+
+        // Calculate the near-Clifford gate phase angle, and flush its Clifford part.
+        const real1 angle = (real1)FractionalRzAngleWithFlush(i, std::arg(phaseFac));
+        if ((2 * abs(angle)) > (threshold * PI_R1)) {
+            // The gate phase angle is too significant to flush.
+            stabilizer = origStabilizer;
+            continue;
+        }
 
-            // All observable effects of qubits becoming separable have been accounted.
-            // (Hypothetical newly-arising X-basis separable states have no effect.)
-            for (size_t j = shards.size() - 1U; j >= qubitCount; --j) {
-                if (stabilizer->IsSeparable(j)) {
-                    ClearAncilla(j);
-                }
+        // We're rounding the gates to 0, and we post-select.
+        bool isPossible = true;
+        for (const size_t& j : indices) {
+            stabilizer->H(j);
+            if (stabilizer->IsSeparableZ(j) && stabilizer->M(j)) {
+                isPossible = false;
+                break;
             }
+            stabilizer->ForceM(j, false);
+        }
+        if (!isPossible) {
+            // (Only the rounding makes post-selection impossible.)
+            stabilizer = origStabilizer;
+            continue;
+        }
 
-            // Start the loop condition over entirely, less the ancillae we removed.
-            i = shards.size();
+        logFidelity += (double)log(0.25 * norm(ONE_CMPLX + std::polar(ONE_R1, angle)));
 
-            break;
+        // We eliminate the ancillae. (The indices are sorted in descending order.)
+        for (const size_t& j : indices) {
+            ClearAncilla(j);
         }
+
+        // Start the loop condition over entirely, less the ancillae we removed.
+        i = shards.size();
     }
 
     isRoundingFlushed = true;
-- 
2.43.0


From 7fc96c6671a7cb5cc505b11666c96888b7fccfc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:48 +0000
Subject: [PATCH 55/70] fix: QPager capacity is not updated with its qubit
 count

---
 include/qpager.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qpager.hpp b/include/qpager.hpp
index 7a73271..3977c16 100644
--- a/include/qpager.hpp
+++ b/include/qpager.hpp
@@ -51,7 +51,7 @@ protected:
 
     void SetQubitCount(bitLenInt qb)
     {
-        QInterface::SetQubitCount(qb);
+        QEngine::SetQubitCount(qb);
         baseQubitsPerPage = (qubitCount < thresholdQubitsPerPage) ? qubitCount : thresholdQubitsPerPage;
         basePageCount = pow2Ocl(qubitCount - baseQubitsPerPage);
         basePageMaxQPower = pow2Ocl(baseQubitsPerPage);
-- 
2.43.0


From 57697c011d0386a3737350087f0876b591713419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:48 +0000
Subject: [PATCH 56/70] fix: QUnit measurement of a separable qubit changes the
 global phase

---
 src/qunit.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index 6cd25b6..d6d5045 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -1417,10 +1417,20 @@ bool QUnit::ForceM(bitLenInt qubit, bool res, bool doForce, bool doApply)
 
     logFidelity = log(GetUnitaryFidelity());
 
+    complex phaseFac = GetNonunitaryPhase();
+    if (!randGlobalPhase && (shard.GetQubitCount() == 1U)) {
+        // Measurement does not change the global phase.
+        const complex amp =
+            shard.unit ? shard.unit->GetAmplitude(result ? ONE_BCI : ZERO_BCI) : (result ? shard.amp1 : shard.amp0);
+        if (!IS_NORM_0(amp)) {
+            phaseFac = amp / abs(amp);
+        }
+    }
+
     shard.isProbDirty = false;
     shard.isPhaseDirty = false;
-    shard.amp0 = result ? ZERO_CMPLX : GetNonunitaryPhase();
-    shard.amp1 = result ? GetNonunitaryPhase() : ZERO_CMPLX;
+    shard.amp0 = result ? ZERO_CMPLX : phaseFac;
+    shard.amp1 = result ? phaseFac : ZERO_CMPLX;
 
     if (shard.GetQubitCount() == 1U) {
         shard.unit = nullptr;
-- 
2.43.0


From 4557c781ff9faf053a0514d30a40c7d86baa87f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:48 +0000
Subject: [PATCH 57/70] fix: QStabilizer keeps the global phase when it splits
 qubits

---
 src/qstabilizer.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/qstabilizer.cpp b/src/qstabilizer.cpp
index bef4dc5..1f96b3b 100644
--- a/src/qstabilizer.cpp
+++ b/src/qstabilizer.cpp
@@ -1726,7 +1726,7 @@ void QStabilizer::DecomposeDispose(const bitLenInt start, const bitLenInt length
     }
     Finish();
 
-    const AmplitudeEntry ampEntry = (randGlobalPhase || dest) ? AmplitudeEntry(ZERO_BCI, ONE_CMPLX) : GetAnyAmplitude();
+    AmplitudeEntry ampEntry = randGlobalPhase ? AmplitudeEntry(ZERO_BCI, ONE_CMPLX) : GetAnyAmplitude();
 
     // We assume that the bits to "decompose" the representation of are separable. (Usually, we're "decomposing" the
     // representation of a just-measured single qubit.)
@@ -1777,10 +1777,16 @@ void QStabilizer::DecomposeDispose(const bitLenInt start, const bitLenInt length
         zi.erase(zi.begin() + start, zi.begin() + end);
     }
 
-    if (randGlobalPhase || dest) {
+    if (randGlobalPhase) {
         return;
     }
 
+    if (dest) {
+        // The global phase stays with this instance.
+        const bitCapInt destPerm = (ampEntry.permutation >> start) & pow2Mask(length);
+        ampEntry.amplitude *= conj(dest->GetAmplitude(destPerm));
+    }
+
     const bitCapInt startMask = pow2Mask(start);
     const bitCapInt endMask = oMaxQMask ^ pow2Mask(start + length);
     const bitCapInt nPerm = (ampEntry.permutation & startMask) | ((ampEntry.permutation & endMask) >> length);
-- 
2.43.0


From 2b01586c475fc83b1c8e9e711311e81cf9dd79e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:13 +0000
Subject: [PATCH 58/70] fix: QPager sums page expectation values and variances
 as if pages were whole registers

---
 include/qpager.hpp |  2 --
 src/qpager.cpp     | 46 ----------------------------------------------
 2 files changed, 48 deletions(-)

diff --git a/include/qpager.hpp b/include/qpager.hpp
index 3977c16..11d4fb7 100644
--- a/include/qpager.hpp
+++ b/include/qpager.hpp
@@ -96,8 +96,6 @@ protected:
 
     void GetSetAmplitudePage(complex* pagePtr, const complex* cPagePtr, bitCapIntOcl offset, bitCapIntOcl length);
 
-    real1_f ExpVarBitsAll(bool isExp, const std::vector<bitLenInt>& bits, const bitCapInt& offset = ZERO_BCI);
-
     using QEngine::Copy;
     void Copy(QInterfacePtr orig) { Copy(std::dynamic_pointer_cast<QPager>(orig)); }
     void Copy(QPagerPtr orig)
diff --git a/src/qpager.cpp b/src/qpager.cpp
index 4fa0942..9b1acc2 100644
--- a/src/qpager.cpp
+++ b/src/qpager.cpp
@@ -1532,52 +1532,6 @@ real1_f QPager::ProbMask(const bitCapInt& mask, const bitCapInt& permutation)
     return clampProb((real1_f)maskChance);
 }
 
-real1_f QPager::ExpVarBitsAll(bool isExp, const std::vector<bitLenInt>& bits, const bitCapInt& offset)
-{
-    if (bits.size() != qubitCount) {
-        return QInterface::ExpVarBitsAll(isExp, bits, offset);
-    }
-
-    for (bitCapIntOcl i = 0U; i < bits.size(); ++i) {
-        if (bits[i] != i) {
-            return QInterface::ExpVarBitsAll(isExp, bits, offset);
-        }
-    }
-
-    const bitCapIntOcl pagePower = (bitCapIntOcl)pageMaxQPower();
-    real1_f expectation = ZERO_R1_F;
-    bitCapIntOcl pagePerm = 0U;
-#if ENABLE_PTHREAD
-    const unsigned numCores = GetConcurrencyLevel();
-    const bitCapIntOcl fCount = (qPages.size() < numCores) ? qPages.size() : numCores;
-    std::vector<std::future<real1_f>> futures(fCount);
-#endif
-    for (bitCapIntOcl i = 0U; i < qPages.size(); ++i) {
-        QEnginePtr engine = qPages[i];
-#if ENABLE_PTHREAD
-        const bitCapIntOcl iF = i % fCount;
-        if (i != iF) {
-            expectation += futures[iF].get();
-        }
-        futures[iF] = std::async(std::launch::async, [engine, isExp, bits, pagePerm, offset]() {
-            return isExp ? engine->ExpectationBitsAll(bits, pagePerm + (bitCapIntOcl)offset)
-                         : engine->VarianceBitsAll(bits, pagePerm + (bitCapIntOcl)offset);
-        });
-#else
-        expectation += isExp ? engine->ExpectationBitsAll(bits, pagePerm + offset)
-                             : engine->VarianceBitsAll(bits, pagePerm + offset);
-#endif
-        pagePerm += pagePower;
-    }
-#if ENABLE_PTHREAD
-    for (std::future<real1_f>& future : futures) {
-        expectation += future.get();
-    }
-#endif
-
-    return expectation;
-}
-
 void QPager::UpdateRunningNorm(real1_f norm_thresh)
 {
     for (const QEnginePtr& qPage : qPages) {
-- 
2.43.0


From 21f3ac61002f4a2f4dde4aa50b3fc7c3ded8240f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:13 +0000
Subject: [PATCH 59/70] fix: QPager INCS is not forwarded to the engines

---
 include/qpager.hpp | 1 +
 src/qpager.cpp     | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/include/qpager.hpp b/include/qpager.hpp
index 11d4fb7..e985ed1 100644
--- a/include/qpager.hpp
+++ b/include/qpager.hpp
@@ -380,6 +380,7 @@ public:
     }
 
 #if ENABLE_ALU
+    void INCS(const bitCapInt& toAdd, bitLenInt start, bitLenInt length, bitLenInt overflowIndex);
     void INCDECSC(
         const bitCapInt& toAdd, bitLenInt start, bitLenInt length, bitLenInt overflowIndex, bitLenInt carryIndex);
     void INCDECSC(const bitCapInt& toAdd, bitLenInt start, bitLenInt length, bitLenInt carryIndex);
diff --git a/src/qpager.cpp b/src/qpager.cpp
index 9b1acc2..c66518e 100644
--- a/src/qpager.cpp
+++ b/src/qpager.cpp
@@ -1150,6 +1150,11 @@ bool QPager::ForceM(bitLenInt qubit, bool result, bool doForce, bool doApply)
 }
 
 #if ENABLE_ALU
+void QPager::INCS(const bitCapInt& toAdd, bitLenInt start, bitLenInt length, bitLenInt overflowIndex)
+{
+    CombineAndOp([&](QEnginePtr engine) { engine->INCS(toAdd, start, length, overflowIndex); },
+        { static_cast<bitLenInt>(start + length - 1U), overflowIndex });
+}
 void QPager::INCDECSC(
     const bitCapInt& toAdd, bitLenInt start, bitLenInt length, bitLenInt overflowIndex, bitLenInt carryIndex)
 {
-- 
2.43.0


From 93525baad3b643a6679e291caa4908bff9a9c396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:13 +0000
Subject: [PATCH 60/70] fix: FSim loses its phase near a full or zero rotation
 angle

---
 src/qbdt/tree.cpp | 4 ++--
 src/qpager.cpp    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/qbdt/tree.cpp b/src/qbdt/tree.cpp
index e845320..49d5af1 100644
--- a/src/qbdt/tree.cpp
+++ b/src/qbdt/tree.cpp
@@ -769,14 +769,14 @@ void QBdt::FSim(real1_f theta, real1_f phi, bitLenInt qubit1, bitLenInt qubit2)
     }
 
     const real1_f sinThetaDiffNeg = ONE_R1_F + sinTheta;
-    if ((sinThetaDiffNeg * sinThetaDiffNeg) <= FP_NORM_EPSILON_F) {
+    if ((2 * sinThetaDiffNeg) <= (FP_NORM_EPSILON_F * PI_R1)) {
         ISwap(qubit1, qubit2);
 
         return MCPhase(controls, ONE_CMPLX, expIPhi, qubit2);
     }
 
     const real1_f sinThetaDiffPos = ONE_R1_F - sinTheta;
-    if ((sinThetaDiffPos * sinThetaDiffPos) <= FP_NORM_EPSILON_F) {
+    if ((2 * sinThetaDiffPos) <= (FP_NORM_EPSILON_F * PI_R1)) {
         IISwap(qubit1, qubit2);
 
         return MCPhase(controls, ONE_CMPLX, expIPhi, qubit2);
diff --git a/src/qpager.cpp b/src/qpager.cpp
index c66518e..d0e91f9 100644
--- a/src/qpager.cpp
+++ b/src/qpager.cpp
@@ -1439,14 +1439,14 @@ void QPager::FSim(real1_f theta, real1_f phi, bitLenInt qubit1, bitLenInt qubit2
     }
 
     const real1 sinThetaDiffNeg = ONE_R1 + sinTheta;
-    if ((sinThetaDiffNeg * sinThetaDiffNeg) <= FP_NORM_EPSILON) {
+    if ((2 * sinThetaDiffNeg) <= (FP_NORM_EPSILON * PI_R1)) {
         ISwap(qubit1, qubit2);
 
         return MCPhase(controls, ONE_CMPLX, expIPhi, qubit2);
     }
 
     const real1 sinThetaDiffPos = ONE_R1 - sinTheta;
-    if ((sinThetaDiffPos * sinThetaDiffPos) <= FP_NORM_EPSILON) {
+    if ((2 * sinThetaDiffPos) <= (FP_NORM_EPSILON * PI_R1)) {
         IISwap(qubit1, qubit2);
 
         return MCPhase(controls, ONE_CMPLX, expIPhi, qubit2);
-- 
2.43.0


From 1918a0371aa0ed7bb0868ee6ea6791fb2b524fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:13 +0000
Subject: [PATCH 61/70] fix: QEngine controlled probability is not conditional
 on the control

---
 src/qengine/qengine.cpp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/qengine/qengine.cpp b/src/qengine/qengine.cpp
index 0eba91a..e4660bb 100644
--- a/src/qengine/qengine.cpp
+++ b/src/qengine/qengine.cpp
@@ -456,18 +456,21 @@ void QEngine::FSim(real1_f theta, real1_f phi, bitLenInt qubit1, bitLenInt qubit
 
 real1_f QEngine::CtrlOrAntiProb(bool controlState, bitLenInt control, bitLenInt target)
 {
-    if (controlState) {
-        AntiCNOT(control, target);
-    } else {
-        CNOT(control, target);
+    const real1_f controlProb = controlState ? Prob(control) : (ONE_R1_F - Prob(control));
+
+    if (controlProb <= FP_NORM_EPSILON) {
+        return ZERO_R1_F;
     }
-    const real1_f prob = Prob(target);
-    if (controlState) {
-        AntiCNOT(control, target);
-    } else {
-        CNOT(control, target);
+
+    if ((ONE_R1_F - controlProb) <= FP_NORM_EPSILON) {
+        return Prob(target);
     }
-    return prob;
+
+    const bitCapInt controlPow = pow2(control);
+    const bitCapInt targetPow = pow2(target);
+
+    return clampProb(
+        ProbMask(controlPow | targetPow, controlState ? (controlPow | targetPow) : targetPow) / controlProb);
 }
 
 void QEngine::ProbRegAll(bitLenInt start, bitLenInt length, real1* probsArray)
-- 
2.43.0


From 9f1c86c3b6d4715b5c14bef866ecbf3db5dee3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:13 +0000
Subject: [PATCH 62/70] fix: QPager constructor from engines ignores the
 initial state

---
 src/qpager.cpp | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/qpager.cpp b/src/qpager.cpp
index d0e91f9..28d16b5 100644
--- a/src/qpager.cpp
+++ b/src/qpager.cpp
@@ -51,20 +51,11 @@ QPager::QPager(std::vector<QInterfaceEngine> eng, bitLenInt qBitCount, const bit
         return;
     }
 
-    const bitCapInt initState = maxQPower + ONE_BCI;
-    const bitCapIntOcl initStateOcl = (bitCapIntOcl)initState;
-    bitCapIntOcl pagePerm = basePageMaxQPower;
     for (bitCapIntOcl i = 0U; i < basePageCount; ++i) {
-        if (bi_compare(initState, pagePerm) < 0) {
-            // Init state is in this page.
-            qPages.push_back(MakeEngine(baseQubitsPerPage, i));
-            qPages.back()->SetPermutation(initStateOcl - (pagePerm - basePageMaxQPower));
-        } else {
-            // Init state is in a higher page.
-            qPages.push_back(MakeEngine(baseQubitsPerPage, i));
-        }
-        pagePerm += basePageMaxQPower;
+        qPages.push_back(MakeEngine(baseQubitsPerPage, i));
     }
+
+    SetPermutation(_initState, phaseFac);
 }
 
 QPager::QPager(QEnginePtr enginePtr, std::vector<QInterfaceEngine> eng, bitLenInt qBitCount, const bitCapInt& initState,
-- 
2.43.0


From 5e1b08fac8ae7fde39d69185643829dda9ad6a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:13 +0000
Subject: [PATCH 63/70] fix: QPager amplitude pages are read and written at
 wrong offsets

---
 src/qpager.cpp | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/qpager.cpp b/src/qpager.cpp
index 28d16b5..e843e18 100644
--- a/src/qpager.cpp
+++ b/src/qpager.cpp
@@ -285,22 +285,18 @@ QEnginePtr QPager::MakeEngine(bitLenInt length, bitCapIntOcl pageId)
 void QPager::GetSetAmplitudePage(complex* pagePtr, const complex* cPagePtr, bitCapIntOcl offset, bitCapIntOcl length)
 {
     const bitCapIntOcl pageLength = (bitCapIntOcl)pageMaxQPower();
-    bitCapIntOcl perm = 0U;
-    for (bitCapIntOcl i = 0U; i < qPages.size(); ++i) {
-        if ((perm + length) < offset) {
-            continue;
-        }
-        if (perm >= (offset + length)) {
-            break;
-        }
-        const bitCapIntOcl partOffset = (perm < offset) ? (offset - perm) : 0U;
-        const bitCapIntOcl partLength = (length < pageLength) ? length : pageLength;
+    const bitCapIntOcl end = offset + length;
+    bitCapIntOcl perm = offset;
+    while (perm < end) {
+        const bitCapIntOcl page = perm / pageLength;
+        const bitCapIntOcl partOffset = perm - page * pageLength;
+        const bitCapIntOcl partLength = std::min(end - perm, pageLength - partOffset);
         if (cPagePtr) {
-            qPages[i]->SetAmplitudePage(cPagePtr, partOffset, partLength);
+            qPages[page]->SetAmplitudePage(cPagePtr + (perm - offset), partOffset, partLength);
         } else {
-            qPages[i]->GetAmplitudePage(pagePtr, partOffset, partLength);
+            qPages[page]->GetAmplitudePage(pagePtr + (perm - offset), partOffset, partLength);
         }
-        perm += pageLength;
+        perm += partLength;
     }
 }
 
-- 
2.43.0


From 036a35f2167c0ca123b5f65b65eba4bd570565a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:13 +0000
Subject: [PATCH 64/70] fix: QPager normalizes pages separately

---
 src/qpager.cpp | 40 +++++++++++-----------------------------
 1 file changed, 11 insertions(+), 29 deletions(-)

diff --git a/src/qpager.cpp b/src/qpager.cpp
index e843e18..65f1c50 100644
--- a/src/qpager.cpp
+++ b/src/qpager.cpp
@@ -358,26 +358,13 @@ template <typename Qubit1Fn> void QPager::SingleBitGate(bitLenInt target, Qubit1
     bitLenInt qpp = qubitsPerPage();
 
     if (doNormalize) {
-        real1_f runningNorm = ZERO_R1;
-        for (bitCapIntOcl i = 0U; i < qPages.size(); ++i) {
-            const QEnginePtr& qPage = qPages[i];
-            qPage->Finish();
-            runningNorm += qPage->GetRunningNorm();
-        }
-        for (bitCapIntOcl i = 0U; i < qPages.size(); ++i) {
-            const QEnginePtr& qPage = qPages[i];
-            qPage->QueueSetRunningNorm(runningNorm);
-            qPage->QueueSetDoNormalize(true);
-        }
+        NormalizeState();
     }
 
     if (target < qpp) {
         for (bitCapIntOcl i = 0U; i < qPages.size(); ++i) {
             QEnginePtr qPage = qPages[i];
             fn(qPage, target);
-            if (doNormalize) {
-                qPage->QueueSetDoNormalize(false);
-            }
         }
 
         return;
@@ -400,14 +387,12 @@ template <typename Qubit1Fn> void QPager::SingleBitGate(bitLenInt target, Qubit1
         QEnginePtr engine1 = qPages[j];
         QEnginePtr engine2 = qPages[j | targetPow];
 
-        const bool doNrm = doNormalize;
-
 #if ENABLE_PTHREAD
         const bitCapIntOcl iF = i % fCount;
         if (i != iF) {
             futures[iF].get();
         }
-        futures[iF] = std::async(std::launch::async, [engine1, engine2, isSqiCtrl, isAnti, sqi, fn, doNrm]() {
+        futures[iF] = std::async(std::launch::async, [engine1, engine2, isSqiCtrl, isAnti, sqi, fn]() {
 #endif
             engine1->ShuffleBuffers(engine2);
             if (!isSqiCtrl || isAnti) {
@@ -417,11 +402,6 @@ template <typename Qubit1Fn> void QPager::SingleBitGate(bitLenInt target, Qubit1
                 fn(engine2, sqi);
             }
             engine1->ShuffleBuffers(engine2);
-
-            if (doNrm) {
-                engine1->QueueSetDoNormalize(false);
-                engine2->QueueSetDoNormalize(false);
-            }
 #if ENABLE_PTHREAD
         });
 #endif
@@ -1533,18 +1513,20 @@ void QPager::UpdateRunningNorm(real1_f norm_thresh)
 
 void QPager::NormalizeState(real1_f nrm, real1_f norm_thresh, real1_f phaseArg)
 {
-    real1_f nmlzr;
+    real1_f nmlzr = nrm;
     if (nrm == REAL1_DEFAULT_ARG) {
-        nmlzr = ZERO_R1_F;
-        for (const QEnginePtr& qPage : qPages) {
-            nmlzr += qPage->GetRunningNorm();
-        }
-    } else {
-        nmlzr = nrm;
+        UpdateRunningNorm();
+        nmlzr = GetRunningNorm();
+    }
+
+    if ((abs(ONE_R1_F - nmlzr) <= FP_NORM_EPSILON) && ((phaseArg * phaseArg) <= FP_NORM_EPSILON)) {
+        return;
     }
 
     for (const QEnginePtr& qPage : qPages) {
         qPage->NormalizeState(nmlzr, norm_thresh, phaseArg);
+        // (A page isn't normalized on its own.)
+        qPage->UpdateRunningNorm();
     }
 }
 
-- 
2.43.0


From ea7ff977178e5a950004ee76bbc1ddd020c59740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:13 +0000
Subject: [PATCH 65/70] fix: QPager decomposition allocates the wrong number of
 destination qubits

---
 src/qpager.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/qpager.cpp b/src/qpager.cpp
index 65f1c50..a864f88 100644
--- a/src/qpager.cpp
+++ b/src/qpager.cpp
@@ -679,8 +679,9 @@ bitLenInt QPager::ComposeEither(QPagerPtr toCopy, bool willDestroy)
 
 QInterfacePtr QPager::Decompose(bitLenInt start, bitLenInt length)
 {
-    QPagerPtr dest = std::make_shared<QPager>(engines, qubitCount, ZERO_BCI, rand_generator, ONE_CMPLX, doNormalize,
-        randGlobalPhase, false, 0, !hardware_rand_generator ? false : true, isSparse, (real1_f)amplitudeFloor);
+    QPagerPtr dest = std::make_shared<QPager>(engines, length, ZERO_BCI, rand_generator, ONE_CMPLX, doNormalize,
+        randGlobalPhase, false, 0, !hardware_rand_generator ? false : true, isSparse, (real1_f)amplitudeFloor,
+        deviceIDs, thresholdQubitsPerPage);
 
     Decompose(start, dest);
 
-- 
2.43.0


From 075afc3b8ade682455169b5215c8bf95130b4529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:13 +0000
Subject: [PATCH 66/70] fix: QPager decompose and dispose drop amplitudes split
 across pages

---
 src/qpager.cpp | 41 +++++++----------------------------------
 1 file changed, 7 insertions(+), 34 deletions(-)

diff --git a/src/qpager.cpp b/src/qpager.cpp
index a864f88..880999b 100644
--- a/src/qpager.cpp
+++ b/src/qpager.cpp
@@ -690,54 +690,27 @@ QInterfacePtr QPager::Decompose(bitLenInt start, bitLenInt length)
 
 void QPager::Decompose(bitLenInt start, QPagerPtr dest)
 {
-    const bitLenInt length = dest->GetQubitCount();
-    CombineEngines(length + 1U);
-
-    if ((start + length) > qubitsPerPage()) {
-        ROR(start, 0, qubitCount);
-        Decompose(0, dest);
-
-        return ROL(start, 0, qubitCount);
-    }
-
+    // (The pages have to agree about how to factor out the phase.)
+    CombineEngines();
     dest->CombineEngines();
 
-    bool isDecomposed = false;
-    for (QEnginePtr& qPage : qPages) {
-        if (!isDecomposed && !qPage->IsZeroAmplitude()) {
-            qPage->Decompose(start, dest->qPages[0U]);
-            dest->qPages[0U]->UpdateRunningNorm();
-            dest->qPages[0U]->NormalizeState();
-            isDecomposed = true;
-        } else {
-            qPage->Dispose(start, length);
-        }
-    }
+    const bitLenInt length = dest->GetQubitCount();
+    qPages[0U]->Decompose(start, dest->qPages[0U]);
 
     SetQubitCount(qubitCount - length);
 
-    CombineEngines(thresholdQubitsPerPage);
     SeparateEngines();
+    dest->SeparateEngines();
 }
 
 void QPager::Dispose(bitLenInt start, bitLenInt length)
 {
-    CombineEngines(length + 1U);
-
-    if ((start + length) > qubitsPerPage()) {
-        ROR(start, 0, qubitCount);
-        Dispose(0, length);
-
-        return ROL(start, 0, qubitCount);
-    }
+    CombineEngines();
 
-    for (const QEnginePtr& qPage : qPages) {
-        qPage->Dispose(start, length);
-    }
+    qPages[0U]->Dispose(start, length);
 
     SetQubitCount(qubitCount - length);
 
-    CombineEngines(thresholdQubitsPerPage);
     SeparateEngines();
 }
 
-- 
2.43.0


From 1f50541566f5039ac0a54745f0c2de4e048b4096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:13 +0000
Subject: [PATCH 67/70] fix: QPager out of place arithmetic runs before pages
 are combined

---
 src/qpager.cpp | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/qpager.cpp b/src/qpager.cpp
index 880999b..bd77b80 100644
--- a/src/qpager.cpp
+++ b/src/qpager.cpp
@@ -1121,8 +1121,9 @@ void QPager::INCDECBCDC(const bitCapInt& toAdd, bitLenInt start, bitLenInt lengt
 #endif
 void QPager::MUL(const bitCapInt& toMul, bitLenInt inOutStart, bitLenInt carryStart, bitLenInt length)
 {
-    CombineAndOp([&](QEnginePtr engine) { engine->MUL(toMul, inOutStart, carryStart, length); },
-        { static_cast<bitLenInt>(inOutStart + length - 1U), static_cast<bitLenInt>(carryStart + length - 1U) });
+    // (This might measure, which the pages can't each do on their own.)
+    CombineEngines();
+    qPages[0U]->MUL(toMul, inOutStart, carryStart, length);
 }
 void QPager::DIV(const bitCapInt& toDiv, bitLenInt inOutStart, bitLenInt carryStart, bitLenInt length)
 {
@@ -1132,8 +1133,9 @@ void QPager::DIV(const bitCapInt& toDiv, bitLenInt inOutStart, bitLenInt carrySt
 void QPager::MULModNOut(
     const bitCapInt& toMul, const bitCapInt& modN, bitLenInt inStart, bitLenInt outStart, bitLenInt length)
 {
-    CombineAndOp([&](QEnginePtr engine) { engine->MULModNOut(toMul, modN, inStart, outStart, length); },
-        { static_cast<bitLenInt>(inStart + length - 1U), static_cast<bitLenInt>(outStart + length - 1U) });
+    // (This might measure, which the pages can't each do on their own.)
+    CombineEngines();
+    qPages[0U]->MULModNOut(toMul, modN, inStart, outStart, length);
 }
 void QPager::IMULModNOut(
     const bitCapInt& toMul, const bitCapInt& modN, bitLenInt inStart, bitLenInt outStart, bitLenInt length)
@@ -1144,8 +1146,9 @@ void QPager::IMULModNOut(
 void QPager::POWModNOut(
     const bitCapInt& base, const bitCapInt& modN, bitLenInt inStart, bitLenInt outStart, bitLenInt length)
 {
-    CombineAndOp([&](QEnginePtr engine) { engine->POWModNOut(base, modN, inStart, outStart, length); },
-        { static_cast<bitLenInt>(inStart + length - 1U), static_cast<bitLenInt>(outStart + length - 1U) });
+    // (This might measure, which the pages can't each do on their own.)
+    CombineEngines();
+    qPages[0U]->POWModNOut(base, modN, inStart, outStart, length);
 }
 void QPager::CMUL(const bitCapInt& toMul, bitLenInt inOutStart, bitLenInt carryStart, bitLenInt length,
     const std::vector<bitLenInt>& controls)
@@ -1154,9 +1157,9 @@ void QPager::CMUL(const bitCapInt& toMul, bitLenInt inOutStart, bitLenInt carryS
         return MUL(toMul, inOutStart, carryStart, length);
     }
 
-    CombineAndOpControlled([&](QEnginePtr engine) { engine->CMUL(toMul, inOutStart, carryStart, length, controls); },
-        { static_cast<bitLenInt>(inOutStart + length - 1U), static_cast<bitLenInt>(carryStart + length - 1U) },
-        controls);
+    // (This might measure, which the pages can't each do on their own.)
+    CombineEngines();
+    qPages[0U]->CMUL(toMul, inOutStart, carryStart, length, controls);
 }
 void QPager::CDIV(const bitCapInt& toDiv, bitLenInt inOutStart, bitLenInt carryStart, bitLenInt length,
     const std::vector<bitLenInt>& controls)
@@ -1176,9 +1179,9 @@ void QPager::CMULModNOut(const bitCapInt& toMul, const bitCapInt& modN, bitLenIn
         return MULModNOut(toMul, modN, inStart, outStart, length);
     }
 
-    CombineAndOpControlled(
-        [&](QEnginePtr engine) { engine->CMULModNOut(toMul, modN, inStart, outStart, length, controls); },
-        { static_cast<bitLenInt>(inStart + length - 1U), static_cast<bitLenInt>(outStart + length - 1U) }, controls);
+    // (This might measure, which the pages can't each do on their own.)
+    CombineEngines();
+    qPages[0U]->CMULModNOut(toMul, modN, inStart, outStart, length, controls);
 }
 void QPager::CIMULModNOut(const bitCapInt& toMul, const bitCapInt& modN, bitLenInt inStart, bitLenInt outStart,
     bitLenInt length, const std::vector<bitLenInt>& controls)
@@ -1198,9 +1201,9 @@ void QPager::CPOWModNOut(const bitCapInt& base, const bitCapInt& modN, bitLenInt
         return POWModNOut(base, modN, inStart, outStart, length);
     }
 
-    CombineAndOpControlled(
-        [&](QEnginePtr engine) { engine->CPOWModNOut(base, modN, inStart, outStart, length, controls); },
-        { static_cast<bitLenInt>(inStart + length - 1U), static_cast<bitLenInt>(outStart + length - 1U) }, controls);
+    // (This might measure, which the pages can't each do on their own.)
+    CombineEngines();
+    qPages[0U]->CPOWModNOut(base, modN, inStart, outStart, length, controls);
 }
 
 bitCapInt QPager::IndexedLDA(bitLenInt indexStart, bitLenInt indexLength, bitLenInt valueStart, bitLenInt valueLength,
-- 
2.43.0


From 24f323edad7ba337e8459d40da7ba492db85ab97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:13 +0000
Subject: [PATCH 68/70] fix: QPager clones keep surplus pages

---
 src/qpager.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qpager.cpp b/src/qpager.cpp
index bd77b80..b36c4cd 100644
--- a/src/qpager.cpp
+++ b/src/qpager.cpp
@@ -1513,6 +1513,7 @@ QInterfacePtr QPager::Clone()
     QPagerPtr clone = std::make_shared<QPager>(engines, qubitCount, ZERO_BCI, rand_generator, ONE_CMPLX, doNormalize,
         randGlobalPhase, false, 0, !hardware_rand_generator ? false : true, isSparse, (real1_f)amplitudeFloor,
         deviceIDs, thresholdQubitsPerPage);
+    clone->qPages.resize(qPages.size());
     for (bitCapIntOcl i = 0U; i < qPages.size(); ++i) {
         clone->qPages[i] = std::dynamic_pointer_cast<QEngine>(qPages[i]->Clone());
     }
@@ -1525,6 +1526,7 @@ QEnginePtr QPager::CloneEmpty()
     QPagerPtr clone = std::make_shared<QPager>(engines, qubitCount, ZERO_BCI, rand_generator, ONE_CMPLX, doNormalize,
         randGlobalPhase, false, 0, !hardware_rand_generator ? false : true, isSparse, (real1_f)amplitudeFloor,
         deviceIDs, thresholdQubitsPerPage);
+    clone->qPages.resize(qPages.size());
     for (bitCapIntOcl i = 0U; i < qPages.size(); ++i) {
         clone->qPages[i] = qPages[i]->CloneEmpty();
     }
@@ -1537,6 +1539,7 @@ QInterfacePtr QPager::Copy()
     QPagerPtr clone = std::make_shared<QPager>(engines, qubitCount, ZERO_BCI, rand_generator, ONE_CMPLX, doNormalize,
         randGlobalPhase, false, 0, !hardware_rand_generator ? false : true, isSparse, (real1_f)amplitudeFloor,
         deviceIDs, thresholdQubitsPerPage);
+    clone->qPages.resize(qPages.size());
     for (bitCapIntOcl i = 0U; i < qPages.size(); ++i) {
         clone->qPages[i] = std::dynamic_pointer_cast<QEngine>(qPages[i]->Copy());
     }
-- 
2.43.0


From 7ea346f75bb9049eb3a209a3a2756da2e6212b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:13 +0000
Subject: [PATCH 69/70] fix: QPager state comparison adds page fidelities

---
 src/qpager.cpp | 34 ++++++----------------------------
 1 file changed, 6 insertions(+), 28 deletions(-)

diff --git a/src/qpager.cpp b/src/qpager.cpp
index b36c4cd..030d9ec 100644
--- a/src/qpager.cpp
+++ b/src/qpager.cpp
@@ -1558,36 +1558,14 @@ real1_f QPager::SumSqrDiff(QPagerPtr toCompare)
         return ONE_R1_F;
     }
 
-    SeparateEngines(toCompare->qubitsPerPage());
-    toCompare->SeparateEngines(qubitsPerPage());
-    CombineEngines(toCompare->qubitsPerPage());
-    toCompare->CombineEngines(qubitsPerPage());
+    // (The inner product of the states isn't determined by the fidelities of the pages.)
+    CombineEngines();
+    toCompare->CombineEngines();
 
-    real1_f toRet = ZERO_R1_F;
-#if ENABLE_PTHREAD
-    const unsigned numCores = GetConcurrencyLevel();
-    const bitCapIntOcl fCount = (qPages.size() < numCores) ? qPages.size() : numCores;
-    std::vector<std::future<real1_f>> futures(fCount);
-#endif
-    for (bitCapIntOcl i = 0U; i < qPages.size(); ++i) {
-        QEnginePtr lEngine = qPages[i];
-        QEnginePtr rEngine = toCompare->qPages[i];
-#if ENABLE_PTHREAD
-        const bitCapIntOcl iF = i % fCount;
-        if (i != iF) {
-            toRet += futures[iF].get();
-        }
-        futures[iF] = std::async(std::launch::async, [lEngine, rEngine]() { return lEngine->SumSqrDiff(rEngine); });
-#else
-        toRet += lEngine->SumSqrDiff(rEngine);
-#endif
-    }
+    const real1_f toRet = qPages[0U]->SumSqrDiff(toCompare->qPages[0U]);
 
-#if ENABLE_PTHREAD
-    for (std::future<real1_f>& future : futures) {
-        toRet += future.get();
-    }
-#endif
+    SeparateEngines();
+    toCompare->SeparateEngines();
 
     return toRet;
 }
-- 
2.43.0


From 1a8708783c6bcc28fda208b5bfa655f94a131964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:43 +0000
Subject: [PATCH 70/70] fix: QUnit uses a stale basis or stale buffers after
 flushing separates a qubit

---
 include/qunit.hpp |  38 ++++++++-------
 src/qunit.cpp     | 115 ++++++++++++++++++++++++----------------------
 2 files changed, 80 insertions(+), 73 deletions(-)

diff --git a/include/qunit.hpp b/include/qunit.hpp
index a2be92f..8cabd9f 100644
--- a/include/qunit.hpp
+++ b/include/qunit.hpp
@@ -971,8 +971,8 @@ protected:
     enum RevertAnti { CTRL_AND_ANTI = 0, ONLY_CTRL = 1, ONLY_ANTI = 2 };
 
     void ApplyBuffer(PhaseShardPtr phaseShard, bitLenInt control, bitLenInt target, bool isAnti);
-    void ApplyBufferMap(bitLenInt bitIndex, ShardToPhaseMap bufferMap, RevertExclusivity exclusivity, bool isControl,
-        bool isAnti, const std::set<bitLenInt>& exceptPartners, bool dumpSkipped);
+    bool ApplyBufferMap(bitLenInt bitIndex, const ShardToPhaseMap& bufferMap, RevertExclusivity exclusivity,
+        bool isControl, bool isAnti, const std::set<bitLenInt>& exceptPartners, bool dumpSkipped);
     void RevertBasis2Qb(bitLenInt i, RevertExclusivity exclusivity = INVERT_AND_PHASE,
         RevertControl controlExclusivity = CONTROLS_AND_TARGETS, RevertAnti antiExclusivity = CTRL_AND_ANTI,
         const std::set<bitLenInt>& exceptControlling = {}, const std::set<bitLenInt>& exceptTargetedBy = {},
@@ -996,33 +996,37 @@ protected:
         }
         RevertBasis2Qb(i, INVERT_AND_PHASE, ONLY_CONTROLS, ONLY_CTRL);
     }
-    void ToPermBasis(bitLenInt i)
-    {
-        RevertBasis1Qb(i);
-        RevertBasis2Qb(i);
+    // Changing the basis of one qubit can separate others, and a newly separated qubit might be kept in another basis.
+    void RevertBasis1Qb(bitLenInt start, bitLenInt length)
+    {
+        bool isReverted;
+        do {
+            isReverted = true;
+            for (bitLenInt i = 0U; i < length; ++i) {
+                if (shards[start + i].pauliBasis != PauliZ) {
+                    RevertBasis1Qb(start + i);
+                    isReverted = false;
+                }
+            }
+        } while (!isReverted);
     }
+    void ToPermBasis(bitLenInt i) { ToPermBasis(i, 1U); }
     void ToPermBasis(bitLenInt start, bitLenInt length)
     {
-        for (bitLenInt i = 0U; i < length; ++i) {
-            RevertBasis1Qb(start + i);
-        }
+        RevertBasis1Qb(start, length);
         for (bitLenInt i = 0U; i < length; ++i) {
             RevertBasis2Qb(start + i);
         }
+        RevertBasis1Qb(start, length);
     }
-    void ToPermBasisProb(bitLenInt qubit)
-    {
-        RevertBasis1Qb(qubit);
-        RevertBasis2Qb(qubit, ONLY_INVERT, ONLY_TARGETS);
-    }
+    void ToPermBasisProb(bitLenInt qubit) { ToPermBasisProb(qubit, 1U); }
     void ToPermBasisProb(bitLenInt start, bitLenInt length)
     {
-        for (bitLenInt i = 0U; i < length; ++i) {
-            RevertBasis1Qb(start + i);
-        }
+        RevertBasis1Qb(start, length);
         for (bitLenInt i = 0U; i < length; ++i) {
             RevertBasis2Qb(start + i, ONLY_INVERT, ONLY_TARGETS);
         }
+        RevertBasis1Qb(start, length);
     }
     void ToPermBasisAll() { ToPermBasis(0U, qubitCount); }
     void ToPermBasisProb() { ToPermBasisProb(0U, qubitCount); }
diff --git a/src/qunit.cpp b/src/qunit.cpp
index d6d5045..150e56e 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -420,8 +420,6 @@ QInterfacePtr QUnit::EntangleInCurrentBasis(
         throw std::invalid_argument("QUnit::EntangleInCurrentBasis() vector argument cannot be empty!");
     }
 
-    const QUnitPtr backupCopy = std::dynamic_pointer_cast<QUnit>(Copy());
-
     for (auto bit = first; bit < last; ++bit) {
         EndEmulation(**bit);
     }
@@ -451,7 +449,7 @@ QInterfacePtr QUnit::EntangleInCurrentBasis(
             }
 
             if (isThrow) {
-                Copy(backupCopy);
+                // (Nothing has been composed, yet.)
                 throw bad_alloc("RAM limits exceeded in QUnit::EntangleInCurrentBasis()");
             }
         }
@@ -538,6 +536,9 @@ QInterfacePtr QUnit::Entangle(std::vector<bitLenInt*> bits)
     for (const auto& bit : bits) {
         ToPermBasis(*bit);
     }
+    for (const auto& bit : bits) {
+        RevertBasis1Qb(*bit);
+    }
     return EntangleInCurrentBasis(bits.begin(), bits.end());
 }
 
@@ -570,6 +571,7 @@ QInterfacePtr QUnit::EntangleRange(bitLenInt start1, bitLenInt length1, bitLenIn
 {
     ToPermBasis(start1, length1);
     ToPermBasis(start2, length2);
+    RevertBasis1Qb(start1, length1);
 
     std::vector<bitLenInt> bits(length1 + length2);
     std::vector<bitLenInt*> ebits(length1 + length2);
@@ -600,6 +602,8 @@ QInterfacePtr QUnit::EntangleRange(
     ToPermBasis(start1, length1);
     ToPermBasis(start2, length2);
     ToPermBasis(start3, length3);
+    RevertBasis1Qb(start1, length1);
+    RevertBasis1Qb(start2, length2);
 
     std::vector<bitLenInt> bits(length1 + length2 + length3);
     std::vector<bitLenInt*> ebits(length1 + length2 + length3);
@@ -4073,67 +4077,56 @@ void QUnit::ApplyBuffer(PhaseShardPtr phaseShard, bitLenInt control, bitLenInt t
     freezeBasis2Qb = false;
 }
 
-void QUnit::ApplyBufferMap(bitLenInt bitIndex, ShardToPhaseMap bufferMap, RevertExclusivity exclusivity, bool isControl,
-    bool isAnti, const std::set<bitLenInt>& exceptPartners, bool dumpSkipped)
+bool QUnit::ApplyBufferMap(bitLenInt bitIndex, const ShardToPhaseMap& bufferMap, RevertExclusivity exclusivity,
+    bool isControl, bool isAnti, const std::set<bitLenInt>& exceptPartners, bool dumpSkipped)
 {
     QEngineShard& shard = shards[bitIndex];
 
-    ShardToPhaseMap::iterator phaseShard;
-
-    while (bufferMap.size()) {
-        phaseShard = bufferMap.begin();
-        QEngineShardPtr partner = phaseShard->first;
+    bool isApplied = false;
 
-        if (((exclusivity == ONLY_INVERT) && !phaseShard->second->isInvert) ||
-            ((exclusivity == ONLY_PHASE) && phaseShard->second->isInvert)) {
-            bufferMap.erase(phaseShard);
-            if (dumpSkipped) {
-                shard.RemoveTarget(partner);
-            }
-            continue;
-        }
+    auto phaseShard = bufferMap.begin();
+    while (phaseShard != bufferMap.end()) {
+        const QEngineShardPtr partner = phaseShard->first;
+        const PhaseShardPtr s = phaseShard->second;
+        const bitLenInt partnerIndex = FindShardIndex(partner);
 
-        bitLenInt partnerIndex = FindShardIndex(partner);
+        const bool isSkipped = ((exclusivity == ONLY_INVERT) && !s->isInvert) ||
+            ((exclusivity == ONLY_PHASE) && s->isInvert) ||
+            (exceptPartners.find(partnerIndex) != exceptPartners.end());
 
-        if (exceptPartners.find(partnerIndex) != exceptPartners.end()) {
-            bufferMap.erase(phaseShard);
-            if (dumpSkipped) {
-                if (isControl) {
-                    if (isAnti) {
-                        shard.RemoveAntiTarget(partner);
-                    } else {
-                        shard.RemoveTarget(partner);
-                    }
-                } else {
-                    if (isAnti) {
-                        shard.RemoveAntiControl(partner);
-                    } else {
-                        shard.RemoveControl(partner);
-                    }
-                }
-            }
+        if (isSkipped && !dumpSkipped) {
+            ++phaseShard;
             continue;
         }
 
-        PhaseShardPtr s = phaseShard->second;
-        bufferMap.erase(phaseShard);
-
         if (isControl) {
             if (isAnti) {
                 shard.RemoveAntiTarget(partner);
             } else {
                 shard.RemoveTarget(partner);
             }
-            ApplyBuffer(s, bitIndex, partnerIndex, isAnti);
         } else {
             if (isAnti) {
                 shard.RemoveAntiControl(partner);
             } else {
                 shard.RemoveControl(partner);
             }
-            ApplyBuffer(s, partnerIndex, bitIndex, isAnti);
         }
+
+        if (!isSkipped) {
+            isApplied = true;
+            if (isControl) {
+                ApplyBuffer(s, bitIndex, partnerIndex, isAnti);
+            } else {
+                ApplyBuffer(s, partnerIndex, bitIndex, isAnti);
+            }
+        }
+
+        // (Applying a buffer can change any of the other buffers of the qubit, so start over.)
+        phaseShard = bufferMap.begin();
     }
+
+    return isApplied;
 }
 
 void QUnit::RevertBasis2Qb(bitLenInt i, RevertExclusivity exclusivity, RevertControl controlExclusivity,
@@ -4167,25 +4160,35 @@ void QUnit::RevertBasis2Qb(bitLenInt i, RevertExclusivity exclusivity, RevertCon
         }
     }
 
-    if (controlExclusivity != ONLY_TARGETS) {
+    // (Applying a buffer can turn the qubit from the target of another buffer into its control, or vice versa.)
+    bool isApplied;
+    do {
+        isApplied = false;
+
+        if (controlExclusivity != ONLY_TARGETS) {
+            if (antiExclusivity != ONLY_ANTI) {
+                isApplied |=
+                    ApplyBufferMap(i, shard.controlsShards, exclusivity, true, false, exceptControlling, dumpSkipped);
+            }
+            if (antiExclusivity != ONLY_CTRL) {
+                isApplied |=
+                    ApplyBufferMap(i, shard.antiControlsShards, exclusivity, true, true, exceptControlling, dumpSkipped);
+            }
+        }
+
+        if (controlExclusivity == ONLY_CONTROLS) {
+            continue;
+        }
+
         if (antiExclusivity != ONLY_ANTI) {
-            ApplyBufferMap(i, shard.controlsShards, exclusivity, true, false, exceptControlling, dumpSkipped);
+            isApplied |=
+                ApplyBufferMap(i, shard.targetOfShards, exclusivity, false, false, exceptTargetedBy, dumpSkipped);
         }
         if (antiExclusivity != ONLY_CTRL) {
-            ApplyBufferMap(i, shard.antiControlsShards, exclusivity, true, true, exceptControlling, dumpSkipped);
+            isApplied |=
+                ApplyBufferMap(i, shard.antiTargetOfShards, exclusivity, false, true, exceptTargetedBy, dumpSkipped);
         }
-    }
-
-    if (controlExclusivity == ONLY_CONTROLS) {
-        return;
-    }
-
-    if (antiExclusivity != ONLY_ANTI) {
-        ApplyBufferMap(i, shard.targetOfShards, exclusivity, false, false, exceptTargetedBy, dumpSkipped);
-    }
-    if (antiExclusivity != ONLY_CTRL) {
-        ApplyBufferMap(i, shard.antiTargetOfShards, exclusivity, false, true, exceptTargetedBy, dumpSkipped);
-    }
+    } while (isApplied);
 }
 
 void QUnit::CommuteH(bitLenInt bitIndex)
-- 
2.43.0

