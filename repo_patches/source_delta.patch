From 335c73ac75a60db43446c49238ebd9e44ced7421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:56 +0000
Subject: [PATCH 01/89] fix: record predecessors in Graph::getShortestPath

The path was rebuilt from one successor per vertex, which a later successor
overwrote: the walk returned wrong paths or did not terminate whenever a
vertex on the way had more than one successor.
---
 lib/Utils/Graph/Graph.h | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/lib/Utils/Graph/Graph.h b/lib/Utils/Graph/Graph.h
index c01c705..28a9575 100644
--- a/lib/Utils/Graph/Graph.h
+++ b/lib/Utils/Graph/Graph.h
@@ -454,7 +454,6 @@ class Graph {
       q.pop();
 
       if (curr == end) {
-        distance[curr] = 0;
         break;
       }
 
@@ -470,10 +469,8 @@ class Graph {
 
       for (auto& next : outEdges.at(curr)) {
         if (distance[next] > distance[curr] + weight_fn(curr, next)) {
-          linkback[curr] = next;
+          linkback[next] = curr;
           distance[next] = distance[curr] + weight_fn(curr, next);
-        } else if (distance[curr] == 0) {
-          linkback[curr] = next;
         }
         q.push(next);
       }
@@ -481,12 +478,11 @@ class Graph {
 
     if (distance[end] != std::numeric_limits<uint64_t>::max()) {
       // some path found
-      auto curr = start;
-      while (curr != end) {
+      for (V curr = end; curr != start; curr = linkback.at(curr)) {
         path.push_back(curr);
-        curr = linkback[curr];
       }
-      path.push_back(end);
+      path.push_back(start);
+      std::reverse(path.begin(), path.end());
     } else {
       return failure();
     }
-- 
2.43.0


From 783d91e96e088ce25474ece7cc07e859b5e9efc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:56 +0000
Subject: [PATCH 02/89] fix: keep the vertex when contracting a self-loop

contractEdge(v, v) deleted v and its edges, so condenseGraph lost whole
components containing a self-loop (or never terminated); a self-loop on a
single vertex was left in place although the condensation must be acyclic.
---
 lib/Utils/Graph/Graph.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/Utils/Graph/Graph.h b/lib/Utils/Graph/Graph.h
index 28a9575..b661013 100644
--- a/lib/Utils/Graph/Graph.h
+++ b/lib/Utils/Graph/Graph.h
@@ -118,6 +118,14 @@ class Graph {
     if (!hasEdge(source, target)) return false;
 
     invalidateCachedEdges();
+    // A self-loop has no second vertex to merge: contracting it removes it.
+    if (source == target) {
+      outEdges[source].erase(source);
+      inEdges[source].erase(source);
+      weights.erase({source, source});
+      return true;
+    }
+
     // Merge target into source
     if (mergeFn) mergeFn(source, target);
 
@@ -233,6 +241,7 @@ class Graph {
     auto sccs = getStronglyConnectedComponents();
 
     for (auto& scc : sccs) {
+      for (const V& v : scc) contractEdge(v, v);
       if (scc.size() <= 1) continue;
 
       // needs multiples passes as contractEdge can create new edges between
-- 
2.43.0


From 3960278934faeb7e63b63a9fac7b4c99904b719d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:58 +0000
Subject: [PATCH 03/89] fix: test the pointer, not the value, in EvalVisitor
 floor division

---
 lib/Kernel/EvalVisitor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Kernel/EvalVisitor.cpp b/lib/Kernel/EvalVisitor.cpp
index cfe710b..54dc8e2 100644
--- a/lib/Kernel/EvalVisitor.cpp
+++ b/lib/Kernel/EvalVisitor.cpp
@@ -139,7 +139,7 @@ EvalResults EvalVisitor::operator()(const FloorDivNode<LiteralValue>& node) {
 
   // Scalar case
   const auto* lScalar = std::get_if<int>(&lVal);
-  if (*lScalar) {
+  if (lScalar) {
     return {LiteralValue(*lScalar / node.divisor)};
   }
 
-- 
2.43.0


From 63e67b6f0f5333f415add330b12f21f61682b13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:18 +0000
Subject: [PATCH 04/89] fix: do not merge terms of different exponents in
 polynomial addition

---
 lib/Utils/Polynomial/Polynomial.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/Utils/Polynomial/Polynomial.h b/lib/Utils/Polynomial/Polynomial.h
index ac67cba..0d9bb65 100644
--- a/lib/Utils/Polynomial/Polynomial.h
+++ b/lib/Utils/Polynomial/Polynomial.h
@@ -213,6 +213,7 @@ class PolynomialBase {
         if (it2 == other.terms.end()) break;
       }
       if (it2 == other.terms.end()) continue;
+      if (it1->getExponent() != it2->getExponent()) continue;
 
       Monomial newTerm = it1->add(*it2);
       if (!newTerm.getCoefficient().isZero()) newTerms.push_back(newTerm);
-- 
2.43.0


From 8cd4c5d5593eb031a0b5c33b12395d3cd253382d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:18 +0000
Subject: [PATCH 05/89] fix: multiply by the zero polynomial without reading
 its degree

---
 lib/Utils/Polynomial/Polynomial.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/Utils/Polynomial/Polynomial.h b/lib/Utils/Polynomial/Polynomial.h
index 0d9bb65..1d25726 100644
--- a/lib/Utils/Polynomial/Polynomial.h
+++ b/lib/Utils/Polynomial/Polynomial.h
@@ -225,6 +225,8 @@ class PolynomialBase {
   }
 
   Derived naiveMul(const Derived& other) const {
+    if (isZero() || other.isZero()) return Derived::zero();
+
     SmallVector<Monomial> newTerms;
     size_t maxDegree = getDegree() + other.getDegree();
     newTerms.reserve(maxDegree + 1);
-- 
2.43.0


From ed8060bf743db34bd93e38e864b76220d4d4ecca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:18 +0000
Subject: [PATCH 06/89] fix: subtract d_2 when composing a degree 2 Chebyshev
 series

---
 lib/Utils/Polynomial/Polynomial.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/Utils/Polynomial/Polynomial.cpp b/lib/Utils/Polynomial/Polynomial.cpp
index f5240c5..4ea3956 100644
--- a/lib/Utils/Polynomial/Polynomial.cpp
+++ b/lib/Utils/Polynomial/Polynomial.cpp
@@ -145,6 +145,7 @@ ChebyshevPolynomial ChebyshevPolynomial::compose(
   SmallVector<APFloat> d_kplus2;
   SmallVector<APFloat> d_kplus1 = {c[n]};
   SmallVector<APFloat> d_2_coeffs;
+  if (n == 2) d_2_coeffs = d_kplus1;
 
   for (int k = n - 1; k >= 0; --k) {
     int deg_kplus1 = n - (k + 1);
-- 
2.43.0


From aad08f39e810036894e4b643e1dc5d031ac84344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:18 +0000
Subject: [PATCH 07/89] fix: compose a Chebyshev series that has no terms

---
 lib/Utils/Polynomial/Polynomial.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Utils/Polynomial/Polynomial.cpp b/lib/Utils/Polynomial/Polynomial.cpp
index 4ea3956..bc67b2f 100644
--- a/lib/Utils/Polynomial/Polynomial.cpp
+++ b/lib/Utils/Polynomial/Polynomial.cpp
@@ -129,10 +129,10 @@ ChebyshevPolynomial ChebyshevPolynomial::compose(
   // Since y is a polynomial in x, the d_k are also polynomials in x. We can
   // compute the Chebyshev coefficients of each d_k iteratively.
 
-  int n = getDegree();
-  if (n < 0) {
+  if (terms.empty()) {
     return ChebyshevPolynomial::zero();
   }
+  int n = getDegree();
 
   auto otherCoeffs = other.getCoeffMap();
   APFloat b = otherCoeffs.contains(0) ? otherCoeffs.at(0).getCoefficient()
-- 
2.43.0


From 44c12df1100860b297a139c7502ff3f1644b961d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:18 +0000
Subject: [PATCH 08/89] fix: normalize the whole envelope in standardChop

---
 lib/Utils/Approximation/Chebyshev.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Utils/Approximation/Chebyshev.cpp b/lib/Utils/Approximation/Chebyshev.cpp
index 5b23ea8..4079173 100644
--- a/lib/Utils/Approximation/Chebyshev.cpp
+++ b/lib/Utils/Approximation/Chebyshev.cpp
@@ -182,8 +182,9 @@ size_t standardChop(SmallVector<APFloat> coeffs, double tol) {
   if (envelope[0].isZero()) return 1;
 
   // Normalize the envelope.
+  APFloat maxCoeff = envelope[0];
   for (int i = 0; i < envelope.size(); ++i) {
-    envelope[i] = envelope[i] / envelope[0];
+    envelope[i] = envelope[i] / maxCoeff;
   }
 
   // Step 2: Scan ENVELOPE for a value PLATEAUPOINT, the first point J-1, if
-- 
2.43.0


From f5ce98c0c84cacc7b31bbd3b1aa1875da8b39667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:18 +0000
Subject: [PATCH 09/89] fix: write the last envelope entry in bounds in
 standardChop

---
 lib/Utils/Approximation/Chebyshev.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Utils/Approximation/Chebyshev.cpp b/lib/Utils/Approximation/Chebyshev.cpp
index 4079173..774161e 100644
--- a/lib/Utils/Approximation/Chebyshev.cpp
+++ b/lib/Utils/Approximation/Chebyshev.cpp
@@ -251,7 +251,7 @@ size_t standardChop(SmallVector<APFloat> coeffs, double tol) {
   }
   if (j3 < j2) {
     j2 = j3 + 1;
-    envelope[j2] = APFloat(std::pow(tol, 7.0 / 6.0));
+    envelope[j2 - 1] = APFloat(std::pow(tol, 7.0 / 6.0));
   }
 
   SmallVector<double> cc;
-- 
2.43.0


From 6da29dba6ef4007be419b6f369934af9dea21e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:58 +0000
Subject: [PATCH 10/89] fix: modular exponentiation modulo one is zero

---
 lib/Utils/APIntUtils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Utils/APIntUtils.cpp b/lib/Utils/APIntUtils.cpp
index 96546d3..5f50676 100644
--- a/lib/Utils/APIntUtils.cpp
+++ b/lib/Utils/APIntUtils.cpp
@@ -63,7 +63,8 @@ APInt multiplicativeInverse(const APInt& x, const APInt& modulo) {
 
 APInt modularExponentiation(const APInt& base, const APInt& exponent,
                             const APInt& modulus) {
-  APInt res(modulus.getBitWidth(), 1);
+  // Modulo one, every power is zero.
+  APInt res = APInt(modulus.getBitWidth(), 1).urem(modulus);
   APInt b = base.urem(modulus);
   APInt e = exponent;
 
-- 
2.43.0


From b92420bb672db82b8b0ce186a2398fe85d4070a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:58 +0000
Subject: [PATCH 11/89] fix: do not overflow the trial divisor bound in
 factorize

---
 lib/Utils/APIntUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Utils/APIntUtils.cpp b/lib/Utils/APIntUtils.cpp
index 5f50676..1d75321 100644
--- a/lib/Utils/APIntUtils.cpp
+++ b/lib/Utils/APIntUtils.cpp
@@ -121,7 +121,7 @@ std::vector<APInt> factorize(APInt n) {
   // Fast path for 64-bit integers or smaller
   if (n.getActiveBits() <= 64) {
     uint64_t val = n.getZExtValue();
-    for (uint64_t d = 2; d * d <= val; ++d) {
+    for (uint64_t d = 2; d <= val / d; ++d) {
       if (val % d == 0) {
         factors.push_back(APInt(width, d));
         while (val % d == 0) {
-- 
2.43.0


From 3d93ee71dcbefd811235300048c374e694ae72c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:58 +0000
Subject: [PATCH 12/89] fix: reject a root order wider than the modulus instead
 of truncating it

---
 lib/Utils/MathUtils.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/Utils/MathUtils.cpp b/lib/Utils/MathUtils.cpp
index 9c3736d..0e8e6b6 100644
--- a/lib/Utils/MathUtils.cpp
+++ b/lib/Utils/MathUtils.cpp
@@ -8,6 +8,7 @@
 #include "lib/Utils/APIntUtils.h"
 #include "llvm/include/llvm/ADT/APFloat.h"   // from @llvm-project
 #include "llvm/include/llvm/ADT/APInt.h"     // from @llvm-project
+#include "llvm/include/llvm/Support/MathExtras.h"  // from @llvm-project
 #include "mlir/include/mlir/Support/LLVM.h"  // from @llvm-project
 
 namespace mlir {
@@ -93,6 +94,8 @@ std::optional<APInt> findPrimitiveRoot(const APInt& q) {
 /// r is guaranteed to be a primitive 2n-th root of unity.
 std::optional<APInt> findPrimitive2nthRoot(const APInt& q, uint64_t n) {
   uint64_t two_n = 2 * n;
+  // A value that q's bit width cannot hold is larger than q - 1.
+  if (!llvm::isUIntN(q.getBitWidth(), two_n)) return std::nullopt;
   APInt two_n_ap(q.getBitWidth(), two_n);
   if (!q.urem(two_n_ap).isOne()) {
     // 2n must divide q - 1, which means q % 2n == 1
-- 
2.43.0


From 0b1e23e078085473dc5ba66f6f40246a6f31835b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:47 +0000
Subject: [PATCH 13/89] fix: square the plaintext modulus in floating point in
 the noise models

---
 .../NoiseAnalysis/BFV/NoiseByVarianceCoeffModel.cpp       | 2 +-
 lib/Analysis/NoiseAnalysis/BGV/NoiseByBoundCoeffModel.cpp | 2 +-
 .../NoiseAnalysis/BGV/NoiseByVarianceCoeffModel.cpp       | 8 ++++----
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/Analysis/NoiseAnalysis/BFV/NoiseByVarianceCoeffModel.cpp b/lib/Analysis/NoiseAnalysis/BFV/NoiseByVarianceCoeffModel.cpp
index ba6f1ec..48fe859 100644
--- a/lib/Analysis/NoiseAnalysis/BFV/NoiseByVarianceCoeffModel.cpp
+++ b/lib/Analysis/NoiseAnalysis/BFV/NoiseByVarianceCoeffModel.cpp
@@ -213,7 +213,7 @@ NoiseByVarianceCoeffModel::evalRelinearizeHYBRID(
   auto varianceErr = getVarianceErr(inputParam);
   auto varianceKey = getVarianceKey(inputParam);
   auto ringDim = inputParam.getSchemeParam()->getRingDim();
-  auto t = inputParam.getSchemeParam()->getPlaintextModulus();
+  double t = inputParam.getSchemeParam()->getPlaintextModulus();
 
   auto level = inputParam.getSchemeParam()->getLevel();
   // modup from Q to QP, so one more digit
diff --git a/lib/Analysis/NoiseAnalysis/BGV/NoiseByBoundCoeffModel.cpp b/lib/Analysis/NoiseAnalysis/BGV/NoiseByBoundCoeffModel.cpp
index 80fa727..aecf56a 100644
--- a/lib/Analysis/NoiseAnalysis/BGV/NoiseByBoundCoeffModel.cpp
+++ b/lib/Analysis/NoiseAnalysis/BGV/NoiseByBoundCoeffModel.cpp
@@ -151,7 +151,7 @@ typename NoiseByBoundCoeffModel::StateType NoiseByBoundCoeffModel::evalAdd(
 typename NoiseByBoundCoeffModel::StateType NoiseByBoundCoeffModel::evalMul(
     const LocalParamType& resultParam, const StateType& lhs,
     const StateType& rhs) const {
-  auto t = resultParam.getSchemeParam()->getPlaintextModulus();
+  double t = resultParam.getSchemeParam()->getPlaintextModulus();
   auto expansionFactor = getExpansionFactor(resultParam);
   auto ringDim = resultParam.getSchemeParam()->getRingDim();
 
diff --git a/lib/Analysis/NoiseAnalysis/BGV/NoiseByVarianceCoeffModel.cpp b/lib/Analysis/NoiseAnalysis/BGV/NoiseByVarianceCoeffModel.cpp
index 617fef7..b51704f 100644
--- a/lib/Analysis/NoiseAnalysis/BGV/NoiseByVarianceCoeffModel.cpp
+++ b/lib/Analysis/NoiseAnalysis/BGV/NoiseByVarianceCoeffModel.cpp
@@ -66,7 +66,7 @@ typename Model::StateType Model::evalEncryptPk(
   auto varianceError = getVarianceErr(param);
   // uniform ternary
   auto varianceKey = getVarianceKey(param);
-  auto t = param.getSchemeParam()->getPlaintextModulus();
+  double t = param.getSchemeParam()->getPlaintextModulus();
   auto n = param.getSchemeParam()->getRingDim();
   // public key (-as + t * e, a)
   // public key encryption (-aus + t(u * e + e_0) + m, au + e_1)
@@ -80,7 +80,7 @@ typename Model::StateType Model::evalEncryptPk(
 
 typename Model::StateType Model::evalEncryptSk(
     const LocalParamType& param) const {
-  auto t = param.getSchemeParam()->getPlaintextModulus();
+  double t = param.getSchemeParam()->getPlaintextModulus();
   auto varianceError = getVarianceErr(param);
 
   // secret key s
@@ -110,7 +110,7 @@ typename Model::StateType Model::evalEncrypt(
 
 typename Model::StateType Model::evalConstant(
     const LocalParamType& param) const {
-  auto t = param.getSchemeParam()->getPlaintextModulus();
+  double t = param.getSchemeParam()->getPlaintextModulus();
   // constant is v = m + t * 0
   // assume m is uniform from [-t/2, t/2]
   // var_constant = t * t / 12
@@ -182,7 +182,7 @@ typename Model::StateType Model::evalRelinearizeHYBRID(
   auto varianceErr = getVarianceErr(inputParam);
   auto varianceKey = getVarianceKey(inputParam);
   auto ringDim = inputParam.getSchemeParam()->getRingDim();
-  auto t = inputParam.getSchemeParam()->getPlaintextModulus();
+  double t = inputParam.getSchemeParam()->getPlaintextModulus();
 
   auto currentLevel = inputParam.getCurrentLevel();
   // modup from Ql to QlP, so one more digit
-- 
2.43.0


From d2bf45f54ea8f72de93fee1300953d221a6861b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:47 +0000
Subject: [PATCH 14/89] fix: count the fresh error's own variance in the
 canonical embedding models

---
 lib/Analysis/NoiseAnalysis/BFV/NoiseCanEmbModel.cpp | 2 +-
 lib/Analysis/NoiseAnalysis/BGV/NoiseCanEmbModel.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Analysis/NoiseAnalysis/BFV/NoiseCanEmbModel.cpp b/lib/Analysis/NoiseAnalysis/BFV/NoiseCanEmbModel.cpp
index 914b5b3..ea9fc08 100644
--- a/lib/Analysis/NoiseAnalysis/BFV/NoiseCanEmbModel.cpp
+++ b/lib/Analysis/NoiseAnalysis/BFV/NoiseCanEmbModel.cpp
@@ -97,7 +97,7 @@ typename Model::StateType Model::evalEncryptPk(
   // ||u * e + e_1 * s + e_0||
   // <= D * sqrt(phi(m) * (2 * phi(m) * V_err * V_key + V_err))
   double innerTerm =
-      phi * (2. * phi * varianceError * varianceKey + varianceKey);
+      phi * (2. * phi * varianceError * varianceKey + varianceError);
   double fresh = d * sqrt(innerTerm);
   return StateType::of(fresh);
 }
diff --git a/lib/Analysis/NoiseAnalysis/BGV/NoiseCanEmbModel.cpp b/lib/Analysis/NoiseAnalysis/BGV/NoiseCanEmbModel.cpp
index 38cbc33..391fdfc 100644
--- a/lib/Analysis/NoiseAnalysis/BGV/NoiseCanEmbModel.cpp
+++ b/lib/Analysis/NoiseAnalysis/BGV/NoiseCanEmbModel.cpp
@@ -107,7 +107,7 @@ typename Model::StateType Model::evalEncryptPk(
   // ||m + t * (u * e + e_1 * s + e_0)||
   // <= D * t * sqrt(phi(m) * (1/12 + 2 * phi(m) * V_err * V_key + V_err))
   double innerTerm =
-      phi * (1. / 12. + 2. * phi * varianceError * varianceKey + varianceKey);
+      phi * (1. / 12. + 2. * phi * varianceError * varianceKey + varianceError);
   double fresh = d * t * sqrt(innerTerm);
   return StateType::of(fresh);
 }
-- 
2.43.0


From 0beb5df67ee7645b3f53d45677f0cc9ce9868ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:47 +0000
Subject: [PATCH 15/89] fix: account for the plaintext modulus in the BFV
 canonical embedding budget

---
 lib/Analysis/NoiseAnalysis/BFV/NoiseCanEmbModel.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/Analysis/NoiseAnalysis/BFV/NoiseCanEmbModel.cpp b/lib/Analysis/NoiseAnalysis/BFV/NoiseCanEmbModel.cpp
index ea9fc08..f1a61f9 100644
--- a/lib/Analysis/NoiseAnalysis/BFV/NoiseCanEmbModel.cpp
+++ b/lib/Analysis/NoiseAnalysis/BFV/NoiseCanEmbModel.cpp
@@ -42,7 +42,9 @@ double Model::toLogTotal(const LocalParamType& param) const {
   for (auto i = 0; i <= param.getCurrentLevel(); ++i) {
     total += logqi[i];
   }
-  return total - 1.0;
+  // (Q/t)m + e decrypts correctly while ||e|| < Q / (2t)
+  double logT = log2(param.getSchemeParam()->getPlaintextModulus());
+  return total - logT - 1.0;
 }
 
 double Model::getVarianceErr(const LocalParamType& param) const {
-- 
2.43.0


From f37e15d90c95a12b273948a117e0a24538ae3f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:47 +0000
Subject: [PATCH 16/89] fix: record the level, not the number of moduli, in
 CKKS parameters

---
 lib/Parameters/CKKS/Params.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Parameters/CKKS/Params.cpp b/lib/Parameters/CKKS/Params.cpp
index 981513b..5ac609a 100644
--- a/lib/Parameters/CKKS/Params.cpp
+++ b/lib/Parameters/CKKS/Params.cpp
@@ -229,7 +229,7 @@ SchemeParam SchemeParam::getConcreteSchemeParam(
   }
 
   return SchemeParam(
-      RLWESchemeParam(ringDim, numScaleMod + 1, logqi, qiImpl, dnum, logpi,
+      RLWESchemeParam(ringDim, numScaleMod, logqi, qiImpl, dnum, logpi,
                       piImpl, usePublicKey, encryptionTechniqueExtended),
       logDefaultScale);
 }
-- 
2.43.0


From 7110ccbca25435c005c26a87e00e6cdc6fd982ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:53 +0000
Subject: [PATCH 17/89] fix: only grow the ring dimension while regenerating
 primes

---
 lib/Parameters/CKKS/Params.cpp | 2 +-
 lib/Parameters/RLWEParams.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Parameters/CKKS/Params.cpp b/lib/Parameters/CKKS/Params.cpp
index 5ac609a..0508fe0 100644
--- a/lib/Parameters/CKKS/Params.cpp
+++ b/lib/Parameters/CKKS/Params.cpp
@@ -213,7 +213,7 @@ SchemeParam SchemeParam::getConcreteSchemeParam(
       newLogPQ += log2(pi);
     }
     auto newRingDim = computeRingDim(newLogPQ, minRingDim);
-    if (newRingDim != ringDim) {
+    if (newRingDim > ringDim) {
       ringDim = newRingDim;
       redo = true;
     }
diff --git a/lib/Parameters/RLWEParams.cpp b/lib/Parameters/RLWEParams.cpp
index aee98f7..5138526 100644
--- a/lib/Parameters/RLWEParams.cpp
+++ b/lib/Parameters/RLWEParams.cpp
@@ -133,7 +133,7 @@ RLWESchemeParam RLWESchemeParam::getConcreteRLWESchemeParam(
     }
     // if generated primes are too large, increase ringDim
     auto newRingDim = computeRingDim(newLogPQ, minRingDim);
-    if (newRingDim != ringDim) {
+    if (newRingDim > ringDim) {
       ringDim = newRingDim;
       redo = true;
     }
-- 
2.43.0


From bb3436e32dfda0abb200f95dc76b95ea503a5bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:19 +0000
Subject: [PATCH 18/89] fix: compute erfinv accurately close to one

---
 lib/Utils/MathUtils.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/Utils/MathUtils.cpp b/lib/Utils/MathUtils.cpp
index 0e8e6b6..71edc23 100644
--- a/lib/Utils/MathUtils.cpp
+++ b/lib/Utils/MathUtils.cpp
@@ -42,6 +42,18 @@ double erfinv(double a) {
     p = fma(p, t, 8.86226892e-1);   //  0x1.c5bf88p-1
   }
   r = a * p;
+  if (t < -16.0 && fabs(a) < 1.0) {
+    // The polynomials were fitted for single precision arguments. Closer to
+    // +-1, use Newton's method on log(erfc), which is concave, from the upper
+    // bound given by erfc(x) <= exp(-x^2).
+    const double logTail = log1p(-fabs(a));
+    double x = sqrt(-logTail);
+    for (int i = 0; i < 6; ++i) {
+      const double tail = erfc(x);
+      x += (log(tail) - logTail) * tail * exp(x * x) * (sqrt(M_PI) / 2.0);
+    }
+    r = copysign(x, a);
+  }
   return r;
 }
 
-- 
2.43.0


From 9733133604c7e9ad21784ef458c2d4c0887eede5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:53 +0000
Subject: [PATCH 19/89] fix: count ciphertexts of a layout with integer
 division

Rounding the element count to float lost the last elements of tensors
with more than 2^24 elements.
---
 lib/Utils/Layout/Convolution.cpp | 6 +++---
 lib/Utils/Layout/Utils.cpp       | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/Utils/Layout/Convolution.cpp b/lib/Utils/Layout/Convolution.cpp
index 74f6b86..4121948 100644
--- a/lib/Utils/Layout/Convolution.cpp
+++ b/lib/Utils/Layout/Convolution.cpp
@@ -680,7 +680,7 @@ presburger::IntegerRelation get1dConvResultRelation(RankedTensorType outputType,
       getRowMajorLayoutRelation(outputType, outputType.getNumElements());
 
   int64_t numCiphertexts =
-      std::ceil((float)outputType.getNumElements() / minSlotCount);
+      llvm::divideCeil(outputType.getNumElements(), minSlotCount);
   int64_t paddedSize = isPowerOfTwo(outputType.getNumElements())
                            ? outputType.getNumElements()
                            : nextPowerOfTwo(outputType.getNumElements());
@@ -737,7 +737,7 @@ presburger::IntegerRelation get2dConvResultRelation(RankedTensorType outputType,
       getRowMajorLayoutRelation(outputType, outputType.getNumElements());
 
   int64_t numCiphertexts =
-      std::ceil((float)outputType.getNumElements() / minSlotCount);
+      llvm::divideCeil(outputType.getNumElements(), minSlotCount);
   int64_t paddedSize = isPowerOfTwo(outputType.getNumElements())
                            ? outputType.getNumElements()
                            : nextPowerOfTwo(outputType.getNumElements());
@@ -768,7 +768,7 @@ presburger::IntegerRelation get2dConvRowInterchangeLayoutRelation(
   int64_t numElements = outputType.getNumElements();
 
   int64_t numCiphertexts =
-      std::ceil((float)outputType.getNumElements() / minSlotCount);
+      llvm::divideCeil(outputType.getNumElements(), minSlotCount);
 
   int64_t paddedSize =
       isPowerOfTwo(numElements) ? numElements : nextPowerOfTwo(numElements);
diff --git a/lib/Utils/Layout/Utils.cpp b/lib/Utils/Layout/Utils.cpp
index b05d686..be82392 100644
--- a/lib/Utils/Layout/Utils.cpp
+++ b/lib/Utils/Layout/Utils.cpp
@@ -125,7 +125,7 @@ presburger::IntegerRelation getRowMajorLayoutRelation(
   }
   auto rangeOffset = result.getVarKindOffset(VarKind::Range);
   addBounds(result, rangeOffset, 0,
-            std::ceil((float)tensorType.getNumElements() / numSlots) - 1);
+            llvm::divideCeil(tensorType.getNumElements(), numSlots) - 1);
   addBounds(result, rangeOffset + 1, 0, numSlots - 1);
 
   // 0 = (flattened_expr) floordiv minSlotCount - ct
@@ -278,7 +278,7 @@ presburger::IntegerRelation getBicyclicLayoutRelation(
   addBounds(result, rowVarIndex, 0, rows - 1);
   addBounds(result, colVarIndex, 0, cols - 1);
   addBounds(result, ctVarIndex, 0,
-            std::ceil((float)matrixType.getNumElements() / numSlots) - 1);
+            llvm::divideCeil(matrixType.getNumElements(), numSlots) - 1);
   addBounds(result, slotVarIndex, 0, numSlots - 1);
 
   // Let k = ct * numSlots + slot.
@@ -421,7 +421,7 @@ presburger::IntegerRelation getTricyclicLayoutRelation(
   addBounds(result, mVarIndex, 0, m - 1);
   addBounds(result, nVarIndex, 0, n - 1);
   addBounds(result, ctVarIndex, 0,
-            std::ceil((float)tensorType.getNumElements() / numSlots) - 1);
+            llvm::divideCeil(tensorType.getNumElements(), numSlots) - 1);
   addBounds(result, slotVarIndex, 0, numSlots - 1);
 
   // Let k = ct * numSlots + slot.
-- 
2.43.0


From 4f88d7a79ac53a9dc657319bb4438f1340185a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:59 +0000
Subject: [PATCH 20/89] fix: diagonalize a strided 1-D convolution by its
 expanded shape

The bounds of the filter relation are tighter than the expanded matrix
when the stride skips trailing data, so the diagonals did not line up
with the packed data the kernel multiplies them with.
---
 lib/Utils/Layout/Convolution.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/Utils/Layout/Convolution.cpp b/lib/Utils/Layout/Convolution.cpp
index 4121948..80dbb33 100644
--- a/lib/Utils/Layout/Convolution.cpp
+++ b/lib/Utils/Layout/Convolution.cpp
@@ -489,7 +489,12 @@ FailureOr<presburger::IntegerRelation> get1dConvCwFcwFilterDiagonalizedRelation(
         /*equality=*/true);
     expandedFilterRelation.compose(rowInterchangeRelation);
   }
-  return diagonalize2dMatrix(expandedFilterRelation, filterType, minSlotCount);
+  // Use the shape of the expanded matrix rather than the bounds of the
+  // relation, which are tighter when the stride skips trailing columns.
+  expandedFilterRelation.compose(getDiagonalLayoutRelation(
+      get1dConvCwFcwFilterExpandedType(filterType, dataType, stride, padding),
+      minSlotCount));
+  return expandedFilterRelation;
 }
 
 FailureOr<std::vector<IntegerRelation>> get2dConvChwFchwFilterAsSequence(
-- 
2.43.0


From e9df963007d88389e8728a9f006a927a56340740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:59 +0000
Subject: [PATCH 21/89] fix: collapse the last reassociation group first

Dropping the unit dimensions of one group shifts the dimensions of the
groups behind it. Also keep one dimension of a group that has only unit
dimensions.
---
 lib/Utils/Layout/Utils.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lib/Utils/Layout/Utils.cpp b/lib/Utils/Layout/Utils.cpp
index be82392..77533df 100644
--- a/lib/Utils/Layout/Utils.cpp
+++ b/lib/Utils/Layout/Utils.cpp
@@ -672,14 +672,20 @@ presburger::IntegerRelation collapseDimensions(
     const presburger::IntegerRelation& relation, RankedTensorType sourceType,
     ArrayRef<ReassociationIndices> reassociation) {
   std::unique_ptr<IntegerRelation> clonedRelation = relation.clone();
-  for (const ReassociationIndices& associationGroup : reassociation) {
+  // Iterate starting from the largest index so that earlier deletion do not
+  // impact later indices
+  for (const ReassociationIndices& associationGroup :
+       llvm::reverse(reassociation)) {
     // a single-entry association group is a no-op
     if (associationGroup.size() == 1) {
       continue;
     }
-    // Iterate starting from the largest index so that earlier deletion do not
-    // impact later indices
+    // A group always keeps one dimension, even if all of them are unit.
+    bool allUnit = llvm::all_of(associationGroup, [&](int64_t dim) {
+      return sourceType.getShape()[dim] == 1;
+    });
     for (int64_t reassocDim : llvm::reverse(associationGroup)) {
+      if (allUnit && reassocDim == associationGroup.front()) continue;
       if (sourceType.getShape()[reassocDim] == 1) {
         // Drop this unit dimension
         clonedRelation->setAndEliminate(reassocDim, 0);
-- 
2.43.0


From 10cc9c8df6edcc62bd8dbf6018df57a39528d8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:59 +0000
Subject: [PATCH 22/89] fix: expand a reassociation group that has only unit
 dimensions

---
 lib/Utils/Layout/Utils.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/Utils/Layout/Utils.cpp b/lib/Utils/Layout/Utils.cpp
index 77533df..1e2840e 100644
--- a/lib/Utils/Layout/Utils.cpp
+++ b/lib/Utils/Layout/Utils.cpp
@@ -725,8 +725,14 @@ presburger::IntegerRelation expandDimensions(
       continue;
     }
 
+    // A group always expands one existing dimension, even if all of its
+    // dimensions are unit.
+    bool allUnit = llvm::all_of(associationGroup, [&](int64_t dim) {
+      return resultType.getShape()[dim] == 1;
+    });
     for (int64_t reassocDim : associationGroup) {
-      if (resultType.getShape()[reassocDim] > 1) {
+      if (resultType.getShape()[reassocDim] > 1 ||
+          (allUnit && reassocDim == associationGroup.front())) {
         ++oldDim;
       } else {
         // A new dimension of size 1 is being added, so add a new domain
-- 
2.43.0


From 812bc442943e9287a3da64d7fcc8822c6017228c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:16 +0000
Subject: [PATCH 23/89] fix: collapse a unit tensor to a scalar

---
 lib/Utils/Layout/Utils.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/Utils/Layout/Utils.cpp b/lib/Utils/Layout/Utils.cpp
index 1e2840e..9be8598 100644
--- a/lib/Utils/Layout/Utils.cpp
+++ b/lib/Utils/Layout/Utils.cpp
@@ -672,6 +672,15 @@ presburger::IntegerRelation collapseDimensions(
     const presburger::IntegerRelation& relation, RankedTensorType sourceType,
     ArrayRef<ReassociationIndices> reassociation) {
   std::unique_ptr<IntegerRelation> clonedRelation = relation.clone();
+
+  // Handle the case where reassociation is empty
+  if (reassociation.empty()) {
+    for (int64_t i = sourceType.getRank() - 1; i >= 0; --i) {
+      clonedRelation->setAndEliminate(i, 0);
+    }
+    return *clonedRelation;
+  }
+
   // Iterate starting from the largest index so that earlier deletion do not
   // impact later indices
   for (const ReassociationIndices& associationGroup :
-- 
2.43.0


From 72756394e05bb0f731181f55c66d624d0f6c6b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:30 +0000
Subject: [PATCH 24/89] fix: keep the other constraints when pushing a full
 rank slice layout

Removing every constraint that mentions a unit dimension also removes the
constraint that ties the remaining dimensions to their slots.
---
 lib/Utils/Layout/Hoisting.cpp | 42 ++++++++++-------------------------
 1 file changed, 12 insertions(+), 30 deletions(-)

diff --git a/lib/Utils/Layout/Hoisting.cpp b/lib/Utils/Layout/Hoisting.cpp
index fa580cc..1f3b8b8 100644
--- a/lib/Utils/Layout/Hoisting.cpp
+++ b/lib/Utils/Layout/Hoisting.cpp
@@ -116,38 +116,20 @@ FailureOr<presburger::IntegerRelation> pushSliceLayoutThroughInsertSlice(
   // Now the slice takes up a full subtensor of the output tensor. For the
   // result layout, let this subtensor be preserved.
   auto resultLayout = sliceLayout.clone();
-  // Add domain variables in the positions of the unit dimensions only if the
-  // slice layout has fewer dimensions than the insert slice sizes (indicating
-  // the layout doesn't describe all dimensions of the slice).
-  if (sliceLayout.getNumDomainVars() < insertSliceSizes.size()) {
-    for (int i = 0; i < resultShape.size(); ++i) {
-      if (llvm::is_contained(unitDims, i)) {
-        auto domainVar = resultLayout->insertVar(VarKind::Domain, i, 1);
-        addBounds(*resultLayout, domainVar, 0, resultShape[i] - 1);
-      }
-    }
-  } else {
-    // When the slice layout already has all domain dimensions, we need to
-    // relax the bounds on domain variables corresponding to unit dimensions
-    // to match the result shape. We do this by removing equality and inequality
-    // constraints that involve these dimensions.
-    for (auto dim : unitDims) {
-      // Find and remove equalities involving this dimension
-      for (int i = resultLayout->getNumEqualities() - 1; i >= 0; --i) {
-        if (resultLayout->atEq64(i, dim) != 0) {
-          resultLayout->removeEquality(i);
-        }
-      }
-      // Find and remove inequalities involving this dimension
-      for (int i = resultLayout->getNumInequalities() - 1; i >= 0; --i) {
-        if (resultLayout->atIneq64(i, dim) != 0) {
-          resultLayout->removeInequality(i);
-        }
-      }
-      // Add new bounds
-      addBounds(*resultLayout, dim, 0, resultShape[dim] - 1);
+  // If the slice layout already has all domain dimensions, fix its unit
+  // dimensions to their only index and drop them. Removing the constraints that
+  // involve them instead would also lose constraints on the other dimensions.
+  if (sliceLayout.getNumDomainVars() >= insertSliceSizes.size()) {
+    for (auto dim : llvm::reverse(unitDims)) {
+      resultLayout->setAndEliminate(dim, 0);
     }
   }
+  // Add domain variables in the positions of the unit dimensions, covering the
+  // extents of the result.
+  for (auto dim : unitDims) {
+    auto domainVar = resultLayout->insertVar(VarKind::Domain, dim, 1);
+    addBounds(*resultLayout, domainVar, 0, resultShape[dim] - 1);
+  }
 
   // Add a range var to indicate the index of the slice.
   auto newRangeVar = resultLayout->insertVar(VarKind::Range, 0, 1);
-- 
2.43.0


From 2853fc8ac691a91406b6cf2cea68bfeacecf77c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:24 +0000
Subject: [PATCH 25/89] fix: compute the default shift order in 64 bits

---
 lib/Dialect/TensorExt/Transforms/ShiftScheme.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Dialect/TensorExt/Transforms/ShiftScheme.cpp b/lib/Dialect/TensorExt/Transforms/ShiftScheme.cpp
index 0adf255..e385f6b 100644
--- a/lib/Dialect/TensorExt/Transforms/ShiftScheme.cpp
+++ b/lib/Dialect/TensorExt/Transforms/ShiftScheme.cpp
@@ -17,7 +17,7 @@ SmallVector<int64_t> defaultShiftOrder(int64_t n) {
   SmallVector<int64_t> result;
   int64_t maxLog2 = APInt(64, n).getActiveBits();
   if (isPowerOfTwo(n)) maxLog2 -= 1;
-  for (int64_t i = 0; i < maxLog2; i++) result.push_back(1 << i);
+  for (int64_t i = 0; i < maxLog2; i++) result.push_back(int64_t{1} << i);
   return result;
 }
 
-- 
2.43.0


From 13920c6c08f013473f3fcda0a2b283c2089c3bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:38 +0000
Subject: [PATCH 26/89] fix: use the full row-major strides in
 getRowMajorLayoutMap

---
 lib/Utils/AffineMapUtils.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/Utils/AffineMapUtils.cpp b/lib/Utils/AffineMapUtils.cpp
index d9fa602..36f991c 100644
--- a/lib/Utils/AffineMapUtils.cpp
+++ b/lib/Utils/AffineMapUtils.cpp
@@ -61,6 +61,7 @@ AffineMap getRowMajorLayoutMap(RankedTensorType inputType,
                                RankedTensorType outputType) {
   SmallVector<AffineExpr, 4> dims;
   AffineExpr flattened;
+  int64_t stride = 1;
   for (int dim = 0; dim < inputType.getRank(); ++dim) {
     dims.push_back(getAffineDimExpr(dim, inputType.getContext()));
   }
@@ -71,9 +72,8 @@ AffineMap getRowMajorLayoutMap(RankedTensorType inputType,
     // iter 1: k
     // iter 2: k + size(k) * j
     // iter 3: k + size(k) * j + size(j) * size(k) * i
-    flattened = flattened
-                    ? flattened + inputType.getDimSize(dim + 1) * dims[dim]
-                    : dims[dim];
+    flattened = flattened ? flattened + stride * dims[dim] : dims[dim];
+    stride *= inputType.getDimSize(dim);
   }
 
   // Then "unflatten" with respect to the output type's shape.
-- 
2.43.0


From 72cdddeefa66d3aeac398ef274c398481d97d708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:38 +0000
Subject: [PATCH 27/89] fix: flatten indices in 64 bits

---
 lib/Utils/TargetUtils.cpp | 4 ++--
 lib/Utils/TensorUtils.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/Utils/TargetUtils.cpp b/lib/Utils/TargetUtils.cpp
index e1af402..8fe4266 100644
--- a/lib/Utils/TargetUtils.cpp
+++ b/lib/Utils/TargetUtils.cpp
@@ -106,7 +106,7 @@ std::string flattenIndexExpressionSOP(
 
 int64_t flattenedIndex(ShapedType type, ValueRange indices,
                        std::function<int64_t(Value)> valueToInt) {
-  int index = valueToInt(indices[0]);
+  int64_t index = valueToInt(indices[0]);
   for (size_t i = 1; i < indices.size(); i++) {
     index = valueToInt(indices[i]) + type.getShape()[i] * index;
   }
@@ -116,7 +116,7 @@ int64_t flattenedIndex(ShapedType type, ValueRange indices,
 int64_t flattenedIndex(MemRefType memRefType, ValueRange indices,
                        std::function<int64_t(Value)> valueToInt) {
   const auto [strides, offset] = memRefType.getStridesAndOffset();
-  int index = offset;
+  int64_t index = offset;
   for (size_t i = 0; i < indices.size(); ++i) {
     index = index + strides[i] * valueToInt(indices[i]);
   }
diff --git a/lib/Utils/TensorUtils.cpp b/lib/Utils/TensorUtils.cpp
index 4a34bc9..0915a8d 100644
--- a/lib/Utils/TensorUtils.cpp
+++ b/lib/Utils/TensorUtils.cpp
@@ -16,8 +16,8 @@ namespace heir {
 int64_t getFlattenedIndex(RankedTensorType tensorType,
                           SmallVector<int64_t> indices) {
   auto rank = tensorType.getRank();
-  int flatIndex = 0;
-  int stride = 1;
+  int64_t flatIndex = 0;
+  int64_t stride = 1;
   for (int i = rank - 1; i >= 0; --i) {
     flatIndex += indices[i] * stride;
     stride *= tensorType.getDimSize(i);
-- 
2.43.0


From 9af56532a418e0d4216554c8770cb1f761b586ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:38 +0000
Subject: [PATCH 28/89] fix: return failure from commaSeparatedTypes when an
 earlier type fails

---
 lib/Utils/TargetUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Utils/TargetUtils.cpp b/lib/Utils/TargetUtils.cpp
index 8fe4266..5864c0d 100644
--- a/lib/Utils/TargetUtils.cpp
+++ b/lib/Utils/TargetUtils.cpp
@@ -47,7 +47,7 @@ FailureOr<std::string> commaSeparatedTypes(
       std::next(types.begin()), types.end(), typeToString(types[0]),
       [&](FailureOr<std::string> a, Type b) -> FailureOr<std::string> {
         auto result = typeToString(b);
-        if (failed(result)) {
+        if (failed(a) || failed(result)) {
           return failure();
         }
         return a.value() + ", " + result.value();
-- 
2.43.0


From 3c9975236c33adb67444f172b3a265333979bc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:38 +0000
Subject: [PATCH 29/89] fix: flatten the empty index of a rank zero tensor to
 zero

---
 lib/Utils/TargetUtils.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/Utils/TargetUtils.cpp b/lib/Utils/TargetUtils.cpp
index 5864c0d..8a620c0 100644
--- a/lib/Utils/TargetUtils.cpp
+++ b/lib/Utils/TargetUtils.cpp
@@ -68,6 +68,7 @@ std::string bracketEnclosedValues(
 
 std::string flattenIndexExpression(ArrayRef<std::string> shape,
                                    ArrayRef<std::string> indexStrings) {
+  if (indexStrings.empty()) return "0";
   std::string accum = llvm::formatv("{0}", indexStrings[0]);
   for (size_t i = 1; i < indexStrings.size(); ++i) {
     accum =
@@ -106,8 +107,8 @@ std::string flattenIndexExpressionSOP(
 
 int64_t flattenedIndex(ShapedType type, ValueRange indices,
                        std::function<int64_t(Value)> valueToInt) {
-  int64_t index = valueToInt(indices[0]);
-  for (size_t i = 1; i < indices.size(); i++) {
+  int64_t index = 0;
+  for (size_t i = 0; i < indices.size(); i++) {
     index = valueToInt(indices[i]) + type.getShape()[i] * index;
   }
   return index;
-- 
2.43.0


From affab651e24323e55ea92ba3988db903bd52421b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:27 +0000
Subject: [PATCH 30/89] fix: yield branch variables that are updated from
 themselves or by a conditional expression

---
 frontend/heir/mlir_emitter.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/frontend/heir/mlir_emitter.py b/frontend/heir/mlir_emitter.py
index 6381250..7fcd36d 100644
--- a/frontend/heir/mlir_emitter.py
+++ b/frontend/heir/mlir_emitter.py
@@ -218,7 +218,8 @@ def get_vars_used_after(block, post_dominators, ssa_ir):
       case ir.Assign:
         if type(instr.value) == ir.Global:
           continue
-        if not instr.target.is_temp:
+        # Conditional expressions assign their result to a temporary phi var.
+        if not instr.target.is_temp or instr.target.name.startswith("$phi"):
           block_vars.add(instr.target)
 
   vars = set()
@@ -230,9 +231,14 @@ def get_vars_used_after(block, post_dominators, ssa_ir):
           if type(instr.value) == ir.Global:
             continue
           # Defined before the loop block
-          for var in instr.list_vars():
-            if var == instr.target:
+          match instr.value:
+            case ir.Var():
+              used_vars = [instr.value]
+            case ir.Expr():
+              used_vars = instr.value.list_vars()
+            case _:
               continue
+          for var in used_vars:
             # var must be defined in the block
             if var in block_vars:
               vars.add(var)
-- 
2.43.0


From 2d006da6b279f00cad7e243f69fd72487d9a2963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:27 +0000
Subject: [PATCH 31/89] fix: emit casts between integers and floats, and report
 unsupported casts

---
 frontend/heir/mlir_emitter.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/frontend/heir/mlir_emitter.py b/frontend/heir/mlir_emitter.py
index 7fcd36d..1682fff 100644
--- a/frontend/heir/mlir_emitter.py
+++ b/frontend/heir/mlir_emitter.py
@@ -11,7 +11,7 @@ from numba.core import bytecode
 from numba.core import controlflow
 import numba.core.types as nt
 
-from heir.mlir import I1, I8, I16, I32, I64, MLIRType, MLIR_TYPES
+from heir.mlir import F32, F64, I1, I8, I16, I32, I64, MLIRType, MLIR_TYPES
 from heir.interfaces import CompilerError, InternalCompilerError
 
 NumbaType = nt.Type
@@ -53,7 +53,7 @@ def isIntegerLike(typ: NumbaType | MLIRType) -> bool:
 
 def isFloatLike(typ: NumbaType | MLIRType) -> bool:
   match typ:
-    case nt.F32 | nt.F64 | nt.Float():
+    case F32() | F64() | nt.Float():
       return True
     case MLIRType() | nt.Type():
       return False
@@ -87,8 +87,8 @@ def mlirCastOp(
     to_width = getBitwidth(to_type.numba_type())
     if from_width == to_width:
       raise CompilerError(
-          f"Cannot create cast of {value} from {from_type} to {to_type} as they"
-          " have the same bitwidth",
+          f"Cannot create cast of {value} from {from_type} to"
+          f" {to_type.mlir_type()} as they have the same bitwidth",
           loc,
       )
     if from_width > to_width:
@@ -104,15 +104,17 @@ def mlirCastOp(
   if isFloatLike(from_type) and isIntegerLike(to_type):
     return (
         f"arith.fptosi {value} : {mlirType(from_type)} to"
-        f" {mlirType(to_type)} {mlirLoc(loc)}"
+        f" {to_type.mlir_type()} {mlirLoc(loc)}"
     )
   if isIntegerLike(from_type) and isFloatLike(to_type):
+    op = "uitofp" if isinstance(from_type, nt.Boolean) else "sitofp"
     return (
-        f"arith.sitofp {value} : {mlirType(from_type)} to"
-        f" {mlirType(to_type)} {mlirLoc(loc)}"
+        f"arith.{op} {value} : {mlirType(from_type)} to"
+        f" {to_type.mlir_type()} {mlirLoc(loc)}"
     )
   raise CompilerError(
-      f"Encountered unsupported cast of {value} from {from_type} to {to_type}",
+      f"Encountered unsupported cast of {value} from {from_type} to"
+      f" {to_type.mlir_type()}",
       loc,
   )
 
-- 
2.43.0


From b13ad38e5facda539e83ef67c42b7ecd0736ad1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:27 +0000
Subject: [PATCH 32/89] fix: extend booleans with zeros when emitting MLIR

---
 frontend/heir/mlir_emitter.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/frontend/heir/mlir_emitter.py b/frontend/heir/mlir_emitter.py
index 1682fff..0cf91fc 100644
--- a/frontend/heir/mlir_emitter.py
+++ b/frontend/heir/mlir_emitter.py
@@ -79,6 +79,11 @@ def getBitwidth(typ: NumbaType | MLIRType) -> int:
       )
 
 
+def extensionOp(from_type: NumbaType) -> str:
+  # True is 1, so booleans are extended with zeros.
+  return "arith.extui" if isinstance(from_type, nt.Boolean) else "arith.extsi"
+
+
 def mlirCastOp(
     from_type: NumbaType, to_type: MLIRType, value: str, loc: ir.Loc
 ) -> str:
@@ -98,7 +103,7 @@ def mlirCastOp(
       )
     if from_width < to_width:
       return (
-          f"arith.extsi {value} : {mlirType(from_type)} to"
+          f"{extensionOp(from_type)} {value} : {mlirType(from_type)} to"
           f" {to_type.mlir_type()} {mlirLoc(loc)}"
       )
   if isFloatLike(from_type) and isIntegerLike(to_type):
@@ -622,7 +627,8 @@ class TextualMlirEmitter:
 
     tmp = self.get_next_name()
     ext = (
-        f"{tmp} = arith.extsi {self.get_name(short)} : "
+        f"{tmp} = {extensionOp(self.typemap.get(str(short)))}"
+        f" {self.get_name(short)} : "
         f"{mlirType(self.typemap.get(str(short)))} "
         f"to {mlirType(self.typemap.get(str(long)))} "
         f"{mlirLoc(short.loc)}\n"
@@ -648,7 +654,7 @@ class TextualMlirEmitter:
       )
     tmp = self.get_next_name()
     ext = (
-        f"{tmp} = arith.extsi {self.get_name(value)} : "
+        f"{tmp} = {extensionOp(from_type)} {self.get_name(value)} : "
         f"{mlirType(from_type)} to {mlirType(to_type)} "
         f"{mlirLoc(value.loc)}\n"
     )
-- 
2.43.0


From 82d05d7e8312078912b140eeca6385649e0cf596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:27 +0000
Subject: [PATCH 33/89] fix: emit integer comparisons, and extend operands from
 their own type

---
 frontend/heir/mlir_emitter.py | 40 ++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/frontend/heir/mlir_emitter.py b/frontend/heir/mlir_emitter.py
index 0cf91fc..fbe1796 100644
--- a/frontend/heir/mlir_emitter.py
+++ b/frontend/heir/mlir_emitter.py
@@ -143,6 +143,15 @@ def arithSuffix(numba_type: NumbaType) -> str:
       raise InternalCompilerError("Unsupported type: " + str(numba_type))
 
 
+# Binary operations whose result type differs from the type they operate on.
+COMPARISONS = frozenset([
+    operator.lt,
+    operator.ge,
+    operator.eq,
+    operator.ne,
+])
+
+
 class HeaderInfo:
   """
   Header info provides info from a loop's header block
@@ -661,13 +670,17 @@ class TextualMlirEmitter:
     return tmp, ext
 
   def emit_binop(self, binop, result_type=None):
-    base_type = result_type or self.typemap.get(str(binop.lhs))
-    # This should be the same, otherwise MLIR will complain
-    suffix = arithSuffix(base_type)
-
     lhs_ssa, rhs_ssa, ext, ty = self.emit_ext_if_needed(binop.lhs, binop.rhs)
 
-    if result_type is not None and isIntegerLike(result_type):
+    # The operands' (common) type determines the operation; comparisons are
+    # performed in that type as well, regardless of their boolean result.
+    suffix = arithSuffix(ty)
+
+    if (
+        binop.fn not in COMPARISONS
+        and result_type is not None
+        and isIntegerLike(result_type)
+    ):
       ty_bw = getBitwidth(ty)
       result_bw = getBitwidth(result_type)
       if result_bw < ty_bw:
@@ -675,17 +688,24 @@ class TextualMlirEmitter:
             f"Result type {result_type} is narrower than operands {ty}."
         )
       if result_bw > ty_bw:
-        lhs_ssa, lhs_ext = self.emit_ext_to_type(binop.lhs, ty, result_type)
-        rhs_ssa, rhs_ext = self.emit_ext_to_type(binop.rhs, ty, result_type)
-        ext = f"{ext}{lhs_ext}{rhs_ext}"
+        lhs_ssa, lhs_ext = self.emit_ext_to_type(
+            binop.lhs, self.typemap.get(str(binop.lhs)), result_type
+        )
+        rhs_ssa, rhs_ext = self.emit_ext_to_type(
+            binop.rhs, self.typemap.get(str(binop.rhs)), result_type
+        )
+        ext = f"{lhs_ext}{rhs_ext}"
         ty = result_type
 
+    # False < True, so booleans are compared as unsigned values.
+    sign = "u" if isinstance(ty, nt.Boolean) else "s"
+
     match binop.fn:
       case operator.lt:
-        pred = "olt" if suffix == "f" else "slt"
+        pred = "olt" if suffix == "f" else f"{sign}lt"
         return f"arith.cmp{suffix} {pred}, {lhs_ssa}, {rhs_ssa}", ext, ty
       case operator.ge:
-        pred = "oge" if suffix == "f" else "sge"
+        pred = "oge" if suffix == "f" else f"{sign}ge"
         return f"arith.cmp{suffix} {pred}, {lhs_ssa}, {rhs_ssa}", ext, ty
       case operator.eq:
         pred = "oeq" if suffix == "f" else "eq"
-- 
2.43.0


From 980f9a4518f3346e2b04a708ee66e7207b49f70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:27 +0000
Subject: [PATCH 34/89] fix: emit literals folded by type inference as
 constants

---
 frontend/heir/mlir_emitter.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/frontend/heir/mlir_emitter.py b/frontend/heir/mlir_emitter.py
index fbe1796..a84fee8 100644
--- a/frontend/heir/mlir_emitter.py
+++ b/frontend/heir/mlir_emitter.py
@@ -531,6 +531,14 @@ class TextualMlirEmitter:
         return ""
       case ir.Expr(op="binop"):
         result_type = self.typemap.get(assign.target.name)
+        if isinstance(result_type, nt.IntegerLiteral):
+          # Type inference already folded the operation, and its result may be
+          # narrower than its operands.
+          expr = (
+              f"arith.constant {result_type.literal_value} :"
+              f" {mlirType(result_type)} {mlirLoc(assign.loc)}"
+          )
+          return self.reassign_and_forward_name(assign.target, expr)
         emitted_expr, ext, ty = self.emit_binop(
             assign.value, result_type=result_type
         )
-- 
2.43.0


From 31b366d7400f3a2dcaa2df2f834ef12c280a8bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:27 +0000
Subject: [PATCH 35/89] fix: extend values assigned to wider variables

---
 frontend/heir/mlir_emitter.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/frontend/heir/mlir_emitter.py b/frontend/heir/mlir_emitter.py
index a84fee8..8b78c7b 100644
--- a/frontend/heir/mlir_emitter.py
+++ b/frontend/heir/mlir_emitter.py
@@ -587,10 +587,7 @@ class TextualMlirEmitter:
         else:
           raise InternalCompilerError("Call to unknown function " + name)
       case ir.Expr(op="cast"):
-        # not sure what to do here. maybe will be needed for type conversions
-        # when interfacing with C
-        self.forward_name(from_var=assign.target, to_var=assign.value.value)
-        return ""
+        return self.emit_var_assign(assign.target, assign.value.value)
       case ir.Const():
         expr = (
             f"arith.constant {assign.value.value} :"
@@ -606,11 +603,25 @@ class TextualMlirEmitter:
         )
         return ""
       case ir.Var():
-        # Sometimes we need this to be assigned?
-        self.forward_name(from_var=assign.target, to_var=assign.value)
-        return ""
+        return self.emit_var_assign(assign.target, assign.value)
     raise InternalCompilerError(f"Unsupported IR Element: {assign}")
 
+  def emit_var_assign(self, target, source):
+    target_type = self.typemap.get(target.name)
+    source_type = self.typemap.get(source.name)
+    # Names without an MLIR type (e.g. loop iterators) are only forwarded.
+    if (
+        not isinstance(source_type, (nt.Integer, nt.Boolean))
+        or target_type is None
+        or mlirType(target_type) == mlirType(source_type)
+    ):
+      self.forward_name(from_var=target, to_var=source)
+      return ""
+    # The variable holds wider values elsewhere, so extend this one.
+    name, ext = self.emit_ext_to_type(source, source_type, target_type)
+    self.forward_name_to_id(target, name.strip("%"))
+    return ext.rstrip("\n")
+
   def emit_ext_if_needed(self, lhs, rhs):
     lhs_type = self.typemap.get(str(lhs))
     rhs_type = self.typemap.get(str(rhs))
-- 
2.43.0


From 71ff5af29c3d0364585c39df65e6368f2caa8d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:27 +0000
Subject: [PATCH 36/89] fix: print boolean and float constants as MLIR literals

---
 frontend/heir/mlir_emitter.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/frontend/heir/mlir_emitter.py b/frontend/heir/mlir_emitter.py
index 8b78c7b..8dc450d 100644
--- a/frontend/heir/mlir_emitter.py
+++ b/frontend/heir/mlir_emitter.py
@@ -130,6 +130,18 @@ def mlirLoc(loc: ir.Loc) -> str:
   )
 
 
+def mlirLiteral(value, numba_type: NumbaType) -> str:
+  """Helper to print a python constant as an MLIR literal of the given type"""
+  match numba_type:
+    case nt.Float():
+      # MLIR requires a decimal point, even if there is an exponent
+      return f"{float(value):.17e}"
+    case nt.Integer() | nt.Boolean():
+      return str(int(value))
+    case _:
+      return str(value)
+
+
 def arithSuffix(numba_type: NumbaType) -> str:
   """Helper to translate numba types to the associated arith dialect operation suffixes"""
   match numba_type:
@@ -589,10 +601,10 @@ class TextualMlirEmitter:
       case ir.Expr(op="cast"):
         return self.emit_var_assign(assign.target, assign.value.value)
       case ir.Const():
+        const_type = self.typemap.get(assign.target.name)
         expr = (
-            f"arith.constant {assign.value.value} :"
-            f" {mlirType(self.typemap.get(assign.target.name))}"
-            f" {mlirLoc(assign.loc)}"
+            f"arith.constant {mlirLiteral(assign.value.value, const_type)} :"
+            f" {mlirType(const_type)} {mlirLoc(assign.loc)}"
         )
         # if we reassign a const, then forward the name
         return self.reassign_and_forward_name(assign.target, expr)
-- 
2.43.0


From 701ed551d2fdd3563dab1273876f4d0ebc5c8bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:27 +0000
Subject: [PATCH 37/89] fix: keep the value of range arguments, and print
 constant steps

---
 frontend/heir/mlir_emitter.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/frontend/heir/mlir_emitter.py b/frontend/heir/mlir_emitter.py
index 8dc450d..3c55dea 100644
--- a/frontend/heir/mlir_emitter.py
+++ b/frontend/heir/mlir_emitter.py
@@ -851,7 +851,8 @@ class TextualMlirEmitter:
     if type(var_or_int) == ir.Var:
       # Create an index_cast operation
       var_name = self.get_name(var_or_int)
-      new_name = self.forward_to_new_id(var_or_int)
+      # The variable itself keeps its (integer) value
+      new_name = self.get_next_name()
       return (
           new_name,
           (
@@ -873,9 +874,13 @@ class TextualMlirEmitter:
     stop, instr = self.emit_var_or_int(loop.range.stop)
     if instr:
       header.append(instr)
-    step, instr = self.emit_var_or_int(loop.range.step)
-    if instr:
-      header.append(instr)
+    step = loop.range.step
+    if isinstance(step, ir.Var):
+      # The step of an affine loop must be a constant
+      step_type = self.typemap.get(step.name)
+      if not isinstance(step_type, nt.IntegerLiteral):
+        raise CompilerError("The step of a range must be constant", step.loc)
+      step = step_type.literal_value
 
     itvar = self.get_or_create_name(loop.header.phi_var)  # create var for i
     for_str = f"affine.for {itvar} = {start} to {stop}"
-- 
2.43.0


From 37de274d7335626fd6baa1e50aa25917f325b4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:28 +0000
Subject: [PATCH 38/89] fix: allow tensor operands that only differ in their
 numba layout

---
 frontend/heir/mlir_emitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frontend/heir/mlir_emitter.py b/frontend/heir/mlir_emitter.py
index 3c55dea..76d9391 100644
--- a/frontend/heir/mlir_emitter.py
+++ b/frontend/heir/mlir_emitter.py
@@ -639,7 +639,7 @@ class TextualMlirEmitter:
     rhs_type = self.typemap.get(str(rhs))
 
     # Types agree: do nothing
-    if lhs_type == rhs_type:
+    if lhs_type == rhs_type or mlirType(lhs_type) == mlirType(rhs_type):
       return self.get_name(lhs), self.get_name(rhs), "", lhs_type
 
     # types aren't integer types
-- 
2.43.0


From 78cd5d18c3ea01f202f785fbda3a4f7ff60dc5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:22 +0000
Subject: [PATCH 39/89] fix: do not modify the caller's heir_opt_options when
 compiling

---
 frontend/heir/pipeline.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/frontend/heir/pipeline.py b/frontend/heir/pipeline.py
index a8ad936..a167b56 100644
--- a/frontend/heir/pipeline.py
+++ b/frontend/heir/pipeline.py
@@ -202,9 +202,10 @@ def run_pipeline(
         f.write(graph)
 
     # Run heir_opt
-    heir_opt_options.append(
+    # The list belongs to the caller, who may reuse it: extend a copy.
+    heir_opt_options = heir_opt_options + [
         "--mlir-print-debuginfo"
-    )  # to preserve location info
+    ]  # to preserve location info
     if debug:
       heir_opt_options.append("--view-op-graph")
       DebugMessage(f"Running heir-opt {' '.join(heir_opt_options)}")
-- 
2.43.0


From 21213c5f91e7903881040a6b030f00d51433292a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:22 +0000
Subject: [PATCH 40/89] fix: report heir-opt errors for MLIR string inputs as
 CompilerError

---
 frontend/heir/pipeline.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/frontend/heir/pipeline.py b/frontend/heir/pipeline.py
index a167b56..27007ad 100644
--- a/frontend/heir/pipeline.py
+++ b/frontend/heir/pipeline.py
@@ -76,6 +76,7 @@ def run_pipeline(
 
     # If it's a python function, parse it via Numba/etc
     mlir_raw_textual = ""
+    numba_ir = None  # stays None if the input is an MLIR string
     if isinstance(function_or_mlir_str, Callable):
       numba_ir = compiler.run_frontend(function_or_mlir_str)
       if not isinstance(numba_ir, FunctionIR):
-- 
2.43.0


From 383d736f6eea7dcbc756ea469b8087a025db1e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:22 +0000
Subject: [PATCH 41/89] fix: raise NotImplementedError for CGGI backends when
 not in debug mode

---
 frontend/heir/pipeline.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/frontend/heir/pipeline.py b/frontend/heir/pipeline.py
index 27007ad..5790730 100644
--- a/frontend/heir/pipeline.py
+++ b/frontend/heir/pipeline.py
@@ -243,10 +243,10 @@ def run_pipeline(
     if any(
         opt.startswith("--mlir-to-cggi") for opt in heir_opt_options
     ) and not isinstance(backend, CleartextBackend):
-      raise NotImplementedError(
-          "Backend compilation is unsupported for CGGI scheme, check CGGI"
-          f" output at {mlirpath}"
-      )
+      message = "Backend compilation is unsupported for CGGI scheme"
+      if debug:
+        message += f", check CGGI output at {mlirpath}"
+      raise NotImplementedError(message)
 
     result = backend.run_backend(
         workspace_dir,
-- 
2.43.0


From 496484c14ad16e35c3207ee1bd605d5a6121f483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:22 +0000
Subject: [PATCH 42/89] fix: accept MLIR string inputs without arguments or
 secrets

---
 frontend/heir/pipeline.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/frontend/heir/pipeline.py b/frontend/heir/pipeline.py
index 5790730..c5c00c7 100644
--- a/frontend/heir/pipeline.py
+++ b/frontend/heir/pipeline.py
@@ -166,8 +166,15 @@ def run_pipeline(
             options=["--emit-function-info", "--allow-unregistered-dialect"],
         )
         func_name = func_info_str.splitlines()[0]
-        arg_names = func_info_str.splitlines()[1].split(", ")
-        secret_args = list(map(int, func_info_str.splitlines()[2].split(", ")))
+        # Either list is empty if there are no (secret) arguments
+        arg_names = [
+            name for name in func_info_str.splitlines()[1].split(", ") if name
+        ]
+        secret_args = [
+            int(index)
+            for index in func_info_str.splitlines()[2].split(", ")
+            if index
+        ]
       except CLIError as e:
         raise CompilerError(
             f"Failed to get function info from MLIR string: {e.stderr}",
-- 
2.43.0


From 533745fc2b941a9b90570bddc8f8ccfbc43358ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:52 +0000
Subject: [PATCH 43/89] fix: keep the shapes of tensor arguments of the same
 rank apart

---
 frontend/heir/mlir/types.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/frontend/heir/mlir/types.py b/frontend/heir/mlir/types.py
index 39a6b8f..f6a4575 100644
--- a/frontend/heir/mlir/types.py
+++ b/frontend/heir/mlir/types.py
@@ -3,7 +3,7 @@
 from abc import ABC, abstractmethod
 import sys
 from typing import Generic, Optional, TypeVar, get_args, get_origin
-from numba.core.types import boolean, float32, float64, int16, int32, int64, int8
+from numba.core.types import Array, boolean, float32, float64, int16, int32, int64, int8
 from numba.core.types import Type as NumbaType
 from numba.extending import type_callable
 
@@ -233,6 +233,23 @@ for typ in [I8, I16, I32, I64, I1, F32, F64]:
     return lambda value: typ.numba_type()
 
 
+class ShapedArray(Array):
+  """A numba array type that also carries the actual sizes.
+
+  Numba interns types by `key`, so the shape has to be a part of it: otherwise
+  all tensors of the same rank and element type would share a single object,
+  and with it a single shape.
+  """
+
+  def __init__(self, array: Array, shape):
+    self.shape = shape
+    super().__init__(array.dtype, array.ndim, array.layout)
+
+  @property
+  def key(self):
+    return super().key + (tuple(self.shape),)
+
+
 # Helper functions
 
 
@@ -257,8 +274,7 @@ def to_numba_type(type: type) -> NumbaType:
     # Cf. https://numba.pydata.org/numba-doc/dev/reference/types.html#arrays
     ty = to_numba_type(inner_type)[(slice(None),) * len(shape)]
     # We augment the type object with `shape` for the actual sizes
-    ty.shape = shape  # type: ignore
-    return ty
+    return ShapedArray(ty, shape)
 
   if issubclass(type, MLIRType):
     return type.numba_type()
-- 
2.43.0


From 763a446e35cd3f69bd1cb6ef40329b2a08f2def1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:53 +0000
Subject: [PATCH 44/89] fix: escape the brace in the static roots table
 template

---
 scripts/generate_static_roots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/generate_static_roots.py b/scripts/generate_static_roots.py
index ac22417..cd0e541 100644
--- a/scripts/generate_static_roots.py
+++ b/scripts/generate_static_roots.py
@@ -24,7 +24,7 @@ OPENING_TEMPLATE = """
 
 llvm::DenseMap<std::pair<unsigned long long, unsigned long long>,
                unsigned long long>
-    STATIC_{size}BIT_ROOTS({
+    STATIC_{size}BIT_ROOTS({{
 """
 
 ENTRY_TEMPLATE = """        {{{{{cmod}, {degree}}}, {root}}},
-- 
2.43.0


From 49dc06388e08531b7e239b92b074adbe4930d478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:53 +0000
Subject: [PATCH 45/89] fix: default the flag, not the name, of a new transform

---
 scripts/templates/templates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/templates/templates.py b/scripts/templates/templates.py
index 9cdcc8b..cb0520b 100644
--- a/scripts/templates/templates.py
+++ b/scripts/templates/templates.py
@@ -230,7 +230,7 @@ class CLI:
       raise ValueError("pass_name must be provided")
 
     if not pass_flag:
-      pass_name = f"{pass_name.lower()}"
+      pass_flag = f"{pass_name.lower()}"
 
     lib_path = self.root / "lib" / "Transforms" / pass_name
 
-- 
2.43.0


From aaf5cddef1b1e74aad55d509803434fa0d28c211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:22 +0000
Subject: [PATCH 46/89] fix: keep the whole command of a continued line with a
 redirect

---
 scripts/lit_to_bazel_lib.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/scripts/lit_to_bazel_lib.py b/scripts/lit_to_bazel_lib.py
index 4d0a755..a8da35f 100644
--- a/scripts/lit_to_bazel_lib.py
+++ b/scripts/lit_to_bazel_lib.py
@@ -8,8 +8,6 @@ import subprocess
 
 # a sentinel for a bash pipe
 PIPE = "|"
-OUT_REDIRECT = ">"
-IN_REDIRECT = "<"
 RUN_PREFIX = "// RUN:"
 
 DEFAULT_TOOL_PREFIX = "bazel run --noallow_analysis_cache_discard //tools"
@@ -46,12 +44,6 @@ def convert_to_run_commands(run_lines):
       run_lines.appendleft(RUN_PREFIX + " " + second.strip())
       continue
 
-    # redirecting to a file implicitly ends the command on that line
-    if OUT_REDIRECT in line or IN_REDIRECT in line:
-      cmds.append(line.strip())
-      current_command = ""
-      continue
-
     if line.strip().endswith("\\"):
       current_command += " " + line.replace("\\", "").strip()
       continue
-- 
2.43.0


From b7fee6b47342eb977120c767cf5e9e32df41d89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:22 +0000
Subject: [PATCH 47/89] fix: keep separate RUN lines apart in lit_to_bazel

---
 scripts/lit_to_bazel_lib.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/scripts/lit_to_bazel_lib.py b/scripts/lit_to_bazel_lib.py
index a8da35f..3ed183e 100644
--- a/scripts/lit_to_bazel_lib.py
+++ b/scripts/lit_to_bazel_lib.py
@@ -119,19 +119,22 @@ def get_command_without_bazel_prefix(lit_test_file) -> str:
       if "// RUN:" in line:
         run_lines.append(line)
 
-  commands = convert_to_run_commands(run_lines)
-  commands = [x for x in commands if "FileCheck" not in x]
-  # remove consecutive and trailing pipes
-  if commands[-1] == PIPE:
-    commands.pop()
-  deduped_commands = []
-  for command in commands:
-    if command == PIPE and deduped_commands[-1] == PIPE:
+  # Commands that are not separated by a pipe belong to different RUN lines.
+  pipelines = []
+  continues_pipeline = False
+  for command in convert_to_run_commands(run_lines):
+    if command == PIPE:
+      continues_pipeline = True
       continue
-    deduped_commands.append(command)
+    if continues_pipeline:
+      pipelines[-1].append(command)
+    else:
+      pipelines.append([command])
+    continues_pipeline = False
 
-  joined = " ".join(deduped_commands)
-  return joined
+  # Drop FileCheck, and the pipelines that consist of nothing else.
+  pipelines = [[x for x in p if "FileCheck" not in x] for p in pipelines]
+  return " && ".join(f" {PIPE} ".join(p) for p in pipelines if p)
 
 
 def lit_to_bazel(
-- 
2.43.0


From b425f9db5b320609a15869d42bca7be2e922129c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:51 +0000
Subject: [PATCH 48/89] fix: register compilation targets with the fields of
 their class

---
 lib/Tablegen/CompilationTargetEmitter.cpp | 32 ++++++++++++++++-------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/lib/Tablegen/CompilationTargetEmitter.cpp b/lib/Tablegen/CompilationTargetEmitter.cpp
index 194fab3..f5dce22 100644
--- a/lib/Tablegen/CompilationTargetEmitter.cpp
+++ b/lib/Tablegen/CompilationTargetEmitter.cpp
@@ -3,6 +3,7 @@
 #include <string>
 #include <string_view>
 
+#include "llvm/include/llvm/ADT/StringExtras.h"          // from @llvm-project
 #include "llvm/include/llvm/ADT/StringRef.h"             // from @llvm-project
 #include "llvm/include/llvm/Support/Casting.h"           // from @llvm-project
 #include "llvm/include/llvm/Support/FormatVariadic.h"    // from @llvm-project
@@ -78,20 +79,31 @@ bool emitCompilationTargetRegistration(const llvm::RecordKeeper& records,
                                        llvm::raw_ostream& os) {
   auto targets = records.getAllDerivedDefinitions("CompilationTarget");
 
+  const llvm::Record* targetClass = records.getClass("CompilationTarget");
   for (auto* target : targets) {
     auto name = target->getName();
-    auto bootstrapLevelsConsumed =
-        target->getValueAsInt("bootstrapLevelsConsumed");
-    auto hasKernelChebyshev = target->getValueAsInt("has_kernel_chebyshev");
-    auto hasKernelLinearTransform =
-        target->getValueAsInt("has_kernel_linear_transform");
-
     os << "void registerTarget" << name << "() {\n"
        << "  "
-          "CompilationTargetRegistry::registerTarget(CompilationTarget{"
-          "BackendName::"
-       << name << ", " << bootstrapLevelsConsumed << ", " << hasKernelChebyshev
-       << ", " << hasKernelLinearTransform << "});\n"
+          "CompilationTargetRegistry::registerTarget(CompilationTarget{";
+
+    // The values are listed in the order in which the struct declares them.
+    llvm::ListSeparator separator;
+    for (const auto& value : targetClass->getValues()) {
+      if (value.isTemplateArg()) {
+        continue;
+      }
+      llvm::StringRef fieldName = value.getName();
+      const llvm::RecTy* type = value.getType();
+      if (fieldName == "backendName") {
+        os << separator << "BackendName::" << name;
+      } else if (llvm::isa<llvm::IntRecTy>(type)) {
+        os << separator << target->getValueAsInt(fieldName);
+      } else if (llvm::isa<llvm::StringRecTy>(type)) {
+        os << separator << "\"" << target->getValueAsString(fieldName) << "\"";
+      }
+    }
+
+    os << "});\n"
        << "}\n\n";
   }
   return false;
-- 
2.43.0


From 8bef3800a46aaf9da6aefbd4353b2be468de08c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:00 +0000
Subject: [PATCH 49/89] fix: do not forward stores past accesses that may alias

A store was forwarded to a load, or removed in favour of a later store, past
accesses of the same element through other indices, views, copies and calls.
---
 lib/Transforms/ForwardStoreToLoad/BUILD       |  4 +
 .../ForwardStoreToLoad/ForwardStoreToLoad.cpp | 76 +++++++++++++++----
 2 files changed, 66 insertions(+), 14 deletions(-)

diff --git a/lib/Transforms/ForwardStoreToLoad/BUILD b/lib/Transforms/ForwardStoreToLoad/BUILD
index 51a2309..54e0cbd 100644
--- a/lib/Transforms/ForwardStoreToLoad/BUILD
+++ b/lib/Transforms/ForwardStoreToLoad/BUILD
@@ -17,9 +17,13 @@ cc_library(
         "@llvm-project//llvm:Support",
         "@llvm-project//mlir:AffineDialect",
         "@llvm-project//mlir:AffineUtils",
+        "@llvm-project//mlir:Analysis",
+        "@llvm-project//mlir:CallOpInterfaces",
+        "@llvm-project//mlir:DialectUtils",
         "@llvm-project//mlir:IR",
         "@llvm-project//mlir:MemRefDialect",
         "@llvm-project//mlir:Pass",
+        "@llvm-project//mlir:SideEffectInterfaces",
         "@llvm-project//mlir:Support",
         "@llvm-project//mlir:TransformUtils",
         "@llvm-project//mlir:Transforms",
diff --git a/lib/Transforms/ForwardStoreToLoad/ForwardStoreToLoad.cpp b/lib/Transforms/ForwardStoreToLoad/ForwardStoreToLoad.cpp
index 7e2fa72..e04dbd0 100644
--- a/lib/Transforms/ForwardStoreToLoad/ForwardStoreToLoad.cpp
+++ b/lib/Transforms/ForwardStoreToLoad/ForwardStoreToLoad.cpp
@@ -2,15 +2,20 @@
 
 #include <utility>
 
+#include "llvm/include/llvm/ADT/STLExtras.h"   // from @llvm-project
 #include "llvm/include/llvm/ADT/TypeSwitch.h"  // from @llvm-project
 #include "llvm/include/llvm/Support/Debug.h"   // from @llvm-project
+#include "mlir/include/mlir/Analysis/AliasAnalysis/LocalAliasAnalysis.h"  // from @llvm-project
 #include "mlir/include/mlir/Dialect/Affine/IR/AffineOps.h"  // from @llvm-project
 #include "mlir/include/mlir/Dialect/Affine/Utils.h"      // from @llvm-project
 #include "mlir/include/mlir/Dialect/MemRef/IR/MemRef.h"  // from @llvm-project
+#include "mlir/include/mlir/Dialect/Utils/StaticValueUtils.h"  // from @llvm-project
 #include "mlir/include/mlir/IR/MLIRContext.h"            // from @llvm-project
 #include "mlir/include/mlir/IR/PatternMatch.h"           // from @llvm-project
 #include "mlir/include/mlir/IR/Value.h"                  // from @llvm-project
 #include "mlir/include/mlir/IR/ValueRange.h"             // from @llvm-project
+#include "mlir/include/mlir/Interfaces/CallInterfaces.h"  // from @llvm-project
+#include "mlir/include/mlir/Interfaces/SideEffectInterfaces.h"  // from @llvm-project
 #include "mlir/include/mlir/Support/LLVM.h"              // from @llvm-project
 #include "mlir/include/mlir/Support/LogicalResult.h"     // from @llvm-project
 #include "mlir/include/mlir/Transforms/GreedyPatternRewriteDriver.h"  // from @llvm-project
@@ -69,6 +74,53 @@ class AffineLoadLowering : public OpRewritePattern<affine::AffineLoadOp> {
   }
 };
 
+// Returns true if the two lists of indices are known to differ in some
+// dimension.
+static bool indicesKnownToDiffer(ValueRange lhs, ValueRange rhs) {
+  return llvm::any_of(llvm::zip(lhs, rhs), [](auto pair) {
+    auto [lhsIndex, rhsIndex] = pair;
+    auto lhsConst = getConstantIntValue(lhsIndex);
+    auto rhsConst = getConstantIntValue(rhsIndex);
+    return lhsConst && rhsConst && *lhsConst != *rhsConst;
+  });
+}
+
+// Returns true if executing `op` may have an effect of the given kind on the
+// element of `memref` at `indices`.
+template <typename EffectTy>
+static bool mayAccess(Operation* op, Value memref, ValueRange indices) {
+  // Accesses of the same memref are disambiguated by their indices.
+  if (auto storeOp = dyn_cast<memref::StoreOp>(op)) {
+    if (storeOp.getMemRef() == memref &&
+        indicesKnownToDiffer(storeOp.getIndices(), indices))
+      return false;
+  }
+  if (auto loadOp = dyn_cast<memref::LoadOp>(op)) {
+    if (loadOp.getMemRef() == memref &&
+        indicesKnownToDiffer(loadOp.getIndices(), indices))
+      return false;
+  }
+
+  LocalAliasAnalysis aliasAnalysis;
+  auto mayAlias = [&](Value value) {
+    return isa<BaseMemRefType>(value.getType()) &&
+           !aliasAnalysis.alias(value, memref).isNo();
+  };
+  if (auto effectOp = dyn_cast<MemoryEffectOpInterface>(op)) {
+    SmallVector<MemoryEffects::EffectInstance> effects;
+    effectOp.getEffects(effects);
+    return llvm::any_of(effects, [&](MemoryEffects::EffectInstance& effect) {
+      return isa<EffectTy>(effect.getEffect()) &&
+             (!effect.getValue() || mayAlias(effect.getValue()));
+    });
+  }
+  // The effects of the op are not known, so it may access any memref it is
+  // given, and a call may access global memrefs as well.
+  return llvm::any_of(op->getOperands(), mayAlias) ||
+         (isa<CallOpInterface>(op) &&
+          memref.getDefiningOp<memref::GetGlobalOp>());
+}
+
 bool ForwardSingleStoreToLoad::isForwardableOp(Operation* potentialStore,
                                                memref::LoadOp& loadOp) const {
   if (!dominanceInfo.properlyDominates(potentialStore, loadOp.getOperation())) {
@@ -104,13 +156,11 @@ bool ForwardSingleStoreToLoad::isForwardableOp(Operation* potentialStore,
                                        "store and load op\n");
             return false;
           }
-          if (auto op = dyn_cast<memref::StoreOp>(currentNode)) {
-            if (op.getMemRef() == storeOp.getMemRef() &&
-                op.getIndices() == storeIndices) {
-              LLVM_DEBUG(llvm::dbgs()
-                         << "an intermediate op stores to the same index\n");
-              return false;
-            }
+          if (mayAccess<MemoryEffects::Write>(currentNode, storeOp.getMemRef(),
+                                              storeIndices)) {
+            LLVM_DEBUG(llvm::dbgs()
+                       << "an intermediate op may store to the same index\n");
+            return false;
           }
         }
 
@@ -197,13 +247,11 @@ bool RemoveUnusedStore::isPostDominated(Operation* potentialOp,
             LLVM_DEBUG(llvm::dbgs() << "an intermediate load op was found\n");
             return false;
           }
-          if (auto op = dyn_cast<memref::LoadOp>(currentNode)) {
-            if (op.getMemRef() == storeOp.getMemRef() &&
-                op.getIndices() == storeIndices) {
-              LLVM_DEBUG(llvm::dbgs()
-                         << "an intermediate op loads at the same index\n");
-              return false;
-            }
+          if (mayAccess<MemoryEffects::Read>(currentNode, storeOp.getMemRef(),
+                                             storeIndices)) {
+            LLVM_DEBUG(llvm::dbgs()
+                       << "an intermediate op may load at the same index\n");
+            return false;
           }
         }
 
-- 
2.43.0


From 918dc371bf3873f0dcbeda75ebbdad208e6b6c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:00 +0000
Subject: [PATCH 50/89] fix: do not skip insertions that may be at the
 extracted index

---
 .../ForwardInsertToExtract.cpp                      | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lib/Transforms/ForwardInsertToExtract/ForwardInsertToExtract.cpp b/lib/Transforms/ForwardInsertToExtract/ForwardInsertToExtract.cpp
index fe33d5e..2a10e3d 100644
--- a/lib/Transforms/ForwardInsertToExtract/ForwardInsertToExtract.cpp
+++ b/lib/Transforms/ForwardInsertToExtract/ForwardInsertToExtract.cpp
@@ -4,6 +4,7 @@
 #include <utility>
 
 #include "lib/Utils/TensorUtils.h"
+#include "llvm/include/llvm/ADT/STLExtras.h"             // from @llvm-project
 #include "llvm/include/llvm/ADT/SmallVectorExtras.h"     // from @llvm-project
 #include "llvm/include/llvm/ADT/TypeSwitch.h"            // from @llvm-project
 #include "llvm/include/llvm/Support/Casting.h"           // from @llvm-project
@@ -59,6 +60,18 @@ FailureOr<OpFoldResult> ForwardSingleInsertToExtract::getValueAtIndex(
               return getAsOpFoldResult(insertOp.getScalar());
             }
 
+            // The insertion can only be skipped if it is known to be at another
+            // index.
+            bool knownToDiffer = llvm::any_of(
+                llvm::zip(insertIndices, indices), [](auto pair) {
+                  auto [insertIndex, extractIndex] = pair;
+                  auto insertConst = getConstantIntValue(insertIndex);
+                  auto extractConst = getConstantIntValue(extractIndex);
+                  return insertConst && extractConst &&
+                         *insertConst != *extractConst;
+                });
+            if (!knownToDiffer) return failure();
+
             LLVM_DEBUG(llvm::dbgs()
                        << "insert and extract op do not have matching "
                           "indices, continuing to defining op\n");
-- 
2.43.0


From bca3de4d79bb29ff002e5e07745a894ed6b911b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:00 +0000
Subject: [PATCH 51/89] fix: keep a buffer that is stored in another buffer

---
 lib/Transforms/UnusedMemRef/UnusedMemRef.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/Transforms/UnusedMemRef/UnusedMemRef.cpp b/lib/Transforms/UnusedMemRef/UnusedMemRef.cpp
index ee3a740..4b0551b 100644
--- a/lib/Transforms/UnusedMemRef/UnusedMemRef.cpp
+++ b/lib/Transforms/UnusedMemRef/UnusedMemRef.cpp
@@ -27,9 +27,12 @@ class RemoveUnusedMemrefPattern : public OpRewritePattern<memref::AllocOp> {
                                 PatternRewriter& rewriter) const override {
     auto memref = op.getMemref();
     if (llvm::any_of(memref.getUsers(), [&](Operation* ownerOp) {
-          return !isa<affine::AffineWriteOpInterface>(ownerOp) &&
-                 !isa<memref::StoreOp>(ownerOp) &&
-                 !hasSingleEffect<MemoryEffects::Free>(ownerOp, memref);
+          // Storing the memref itself somewhere makes it reachable from there.
+          if (auto writeOp = dyn_cast<affine::AffineWriteOpInterface>(ownerOp))
+            return writeOp.getValueToStore() == memref;
+          if (auto storeOp = dyn_cast<memref::StoreOp>(ownerOp))
+            return storeOp.getValueToStore() == memref;
+          return !hasSingleEffect<MemoryEffects::Free>(ownerOp, memref);
         })) {
       return rewriter.notifyMatchFailure(
           op,
-- 
2.43.0


From 2660fdc21e3f08067ee406fd8ea2b349bb16230a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:43 +0000
Subject: [PATCH 52/89] fix: extract the stored value of a loop body, and only
 supported bodies

The function returned its last operation even when another value was stored,
and bodies using induction variables or outside values asserted or produced
functions that refer to values of another function.
---
 .../MemrefToArith/ExtractLoopBody.cpp         | 62 ++++++++++++-------
 1 file changed, 40 insertions(+), 22 deletions(-)

diff --git a/lib/Transforms/MemrefToArith/ExtractLoopBody.cpp b/lib/Transforms/MemrefToArith/ExtractLoopBody.cpp
index 1ae5203..cb98c86 100644
--- a/lib/Transforms/MemrefToArith/ExtractLoopBody.cpp
+++ b/lib/Transforms/MemrefToArith/ExtractLoopBody.cpp
@@ -6,6 +6,8 @@
 #include <string>
 
 #include "lib/Transforms/MemrefToArith/MemrefToArith.h"
+#include "llvm/include/llvm/ADT/STLExtras.h"           // from @llvm-project
+#include "llvm/include/llvm/ADT/SetVector.h"           // from @llvm-project
 #include "llvm/include/llvm/ADT/TypeSwitch.h"          // from @llvm-project
 #include "llvm/include/llvm/Support/FormatVariadic.h"  // from @llvm-project
 #include "mlir/include/mlir/Dialect/Affine/Analysis/AffineAnalysis.h"  // from @llvm-project
@@ -97,20 +99,24 @@ void extractLoopBody(AffineForOp loop, unsigned int minimumLoopSize,
   // Walk the inner loop body, collect func args, funcs logic, and result.
   SmallVector<Type, 4> inputTypes;
   SmallVector<Value, 4> inputs;
-  SmallVector<Value> results;
+  SmallVector<affine::AffineStoreOp> stores;
   SmallVector<Operation*, 10> opsToCopy;
-  SmallPtrSet<Operation*, 4> constantOps;
+  llvm::SetVector<Operation*> constantOps;
+  bool supported = true;
 
   mlir::Region& innerLoopBody = nestedLoops[nestedLoops.size() - 1].getRegion();
   innerLoopBody.walk<WalkOrder::PreOrder>([&](Operation* op) {
     return llvm::TypeSwitch<Operation&, WalkResult>(*op)
         .Case<affine::AffineLoadOp, memref::LoadOp>([&](auto op) {
-          inputTypes.push_back(op.getResult().getType());
-          inputs.push_back(op.getResult());
+          // Values loaded after the result is stored cannot be inputs.
+          if (stores.empty()) {
+            inputTypes.push_back(op.getResult().getType());
+            inputs.push_back(op.getResult());
+          }
           return WalkResult::advance();
         })
         .Case<affine::AffineStoreOp>([&](auto op) {
-          results.push_back(op.getValue());
+          stores.push_back(op);
           return WalkResult::advance();
         })
         .Case<affine::AffineYieldOp>(
@@ -120,12 +126,18 @@ void extractLoopBody(AffineForOp loop, unsigned int minimumLoopSize,
           if (checkUsedForLoad(&op, /*exclusive=*/true))
             return WalkResult::advance();
           opsToCopy.push_back(&op);
+          // Operations with regions are not supported, nor are values stored
+          // before they are computed.
+          if (op.getNumRegions() > 0 || !stores.empty()) supported = false;
           for (auto operand : op.getOperands()) {
-            // TODO(b/290371769): Support adding block arguments to the
-            // function inputs.
-            assert(operand.getDefiningOp() != nullptr);
-            if (isa<arith::ConstantOp>(operand.getDefiningOp())) {
-              constantOps.insert(operand.getDefiningOp());
+            // TODO(b/290371769): Support adding block arguments and values
+            // computed outside of the loop to the function inputs.
+            Operation* definingOp = operand.getDefiningOp();
+            if (definingOp && isa<arith::ConstantOp>(definingOp)) {
+              constantOps.insert(definingOp);
+            } else if (!definingOp ||
+                       definingOp->getParentRegion() != &innerLoopBody) {
+              supported = false;
             }
           }
           return WalkResult::advance();
@@ -135,16 +147,23 @@ void extractLoopBody(AffineForOp loop, unsigned int minimumLoopSize,
   // Nothing to do if there are no operations to copy into a function.
   if (opsToCopy.empty()) return;
 
-  if (inputTypes.empty() || results.size() != 1) {
+  if (inputTypes.empty() || stores.size() != 1) {
     loop.emitWarning(
         "extract-loop-body only supports loops with a loads and a single store "
         "operation");
     return;
   }
 
-  auto result = results[0];
-  auto finalOp = opsToCopy[opsToCopy.size() - 1];
-  if (finalOp->getNumResults() != 1 && finalOp->getResult(0) != result) {
+  if (!supported) {
+    loop.emitWarning(
+        "extract-loop-body only supports loop bodies that are computed from "
+        "loaded values and constants");
+    return;
+  }
+
+  auto storeOp = stores[0];
+  auto result = storeOp.getValue();
+  if (!llvm::is_contained(opsToCopy, result.getDefiningOp())) {
     loop.emitWarning(
         "expected loop body to terminate with a single final store operation");
     return;
@@ -170,28 +189,27 @@ void extractLoopBody(AffineForOp loop, unsigned int minimumLoopSize,
   }
 
   // Build the function body.
-  Operation* clonedOp;
   for (auto op : constantOps) {
-    clonedOp = builder.clone(*op, mp);
+    builder.clone(*op, mp);
   }
   for (auto op : opsToCopy) {
-    clonedOp = builder.clone(*op, mp);
+    builder.clone(*op, mp);
   }
 
-  // Add a return statement for the final cloned operation's result.
-  func::ReturnOp::create(builder, funcOp.getLoc(), clonedOp->getResult(0));
+  // Add a return statement for the clone of the stored value.
+  func::ReturnOp::create(builder, funcOp.getLoc(), mp.lookup(result));
 
   // Call the function.
-  builder.setInsertionPointAfter(result.getDefiningOp());
+  builder.setInsertionPoint(storeOp);
   auto callOp = func::CallOp::create(builder, result.getLoc(), funcOp, inputs);
-  result.getDefiningOp()->replaceAllUsesWith(callOp);
+  storeOp.getValueMutable().assign(callOp.getResult(0));
 
   // Erase previous ops, except for the load statements and its dependents.
   for (SmallVectorImpl<Operation*>::reverse_iterator rit = opsToCopy.rbegin();
        rit != opsToCopy.rend(); ++rit) {
     auto op = *rit;
     // If the operation was also used for a load statement, don't erase.
-    if (checkUsedForLoad(op, /*exclusive=*/false)) continue;
+    if (!op->use_empty()) continue;
     op->erase();
   }
 }
-- 
2.43.0


From 2cc0eaecf0988a611df3e0612274796cb55b4c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:50 +0000
Subject: [PATCH 53/89] fix: unroll loops that start a function

---
 lib/Transforms/MemrefToArith/UnrollAndForward.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/Transforms/MemrefToArith/UnrollAndForward.cpp b/lib/Transforms/MemrefToArith/UnrollAndForward.cpp
index 1989b2d..7dd6e71 100644
--- a/lib/Transforms/MemrefToArith/UnrollAndForward.cpp
+++ b/lib/Transforms/MemrefToArith/UnrollAndForward.cpp
@@ -390,7 +390,11 @@ void UnrollAndForwardPass::runOnOperation() {
 
     // Update the storeMap indexing all newly unrolled stores from the end of
     // the last loop to the end of the current loop.
-    if (failed(updateStoreMap(prevNode, nextNode, storeMap))) {
+    // There is no previous operation when the loop was the first operation of
+    // the function.
+    Operation* firstUnrolled =
+        prevNode ? prevNode : &nextNode->getBlock()->front();
+    if (failed(updateStoreMap(firstUnrolled, nextNode, storeMap))) {
       return signalPassFailure();
     }
 
@@ -403,8 +407,8 @@ void UnrollAndForwardPass::runOnOperation() {
         return WalkResult::interrupt();
       }
 
-      if (loadOp->getParentOp() != prevNode->getParentOp() ||
-          loadOp->isBeforeInBlock(prevNode)) {
+      if (prevNode && (loadOp->getParentOp() != prevNode->getParentOp() ||
+                       loadOp->isBeforeInBlock(prevNode))) {
         // Don't process any loads prev to the currently inspected block
         // that failed to forward, though ideally there should be none.
         return WalkResult::skip();
-- 
2.43.0


From bebaa52d6ea41ce217753a5bed91cefecc7e8a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:05 +0000
Subject: [PATCH 54/89] fix: drop analysis states of erased operations before
 re-running

---
 lib/Transforms/ConvertIfToSelect/ConvertIfToSelect.cpp         | 3 ++-
 .../ConvertSecretExtractToStaticExtract.cpp                    | 3 ++-
 .../ConvertSecretInsertToStaticInsert.cpp                      | 2 ++
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/Transforms/ConvertIfToSelect/ConvertIfToSelect.cpp b/lib/Transforms/ConvertIfToSelect/ConvertIfToSelect.cpp
index 2c77fea..081708d 100644
--- a/lib/Transforms/ConvertIfToSelect/ConvertIfToSelect.cpp
+++ b/lib/Transforms/ConvertIfToSelect/ConvertIfToSelect.cpp
@@ -92,7 +92,8 @@ struct IfToSelectConversion : OpRewritePattern<scf::IfOp> {
     }
 
     // re-run the analysis propagate secretness across
-    // newly created Values
+    // newly created Values; the previous states refer to erased operations
+    solver->eraseAllStates();
     return solver->initializeAndRun(top);
   }
 
diff --git a/lib/Transforms/ConvertSecretExtractToStaticExtract/ConvertSecretExtractToStaticExtract.cpp b/lib/Transforms/ConvertSecretExtractToStaticExtract/ConvertSecretExtractToStaticExtract.cpp
index 30edd66..1d20dde 100644
--- a/lib/Transforms/ConvertSecretExtractToStaticExtract/ConvertSecretExtractToStaticExtract.cpp
+++ b/lib/Transforms/ConvertSecretExtractToStaticExtract/ConvertSecretExtractToStaticExtract.cpp
@@ -140,7 +140,8 @@ struct SecretExtractToStaticExtractConversion
     rewriter.replaceOp(extractOp, forOp);
 
     // re-run the analysis propagate secretness across
-    // newly created Values
+    // newly created Values; the previous states refer to erased operations
+    solver->eraseAllStates();
     return solver->initializeAndRun(top);
   }
 
diff --git a/lib/Transforms/ConvertSecretInsertToStaticInsert/ConvertSecretInsertToStaticInsert.cpp b/lib/Transforms/ConvertSecretInsertToStaticInsert/ConvertSecretInsertToStaticInsert.cpp
index 8ede6ee..aba29bd 100644
--- a/lib/Transforms/ConvertSecretInsertToStaticInsert/ConvertSecretInsertToStaticInsert.cpp
+++ b/lib/Transforms/ConvertSecretInsertToStaticInsert/ConvertSecretInsertToStaticInsert.cpp
@@ -126,6 +126,8 @@ struct SecretInsertToStaticInsertConversion
     // Replace the old tensor.insert op with forOp's result
     rewriter.replaceOp(insertOp, forOp);
 
+    // The previous states refer to erased operations.
+    solver->eraseAllStates();
     return solver->initializeAndRun(top);
   }
 
-- 
2.43.0


From 4c5a001661b437d00e9c73ff9d5a72eefcffb9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 55/89] fix: convert secret while loops only with unchanged
 variables, and nested ones

---
 .../ConvertSecretExtractToStaticExtract.cpp   |  8 +++
 .../ConvertSecretForToStaticFor.cpp           | 21 +++++--
 .../ConvertSecretInsertToStaticInsert.cpp     |  8 +++
 .../ConvertSecretWhileToStaticFor.cpp         | 57 ++++++++-----------
 4 files changed, 56 insertions(+), 38 deletions(-)

diff --git a/lib/Transforms/ConvertSecretExtractToStaticExtract/ConvertSecretExtractToStaticExtract.cpp b/lib/Transforms/ConvertSecretExtractToStaticExtract/ConvertSecretExtractToStaticExtract.cpp
index 1d20dde..c4d02b7 100644
--- a/lib/Transforms/ConvertSecretExtractToStaticExtract/ConvertSecretExtractToStaticExtract.cpp
+++ b/lib/Transforms/ConvertSecretExtractToStaticExtract/ConvertSecretExtractToStaticExtract.cpp
@@ -13,6 +13,7 @@
 #include "mlir/include/mlir/IR/Builders.h"               // from @llvm-project
 #include "mlir/include/mlir/IR/Diagnostics.h"            // from @llvm-project
 #include "mlir/include/mlir/IR/ImplicitLocOpBuilder.h"   // from @llvm-project
+#include "mlir/include/mlir/IR/Matchers.h"               // from @llvm-project
 #include "mlir/include/mlir/IR/MLIRContext.h"            // from @llvm-project
 #include "mlir/include/mlir/IR/Operation.h"              // from @llvm-project
 #include "mlir/include/mlir/IR/PatternMatch.h"           // from @llvm-project
@@ -48,6 +49,13 @@ struct SecretExtractToStaticExtractConversion
 
     auto index = extractOp.getIndices().front();
 
+    // Constants and the induction variables of affine loops are never secret,
+    // even where the analysis does not reach them. This includes the indices
+    // created below.
+    if (matchPattern(index, m_Constant()) ||
+        affine::isAffineInductionVar(index))
+      return failure();
+
     auto* indexSecretnessLattice =
         solver->lookupState<SecretnessLattice>(index);
 
diff --git a/lib/Transforms/ConvertSecretForToStaticFor/ConvertSecretForToStaticFor.cpp b/lib/Transforms/ConvertSecretForToStaticFor/ConvertSecretForToStaticFor.cpp
index e9483ea..6ac1b8f 100644
--- a/lib/Transforms/ConvertSecretForToStaticFor/ConvertSecretForToStaticFor.cpp
+++ b/lib/Transforms/ConvertSecretForToStaticFor/ConvertSecretForToStaticFor.cpp
@@ -31,9 +31,10 @@ struct SecretForToStaticForConversion : OpRewritePattern<scf::ForOp> {
   using OpRewritePattern<scf::ForOp>::OpRewritePattern;
 
  public:
-  SecretForToStaticForConversion(DataFlowSolver* solver, MLIRContext* context,
-                                 bool convertAllScfFor)
+  SecretForToStaticForConversion(Operation* top, DataFlowSolver* solver,
+                                 MLIRContext* context, bool convertAllScfFor)
       : OpRewritePattern(context),
+        top(top),
         solver(solver),
         convertAllScfFor(convertAllScfFor) {}
 
@@ -147,7 +148,7 @@ struct SecretForToStaticForConversion : OpRewritePattern<scf::ForOp> {
       }
       // Replace scf.for with affine.for
       rewriter.replaceOp(forOp, newForOp);
-      return success();
+      return rerunAnalysis();
     }
 
     // Handle secret bounds with conditional logic
@@ -201,10 +202,18 @@ struct SecretForToStaticForConversion : OpRewritePattern<scf::ForOp> {
     // Replace scf.for with affine.for
     rewriter.replaceOp(forOp, newForOp);
 
-    return success();
+    return rerunAnalysis();
   }
 
  private:
+  // Propagate secretness across newly created Values
+  LogicalResult rerunAnalysis() const {
+    solver->eraseAllStates();
+    return solver->initializeAndRun(top);
+  }
+
+  // root operation the pass is on, should never be altered hence never null
+  Operation* top;
   DataFlowSolver* solver;
   bool convertAllScfFor;
 };
@@ -230,8 +239,8 @@ struct ConvertSecretForToStaticFor
       return;
     }
 
-    patterns.add<SecretForToStaticForConversion>(&solver, context,
-                                                 this->convertAllScfFor);
+    patterns.add<SecretForToStaticForConversion>(
+        getOperation(), &solver, context, this->convertAllScfFor);
     (void)applyPatternsGreedily(getOperation(), std::move(patterns));
   }
 };
diff --git a/lib/Transforms/ConvertSecretInsertToStaticInsert/ConvertSecretInsertToStaticInsert.cpp b/lib/Transforms/ConvertSecretInsertToStaticInsert/ConvertSecretInsertToStaticInsert.cpp
index aba29bd..eeeb350 100644
--- a/lib/Transforms/ConvertSecretInsertToStaticInsert/ConvertSecretInsertToStaticInsert.cpp
+++ b/lib/Transforms/ConvertSecretInsertToStaticInsert/ConvertSecretInsertToStaticInsert.cpp
@@ -13,6 +13,7 @@
 #include "mlir/include/mlir/IR/Builders.h"               // from @llvm-project
 #include "mlir/include/mlir/IR/Diagnostics.h"            // from @llvm-project
 #include "mlir/include/mlir/IR/ImplicitLocOpBuilder.h"   // from @llvm-project
+#include "mlir/include/mlir/IR/Matchers.h"               // from @llvm-project
 #include "mlir/include/mlir/IR/MLIRContext.h"            // from @llvm-project
 #include "mlir/include/mlir/IR/Operation.h"              // from @llvm-project
 #include "mlir/include/mlir/IR/PatternMatch.h"           // from @llvm-project
@@ -48,6 +49,13 @@ struct SecretInsertToStaticInsertConversion
     auto tensor = insertOp.getDest();
     auto insertedValue = insertOp.getScalar();
 
+    // Constants and the induction variables of affine loops are never secret,
+    // even where the analysis does not reach them. This includes the indices
+    // created below.
+    if (matchPattern(index, m_Constant()) ||
+        affine::isAffineInductionVar(index))
+      return failure();
+
     auto* indexSecretnessLattice =
         solver->lookupState<SecretnessLattice>(index);
 
diff --git a/lib/Transforms/ConvertSecretWhileToStaticFor/ConvertSecretWhileToStaticFor.cpp b/lib/Transforms/ConvertSecretWhileToStaticFor/ConvertSecretWhileToStaticFor.cpp
index 4d22b79..61d5b50 100644
--- a/lib/Transforms/ConvertSecretWhileToStaticFor/ConvertSecretWhileToStaticFor.cpp
+++ b/lib/Transforms/ConvertSecretWhileToStaticFor/ConvertSecretWhileToStaticFor.cpp
@@ -30,8 +30,9 @@ struct SecretWhileToStaticForConversion : OpRewritePattern<scf::WhileOp> {
   using OpRewritePattern<scf::WhileOp>::OpRewritePattern;
 
  public:
-  SecretWhileToStaticForConversion(DataFlowSolver* solver, MLIRContext* context)
-      : OpRewritePattern(context), solver(solver) {}
+  SecretWhileToStaticForConversion(Operation* top, DataFlowSolver* solver,
+                                   MLIRContext* context)
+      : OpRewritePattern(context), top(top), solver(solver) {}
 
   // TODO(#846): Add support for do-while loops
   LogicalResult matchAndRewrite(scf::WhileOp whileOp,
@@ -39,45 +40,32 @@ struct SecretWhileToStaticForConversion : OpRewritePattern<scf::WhileOp> {
     auto conditionOp = whileOp.getConditionOp();
     auto whileCondition = conditionOp->getOperand(0);
 
-    auto* beforeRegionArgs = whileOp.getBefore().front().getArguments().data();
+    auto beforeRegionArgs = whileOp.getBefore().front().getArguments();
 
     auto conditionOpArgs =
         // Get Loop variables: includes all arguments without the condition
         conditionOp->getOperands().drop_front(1);
 
-    int counter = 0;
-    for (auto arg : conditionOpArgs) {
-      // Check if the defining operation of the loop variable passed in
-      // scf.condition is the same as the operation defining the block argument
-      // passed by scf.while. A true value implies that the loop variable is the
-      // same as the block argument, i.e., the original block argument passed by
-      // scf.while has not been changed.
-      bool isEqual =
-          arg.getDefiningOp() == beforeRegionArgs[counter].getDefiningOp();
-      if (!isEqual) {
-        InFlightDiagnostic diag =
-            whileOp.emitWarning()
-            << "Current loop transformation has no support for do-while loops:";
-        return failure();
-      }
-      counter++;
-    }
-
-    auto* conditionSecretnessLattice =
-        solver->lookupState<SecretnessLattice>(whileCondition);
-
-    if (!conditionSecretnessLattice) {
+    // The loop variables passed by scf.condition must be the block arguments
+    // passed by scf.while, unchanged and in the same order.
+    if (!llvm::equal(conditionOpArgs, beforeRegionArgs)) {
       InFlightDiagnostic diag =
           whileOp.emitWarning()
-          << "Secretness for scf.while condition has not been set";
+          << "Current loop transformation has no support for do-while loops:";
       return failure();
     }
 
-    bool isConditionSecret =
-        conditionSecretnessLattice->getValue().getSecretness();
+    auto* conditionSecretnessLattice =
+        solver->lookupState<SecretnessLattice>(whileCondition);
+
+    // Use secretness from lattice or, if no lattice found, set to unknown
+    auto conditionSecretness = conditionSecretnessLattice
+                                   ? conditionSecretnessLattice->getValue()
+                                   : Secretness();
 
-    // If condition is not secret, no transformation is needed
-    if (!isConditionSecret) {
+    // If condition is known to be public, no transformation is needed
+    if (conditionSecretness.isInitialized() &&
+        !conditionSecretness.getSecretness()) {
       return failure();
     }
 
@@ -146,10 +134,14 @@ struct SecretWhileToStaticForConversion : OpRewritePattern<scf::WhileOp> {
     // Replace scf.while with affine.for
     rewriter.replaceOp(whileOp, newForOp);
 
-    return success();
+    // re-run the analysis to propagate secretness across newly created Values
+    solver->eraseAllStates();
+    return solver->initializeAndRun(top);
   }
 
  private:
+  // root operation the pass is on, should never be altered hence never null
+  Operation* top;
   DataFlowSolver* solver;
 };
 
@@ -174,7 +166,8 @@ struct ConvertSecretWhileToStaticFor
       return;
     }
 
-    patterns.add<SecretWhileToStaticForConversion>(&solver, context);
+    patterns.add<SecretWhileToStaticForConversion>(getOperation(), &solver,
+                                                   context);
     // TODO (#1221): Investigate whether folding (default: on) can be skipped
     // here.
     (void)applyPatternsGreedily(getOperation(), std::move(patterns));
-- 
2.43.0


From 3bb7e968e2096b329158674c2893bbd8ffd54cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 56/89] fix: convert secret for loops with any step, bounds of
 any type, and nested ones

---
 .../ConvertSecretForToStaticFor/BUILD         |   1 +
 .../ConvertSecretForToStaticFor.cpp           | 104 ++++++++++++------
 2 files changed, 74 insertions(+), 31 deletions(-)

diff --git a/lib/Transforms/ConvertSecretForToStaticFor/BUILD b/lib/Transforms/ConvertSecretForToStaticFor/BUILD
index 881718b..8aecea6 100644
--- a/lib/Transforms/ConvertSecretForToStaticFor/BUILD
+++ b/lib/Transforms/ConvertSecretForToStaticFor/BUILD
@@ -16,6 +16,7 @@ cc_library(
         "@llvm-project//mlir:AffineDialect",
         "@llvm-project//mlir:Analysis",
         "@llvm-project//mlir:ArithDialect",
+        "@llvm-project//mlir:DialectUtils",
         "@llvm-project//mlir:IR",
         "@llvm-project//mlir:Pass",
         "@llvm-project//mlir:SCFDialect",
diff --git a/lib/Transforms/ConvertSecretForToStaticFor/ConvertSecretForToStaticFor.cpp b/lib/Transforms/ConvertSecretForToStaticFor/ConvertSecretForToStaticFor.cpp
index 6ac1b8f..12a29ca 100644
--- a/lib/Transforms/ConvertSecretForToStaticFor/ConvertSecretForToStaticFor.cpp
+++ b/lib/Transforms/ConvertSecretForToStaticFor/ConvertSecretForToStaticFor.cpp
@@ -6,8 +6,9 @@
 #include "mlir/include/mlir/Analysis/DataFlow/Utils.h"     // from @llvm-project
 #include "mlir/include/mlir/Analysis/DataFlowFramework.h"  // from @llvm-project
 #include "mlir/include/mlir/Dialect/Affine/IR/AffineOps.h"  // from @llvm-project
-#include "mlir/include/mlir/Dialect/Arith/IR/Arith.h"   // from @llvm-project
-#include "mlir/include/mlir/Dialect/SCF/IR/SCF.h"       // from @llvm-project
+#include "mlir/include/mlir/Dialect/Arith/IR/Arith.h"  // from @llvm-project
+#include "mlir/include/mlir/Dialect/SCF/IR/SCF.h"      // from @llvm-project
+#include "mlir/include/mlir/Dialect/Utils/StaticValueUtils.h"  // from @llvm-project
 #include "mlir/include/mlir/IR/Builders.h"              // from @llvm-project
 #include "mlir/include/mlir/IR/BuiltinAttributes.h"     // from @llvm-project
 #include "mlir/include/mlir/IR/Diagnostics.h"           // from @llvm-project
@@ -75,20 +76,25 @@ struct SecretForToStaticForConversion : OpRewritePattern<scf::ForOp> {
     // scf.for only allows a simple start, end, step form, so we can create a
     // relatively simple affine map
 
+    // A public bound is used as it is if affine.for allows it. Otherwise, it is
+    // handled like a secret bound.
+    bool isStaticLowerBound =
+        isLowerBoundSecret || !isAffineBound(forOp, lowerBound);
+    bool isStaticUpperBound =
+        isUpperBoundSecret || !isAffineBound(forOp, upperBound);
+    if (!isLowerBoundSecret && !isUpperBoundSecret &&
+        (isStaticLowerBound || isStaticUpperBound))
+      return rewriter.notifyMatchFailure(
+          forOp, "non-secret bounds are not supported by affine.for");
+
     ImplicitLocOpBuilder builder(forOp->getLoc(), rewriter);
 
-    if (!isa<IndexType>(lowerBound.getType())) {
-      lowerBound = arith::IndexCastOp::create(
-          builder, lowerBound.getLoc(), builder.getIndexType(), lowerBound);
-    }
-    if (!isa<IndexType>(upperBound.getType())) {
-      upperBound = arith::IndexCastOp::create(
-          builder, upperBound.getLoc(), builder.getIndexType(), upperBound);
-    }
+    lowerBound = castToIndex(builder, lowerBound);
+    upperBound = castToIndex(builder, upperBound);
     Value newLowerBound = lowerBound;
     Value newUpperBound = upperBound;
 
-    if (isLowerBoundSecret) {
+    if (isStaticLowerBound) {
       // If static lower bound is not provided, emit an error and return
       if (auto lowerBoundAttr = forOp->getAttrOfType<IntegerAttr>("lower")) {
         newLowerBound = arith::ConstantIndexOp::create(
@@ -101,7 +107,7 @@ struct SecretForToStaticForConversion : OpRewritePattern<scf::ForOp> {
       }
     }
 
-    if (isUpperBoundSecret) {
+    if (isStaticUpperBound) {
       // If static upper bound is not provided, emit an error and return
       if (auto upperBoundAttr = forOp->getAttrOfType<IntegerAttr>("upper")) {
         newUpperBound = arith::ConstantIndexOp::create(
@@ -114,18 +120,30 @@ struct SecretForToStaticForConversion : OpRewritePattern<scf::ForOp> {
       }
     }
 
+    // The iterations of a loop with a secret lower bound may not be the ones
+    // counted from the static lower bound, so consider every value in between.
+    int64_t step = forOp.getConstantStep()->getSExtValue();
+    int64_t newStep = isStaticLowerBound ? 1 : step;
+
     auto newForOp = affine::AffineForOp::create(
         builder, ValueRange(newLowerBound), builder.getSymbolIdentityMap(),
-        ValueRange(newUpperBound), builder.getSymbolIdentityMap(),
-        forOp.getConstantStep()->getLimitedValue(), forOp.getInitArgs());
+        ValueRange(newUpperBound), builder.getSymbolIdentityMap(), newStep,
+        forOp.getInitArgs());
 
     newForOp->setAttrs(forOp->getAttrs());
 
-    auto inductionVariable = newForOp.getInductionVar();
+    Value inductionVariable = newForOp.getInductionVar();
 
     builder.setInsertionPointToStart(newForOp.getBody());
 
-    if (!isLowerBoundSecret && !isUpperBoundSecret) {
+    // The induction variable as seen by the original loop body
+    Value originalInductionVariable = inductionVariable;
+    if (!isa<IndexType>(forOp.getInductionVar().getType())) {
+      originalInductionVariable = arith::IndexCastOp::create(
+          builder, forOp.getInductionVar().getType(), inductionVariable);
+    }
+
+    if (!isStaticLowerBound && !isStaticUpperBound) {
       // If neither bound is secret,
       // we can directly copy the body
       IRMapping mp;
@@ -133,6 +151,7 @@ struct SecretForToStaticForConversion : OpRewritePattern<scf::ForOp> {
         mp.map(blockArg,
                newForOp.getBody()->getArguments()[blockArg.getArgNumber()]);
       }
+      mp.map(forOp.getInductionVar(), originalInductionVariable);
       for (auto& op : forOp.getBody()->getOperations()) {
         // Convert scf.yield to affine.yield
         if (auto yieldOp = dyn_cast<scf::YieldOp>(&op)) {
@@ -152,31 +171,36 @@ struct SecretForToStaticForConversion : OpRewritePattern<scf::ForOp> {
     }
 
     // Handle secret bounds with conditional logic
-    arith::CmpIOp cmpIUpper, cmpILower;
-    arith::AndIOp andI;
+    Value cond;
+    auto addCondition = [&](Value newCond) {
+      cond = cond ? arith::AndIOp::create(builder, cond, newCond).getResult()
+                  : newCond;
+    };
 
-    if (isLowerBoundSecret) {
+    if (isStaticLowerBound) {
       // Create arith.cmpi (iv >= oldLowerBound)
-      cmpILower = arith::CmpIOp::create(builder, arith::CmpIPredicate::sge,
-                                        inductionVariable, lowerBound);
+      addCondition(arith::CmpIOp::create(builder, arith::CmpIPredicate::sge,
+                                         inductionVariable, lowerBound));
     }
 
-    if (isUpperBoundSecret) {
+    if (isStaticUpperBound) {
       // Create arith.cmpi (iv < oldUpperBound)
-      cmpIUpper = arith::CmpIOp::create(builder, arith::CmpIPredicate::slt,
-                                        inductionVariable, upperBound);
+      addCondition(arith::CmpIOp::create(builder, arith::CmpIPredicate::slt,
+                                         inductionVariable, upperBound));
     }
 
-    // If both lowerBound and upperBound are secret, join the two arith.cmpi
-    // with an arith.andi
-    if (isLowerBoundSecret && isUpperBoundSecret) {
-      andI = arith::AndIOp::create(builder, cmpILower, cmpIUpper);
+    if (step != newStep) {
+      // Create arith.cmpi ((iv - oldLowerBound) % step == 0)
+      auto distance =
+          arith::SubIOp::create(builder, inductionVariable, lowerBound);
+      auto remainder = arith::RemSIOp::create(
+          builder, distance, arith::ConstantIndexOp::create(builder, step));
+      addCondition(
+          arith::CmpIOp::create(builder, arith::CmpIPredicate::eq, remainder,
+                                arith::ConstantIndexOp::create(builder, 0)));
     }
 
     // Create scf.if to conditionally execute the body of scf.for
-    auto cond = isLowerBoundSecret ? isUpperBoundSecret ? andI.getResult()
-                                                        : cmpILower.getResult()
-                                   : cmpIUpper.getResult();
     scf::IfOp ifOp = scf::IfOp::create(
         builder, cond,
         // 'Then' region
@@ -187,6 +211,7 @@ struct SecretForToStaticForConversion : OpRewritePattern<scf::ForOp> {
             mp.map(blockArg,
                    newForOp.getBody()->getArguments()[blockArg.getArgNumber()]);
           }
+          mp.map(forOp.getInductionVar(), originalInductionVariable);
           for (auto& op : forOp.getBody()->getOperations()) {
             b.clone(op, mp);
           }
@@ -206,6 +231,23 @@ struct SecretForToStaticForConversion : OpRewritePattern<scf::ForOp> {
   }
 
  private:
+  static Value castToIndex(ImplicitLocOpBuilder& builder, Value bound) {
+    if (isa<IndexType>(bound.getType())) return bound;
+    if (auto constant = getConstantIntValue(bound))
+      return arith::ConstantIndexOp::create(builder, bound.getLoc(), *constant);
+    return arith::IndexCastOp::create(builder, bound.getLoc(),
+                                      builder.getIndexType(), bound);
+  }
+
+  // Whether a loop bound may become the bound of an affine.for in its place
+  static bool isAffineBound(scf::ForOp forOp, Value bound) {
+    if (getConstantIntValue(bound)) return true;
+    // other types are cast right before the loop
+    if (!isa<IndexType>(bound.getType()))
+      return forOp->getParentOp()->hasTrait<OpTrait::AffineScope>();
+    return affine::isValidSymbol(bound);
+  }
+
   // Propagate secretness across newly created Values
   LogicalResult rerunAnalysis() const {
     solver->eraseAllStates();
-- 
2.43.0


From a4eddbe4fe35e68a172f7aadb1a65d85b64534bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:43 +0000
Subject: [PATCH 57/89] fix: treat results of secret-controlled regions as
 secret

---
 lib/Analysis/SecretnessAnalysis/BUILD         |  4 ++
 .../SecretnessAnalysis/SecretnessAnalysis.cpp | 55 +++++++++++++++++++
 .../SecretnessAnalysis/SecretnessAnalysis.h   | 11 ++++
 3 files changed, 70 insertions(+)

diff --git a/lib/Analysis/SecretnessAnalysis/BUILD b/lib/Analysis/SecretnessAnalysis/BUILD
index 03b9374..1b6e34c 100644
--- a/lib/Analysis/SecretnessAnalysis/BUILD
+++ b/lib/Analysis/SecretnessAnalysis/BUILD
@@ -15,9 +15,13 @@ cc_library(
         "@heir//lib/Dialect:HEIRInterfaces",
         "@heir//lib/Dialect/Secret/IR:Dialect",
         "@llvm-project//llvm:Support",
+        "@llvm-project//mlir:AffineDialect",
         "@llvm-project//mlir:Analysis",
+        "@llvm-project//mlir:ControlFlowInterfaces",
         "@llvm-project//mlir:FuncDialect",
         "@llvm-project//mlir:IR",
+        "@llvm-project//mlir:LoopLikeInterface",
+        "@llvm-project//mlir:SCFDialect",
         "@llvm-project//mlir:Support",
     ],
 )
diff --git a/lib/Analysis/SecretnessAnalysis/SecretnessAnalysis.cpp b/lib/Analysis/SecretnessAnalysis/SecretnessAnalysis.cpp
index 4f761c6..ddcffec 100644
--- a/lib/Analysis/SecretnessAnalysis/SecretnessAnalysis.cpp
+++ b/lib/Analysis/SecretnessAnalysis/SecretnessAnalysis.cpp
@@ -9,11 +9,14 @@
 #include "lib/Dialect/Secret/IR/SecretDialect.h"
 #include "lib/Dialect/Secret/IR/SecretOps.h"
 #include "lib/Dialect/Secret/IR/SecretTypes.h"
+#include "llvm/include/llvm/ADT/STLExtras.h"               // from @llvm-project
 #include "llvm/include/llvm/Support/Casting.h"             // from @llvm-project
 #include "llvm/include/llvm/Support/Debug.h"               // from @llvm-project
 #include "llvm/include/llvm/Support/DebugLog.h"            // from @llvm-project
 #include "mlir/include/mlir/Analysis/DataFlowFramework.h"  // from @llvm-project
+#include "mlir/include/mlir/Dialect/Affine/IR/AffineOps.h"  // from @llvm-project
 #include "mlir/include/mlir/Dialect/Func/IR/FuncOps.h"     // from @llvm-project
+#include "mlir/include/mlir/Dialect/SCF/IR/SCF.h"         // from @llvm-project
 #include "mlir/include/mlir/IR/Attributes.h"               // from @llvm-project
 #include "mlir/include/mlir/IR/BuiltinAttributes.h"        // from @llvm-project
 #include "mlir/include/mlir/IR/OpDefinition.h"             // from @llvm-project
@@ -24,6 +27,8 @@
 #include "mlir/include/mlir/IR/ValueRange.h"               // from @llvm-project
 #include "mlir/include/mlir/IR/Visitors.h"                 // from @llvm-project
 #include "mlir/include/mlir/Interfaces/CallInterfaces.h"   // from @llvm-project
+#include "mlir/include/mlir/Interfaces/ControlFlowInterfaces.h"  // from @llvm-project
+#include "mlir/include/mlir/Interfaces/LoopLikeInterface.h"  // from @llvm-project
 #include "mlir/include/mlir/Support/LLVM.h"                // from @llvm-project
 
 #define DEBUG_TYPE "secretness-analysis"
@@ -127,6 +132,56 @@ LogicalResult SecretnessAnalysis::visitOperation(
   return success();
 }
 
+bool SecretnessAnalysis::isControlledBySecret(RegionBranchOpInterface op,
+                                              ProgramPoint* point) {
+  bool result = false;
+  auto checkOperand = [&](Value operand) {
+    const auto* lattice = getLatticeElementFor(point, operand);
+    result |= isSecret(lattice);
+  };
+  // The conditions and bounds are the operands that are not forwarded.
+  if (isa<scf::IfOp, scf::IndexSwitchOp, affine::AffineIfOp>(*op)) {
+    for (Value operand : op->getOperands()) checkOperand(operand);
+  } else if (auto whileOp = dyn_cast<scf::WhileOp>(*op)) {
+    checkOperand(whileOp.getConditionOp().getCondition());
+  } else if (auto loop = dyn_cast<LoopLikeOpInterface>(*op)) {
+    ValueRange inits = loop.getInits();
+    for (Value operand : op->getOperands().drop_back(inits.size()))
+      checkOperand(operand);
+  }
+  return result;
+}
+
+LogicalResult SecretnessAnalysis::visit(ProgramPoint* point) {
+  if (failed(SparseForwardDataFlowAnalysis::visit(point))) return failure();
+
+  auto setSecret = [&](ValueRange values) {
+    for (Value value : values) {
+      auto* lattice = getLatticeElement(value);
+      propagateIfChanged(lattice, lattice->join(Secretness(true)));
+    }
+  };
+
+  if (!point->isBlockStart()) {
+    auto op = dyn_cast<RegionBranchOpInterface>(point->getPrevOp());
+    if (op && isControlledBySecret(op, point)) setSecret(op->getResults());
+    return success();
+  }
+
+  // The number of iterations decides the values of loop variables. Induction
+  // variables are left alone, they only count.
+  Block* block = point->getBlock();
+  auto loop = dyn_cast_or_null<LoopLikeOpInterface>(block->getParentOp());
+  if (!loop || block->getNumArguments() == 0) return success();
+  auto op = dyn_cast<RegionBranchOpInterface>(*loop);
+  if (!op || !isControlledBySecret(op, point)) return success();
+  auto inductionVars =
+      loop.getLoopInductionVars().value_or(SmallVector<Value>());
+  for (Value argument : block->getArguments())
+    if (!llvm::is_contained(inductionVars, argument)) setSecret(argument);
+  return success();
+}
+
 void SecretnessAnalysis::visitExternalCall(
     CallOpInterface call, ArrayRef<const SecretnessLattice*> argumentLattices,
     ArrayRef<SecretnessLattice*> resultLattices) {
diff --git a/lib/Analysis/SecretnessAnalysis/SecretnessAnalysis.h b/lib/Analysis/SecretnessAnalysis/SecretnessAnalysis.h
index 1b7c70b..0f43085 100644
--- a/lib/Analysis/SecretnessAnalysis/SecretnessAnalysis.h
+++ b/lib/Analysis/SecretnessAnalysis/SecretnessAnalysis.h
@@ -12,6 +12,7 @@
 #include "mlir/include/mlir/IR/Value.h"                    // from @llvm-project
 #include "mlir/include/mlir/IR/ValueRange.h"               // from @llvm-project
 #include "mlir/include/mlir/Interfaces/CallInterfaces.h"   // from @llvm-project
+#include "mlir/include/mlir/Interfaces/ControlFlowInterfaces.h"  // from @llvm-project
 #include "mlir/include/mlir/Support/LLVM.h"                // from @llvm-project
 
 namespace mlir {
@@ -113,6 +114,11 @@ class SecretnessAnalysis
                                ArrayRef<const SecretnessLattice*> operands,
                                ArrayRef<SecretnessLattice*> results) override;
 
+  // Visit a program point. In addition to the values that control flow forwards
+  // to them, the results and variables of control flow that depends on a secret
+  // condition or loop bound are secret.
+  LogicalResult visit(ProgramPoint* point) override;
+
   void visitExternalCall(CallOpInterface call,
                          ArrayRef<const SecretnessLattice*> argumentLattices,
                          ArrayRef<SecretnessLattice*> resultLattices) override;
@@ -120,6 +126,11 @@ class SecretnessAnalysis
   void propagateIfChangedWrapper(AnalysisState* state, ChangeResult changed) {
     propagateIfChanged(state, changed);
   }
+
+ private:
+  // Whether a secret value decides which regions of the operation are executed,
+  // and how often. Adds the deciding values as dependencies of the point.
+  bool isControlledBySecret(RegionBranchOpInterface op, ProgramPoint* point);
 };
 
 /**
-- 
2.43.0


From cf33f076e37f9acfc359768bb9fbcec4aa2721e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:49 +0000
Subject: [PATCH 58/89] fix: tfhe-rust emitter crashed on stored, combined or
 collected function arguments

---
 lib/Target/TfheRust/TfheRustEmitter.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/Target/TfheRust/TfheRustEmitter.cpp b/lib/Target/TfheRust/TfheRustEmitter.cpp
index 2c42c39..bd925e4 100644
--- a/lib/Target/TfheRust/TfheRustEmitter.cpp
+++ b/lib/Target/TfheRust/TfheRustEmitter.cpp
@@ -61,7 +61,8 @@ namespace tfhe_rust {
 namespace {
 
 bool isLevelledOp(Operation* op) {
-  return isa<ApplyLookupTableOp, AddOp, ScalarLeftShiftOp>(op);
+  // Block arguments have no defining op.
+  return isa_and_nonnull<ApplyLookupTableOp, AddOp, ScalarLeftShiftOp>(op);
 }
 
 bool usedByLevelledOp(Value value) {
@@ -811,8 +812,9 @@ LogicalResult TfheRustEmitter::printOperation(memref::StoreOp op) {
                       variableNames->getIntForValue(op.getValueToStore()));
   } else if (isa<tfhe_rust::TfheRustDialect>(
                  op.getValueToStore().getType().getDialect()) &&
-             !isa<tfhe_rust::TfheRustDialect>(
-                 op.getValueToStore().getDefiningOp()->getDialect())) {
+             (isa<BlockArgument>(op.getValueToStore()) ||
+              !isa<tfhe_rust::TfheRustDialect>(
+                  op.getValueToStore().getDefiningOp()->getDialect()))) {
     valueToStore += ".clone()";
   }
 
-- 
2.43.0


From 22b5ae786d356455a3c4a9f25ed99a29aa97d125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:49 +0000
Subject: [PATCH 59/89] fix: levelled tfhe-rust code used undeclared names for
 levelled operands of other operations, and lookup tables given as arguments
 were missing

---
 lib/Target/TfheRust/TfheRustEmitter.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/Target/TfheRust/TfheRustEmitter.cpp b/lib/Target/TfheRust/TfheRustEmitter.cpp
index bd925e4..b626b53 100644
--- a/lib/Target/TfheRust/TfheRustEmitter.cpp
+++ b/lib/Target/TfheRust/TfheRustEmitter.cpp
@@ -354,6 +354,10 @@ LogicalResult TfheRustEmitter::printOperation(func::FuncOp funcOp) {
     // Seed the temp_nodes with the block arguments.
     for (Value arg : funcOp.getArguments()) {
       auto type = arg.getType();
+      if (isa<LookupTableType>(type)) {
+        os << llvm::formatv("luts.insert(\"{0}\", {0}.clone());\n",
+                            variableNames->getNameForValue(arg));
+      }
       if (!type.hasTrait<EncryptedInteger>() && !isa<EncryptedBoolType>(type)) {
         continue;
       }
@@ -446,6 +450,11 @@ LogicalResult TfheRustEmitter::printSksMethod(
     if (isa<LookupTableType>(value.getType()) && useLevels) {
       valueStr = "luts[\"" + variableNames->getNameForValue(value) + "\"]";
     }
+    if (isLevelledOp(value.getDefiningOp()) && useLevels) {
+      // Results of levelled ops are only stored in temp nodes.
+      valueStr = "temp_nodes[&" +
+                 std::to_string(variableNames->getIntForValue(value)) + "]";
+    }
     std::string prefix = value.getType().hasTrait<PassByReference>() ? "&" : "";
     std::string suffix = operandTypes.empty() ? "" : *operandTypesIt++;
     return prefix + valueStr + suffix;
-- 
2.43.0


From d04fc72f50246e8c849e42e6dc69469f0ee5da44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:06 +0000
Subject: [PATCH 60/89] fix: generated Rust loops ignored steps, repeated
 nested bodies, and crashed without results or constant bounds

---
 lib/Target/TfheRust/TfheRustEmitter.cpp         | 15 +++++++++++++--
 lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp | 16 ++++++++--------
 lib/Target/TfheRustHL/TfheRustHLEmitter.cpp     |  7 +++++++
 3 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/lib/Target/TfheRust/TfheRustEmitter.cpp b/lib/Target/TfheRust/TfheRustEmitter.cpp
index b626b53..b94605a 100644
--- a/lib/Target/TfheRust/TfheRustEmitter.cpp
+++ b/lib/Target/TfheRust/TfheRustEmitter.cpp
@@ -527,9 +527,20 @@ std::string TfheRustEmitter::operationType(Operation* op) {
 }
 
 LogicalResult TfheRustEmitter::printOperation(affine::AffineForOp forOp) {
+  if (!forOp.hasConstantBounds() || forOp.getNumIterOperands() != 0) {
+    return forOp.emitOpError()
+           << "expected constant bounds and no iteration arguments";
+  }
   os << "for " << variableNames->getNameForValue(forOp.getInductionVar())
-     << " in " << forOp.getConstantLowerBound() << ".."
-     << forOp.getConstantUpperBound() << " {\n";
+     << " in ";
+  if (forOp.getStepAsInt() > 1) {
+    os << "(" << forOp.getConstantLowerBound() << ".."
+       << forOp.getConstantUpperBound() << ").step_by("
+       << forOp.getStepAsInt() << ") {\n";
+  } else {
+    os << forOp.getConstantLowerBound() << ".."
+       << forOp.getConstantUpperBound() << " {\n";
+  }
   os.indent();
 
   if (failed(translateBlock(*forOp.getBody()))) {
diff --git a/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp b/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp
index f5bdced..c83f395 100644
--- a/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp
+++ b/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp
@@ -344,20 +344,20 @@ LogicalResult TfheRustBoolEmitter::printOperation(affine::AffineForOp op) {
   if (op.getStepAsInt() > 1) {
     return op.emitOpError() << "AffineForOp has step > 1";
   }
+  if (!op.hasConstantBounds() || op.getNumIterOperands() != 0) {
+    return op.emitOpError()
+           << "expected constant bounds and no iteration arguments";
+  }
   os << "for " << variableNames->getNameForValue(op.getInductionVar()) << " in "
      << op.getConstantLowerBound() << ".." << op.getConstantUpperBound()
      << " {\n";
   os.indent();
 
-  auto res = op.getBody()->walk([&](Operation* op) {
-    if (failed(translate(*op))) {
-      return WalkResult::interrupt();
+  // Nested loops translate their own bodies.
+  for (Operation& bodyOp : op.getBody()->getOperations()) {
+    if (failed(translate(bodyOp))) {
+      return failure();
     }
-    return WalkResult::advance();
-  });
-
-  if (res.wasInterrupted()) {
-    return failure();
   }
 
   os.unindent();
diff --git a/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp b/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
index 8de9c9b..3ca5820 100644
--- a/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
+++ b/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
@@ -380,6 +380,9 @@ LogicalResult TfheRustHLEmitter::printOperation(affine::AffineForOp op) {
   if (op.getStepAsInt() > 1) {
     return op.emitOpError() << "AffineForOp has step > 1";
   }
+  if (!op.hasConstantBounds()) {
+    return op.emitOpError() << "expected constant bounds";
+  }
 
   auto* suffix = "}\n";
 
@@ -436,6 +439,10 @@ LogicalResult TfheRustHLEmitter::printOperation(affine::AffineYieldOp op) {
     return op.emitOpError() << "AffineYieldOp has non-zero number of results";
   }
 
+  if (op->getNumOperands() == 0) {
+    return success();
+  }
+
   os << variableNames->getNameForValue(op->getOperand(0)) << "\n";
 
   return success();
-- 
2.43.0


From ac14e0ae1668f37becbb2fab5a8c5f069becd0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:38 +0000
Subject: [PATCH 61/89] fix: tfhe-rust-bool emitter crashed on returned or
 collected function arguments

---
 lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp b/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp
index c83f395..3d34551 100644
--- a/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp
+++ b/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp
@@ -204,10 +204,10 @@ LogicalResult TfheRustBoolEmitter::printOperation(func::ReturnOp op) {
     if (isa<BlockArgument>(value)) {
       suffix = ".clone()";
     }
-    if (isa<tensor::FromElementsOp>(value.getDefiningOp())) {
+    if (isa_and_nonnull<tensor::FromElementsOp>(value.getDefiningOp())) {
       suffix = ".into_iter().cloned().collect()";
     }
-    if (isa<memref::AllocOp>(value.getDefiningOp())) {
+    if (isa_and_nonnull<memref::AllocOp>(value.getDefiningOp())) {
       // MemRefs (BTreeMap<(usize, ...), Ciphertext>) must be converted to
       // Vec<Ciphertext>
       suffix = ".into_values().collect()";
@@ -523,6 +523,7 @@ LogicalResult TfheRustBoolEmitter::printOperation(tensor::FromElementsOp op) {
     const auto* cloneStr = isa<BlockArgument>(value) ? ".clone()" : "";
     // Get the name of defining operation its dialect
     auto tfheOp =
+        !isa<BlockArgument>(value) &&
         value.getDefiningOp()->getDialect()->getNamespace() == "tfhe_rust_bool";
     const auto* prefix = tfheOp ? "&" : "";
     return std::string(prefix) + variableNames->getNameForValue(value) +
-- 
2.43.0


From 7da1c82f29fca4d17797a87beecea1969505b42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:23 +0000
Subject: [PATCH 62/89] fix: packed tfhe-rust-bool code referred to undeclared
 reference vectors of function arguments

---
 .../TfheRustBool/TfheRustBoolEmitter.cpp      | 26 ++++++++++++-------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp b/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp
index 3d34551..69ea73e 100644
--- a/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp
+++ b/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp
@@ -232,7 +232,7 @@ void TfheRustBoolEmitter::emitAssignPrefix(Value result) {
 void TfheRustBoolEmitter::emitReferenceConversion(Value value) {
   auto tensorType = dyn_cast<TensorType>(value.getType());
 
-  if (isa<EncryptedBoolType>(tensorType.getElementType())) {
+  if (tensorType && isa<EncryptedBoolType>(tensorType.getElementType())) {
     auto varName = variableNames->getNameForValue(value);
 
     os << "let " << varName << "_ref = " << varName << ".clone();\n";
@@ -248,9 +248,8 @@ LogicalResult TfheRustBoolEmitter::printSksMethod(
   // operations with a single gate
   std::string gateStr = StringRef(op).upper();
   if (packedAPI && symbolizeTfheRustBoolGateEnum(gateStr).has_value()) {
-    auto* opParent = nonSksOperands[0].getDefiningOp();
-
     size_t numberOfOperands = 0;
+    bool isScalar = !isa<TensorType>(result.getType());
 
     // Handle element-wise boolean gate operations with tensor type operands and
     // results.
@@ -261,8 +260,8 @@ LogicalResult TfheRustBoolEmitter::printSksMethod(
       numberOfOperands = 1;
     }
 
-    if (!opParent) {
-      for (auto nonSksOperand : nonSksOperands) {
+    for (auto nonSksOperand : nonSksOperands) {
+      if (isa<BlockArgument>(nonSksOperand)) {
         emitReferenceConversion(nonSksOperand);
       }
     }
@@ -284,20 +283,21 @@ LogicalResult TfheRustBoolEmitter::printSksMethod(
     }
 
     os << commaSeparatedValues(
-        nonSksOperands, [&, numberOfOperands](Value value) {
+        nonSksOperands, [&, isScalar](Value value) {
           std::string prefix;
           std::string suffix;
 
           tie(prefix, suffix) = checkOrigin(value);
-          if (numberOfOperands == 1) {
-            prefix = "&vec![&";
-            suffix = "]" + suffix;
+          if (isScalar) {
+            // Function arguments are references already.
+            prefix = isa<BlockArgument>(value) ? "&vec![" : "&vec![&";
+            suffix = "]";
           }
 
           return prefix + variableNames->getNameForValue(value) + suffix;
         });
 
-    if (numberOfOperands == 1) {
+    if (isScalar) {
       os << ")[0].clone();\n";
     } else {
       os << ");\n";
@@ -563,6 +563,12 @@ LogicalResult TfheRustBoolEmitter::printOperation(XnorOp op) {
 }
 
 LogicalResult TfheRustBoolEmitter::printOperation(PackedOp op) {
+  for (Value operand : {op.getLhs(), op.getRhs()}) {
+    if (isa<BlockArgument>(operand)) {
+      emitReferenceConversion(operand);
+    }
+  }
+
   emitAssignPrefix(op.getResult());
   os << variableNames->getNameForValue(op.getServerKey()) << ".packed_gates(\n";
 
-- 
2.43.0


From 7e5027997b78423f6bacad7d2b1b099e0a891d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:23 +0000
Subject: [PATCH 63/89] fix: tfhe-rust-bool emitter printed several indices
 into a vector

---
 lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp b/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp
index 69ea73e..52931ed 100644
--- a/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp
+++ b/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp
@@ -508,8 +508,8 @@ LogicalResult TfheRustBoolEmitter::printOperation(tensor::ExtractOp op) {
   // We assume here that the indices are SSA values (not integer attributes).
   emitAssignPrefix(op.getResult());
   os << "&" << variableNames->getNameForValue(op.getTensor()) << "["
-     << commaSeparatedValues(
-            op.getIndices(),
+     << flattenIndexExpression(
+            op.getTensor().getType(), op.getIndices(),
             [&](Value value) { return variableNames->getNameForValue(value); })
      << "];\n";
   return success();
-- 
2.43.0


From 2cccdbd68ab675708c982360f4b038062e591ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:23 +0000
Subject: [PATCH 64/89] fix: tfhe-rust-hl emitter printed the absolute value of
 negative constants

---
 lib/Target/TfheRustHL/TfheRustHLEmitter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp b/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
index 3ca5820..0a822cc 100644
--- a/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
+++ b/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
@@ -463,7 +463,9 @@ LogicalResult TfheRustHLEmitter::printOperation(arith::ConstantOp op) {
   // By default, it emits an unsigned integer.
   emitAssignPrefix(op.getResult());
   if (auto intAttr = dyn_cast<IntegerAttr>(valueAttr)) {
-    os << intAttr.getValue().abs() << convertType(op.getType()) << ";\n";
+    SmallString<40> value;
+    intAttr.getValue().toStringUnsigned(value);
+    os << value << convertType(op.getType()) << ";\n";
   } else {
     return op.emitError() << "Unknown constant type " << valueAttr.getType();
   }
-- 
2.43.0


From 48993cd6af9b027b42045813e2c9c17651cda185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:23 +0000
Subject: [PATCH 65/89] fix: tfhe-rust-hl emitter used the ciphertext type
 alias of the previously translated module

---
 lib/Target/TfheRustHL/TfheRustHLEmitter.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp b/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
index 0a822cc..770c2d0 100644
--- a/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
+++ b/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
@@ -145,7 +145,9 @@ LogicalResult TfheRustHLEmitter::translate(Operation& op) {
 LogicalResult TfheRustHLEmitter::printOperation(ModuleOp moduleOp) {
   os << kModulePrelude << "\n";
 
-  // Find default type of the module and use a Type alias
+  // Find default type of the module and use a Type alias. Without one, all
+  // types are printed in full, whatever modules were translated before.
+  DefaultTfheRustHLBitWidth = 0;
   moduleOp.getOperation()->walk([&](Operation* op) {
     for (Type resultType : op->getResultTypes()) {
       if (resultType.hasTrait<EncryptedInteger>()) {
@@ -740,7 +742,9 @@ LogicalResult TfheRustHLEmitter::printOperation(tensor::EmptyOp op) {
   std::string res = "";
 
   if (getTfheRustBitWidth(op.getType().getElementType()) != -1) {
-    os << " = std::array::from_fn(|_| Ciphertext::try_encrypt_trivial(0u"
+    os << " = std::array::from_fn(|_| FheUint"
+       << getTfheRustBitWidth(op.getType().getElementType())
+       << "::try_encrypt_trivial(0u"
        << getRustIntegerType(getTfheRustBitWidth(op.getType().getElementType()))
        << ").unwrap());\n";
 
-- 
2.43.0


From d5ae68fc39daeebee97b942d5d7c19d46268a49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:23 +0000
Subject: [PATCH 66/89] fix: tfhe-rust-hl emitter left out commas between
 repeated call operands

---
 lib/Target/TfheRustHL/TfheRustHLEmitter.cpp | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp b/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
index 770c2d0..fdb94e0 100644
--- a/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
+++ b/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
@@ -271,21 +271,20 @@ LogicalResult TfheRustHLEmitter::printOperation(func::ReturnOp op) {
 }
 
 LogicalResult TfheRustHLEmitter::printOperation(func::CallOp op) {
-  os << "let " << variableNames->getNameForValue(op->getResult(0)) << " = ";
+  if (op.getNumResults() != 1) {
+    return op.emitOpError() << "expected a call with one result";
+  }
+  emitAssignPrefix(op.getResult(0));
 
-  os << op.getCallee() << "(";
-  for (Value arg : op->getOperands()) {
+  SmallVector<Value> args;
+  for (Value arg : op.getOperands()) {
     if (!isa<tfhe_rust::ServerKeyType>(arg.getType())) {
-      auto argName = variableNames->getNameForValue(arg);
-      if (op.getOperands().back() == arg) {
-        os << "&" << argName;
-      } else {
-        os << "&" << argName << ", ";
-      }
+      args.push_back(arg);
     }
   }
-
-  os << "); \n";
+  os << op.getCallee() << "(" << commaSeparatedValues(args, [&](Value arg) {
+    return "&" + variableNames->getNameForValue(arg);
+  }) << "); \n";
   return success();
 }
 
-- 
2.43.0


From 53d4302eaa1d7b28e7713ead574e1c00ab5408a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:53 +0000
Subject: [PATCH 67/89] fix: tfhe-rust-hl loops with several iteration
 arguments yielded and bound only the first

---
 lib/Target/TfheRustHL/TfheRustHLEmitter.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp b/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
index fdb94e0..da3380b 100644
--- a/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
+++ b/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
@@ -391,7 +391,13 @@ LogicalResult TfheRustHLEmitter::printOperation(affine::AffineForOp op) {
   if (!op.getInits().empty()) {
     suffix = " });\n";
 
-    emitAssignPrefix(op->getResult(0));
+    if (op.getNumResults() == 1) {
+      emitAssignPrefix(op->getResult(0));
+    } else {
+      os << "let (" << commaSeparatedValues(op.getResults(), [&](Value value) {
+        return variableNames->getNameForValue(value);
+      }) << ") = ";
+    }
 
     os << "(" << op.getConstantLowerBound() << ".."
        << op.getConstantUpperBound() << ")" << ".fold(";
@@ -406,10 +412,11 @@ LogicalResult TfheRustHLEmitter::printOperation(affine::AffineForOp op) {
                                  [&](Value value) {
                                    return variableNames->getNameForValue(value);
                                  })
-         << "), |mut ("
+         << "), |("
          << commaSeparatedValues(op.getRegionIterArgs(),
                                  [&](Value value) {
-                                   return variableNames->getNameForValue(value);
+                                   return "mut " +
+                                          variableNames->getNameForValue(value);
                                  })
          << "), ";
     }
@@ -444,7 +451,11 @@ LogicalResult TfheRustHLEmitter::printOperation(affine::AffineYieldOp op) {
     return success();
   }
 
-  os << variableNames->getNameForValue(op->getOperand(0)) << "\n";
+  std::string values =
+      commaSeparatedValues(op->getOperands(), [&](Value value) {
+        return variableNames->getNameForValue(value);
+      });
+  os << (op->getNumOperands() == 1 ? values : "(" + values + ")") << "\n";
 
   return success();
 }
-- 
2.43.0


From 2350f3f42d47b6a22a705e2495a91922484c3084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:56 +0000
Subject: [PATCH 68/89] fix: tfhe-rust-hl affine accesses with non-constant
 indices printed -1 or crashed, and loads from local arrays had one reference
 too many

---
 lib/Target/TfheRustHL/TfheRustHLEmitter.cpp | 62 ++++++++++++---------
 lib/Target/TfheRustHL/TfheRustHLEmitter.h   |  2 +
 2 files changed, 38 insertions(+), 26 deletions(-)

diff --git a/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp b/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
index da3380b..8ec6b3b 100644
--- a/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
+++ b/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
@@ -683,27 +683,38 @@ LogicalResult TfheRustHLEmitter::printOperation(memref::LoadOp op) {
   return success();
 }
 
-// FIXME?: This is a hack to get the index of the value
-static int extractIntFromValue(Value value) {
-  if (auto ctOp = dyn_cast<arith::ConstantOp>(value.getDefiningOp())) {
-    return cast<IntegerAttr>(ctOp.getValue()).getValue().getSExtValue();
+FailureOr<SmallVector<std::string>> TfheRustHLEmitter::affineIndices(
+    AffineMap map, ValueRange operands) {
+  SmallVector<std::string> indices;
+  for (AffineExpr expr : map.getResults()) {
+    if (auto constant = dyn_cast<AffineConstantExpr>(expr)) {
+      indices.push_back(std::to_string(constant.getValue()));
+    } else if (auto dim = dyn_cast<AffineDimExpr>(expr)) {
+      indices.push_back(
+          variableNames->getNameForValue(operands[dim.getPosition()]));
+    } else if (auto symbol = dyn_cast<AffineSymbolExpr>(expr)) {
+      indices.push_back(variableNames->getNameForValue(
+          operands[map.getNumDims() + symbol.getPosition()]));
+    } else {
+      return failure();
+    }
   }
-  return -1;
+  return indices;
 }
 
 // Store into a BTreeMap<(usize, ...), Ciphertext>
 LogicalResult TfheRustHLEmitter::printOperation(affine::AffineStoreOp op) {
-  // We assume here that the indices are SSA values (not integer attributes).
-
-  OpBuilder builder(op->getContext());
-  auto indices = affine::expandAffineMap(builder, op->getLoc(), op.getMap(),
-                                         op.getIndices());
+  auto indices = affineIndices(op.getMap(), op.getIndices());
+  if (failed(indices)) {
+    return op.emitOpError() << "unsupported index expression";
+  }
 
   os << variableNames->getNameForValue(op.getMemref());
-  os << ".insert((" << commaSeparatedValues(indices.value(), [&](Value value) {
-    return std::to_string(extractIntFromValue(value)) +
-           std::string(" as usize");
-  }) << "), ";
+  os << ".insert((";
+  llvm::interleaveComma(indices.value(), os, [&](const std::string& index) {
+    os << index << " as usize";
+  });
+  os << "), ";
 
   // Note: we may not need to clone all the time, but the BTreeMap stores
   // Ciphertexts, not &Ciphertexts. This is because results computed inside
@@ -717,16 +728,17 @@ LogicalResult TfheRustHLEmitter::printOperation(affine::AffineStoreOp op) {
 
 // Produces a &Ciphertext
 LogicalResult TfheRustHLEmitter::printOperation(affine::AffineLoadOp op) {
-  OpBuilder builder(op->getContext());
-  auto indices = affine::expandAffineMap(builder, op->getLoc(), op.getMap(),
-                                         op.getIndices());
+  auto indices = affineIndices(op.getMap(), op.getIndices());
+  if (failed(indices)) {
+    return op.emitOpError() << "unsupported index expression";
+  }
 
   if (isa<BlockArgument>(op.getMemref())) {
     emitAssignPrefix(op.getResult());
 
     os << "&" << variableNames->getNameForValue(op.getMemRef());
-    for (auto value : indices.value()) {
-      os << "[" << std::to_string(extractIntFromValue(value)) << "]";
+    for (const std::string& index : indices.value()) {
+      os << "[" << index << "]";
     }
     os << ";\n";
     return success();
@@ -734,13 +746,11 @@ LogicalResult TfheRustHLEmitter::printOperation(affine::AffineLoadOp op) {
 
   // Treat this as a BTreeMap
   emitAssignPrefix(op.getResult());
-  os << "&" << variableNames->getNameForValue(op.getMemref()) << ".get(&("
-     << commaSeparatedValues(
-            indices.value(),
-            [&](Value value) {
-              return std::to_string(extractIntFromValue(value));
-            })
-     << ")).unwrap();\n";
+  os << variableNames->getNameForValue(op.getMemref()) << ".get(&(";
+  llvm::interleaveComma(indices.value(), os, [&](const std::string& index) {
+    os << index << " as usize";
+  });
+  os << ")).unwrap();\n";
   return success();
 }
 
diff --git a/lib/Target/TfheRustHL/TfheRustHLEmitter.h b/lib/Target/TfheRustHL/TfheRustHLEmitter.h
index ab2de1a..650cd5c 100644
--- a/lib/Target/TfheRustHL/TfheRustHLEmitter.h
+++ b/lib/Target/TfheRustHL/TfheRustHLEmitter.h
@@ -88,6 +88,8 @@ class TfheRustHLEmitter {
   LogicalResult printBinaryOp(::mlir::Value result, ::mlir::Value lhs,
                               ::mlir::Value rhs, std::string_view op);
   std::string checkOrigin(Value value);
+  FailureOr<SmallVector<std::string>> affineIndices(AffineMap map,
+                                                    ValueRange operands);
 
   // Emit a TfheRust type
   LogicalResult emitType(Type type);
-- 
2.43.0


From cb828f64fce252906d5c93810204b8d775b7c588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:50 +0000
Subject: [PATCH 69/89] fix: tfhe-rust emitter crashed on create_trivial
 without an operand

---
 lib/Target/TfheRust/TfheRustEmitter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/Target/TfheRust/TfheRustEmitter.cpp b/lib/Target/TfheRust/TfheRustEmitter.cpp
index b94605a..a5a7244 100644
--- a/lib/Target/TfheRust/TfheRustEmitter.cpp
+++ b/lib/Target/TfheRust/TfheRustEmitter.cpp
@@ -567,6 +567,9 @@ LogicalResult TfheRustEmitter::printOperation(ScalarLeftShiftOp op) {
 }
 
 LogicalResult TfheRustEmitter::printOperation(CreateTrivialOp op) {
+  if (!op.getValue()) {
+    return op.emitOpError() << "expected a value operand";
+  }
   return printSksMethod(op.getResult(), op.getServerKey(), {op.getValue()},
                         "create_trivial", {"u64"});
 }
-- 
2.43.0


From 3c106d67294b394269610dc5e7243132e924e42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:58 +0000
Subject: [PATCH 70/89] fix: rotate-and-reduce summed only some of the terms
 when the number of steps is not a power of two

---
 lib/Kernel/KernelImplementation.h | 30 ++++++++++++++++++++++++++++++
 lib/Utils/RotationUtils.h         | 11 +++++++++++
 2 files changed, 41 insertions(+)

diff --git a/lib/Kernel/KernelImplementation.h b/lib/Kernel/KernelImplementation.h
index 9c21078..3949ded 100644
--- a/lib/Kernel/KernelImplementation.h
+++ b/lib/Kernel/KernelImplementation.h
@@ -78,6 +78,30 @@ implementRotateAndReduceAccumulation(
     std::shared_ptr<ArithmeticDagNode<T>> vectorDag, int64_t period,
     int64_t steps, DagReducer<T> reduceFunc) {
   using NodeTy = ArithmeticDagNode<T>;
+  if (!isPowerOfTwo(steps)) {
+    // Halving the shift only covers every term when the number of steps is a
+    // power of two, so otherwise split the sum into windows whose sizes are the
+    // powers of two in the binary expansion of the number of steps.
+    //
+    // Note: If this decomposition is updated, rotateAndReduceRotationIndices
+    // in RotationUtils.h needs updating, too
+    std::shared_ptr<NodeTy> window = vectorDag;
+    std::shared_ptr<NodeTy> result = nullptr;
+    int64_t offset = 0;
+    for (int64_t size = 1; size <= steps; size *= 2) {
+      if (steps & size) {
+        result = result ? reduceFunc(result, NodeTy::leftRotate(
+                                                 window, offset * period))
+                        : window;
+        offset += size;
+      }
+      if (2 * size <= steps) {
+        window = reduceFunc(window, NodeTy::leftRotate(window, size * period));
+      }
+    }
+    return result ? result : vectorDag;
+  }
+
   for (int64_t shiftSize = steps / 2; shiftSize > 0; shiftSize /= 2) {
     auto rotated = NodeTy::leftRotate(vectorDag, shiftSize * period);
     auto reduced = reduceFunc(vectorDag, rotated);
@@ -106,6 +130,12 @@ implementRotateAndReduceAccumulationRolled(
   using NodeTy = ArithmeticDagNode<T>;
   using NodePtr = std::shared_ptr<NodeTy>;
 
+  // The loop below halves the shift, which needs a power-of-two step count.
+  if (!isPowerOfTwo(steps)) {
+    return implementRotateAndReduceAccumulation<T>(vectorDag, period, steps,
+                                                   reduceFunc);
+  }
+
   int64_t numIterations = static_cast<int64_t>(std::log2(steps));
   if (numIterations <= 0) return vectorDag;
 
diff --git a/lib/Utils/RotationUtils.h b/lib/Utils/RotationUtils.h
index 96079cb..993a736 100644
--- a/lib/Utils/RotationUtils.h
+++ b/lib/Utils/RotationUtils.h
@@ -64,6 +64,17 @@ inline llvm::DenseSet<int64_t> rotateAndReduceRotationIndices(
   llvm::DenseSet<int64_t> result;
   if (!hasPlaintexts) {
     // Matches implementRotateAndReduceAccumulation
+    if ((steps & (steps - 1)) != 0) {  // not a power of two
+      int64_t offset = 0;
+      for (int64_t size = 1; size <= steps; size *= 2) {
+        if (steps & size) {
+          if (offset > 0) result.insert(offset * period);
+          offset += size;
+        }
+        if (2 * size <= steps) result.insert(size * period);
+      }
+      return result;
+    }
     for (int64_t shiftSize = steps / 2; shiftSize > 0; shiftSize /= 2) {
       result.insert(shiftSize * period);
     }
-- 
2.43.0


From 2b3946e504c4f652fcfe4bdc35207ff28eb24f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:58 +0000
Subject: [PATCH 71/89] fix: extract_slice mapped non-unit source dimensions to
 kept unit dimensions of the result

---
 lib/Utils/Layout/Utils.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/Utils/Layout/Utils.cpp b/lib/Utils/Layout/Utils.cpp
index 9be8598..be8cf8f 100644
--- a/lib/Utils/Layout/Utils.cpp
+++ b/lib/Utils/Layout/Utils.cpp
@@ -1299,6 +1299,11 @@ FailureOr<presburger::IntegerRelation> getSliceExtractionRelation(
   unsigned int resultDim = 0;
   for (auto sourceDim = 0; sourceDim < sourceType.getRank(); ++sourceDim) {
     if (sizes[sourceDim] > 1) {
+      // Skip kept unit dimensions of the result
+      while (resultDim < resultType.getRank() &&
+             resultType.getDimSize(resultDim) == 1) {
+        ++resultDim;
+      }
       // Map to the i-th result dimension
       // d_j = offsets[j] + r_i * strides[j]
       addConstraint(result,
-- 
2.43.0


From d1d12a728f1db62e74efa13ed46c761e4f36fd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:59 +0000
Subject: [PATCH 72/89] fix: linalg.reduce with a multiplication added the
 initial value instead of multiplying by it

---
 .../ConvertToCiphertextSemantics.cpp                 | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/Transforms/ConvertToCiphertextSemantics/ConvertToCiphertextSemantics.cpp b/lib/Transforms/ConvertToCiphertextSemantics/ConvertToCiphertextSemantics.cpp
index 5fb74d9..939e396 100644
--- a/lib/Transforms/ConvertToCiphertextSemantics/ConvertToCiphertextSemantics.cpp
+++ b/lib/Transforms/ConvertToCiphertextSemantics/ConvertToCiphertextSemantics.cpp
@@ -727,8 +727,18 @@ class ConvertLinalgReduce : public ConversionBase<linalg::ReduceOp> {
     Value finalOutput = materializeKernel(
         rewriter, op.getLoc(), implementedKernel, convertedType, layoutAttr);
 
-    // Add the initial  value.
+    // Combine with the initial value.
     Value result = adaptor.getInits()[0];
+    if (isa<arith::MulFOp, arith::MulIOp>(innerOp)) {
+      ImplicitLocOpBuilder b(op->getLoc(), rewriter);
+      Operation* mulInit =
+          makeAppropriatelyTypedMulOp(b, op->getLoc(), finalOutput, result);
+      setAttributeAssociatedWith(mulInit->getResults()[0], kLayoutAttrName,
+                                 layoutAttr);
+      setMaterializedAttr(mulInit);
+      rewriter.replaceOp(op, mulInit->getResults());
+      return;
+    }
     addBiasAndReplace(rewriter, op, finalOutput, result, layoutAttr);
   }
 
-- 
2.43.0


From d7ec5a757c115ad53fa8a0a0095fd58d30626a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:26 +0000
Subject: [PATCH 73/89] fix: matmul kernels added an init operand packed in
 another layout than the result

---
 lib/Transforms/LayoutPropagation/LayoutPropagation.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/Transforms/LayoutPropagation/LayoutPropagation.cpp b/lib/Transforms/LayoutPropagation/LayoutPropagation.cpp
index af46107..5846f9b 100644
--- a/lib/Transforms/LayoutPropagation/LayoutPropagation.cpp
+++ b/lib/Transforms/LayoutPropagation/LayoutPropagation.cpp
@@ -1413,7 +1413,8 @@ LogicalResult LayoutPropagation::visitOperation(MatmulOp op) {
     auto kernelAttr = secret::KernelAttr::get(ctx, KernelName::MatmulBicyclic,
                                               /*force=*/false);
     op->setAttr(secret::SecretDialect::kKernelAttrName, kernelAttr);
-    return success();
+    return alignInitWithResultLayout(op, op.getOutputs().front(),
+                                     outputLayoutAttr);
   }
 
   // Bicyclic ct-pt matmul with generalized-diagonal-layout plaintext.
@@ -1466,7 +1467,8 @@ LogicalResult LayoutPropagation::visitOperation(MatmulOp op) {
     auto kernelAttr = secret::KernelAttr::get(
         ctx, KernelName::MatmulBicyclicDiagonal, /*force=*/false);
     op->setAttr(secret::SecretDialect::kKernelAttrName, kernelAttr);
-    return success();
+    return alignInitWithResultLayout(op, op.getOutputs().front(),
+                                     outputLayoutAttr);
   }
 
   // Assign a per-row layout to the input matrix. Each row of the input matrix
-- 
2.43.0


From b8259beedcd04f0bb77e84cf106bfc70f00651a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:51 +0000
Subject: [PATCH 74/89] fix: names of outlined layout assignments depended on
 memory addresses

---
 .../ConvertToCiphertextSemantics.cpp                  | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lib/Transforms/ConvertToCiphertextSemantics/ConvertToCiphertextSemantics.cpp b/lib/Transforms/ConvertToCiphertextSemantics/ConvertToCiphertextSemantics.cpp
index 939e396..d3fb29e 100644
--- a/lib/Transforms/ConvertToCiphertextSemantics/ConvertToCiphertextSemantics.cpp
+++ b/lib/Transforms/ConvertToCiphertextSemantics/ConvertToCiphertextSemantics.cpp
@@ -50,6 +50,7 @@
 #include "llvm/include/llvm/Support/Debug.h"           // from @llvm-project
 #include "llvm/include/llvm/Support/FormatVariadic.h"  // from @llvm-project
 #include "llvm/include/llvm/Support/raw_ostream.h"     // from @llvm-project
+#include "llvm/include/llvm/Support/xxhash.h"  // from @llvm-project
 #include "mlir/include/mlir/Analysis/Presburger/IntegerRelation.h"  // from @llvm-project
 #include "mlir/include/mlir/Analysis/Presburger/PresburgerSpace.h"  // from @llvm-project
 #include "mlir/include/mlir/Dialect/Arith/IR/Arith.h"    // from @llvm-project
@@ -501,9 +502,13 @@ class ConvertAssignLayout
     auto loc = op.getLoc();
 
     Type inputType = originalInput.getType();
-    std::string funcName = llvm::formatv(
-        "_assign_layout_{0}",
-        llvm::hash_combine(op.getLayout(), inputType, resultType));
+    // Hash the printed form: attributes and types hash by address, which would
+    // make the name differ from one run of the compiler to the next.
+    std::string key;
+    llvm::raw_string_ostream keyStream(key);
+    keyStream << op.getLayout() << inputType << resultType;
+    std::string funcName =
+        llvm::formatv("_assign_layout_{0}", llvm::xxh3_64bits(key));
     FunctionType funcType =
         FunctionType::get(rewriter.getContext(), {inputType}, {resultType});
 
-- 
2.43.0


From f96287c38ae5f827d7cbc5f44be98c24731a5a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:51 +0000
Subject: [PATCH 75/89] fix: names of extracted loop and generic bodies
 depended on memory addresses

---
 lib/Dialect/Secret/IR/SecretPatterns.cpp         | 9 +++++++--
 lib/Transforms/MemrefToArith/ExtractLoopBody.cpp | 9 ++++++++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/lib/Dialect/Secret/IR/SecretPatterns.cpp b/lib/Dialect/Secret/IR/SecretPatterns.cpp
index d6718e7..7d6cba7 100644
--- a/lib/Dialect/Secret/IR/SecretPatterns.cpp
+++ b/lib/Dialect/Secret/IR/SecretPatterns.cpp
@@ -885,8 +885,13 @@ LogicalResult extractGenericBody(secret::GenericOp genericOp,
   OpBuilder builder(module);
   builder.setInsertionPoint(genericOp->getParentOfType<func::FuncOp>());
   auto type = builder.getFunctionType(inputTypes, resultTypes);
-  std::string funcName = llvm::formatv(
-      "internal_generic_{0}", mlir::hash_value(yieldOp.getValues()[0]));
+  // Number the functions: hashing a value hashes its address, which would make
+  // the name differ from one run of the compiler to the next.
+  std::string funcName;
+  int64_t funcNumber = 0;
+  do {
+    funcName = llvm::formatv("internal_generic_{0}", funcNumber++);
+  } while (module.lookupSymbol(funcName));
   auto func = func::FuncOp::create(builder, module.getLoc(), funcName, type);
   func.setPrivate();
 
diff --git a/lib/Transforms/MemrefToArith/ExtractLoopBody.cpp b/lib/Transforms/MemrefToArith/ExtractLoopBody.cpp
index cb98c86..3be4eff 100644
--- a/lib/Transforms/MemrefToArith/ExtractLoopBody.cpp
+++ b/lib/Transforms/MemrefToArith/ExtractLoopBody.cpp
@@ -174,7 +174,14 @@ void extractLoopBody(AffineForOp loop, unsigned int minimumLoopSize,
   // Create the new function.
   OpBuilder builder(loop->getParentOfType<func::FuncOp>());
   auto type = builder.getFunctionType(inputTypes, result.getType());
-  std::string funcName = llvm::formatv("for_{0}", mlir::hash_value(result));
+  // Number the functions: hashing a value hashes its address, which would make
+  // the name differ from one run of the compiler to the next.
+  auto moduleOp = loop->getParentOfType<ModuleOp>();
+  std::string funcName;
+  int64_t funcNumber = 0;
+  do {
+    funcName = llvm::formatv("for_{0}", funcNumber++);
+  } while (moduleOp.lookupSymbol(funcName));
   auto funcOp = func::FuncOp::create(builder, moduleLoc, funcName, type);
 
   // Populate function body by cloning the ops in the inner body and mapping
-- 
2.43.0


From dd2df6a5c37daa138272ed7000f2f6e321e55962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:51 +0000
Subject: [PATCH 76/89] fix: estimated layout conversion costs depended on
 memory addresses

---
 .../LayoutOptimization/LayoutConversionCost.cpp           | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/Transforms/LayoutOptimization/LayoutConversionCost.cpp b/lib/Transforms/LayoutOptimization/LayoutConversionCost.cpp
index 85b5d3a..0bf10f2 100644
--- a/lib/Transforms/LayoutOptimization/LayoutConversionCost.cpp
+++ b/lib/Transforms/LayoutOptimization/LayoutConversionCost.cpp
@@ -17,6 +17,7 @@
 #include "llvm/include/llvm/ADT/StringRef.h"        // from @llvm-project
 #include "llvm/include/llvm/Support/Debug.h"        // from @llvm-project
 #include "llvm/include/llvm/Support/raw_ostream.h"  // from @llvm-project
+#include "llvm/include/llvm/Support/xxhash.h"  // from @llvm-project
 #include "mlir/include/mlir/Analysis/Presburger/IntegerRelation.h"  // from @llvm-project
 #include "mlir/include/mlir/Analysis/Presburger/PresburgerSpace.h"  // from @llvm-project
 #include "mlir/include/mlir/IR/Attributes.h"  // from @llvm-project
@@ -147,8 +148,11 @@ Cost computeCostOfLayoutConversion(int64_t minSlotCount, Attribute fromLayout,
   // Combine random seed with hashes over from- and to-layout, guaranteeing the
   // same result for a given random seed and set of layouts.
 
-  llvm::hash_code fromHash = llvm::hash_value(fromLayoutAttr.getLayout());
-  llvm::hash_code toHash = llvm::hash_value(toLayoutAttr.getLayout());
+  // The strings are hashed, not the uniqued attributes, whose hash is their
+  // address.
+  uint64_t fromHash =
+      llvm::xxh3_64bits(fromLayoutAttr.getLayout().getValue());
+  uint64_t toHash = llvm::xxh3_64bits(toLayoutAttr.getLayout().getValue());
   vveRandomSeed = llvm::hash_combine(vveRandomSeed, fromHash, toHash);
 
   IntegerRelation rel = fromLayoutAttr.getIntegerRelation();
-- 
2.43.0


From 49658b6e13d58383d37e092d7a9b70858352c405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:51 +0000
Subject: [PATCH 77/89] fix: the order of vectorized and levelled operations
 depended on memory addresses

---
 lib/Target/TfheRust/TfheRustEmitter.cpp         |  7 +++++++
 .../BooleanVectorizer/BooleanVectorizer.cpp     | 17 +++++++++++++----
 .../StraightLineVectorizer.cpp                  | 11 ++++++++++-
 3 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/lib/Target/TfheRust/TfheRustEmitter.cpp b/lib/Target/TfheRust/TfheRustEmitter.cpp
index a5a7244..1f65d96 100644
--- a/lib/Target/TfheRust/TfheRustEmitter.cpp
+++ b/lib/Target/TfheRust/TfheRustEmitter.cpp
@@ -186,6 +186,13 @@ LogicalResult TfheRustEmitter::emitBlock(::mlir::Operation* op, int batch) {
       llvm_unreachable("Only possible failure is a cycle in the SSA graph!");
     }
     auto levels = sortedGraph.value();
+    // Levels are sets of pointers, so put them in program order to make the
+    // output independent of where the operations were allocated.
+    for (auto& level : levels) {
+      llvm::sort(level, [](Operation* lhs, Operation* rhs) {
+        return lhs->isBeforeInBlock(rhs);
+      });
+    }
     // Print lists of operations per level.
     for (size_t level = 0; level < levels.size(); ++level) {
       os << "static LEVEL_" << batch << "_" << level
diff --git a/lib/Transforms/BooleanVectorizer/BooleanVectorizer.cpp b/lib/Transforms/BooleanVectorizer/BooleanVectorizer.cpp
index ffd7fe3..9ea412f 100644
--- a/lib/Transforms/BooleanVectorizer/BooleanVectorizer.cpp
+++ b/lib/Transforms/BooleanVectorizer/BooleanVectorizer.cpp
@@ -6,6 +6,7 @@
 
 #include "lib/Dialect/HEIRInterfaces.h"
 #include "lib/Utils/Graph/Graph.h"
+#include "llvm/include/llvm/ADT/MapVector.h"  // from @llvm-project
 #include "llvm/include/llvm/ADT/STLExtras.h"           // from @llvm-project
 #include "llvm/include/llvm/ADT/SmallVector.h"         // from @llvm-project
 #include "llvm/include/llvm/ADT/TypeSwitch.h"          // from @llvm-project
@@ -84,9 +85,9 @@ int bucketSize(const SmallVector<SmallVector<Operation*>>& buckets) {
   return size;
 }
 
-DenseMap<Operation*, SmallVector<SmallVector<Operation*>>> buildCompatibleOps(
+llvm::MapVector<Operation*, SmallVector<SmallVector<Operation*>>> buildCompatibleOps(
     std::vector<mlir::Operation*> level, int parallelism) {
-  DenseMap<Operation*, SmallVector<SmallVector<Operation*>>> compatibleOps;
+  llvm::MapVector<Operation*, SmallVector<SmallVector<Operation*>>> compatibleOps;
 
   for (auto* op : level) {
     bool foundCompatible = false;
@@ -148,6 +149,14 @@ bool tryBoolVectorizeBlock(Block* block, MLIRContext& context,
          "Only possible failure is a cycle in the SSA graph!");
   auto levels = result.value();
 
+  // Levels are sets of pointers, so put them in program order to make the
+  // output independent of where the operations were allocated.
+  for (auto& level : levels) {
+    llvm::sort(level, [](Operation* lhs, Operation* rhs) {
+      return lhs->isBeforeInBlock(rhs);
+    });
+  }
+
   LLVM_DEBUG({
     llvm::dbgs()
         << "Found operations to vectorize. In topo-sorted level order:\n";
@@ -162,7 +171,7 @@ bool tryBoolVectorizeBlock(Block* block, MLIRContext& context,
 
   bool madeReplacement = false;
   for (const auto& level : levels) {
-    DenseMap<Operation*, SmallVector<SmallVector<Operation*>>> compatibleOps =
+    llvm::MapVector<Operation*, SmallVector<SmallVector<Operation*>>> compatibleOps =
         buildCompatibleOps(level, parallelism);
 
     LLVM_DEBUG({
@@ -170,7 +179,7 @@ bool tryBoolVectorizeBlock(Block* block, MLIRContext& context,
           << " ########## Overview of the Compatible Ops object ##########\n";
       for (const auto& elem : compatibleOps) {
         llvm::dbgs() << " KEY " << *elem.first << "\n";
-        for (const auto op : elem.getSecond()) {
+        for (const auto op : elem.second) {
           for (const auto opp : op) {
             llvm::dbgs() << " - " << *opp << "\n";
           }
diff --git a/lib/Transforms/StraightLineVectorizer/StraightLineVectorizer.cpp b/lib/Transforms/StraightLineVectorizer/StraightLineVectorizer.cpp
index b035bea..a5df2b9 100644
--- a/lib/Transforms/StraightLineVectorizer/StraightLineVectorizer.cpp
+++ b/lib/Transforms/StraightLineVectorizer/StraightLineVectorizer.cpp
@@ -4,6 +4,7 @@
 #include <cstdint>
 
 #include "lib/Utils/Graph/Graph.h"
+#include "llvm/include/llvm/ADT/MapVector.h"  // from @llvm-project
 #include "llvm/include/llvm/Support/Debug.h"           // from @llvm-project
 #include "mlir/include/mlir/Analysis/SliceAnalysis.h"  // from @llvm-project
 #include "mlir/include/mlir/Analysis/TopologicalSortUtils.h"  // from @llvm-project
@@ -70,6 +71,14 @@ bool tryVectorizeBlock(Block* block, Dialect* dialect) {
          "Only possible failure is a cycle in the SSA graph!");
   auto levels = result.value();
 
+  // Levels are sets of pointers, so put them in program order to make the
+  // output independent of where the operations were allocated.
+  for (auto& level : levels) {
+    llvm::sort(level, [](Operation* lhs, Operation* rhs) {
+      return lhs->isBeforeInBlock(rhs);
+    });
+  }
+
   LLVM_DEBUG({
     llvm::dbgs()
         << "Found operations to vectorize. In topo-sorted level order:\n";
@@ -84,7 +93,7 @@ bool tryVectorizeBlock(Block* block, Dialect* dialect) {
 
   bool madeReplacement = false;
   for (const auto& level : levels) {
-    DenseMap<Operation*, SmallVector<Operation*, 4>> compatibleOps;
+    llvm::MapVector<Operation*, SmallVector<Operation*, 4>> compatibleOps;
     for (auto* op : level) {
       bool foundCompatible = false;
       for (auto& [key, bucket] : compatibleOps) {
-- 
2.43.0


From 1372689008a423477d49ac9d24b248e573333c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:15 +0000
Subject: [PATCH 78/89] fix: the order of preprocessed types and rotation
 precomputations depended on memory addresses

---
 lib/Dialect/Openfhe/Transforms/FastRotationPrecompute.cpp | 3 ++-
 lib/Transforms/SplitPreprocessing/SplitPreprocessing.cpp  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/Dialect/Openfhe/Transforms/FastRotationPrecompute.cpp b/lib/Dialect/Openfhe/Transforms/FastRotationPrecompute.cpp
index 00bc661..35c34ad 100644
--- a/lib/Dialect/Openfhe/Transforms/FastRotationPrecompute.cpp
+++ b/lib/Dialect/Openfhe/Transforms/FastRotationPrecompute.cpp
@@ -8,6 +8,7 @@
 #include "lib/Utils/ConversionUtils.h"
 #include "llvm/include/llvm/ADT/DenseMap.h"             // from @llvm-project
 #include "llvm/include/llvm/ADT/DenseSet.h"             // from @llvm-project
+#include "llvm/include/llvm/ADT/MapVector.h"            // from @llvm-project
 #include "llvm/include/llvm/ADT/SmallVector.h"          // from @llvm-project
 #include "llvm/include/llvm/Support/Debug.h"            // from @llvm-project
 #include "llvm/include/llvm/Support/DebugLog.h"         // from @llvm-project
@@ -31,7 +32,7 @@ namespace openfhe {
 void processFunc(func::FuncOp funcOp, Value cryptoContext) {
   IRRewriter builder(funcOp->getContext());
   llvm::DenseMap<Value, llvm::SmallVector<RotOp>> ciphertextToRotateOps;
-  llvm::DenseMap<Value, llvm::SmallDenseSet<int64_t>>
+  llvm::MapVector<Value, llvm::SmallDenseSet<int64_t>>
       ciphertextToDistinctRotations;
   funcOp->walk([&](RotOp op) {
     // Only process rotations with constant indices
diff --git a/lib/Transforms/SplitPreprocessing/SplitPreprocessing.cpp b/lib/Transforms/SplitPreprocessing/SplitPreprocessing.cpp
index f494859..9bb7c62 100644
--- a/lib/Transforms/SplitPreprocessing/SplitPreprocessing.cpp
+++ b/lib/Transforms/SplitPreprocessing/SplitPreprocessing.cpp
@@ -11,6 +11,7 @@
 #include "lib/Dialect/Preprocessing/IR/PreprocessingTypes.h"
 #include "lib/Utils/AttributeUtils.h"
 #include "llvm/include/llvm/ADT/STLExtras.h"    // from @llvm-project
+#include "llvm/include/llvm/ADT/SetVector.h"    // from @llvm-project
 #include "llvm/include/llvm/ADT/SmallVector.h"  // from @llvm-project
 #include "mlir/include/mlir/Dialect/Affine/IR/AffineOps.h"  // from @llvm-project
 #include "mlir/include/mlir/Dialect/Affine/Transforms/Passes.h"  // from @llvm-project
@@ -378,7 +379,7 @@ struct SplitPreprocessingPass
     }
 
     // Create a preprocessing.storage type with the set plaintext types
-    DenseSet<Type> encodeTypesDeduped;
+    llvm::SetVector<Type> encodeTypesDeduped;
     for (Operation* input : analysis.encodeOps) {
       encodeTypesDeduped.insert(
           getElementTypeOrSelf(input->getResult(0).getType()));
-- 
2.43.0


From 88ac6909ad9a937bdc887f2c0e459c62880b3148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:43 +0000
Subject: [PATCH 79/89] fix: attributes of secret.generic operands and results
 moved to earlier ones when parsed

---
 lib/Dialect/Secret/IR/SecretOps.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/lib/Dialect/Secret/IR/SecretOps.cpp b/lib/Dialect/Secret/IR/SecretOps.cpp
index fffb224..80d6245 100644
--- a/lib/Dialect/Secret/IR/SecretOps.cpp
+++ b/lib/Dialect/Secret/IR/SecretOps.cpp
@@ -151,8 +151,10 @@ static ParseResult parseCommonStructuredOpParts(
         auto result = parser.parseOptionalAttribute(attr);
         if (result.has_value()) {
           if (failed(*result)) return failure();
-          inputAttrs.push_back(attr);
         }
+        // Keep one entry per operand, so that each keeps its own attributes.
+        inputAttrs.push_back(attr ? attr
+                                  : parser.getBuilder().getDictionaryAttr({}));
         return success();
       });
   if (failed(inputsResult)) return failure();
@@ -173,7 +175,11 @@ ParseResult GenericOp::parse(OpAsmParser& parser, OperationState& result) {
     return failure();
 
   // Add operand attributes.
-  if (!inputAttrs.empty()) {
+  auto isPresent = [](Attribute attr) {
+    auto dict = dyn_cast<DictionaryAttr>(attr);
+    return !dict || !dict.empty();
+  };
+  if (llvm::any_of(inputAttrs, isPresent)) {
     result.attributes.append(
         StringAttr::get(parser.getContext(), kOperandAttrsName),
         parser.getBuilder().getArrayAttr(inputAttrs));
@@ -198,8 +204,9 @@ ParseResult GenericOp::parse(OpAsmParser& parser, OperationState& result) {
       auto result = parser.parseOptionalAttribute(attr);
       if (result.has_value()) {
         if (failed(*result)) return failure();
-        outputAttrs.push_back(attr);
       }
+      outputAttrs.push_back(attr ? attr
+                                 : parser.getBuilder().getDictionaryAttr({}));
       return success();
     };
     if (failed(parser.parseOptionalLParen())) {
@@ -218,7 +225,7 @@ ParseResult GenericOp::parse(OpAsmParser& parser, OperationState& result) {
     }
   }
   result.addTypes(outputTypes);
-  if (!outputAttrs.empty()) {
+  if (llvm::any_of(outputAttrs, isPresent)) {
     result.attributes.append(
         StringAttr::get(parser.getContext(), kResultAttrsName),
         parser.getBuilder().getArrayAttr(outputAttrs));
-- 
2.43.0


From 3845046dcd4d2e5d0f09ffd4fb15aa011e4b2cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:43 +0000
Subject: [PATCH 80/89] fix: the default poulpy module type printed as an empty
 parameter list that does not parse

---
 lib/Dialect/Poulpy/IR/PoulpyTypes.td | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Dialect/Poulpy/IR/PoulpyTypes.td b/lib/Dialect/Poulpy/IR/PoulpyTypes.td
index 58e6c23..75a25f7 100644
--- a/lib/Dialect/Poulpy/IR/PoulpyTypes.td
+++ b/lib/Dialect/Poulpy/IR/PoulpyTypes.td
@@ -25,7 +25,7 @@ def Poulpy_ModuleType : Poulpy_Type<"Module", "module"> {
     DefaultValuedParameter<"::mlir::heir::poulpy::PoulpyBackend",
     "::mlir::heir::poulpy::PoulpyBackend::FFT64Ref">:$backend
   );
-  let assemblyFormat = "`<` $backend `>`";
+  let assemblyFormat = "(`<` $backend^ `>`)?";
 }
 
 // maps to CKKSCiphertext<D, Normalized>
-- 
2.43.0


From e5efecca409d278fb9ab2d367994387aa0084be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:43 +0000
Subject: [PATCH 81/89] fix: residue polynomial attributes printed their type
 twice and did not parse

---
 lib/Dialect/Polynomial/IR/PolynomialAttributes.td | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Dialect/Polynomial/IR/PolynomialAttributes.td b/lib/Dialect/Polynomial/IR/PolynomialAttributes.td
index 9259714..517c227 100644
--- a/lib/Dialect/Polynomial/IR/PolynomialAttributes.td
+++ b/lib/Dialect/Polynomial/IR/PolynomialAttributes.td
@@ -271,13 +271,13 @@ def Polynomial_RNSPolynomialAttr : Polynomial_Attr<"RNSPolynomial", "rns_polynom
   let genVerifyDecl = 1;
   let parameters = (ins
     "::mlir::DenseIntElementsAttr":$coefficients,
-    "::mlir::Type":$type,
+    AttributeSelfTypeParameter<"">:$type,
     DefaultValuedParameter<
       "::mlir::heir::polynomial::Form",
       "::mlir::heir::polynomial::Form::COEFF"
     >:$form
   );
-  let assemblyFormat = "`<` $coefficients (`,` $form^)? `>` `:` $type";
+  let assemblyFormat = "`<` $coefficients (`,` $form^)? `>`";
   let extraClassDeclaration = [{
     using ValueType = ::mlir::DenseIntElementsAttr;
     ::mlir::heir::polynomial::RNSPolynomial getPolynomial() const;
-- 
2.43.0


From 0687a7c0160170284b3d1a3b03448b620ae46741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:43 +0000
Subject: [PATCH 82/89] fix: the zero polynomial printed as an empty list of
 terms that did not parse

---
 lib/Dialect/Polynomial/IR/PolynomialAttributes.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/Dialect/Polynomial/IR/PolynomialAttributes.cpp b/lib/Dialect/Polynomial/IR/PolynomialAttributes.cpp
index a6f49b1..d231892 100644
--- a/lib/Dialect/Polynomial/IR/PolynomialAttributes.cpp
+++ b/lib/Dialect/Polynomial/IR/PolynomialAttributes.cpp
@@ -116,6 +116,9 @@ LogicalResult parsePolynomialAttr(
     AsmParser& parser, llvm::SmallVector<Monomial>& monomials,
     llvm::StringSet<>& variables,
     ParseCoefficientFn<Monomial> parseAndStoreCoefficient) {
+  // The zero polynomial has no terms and is printed as `<>`.
+  if (succeeded(parser.parseOptionalGreater())) return success();
+
   while (true) {
     Monomial parsedMonomial;
     llvm::StringRef parsedVariableRef;
-- 
2.43.0


From f3a25f0a09709d7bcfc0ba1f6479db1dd41e0c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:44 +0000
Subject: [PATCH 83/89] fix: constant tensors of modular integers did not parse
 when printed as a splat, in several dimensions or as hexadecimal

---
 lib/Dialect/ModArith/IR/ModArithOps.cpp | 55 +++++++++++++++++--------
 1 file changed, 38 insertions(+), 17 deletions(-)

diff --git a/lib/Dialect/ModArith/IR/ModArithOps.cpp b/lib/Dialect/ModArith/IR/ModArithOps.cpp
index 4277688..fa8faf2 100644
--- a/lib/Dialect/ModArith/IR/ModArithOps.cpp
+++ b/lib/Dialect/ModArith/IR/ModArithOps.cpp
@@ -245,20 +245,29 @@ ParseResult ConstantOp::parse(OpAsmParser& parser, OperationState& result) {
     // Dense case
     // We parse the integers as a list, rather than an ArrayAttr, so we can
     // more easily convert them to the correct bitwidth (ArrayAttr forces I64)
+    // The list of a multi-dimensional constant is flat, and a splat is a single
+    // integer without brackets.
     std::vector<APInt> parsedInts;
-    if (parser.parseLess() ||
-        parser.parseCommaSeparatedList(
-            mlir::AsmParser::Delimiter::Square,
-            [&] {
-              APInt parsedInt;
-              if (parser.parseInteger(parsedInt))
-                return parser.emitError(
-                           parser.getNameLoc(),
-                           "failed to parse integer in dense list"),
-                       failure();
-              parsedInts.push_back(parsedInt);
-              return success();
-            }) ||
+    auto parseElement = [&]() -> ParseResult {
+      APInt parsedInt;
+      if (parser.parseInteger(parsedInt))
+        return parser.emitError(parser.getNameLoc(),
+                                "failed to parse integer in dense list"),
+               failure();
+      parsedInts.push_back(parsedInt);
+      return success();
+    };
+    bool isSplat = false;
+    auto parseElements = [&]() -> ParseResult {
+      if (failed(parser.parseOptionalLSquare())) {
+        isSplat = true;
+        return parseElement();
+      }
+      if (succeeded(parser.parseOptionalRSquare())) return success();
+      if (parser.parseCommaSeparatedList(parseElement)) return failure();
+      return parser.parseRSquare();
+    };
+    if (parser.parseLess() || parseElements() ||
         parser.parseGreater() || parser.parseColonType(parsedType))
       return parser.emitError(parser.getNameLoc(),
                               "failed to parse dense constant"),
@@ -277,10 +286,15 @@ ParseResult ConstantOp::parse(OpAsmParser& parser, OperationState& result) {
     for (auto& parsedInt : parsedInts) {
       if (failed(normalizeInteger(parsedInt, storageWidth))) return failure();
     }
+    SmallVector<int64_t> shape = {static_cast<int64_t>(parsedInts.size())};
+    if (auto shapedType = dyn_cast<ShapedType>(parsedType)) {
+      if (shapedType.hasStaticShape() &&
+          (isSplat || shapedType.getNumElements() == shape[0])) {
+        shape = llvm::to_vector(shapedType.getShape());
+      }
+    }
     auto attr = DenseIntElementsAttr::get(
-        RankedTensorType::get({static_cast<int64_t>(parsedInts.size())},
-                              storageType),
-        parsedInts);
+        RankedTensorType::get(shape, storageType), parsedInts);
     result.addAttribute("value", attr);
   } else {
     // Scalar case
@@ -346,7 +360,14 @@ LogicalResult ConstantOp::verify() {
 
 void ConstantOp::print(OpAsmPrinter& p) {
   p << " ";
-  p.printAttributeWithoutType(getValue());
+  auto denseAttr = dyn_cast<DenseIntElementsAttr>(getValue());
+  if (denseAttr && !denseAttr.isSplat()) {
+    p << "dense<[";
+    llvm::interleaveComma(denseAttr.getValues<APInt>(), p.getStream());
+    p << "]>";
+  } else {
+    p.printAttributeWithoutType(getValue());
+  }
   p << " : ";
   p.printType(getOutput().getType());
 }
-- 
2.43.0


From fe054708118a4c78968429e5968a0fcaeb2a6aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:16 +0000
Subject: [PATCH 84/89] fix: float polynomials with a whole or omitted
 coefficient did not parse when printed

---
 .../Polynomial/IR/PolynomialAttributes.cpp    | 28 ++++++++++++++++---
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/lib/Dialect/Polynomial/IR/PolynomialAttributes.cpp b/lib/Dialect/Polynomial/IR/PolynomialAttributes.cpp
index d231892..54b7c9d 100644
--- a/lib/Dialect/Polynomial/IR/PolynomialAttributes.cpp
+++ b/lib/Dialect/Polynomial/IR/PolynomialAttributes.cpp
@@ -194,10 +194,30 @@ Attribute FloatPolynomialAttr::parse(AsmParser& parser, Type type) {
 
   ParseCoefficientFn<FloatMonomial> parseAndStoreCoefficient =
       [&](FloatMonomial& monomial) -> OptionalParseResult {
-    double coeffValue = 1.0;
-    ParseResult result = parser.parseFloat(coeffValue);
-    monomial.setCoefficient(APFloat(coeffValue));
-    return OptionalParseResult(result);
+    monomial.setCoefficient(APFloat(1.0));
+    // Whole coefficients are printed without a decimal point, and a
+    // coefficient of one is not printed at all.
+    Attribute coeff;
+    SMLoc loc = parser.getCurrentLocation();
+    // A hexadecimal literal gives the bits of the coefficient.
+    const char* text = loc.getPointer();
+    if (text[0] == '0' && text[1] == 'x' && llvm::isHexDigit(text[2])) {
+      double bits = 0.0;
+      if (parser.parseFloat(bits)) return failure();
+      monomial.setCoefficient(APFloat(bits));
+      return success();
+    }
+    OptionalParseResult result = parser.parseOptionalAttribute(coeff);
+    if (!result.has_value() || failed(*result)) return result;
+    if (auto floatCoeff = dyn_cast<FloatAttr>(coeff)) {
+      monomial.setCoefficient(floatCoeff.getValue());
+    } else if (auto intCoeff = dyn_cast<IntegerAttr>(coeff)) {
+      monomial.setCoefficient(
+          APFloat(static_cast<double>(intCoeff.getValue().getSExtValue())));
+    } else {
+      return parser.emitError(loc, "expected floating point coefficient");
+    }
+    return result;
   };
 
   if (failed(parsePolynomialAttr<FloatMonomial>(parser, monomials, variables,
-- 
2.43.0


From 1d491d6313ed1459153c0a9c692b5dd1e01bd546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:38 +0000
Subject: [PATCH 85/89] fix: peel secret loops without replacing the upper
 bound inside their bodies

---
 lib/Transforms/Halo/BUILD        |  1 +
 lib/Transforms/Halo/Patterns.cpp | 22 ++++++++++++++++++++++
 2 files changed, 23 insertions(+)

diff --git a/lib/Transforms/Halo/BUILD b/lib/Transforms/Halo/BUILD
index 3bc4198..bb34320 100644
--- a/lib/Transforms/Halo/BUILD
+++ b/lib/Transforms/Halo/BUILD
@@ -38,6 +38,7 @@ cc_library(
         "@llvm-project//mlir:AffineDialect",
         "@llvm-project//mlir:AffineUtils",
         "@llvm-project//mlir:Analysis",
+        "@llvm-project//mlir:ArithDialect",
         "@llvm-project//mlir:ControlFlowInterfaces",
         "@llvm-project//mlir:FuncDialect",
         "@llvm-project//mlir:IR",
diff --git a/lib/Transforms/Halo/Patterns.cpp b/lib/Transforms/Halo/Patterns.cpp
index a18014d..2a9f0c6 100644
--- a/lib/Transforms/Halo/Patterns.cpp
+++ b/lib/Transforms/Halo/Patterns.cpp
@@ -16,6 +16,7 @@
 #include "mlir/include/mlir/Dialect/Affine/Analysis/LoopAnalysis.h"  // from @llvm-project
 #include "mlir/include/mlir/Dialect/Affine/IR/AffineOps.h"  // from @llvm-project
 #include "mlir/include/mlir/Dialect/Affine/LoopUtils.h"  // from @llvm-project
+#include "mlir/include/mlir/Dialect/Arith/IR/Arith.h"    // from @llvm-project
 #include "mlir/include/mlir/Dialect/Func/IR/FuncOps.h"   // from @llvm-project
 #include "mlir/include/mlir/Dialect/SCF/Transforms/Transforms.h"  // from @llvm-project
 #include "mlir/include/mlir/Dialect/SCF/Utils/Utils.h"  // from @llvm-project
@@ -147,6 +148,27 @@ LogicalResult PeelPlaintextScfForInit::matchAndRewrite(
   LLVM_DEBUG(
       llvm::dbgs() << "Found mismatch between init types and iter arg types\n");
 
+  // When peeling, MLIR replaces the upper bound throughout the peeled copy of
+  // the loop, including uses of the same value in the loop's body. Give the
+  // loop an upper bound no one else uses.
+  Value upperBound = forOp.getUpperBound();
+  if (!upperBound.hasOneUse()) {
+    OpBuilder::InsertionGuard guard(rewriter);
+    rewriter.setInsertionPoint(forOp);
+    Value ownUpperBound;
+    if (auto constant = upperBound.getDefiningOp<arith::ConstantOp>()) {
+      ownUpperBound = rewriter.clone(*constant.getOperation())->getResult(0);
+    } else {
+      auto zero =
+          arith::ConstantOp::create(rewriter, forOp.getLoc(),
+                                    rewriter.getZeroAttr(upperBound.getType()));
+      ownUpperBound = arith::AddIOp::create(rewriter, forOp.getLoc(),
+                                            upperBound, zero);
+    }
+    rewriter.modifyOpInPlace(forOp,
+                             [&]() { forOp.setUpperBound(ownUpperBound); });
+  }
+
   scf::ForOp firstIteration;
   LogicalResult result =
       peelForLoopFirstIteration(rewriter, forOp, firstIteration);
-- 
2.43.0


From 439be4c53abded2a338235518499b4241b2011a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:38 +0000
Subject: [PATCH 86/89] fix: keep ciphertexts still referred to by tensors out
 of OpenFHE's in-place operations

---
 .../Openfhe/Transforms/AllocToInPlace.cpp     |  54 ++----
 lib/Utils/AllocToInPlaceUtils.h               | 180 ++++++++++++++----
 2 files changed, 161 insertions(+), 73 deletions(-)

diff --git a/lib/Dialect/Openfhe/Transforms/AllocToInPlace.cpp b/lib/Dialect/Openfhe/Transforms/AllocToInPlace.cpp
index b29f6f8..ee91fe5 100644
--- a/lib/Dialect/Openfhe/Transforms/AllocToInPlace.cpp
+++ b/lib/Dialect/Openfhe/Transforms/AllocToInPlace.cpp
@@ -6,10 +6,10 @@
 #include "lib/Dialect/Openfhe/IR/OpenfheOps.h"
 #include "lib/Dialect/Openfhe/IR/OpenfheTypes.h"
 #include "lib/Utils/AllocToInPlaceUtils.h"
-#include "mlir/include/mlir/Analysis/Liveness.h"        // from @llvm-project
 #include "mlir/include/mlir/Dialect/Func/IR/FuncOps.h"  // from @llvm-project
 #include "mlir/include/mlir/IR/MLIRContext.h"           // from @llvm-project
 #include "mlir/include/mlir/IR/PatternMatch.h"          // from @llvm-project
+#include "mlir/include/mlir/IR/TypeUtilities.h"         // from @llvm-project
 #include "mlir/include/mlir/Support/LLVM.h"             // from @llvm-project
 #include "mlir/include/mlir/Transforms/WalkPatternRewriteDriver.h"  // from @llvm-project
 
@@ -24,11 +24,9 @@ template <typename BinOp, typename InPlaceOp>
 struct ConvertBinOp : public OpRewritePattern<BinOp> {
   using OpRewritePattern<BinOp>::OpRewritePattern;
 
-  ConvertBinOp(mlir::MLIRContext* context, Liveness* liveness,
+  ConvertBinOp(mlir::MLIRContext* context,
                OperandMutatedStorageInfo* storageInfo)
-      : OpRewritePattern<BinOp>(context),
-        liveness(liveness),
-        storageInfo(storageInfo) {}
+      : OpRewritePattern<BinOp>(context), storageInfo(storageInfo) {}
 
   LogicalResult matchAndRewrite(BinOp op,
                                 PatternRewriter& rewriter) const override {
@@ -37,7 +35,7 @@ struct ConvertBinOp : public OpRewritePattern<BinOp> {
       assert(isa<CiphertextType>(op.getRhs().getType()));
       mutatedValue = op.getRhs();
     }
-    if (!storageInfo->isSafeToMutateInPlace(op, mutatedValue, liveness)) {
+    if (!storageInfo->isSafeToMutateInPlace(op, mutatedValue)) {
       return rewriter.notifyMatchFailure(
           op,
           "Not replacing op with in-place version because the mutated "
@@ -53,7 +51,6 @@ struct ConvertBinOp : public OpRewritePattern<BinOp> {
   }
 
  private:
-  Liveness* liveness;
   OperandMutatedStorageInfo* storageInfo;
 };
 
@@ -61,15 +58,13 @@ template <typename UnaryOp, typename InPlaceOp>
 struct ConvertUnaryOp : public OpRewritePattern<UnaryOp> {
   using OpRewritePattern<UnaryOp>::OpRewritePattern;
 
-  ConvertUnaryOp(mlir::MLIRContext* context, Liveness* liveness,
+  ConvertUnaryOp(mlir::MLIRContext* context,
                  OperandMutatedStorageInfo* storageInfo)
-      : OpRewritePattern<UnaryOp>(context),
-        liveness(liveness),
-        storageInfo(storageInfo) {}
+      : OpRewritePattern<UnaryOp>(context), storageInfo(storageInfo) {}
 
   LogicalResult matchAndRewrite(UnaryOp op,
                                 PatternRewriter& rewriter) const override {
-    if (!storageInfo->isSafeToMutateInPlace(op, op.getCiphertext(), liveness)) {
+    if (!storageInfo->isSafeToMutateInPlace(op, op.getCiphertext())) {
       return rewriter.notifyMatchFailure(
           op,
           "Not replacing op with in-place version because the mutated "
@@ -86,22 +81,19 @@ struct ConvertUnaryOp : public OpRewritePattern<UnaryOp> {
   }
 
  private:
-  Liveness* liveness;
   OperandMutatedStorageInfo* storageInfo;
 };
 
 struct ConvertLevelReduceOp : public OpRewritePattern<LevelReduceOp> {
   using OpRewritePattern<LevelReduceOp>::OpRewritePattern;
 
-  ConvertLevelReduceOp(mlir::MLIRContext* context, Liveness* liveness,
+  ConvertLevelReduceOp(mlir::MLIRContext* context,
                        OperandMutatedStorageInfo* storageInfo)
-      : OpRewritePattern<LevelReduceOp>(context),
-        liveness(liveness),
-        storageInfo(storageInfo) {}
+      : OpRewritePattern<LevelReduceOp>(context), storageInfo(storageInfo) {}
 
   LogicalResult matchAndRewrite(LevelReduceOp op,
                                 PatternRewriter& rewriter) const override {
-    if (!storageInfo->isSafeToMutateInPlace(op, op.getCiphertext(), liveness)) {
+    if (!storageInfo->isSafeToMutateInPlace(op, op.getCiphertext())) {
       return rewriter.notifyMatchFailure(
           op,
           "Not replacing op with in-place version because the mutated "
@@ -117,22 +109,19 @@ struct ConvertLevelReduceOp : public OpRewritePattern<LevelReduceOp> {
   }
 
  private:
-  Liveness* liveness;
   OperandMutatedStorageInfo* storageInfo;
 };
 
 struct ConvertMulConstOp : public OpRewritePattern<MulConstOp> {
   using OpRewritePattern<MulConstOp>::OpRewritePattern;
 
-  ConvertMulConstOp(mlir::MLIRContext* context, Liveness* liveness,
+  ConvertMulConstOp(mlir::MLIRContext* context,
                     OperandMutatedStorageInfo* storageInfo)
-      : OpRewritePattern<MulConstOp>(context),
-        liveness(liveness),
-        storageInfo(storageInfo) {}
+      : OpRewritePattern<MulConstOp>(context), storageInfo(storageInfo) {}
 
   LogicalResult matchAndRewrite(MulConstOp op,
                                 PatternRewriter& rewriter) const override {
-    if (!storageInfo->isSafeToMutateInPlace(op, op.getCiphertext(), liveness)) {
+    if (!storageInfo->isSafeToMutateInPlace(op, op.getCiphertext())) {
       return rewriter.notifyMatchFailure(
           op,
           "Not replacing op with in-place version because the mutated "
@@ -148,22 +137,19 @@ struct ConvertMulConstOp : public OpRewritePattern<MulConstOp> {
   }
 
  private:
-  Liveness* liveness;
   OperandMutatedStorageInfo* storageInfo;
 };
 
 struct ConvertKeySwitchOp : public OpRewritePattern<KeySwitchOp> {
   using OpRewritePattern<KeySwitchOp>::OpRewritePattern;
 
-  ConvertKeySwitchOp(mlir::MLIRContext* context, Liveness* liveness,
+  ConvertKeySwitchOp(mlir::MLIRContext* context,
                      OperandMutatedStorageInfo* storageInfo)
-      : OpRewritePattern<KeySwitchOp>(context),
-        liveness(liveness),
-        storageInfo(storageInfo) {}
+      : OpRewritePattern<KeySwitchOp>(context), storageInfo(storageInfo) {}
 
   LogicalResult matchAndRewrite(KeySwitchOp op,
                                 PatternRewriter& rewriter) const override {
-    if (!storageInfo->isSafeToMutateInPlace(op, op.getCiphertext(), liveness)) {
+    if (!storageInfo->isSafeToMutateInPlace(op, op.getCiphertext())) {
       return rewriter.notifyMatchFailure(
           op,
           "Not replacing op with in-place version because the mutated "
@@ -179,7 +165,6 @@ struct ConvertKeySwitchOp : public OpRewritePattern<KeySwitchOp> {
   }
 
  private:
-  Liveness* liveness;
   OperandMutatedStorageInfo* storageInfo;
 };
 
@@ -190,8 +175,9 @@ struct AllocToInPlace : impl::AllocToInPlaceBase<AllocToInPlace> {
   using AllocToInPlaceBase::AllocToInPlaceBase;
 
   void runOnOperation() override {
-    Liveness liveness(getOperation());
-    OperandMutatedStorageInfo storageInfo;
+    OperandMutatedStorageInfo storageInfo(getOperation(), [](Type type) {
+      return isa<CiphertextType>(getElementTypeOrSelf(type));
+    });
 
     MLIRContext* context = &getContext();
     RewritePatternSet patterns(context);
@@ -205,7 +191,7 @@ struct AllocToInPlace : impl::AllocToInPlaceBase<AllocToInPlace> {
                  ConvertUnaryOp<RelinOp, RelinInPlaceOp>,
                  ConvertUnaryOp<ModReduceOp, ModReduceInPlaceOp>,
                  ConvertMulConstOp, ConvertLevelReduceOp, ConvertKeySwitchOp>(
-        context, &liveness, &storageInfo);
+        context, &storageInfo);
 
     // The greedy policy relies on the order of processing the operations.
     walkAndApplyPatterns(getOperation(), std::move(patterns));
diff --git a/lib/Utils/AllocToInPlaceUtils.h b/lib/Utils/AllocToInPlaceUtils.h
index 99e1cac..ae9c042 100644
--- a/lib/Utils/AllocToInPlaceUtils.h
+++ b/lib/Utils/AllocToInPlaceUtils.h
@@ -10,7 +10,9 @@
 #include <utility>
 
 #include "lib/Utils/Tablegen/InPlaceOpInterface.h"
+#include "llvm/include/llvm/ADT/DenseSet.h"              // from @llvm-project
 #include "llvm/include/llvm/ADT/MapVector.h"             // from @llvm-project
+#include "llvm/include/llvm/ADT/STLFunctionalExtras.h"   // from @llvm-project
 #include "llvm/include/llvm/Support/Debug.h"             // from @llvm-project
 #include "mlir/include/mlir/Analysis/Liveness.h"         // from @llvm-project
 #include "mlir/include/mlir/Dialect/Func/IR/FuncOps.h"   // from @llvm-project
@@ -18,7 +20,11 @@
 #include "mlir/include/mlir/Dialect/SCF/IR/SCF.h"        // from @llvm-project
 #include "mlir/include/mlir/Dialect/Tensor/IR/Tensor.h"  // from @llvm-project
 #include "mlir/include/mlir/IR/Dominance.h"              // from @llvm-project
+#include "mlir/include/mlir/IR/TypeUtilities.h"          // from @llvm-project
 #include "mlir/include/mlir/IR/Visitors.h"               // from @llvm-project
+#include "mlir/include/mlir/Interfaces/CallInterfaces.h"  // from @llvm-project
+#include "mlir/include/mlir/Interfaces/FunctionInterfaces.h"  // from @llvm-project
+#include "mlir/include/mlir/Interfaces/LoopLikeInterface.h"  // from @llvm-project
 #include "mlir/include/mlir/Support/LLVM.h"              // from @llvm-project
 
 // This library contains helpers for passes in HEIR that involve converting
@@ -309,63 +315,159 @@ initializeAllocToInPlaceBlockStorage(Operation* op) {
 // When replacing an op, this data structure should be updated so that the new
 // result SSA value becomes a reference to the operand SSA value that was
 // mutated.
+//
+// Ciphertexts are handled by reference: a tensor of ciphertexts refers to the
+// same storage as the ciphertexts inserted into it, and a ciphertext extracted
+// from it refers to one of those. So an operation may only overwrite a storage
+// no other value refers to afterwards, whether that value is a ciphertext or a
+// container of ciphertexts.
 class OperandMutatedStorageInfo {
  public:
-  OperandMutatedStorageInfo() = default;
-
- private:
-  void mergeStorage(Value from, Value to) {}
-
- public:
-  /// Given a value, provide a canonical SSA value for the storage it
-  /// represents. I.e., for in-place ops in this project, the in-place op itself
-  /// will still return a new SSA value that refers to the mutated operand. This
-  /// method takes a possibly referential Value and returns the source SSA
-  /// value. If no reference is found the input value is returned unchanged.
-  Value getStorageFromValue(Value value) const {
-    if (valueToStorage.contains(value)) {
-      Value storage = valueToStorage.at(value);
-      LLVM_DEBUG(llvm::dbgs() << "Found storage " << storage << " for value "
-                              << value << "\n");
-      return storage;
-    }
-    LLVM_DEBUG(llvm::dbgs()
-               << "Found no references for value " << value << "\n");
-    return value;
-  }
-
-  Value getOldLivenessRef(Value value) const {
-    if (newRefsToOldLiveness.contains(value)) {
-      return newRefsToOldLiveness.at(value);
+  // Determine what the values accepted by `isTracked` refer to in `top`.
+  OperandMutatedStorageInfo(Operation* top,
+                            llvm::function_ref<bool(Type)> isTracked) {
+    auto tracked = [&](Value value) { return isTracked(value.getType()); };
+    // Function arguments, and the results of the operations which don't pass
+    // their operands on, are storages of their own.
+    top->walk([&](Operation* op) {
+      if (isa<FunctionOpInterface>(op)) {
+        for (Region& region : op->getRegions())
+          for (Block& block : region)
+            for (BlockArgument arg : block.getArguments())
+              if (tracked(arg)) addStorage(arg, &block);
+      }
+      for (Value result : op->getResults()) {
+        if (!tracked(result)) continue;
+        if (!passesOperandsOn(op, result)) addStorage(result, op->getBlock());
+        if (isa<BaseMemRefType>(result.getType()) ||
+            isa<CallOpInterface>(op)) {
+          // What is reachable from here is not analyzed.
+          references[result].insert(kUnknown);
+        }
+      }
+    });
+
+    bool changed = true;
+    auto flow = [&](Value from, Value to) {
+      if (!tracked(from) || !tracked(to)) return;
+      llvm::SmallDenseSet<int> incoming = references[from];
+      auto& existing = references[to];
+      for (int storage : incoming) changed |= existing.insert(storage).second;
+    };
+    while (changed) {
+      changed = false;
+      top->walk([&](Operation* op) {
+        if (auto inPlace = dyn_cast<InPlaceOpInterface>(op)) {
+          if (op->getNumResults() == 1)
+            flow(op->getOperand(inPlace.getInPlaceOperandIndex()),
+                 op->getResult(0));
+        } else {
+          for (Value result : op->getResults()) {
+            if (!tracked(result) || !passesOperandsOn(op, result)) continue;
+            for (Value operand : op->getOperands()) flow(operand, result);
+          }
+        }
+        if (isa<FunctionOpInterface>(op)) return;
+        for (Region& region : op->getRegions()) {
+          for (Block& block : region) {
+            for (BlockArgument arg : block.getArguments())
+              for (Value operand : op->getOperands()) flow(operand, arg);
+            if (!block.mightHaveTerminator()) continue;
+            // Operations in the terminator's regions yield values as well, like
+            // tensor.parallel_insert_slice.
+            block.getTerminator()->walk([&](Operation* yield) {
+              for (Value operand : yield->getOperands()) {
+                for (Value result : op->getResults()) flow(operand, result);
+                for (Region& to : op->getRegions())
+                  for (Block& toBlock : to)
+                    for (BlockArgument arg : toBlock.getArguments())
+                      flow(operand, arg);
+              }
+            });
+          }
+        }
+      });
     }
-    return value;
+    for (auto& [value, storages] : references)
+      for (int storage : storages) referrers[storage].push_back(value);
   }
 
+  // Record that newOp, which mutates one of its operands, replaces oldOp.
   void replaceAllocWithInPlace(Operation* oldOp, Operation* newOp) {
     auto newInPlace = cast<InPlaceOpInterface>(newOp);
     Value mutated = newOp->getOperand(newInPlace.getInPlaceOperandIndex());
     assert(newOp->getNumResults() == 1);
+    Value oldResult = oldOp->getResult(0);
     Value result = newOp->getResult(0);
-    valueToStorage.insert(std::make_pair(result, mutated));
     LLVM_DEBUG(llvm::dbgs()
                << "Adding mapping for " << result << " to " << mutated << "\n");
-    newRefsToOldLiveness.insert(std::make_pair(result, oldOp->getResult(0)));
+
+    // Everything which referred to the old result's storage now refers to the
+    // mutated one.
+    llvm::SmallDenseSet<int> storages = references[mutated];
+    llvm::SmallDenseSet<int> oldStorages = references[oldResult];
+    references.erase(oldResult);
+    for (int oldStorage : oldStorages) {
+      for (Value value : std::exchange(referrers[oldStorage], {})) {
+        if (value == oldResult) value = result;
+        references[value].erase(oldStorage);
+        for (int storage : storages)
+          if (references[value].insert(storage).second)
+            referrers[storage].push_back(value);
+      }
+    }
   }
 
-  bool isSafeToMutateInPlace(Operation* op, Value operand, Liveness* liveness) {
-    Value storage = getStorageFromValue(operand);
-    bool mutatedValueIsDead = liveness->isDeadAfter(operand, op);
-    bool storageIsDead = liveness->isDeadAfter(storage, op);
-    return mutatedValueIsDead && storageIsDead;
+  bool isSafeToMutateInPlace(Operation* op, Value operand) {
+    llvm::SmallDenseSet<int> storages = references[operand];
+    for (int storage : storages) {
+      if (storage == kUnknown) return false;
+      // The next iteration of a loop may use again what comes from outside it.
+      for (Operation* parent = op->getParentOp();
+           parent && !parent->isAncestor(origin[storage]->getParentOp());
+           parent = parent->getParentOp()) {
+        if (isa<LoopLikeOpInterface>(parent)) return false;
+      }
+      for (Value value : referrers[storage])
+        if (isUsedAfter(value, op)) return false;
+    }
+    return true;
   }
 
  private:
-  // Map from an SSA value to the canonical storage value.
-  DenseMap<Value, Value> valueToStorage;
+  static constexpr int kUnknown = -1;
+
+  // Operations of the ciphertexts' own dialect allocate their results, others
+  // merely move ciphertexts around.
+  static bool passesOperandsOn(Operation* op, Value result) {
+    return isa<InPlaceOpInterface>(op) ||
+           &getElementTypeOrSelf(result.getType()).getDialect() !=
+               op->getDialect();
+  }
+
+  void addStorage(Value value, Block* block) {
+    references[value].insert(static_cast<int>(origin.size()));
+    origin.push_back(block);
+  }
+
+  static bool isUsedAfter(Value value, Operation* op) {
+    for (Operation* user : value.getUsers()) {
+      for (Operation* at = op; at; at = at->getParentOp()) {
+        Operation* ancestor = at->getBlock()->findAncestorOpInBlock(*user);
+        if (!ancestor) continue;
+        if (at->isBeforeInBlock(ancestor)) return true;
+        break;
+      }
+    }
+    return false;
+  }
 
-  // Map from results of newly inserted ops to the Values they replaced so as to
-  // allow new ops to inherit old liveness
-  DenseMap<Value, Value> newRefsToOldLiveness;
+  // The storages each value may refer to, and the values which may refer to
+  // each storage.
+  DenseMap<Value, llvm::SmallDenseSet<int>> references;
+  DenseMap<int, SmallVector<Value>> referrers;
+  // The block in which each storage is allocated.
+  SmallVector<Block*> origin;
 };
 
 }  // namespace heir
-- 
2.43.0


From 9e047fcda67e9f97b64f6134265ceb350609a79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:43 +0000
Subject: [PATCH 87/89] fix: relinearize before bootstrapping

---
 .../OptimizeRelinearizationAnalysis.cpp                        | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Analysis/OptimizeRelinearizationAnalysis/OptimizeRelinearizationAnalysis.cpp b/lib/Analysis/OptimizeRelinearizationAnalysis/OptimizeRelinearizationAnalysis.cpp
index 8e8d6b6..ac22ae8 100644
--- a/lib/Analysis/OptimizeRelinearizationAnalysis/OptimizeRelinearizationAnalysis.cpp
+++ b/lib/Analysis/OptimizeRelinearizationAnalysis/OptimizeRelinearizationAnalysis.cpp
@@ -230,7 +230,8 @@ LogicalResult OptimizeRelinearizationAnalysis::solve() {
     }
 
     bool requireLinear = false;
-    if (isa<tensor_ext::RotateOp, secret::YieldOp, mgmt::ModReduceOp>(op)) {
+    if (isa<tensor_ext::RotateOp, secret::YieldOp, mgmt::BootstrapOp,
+            mgmt::ModReduceOp>(op)) {
       requireLinear = true;
     } else {
       SmallVector<OpOperand*, 4> secretOperands;
-- 
2.43.0


From 59552fe2eb5f664939bb21b191e27a88b71fbb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:55 +0000
Subject: [PATCH 88/89] fix: do not truncate residues to the width they already
 have

---
 .../Conversions/ModArithToArith/ModArithToArith.cpp        | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/Dialect/ModArith/Conversions/ModArithToArith/ModArithToArith.cpp b/lib/Dialect/ModArith/Conversions/ModArithToArith/ModArithToArith.cpp
index 71ae178..6aa36d6 100644
--- a/lib/Dialect/ModArith/Conversions/ModArithToArith/ModArithToArith.cpp
+++ b/lib/Dialect/ModArith/Conversions/ModArithToArith/ModArithToArith.cpp
@@ -511,8 +511,11 @@ struct ConvertModSwitch : public OpConversionPattern<ModSwitchOp> {
           modulus = modulus.zext(modWidth);
           auto cmod = intConst(modulus);
           auto remu = arith::RemUIOp::create(b, adaptor.getInput(), cmod);
-          auto trunci = arith::TruncIOp::create(b, rnsIntegerType, remu);
-          rnsElements.push_back(trunci);
+          Value residue = remu;
+          if (rnsWidth < modWidth) {
+            residue = arith::TruncIOp::create(b, rnsIntegerType, remu);
+          }
+          rnsElements.push_back(residue);
         }
         auto tensor =
             tensor::FromElementsOp::create(b, ValueRange(rnsElements));
-- 
2.43.0


From a1a85a7b837a0aa2dcb3cb061e577399b822e852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:50 +0000
Subject: [PATCH 89/89] fix: lower polynomial.to_tensor of values that no
 operation defines

---
 .../Conversions/PolynomialToModArith/PolynomialToModArith.cpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Dialect/Polynomial/Conversions/PolynomialToModArith/PolynomialToModArith.cpp b/lib/Dialect/Polynomial/Conversions/PolynomialToModArith/PolynomialToModArith.cpp
index 278d7ba..2518611 100644
--- a/lib/Dialect/Polynomial/Conversions/PolynomialToModArith/PolynomialToModArith.cpp
+++ b/lib/Dialect/Polynomial/Conversions/PolynomialToModArith/PolynomialToModArith.cpp
@@ -255,7 +255,7 @@ struct ConvertToTensor : public OpConversionPattern<ToTensorOp> {
   LogicalResult matchAndRewrite(
       ToTensorOp op, OpAdaptor adaptor,
       ConversionPatternRewriter& rewriter) const override {
-    rewriter.replaceOp(op, adaptor.getOperands()[0].getDefiningOp());
+    rewriter.replaceOp(op, adaptor.getOperands()[0]);
     return success();
   }
 };
-- 
2.43.0

