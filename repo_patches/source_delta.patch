From d753f6e276472a0e992e0be0257f995baa57fe2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:52 +0000
Subject: [PATCH 01/47] fix: close the last term of an uncompressed
 FixedMultiIndexSet

The dense form never set nzStarts(numTerms), so the last term of every map or
expansion built from an uncompressed set was evaluated as a constant.
---
 src/MultiIndices/FixedMultiIndexSet.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MultiIndices/FixedMultiIndexSet.cpp b/src/MultiIndices/FixedMultiIndexSet.cpp
index c5a1d5a..5aeaa08 100644
--- a/src/MultiIndices/FixedMultiIndexSet.cpp
+++ b/src/MultiIndices/FixedMultiIndexSet.cpp
@@ -89,7 +89,7 @@ void FixedMultiIndexSet<MemorySpace>::SetupTerms()
     unsigned int numTerms = nzOrders.extent(0) / dim;
 
     nzStarts = Kokkos::View<unsigned int*, MemorySpace>("Start of a Multiindex", numTerms+1);
-    Kokkos::parallel_for(numTerms, StartSetter<MemorySpace>(nzStarts,dim));
+    Kokkos::parallel_for(numTerms+1, StartSetter<MemorySpace>(nzStarts,dim));
     Kokkos::parallel_for(dim*numTerms, DimSetter<MemorySpace>(nzDims,dim));
 }
 template<>
@@ -101,7 +101,7 @@ void FixedMultiIndexSet<Kokkos::HostSpace>::SetupTerms()
     nzStarts = Kokkos::View<unsigned int*, Kokkos::HostSpace>("Start of a Multiindex", numTerms+1);
     {
     StartSetter<Kokkos::HostSpace> functor(nzStarts,dim);
-    for(unsigned int i=0; i<numTerms; ++i)
+    for(unsigned int i=0; i<=numTerms; ++i)
         functor(i);
     }
     {
-- 
2.43.0


From 679e2c11c0aeefc7f1854f5a58426687364a22de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:07 +0000
Subject: [PATCH 02/47] fix: include the nugget in MonotoneComponent evaluation
 and diagonal derivative

The inverse and the quadrature-based derivatives already include it, so with a
nonzero nugget the inverse and the gradients disagreed with Evaluate and
LogDeterminant.
---
 MParT/MonotoneComponent.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MParT/MonotoneComponent.h b/MParT/MonotoneComponent.h
index 10c3a15..873a2e2 100644
--- a/MParT/MonotoneComponent.h
+++ b/MParT/MonotoneComponent.h
@@ -284,7 +284,7 @@ public:
 
                 // Fill in entries in the cache that are independent of x_d.  By passing DerivativeFlags::None, we are telling the expansion that no derivatives with wrt x_1,...x_{d-1} will be needed.
                 expansion_.FillCache1(cache.data(), pt, DerivativeFlags::None);
-                output(ptInd) = EvaluateSingle(cache.data(), workspace.data(), pt, pt(dim_-1), coeffs, quad_, expansion_);
+                output(ptInd) = EvaluateSingle(cache.data(), workspace.data(), pt, pt(dim_-1), coeffs, quad_, expansion_, nugget_);
             }
         };
 
@@ -520,7 +520,7 @@ public:
                 derivs(ptInd) = expansion_.DiagonalDerivative(cache.data(), coeffs,1);
 
                 // Compute g(df/dx)
-                derivs(ptInd) = PosFuncType::Evaluate(derivs(ptInd));
+                derivs(ptInd) = PosFuncType::Evaluate(derivs(ptInd)) + nugget_;
             }
         };
 
-- 
2.43.0


From 599c8f97c1a051e669bd034bde79f055cd8b078a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:38 +0000
Subject: [PATCH 03/47] fix: normalise the first-order derivative of orthogonal
 polynomials

OrthogonalPolynomial::Derivative ignored normalize_ for order 1, so a linearised
normalised basis evaluated its linear term with the wrong slope outside the
bounds and disagreed with EvaluateDerivatives.
---
 MParT/OrthogonalPolynomial.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/MParT/OrthogonalPolynomial.h b/MParT/OrthogonalPolynomial.h
index 0ff3a76..d05bcdf 100644
--- a/MParT/OrthogonalPolynomial.h
+++ b/MParT/OrthogonalPolynomial.h
@@ -197,7 +197,11 @@ public:
         if(order==0){
             return 0.0;
         }else if(order==1){
-            return this->phi1_deriv(x);
+            if(normalize_){
+                return this->phi1_deriv(x) / this->Normalization(order);
+            }else{
+                return this->phi1_deriv(x);
+            }
         }else{
             double lag2_val;
             double lag1_val = this->phi0(x);
-- 
2.43.0


From edc5dbc7f60cecd6afaadc1c54dd7cb915528b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:38 +0000
Subject: [PATCH 04/47] fix: write the zero input gradient of an affine map's
 log determinant

AffineMap::LogDeterminantInputGradImpl left its output untouched, so triangular and
composed maps added whatever the reused workspace still held.
---
 src/AffineMap.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/AffineMap.cpp b/src/AffineMap.cpp
index a09e3d7..01a9c3a 100644
--- a/src/AffineMap.cpp
+++ b/src/AffineMap.cpp
@@ -175,7 +175,11 @@ template<typename MemorySpace>
 void AffineMap<MemorySpace>::LogDeterminantInputGradImpl(StridedMatrix<const double, MemorySpace> const& pts,
                                                          StridedMatrix<double, MemorySpace>              output)
 {
-    return;
+    // The log determinant is constant
+    Kokkos::MDRangePolicy<Kokkos::Rank<2>, typename MemoryToExecution<MemorySpace>::Space> policy({0, 0}, {output.extent(0), output.extent(1)});
+    Kokkos::parallel_for(policy, KOKKOS_LAMBDA(const int& i, const int& j) {
+        output(i,j) = 0.0;
+    });
 }
 
 template<typename MemorySpace>
-- 
2.43.0


From dfa6326cb02a9bc4a9443a0923efe06d35eb36d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:38 +0000
Subject: [PATCH 05/47] fix: do not read the output matrix in dgemm when beta
 is zero

0*C is NaN when the uninitialised output happens to hold NaN or Inf, which reached
the gradients of affine maps and functions.
---
 src/Utilities/LinearAlgebra.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Utilities/LinearAlgebra.cpp b/src/Utilities/LinearAlgebra.cpp
index 157cf9a..509c46e 100644
--- a/src/Utilities/LinearAlgebra.cpp
+++ b/src/Utilities/LinearAlgebra.cpp
@@ -18,6 +18,10 @@ void mpart::dgemm(double                                     alpha,
     auto eigB = ConstKokkosToMat<double>(B.view);
     auto eigA = ConstKokkosToMat<double>(A.view);
 
+    // As in BLAS, C is only an output when beta is zero and may hold anything on entry
+    if(beta==0.0)
+        eigC.setZero();
+
     if(A.isTransposed){
         if(B.isTransposed){
             eigC = (beta*eigC + alpha* eigA.transpose() * eigB.transpose() ).eval();
-- 
2.43.0


From d3e42efe2b2e3c9e1cc466ec2853987f31ac5621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:42 +0000
Subject: [PATCH 06/47] fix: overwrite the output in
 MonotoneComponent::DiscreteMixedJacobian

It accumulated into the caller's matrix, so LogDeterminantCoeffGrad with discrete
derivatives returned garbage for uninitialised or reused output memory.
---
 MParT/MonotoneComponent.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MParT/MonotoneComponent.h b/MParT/MonotoneComponent.h
index 873a2e2..b696e74 100644
--- a/MParT/MonotoneComponent.h
+++ b/MParT/MonotoneComponent.h
@@ -969,7 +969,7 @@ public:
 
                 // Add the Integral to the coefficient gradient
                 for(unsigned int termInd=0; termInd<numTerms; ++termInd)
-                    jacView(termInd) += integral(termInd+1);
+                    jacView(termInd) = integral(termInd+1);
             }
         };
 
-- 
2.43.0


From 2ecc726e2c678ff54f3b5fdba50b40953c9b6af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:11 +0000
Subject: [PATCH 07/47] fix: keep the outer stride of row-major Eigen arguments

ConstRowMatToKokkos computed the strides and then ignored them, so passing a block of
a larger matrix (or a sliced numpy array) to Evaluate, Gradient, Inverse, ... read the
wrong entries.
---
 MParT/Utilities/ArrayConversions.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MParT/Utilities/ArrayConversions.h b/MParT/Utilities/ArrayConversions.h
index 307196c..f7261fc 100644
--- a/MParT/Utilities/ArrayConversions.h
+++ b/MParT/Utilities/ArrayConversions.h
@@ -428,10 +428,10 @@ namespace mpart{
     }
 
     template<typename ScalarType, typename MemorySpace = Kokkos::HostSpace>
-    inline Kokkos::View<const ScalarType**, Kokkos::LayoutRight, MemorySpace> ConstRowMatToKokkos(Eigen::Ref<const Eigen::Matrix<ScalarType,Eigen::Dynamic,Eigen::Dynamic,Eigen::RowMajor>, 0, Eigen::Stride<Eigen::Dynamic, 1>> const& ref)
+    inline StridedMatrix<const ScalarType, MemorySpace> ConstRowMatToKokkos(Eigen::Ref<const Eigen::Matrix<ScalarType,Eigen::Dynamic,Eigen::Dynamic,Eigen::RowMajor>, 0, Eigen::Stride<Eigen::Dynamic, 1>> const& ref)
     {
-        Kokkos::LayoutStride strides(ref.rows(), ref.innerStride(), ref.cols(), ref.outerStride());
-        return Kokkos::View<const ScalarType**, Kokkos::LayoutRight, MemorySpace, Kokkos::MemoryTraits<Kokkos::Unmanaged>> (ref.data(), ref.rows(), ref.cols());
+        Kokkos::LayoutStride strides(ref.rows(), ref.outerStride(), ref.cols(), ref.innerStride());
+        return Kokkos::View<const ScalarType**, Kokkos::LayoutStride, MemorySpace, Kokkos::MemoryTraits<Kokkos::Unmanaged>> (ref.data(), strides);
     }
 
     template<typename ScalarType, typename MemorySpace = Kokkos::HostSpace>
-- 
2.43.0


From 5a9295d16092771b483d6e6c83eecad9f78e2002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:20 +0000
Subject: [PATCH 08/47] fix: accept any output layout in SummarizedMap
 gradients

The subviews of a column-major or strided output were assigned to row-major views,
which makes Kokkos abort the process.
---
 src/SummarizedMap.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/SummarizedMap.cpp b/src/SummarizedMap.cpp
index 05bf632..85afc2a 100644
--- a/src/SummarizedMap.cpp
+++ b/src/SummarizedMap.cpp
@@ -164,10 +164,10 @@ void SummarizedMap<MemorySpace>::GradientImpl(StridedMatrix<const double, Memory
     StridedMatrix<const double, MemorySpace>  x1 = Kokkos::subview(pts, std::make_pair(0,int(sumFunc_->inputDim)), Kokkos::ALL());
 
     // Copy results over to the output
-    Kokkos::View<double**, MemorySpace> outputSubX1 = Kokkos::subview(output, std::make_pair(0,int(sumFunc_->inputDim)), Kokkos::ALL());
+    StridedMatrix<double, MemorySpace> outputSubX1 = Kokkos::subview(output, std::make_pair(0,int(sumFunc_->inputDim)), Kokkos::ALL());
     sumFunc_->GradientImpl(x1, outputForSummary, outputSubX1);
 
-    Kokkos::View<double**, MemorySpace> outputSubX2 = Kokkos::subview(output, std::make_pair(int(sumFunc_->inputDim),int(sumFunc_->inputDim+1)), Kokkos::ALL());
+    StridedMatrix<double, MemorySpace> outputSubX2 = Kokkos::subview(output, std::make_pair(int(sumFunc_->inputDim),int(sumFunc_->inputDim+1)), Kokkos::ALL());
     Kokkos::deep_copy(outputSubX2, outputForX2);
 
 }
@@ -229,10 +229,10 @@ void SummarizedMap<MemorySpace>::LogDeterminantInputGradImpl(StridedMatrix<const
     sumFunc_->GradientImpl(x1, outputForSummary, outputForX1);
 
     // Copy results over to the output
-    Kokkos::View<double**, MemorySpace> outputSubX1 = Kokkos::subview(output, std::make_pair(0,int(sumFunc_->inputDim)), Kokkos::ALL());
+    StridedMatrix<double, MemorySpace> outputSubX1 = Kokkos::subview(output, std::make_pair(0,int(sumFunc_->inputDim)), Kokkos::ALL());
     Kokkos::deep_copy(outputSubX1, outputForX1);
 
-    Kokkos::View<double**, MemorySpace> outputSubX2 = Kokkos::subview(output, std::make_pair(int(sumFunc_->inputDim),int(sumFunc_->inputDim+1)), Kokkos::ALL());
+    StridedMatrix<double, MemorySpace> outputSubX2 = Kokkos::subview(output, std::make_pair(int(sumFunc_->inputDim),int(sumFunc_->inputDim+1)), Kokkos::ALL());
     Kokkos::deep_copy(outputSubX2, outputForX2);
 }
 
-- 
2.43.0


From 0399bb56c89a4bd8c561b215ef41ed9232bff79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:29 +0000
Subject: [PATCH 09/47] fix: do not terminate the process when a monotone
 integrand overflows

The exception is thrown inside a Kokkos parallel region, where nothing can catch it, so
one overflowing point ended the process.  Let the non-finite value propagate instead;
setFailOnNaN still selects the exception.
---
 MParT/MonotoneIntegrand.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MParT/MonotoneIntegrand.h b/MParT/MonotoneIntegrand.h
index d32468d..5b689ac 100644
--- a/MParT/MonotoneIntegrand.h
+++ b/MParT/MonotoneIntegrand.h
@@ -214,7 +214,7 @@ private:
     DerivativeFlags::DerivativeType derivType_;
     double nugget_;
     Kokkos::View<double*,MemorySpace> workspace_;
-    bool failOnNaN = true;
+    bool failOnNaN = false;
 
 }; // class MonotoneIntegrand
 
-- 
2.43.0


From 97fac49f5c7683aa11f5285ac36fe1c5378819cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:31 +0000
Subject: [PATCH 10/47] fix: accept an empty batch of points in the cached
 range policy

---
 MParT/Utilities/KokkosHelpers.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MParT/Utilities/KokkosHelpers.h b/MParT/Utilities/KokkosHelpers.h
index 402f43f..6c86f99 100644
--- a/MParT/Utilities/KokkosHelpers.h
+++ b/MParT/Utilities/KokkosHelpers.h
@@ -19,7 +19,8 @@ namespace mpart{
         Kokkos::TeamPolicy<ExecutionSpace> policy;
         policy.set_scratch_size(1,Kokkos::PerTeam(0), Kokkos::PerThread(cacheBytes));
             
-        const unsigned int threadsPerTeam = std::min<unsigned int>(numPts, policy.team_size_recommended(functor, Kokkos::ParallelForTag()));
+        // A team needs at least one thread, even if there are no points
+        const unsigned int threadsPerTeam = std::max<unsigned int>(1, std::min<unsigned int>(numPts, policy.team_size_recommended(functor, Kokkos::ParallelForTag())));
         const unsigned int numTeams = std::ceil( double(numPts) / threadsPerTeam );
             
         policy = Kokkos::TeamPolicy<ExecutionSpace>(numTeams, threadsPerTeam).set_scratch_size(1,Kokkos::PerTeam(0), Kokkos::PerThread(cacheBytes));
-- 
2.43.0


From dfcab73c6ed77fc9ec3050c9da8f0760bb754aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:31 +0000
Subject: [PATCH 11/47] fix: accept padded column major outputs in
 AffineMap::InverseImpl

---
 src/AffineMap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/AffineMap.cpp b/src/AffineMap.cpp
index 01a9c3a..af41a6d 100644
--- a/src/AffineMap.cpp
+++ b/src/AffineMap.cpp
@@ -75,7 +75,7 @@ void AffineMap<MemorySpace>::InverseImpl(StridedMatrix<const double, MemorySpace
     bool copyOut = false;
     StridedMatrix<double,MemorySpace> outLeft;
     if(A_.extent(0)>0){
-        if(output.stride_0()==1){
+        if((output.stride_0()==1)&&(output.stride_1()==output.extent(0))){
             outLeft = output;
         }else{
             outLeft = Kokkos::View<double**, Kokkos::LayoutLeft, MemorySpace>("OutLeft", output.extent(0), output.extent(1));
-- 
2.43.0


From 0f31ab507f160b5c31fcaac340a985ec9d66b290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:31 +0000
Subject: [PATCH 12/47] fix: do not read a leading input that does not exist in
 MonotoneComponent::InverseImpl

---
 MParT/MonotoneComponent.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MParT/MonotoneComponent.h b/MParT/MonotoneComponent.h
index b696e74..0428026 100644
--- a/MParT/MonotoneComponent.h
+++ b/MParT/MonotoneComponent.h
@@ -432,7 +432,8 @@ public:
                 // Compute the inverse
                 Kokkos::View<double*,MemorySpace> workspace(team_member.thread_scratch(1), workspaceSize);
                 auto eval = SingleEvaluator<decltype(pt),decltype(coeffs)>(workspace.data(), cache.data(), pt, coeffs, quad_, expansion_, nugget_);
-                output(ptInd) = RootFinding::InverseSingleBracket<MemorySpace>(ys(ptInd), eval, pt(pt.extent(0)-1), xtol, ytol, info);
+                const double guess = (pt.extent(0)>0) ? pt(pt.extent(0)-1) : 0.0;
+                output(ptInd) = RootFinding::InverseSingleBracket<MemorySpace>(ys(ptInd), eval, guess, xtol, ytol, info);
             }
         };
 
-- 
2.43.0


From 4f0c9352985adfb584ac4092e2be86018fcf6ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:31 +0000
Subject: [PATCH 13/47] fix: return the coefficient gradient from the Eigen
 version of PullbackDensity::LogDensityCoeffGrad

---
 src/Distributions/PullbackDensity.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Distributions/PullbackDensity.cpp b/src/Distributions/PullbackDensity.cpp
index bde74a7..90926e0 100644
--- a/src/Distributions/PullbackDensity.cpp
+++ b/src/Distributions/PullbackDensity.cpp
@@ -46,11 +46,11 @@ StridedMatrix<double, MemorySpace> PullbackDensity<MemorySpace>::LogDensityCoeff
 template<>
 Eigen::RowMatrixXd PullbackDensity<Kokkos::HostSpace>::LogDensityCoeffGrad(Eigen::Ref<const Eigen::RowMatrixXd> const &pts) {
     // Allocate output
-    Eigen::RowMatrixXd output(pts.rows(), pts.cols());
+    Eigen::RowMatrixXd output(map_->numCoeffs, pts.cols());
     StridedMatrix<const double, Kokkos::HostSpace> ptsView = ConstRowMatToKokkos<double, Kokkos::HostSpace>(pts);
     StridedMatrix<double, Kokkos::HostSpace> outView = MatToKokkos<double, Kokkos::HostSpace>(output);
     // Call the LogDensity function
-    LogDensityInputGradImpl(ptsView, outView);
+    LogDensityCoeffGradImpl(ptsView, outView);
     return output;
 }
 
-- 
2.43.0


From 92ff11f80f01f565047c634c269486c009eb5840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:31 +0000
Subject: [PATCH 14/47] fix: accept any memory layout in GaussianSamplerDensity

---
 MParT/Distributions/GaussianSamplerDensity.h |  4 +++-
 src/Distributions/GaussianSamplerDensity.cpp | 16 ++++++++--------
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/MParT/Distributions/GaussianSamplerDensity.h b/MParT/Distributions/GaussianSamplerDensity.h
index bad4a8f..6e5496f 100644
--- a/MParT/Distributions/GaussianSamplerDensity.h
+++ b/MParT/Distributions/GaussianSamplerDensity.h
@@ -74,7 +74,9 @@ class GaussianSamplerDensity: public SampleGenerator<MemorySpace>, public Densit
 #endif // KOKKOS_VERSION
 
     void Factorize(StridedMatrix<double, MemorySpace> Cov) {
-        covChol_.compute(Cov);
+        Kokkos::View<double**, Kokkos::LayoutLeft, MemorySpace> covLeft("Covariance", Cov.extent(0), Cov.extent(1));
+        Kokkos::deep_copy(covLeft, Cov);
+        covChol_.compute(covLeft);
         logDetCov_ = std::log(covChol_.determinant());
     }
 
diff --git a/src/Distributions/GaussianSamplerDensity.cpp b/src/Distributions/GaussianSamplerDensity.cpp
index a4a725e..c3156b8 100644
--- a/src/Distributions/GaussianSamplerDensity.cpp
+++ b/src/Distributions/GaussianSamplerDensity.cpp
@@ -45,9 +45,10 @@ void GaussianSamplerDensity<MemorySpace>::LogDensityImpl(StridedMatrix<const dou
     }
 
     ReduceDim<ReduceDimMap::norm,MemorySpace,0> rr(diff, -0.5);
-    Kokkos::parallel_reduce(M, rr, &output(0));
+    Kokkos::View<double*, MemorySpace> sums("sums", N); // The reduction needs contiguous memory
+    Kokkos::parallel_reduce(M, rr, sums.data());
     Kokkos::parallel_for( "log terms", N, KOKKOS_LAMBDA (const int& j) {
-        output(j) -= 0.5*( M*logtau_ + logDetCov_ );
+        output(j) = sums(j) - 0.5*( M*logtau_ + logDetCov_ );
     });
 }
 
@@ -73,12 +74,11 @@ void GaussianSamplerDensity<MemorySpace>::LogDensityInputGradImpl(StridedMatrix<
     }
 
     if(!idCov_) {
-        covChol_.solveInPlace(output);
+        Kokkos::deep_copy(output, covChol_.solve(output));
     }
 }
 
 
-// Currently this requires that output be a LayoutLeft view
 template<typename MemorySpace>
 void GaussianSamplerDensity<MemorySpace>::SampleImpl(StridedMatrix<double, MemorySpace> output_) {
     // Sample from the distribution
@@ -110,8 +110,8 @@ void GaussianSamplerDensity<MemorySpace>::SampleImpl(StridedMatrix<double, Memor
     }
     // Otherwise, we assume dense covariance
     else {
-        // Enforce that the output is the correct layout!
-        Kokkos::View<double**, Kokkos::LayoutLeft, MemorySpace> output = output_;
+        // The Cholesky factor needs a column major matrix
+        Kokkos::View<double**, Kokkos::LayoutLeft, MemorySpace> output("normals", M, N);
         // Sample from the standard normal
         Kokkos::parallel_for(policy, KOKKOS_LAMBDA(const int j, const int i) {
             GeneratorType rgen = rand_pool.get_state();
@@ -122,11 +122,11 @@ void GaussianSamplerDensity<MemorySpace>::SampleImpl(StridedMatrix<double, Memor
         auto mul = covChol_.multiplyL(output);
         // Add the mean (if nonzero)
         if(mean_.extent(0) == 0){
-            Kokkos::deep_copy(output, mul);
+            Kokkos::deep_copy(output_, mul);
         }
         else {
             Kokkos::parallel_for(policy, KOKKOS_LAMBDA(const int j, const int i) {
-                output(i,j) = mul(i,j) + mean_(i);
+                output_(i,j) = mul(i,j) + mean_(i);
             });
         }
     }
-- 
2.43.0


From 580803ed156987e1bfcf4d5ca8a61cb943db2655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:19 +0000
Subject: [PATCH 15/47] fix: stop subdividing when an adaptive quadrature's
 error is not a number

---
 MParT/Quadrature.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/MParT/Quadrature.h b/MParT/Quadrature.h
index 81b46fb..61c2fe5 100644
--- a/MParT/Quadrature.h
+++ b/MParT/Quadrature.h
@@ -623,8 +623,8 @@ public:
             // Check to see if the error is small enough or if we've hit the maximum number of subdivisions
             this->EstimateError(intCoarse, intFine, error, errorTol);
 
-            // Checking for convergence or other termination criteria
-            if((((error<errorTol)||(currLevel==this->maxSub_-1))&&(currLevel>=this->minSub_))||(std::abs(ub-lb)<1e-14)){
+            // Checking for convergence or other termination criteria.  More subdivisions cannot help if the error is nan.
+            if((((error<errorTol)||std::isnan(error)||(currLevel==this->maxSub_-1))&&(currLevel>=this->minSub_))||(std::abs(ub-lb)<1e-14)){
 
                 for(unsigned int i=0; i<this->fdim_; ++i){
                     res[i] += intFine[i];
@@ -913,8 +913,8 @@ public:
             // Check to see if the error is small enough or if we've hit the maximum number of subdivisions
             this->EstimateError(intCoarse, intFine, error, errorTol);
 
-            // Checking for convergence or other termination criteria
-            if((((error<errorTol)||(currLevel==this->maxSub_-1))&&(currLevel>=this->minSub_))||(std::abs(ub-lb)<1e-14)){
+            // Checking for convergence or other termination criteria.  More subdivisions cannot help if the error is nan.
+            if((((error<errorTol)||std::isnan(error)||(currLevel==this->maxSub_-1))&&(currLevel>=this->minSub_))||(std::abs(ub-lb)<1e-14)){
 
                 for(unsigned int i=0; i<this->fdim_; ++i){
                     res[i] += intFine[i];
-- 
2.43.0


From 1bda249c809aeef4726e66db0c68bed63e880680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:19 +0000
Subject: [PATCH 16/47] fix: report not-a-number when inverting a target that
 is not a number

---
 MParT/Utilities/RootFinding.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MParT/Utilities/RootFinding.h b/MParT/Utilities/RootFinding.h
index 384d755..cfed269 100644
--- a/MParT/Utilities/RootFinding.h
+++ b/MParT/Utilities/RootFinding.h
@@ -129,7 +129,7 @@ KOKKOS_INLINE_FUNCTION double InverseSingleBracket(double yd, FunctorType f, dou
     int bracket_info = 0;
     FindBracket<MemorySpace>(f, xlb, ylb, xub, yub, yd, bracket_info);
     
-    if((bracket_info<0)||(((ylb>yd)||(yub<yd)))){
+    if((bracket_info<0)||(!((ylb<=yd)&&(yub>=yd)))){
         info = -2;
         return std::numeric_limits<double>::quiet_NaN();
     }
-- 
2.43.0


From b6405d69fae83fc3ad302a02ff1a60806c9af4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:19 +0000
Subject: [PATCH 17/47] fix: keep the regula falsi point inside the bracket in
 the ITP root finder

---
 MParT/Utilities/RootFinding.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MParT/Utilities/RootFinding.h b/MParT/Utilities/RootFinding.h
index cfed269..1275a08 100644
--- a/MParT/Utilities/RootFinding.h
+++ b/MParT/Utilities/RootFinding.h
@@ -93,7 +93,7 @@ KOKKOS_INLINE_FUNCTION double Find_x_ITP(double xlb, double xub, double yd, doub
                                          double k1, double k2, double nhalf, double n0, int it, double xtol) {
 
         double xb = 0.5*(xub+xlb); // bisection point
-        double xf = (xub*ylb - xlb*yub)/(ylb-yub); // regula-falsi point
+        double xf = (xub*(ylb-yd) - xlb*(yub-yd))/(ylb-yub); // regula-falsi point
 
         double sigma = ((xb-xf)>0)?1.0:-1.0; // sign(xb-xf)
         double delta = fmin(k1*pow((xub-xlb), k2), fabs(xb-xf));
-- 
2.43.0


From 5b82f406d84a7196c46a559d461e4a38d629ef99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:35 +0000
Subject: [PATCH 18/47] fix: reject a coefficient vector of the wrong length
 even when none was set before

---
 src/ParameterizedFunctionBase.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/ParameterizedFunctionBase.cpp b/src/ParameterizedFunctionBase.cpp
index b3bea3b..a5151e8 100644
--- a/src/ParameterizedFunctionBase.cpp
+++ b/src/ParameterizedFunctionBase.cpp
@@ -187,14 +187,14 @@ Eigen::RowMatrixXd ParameterizedFunctionBase<mpart::DeviceSpace>::Gradient(Eigen
 template<typename MemorySpace>
 void ParameterizedFunctionBase<MemorySpace>::SetCoeffs(Kokkos::View<const double*, MemorySpace> coeffs){
 
-    // If coefficients already exist, make sure the sizes match
-    if(this->savedCoeffs.is_allocated()){
-        if(coeffs.size() != numCoeffs){
-            std::stringstream msg;
-            msg << "Error in ParameterizedFunctionBase<MemorySpace>::SetCoeffs.  Expected coefficient vector with size " << numCoeffs << ", but new coefficients have size " << coeffs.size() << ".";
-            throw std::invalid_argument(msg.str());
-        }
+    // Make sure the sizes match
+    if(coeffs.size() != numCoeffs){
+        std::stringstream msg;
+        msg << "Error in ParameterizedFunctionBase<MemorySpace>::SetCoeffs.  Expected coefficient vector with size " << numCoeffs << ", but new coefficients have size " << coeffs.size() << ".";
+        throw std::invalid_argument(msg.str());
+    }
 
+    if(this->savedCoeffs.is_allocated()){
         if(this->savedCoeffs.size() != numCoeffs)
             Kokkos::resize(this->savedCoeffs, numCoeffs);
     }else{
-- 
2.43.0


From 9a19a761d8f2d11308f61e2ee6620d305eafa73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:35 +0000
Subject: [PATCH 19/47] fix: reject a summarized map whose summary function has
 no coefficients

---
 src/SummarizedMap.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/SummarizedMap.cpp b/src/SummarizedMap.cpp
index 85afc2a..c4101ce 100644
--- a/src/SummarizedMap.cpp
+++ b/src/SummarizedMap.cpp
@@ -70,6 +70,10 @@ template<typename MemorySpace>
 void SummarizedMap<MemorySpace>::SummarizePts(StridedMatrix<const double, MemorySpace> const& pts,
                                               StridedMatrix<double, MemorySpace>              output)
 {
+    // Make sure the summary function is ready to be evaluated
+    if(!sumFunc_->CheckCoefficients())
+        throw std::runtime_error("Error in SummarizedMap, the coefficients of the summary function have not been set yet.  Make sure to call SetCoeffs() on the summary function first.");
+
     // Split pts into the part that is summarized and the part that is not
 
     StridedMatrix<const double, MemorySpace> ptsToSummarize = Kokkos::subview(pts, std::make_pair(0, int(sumFunc_->inputDim)), Kokkos::ALL());
-- 
2.43.0


From a1c2cc94026e20b683287c7379ca28bb83c425fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:47 +0000
Subject: [PATCH 20/47] fix: only report terms whose backward neighbors are all
 active in MultiIndexSet::ReducedMargin

---
 src/MultiIndices/MultiIndexSet.cpp | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/MultiIndices/MultiIndexSet.cpp b/src/MultiIndices/MultiIndexSet.cpp
index 184b6e0..279de9a 100644
--- a/src/MultiIndices/MultiIndexSet.cpp
+++ b/src/MultiIndices/MultiIndexSet.cpp
@@ -532,18 +532,9 @@ std::vector<MultiIndex> MultiIndexSet::ReducedMargin() const
 
   for(unsigned int globalInd=0; globalInd<global2active.size(); ++globalInd){
 
-    // If this is an inactive multiindex
-    if(!IsActive(globalInd)){
-
-      // Check the backward neighbors
-      bool allActive = true;
-      for(auto neighbor : inEdges[globalInd])
-        allActive = (allActive && IsActive(neighbor));
-
-      if(allActive)
-        output.push_back(allMultis.at(globalInd));
-
-    }
+    // If this is an inactive multiindex in the limiting set whose backward neighbors are all active
+    if(!IsActive(globalInd) && IsAdmissible(globalInd))
+      output.push_back(allMultis.at(globalInd));
   }
 
   return output;
-- 
2.43.0


From cb655d1779fb55a2ae2c4b713413efa4ef65a773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:47 +0000
Subject: [PATCH 21/47] fix: do not iterate over edges that change while
 forcibly activating multi-indices

---
 src/MultiIndices/MultiIndexSet.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/MultiIndices/MultiIndexSet.cpp b/src/MultiIndices/MultiIndexSet.cpp
index 279de9a..e84c47c 100644
--- a/src/MultiIndices/MultiIndexSet.cpp
+++ b/src/MultiIndices/MultiIndexSet.cpp
@@ -698,7 +698,8 @@ std::vector<unsigned int> MultiIndexSet::ForciblyExpand(unsigned int const activ
   unsigned int globalIndex = active2global.at(activeIndex);
 
   // loop through the forward neighbors of this index
-  std::set<int>& tempSet = outEdges.at(globalIndex);
+  // (a copy, because activating a neighbor changes the edges)
+  std::set<int> tempSet = outEdges.at(globalIndex);
   for(int neighbor : tempSet)
     ForciblyActivate(neighbor,newIndices);
 
@@ -717,7 +718,7 @@ void MultiIndexSet::ForciblyActivate(int globalIndex, std::vector<unsigned int>
     newIndices.push_back(global2active.at(globalIndex));
 
     // now, fill in all of the previous neighbors
-    std::set<int>& tempSet = inEdges.at(globalIndex);
+    std::set<int> tempSet = inEdges.at(globalIndex);
     for(int ind : tempSet)
       ForciblyActivate(ind,newIndices);
 
-- 
2.43.0


From 4647b3536d0840bfd4e4939216fd9ce655ca99c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:47 +0000
Subject: [PATCH 22/47] fix: reject multi-indices that are not in the set or
 not admissible

---
 src/MultiIndices/MultiIndexSet.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/MultiIndices/MultiIndexSet.cpp b/src/MultiIndices/MultiIndexSet.cpp
index e84c47c..b2e1f18 100644
--- a/src/MultiIndices/MultiIndexSet.cpp
+++ b/src/MultiIndices/MultiIndexSet.cpp
@@ -367,8 +367,11 @@ void MultiIndexSet::Activate(MultiIndex const& multiIndex)
 {
   auto iter = multi2global.find(multiIndex);
 
-  assert(iter!=multi2global.end());
-  assert(IsAdmissible(iter->second));
+  if((iter==multi2global.end()) || !IsAdmissible(iter->second)){
+    std::stringstream msg;
+    msg << "Invalid multi-index passed to MultiIndexSet::Activate.  The multi-index " << multiIndex << " is not admissible.\n";
+    throw std::invalid_argument(msg.str());
+  }
 
   Activate(iter->second);
 }
@@ -582,7 +585,11 @@ std::vector<unsigned int> MultiIndexSet::BackwardNeighbors(MultiIndex const& mul
 {
   auto iter = multi2global.find(multiIndex);
 
-  assert(iter!=multi2global.end());
+  if(iter==multi2global.end()){
+    std::stringstream msg;
+    msg << "Invalid multi-index passed to MultiIndexSet::BackwardNeighbors.  The multi-index " << multiIndex << " is not in the set.\n";
+    throw std::invalid_argument(msg.str());
+  }
 
   unsigned int globalInd = iter->second;
   std::vector<unsigned int> output;
@@ -727,7 +734,11 @@ void MultiIndexSet::ForciblyActivate(int globalIndex, std::vector<unsigned int>
 
 std::vector<unsigned int> MultiIndexSet::ForciblyActivate(MultiIndex const& multiIndex){
 
-  assert(limiter(multiIndex));
+  if(!limiter(multiIndex)){
+    std::stringstream msg;
+    msg << "Invalid multi-index passed to MultiIndexSet::ForciblyActivate.  The multi-index " << multiIndex << " is outside the limiter.\n";
+    throw std::invalid_argument(msg.str());
+  }
 
   auto iter = multi2global.find(multiIndex);
   std::vector<unsigned int> newIndices;
-- 
2.43.0


From 41f74f0ca8c43754a4de80e7482d900e12d929bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:47 +0000
Subject: [PATCH 23/47] fix: keep terms outside a new limiter inactive and
 leave the set alone when the limiter is rejected

---
 src/MultiIndices/MultiIndexSet.cpp | 31 ++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/MultiIndices/MultiIndexSet.cpp b/src/MultiIndices/MultiIndexSet.cpp
index b2e1f18..0afe6de 100644
--- a/src/MultiIndices/MultiIndexSet.cpp
+++ b/src/MultiIndices/MultiIndexSet.cpp
@@ -181,21 +181,24 @@ FixedMultiIndexSet<Kokkos::HostSpace> MultiIndexSet::Fix(bool compress) const
 
 void MultiIndexSet::SetLimiter(LimiterType const& newLimiter){
 
+  // make sure all active terms in the set obey the new limiter before changing anything
+  for(auto& globalInd : active2global)
+  {
+    if(!newLimiter(allMultis.at(globalInd))){
+      std::stringstream msg;
+      msg << "Invalid limiter passed to MultiIndexSet::SetLimiter.  The active multi-index, ";
+      msg << allMultis.at(globalInd) << ", is not valid with the new limiter.\n";
+      throw std::invalid_argument(msg.str());
+    }
+  }
+
   // copy the limiter
   limiter = newLimiter;
 
-  //  make sure no active terms in the set currently obey the new limiter.
   //  If a term is inactive, remove all edges tied to it
   for(unsigned int globalInd=0; globalInd<allMultis.size(); ++globalInd)
   {
     if(IsActive(globalInd)){
-      if(!newLimiter(allMultis.at(globalInd))){
-        std::stringstream msg;
-        msg << "Invalid limiter passed to MultiIndexSet::SetLimiter.  The active multi-index, ";
-        msg << allMultis.at(globalInd).Vector() << ", is not valid with the new limiter.\n";
-        throw std::invalid_argument(msg.str());
-      }
-
       // Add any newly admissible inactive forward neighbors
       AddForwardNeighbors(globalInd,true);
 
@@ -205,6 +208,9 @@ void MultiIndexSet::SetLimiter(LimiterType const& newLimiter){
         for(int inNode : inEdges[globalInd])
           outEdges[inNode].erase(globalInd);
         inEdges[globalInd].clear();
+        for(int outNode : outEdges[globalInd])
+          inEdges[outNode].erase(globalInd);
+        outEdges[globalInd].clear();
       }
     }
   }
@@ -262,16 +268,17 @@ int MultiIndexSet::AddActive(MultiIndex const& newNode)
 
 int MultiIndexSet::AddInactive(MultiIndex const& newNode)
 {
+  // Terms that were stored under an earlier limiter may not be feasible anymore
+  if(!limiter(newNode))
+    return -1;
+
   auto iter = multi2global.find(newNode);
 
   if(iter!=multi2global.end()){
     return iter->second;
 
-  }else if(limiter(newNode)){
-    return AddMulti(newNode);
-
   }else{
-    return -1;
+    return AddMulti(newNode);
   }
 }
 
-- 
2.43.0


From 236a183d7ca3a0e86990d8202ed4bd6396b6e213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:47 +0000
Subject: [PATCH 24/47] fix: list each new term once in MultiIndexSet::Expand

---
 src/MultiIndices/MultiIndexSet.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/MultiIndices/MultiIndexSet.cpp b/src/MultiIndices/MultiIndexSet.cpp
index 0afe6de..3501504 100644
--- a/src/MultiIndices/MultiIndexSet.cpp
+++ b/src/MultiIndices/MultiIndexSet.cpp
@@ -697,6 +697,9 @@ std::vector<unsigned int> MultiIndexSet::Expand()
     // Activate those terms
     std::vector<unsigned int> allNewInds;
     for(auto& neighbor : toExpand){ 
+        // A term can be the forward neighbor of several frontier terms
+        if(IsActive(neighbor))
+            continue;
         Activate(neighbor);
         allNewInds.push_back(global2active.at(neighbor));
     }
-- 
2.43.0


From b0bfd0c96e17b4379afec5737d3208d45e68e2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:47 +0000
Subject: [PATCH 25/47] fix: reject an index equal to the length in
 MultiIndex::Get and Set

---
 src/MultiIndices/MultiIndex.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MultiIndices/MultiIndex.cpp b/src/MultiIndices/MultiIndex.cpp
index fcc208c..72bd341 100644
--- a/src/MultiIndices/MultiIndex.cpp
+++ b/src/MultiIndices/MultiIndex.cpp
@@ -67,7 +67,7 @@ std::vector<unsigned int>MultiIndex::Vector() const
 
 bool MultiIndex::Set(unsigned int ind, unsigned int val)
 {
-  if(ind>length){
+  if(ind>=length){
     throw std::out_of_range("Tried to set the value of index " + std::to_string(ind) + " on an multiindex with only " + std::to_string(length) + " components.");
     return false;
   }else{
@@ -129,7 +129,7 @@ unsigned int MultiIndex::NumNz() const
 
 unsigned int MultiIndex::MultiIndex::Get(unsigned ind) const
 {
-  if(ind>length){
+  if(ind>=length){
     throw std::out_of_range("Tried to access index " + std::to_string(ind) + " of a multiindex with only " + std::to_string(length) + " components.");
     return 0;
 
-- 
2.43.0


From 81bb28c34af5c4246e6ae32470b9b177189c87d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:58 +0000
Subject: [PATCH 26/47] fix: do not read past the last term in
 FixedMultiIndexSet::MultiToIndex

---
 src/MultiIndices/FixedMultiIndexSet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MultiIndices/FixedMultiIndexSet.cpp b/src/MultiIndices/FixedMultiIndexSet.cpp
index 5aeaa08..7e660d5 100644
--- a/src/MultiIndices/FixedMultiIndexSet.cpp
+++ b/src/MultiIndices/FixedMultiIndexSet.cpp
@@ -216,7 +216,7 @@ int FixedMultiIndexSet<MemorySpace>::MultiToIndex(std::vector<unsigned int> cons
             nnz += (val>0) ? 1:0;
 
         // Now search for the matching multi
-        for(unsigned int i=0; i<nzStarts.extent(0); ++i){
+        for(unsigned int i=0; i+1<nzStarts.extent(0); ++i){
 
             // First, check if the number of nonzeros matches
             if((nzStarts(i+1)-nzStarts(i))==nnz){
-- 
2.43.0


From 3c0566d141b003b0c6b313c34edc6b38277d802e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:38 +0000
Subject: [PATCH 27/47] fix: do not start Kokkos again in Initialize when the
 application has started it

---
 MParT/Initialization.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MParT/Initialization.h b/MParT/Initialization.h
index 5f3cc26..ea2dca5 100644
--- a/MParT/Initialization.h
+++ b/MParT/Initialization.h
@@ -78,7 +78,7 @@ int main( int argc, char* argv[] ) {
     template<typename FirstArgType, typename... Arguments>
     void Initialize(FirstArgType& arg1, Arguments... args)
     {
-        if(!GetInitializeStatusObject().Get()){
+        if(!GetInitializeStatusObject().Get() && !Kokkos::is_initialized()){
         
             // Initialize kokkos
             Kokkos::initialize(arg1, args...);
@@ -111,7 +111,7 @@ int main( int argc, char* argv[] ) {
             }
 
             if(shouldPrint)
-                std::cout << "WARNING: mpart::Initialize has already been called.  Any changes to runtime settings (e.g., \"--kokkos-threads\") will not go into effect."  << std::endl;
+                std::cout << "WARNING: mpart::Initialize or Kokkos::initialize has already been called.  Any changes to runtime settings (e.g., \"--kokkos-threads\") will not go into effect."  << std::endl;
         }
     }
 
-- 
2.43.0


From 220b021d75390c6ae729ffd74b9b575dcb53e4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:37 +0000
Subject: [PATCH 28/47] fix: TriangularMap::save wrote its components twice, so
 unset maps could not be loaded and streams of several objects went out of
 step

---
 MParT/TriangularMap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MParT/TriangularMap.h b/MParT/TriangularMap.h
index 6e820eb..39a9e1f 100644
--- a/MParT/TriangularMap.h
+++ b/MParT/TriangularMap.h
@@ -126,7 +126,7 @@ public:
     template<class Archive>
     void save(Archive & ar) const
     {
-        ar(cereal::base_class<ConditionalMapBase<MemorySpace>>(this), comps_);
+        ar(cereal::base_class<ConditionalMapBase<MemorySpace>>(this));
 
         bool moveCoeffs = (this->savedCoeffs.is_allocated() && (this->savedCoeffs.size()>0));
         ar(comps_, moveCoeffs);
-- 
2.43.0


From 482d70f2270d4fd07fdbab6959f6babed8a656f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:55 +0000
Subject: [PATCH 29/47] fix: operations reject points, sensitivities and
 conditioning inputs of the wrong size instead of accessing memory out of
 bounds

---
 MParT/MonotoneComponent.h         |  2 ++
 MParT/ParameterizedFunctionBase.h | 10 ++++++++++
 src/AffineMap.cpp                 |  3 +++
 src/ConditionalMapBase.cpp        |  4 ++++
 src/ParameterizedFunctionBase.cpp | 18 ++++++++++++++++++
 src/SummarizedMap.cpp             |  3 +++
 src/TriangularMap.cpp             |  3 +++
 7 files changed, 43 insertions(+)

diff --git a/MParT/MonotoneComponent.h b/MParT/MonotoneComponent.h
index 0428026..e246e27 100644
--- a/MParT/MonotoneComponent.h
+++ b/MParT/MonotoneComponent.h
@@ -385,6 +385,8 @@ public:
         const unsigned int numXs = xs.extent(1); // The number of input points
 
         // Check to make sure the output and and input have the right sizes.
+        if(xs.extent(0)+1 < dim_)
+            this->CheckSize("Inverse", "x1", xs.extent(0), xs.extent(1), dim_-1, numPts);
         if((numXs!=1)&&(numXs!=numPts)){
             std::stringstream msg;
             msg << "Invalid argument sizes given to MonotoneComponent::Inverse. The number of x points is " << numXs << ", but the number of y points is " << numPts << ".  If the number of xs is not 1 then it must match the number of ys.";
diff --git a/MParT/ParameterizedFunctionBase.h b/MParT/ParameterizedFunctionBase.h
index 94e1438..86843df 100644
--- a/MParT/ParameterizedFunctionBase.h
+++ b/MParT/ParameterizedFunctionBase.h
@@ -244,6 +244,16 @@ namespace mpart {
         /** Checks to see if the coefficients have been initialized yet. If not, an exception is thrown. */
         void CheckCoefficients(std::string const& functionName) const;
 
+        /** Throws an exception if a matrix passed to one of the functions of this class does not have the expected size.
+        @param functionName The name of the function, used in the error message.
+        @param argName The name of the argument, used in the error message.
+        @param rows The number of rows of the argument.
+        @param cols The number of columns of the argument.
+        @param expectedRows The number of rows that are needed.
+        @param expectedCols The number of columns that are needed.
+        */
+        static void CheckSize(std::string const& functionName, std::string const& argName, size_t rows, size_t cols, size_t expectedRows, size_t expectedCols);
+
         Kokkos::View<double*, MemorySpace> savedCoeffs;
         
     }; // class ParameterizedFunctionBase
diff --git a/src/AffineMap.cpp b/src/AffineMap.cpp
index af41a6d..59359b5 100644
--- a/src/AffineMap.cpp
+++ b/src/AffineMap.cpp
@@ -69,6 +69,9 @@ void AffineMap<MemorySpace>::InverseImpl(StridedMatrix<const double, MemorySpace
                                          StridedMatrix<double, MemorySpace>              output)
 {
 
+    if((A_.extent(0)>0)&&(x1.extent(0)<this->inputDim-this->outputDim))
+        this->CheckSize("Inverse", "x1", x1.extent(0), x1.extent(1), this->inputDim-this->outputDim, r.extent(1));
+
     int numPts = r.extent(1);
 
     // Make sure we work with a column major output matrix if there is a linear component
diff --git a/src/ConditionalMapBase.cpp b/src/ConditionalMapBase.cpp
index ff09ddc..13bd5da 100644
--- a/src/ConditionalMapBase.cpp
+++ b/src/ConditionalMapBase.cpp
@@ -9,6 +9,7 @@ template<>
 Kokkos::View<double*, Kokkos::HostSpace> ConditionalMapBase<Kokkos::HostSpace>::LogDeterminant(StridedMatrix<const double, Kokkos::HostSpace> const& pts)
 {
     this->CheckCoefficients("LogDeterminant");
+    this->CheckSize("LogDeterminant", "pts", pts.extent(0), pts.extent(1), this->inputDim, pts.extent(1));
     Kokkos::View<double*, Kokkos::HostSpace> output("Log Determinants", pts.extent(1));
     LogDeterminantImpl(pts, output);
     return output;
@@ -74,6 +75,7 @@ StridedMatrix<double, Kokkos::HostSpace> ConditionalMapBase<Kokkos::HostSpace>::
         msg << "x1 and r have different numbers of columns.  x1.extent(1)=" << x1.extent(1) << ", but r.extent(1)=" << r.extent(1);
         throw std::invalid_argument(msg.str());
     }
+    this->CheckSize("Inverse", "r", r.extent(0), r.extent(1), this->outputDim, r.extent(1));
 
     Kokkos::View<double**, Kokkos::HostSpace> output("Map Inverse Evaluations", this->outputDim, r.extent(1));
     InverseImpl(x1,r, output);
@@ -145,6 +147,7 @@ template<>
 StridedMatrix<double, Kokkos::HostSpace> ConditionalMapBase<Kokkos::HostSpace>::LogDeterminantCoeffGrad(StridedMatrix<const double, Kokkos::HostSpace> const& pts)
 {
     this->CheckCoefficients("LogDeterminantCoeffGrad");
+    this->CheckSize("LogDeterminantCoeffGrad", "pts", pts.extent(0), pts.extent(1), this->inputDim, pts.extent(1));
     Kokkos::View<double**, Kokkos::HostSpace> output("LogDeterminantCoeffGrad", this->numCoeffs, pts.extent(1));
     LogDeterminantCoeffGradImpl(pts,output);
     return output;
@@ -221,6 +224,7 @@ template<>
 StridedMatrix<double, Kokkos::HostSpace> ConditionalMapBase<Kokkos::HostSpace>::LogDeterminantInputGrad(StridedMatrix<const double, Kokkos::HostSpace> const& pts)
 {
     this->CheckCoefficients("LogDeterminantInputGrad");
+    this->CheckSize("LogDeterminantInputGrad", "pts", pts.extent(0), pts.extent(1), this->inputDim, pts.extent(1));
 
     Kokkos::View<double**, Kokkos::HostSpace> output("LogDeterminantInputGrad", pts.extent(0), pts.extent(1));
     LogDeterminantInputGradImpl(pts, output);
diff --git a/src/ParameterizedFunctionBase.cpp b/src/ParameterizedFunctionBase.cpp
index a5151e8..a156787 100644
--- a/src/ParameterizedFunctionBase.cpp
+++ b/src/ParameterizedFunctionBase.cpp
@@ -27,6 +27,7 @@ template<>
 StridedMatrix<double, Kokkos::HostSpace> ParameterizedFunctionBase<Kokkos::HostSpace>::Evaluate(StridedMatrix<const double, Kokkos::HostSpace> const& pts)
 {
     CheckCoefficients("Evaluate");
+    this->CheckSize("Evaluate", "pts", pts.extent(0), pts.extent(1), this->inputDim, pts.extent(1));
 
     Kokkos::View<double**, Kokkos::HostSpace> output("Map Evaluations", outputDim, pts.extent(1));
     EvaluateImpl(pts, output);
@@ -37,6 +38,7 @@ template<>
 Eigen::RowMatrixXd ParameterizedFunctionBase<Kokkos::HostSpace>::Evaluate(Eigen::Ref<const Eigen::RowMatrixXd> const& pts)
 {
     CheckCoefficients("Evaluate");
+    this->CheckSize("Evaluate", "pts", pts.rows(), pts.cols(), this->inputDim, pts.cols());
 
     Eigen::RowMatrixXd output(outputDim, pts.cols());
     StridedMatrix<const double, Kokkos::HostSpace> ptsView = ConstRowMatToKokkos<double,Kokkos::HostSpace>(pts);
@@ -106,6 +108,8 @@ template<>
 StridedMatrix<double, Kokkos::HostSpace> ParameterizedFunctionBase<Kokkos::HostSpace>::Gradient(StridedMatrix<const double, Kokkos::HostSpace> const& pts, StridedMatrix<const double, Kokkos::HostSpace> const& sens)
 {
     CheckCoefficients("Gradient");
+    this->CheckSize("Gradient", "pts", pts.extent(0), pts.extent(1), this->inputDim, pts.extent(1));
+    this->CheckSize("Gradient", "sens", sens.extent(0), sens.extent(1), this->outputDim, pts.extent(1));
 
     Kokkos::View<double**, Kokkos::HostSpace> output("Gradients", inputDim, pts.extent(1));
     GradientImpl(pts, sens, output);
@@ -116,6 +120,8 @@ template<>
 Eigen::RowMatrixXd ParameterizedFunctionBase<Kokkos::HostSpace>::Gradient(Eigen::Ref<const Eigen::RowMatrixXd> const& pts, Eigen::Ref<const Eigen::RowMatrixXd> const& sens)
 {
     CheckCoefficients("Gradient");
+    this->CheckSize("Gradient", "pts", pts.rows(), pts.cols(), this->inputDim, pts.cols());
+    this->CheckSize("Gradient", "sens", sens.rows(), sens.cols(), this->outputDim, pts.cols());
 
     Eigen::RowMatrixXd output(inputDim, pts.cols());
     StridedMatrix<const double, Kokkos::HostSpace> ptsView = ConstRowMatToKokkos<double,Kokkos::HostSpace>(pts);
@@ -271,6 +277,8 @@ StridedMatrix<double, Kokkos::HostSpace> ParameterizedFunctionBase<Kokkos::HostS
                                                                                                  StridedMatrix<const double, Kokkos::HostSpace> const& sens)
 {
     CheckCoefficients("CoeffGrad");
+    this->CheckSize("CoeffGrad", "pts", pts.extent(0), pts.extent(1), this->inputDim, pts.extent(1));
+    this->CheckSize("CoeffGrad", "sens", sens.extent(0), sens.extent(1), this->outputDim, pts.extent(1));
     Kokkos::View<double**, Kokkos::HostSpace> output("Coeff Grad", numCoeffs, pts.extent(1));
     CoeffGradImpl(pts,sens, output);
     return output;
@@ -362,6 +370,16 @@ void ParameterizedFunctionBase<MemorySpace>::CheckCoefficients(std::string const
 }
 
 
+template<typename MemorySpace>
+void ParameterizedFunctionBase<MemorySpace>::CheckSize(std::string const& functionName, std::string const& argName, size_t rows, size_t cols, size_t expectedRows, size_t expectedCols)
+{
+    if((rows!=expectedRows)||(cols!=expectedCols)){
+        std::stringstream msg;
+        msg << "Error in \"" << functionName << "\", the argument \"" << argName << "\" has size " << rows << "x" << cols << ", but the expected size is " << expectedRows << "x" << expectedCols << ".";
+        throw std::invalid_argument(msg.str());
+    }
+}
+
 // Explicit template instantiation
 template class mpart::ParameterizedFunctionBase<Kokkos::HostSpace>;
 #if defined(MPART_ENABLE_GPU)
diff --git a/src/SummarizedMap.cpp b/src/SummarizedMap.cpp
index c4101ce..4c53d95 100644
--- a/src/SummarizedMap.cpp
+++ b/src/SummarizedMap.cpp
@@ -131,6 +131,9 @@ void SummarizedMap<MemorySpace>::InverseImpl(StridedMatrix<const double, MemoryS
                                              StridedMatrix<double, MemorySpace>              output)
 {
 
+    if(x1.extent(0) < sumFunc_->inputDim)
+        this->CheckSize("Inverse", "x1", x1.extent(0), x1.extent(1), sumFunc_->inputDim, r.extent(1));
+
     // Create a view to hold pts to summarize
     StridedMatrix<const double, MemorySpace> ptsToSummarize = Kokkos::subview(x1, std::make_pair(0, int(sumFunc_->inputDim)), Kokkos::ALL());
 
diff --git a/src/TriangularMap.cpp b/src/TriangularMap.cpp
index 5e8c9a5..fa2767c 100644
--- a/src/TriangularMap.cpp
+++ b/src/TriangularMap.cpp
@@ -150,6 +150,9 @@ void TriangularMap<MemorySpace>::InverseImpl(StridedMatrix<const double, MemoryS
 {
     unsigned int ipdim = this->inputDim;
     unsigned int opdim = this->outputDim;
+    if((x1.extent(0)<ipdim-opdim)||(x1.extent(0)>ipdim))
+        this->CheckSize("Inverse", "x1", x1.extent(0), x1.extent(1), ipdim-opdim, r.extent(1));
+
     Kokkos::View<double**, MemorySpace> fullOut("Full Output", ipdim, x1.extent(1));
     Kokkos::deep_copy(Kokkos::subview(fullOut, std::make_pair(0,int(x1.extent(0))), Kokkos::ALL()), x1);
 
-- 
2.43.0


From 505348bc90ffcd9d9f92ec89a747fb2d780e7395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 30/47] fix: FixedMultiIndexSet::IndexToMulti rejects an index
 that is out of range

---
 src/MultiIndices/FixedMultiIndexSet.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/MultiIndices/FixedMultiIndexSet.cpp b/src/MultiIndices/FixedMultiIndexSet.cpp
index 7e660d5..e137109 100644
--- a/src/MultiIndices/FixedMultiIndexSet.cpp
+++ b/src/MultiIndices/FixedMultiIndexSet.cpp
@@ -192,6 +192,9 @@ std::vector<unsigned int> FixedMultiIndexSet<MemorySpace>::IndexToMulti(unsigned
 template<>
 std::vector<unsigned int> FixedMultiIndexSet<Kokkos::HostSpace>::IndexToMulti(unsigned int index) const
 {
+    if(index>=Size())
+        throw std::out_of_range("Tried to access term " + std::to_string(index) + " of a FixedMultiIndexSet with only " + std::to_string(Size()) + " terms.");
+
     std::vector<unsigned int> output(dim,0);
     if(isCompressed){
         for(unsigned int i=nzStarts(index); i<nzStarts(index+1); ++i){
-- 
2.43.0


From d69765b419f83d6c5d2721dbf2089727a9dd5df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 31/47] fix: map, function and Gaussian constructors reject
 empty, inconsistent or non-square arguments

---
 MParT/Distributions/GaussianSamplerDensity.h | 2 ++
 src/AffineFunction.cpp                       | 9 ++++++---
 src/AffineMap.cpp                            | 9 ++++++---
 src/ComposedMap.cpp                          | 2 +-
 src/Distributions/GaussianSamplerDensity.cpp | 2 ++
 src/IdentityMap.cpp                          | 3 ++-
 src/MapFactory.cpp                           | 6 ++++++
 src/TriangularMap.cpp                        | 2 +-
 8 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/MParT/Distributions/GaussianSamplerDensity.h b/MParT/Distributions/GaussianSamplerDensity.h
index 6e5496f..91b3c04 100644
--- a/MParT/Distributions/GaussianSamplerDensity.h
+++ b/MParT/Distributions/GaussianSamplerDensity.h
@@ -74,6 +74,8 @@ class GaussianSamplerDensity: public SampleGenerator<MemorySpace>, public Densit
 #endif // KOKKOS_VERSION
 
     void Factorize(StridedMatrix<double, MemorySpace> Cov) {
+        if(Cov.extent(0) != Cov.extent(1))
+            throw std::invalid_argument("GaussianSamplerDensity: the covariance must be a square matrix.");
         Kokkos::View<double**, Kokkos::LayoutLeft, MemorySpace> covLeft("Covariance", Cov.extent(0), Cov.extent(1));
         Kokkos::deep_copy(covLeft, Cov);
         covChol_.compute(covLeft);
diff --git a/src/AffineFunction.cpp b/src/AffineFunction.cpp
index 1969ecd..ab20717 100644
--- a/src/AffineFunction.cpp
+++ b/src/AffineFunction.cpp
@@ -22,7 +22,8 @@ AffineFunction<MemorySpace>::AffineFunction(StridedMatrix<double,MemorySpace> A)
                                                                                A_("A", A.extent(0), A.extent(1))
 {
     Kokkos::deep_copy(A_, A);
-    assert(A_.extent(0)<=A_.extent(1));
+    if(A_.extent(0)>A_.extent(1))
+        throw std::invalid_argument("In AffineFunction constructor, the matrix A has more rows than columns.");
 }
 
 
@@ -34,8 +35,10 @@ AffineFunction<MemorySpace>::AffineFunction(StridedMatrix<double,MemorySpace> A,
 {   
     Kokkos::deep_copy(A_, A);
     Kokkos::deep_copy(b_, b);
-    assert(A_.extent(0) <= A_.extent(1));
-    assert(A_.extent(0) == b_.extent(0));
+    if(A_.extent(0)>A_.extent(1))
+        throw std::invalid_argument("In AffineFunction constructor, the matrix A has more rows than columns.");
+    if(A_.extent(0)!=b_.extent(0))
+        throw std::invalid_argument("In AffineFunction constructor, the number of rows in A does not match the length of b.");
 }
 
 
diff --git a/src/AffineMap.cpp b/src/AffineMap.cpp
index 59359b5..7f69019 100644
--- a/src/AffineMap.cpp
+++ b/src/AffineMap.cpp
@@ -20,7 +20,8 @@ AffineMap<MemorySpace>::AffineMap(StridedMatrix<double,MemorySpace> A) : Conditi
                                                                   A_("A", A.extent(0), A.extent(1))
 {
     Kokkos::deep_copy(A_, A);
-    assert(A_.extent(0)<=A_.extent(1));
+    if(A_.extent(0)>A_.extent(1))
+        throw std::invalid_argument("In AffineMap constructor, the matrix A has more rows than columns.");
     Factorize();
 }
 
@@ -33,8 +34,10 @@ AffineMap<MemorySpace>::AffineMap(StridedMatrix<double,MemorySpace> A,
 {
     Kokkos::deep_copy(A_, A);
     Kokkos::deep_copy(b_, b);
-    assert(A_.extent(0)<=A_.extent(1));
-    assert(A_.extent(0) == b_.extent(0));
+    if(A_.extent(0)>A_.extent(1))
+        throw std::invalid_argument("In AffineMap constructor, the matrix A has more rows than columns.");
+    if(A_.extent(0)!=b_.extent(0))
+        throw std::invalid_argument("In AffineMap constructor, the number of rows in A does not match the length of b.");
     Factorize();
 }
 
diff --git a/src/ComposedMap.cpp b/src/ComposedMap.cpp
index 503b100..c370662 100644
--- a/src/ComposedMap.cpp
+++ b/src/ComposedMap.cpp
@@ -133,7 +133,7 @@ Kokkos::View<double**, Kokkos::LayoutLeft, MemorySpace> ComposedMap<MemorySpace>
 
 template<typename MemorySpace>
 ComposedMap<MemorySpace>::ComposedMap(std::vector<std::shared_ptr<ConditionalMapBase<MemorySpace>>> const& maps, bool moveCoeffs,
-                                      int maxChecks) : ConditionalMapBase<MemorySpace>(maps.front()->inputDim,
+                                      int maxChecks) : ConditionalMapBase<MemorySpace>(maps.empty() ? throw std::invalid_argument("In ComposedMap constructor, at least one map is needed.") : maps.front()->inputDim,
                                                                                        maps.front()->inputDim,
                                                                                        std::accumulate(maps.begin(), maps.end(), 0, [](size_t sum, std::shared_ptr<ConditionalMapBase<MemorySpace>> const& comp){ return sum + comp->numCoeffs; })),
                                                         maps_(maps),
diff --git a/src/Distributions/GaussianSamplerDensity.cpp b/src/Distributions/GaussianSamplerDensity.cpp
index c3156b8..3fb3b85 100644
--- a/src/Distributions/GaussianSamplerDensity.cpp
+++ b/src/Distributions/GaussianSamplerDensity.cpp
@@ -4,6 +4,8 @@ using namespace mpart;
 
 template<typename MemorySpace>
 GaussianSamplerDensity<MemorySpace>::GaussianSamplerDensity(StridedVector<double, MemorySpace> mean, StridedMatrix<double, MemorySpace> covar): SampleGenerator<MemorySpace>(mean.extent(0)), DensityBase<MemorySpace>(mean.extent(0)), mean_(mean) {
+    if(covar.extent(0) != mean.extent(0))
+        throw std::invalid_argument("GaussianSamplerDensity: the covariance does not have the same dimension as the mean.");
     Factorize(covar);
 }
 
diff --git a/src/IdentityMap.cpp b/src/IdentityMap.cpp
index 01c6297..ad3c1d3 100644
--- a/src/IdentityMap.cpp
+++ b/src/IdentityMap.cpp
@@ -9,7 +9,8 @@ using MemorySpace = Kokkos::HostSpace;
 template<typename MemorySpace>
 IdentityMap<MemorySpace>::IdentityMap(unsigned int inDim, unsigned int outDim) : ConditionalMapBase<MemorySpace>(inDim, outDim, 0)
 {
-
+    if(outDim>inDim)
+        throw std::invalid_argument("In IdentityMap constructor, the output dimension is larger than the input dimension.");
 }
 
 
diff --git a/src/MapFactory.cpp b/src/MapFactory.cpp
index 70df3ec..97784e2 100644
--- a/src/MapFactory.cpp
+++ b/src/MapFactory.cpp
@@ -105,6 +105,12 @@ std::shared_ptr<ConditionalMapBase<MemorySpace>> mpart::MapFactory::CreateTriang
                                                                          MapOptions options)
 {
 
+    if((outputDim==0)||(outputDim>inputDim)){
+        std::stringstream msg;
+        msg << "In CreateTriangular, the output dimension must be at least 1 and at most the input dimension. Got inputDim = " << inputDim << " and outputDim = " << outputDim << ".";
+        throw std::invalid_argument(msg.str());
+    }
+
     std::vector<std::shared_ptr<ConditionalMapBase<MemorySpace>>> comps(outputDim);
 
     unsigned int extraInputs = inputDim - outputDim;
diff --git a/src/TriangularMap.cpp b/src/TriangularMap.cpp
index fa2767c..e3a6fed 100644
--- a/src/TriangularMap.cpp
+++ b/src/TriangularMap.cpp
@@ -7,7 +7,7 @@
 using namespace mpart;
 
 template<typename MemorySpace>
-TriangularMap<MemorySpace>::TriangularMap(std::vector<std::shared_ptr<ConditionalMapBase<MemorySpace>>> const& components, bool moveCoeffs) : ConditionalMapBase<MemorySpace>(components.back()->inputDim,
+TriangularMap<MemorySpace>::TriangularMap(std::vector<std::shared_ptr<ConditionalMapBase<MemorySpace>>> const& components, bool moveCoeffs) : ConditionalMapBase<MemorySpace>(components.empty() ? throw std::invalid_argument("In TriangularMap constructor, at least one component is needed.") : components.back()->inputDim,
                         std::accumulate(components.begin(), components.end(), 0, [](size_t sum, std::shared_ptr<ConditionalMapBase<MemorySpace>> const& comp){ return sum + comp->outputDim; }),
                         std::accumulate(components.begin(), components.end(), 0, [](size_t sum, std::shared_ptr<ConditionalMapBase<MemorySpace>> const& comp){ return sum + comp->numCoeffs; })),
                         comps_(components)
-- 
2.43.0


From cccdfc86256b49e307f37442c8e8633e687bae2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 32/47] fix: do not leave zero coefficients behind when the
 first SetCoeffs fails

---
 src/ParameterizedFunctionBase.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ParameterizedFunctionBase.cpp b/src/ParameterizedFunctionBase.cpp
index a156787..4b733e7 100644
--- a/src/ParameterizedFunctionBase.cpp
+++ b/src/ParameterizedFunctionBase.cpp
@@ -203,12 +203,14 @@ void ParameterizedFunctionBase<MemorySpace>::SetCoeffs(Kokkos::View<const double
     if(this->savedCoeffs.is_allocated()){
         if(this->savedCoeffs.size() != numCoeffs)
             Kokkos::resize(this->savedCoeffs, numCoeffs);
+        Kokkos::deep_copy(this->savedCoeffs, coeffs);
     }else{
 
-        this->savedCoeffs = Kokkos::View<double*, MemorySpace>("ParameterizedFunctionBase<MemorySpace> Coefficients", coeffs.size());
+        // Only keep the new view once it holds the coefficients, so that a failed copy does not leave zeros behind
+        Kokkos::View<double*, MemorySpace> newCoeffs("ParameterizedFunctionBase<MemorySpace> Coefficients", coeffs.size());
+        Kokkos::deep_copy(newCoeffs, coeffs);
+        this->savedCoeffs = newCoeffs;
     }
-
-    Kokkos::deep_copy(this->savedCoeffs, coeffs);
 }
 
 template<typename MemorySpace>
-- 
2.43.0


From cb4e5a797e3e3ea84363bfb351e7aaf54f011151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:56 +0000
Subject: [PATCH 33/47] fix: support optimizers that do not ask for a gradient

---
 src/MapObjective.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/MapObjective.cpp b/src/MapObjective.cpp
index d11123d..0c6e7f5 100644
--- a/src/MapObjective.cpp
+++ b/src/MapObjective.cpp
@@ -5,8 +5,13 @@ template<typename MemorySpace>
 double MapObjective<MemorySpace>::operator()(unsigned int n, const double* coeffs, double* grad, std::shared_ptr<ConditionalMapBase<MemorySpace>> map) {
 
     StridedVector<const double, MemorySpace> coeffView = ToConstKokkos<double,MemorySpace>(coeffs, n);
-    StridedVector<double, MemorySpace> gradView = ToKokkos<double,MemorySpace>(grad, n);
     map->SetCoeffs(coeffView);
+
+    // Derivative-free optimizers do not ask for a gradient
+    if(grad == nullptr)
+        return ObjectiveImpl(train_, map);
+
+    StridedVector<double, MemorySpace> gradView = ToKokkos<double,MemorySpace>(grad, n);
     return ObjectivePlusCoeffGradImpl(train_, gradView, map);
 }
 
-- 
2.43.0


From b235eb6f8617b65b0f29970c0edb9f6c60b6a7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:56 +0000
Subject: [PATCH 34/47] fix: leave the map at its initial coefficients when
 training fails

---
 src/TrainMap.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/TrainMap.cpp b/src/TrainMap.cpp
index db177a0..374536b 100644
--- a/src/TrainMap.cpp
+++ b/src/TrainMap.cpp
@@ -79,12 +79,21 @@ double mpart::TrainMap(std::shared_ptr<ConditionalMapBase<Kokkos::HostSpace>> ma
     std::vector<double> mapCoeffsStd = KokkosToStd(map->Coeffs());
 
     // Optimize the map coefficients using NLopt
+    const std::vector<double> initialCoeffsStd = mapCoeffsStd;
     double error;
-    nlopt::result res = opt.optimize(mapCoeffsStd, error);
+    nlopt::result res;
+    try {
+        res = opt.optimize(mapCoeffsStd, error);
 
-    // Set the coefficients using SetCoeffs
-    Kokkos::View<double*, Kokkos::HostSpace> mapCoeffsView = VecToKokkos<double,Kokkos::HostSpace>(mapCoeffsStd);
-    map->SetCoeffs(mapCoeffsView);
+        // Set the coefficients using SetCoeffs
+        Kokkos::View<double*, Kokkos::HostSpace> mapCoeffsView = VecToKokkos<double,Kokkos::HostSpace>(mapCoeffsStd);
+        map->SetCoeffs(mapCoeffsView);
+    } catch(...) {
+        // Do not leave the map at whichever coefficients were tried last.  Written in place because memory may have run out.
+        Kokkos::View<double*, Kokkos::HostSpace> currentCoeffs = map->Coeffs();
+        std::copy(initialCoeffsStd.begin(), initialCoeffsStd.end(), currentCoeffs.data());
+        throw;
+    }
 
     // Print a warning if something goes wrong with NLOpt
     if(res < 0) {
-- 
2.43.0


From 0fe076dda08409c65f113b66db46cb9d2b5c6ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:07 +0000
Subject: [PATCH 35/47] fix: adaptive training when no candidate is left or the
 first map is best

---
 src/TrainMapAdaptive.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/TrainMapAdaptive.cpp b/src/TrainMapAdaptive.cpp
index 7091db5..083ddde 100644
--- a/src/TrainMapAdaptive.cpp
+++ b/src/TrainMapAdaptive.cpp
@@ -3,10 +3,12 @@
 
 using namespace mpart;
 
-void findMaxGrad(StridedVector<double, Kokkos::HostSpace> const &gradCoeff, std::vector<std::vector<unsigned int>> const &multis_rm,
+// Returns false, without setting the indices, if no candidate has a nonzero gradient
+bool findMaxGrad(StridedVector<double, Kokkos::HostSpace> const &gradCoeff, std::vector<std::vector<unsigned int>> const &multis_rm,
     std::vector<MultiIndexSet> const &msets, unsigned int &maxIdx, unsigned int &maxIdxBlock) {
     unsigned int outputDim = multis_rm.size();
     double maxVal = 0.;
+    bool found = false;
     unsigned int blockStart = 0;
     for(int output = 0; output < outputDim; output++) {
         for(int i = 0; i < multis_rm[output].size(); i++) {
@@ -16,10 +18,12 @@ void findMaxGrad(StridedVector<double, Kokkos::HostSpace> const &gradCoeff, std:
                 maxVal = gradVal;
                 maxIdx = idx;
                 maxIdxBlock = output;
+                found = true;
             }
         }
         blockStart += msets[output].Size();
     }
+    return found;
 }
 
 void maxDegreeRMFilter(std::vector<MultiIndexSet> const &msets, MultiIndex const &maxDegrees,
@@ -63,7 +67,7 @@ std::shared_ptr<ConditionalMapBase<Kokkos::HostSpace>> mpart::TrainMapAdaptive(s
     if(mset0.size() != outputDim) {
         std::stringstream ss;
             ss << "AdaptiveTransportMap: Number of MultiIndexSets must match dimension of Objective.\n";
-            ss << "Expected Length " << inputDim << ", got " << mset0.size() << ".";
+            ss << "Expected Length " << outputDim << ", got " << mset0.size() << ".";
             throw std::invalid_argument(ss.str());
     }
 
@@ -88,7 +92,7 @@ std::shared_ptr<ConditionalMapBase<Kokkos::HostSpace>> mpart::TrainMapAdaptive(s
         // Initialize the temporary mset vectors
         MultiIndexSet mset_tmp_j = MultiIndexSet::CreateTotalOrder(inputDim-outputDim+j+1,0);
         mset_tmp.push_back(mset_tmp_j);
-        mset_best.push_back(mset_tmp_j);
+        mset_best.push_back(mset_j);
 
         // Index global constants
         currMsetDim++;
@@ -150,7 +154,7 @@ std::shared_ptr<ConditionalMapBase<Kokkos::HostSpace>> mpart::TrainMapAdaptive(s
             int oldIdx = 0;
             int rmIdx = 0;
             for(int j = 0; j < comp_i->numCoeffs; j++) {
-                if(j == multis_rm[i][rmIdx]){ // Fill new coeff with zero
+                if(rmIdx < multis_rm[i].size() && j == multis_rm[i][rmIdx]){ // Fill new coeff with zero
                     coeffsFrontier(j) = 0.;
                     rmIdx++;
                 }
@@ -173,7 +177,7 @@ std::shared_ptr<ConditionalMapBase<Kokkos::HostSpace>> mpart::TrainMapAdaptive(s
                 int rmIdx = 0;
                 for(int i = 0; i < mset_tmp[output].Size(); i++) {
                     std::cout << "gradCoeff(" << coeffIdx << ")=" << gradCoeff(coeffIdx) << ", midx=[" << mset_tmp[output][i] << "]";
-                    if(i == multis_rm[output][rmIdx]) {
+                    if(rmIdx < multis_rm[output].size() && i == multis_rm[output][rmIdx]) {
                         std::cout << " rm!";
                         rmIdx++;
                     }
@@ -190,7 +194,12 @@ std::shared_ptr<ConditionalMapBase<Kokkos::HostSpace>> mpart::TrainMapAdaptive(s
 
         // Find the largest gradient value, calculate which output and multiindex it corresponds to
         unsigned int maxIdx, maxIdxBlock;
-        findMaxGrad(gradCoeff, multis_rm, mset_tmp, maxIdx, maxIdxBlock);
+        if(!findMaxGrad(gradCoeff, multis_rm, mset_tmp, maxIdx, maxIdxBlock)) {
+            if(options.verbose) {
+                std::cout << "No admissible term is left to add." << std::endl;
+            }
+            break;
+        }
 
         // Add the multiindex with largest gradient to the map
         MultiIndex addedMulti = mset_tmp[maxIdxBlock][maxIdx];
-- 
2.43.0


From 3a49a13b83ae35992fea0454bdb8da57248b92bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:25 +0000
Subject: [PATCH 36/47] fix: CreatePullback and CreatePushforward could not be
 instantiated

---
 MParT/Distributions/TransportDistributionFactory.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MParT/Distributions/TransportDistributionFactory.h b/MParT/Distributions/TransportDistributionFactory.h
index 098e47d..191ede9 100644
--- a/MParT/Distributions/TransportDistributionFactory.h
+++ b/MParT/Distributions/TransportDistributionFactory.h
@@ -10,9 +10,9 @@
 namespace mpart {
 
     template<typename MemorySpace>
-    using PullbackDistribution = Distribution<PullbackDensity<MemorySpace>, PullbackSampler<MemorySpace>>;
+    using PullbackDistribution = Distribution<MemorySpace>;
     template<typename MemorySpace>
-    using PushforwardDistribution = Distribution<PushforwardDensity<MemorySpace>, PushforwardSampler<MemorySpace>>;
+    using PushforwardDistribution = Distribution<MemorySpace>;
 
     template<typename MemorySpace>
     std::shared_ptr<PullbackDistribution<MemorySpace>> CreatePullback(std::shared_ptr<ConditionalMapBase<MemorySpace>> map, std::shared_ptr<Distribution<MemorySpace>> reference) {
-- 
2.43.0


From 81b6d0b9e7b268391d2163e46c6874d3adb03fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:28 +0000
Subject: [PATCH 37/47] fix: log-determinants over- and underflowed with the
 determinant

GaussianSamplerDensity and AffineMap took the logarithm of a determinant,
which leaves the range of a double in many dimensions or at small or large
scales although its logarithm is moderate. Sum the logarithms of the pivots.
---
 MParT/Distributions/GaussianSamplerDensity.h |  2 +-
 MParT/Utilities/LinearAlgebra.h              | 10 ++++++
 src/AffineMap.cpp                            |  2 +-
 src/Utilities/LinearAlgebra.cpp              | 38 ++++++++++++++++++++
 4 files changed, 50 insertions(+), 2 deletions(-)

diff --git a/MParT/Distributions/GaussianSamplerDensity.h b/MParT/Distributions/GaussianSamplerDensity.h
index 91b3c04..c57aa78 100644
--- a/MParT/Distributions/GaussianSamplerDensity.h
+++ b/MParT/Distributions/GaussianSamplerDensity.h
@@ -79,7 +79,7 @@ class GaussianSamplerDensity: public SampleGenerator<MemorySpace>, public Densit
         Kokkos::View<double**, Kokkos::LayoutLeft, MemorySpace> covLeft("Covariance", Cov.extent(0), Cov.extent(1));
         Kokkos::deep_copy(covLeft, Cov);
         covChol_.compute(covLeft);
-        logDetCov_ = std::log(covChol_.determinant());
+        logDetCov_ = covChol_.logAbsDeterminant();
     }
 
     private:
diff --git a/MParT/Utilities/LinearAlgebra.h b/MParT/Utilities/LinearAlgebra.h
index 9f549e3..a882eff 100644
--- a/MParT/Utilities/LinearAlgebra.h
+++ b/MParT/Utilities/LinearAlgebra.h
@@ -304,6 +304,11 @@ public:
     /** Returns the determinant of the matrix A based on its LU factorization. */
     double determinant() const;
 
+    /** Returns \f$\log|\det(A)|\f$.  The logarithms of the pivots are summed, so the result is finite even if the
+        determinant of an invertible matrix overflows or underflows.
+    */
+    double logAbsDeterminant() const;
+
 private:
 
     bool isComputed;
@@ -352,6 +357,11 @@ public:
     /** Returns the determinant of the matrix A based on its LU factorization. */
     double determinant() const;
 
+    /** Returns \f$\log|\det(A)|\f$.  The logarithms of the pivots are summed, so the result is finite even if the
+        determinant of an invertible matrix overflows or underflows.
+    */
+    double logAbsDeterminant() const;
+
 private:
 
     bool isComputed;
diff --git a/src/AffineMap.cpp b/src/AffineMap.cpp
index 7f69019..c889469 100644
--- a/src/AffineMap.cpp
+++ b/src/AffineMap.cpp
@@ -51,7 +51,7 @@ void AffineMap<MemorySpace>::Factorize(){
     }else{
         luSolver_.compute(A_);
     }
-    logDet_ = log(abs(luSolver_.determinant()));
+    logDet_ = luSolver_.logAbsDeterminant();
 }
 
 
diff --git a/src/Utilities/LinearAlgebra.cpp b/src/Utilities/LinearAlgebra.cpp
index 509c46e..665c386 100644
--- a/src/Utilities/LinearAlgebra.cpp
+++ b/src/Utilities/LinearAlgebra.cpp
@@ -77,6 +77,13 @@ double PartialPivLU<Kokkos::HostSpace>::determinant() const
     return luSolver_->determinant();
 }
 
+template<>
+double PartialPivLU<Kokkos::HostSpace>::logAbsDeterminant() const
+{
+    assert(isComputed);
+    return luSolver_->matrixLU().diagonal().array().abs().log().sum();
+}
+
 template<>
 void Cholesky<Kokkos::HostSpace>::compute(Kokkos::View<const double**,Kokkos::LayoutLeft,Kokkos::HostSpace> A)
 {
@@ -128,6 +135,13 @@ double Cholesky<Kokkos::HostSpace>::determinant() const
     return sqrt_det*sqrt_det;
 }
 
+template<>
+double Cholesky<Kokkos::HostSpace>::logAbsDeterminant() const
+{
+    assert(isComputed);
+    return 2.0*cholSolver_->matrixLLT().diagonal().array().log().sum();
+}
+
 #if defined(MPART_ENABLE_GPU)
 
 template<>
@@ -306,6 +320,18 @@ double PartialPivLU<mpart::DeviceSpace>::determinant() const
     return det;
 }
 
+template<>
+double PartialPivLU<mpart::DeviceSpace>::logAbsDeterminant() const
+{
+    assert(isComputed);
+    double logDet = 0.0;
+    Kokkos::parallel_reduce(LU_.extent(0), KOKKOS_CLASS_LAMBDA (const int& i, double& lsum) {
+        lsum += log(fabs(LU_(i,i)));
+    },logDet);
+
+    return logDet;
+}
+
 template<>
 void Cholesky<mpart::DeviceSpace>::compute(Kokkos::View<const double**,Kokkos::LayoutLeft,mpart::DeviceSpace> A)
 {
@@ -483,6 +509,18 @@ double Cholesky<mpart::DeviceSpace>::determinant() const
     return det*det;
 }
 
+template<>
+double Cholesky<mpart::DeviceSpace>::logAbsDeterminant() const
+{
+    assert(isComputed);
+    double logDet = 0.0;
+    Kokkos::parallel_reduce(LLT_.extent(0), KOKKOS_CLASS_LAMBDA (const int& i, double& lsum) {
+        lsum += 2.0*log(LLT_(i,i));
+    },logDet);
+
+    return logDet;
+}
+
 
 template struct mpart::PartialPivLU<mpart::DeviceSpace>;
 template struct mpart::Cholesky<mpart::DeviceSpace>;
-- 
2.43.0


From 4c0751de66081c4292cea441efa769dba197f0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:28 +0000
Subject: [PATCH 38/47] fix: adaptive quadrature did not end beyond 32 levels
 of subdivision

The path through the recursion was kept in 32 bits, one for each level, and
shifting by more than that is undefined: with quadMaxSub above 32 and a
tolerance that needs them the same segments were visited forever.
---
 MParT/Quadrature.h | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/MParT/Quadrature.h b/MParT/Quadrature.h
index 61c2fe5..7153a47 100644
--- a/MParT/Quadrature.h
+++ b/MParT/Quadrature.h
@@ -2,6 +2,7 @@
 #define MPART_QUADRATURE_H
 
 #include <math.h>
+#include <cstdint>
 #include <sstream>
 #include <vector>
 
@@ -561,7 +562,7 @@ public:
 
         unsigned int currLevel = 0;
 
-        unsigned int currSegment = 0;
+        std::uint64_t currSegment = 0; // One bit for each level of the recursion
 
         double midPt = 0.5*(lb+ub);
 
@@ -632,7 +633,7 @@ public:
 
                 // Find the lowest previous level where we are working on the "left" branch of the tree.
                 while(((currSegment >> currLevel) & 1U)&&(currLevel>0)){
-                    currSegment &= ~(1UL << currLevel); // Set the side on this level to the left
+                    currSegment &= ~(std::uint64_t(1) << currLevel); // Set the side on this level to the left
                     currLevel--;
                 }
 
@@ -642,7 +643,7 @@ public:
                 }
 
                 // Specify that we're now working on the right side
-                currSegment |= 1UL << currLevel;
+                currSegment |= std::uint64_t(1) << currLevel;
 
                 // Set the left and right endpoints of this level based on the previous level
                 workStartInd = (2*currLevel + 5)*this->fdim_ + 2*currLevel;
@@ -693,7 +694,7 @@ private:
 
     
 
-    KOKKOS_FUNCTION void UpdateValues(double* workspace, unsigned int currLevel, unsigned int currSegment, double* &leftVal, double* &midVal, double* &rightVal) const
+    KOKKOS_FUNCTION void UpdateValues(double* workspace, unsigned int currLevel, std::uint64_t currSegment, double* &leftVal, double* &midVal, double* &rightVal) const
     {
         leftVal = &workspace[0];
         midVal = &workspace[2*this->fdim_];
@@ -827,7 +828,7 @@ public:
 
         unsigned int currLevel = 0;
 
-        unsigned int currSegment = 0;
+        std::uint64_t currSegment = 0; // One bit for each level of the recursion
 
         double midPt = 0.5*(lb+ub);
         double scale = (ub-lb);
@@ -922,7 +923,7 @@ public:
 
                 // Find the lowest previous level where we are working on the "left" branch of the tree.
                 while(((currSegment >> currLevel) & 1U)&&(currLevel>0)){
-                    currSegment &= ~(1UL << currLevel); // Set the side on this level to the left
+                    currSegment &= ~(std::uint64_t(1) << currLevel); // Set the side on this level to the left
                     currLevel--;
                 }
 
@@ -932,7 +933,7 @@ public:
                 }
 
                 // Specify that we're now working on the right side
-                currSegment |= 1UL << currLevel;
+                currSegment |= std::uint64_t(1) << currLevel;
 
                 // Set the left and right endpoints of this level based on the previous level
                 workStartInd = (currLevel + 5)*this->fdim_ + 2*currLevel;
@@ -985,7 +986,7 @@ public:
 
 private:
 
-    KOKKOS_FUNCTION void UpdateValues(double* workspace, unsigned int currLevel, unsigned int currSegment, double* &leftVal, double* &rightVal) const
+    KOKKOS_FUNCTION void UpdateValues(double* workspace, unsigned int currLevel, std::uint64_t currSegment, double* &leftVal, double* &rightVal) const
     {
         leftVal = &workspace[0];
         rightVal = &workspace[this->fdim_];
-- 
2.43.0


From aa68040fe2fe20ccdcbeded8eac3200d88d27564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:28 +0000
Subject: [PATCH 39/47] fix: settings no component can work with were accepted

An empty linearization interval, a Clenshaw-Curtis rule without points, an
adaptive one with fewer than four (integrals came out wrong by a factor, as the
rule below has no midpoint), quadMinSub not below quadMaxSub (the recursion
passes the end of its workspace) and a negative nugget only met assertions, or
nothing at all.
---
 src/MapFactory.cpp | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/MapFactory.cpp b/src/MapFactory.cpp
index 97784e2..dd27db3 100644
--- a/src/MapFactory.cpp
+++ b/src/MapFactory.cpp
@@ -14,11 +14,41 @@
 
 using namespace mpart;
 
+/** Throws an exception if the linearization bounds do not enclose an interval. */
+static void CheckBasisOptions(std::string const& caller, MapOptions const& opts)
+{
+    if(!(opts.basisLB < opts.basisUB)){
+        std::stringstream msg;
+        msg << "In " << caller << ", basisLB must be less than basisUB. Got basisLB = " << opts.basisLB << " and basisUB = " << opts.basisUB << ".";
+        throw std::invalid_argument(msg.str());
+    }
+}
+
+/** Throws an exception if the quadrature rule or nugget in the options cannot define a monotone component. */
+static void CheckComponentOptions(std::string const& caller, MapOptions const& opts)
+{
+    CheckBasisOptions(caller, opts);
+
+    std::stringstream msg;
+    if((opts.quadType==QuadTypes::ClenshawCurtis)&&(opts.quadPts<1)){
+        msg << "In " << caller << ", Clenshaw-Curtis quadrature needs quadPts to be at least 1.";
+    }else if((opts.quadType==QuadTypes::AdaptiveClenshawCurtis)&&(opts.quadPts<4)){
+        msg << "In " << caller << ", adaptive Clenshaw-Curtis quadrature needs quadPts to be at least 4. Got quadPts = " << opts.quadPts << ".";
+    }else if((opts.quadType!=QuadTypes::ClenshawCurtis)&&(opts.quadMinSub>=opts.quadMaxSub)){
+        msg << "In " << caller << ", adaptive quadrature needs quadMinSub to be less than quadMaxSub. Got quadMinSub = " << opts.quadMinSub << " and quadMaxSub = " << opts.quadMaxSub << ".";
+    }else if(!(opts.nugget>=0.0)){
+        msg << "In " << caller << ", the nugget must be non-negative. Got nugget = " << opts.nugget << ".";
+    }else{
+        return;
+    }
+    throw std::invalid_argument(msg.str());
+}
 
 template<typename MemorySpace>
 std::shared_ptr<ConditionalMapBase<MemorySpace>> mpart::MapFactory::CreateComponent(FixedMultiIndexSet<MemorySpace> const& mset,
                                                            MapOptions                                   opts)
 {
+    CheckComponentOptions("CreateComponent", opts);
     return CompFactoryImpl<MemorySpace>::GetFactoryFunction(opts)(mset,opts);
 }
 
@@ -130,6 +160,8 @@ std::shared_ptr<ParameterizedFunctionBase<MemorySpace>> mpart::MapFactory::Creat
                                                                                            FixedMultiIndexSet<MemorySpace> const& mset,
                                                                                            MapOptions                                   opts)
 {
+    CheckBasisOptions("CreateExpansion", opts);
+
     std::shared_ptr<ParameterizedFunctionBase<MemorySpace>> output;
 
     if(opts.basisType==BasisTypes::ProbabilistHermite){
-- 
2.43.0


From 9559edf6cbf7fc2f38e46ee6f4dc581acc1309ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:38 +0000
Subject: [PATCH 40/47] fix: a failed edit left a multi-index set inconsistent

An allocation or limiting function that failed in the middle of an edit left terms
without edges or numbers; later edits then read outside the set's tables.
---
 MParT/MultiIndices/MultiIndexSet.h |  17 +++++
 src/MultiIndices/MultiIndex.cpp    |   6 ++
 src/MultiIndices/MultiIndexSet.cpp | 113 ++++++++++++++++++++++-------
 3 files changed, 111 insertions(+), 25 deletions(-)

diff --git a/MParT/MultiIndices/MultiIndexSet.h b/MParT/MultiIndices/MultiIndexSet.h
index 5b5259e..bb31e4e 100644
--- a/MParT/MultiIndices/MultiIndexSet.h
+++ b/MParT/MultiIndices/MultiIndexSet.h
@@ -415,6 +415,23 @@ private:
 
   int AddMulti(MultiIndex const& newMulti);
 
+  /** Puts the set back to what it was when this guard was created, unless the edit in between gets to call Commit(). */
+  struct EditGuard{
+    EditGuard(MultiIndexSet& setIn) : set(setIn), numGlobal(setIn.allMultis.size()), numActive(setIn.active2global.size()){};
+    ~EditGuard(){ if(!committed) set.RollBack(numGlobal, numActive); };
+    void Commit(){ committed = true; };
+
+    MultiIndexSet& set;
+    const unsigned int numGlobal, numActive;
+    bool committed = false;
+  };
+
+  /** Removes all terms stored after the first numGlobal and deactivates all terms activated after the first numActive.  Does not allocate. */
+  void RollBack(unsigned int numGlobal, unsigned int numActive);
+
+  /** Removes all edges tied to a term. */
+  void RemoveEdges(unsigned int globalIndex);
+
   static void RecursiveTotalOrderFill(unsigned int   maxOrder,
                                       MultiIndexSet &mset,
                                       unsigned int currDim,
diff --git a/src/MultiIndices/MultiIndex.cpp b/src/MultiIndices/MultiIndex.cpp
index 72bd341..b1eba90 100644
--- a/src/MultiIndices/MultiIndex.cpp
+++ b/src/MultiIndices/MultiIndex.cpp
@@ -74,6 +74,12 @@ bool MultiIndex::Set(unsigned int ind, unsigned int val)
 
     bool existingNz = false;
 
+    // Make room in both vectors first, so that they are either both changed or both left alone
+    if(val>0){
+        nzInds.reserve(nzInds.size()+1);
+        nzVals.reserve(nzVals.size()+1);
+    }
+
     // Get an iterator into the nzInds that matches ind, or is where we want to insert a new value
     auto indIter = std::lower_bound(nzInds.begin(), nzInds.end(), ind);
     unsigned int index = std::distance(nzInds.begin(), indIter);
diff --git a/src/MultiIndices/MultiIndexSet.cpp b/src/MultiIndices/MultiIndexSet.cpp
index 3501504..d98cddc 100644
--- a/src/MultiIndices/MultiIndexSet.cpp
+++ b/src/MultiIndices/MultiIndexSet.cpp
@@ -193,29 +193,74 @@ void MultiIndexSet::SetLimiter(LimiterType const& newLimiter){
   }
 
   // copy the limiter
-  limiter = newLimiter;
+  LimiterType oldLimiter = newLimiter;
+  limiter.swap(oldLimiter);
 
-  //  If a term is inactive, remove all edges tied to it
-  for(unsigned int globalInd=0; globalInd<allMultis.size(); ++globalInd)
-  {
-    if(IsActive(globalInd)){
-      // Add any newly admissible inactive forward neighbors
-      AddForwardNeighbors(globalInd,true);
+  // Inactive terms that are outside the limiting set
+  std::vector<unsigned int> infeasible;
 
-    }else{
+  try {
+    EditGuard guard(*this);
 
-      if(!newLimiter(allMultis.at(globalInd))){
-        for(int inNode : inEdges[globalInd])
-          outEdges[inNode].erase(globalInd);
-        inEdges[globalInd].clear();
-        for(int outNode : outEdges[globalInd])
-          inEdges[outNode].erase(globalInd);
-        outEdges[globalInd].clear();
-      }
+    // Add any newly admissible inactive forward neighbors
+    for(unsigned int globalInd=0; globalInd<guard.numGlobal; ++globalInd){
+      if(IsActive(globalInd))
+        AddForwardNeighbors(globalInd,true);
+      else if(!newLimiter(allMultis.at(globalInd)))
+        infeasible.push_back(globalInd);
+    }
+
+    guard.Commit();
+  } catch(...) {
+    limiter.swap(oldLimiter);
+    for(unsigned int globalInd=0; globalInd<allMultis.size(); ++globalInd){
+      if(!IsActive(globalInd) && !limiter(allMultis.at(globalInd)))
+        RemoveEdges(globalInd);
     }
+    throw;
+  }
+
+  for(unsigned int globalInd : infeasible)
+    RemoveEdges(globalInd);
+}
+
+void MultiIndexSet::RemoveEdges(unsigned int globalInd)
+{
+  for(int inNode : inEdges[globalInd])
+    outEdges[inNode].erase(globalInd);
+  inEdges[globalInd].clear();
+  for(int outNode : outEdges[globalInd])
+    inEdges[outNode].erase(globalInd);
+  outEdges[globalInd].clear();
+}
+
+void MultiIndexSet::RollBack(unsigned int numGlobal, unsigned int numActive)
+{
+  for(unsigned int i=numGlobal; i<allMultis.size(); ++i)
+    multi2global.erase(allMultis[i]);
+  allMultis.erase(allMultis.begin()+numGlobal, allMultis.end());
+
+  // An interrupted addition does not reach all of these
+  global2active.erase(global2active.begin()+std::min<size_t>(numGlobal, global2active.size()), global2active.end());
+  inEdges.erase(inEdges.begin()+std::min<size_t>(numGlobal, inEdges.size()), inEdges.end());
+  outEdges.erase(outEdges.begin()+std::min<size_t>(numGlobal, outEdges.size()), outEdges.end());
+  for(unsigned int i=0; i<numGlobal; ++i){
+    inEdges[i].erase(inEdges[i].lower_bound(numGlobal), inEdges[i].end());
+    outEdges[i].erase(outEdges[i].lower_bound(numGlobal), outEdges[i].end());
   }
 
+  for(unsigned int i=numActive; i<active2global.size(); ++i){
+    if(active2global[i]<numGlobal)
+      global2active[active2global[i]] = -1;
+  }
+  active2global.resize(numActive);
 
+  std::fill(maxOrders.begin(), maxOrders.end(), 0);
+  for(unsigned int globalInd : active2global){
+    auto& multi = allMultis[globalInd];
+    for(unsigned int i=0; i<multi.nzInds.size(); ++i)
+      maxOrders[multi.nzInds[i]] = std::max(maxOrders[multi.nzInds[i]], multi.nzVals[i]);
+  }
 }
 
 int MultiIndexSet::MultiToIndex(MultiIndex const& input) const{
@@ -252,11 +297,13 @@ int MultiIndexSet::AddMulti(MultiIndex const& newMulti)
 
 int MultiIndexSet::AddActive(MultiIndex const& newNode)
 {
+  EditGuard guard(*this);
   int globalInd = AddInactive(newNode);
 
   if(globalInd>=0){
 
     Activate(globalInd);
+    guard.Commit();
     return global2active[globalInd];
 
   }else{
@@ -380,7 +427,9 @@ void MultiIndexSet::Activate(MultiIndex const& multiIndex)
     throw std::invalid_argument(msg.str());
   }
 
+  EditGuard guard(*this);
   Activate(iter->second);
+  guard.Commit();
 }
 
 void MultiIndexSet::AddForwardNeighbors(unsigned int globalIndex, bool addInactive)
@@ -657,6 +706,7 @@ std::vector<unsigned int> MultiIndexSet::Expand(unsigned int activeIndex)
     throw std::out_of_range(msg.str());
   }
 
+  EditGuard guard(*this);
   std::vector<unsigned int> newIndices;
   unsigned int globalIndex = active2global.at(activeIndex);
 
@@ -670,6 +720,8 @@ std::vector<unsigned int> MultiIndexSet::Expand(unsigned int activeIndex)
     }
   }
 
+  guard.Commit();
+
   // return the vector of newly activated indices
   return newIndices;
 }
@@ -695,6 +747,7 @@ std::vector<unsigned int> MultiIndexSet::Expand()
     }
 
     // Activate those terms
+    EditGuard guard(*this);
     std::vector<unsigned int> allNewInds;
     for(auto& neighbor : toExpand){ 
         // A term can be the forward neighbor of several frontier terms
@@ -703,6 +756,7 @@ std::vector<unsigned int> MultiIndexSet::Expand()
         Activate(neighbor);
         allNewInds.push_back(global2active.at(neighbor));
     }
+    guard.Commit();
     
     return allNewInds;
 }
@@ -711,6 +765,7 @@ std::vector<unsigned int> MultiIndexSet::ForciblyExpand(unsigned int const activ
 {
   assert(activeIndex<active2global.size());
 
+  EditGuard guard(*this);
   std::vector<unsigned int> newIndices;
   unsigned int globalIndex = active2global.at(activeIndex);
 
@@ -720,6 +775,8 @@ std::vector<unsigned int> MultiIndexSet::ForciblyExpand(unsigned int const activ
   for(int neighbor : tempSet)
     ForciblyActivate(neighbor,newIndices);
 
+  guard.Commit();
+
   // return the vector of newly activated indices
   return newIndices;
 
@@ -750,6 +807,7 @@ std::vector<unsigned int> MultiIndexSet::ForciblyActivate(MultiIndex const& mult
     throw std::invalid_argument(msg.str());
   }
 
+  EditGuard guard(*this);
   auto iter = multi2global.find(multiIndex);
   std::vector<unsigned int> newIndices;
 
@@ -762,6 +820,7 @@ std::vector<unsigned int> MultiIndexSet::ForciblyActivate(MultiIndex const& mult
     ForciblyActivate(newGlobalInd,newIndices);
   }
 
+  guard.Commit();
   return newIndices;
 }
 
@@ -782,6 +841,7 @@ std::vector<bool> MultiIndexSet::FilterBounded(const MultiIndex& bound) const {
 unsigned int MultiIndexSet::Union(const MultiIndexSet& rhs)
 {
   int oldTerms = Size();
+  EditGuard guard(*this);
 
   for(unsigned int i = 0; i < rhs.allMultis.size(); ++i) {
 
@@ -795,6 +855,7 @@ unsigned int MultiIndexSet::Union(const MultiIndexSet& rhs)
     }
   }
 
+  guard.Commit();
   return Size() - oldTerms;
 }
 
@@ -809,15 +870,17 @@ MultiIndexSet& MultiIndexSet::operator=(const MultiIndexSet& rhs){
     if(rhs.length != this->length)
         throw std::runtime_error("Cannot copy MultiIndexSet because sizes don't match.");
 
-    this->allMultis = rhs.allMultis;
-    this->limiter = rhs.limiter;
-    this->active2global = rhs.active2global;
-    this->global2active = rhs.global2active;
-    this->outEdges = rhs.outEdges;
-    this->inEdges = rhs.inEdges;
-    this->maxOrders = rhs.maxOrders;
-    this->neighborhood = rhs.neighborhood;
-    this->multi2global = rhs.multi2global;
+    // Copy everything before changing anything
+    MultiIndexSet copy(rhs);
+    std::swap(this->allMultis, copy.allMultis);
+    std::swap(this->limiter, copy.limiter);
+    std::swap(this->active2global, copy.active2global);
+    std::swap(this->global2active, copy.global2active);
+    std::swap(this->outEdges, copy.outEdges);
+    std::swap(this->inEdges, copy.inEdges);
+    std::swap(this->maxOrders, copy.maxOrders);
+    std::swap(this->neighborhood, copy.neighborhood);
+    std::swap(this->multi2global, copy.multi2global);
 
     return *this;
   }
\ No newline at end of file
-- 
2.43.0


From 4b9a1ab382a37bfea00b152e1d0c997b9615f8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:25 +0000
Subject: [PATCH 41/47] fix: an infinite value at an end of the bracket sent
 the root finder out of it

---
 MParT/Utilities/RootFinding.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/MParT/Utilities/RootFinding.h b/MParT/Utilities/RootFinding.h
index 1275a08..03550b4 100644
--- a/MParT/Utilities/RootFinding.h
+++ b/MParT/Utilities/RootFinding.h
@@ -94,6 +94,7 @@ KOKKOS_INLINE_FUNCTION double Find_x_ITP(double xlb, double xub, double yd, doub
 
         double xb = 0.5*(xub+xlb); // bisection point
         double xf = (xub*(ylb-yd) - xlb*(yub-yd))/(ylb-yub); // regula-falsi point
+        if(!((xf>=xlb)&&(xf<=xub))) xf = xb; // not a number if a value at the ends of the bracket is infinite
 
         double sigma = ((xb-xf)>0)?1.0:-1.0; // sign(xb-xf)
         double delta = fmin(k1*pow((xub-xlb), k2), fabs(xb-xf));
-- 
2.43.0


From b2831d6e2a85ae25589cbd41f5126ea51e37a5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:30 +0000
Subject: [PATCH 42/47] fix: multi-index sets accepted multi-indices of another
 length

---
 src/MultiIndices/MultiIndexSet.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/MultiIndices/MultiIndexSet.cpp b/src/MultiIndices/MultiIndexSet.cpp
index d98cddc..ceb8899 100644
--- a/src/MultiIndices/MultiIndexSet.cpp
+++ b/src/MultiIndices/MultiIndexSet.cpp
@@ -275,6 +275,16 @@ int MultiIndexSet::MultiToIndex(MultiIndex const& input) const{
 }
 
 
+/** Throws an exception if multi-indices of the given length cannot be stored in a set. */
+static void CheckLength(std::string const& caller, unsigned int given, unsigned int expected)
+{
+  if(given != expected){
+    std::stringstream msg;
+    msg << "Invalid multi-index passed to MultiIndexSet::" << caller << ".  The set stores multi-indices of length " << expected << ", but was given length " << given << ".\n";
+    throw std::invalid_argument(msg.str());
+  }
+}
+
 int MultiIndexSet::AddMulti(MultiIndex const& newMulti)
 {
   allMultis.push_back(newMulti);
@@ -315,6 +325,8 @@ int MultiIndexSet::AddActive(MultiIndex const& newNode)
 
 int MultiIndexSet::AddInactive(MultiIndex const& newNode)
 {
+  CheckLength("AddActive", newNode.Length(), length);
+
   // Terms that were stored under an earlier limiter may not be feasible anymore
   if(!limiter(newNode))
     return -1;
@@ -801,6 +813,8 @@ void MultiIndexSet::ForciblyActivate(int globalIndex, std::vector<unsigned int>
 
 std::vector<unsigned int> MultiIndexSet::ForciblyActivate(MultiIndex const& multiIndex){
 
+  CheckLength("ForciblyActivate", multiIndex.Length(), length);
+
   if(!limiter(multiIndex)){
     std::stringstream msg;
     msg << "Invalid multi-index passed to MultiIndexSet::ForciblyActivate.  The multi-index " << multiIndex << " is outside the limiter.\n";
@@ -840,6 +854,8 @@ std::vector<bool> MultiIndexSet::FilterBounded(const MultiIndex& bound) const {
 
 unsigned int MultiIndexSet::Union(const MultiIndexSet& rhs)
 {
+  CheckLength("Union", rhs.length, length);
+
   int oldTerms = Size();
   EditGuard guard(*this);
 
-- 
2.43.0


From 8194467ebbe9b2c6ea576a5e32b63e3b3ec52f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:52 +0000
Subject: [PATCH 43/47] fix: training hid an objective's failure when NLopt
 stopped for another reason

---
 src/TrainMap.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/TrainMap.cpp b/src/TrainMap.cpp
index 374536b..d0e8b1b 100644
--- a/src/TrainMap.cpp
+++ b/src/TrainMap.cpp
@@ -1,3 +1,4 @@
+#include <exception>
 #include <map>
 #include "MParT/TrainMap.h"
 
@@ -72,7 +73,17 @@ double mpart::TrainMap(std::shared_ptr<ConditionalMapBase<Kokkos::HostSpace>> ma
 
     // Since objective is (rightfully) separate from the map, we use std::bind to create a functor
     // from objective::operator() that keeps the map argument held.
-    std::function<double(unsigned, const double*, double*)> functor = std::bind(&MapObjective<Kokkos::HostSpace>::operator(), objective, std::placeholders::_1, std::placeholders::_2, std::placeholders::_3, map);
+    std::function<double(unsigned, const double*, double*)> evaluate = std::bind(&MapObjective<Kokkos::HostSpace>::operator(), objective, std::placeholders::_1, std::placeholders::_2, std::placeholders::_3, map);
+    // NLopt can finish normally although the objective failed, if another criterion stops it first
+    std::exception_ptr failure;
+    std::function<double(unsigned, const double*, double*)> functor = [&](unsigned n, const double* x, double* grad) {
+        try {
+            return evaluate(n, x, grad);
+        } catch(...) {
+            failure = std::current_exception();
+            throw;
+        }
+    };
     opt.set_min_objective(functor_wrapper, reinterpret_cast<void*>(&functor));
 
     // Get the initial guess at the coefficients
@@ -84,6 +95,8 @@ double mpart::TrainMap(std::shared_ptr<ConditionalMapBase<Kokkos::HostSpace>> ma
     nlopt::result res;
     try {
         res = opt.optimize(mapCoeffsStd, error);
+        if(failure)
+            std::rethrow_exception(failure);
 
         // Set the coefficients using SetCoeffs
         Kokkos::View<double*, Kokkos::HostSpace> mapCoeffsView = VecToKokkos<double,Kokkos::HostSpace>(mapCoeffsStd);
-- 
2.43.0


From 3b0698ace6dc7ba051a5d8ed0af4024990a31b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:56 +0000
Subject: [PATCH 44/47] fix: admissibility assumed the default neighborhood
 whichever one the set was made with

---
 MParT/MultiIndices/MultiIndexNeighborhood.h | 4 ++++
 src/MultiIndices/MultiIndexSet.cpp          | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/MParT/MultiIndices/MultiIndexNeighborhood.h b/MParT/MultiIndices/MultiIndexNeighborhood.h
index a92e031..9e983f3 100644
--- a/MParT/MultiIndices/MultiIndexNeighborhood.h
+++ b/MParT/MultiIndices/MultiIndexNeighborhood.h
@@ -21,6 +21,8 @@ public:
     virtual bool IsForward(MultiIndex const& base, MultiIndex const& next) = 0;
     virtual bool IsBackward(MultiIndex const& base, MultiIndex const& next) = 0;
 
+    /** Returns the number of backward neighbors. */
+    virtual unsigned int NumBackward(MultiIndex const& multi){ return BackwardNeighbors(multi).size(); }
 
 };
 
@@ -46,6 +48,8 @@ public:
 
     virtual bool IsBackward(MultiIndex const& base,
                             MultiIndex const& prev) override;
+
+    virtual unsigned int NumBackward(MultiIndex const& multi) override { return multi.NumNz(); }
 };
 
 }
diff --git a/src/MultiIndices/MultiIndexSet.cpp b/src/MultiIndices/MultiIndexSet.cpp
index ceb8899..6418491 100644
--- a/src/MultiIndices/MultiIndexSet.cpp
+++ b/src/MultiIndices/MultiIndexSet.cpp
@@ -374,7 +374,8 @@ bool MultiIndexSet::IsAdmissible(unsigned int globalIndex) const
       numAdmiss++;
   }
 
-  if(numAdmiss==multi.NumNz()){
+  // admissible if that is every backward neighbor, however the neighborhood defines them
+  if(numAdmiss==neighborhood->NumBackward(multi)){
     return true;
   }else{
     return false;
-- 
2.43.0


From 30601f3b0884207dac29d7b93acaabd1f9f93dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:36 +0000
Subject: [PATCH 45/47] fix: a factorial beyond 12! does not fit an unsigned
 int, so high order normalised polynomials were wrong

---
 MParT/Utilities/MathFunctions.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MParT/Utilities/MathFunctions.h b/MParT/Utilities/MathFunctions.h
index 16bd8cf..abf0e7e 100644
--- a/MParT/Utilities/MathFunctions.h
+++ b/MParT/Utilities/MathFunctions.h
@@ -7,9 +7,9 @@
 namespace mpart{
 
     /** Computes the factorial d! */
-    KOKKOS_INLINE_FUNCTION unsigned int Factorial(unsigned int d)
+    KOKKOS_INLINE_FUNCTION double Factorial(unsigned int d)
     {
-        unsigned int out = 1;
+        double out = 1.0; // 13! does not fit in an unsigned int
         for(unsigned int i=2; i<=d; ++i)
             out *= i;
         return out;
-- 
2.43.0


From da8a775def0dcfc74a9091d27fdd7ed068e64c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:22 +0000
Subject: [PATCH 46/47] fix: saving a block of a larger matrix wrote the
 entries between its columns or rows instead of its own

---
 MParT/Utilities/Serialization.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/MParT/Utilities/Serialization.h b/MParT/Utilities/Serialization.h
index bd70476..6409fd3 100644
--- a/MParT/Utilities/Serialization.h
+++ b/MParT/Utilities/Serialization.h
@@ -62,7 +62,12 @@ namespace cereal {
         ar(m,n);
 
         if((m>0)&&(n>0)){
-            Kokkos::View<ScalarType**,Traits...> mat_h = mat;
+            Kokkos::View<const ScalarType**, typename Kokkos::View<ScalarType**,Traits...>::array_layout, Kokkos::HostSpace> mat_h = mat;
+            if(!mat.span_is_contiguous()){ // A block of a larger matrix: the entries in between are not part of it
+                Kokkos::View<std::remove_cv_t<ScalarType>**, typename Kokkos::View<ScalarType**,Traits...>::array_layout, Kokkos::HostSpace> compact("Contiguous copy", m, n);
+                Kokkos::deep_copy(compact, mat);
+                mat_h = compact;
+            }
             ar(binary_data(mat_h.data(), m * n * sizeof(ScalarType)));
         }
     }
-- 
2.43.0


From 6b8f0cb226d2d07c61fe26950c5fac341f41803c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:55 +0000
Subject: [PATCH 47/47] fix: a covariance that is not positive definite was
 accepted and gave meaningless densities and samples

---
 src/Utilities/LinearAlgebra.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Utilities/LinearAlgebra.cpp b/src/Utilities/LinearAlgebra.cpp
index 665c386..df8963e 100644
--- a/src/Utilities/LinearAlgebra.cpp
+++ b/src/Utilities/LinearAlgebra.cpp
@@ -89,7 +89,10 @@ void Cholesky<Kokkos::HostSpace>::compute(Kokkos::View<const double**,Kokkos::La
 {
     auto eigA = ConstKokkosToMat(A);
     // Use eigen to compute the Cholesky decomposition in place
-    cholSolver_ = std::make_shared<Eigen::LLT<Eigen::MatrixXd>>(eigA);
+    auto cholSolver = std::make_shared<Eigen::LLT<Eigen::MatrixXd>>(eigA);
+    if(cholSolver->info()!=Eigen::Success)
+        throw std::runtime_error("In Cholesky<Kokkos::HostSpace>::compute: The matrix A is not positive definite.");
+    cholSolver_ = cholSolver;
     isComputed = true;
 }
 
-- 
2.43.0

