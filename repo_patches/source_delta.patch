From 3a28e8df19ff0f60fd66d55e4c93ea96b013d71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:46 +0000
Subject: [PATCH 01/40] fix: OpenBLAS complex dot products returned garbage
 (hidden-result call into by-value routine)

---
 .../OpenBLAS/BlasInterface_OpenBLAS.cpp         | 17 +++++++++++++----
 .../OpenBLAS/BlasInterface_OpenBLAS.cpp.pre     | 17 +++++++++++++----
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp b/src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp
index a2ee7ce..57b4be1 100644
--- a/src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp
+++ b/src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp
@@ -3,6 +3,15 @@
 
 extern "C" void openblas_set_num_threads(int nbThreads);
 
+// The Fortran calling convention of complex results depends on how OpenBLAS was
+// built, the CBLAS one does not.
+extern "C" {
+void cblas_cdotc_sub(int n, const void* x, int incx, const void* y, int incy, void* result);
+void cblas_cdotu_sub(int n, const void* x, int incx, const void* y, int incy, void* result);
+void cblas_zdotc_sub(int n, const void* x, int incx, const void* y, int incy, void* result);
+void cblas_zdotu_sub(int n, const void* x, int incx, const void* y, int incy, void* result);
+} // extern "C"
+
 namespace BlasBooster {
 
 void OpenBLAS_set_num_threads(int nbThreads)
@@ -938,7 +947,7 @@ std::complex<float> BlasInterface < OpenBLAS, cdotc >::operator() (
     const int *v1, const std::complex<float> *v2, const int *v3, const std::complex<float> *v4, const int *v5) const
 {
     std::complex<float> result;
-    ::cdotc_(&result,v1,v2,v3,v4,v5);
+    ::cblas_cdotc_sub(*v1,v2,*v3,v4,*v5,&result);
     return result;
 }
 
@@ -946,7 +955,7 @@ std::complex<float> BlasInterface < OpenBLAS, cdotu >::operator() (
     const int *v1, const std::complex<float> *v2, const int *v3, const std::complex<float> *v4, const int *v5) const
 {
     std::complex<float> result;
-    ::cdotu_(&result,v1,v2,v3,v4,v5);
+    ::cblas_cdotu_sub(*v1,v2,*v3,v4,*v5,&result);
     return result;
 }
 
@@ -954,7 +963,7 @@ std::complex<double> BlasInterface < OpenBLAS, zdotc >::operator() (
     const int *v1, const std::complex<double> *v2, const int *v3, const std::complex<double> *v4, const int *v5) const
 {
     std::complex<double> result;
-    ::zdotc_(&result,v1,v2,v3,v4,v5);
+    ::cblas_zdotc_sub(*v1,v2,*v3,v4,*v5,&result);
     return result;
 }
 
@@ -962,7 +971,7 @@ std::complex<double> BlasInterface < OpenBLAS, zdotu >::operator() (
     const int *v1, const std::complex<double> *v2, const int *v3, const std::complex<double> *v4, const int *v5) const
 {
     std::complex<double> result;
-    ::zdotu_(&result,v1,v2,v3,v4,v5);
+    ::cblas_zdotu_sub(*v1,v2,*v3,v4,*v5,&result);
     return result;
 }
 
diff --git a/src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp.pre b/src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp.pre
index f0c6ea4..fb94a06 100644
--- a/src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp.pre
+++ b/src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp.pre
@@ -3,6 +3,15 @@
 
 extern "C" void openblas_set_num_threads(int nbThreads);
 
+// The Fortran calling convention of complex results depends on how OpenBLAS was
+// built, the CBLAS one does not.
+extern "C" {
+void cblas_cdotc_sub(int n, const void* x, int incx, const void* y, int incy, void* result);
+void cblas_cdotu_sub(int n, const void* x, int incx, const void* y, int incy, void* result);
+void cblas_zdotc_sub(int n, const void* x, int incx, const void* y, int incy, void* result);
+void cblas_zdotu_sub(int n, const void* x, int incx, const void* y, int incy, void* result);
+} // extern "C"
+
 namespace BlasBooster {
 
 void OpenBLAS_set_num_threads(int nbThreads)
@@ -28,7 +37,7 @@ std::complex<float> BlasInterface < OpenBLAS, cdotc >::operator() (
     const int *v1, const std::complex<float> *v2, const int *v3, const std::complex<float> *v4, const int *v5) const
 {
     std::complex<float> result;
-    ::cdotc_(&result,v1,v2,v3,v4,v5);
+    ::cblas_cdotc_sub(*v1,v2,*v3,v4,*v5,&result);
     return result;
 }
 
@@ -36,7 +45,7 @@ std::complex<float> BlasInterface < OpenBLAS, cdotu >::operator() (
     const int *v1, const std::complex<float> *v2, const int *v3, const std::complex<float> *v4, const int *v5) const
 {
     std::complex<float> result;
-    ::cdotu_(&result,v1,v2,v3,v4,v5);
+    ::cblas_cdotu_sub(*v1,v2,*v3,v4,*v5,&result);
     return result;
 }
 
@@ -44,7 +53,7 @@ std::complex<double> BlasInterface < OpenBLAS, zdotc >::operator() (
     const int *v1, const std::complex<double> *v2, const int *v3, const std::complex<double> *v4, const int *v5) const
 {
     std::complex<double> result;
-    ::zdotc_(&result,v1,v2,v3,v4,v5);
+    ::cblas_zdotc_sub(*v1,v2,*v3,v4,*v5,&result);
     return result;
 }
 
@@ -52,7 +61,7 @@ std::complex<double> BlasInterface < OpenBLAS, zdotu >::operator() (
     const int *v1, const std::complex<double> *v2, const int *v3, const std::complex<double> *v4, const int *v5) const
 {
     std::complex<double> result;
-    ::zdotu_(&result,v1,v2,v3,v4,v5);
+    ::cblas_zdotu_sub(*v1,v2,*v3,v4,*v5,&result);
     return result;
 }
 
-- 
2.43.0


From dbb68f5b398041fe593ca6071ff81bc23474be6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:28 +0000
Subject: [PATCH 02/40] fix: sparse - dense and zero - matrix returned the
 result with the wrong sign

---
 include/BlasBooster/Core/BinaryFunctors.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/BinaryFunctors.h b/include/BlasBooster/Core/BinaryFunctors.h
index 00ec5d4..0f14f2e 100644
--- a/include/BlasBooster/Core/BinaryFunctors.h
+++ b/include/BlasBooster/Core/BinaryFunctors.h
@@ -287,8 +287,13 @@ struct BinaryOperationFunctor<Operation,Sparse,T1,P1,Dense,T2,P2,Dense,T3,P3>
 {
     void operator () (Matrix<Sparse,T1,P1> const& A, Matrix<Dense,T2,P2> const& B, Matrix<Dense,T3,P3>& C)
     {
-        // Because matrix addition is commutative it can be forwarded to C = B + A;
-        BinaryOperationFunctor<Operation,Dense,T2,P2,Sparse,T1,P1,Dense,T3,P3>()(B,A,C);
+        // C = 0 <Operation> B, followed by C += A
+        C = B;
+        for (typename Matrix<Dense,T3,P3>::iterator iterCCur(C.begin()), iterCEnd(C.end()); iterCCur != iterCEnd; ++iterCCur)
+        {
+            UnaryOperation<Operation>()(*iterCCur, *iterCCur);
+        }
+        BinaryAssignmentOperationFunctor<Plus,Dense,T3,P3,Sparse,T1,P1>()(C,A);
     }
 };
 
@@ -309,6 +314,10 @@ struct BinaryOperationFunctor<Operation,Zero,NullType,P,M,T,P,M,T,P>
     void operator () (Matrix<Zero,NullType,P> const& A, Matrix<M,T,P> const& B, Matrix<M,T,P>& C)
     {
         C = B;
+        for (typename Matrix<M,T,P>::iterator iterCCur(C.begin()), iterCEnd(C.end()); iterCCur != iterCEnd; ++iterCCur)
+        {
+            UnaryOperation<Operation>()(*iterCCur, *iterCCur);
+        }
     }
 };
 
-- 
2.43.0


From e4c3d52bcc40f0313a642f5149ff9881c4416a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:28 +0000
Subject: [PATCH 03/40] fix: multiple matrix subtraction added the second half,
 += and -= counted the operand twice

---
 include/BlasBooster/Core/BinaryFunctors.h | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/include/BlasBooster/Core/BinaryFunctors.h b/include/BlasBooster/Core/BinaryFunctors.h
index 0f14f2e..051f68a 100644
--- a/include/BlasBooster/Core/BinaryFunctors.h
+++ b/include/BlasBooster/Core/BinaryFunctors.h
@@ -529,7 +529,6 @@ template <class M1, class T1, class P1, class X1, class X2>
 inline MultipleMatrix<X1,X2>& operator += (MultipleMatrix<X1,X2>& A, Matrix<M1,T1,P1> const& B)
 {
     A.getMatrix1() += B;
-    A.getMatrix2() += B;
     return A;
 }
 
@@ -538,8 +537,6 @@ template <class X1, class X2, class Y1, class Y2>
 inline MultipleMatrix<X1,X2>& operator += (MultipleMatrix<X1,X2>& A, MultipleMatrix<Y1,Y2> const& B)
 {
     A.getMatrix1() += B.getMatrix1();
-    A.getMatrix2() += B.getMatrix1();
-    A.getMatrix1() += B.getMatrix2();
     A.getMatrix2() += B.getMatrix2();
     return A;
 }
@@ -563,9 +560,9 @@ inline auto operator - (MultipleMatrix<X1,X2> const& A, Matrix<M1,T1,P1> const&
 /// Operator for MultipleMatrix subtraction
 template <class X1, class X2, class Y1, class Y2>
 inline auto operator - (MultipleMatrix<X1,X2> const& A, MultipleMatrix<Y1,Y2> const& B)
-    -> decltype(X1() + X2() - Y1() + Y2())
+    -> decltype(X1() + X2() - Y1() - Y2())
 {
-    return A.getMatrix1() + A.getMatrix2() - B.getMatrix1() + B.getMatrix2();
+    return A.getMatrix1() + A.getMatrix2() - B.getMatrix1() - B.getMatrix2();
 }
 
 /// Operator for MultipleMatrix addition assignment
@@ -581,7 +578,6 @@ template <class M1, class T1, class P1, class X1, class X2>
 inline MultipleMatrix<X1,X2>& operator -= (MultipleMatrix<X1,X2>& A, Matrix<M1,T1,P1> const& B)
 {
     A.getMatrix1() -= B;
-    A.getMatrix2() -= B;
     return A;
 }
 
@@ -590,8 +586,6 @@ template <class X1, class X2, class Y1, class Y2>
 inline MultipleMatrix<X1,X2>& operator -= (MultipleMatrix<X1,X2>& A, MultipleMatrix<Y1,Y2> const& B)
 {
     A.getMatrix1() -= B.getMatrix1();
-    A.getMatrix2() -= B.getMatrix1();
-    A.getMatrix1() -= B.getMatrix2();
     A.getMatrix2() -= B.getMatrix2();
     return A;
 }
-- 
2.43.0


From fcd7223692d144b1a0fab165a9d83a5f592da157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:28 +0000
Subject: [PATCH 04/40] fix: one-norm of a multiple matrix ignored its second
 half, zero matrix had no one- and max-norm

---
 include/BlasBooster/Core/Norm.h | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/Norm.h b/include/BlasBooster/Core/Norm.h
index c924e12..dfb4c97 100644
--- a/include/BlasBooster/Core/Norm.h
+++ b/include/BlasBooster/Core/Norm.h
@@ -26,6 +26,26 @@ struct NormFunctor<NormTwo, Matrix<Zero,NullType,P>>
     }
 };
 
+/// Specialization for Matrix<Zero>
+template <class P>
+struct NormFunctor<NormOne, Matrix<Zero,NullType,P>>
+{
+    double operator () (Matrix<Zero,NullType,P> const& m) const
+    {
+        return 0.0;
+    }
+};
+
+/// Specialization for Matrix<Zero>
+template <class P>
+struct NormFunctor<NormMax, Matrix<Zero,NullType,P>>
+{
+    double operator () (Matrix<Zero,NullType,P> const& m) const
+    {
+        return 0.0;
+    }
+};
+
 /// norm function wrapper, forwarded to the NormFunctor for partial specialization
 template <class NormType, class MatrixType>
 inline double norm(MatrixType const& m)
@@ -73,7 +93,7 @@ struct NormFunctor<NormOne,MultipleMatrix<X1,X2> >
     double operator () (MultipleMatrix<X1,X2> const& m) const
     {
         //return norm<NormOne>(m.getMatrix1()) + norm<NormOne>(m.getMatrix1());
-        return norm<NormOne>(m.getMatrix1() + m.getMatrix1());
+        return norm<NormOne>(m.getMatrix1() + m.getMatrix2());
     }
 };
 
-- 
2.43.0


From fe60c3b1df531ff63d2286357ab6652a16defe8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:53 +0000
Subject: [PATCH 05/40] fix: max-norm did not compile for matrices of float

---
 include/BlasBooster/Core/Norm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/Norm.h b/include/BlasBooster/Core/Norm.h
index dfb4c97..c466c70 100644
--- a/include/BlasBooster/Core/Norm.h
+++ b/include/BlasBooster/Core/Norm.h
@@ -153,7 +153,7 @@ struct NormFunctor<NormMax, Matrix<M,T,P>>
         for (typename MatrixType::const_iterator iterCur(m.begin()), iterEnd(m.end());
             iterCur != iterEnd; ++iterCur)
         {
-            norm = std::max(norm, std::abs(*iterCur));
+            norm = std::max<double>(norm, std::abs(*iterCur));
         }
         return norm;
     }
-- 
2.43.0


From 48cf902099f7f02e899a854ef0e58805eb0b3db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:53 +0000
Subject: [PATCH 06/40] fix: sparse sums and products reported rows*columns
 stored elements with an uninitialised tail

---
 include/BlasBooster/Core/BinaryFunctors.h        |  3 +++
 include/BlasBooster/Core/Multiplication_Native.h |  3 +++
 include/BlasBooster/Core/SparseStorage.h         | 10 ++++++++++
 3 files changed, 16 insertions(+)

diff --git a/include/BlasBooster/Core/BinaryFunctors.h b/include/BlasBooster/Core/BinaryFunctors.h
index 051f68a..9467b3d 100644
--- a/include/BlasBooster/Core/BinaryFunctors.h
+++ b/include/BlasBooster/Core/BinaryFunctors.h
@@ -244,6 +244,9 @@ struct BinaryOperationFunctor<Operation,Sparse,T1,P1,Sparse,T2,P2,Sparse,T3,P3>
 
             *iterOffsetCCur = offset;
         }
+
+        // release the space which was not needed
+        C.shrink(offset);
     }
 };
 
diff --git a/include/BlasBooster/Core/Multiplication_Native.h b/include/BlasBooster/Core/Multiplication_Native.h
index a708099..07f7bd5 100644
--- a/include/BlasBooster/Core/Multiplication_Native.h
+++ b/include/BlasBooster/Core/Multiplication_Native.h
@@ -201,6 +201,9 @@ struct MultiplicationFunctor<Sparse,T1,P1,Sparse,T2,P2,Sparse,T3,P3,Native>
             }
         }
         *iterOffsetCCur++ = offset;
+
+        // release the space which was not needed
+        C.shrink(offset);
     }
 };
 
diff --git a/include/BlasBooster/Core/SparseStorage.h b/include/BlasBooster/Core/SparseStorage.h
index 591d0e5..5df87e6 100644
--- a/include/BlasBooster/Core/SparseStorage.h
+++ b/include/BlasBooster/Core/SparseStorage.h
@@ -118,6 +118,16 @@ public:
         offset_.resize(nbOfOffsets);
     }
 
+    /// Keep only the first nbOfValues values and keys.
+    void shrink(IndexType nbOfValues) {
+        Storage<ValueType,false,false,0> value(nbOfValues);
+        Storage<IndexType,false,false,0> key(nbOfValues);
+        std::copy_n(value_.begin(), nbOfValues, value.begin());
+        std::copy_n(key_.begin(), nbOfValues, key.begin());
+        swap(value_, value);
+        swap(key_, key);
+    }
+
     bool operator == (SparseStorage const& rhs ) const {
         return offset_ == rhs.offset_ and key_ == rhs.key_ and value_ == rhs.value_;
     }
-- 
2.43.0


From 90533a78e7e21d11d12d38ee6ef7da69c850d9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:53 +0000
Subject: [PATCH 07/40] fix: fixed-size sparse storage was only copied when
 assigned to itself

---
 include/BlasBooster/Core/SparseStorage.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/SparseStorage.h b/include/BlasBooster/Core/SparseStorage.h
index 5df87e6..caf7d71 100644
--- a/include/BlasBooster/Core/SparseStorage.h
+++ b/include/BlasBooster/Core/SparseStorage.h
@@ -36,7 +36,7 @@ public:
     /// Copy assignment operator
     SparseStorage& operator = ( const self& rhs ) {
 
-         if ( &rhs == this ) {
+         if ( &rhs != this ) {
              std::copy_n(rhs.begin(),rhs.size(),this->begin());
          }
 
-- 
2.43.0


From e0817ccecde3d79a333776a688295c8937645bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:53 +0000
Subject: [PATCH 08/40] fix: row-major sparse matrices got one offset per
 column instead of one per row

---
 include/BlasBooster/Core/SparseMatrix.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/SparseMatrix.h b/include/BlasBooster/Core/SparseMatrix.h
index 38900ca..b358ad2 100644
--- a/include/BlasBooster/Core/SparseMatrix.h
+++ b/include/BlasBooster/Core/SparseMatrix.h
@@ -167,7 +167,7 @@ template <class Filler>
 Matrix<Sparse,T,P>::Matrix(typename P::IndexType nbRows, typename P::IndexType nbColumns,
     typename P::IndexType nbSignificantElements, Filler const& filler)
  : dimension(nbRows, nbColumns),
-   storage(nbSignificantElements ? nbSignificantElements : nbRows*nbColumns, nbColumns + 1)
+   storage(nbSignificantElements ? nbSignificantElements : nbRows*nbColumns, this->getMinorDimension() + 1)
 {
     filler(*this);
 }
@@ -266,7 +266,8 @@ void Matrix<Sparse,T,P>::resize(typename P::IndexType nbRows, typename P::IndexT
     this->nbRows_ = nbRows;
     this->nbColumns_ = nbColumns;
     this->full_size_ = nbRows * nbColumns;
-    static_cast<storage*>(this)->resize(nbSignificantElements ? nbSignificantElements : nbRows*nbColumns, nbColumns + 1);
+    static_cast<storage*>(this)->resize(nbSignificantElements ? nbSignificantElements : nbRows*nbColumns,
+        this->getMinorDimension() + 1);
 }
 
 } // namespace BlasBooster
-- 
2.43.0


From 0cc2615520510dfbdce331af40a19f3ec9777776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:53 +0000
Subject: [PATCH 09/40] fix: swapping matrices left total size, leading and
 unblocked dimensions behind

---
 include/BlasBooster/Core/DenseMatrix.h  | 10 ++++------
 include/BlasBooster/Core/SparseMatrix.h |  3 +--
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index d38d5c7..ee47889 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -286,12 +286,10 @@ public: // member functions
 
     friend void swap( self& a, self& b ) BLASBOOSTER_NOEXCEPT {
         using std::swap; // bring in swap for built-in types
-        swap(a.data_,b.data_);
-        swap(a.size_,b.size_);
-        swap(a.ownMemory_,b.ownMemory_);
-        swap(a.nbRows_,b.nbRows_);
-        swap(a.nbColumns_,b.nbColumns_);
-        //swap(a.storage,b.storage);
+        swap(static_cast<dimension&>(a),static_cast<dimension&>(b));
+        swap(static_cast<leadingDimension&>(a),static_cast<leadingDimension&>(b));
+        swap(static_cast<unblockedDimension&>(a),static_cast<unblockedDimension&>(b));
+        swap(static_cast<storage&>(a),static_cast<storage&>(b));
     }
 
     static const size_t typeIndex_ = GetIndex<self, DynamicMatrixTypeList>::value;
diff --git a/include/BlasBooster/Core/SparseMatrix.h b/include/BlasBooster/Core/SparseMatrix.h
index b358ad2..4bd7a6c 100644
--- a/include/BlasBooster/Core/SparseMatrix.h
+++ b/include/BlasBooster/Core/SparseMatrix.h
@@ -125,11 +125,10 @@ public:
 
     friend void swap(Matrix& a, Matrix& b) BLASBOOSTER_NOEXCEPT {
         using std::swap; // bring in swap for built-in types
+        swap(static_cast<dimension&>(a),static_cast<dimension&>(b));
         swap(a.value_,b.value_);
         swap(a.key_,b.key_);
         swap(a.offset_,b.offset_);
-        swap(a.nbRows_,b.nbRows_);
-        swap(a.nbColumns_,b.nbColumns_);
     }
 
     static const size_t typeIndex_ = GetIndex<self, DynamicMatrixTypeList>::value;
-- 
2.43.0


From 9c56f3ae3f03f694f5eb112b9e7665b91db774db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:53 +0000
Subject: [PATCH 10/40] fix: moved sub- and blocked matrices lost their leading
 and unblocked dimensions, blocked resize kept the old total size

---
 include/BlasBooster/Core/DenseMatrix.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index ee47889..b5a034a 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -199,6 +199,8 @@ public: // member functions
     /// Move constructor
     Matrix(self&& other)
      : dimension(std::move(other)),
+       leadingDimension(std::move(other)),
+       unblockedDimension(std::move(other)),
        storage(std::forward<storage>(other))
     {
         BLASBOOSTER_DEBUG_PRINT("Matrix: Move constructor is called.");
@@ -700,8 +702,7 @@ void Matrix<Dense,T,P>::resize(typename P::IndexType nbRows, typename P::IndexTy
     typename P::IndexType nbUnblockedRows, typename P::IndexType nbUnblockedColumns,
     typename std::enable_if<std::is_same<U, DynamicMatrix>::value>::type*)
 {
-    this->nbRows_ = nbRows;
-    this->nbColumns_ = nbColumns;
+    static_cast<dimension*>(this)->resize(nbRows, nbColumns);
     this->ubRows_ = nbUnblockedRows;
     this->ubColumns_ = nbUnblockedColumns;
     static_cast<storage*>(this)->resize(nbRows*nbColumns);
-- 
2.43.0


From 32dc7b0c0a216286d3ce469d8dd446912404f479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:23 +0000
Subject: [PATCH 11/40] fix: resizing a zero matrix kept its old total size

---
 include/BlasBooster/Core/ZeroMatrix.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/ZeroMatrix.h b/include/BlasBooster/Core/ZeroMatrix.h
index c9b0605..d104c2f 100644
--- a/include/BlasBooster/Core/ZeroMatrix.h
+++ b/include/BlasBooster/Core/ZeroMatrix.h
@@ -99,8 +99,7 @@ Matrix<Zero,NullType,P>::Matrix(Matrix<M2,T2,P2> const& other)
 template <class P>
 void Matrix<Zero,NullType,P>::resize(typename P::IndexType nbRows, typename P::IndexType nbColumns)
 {
-    this->nbRows_ = nbRows;
-    this->nbColumns_ = nbColumns;
+    dimension::resize(nbRows, nbColumns);
 }
 
 template <class P, class NormType>
-- 
2.43.0


From ed70ce95794e1b9bfc0c90df1484947b92e54dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:23 +0000
Subject: [PATCH 12/40] fix: swapped, move-assigned and resized matrices served
 the cached norm and occupation of their old content

---
 include/BlasBooster/Core/DenseMatrix.h  | 10 ++++++++++
 include/BlasBooster/Core/SparseMatrix.h |  8 ++++++++
 2 files changed, 18 insertions(+)

diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index b5a034a..8e1a781 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -57,6 +57,8 @@ public: // typedefs
     typedef typename P::leadingDimension leadingDimension;
     typedef typename P::unblockedDimension unblockedDimension;
     typedef typename P::IndexType IndexType;
+    typedef NormPolicy<self, typename P::NormType> normPolicy;
+    typedef OccupationPolicy<self> occupationPolicy;
     typedef Storage<T,P::onStack,P::isFixed,P::dimension::size,P::isSubMatrix> storage;
     typedef typename storage::iterator iterator;
     typedef typename storage::const_iterator const_iterator;
@@ -219,6 +221,8 @@ public: // member functions
         leadingDimension::operator=(std::forward<leadingDimension>(rhs));
         unblockedDimension::operator=(std::forward<unblockedDimension>(rhs));
         storage::operator=(std::forward<storage>(rhs));
+        normPolicy::operator=(rhs);
+        occupationPolicy::operator=(std::forward<occupationPolicy>(rhs));
         return *this;
     }
 
@@ -289,6 +293,8 @@ public: // member functions
     friend void swap( self& a, self& b ) BLASBOOSTER_NOEXCEPT {
         using std::swap; // bring in swap for built-in types
         swap(static_cast<dimension&>(a),static_cast<dimension&>(b));
+        swap(static_cast<normPolicy&>(a),static_cast<normPolicy&>(b));
+        swap(static_cast<occupationPolicy&>(a),static_cast<occupationPolicy&>(b));
         swap(static_cast<leadingDimension&>(a),static_cast<leadingDimension&>(b));
         swap(static_cast<unblockedDimension&>(a),static_cast<unblockedDimension&>(b));
         swap(static_cast<storage&>(a),static_cast<storage&>(b));
@@ -693,6 +699,8 @@ void Matrix<Dense,T,P>::resize(typename P::IndexType nbRows, typename P::IndexTy
 {
     static_cast<dimension*>(this)->resize(nbRows, nbColumns);
     static_cast<storage*>(this)->resize(nbRows * nbColumns);
+    normPolicy::operator=(normPolicy());
+    occupationPolicy::operator=(occupationPolicy());
     filler(*this);
 }
 
@@ -706,6 +714,8 @@ void Matrix<Dense,T,P>::resize(typename P::IndexType nbRows, typename P::IndexTy
     this->ubRows_ = nbUnblockedRows;
     this->ubColumns_ = nbUnblockedColumns;
     static_cast<storage*>(this)->resize(nbRows*nbColumns);
+    normPolicy::operator=(normPolicy());
+    occupationPolicy::operator=(occupationPolicy());
 }
 
 template <class T, class P>
diff --git a/include/BlasBooster/Core/SparseMatrix.h b/include/BlasBooster/Core/SparseMatrix.h
index 4bd7a6c..084f786 100644
--- a/include/BlasBooster/Core/SparseMatrix.h
+++ b/include/BlasBooster/Core/SparseMatrix.h
@@ -51,6 +51,8 @@ public: // typedefs
     typedef typename P::leadingDimension leadingDimension;
     typedef typename P::unblockedDimension unblockedDimension;
     typedef typename P::IndexType IndexType;
+    typedef NormPolicy<self, typename P::NormType> normPolicy;
+    typedef OccupationPolicy<self> occupationPolicy;
     typedef SparseStorage<T,typename P::IndexType,P::dimension::fixed,P::dimension::size> storage;
     typedef typename storage::iterator iterator;
     typedef typename storage::const_iterator const_iterator;
@@ -107,6 +109,8 @@ public:
         BLASBOOSTER_DEBUG_PRINT("SparseMatrix: Move assignment operator is called.");
         dimension::operator=(std::forward<dimension>(rhs));
         storage::operator=(std::forward<storage>(rhs));
+        normPolicy::operator=(rhs);
+        occupationPolicy::operator=(std::forward<occupationPolicy>(rhs));
         return *this;
     }
 
@@ -126,6 +130,8 @@ public:
     friend void swap(Matrix& a, Matrix& b) BLASBOOSTER_NOEXCEPT {
         using std::swap; // bring in swap for built-in types
         swap(static_cast<dimension&>(a),static_cast<dimension&>(b));
+        swap(static_cast<normPolicy&>(a),static_cast<normPolicy&>(b));
+        swap(static_cast<occupationPolicy&>(a),static_cast<occupationPolicy&>(b));
         swap(a.value_,b.value_);
         swap(a.key_,b.key_);
         swap(a.offset_,b.offset_);
@@ -267,6 +273,8 @@ void Matrix<Sparse,T,P>::resize(typename P::IndexType nbRows, typename P::IndexT
     this->full_size_ = nbRows * nbColumns;
     static_cast<storage*>(this)->resize(nbSignificantElements ? nbSignificantElements : nbRows*nbColumns,
         this->getMinorDimension() + 1);
+    normPolicy::operator=(normPolicy());
+    occupationPolicy::operator=(occupationPolicy());
 }
 
 } // namespace BlasBooster
-- 
2.43.0


From 93aa01ef41ba7a27c48791c6878fd8cd6d4d5b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:23 +0000
Subject: [PATCH 13/40] fix: copying a matrix on external memory leaked the
 copy's buffer

---
 include/BlasBooster/Core/Storage.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/Storage.h b/include/BlasBooster/Core/Storage.h
index 86f51e3..f0302d8 100644
--- a/include/BlasBooster/Core/Storage.h
+++ b/include/BlasBooster/Core/Storage.h
@@ -328,7 +328,7 @@ public:
 
     /// Copy constructor
     Storage(Storage const& rhs)
-     : data_(allocate<T>(rhs.size_)), size_(rhs.size_), ownMemory_(rhs.ownMemory_)
+     : data_(allocate<T>(rhs.size_)), size_(rhs.size_), ownMemory_(true)
     {
         BLASBOOSTER_DEBUG_PRINT("Storage (onHeap): Copy constructor is called.");
         std::copy(rhs.begin(), rhs.end(), begin());
-- 
2.43.0


From f03b92573b2042a56b96ef2dd6620e8049ea68f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:23 +0000
Subject: [PATCH 14/40] fix: assigning to a fixed-size storage on external
 memory made it release that memory

---
 include/BlasBooster/Core/Storage.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/BlasBooster/Core/Storage.h b/include/BlasBooster/Core/Storage.h
index f0302d8..ef0a63b 100644
--- a/include/BlasBooster/Core/Storage.h
+++ b/include/BlasBooster/Core/Storage.h
@@ -192,7 +192,6 @@ public:
         if ( this != &rhs ) {
             if ( rhs.size_ != size_ ) throw std::runtime_error("Storage (fixed,onHeap): rhs.size_ != size_");
             std::copy_n(rhs.begin(),rhs.size_,begin());
-            ownMemory_ = true;
         }
         return *this;
     }
-- 
2.43.0


From b7428d123fb0f35f0eee7e32f2871488a11d9971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:23 +0000
Subject: [PATCH 15/40] fix: self-move-assignment lost the content of a storage

---
 include/BlasBooster/Core/Storage.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/BlasBooster/Core/Storage.h b/include/BlasBooster/Core/Storage.h
index ef0a63b..fbc49a7 100644
--- a/include/BlasBooster/Core/Storage.h
+++ b/include/BlasBooster/Core/Storage.h
@@ -389,6 +389,7 @@ public:
     /// Move assignment
     Storage& operator = ( self&& rhs ) BLASBOOSTER_NOEXCEPT {
         BLASBOOSTER_DEBUG_PRINT("Storage (onHeap): Move assignment is called.");
+        if ( this == &rhs ) return *this;
         // clear own resources
         if (ownMemory_) deallocate<T>(data_);
         // steal other resources
-- 
2.43.0


From 3365a8fe98e6ce5dfc01d4a1731983bf760677a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:23 +0000
Subject: [PATCH 16/40] fix: a failing allocation left a dangling pointer to be
 released again, loading leaked the old buffer

---
 include/BlasBooster/Core/Storage.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/BlasBooster/Core/Storage.h b/include/BlasBooster/Core/Storage.h
index fbc49a7..08c8df0 100644
--- a/include/BlasBooster/Core/Storage.h
+++ b/include/BlasBooster/Core/Storage.h
@@ -365,6 +365,8 @@ public:
         if (size_ == size) return;
         if (!ownMemory_) throw std::runtime_error("resize storage with not own memory.");
         if (data_) deallocate<T>(data_);
+        data_ = nullptr;
+        size_ = 0;
         data_ = allocate<T>(size);
         size_ = size;
     }
@@ -374,6 +376,8 @@ public:
         BLASBOOSTER_DEBUG_PRINT("Storage (onHeap): Copy assignment is called.");
         if ( this != &rhs ) {
             if (ownMemory_) deallocate<T>(data_);
+            data_ = nullptr;
+            size_ = 0;
             if (rhs.ownMemory_) {
                 data_ = allocate<T>(rhs.size_);
                 std::copy(rhs.begin(),rhs.end(),begin());
@@ -485,6 +489,8 @@ protected:
     template <class Archive>
     void load(Archive & ar, const unsigned int version)
     {
+        if (ownMemory_ and data_) deallocate<T>(data_);
+        data_ = nullptr;
         ar >> size_;
         data_ = allocate<T>(size_);
         for ( size_t i(0); i != size_; ++i ) ar >> data_[i];
-- 
2.43.0


From 05fd7a9a2dbd1da121608e4065f1ad9e23e77b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:21 +0000
Subject: [PATCH 17/40] fix: adding a sparse to a dense matrix scattered
 row-major elements to transposed positions

---
 include/BlasBooster/Core/BinaryFunctors.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/BlasBooster/Core/BinaryFunctors.h b/include/BlasBooster/Core/BinaryFunctors.h
index 9467b3d..18a357a 100644
--- a/include/BlasBooster/Core/BinaryFunctors.h
+++ b/include/BlasBooster/Core/BinaryFunctors.h
@@ -270,7 +270,7 @@ struct BinaryOperationFunctor<Operation,Dense,T1,P1,Sparse,T2,P2,Dense,T3,P3>
 
         typename Matrix<Dense,T3,P3>::iterator iterCCur(C.begin());
 
-        for ( ; iterOffsetBCur != iterOffsetBEnd; ++iterOffsetBCur, iterCCur += C.getNbRows())
+        for ( ; iterOffsetBCur != iterOffsetBEnd; ++iterOffsetBCur, iterCCur += C.getMajorDimension())
         {
             iterValueBCur = B.begin() + *iterOffsetBCur;
             iterKeyBCur = B.beginKey() + *iterOffsetBCur;
@@ -374,15 +374,17 @@ struct BinaryAssignmentOperationFunctor<Operation,Dense,T1,P1,Sparse,T2,P2>
         assert(A.getNbRows() == B.getNbRows());
         assert(A.getNbColumns() == B.getNbColumns());
 
-        size_t col(0);
+        constexpr bool isColumnMajor = std::is_same<typename P2::orientation, ColumnMajor>::value;
+
+        size_t line(0);
         for (typename Matrix<Sparse,T2,P2>::const_index_iterator iterOffsetCur(B.beginOffset()),
-            iterOffsetEnd(B.endOffset()-1); iterOffsetCur != iterOffsetEnd; ++iterOffsetCur, ++col)
+            iterOffsetEnd(B.endOffset()-1); iterOffsetCur != iterOffsetEnd; ++iterOffsetCur, ++line)
         {
             typename Matrix<Sparse,T2,P2>::const_iterator iterValueCur(B.begin() + *iterOffsetCur);
             typename Matrix<Sparse,T2,P2>::const_index_iterator iterKeyCur(B.beginKey() + *iterOffsetCur), iterKeyEnd(B.beginKey() + *(iterOffsetCur+1));
             for ( ; iterKeyCur != iterKeyEnd; ++iterKeyCur, ++iterValueCur)
             {
-                OperationAssignment<Operation>()(A(*iterKeyCur,col),*iterValueCur);
+                OperationAssignment<Operation>()(isColumnMajor ? A(*iterKeyCur,line) : A(line,*iterKeyCur), *iterValueCur);
             }
         }
     }
-- 
2.43.0


From 69575c4002eb5759cde7802f634b3c4421f07c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:45 +0000
Subject: [PATCH 18/40] fix: conversions between equal representations ignored
 the value filter, transposing empty sparse matrices

---
 include/BlasBooster/Core/DenseMatrix.h   | 26 +++++++++++++-----
 include/BlasBooster/Core/EmptyTypes.h    |  7 +++++
 include/BlasBooster/Core/SparseMatrix.h  | 35 ++++++++++++++++++++++--
 include/BlasBooster/Core/Transposition.h |  5 +++-
 4 files changed, 62 insertions(+), 11 deletions(-)

diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index 8e1a781..9d00d77 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -117,7 +117,7 @@ public: // member functions
     );
 
     /// Conversion from DenseMatrix with same orientation
-    template <class T2, class P2, class ValueChecker = AbsoluteValueRangeChecker<double> >
+    template <class T2, class P2, class ValueChecker = AcceptEveryValue>
     Matrix(Matrix<Dense,T2,P2> const& other, ValueChecker const& valueChecker = ValueChecker(),
         typename std::enable_if<
             std::is_same<typename P::orientation, typename P2::orientation>::value and
@@ -126,7 +126,7 @@ public: // member functions
     );
 
     /// Conversion from DenseMatrix with different orientation
-    template <class T2, class P2, class ValueChecker = AbsoluteValueRangeChecker<double> >
+    template <class T2, class P2, class ValueChecker = AcceptEveryValue>
     Matrix(Matrix<Dense,T2,P2> const& other, ValueChecker const& valueChecker = ValueChecker(),
         typename std::enable_if<
             !std::is_same<typename P::orientation, typename P2::orientation>::value and
@@ -135,7 +135,7 @@ public: // member functions
     );
 
     /// Conversion from SubDenseMatrix
-    template <class T2, class P2, class ValueChecker = AbsoluteValueRangeChecker<double> >
+    template <class T2, class P2, class ValueChecker = AcceptEveryValue>
     Matrix(Matrix<Dense,T2,P2> const& other, ValueChecker const& valueChecker = ValueChecker(),
         typename std::enable_if<
             std::is_same<typename P::orientation, ColumnMajor>::value and
@@ -145,7 +145,7 @@ public: // member functions
     );
 
     /// Conversion from SubDenseMatrix
-    template <class T2, class P2, class ValueChecker = AbsoluteValueRangeChecker<double> >
+    template <class T2, class P2, class ValueChecker = AcceptEveryValue>
     Matrix(Matrix<Dense,T2,P2> const& other, ValueChecker const& valueChecker = ValueChecker(),
         typename std::enable_if<
             std::is_same<typename P::orientation, RowMajor>::value and
@@ -468,7 +468,12 @@ Matrix<Dense,T,P>::Matrix(Matrix<Dense,T2,P2> const& other, ValueChecker const&
     >::type*)
   : dimension(other.getNbRows(), other.getNbColumns()),
     storage(other)
-{}
+{
+    typename Matrix<Dense,T2,P2>::const_iterator otherIterCur(other.begin());
+    for (iterator iterCur(this->begin()), iterEnd(this->end()); iterCur != iterEnd; ++iterCur, ++otherIterCur) {
+        if (!valueChecker(*otherIterCur)) *iterCur = T();
+    }
+}
 
 // Conversion from DenseMatrix with different orientation
 template <class T, class P>
@@ -479,8 +484,15 @@ Matrix<Dense,T,P>::Matrix(Matrix<Dense,T2,P2> const& other, ValueChecker const&
         !P2::isSubMatrix and !P2::isBlockedMatrix
     >::type*)
   : dimension(other.getNbRows(), other.getNbColumns()),
-    storage(transpose(other))
-{}
+    storage(other.getSize())
+{
+    const Matrix<Dense,T2,P2> transposed = transpose(other);
+    iterator iterCur(this->begin());
+    typename Matrix<Dense,T2,P2>::const_iterator transIterCur(transposed.begin()), transIterEnd(transposed.end());
+    for ( ; transIterCur != transIterEnd; ++transIterCur, ++iterCur) {
+        *iterCur = valueChecker(*transIterCur) ? static_cast<T>(*transIterCur) : T();
+    }
+}
 
 /// Conversion from SubDenseMatrix
 template <class T, class P>
diff --git a/include/BlasBooster/Core/EmptyTypes.h b/include/BlasBooster/Core/EmptyTypes.h
index 779c012..698041e 100644
--- a/include/BlasBooster/Core/EmptyTypes.h
+++ b/include/BlasBooster/Core/EmptyTypes.h
@@ -9,4 +9,11 @@ struct Plus {};       ///< Type for addition in BinaryOperation
 struct Minus {};      ///< Type for subtraction in BinaryOperation
 struct NullType{};    ///< Type for empty class
 
+/// Value filter accepting every value
+struct AcceptEveryValue
+{
+    template <class T>
+    bool operator () (T const&) const { return true; }
+};
+
 }
diff --git a/include/BlasBooster/Core/SparseMatrix.h b/include/BlasBooster/Core/SparseMatrix.h
index 084f786..3e28e59 100644
--- a/include/BlasBooster/Core/SparseMatrix.h
+++ b/include/BlasBooster/Core/SparseMatrix.h
@@ -70,7 +70,7 @@ public:
     Matrix(IndexType nbRows, IndexType nbColumns, IndexType nbSignificantElements = 0, Filler const& filler = Filler());
 
     /// Conversion from SparseMatrix
-    template <class T2, class P2, class ValueChecker = AbsoluteValueRangeChecker<T>>
+    template <class T2, class P2, class ValueChecker = AcceptEveryValue>
     Matrix(Matrix<Sparse,T2,P2> const& other, ValueChecker const& valueChecker = ValueChecker());
 
     /// Conversion from DenseMatrix
@@ -182,8 +182,37 @@ template <class T, class P>
 template <class T2, class P2, class ValueChecker>
 Matrix<Sparse,T,P>::Matrix(Matrix<Sparse,T2,P2> const& other, ValueChecker const& valueChecker)
  : dimension(other.getNbRows(), other.getNbColumns()),
-   storage(std::is_same<typename P::orientation, typename P2::orientation>::value ? other : transpose(other))
-{}
+   storage(other.nnz(), this->getMinorDimension() + 1)
+{
+    const Matrix<Sparse,T2,P2> source(std::is_same<typename P::orientation, typename P2::orientation>::value ? other : transpose(other));
+    typename Matrix<Sparse,T2,P2>::const_index_iterator iterSourceOffsetCur(source.beginOffset()), iterSourceOffsetEnd(source.endOffset() - 1);
+
+    iterator iterValueCur(this->begin());
+    index_iterator iterKeyCur(this->beginKey());
+    index_iterator iterOffsetCur(this->beginOffset());
+
+    typename P::IndexType offset(0);
+    *iterOffsetCur++ = offset;
+
+    for ( ; iterSourceOffsetCur != iterSourceOffsetEnd; ++iterSourceOffsetCur)
+    {
+        typename Matrix<Sparse,T2,P2>::const_iterator iterSourceValueCur(source.begin() + *iterSourceOffsetCur);
+        for (typename Matrix<Sparse,T2,P2>::const_index_iterator iterSourceKeyCur(source.beginKey() + *iterSourceOffsetCur),
+            iterSourceKeyEnd(source.beginKey() + *(iterSourceOffsetCur + 1)); iterSourceKeyCur != iterSourceKeyEnd;
+            ++iterSourceKeyCur, ++iterSourceValueCur)
+        {
+            if (valueChecker(*iterSourceValueCur)) {
+                *iterValueCur++ = *iterSourceValueCur;
+                *iterKeyCur++ = *iterSourceKeyCur;
+                ++offset;
+            }
+        }
+        *iterOffsetCur++ = offset;
+    }
+
+    // release the space of the dropped values
+    if (offset != this->nnz()) this->shrink(offset);
+}
 
 // Conversion from DenseMatrix
 template <class T, class P>
diff --git a/include/BlasBooster/Core/Transposition.h b/include/BlasBooster/Core/Transposition.h
index 31497e3..7ef9563 100644
--- a/include/BlasBooster/Core/Transposition.h
+++ b/include/BlasBooster/Core/Transposition.h
@@ -2,6 +2,8 @@
 
 #include "DenseMatrix.h"
 #include "SparseMatrix.h"
+#include <algorithm>
+#include <vector>
 
 namespace BlasBooster {
 
@@ -35,6 +37,7 @@ template <class T, class P>
 Matrix<Sparse,T,P> transpose(Matrix<Sparse,T,P> const& matrix)
 {
     Matrix<Sparse,T,P> transposedMatrix(matrix.getNbColumns(), matrix.getNbRows(), matrix.nnz());
+    if (matrix.nnz() == 0) transposedMatrix.shrink(0);
 
     typedef typename Matrix<Sparse,T,P>::IndexType IndexType;
     typedef typename Matrix<Sparse,T,P>::iterator iterator;
@@ -59,7 +62,7 @@ Matrix<Sparse,T,P> transpose(Matrix<Sparse,T,P> const& matrix)
     }
 
     // accumulate number of elements to new offsets of transposed matrix
-    for ( typename Matrix<Sparse,T,P>::index_iterator iterOffsetTransCur(transposedMatrix.beginOffset() + 2),
+    for ( typename Matrix<Sparse,T,P>::index_iterator iterOffsetTransCur(transposedMatrix.beginOffset() + std::min<IndexType>(2, transposedMatrix.sizeOffset())),
         iterOffsetTransEnd(transposedMatrix.endOffset()); iterOffsetTransCur != iterOffsetTransEnd; ++iterOffsetTransCur )
     {
         *iterOffsetTransCur += *(iterOffsetTransCur - 1);
-- 
2.43.0


From db52a8c50edf956d68610be342245eb7a9e3aa1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:10 +0000
Subject: [PATCH 19/40] fix: row-major sub-matrices and products of row-major
 dense matrices, sub-matrices of sub-matrices

---
 include/BlasBooster/Core/DenseMatrix.h        | 25 +++++++------------
 .../BlasBooster/Core/Multiplication_Native.h  |  8 +++++-
 2 files changed, 16 insertions(+), 17 deletions(-)

diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index 9d00d77..b89a414 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -435,10 +435,10 @@ Matrix<Dense,T,P>::Matrix(Matrix<Dense,T2,P2> const& other, typename P::IndexTyp
         U::isSubMatrix
     >::type*)
  : dimension(nbRows,nbColumns),
-   leadingDimension(other.getNbRows(),other.getNbColumns()),
+   leadingDimension(other.getLdRows(),other.getLdColumns()),
    // TODO: avoid const_cast
-   storage(const_cast<T2*>(other.getDataPointer() + beginRow + beginColumn * other.getNbRows()),
-       nbRows, nbColumns, other.getNbRows() - nbRows)
+   storage(const_cast<T2*>(other.getDataPointer() + beginRow + beginColumn * other.getLdRows()),
+       nbRows, nbColumns, other.getLdRows() - nbRows)
 {}
 
 template <class T, class P>
@@ -451,11 +451,9 @@ Matrix<Dense,T,P>::Matrix(Matrix<Dense,T2,P2> const& other, typename P::IndexTyp
         U::isSubMatrix
     >::type*)
  : dimension(nbRows,nbColumns),
-   leadingDimension(other.getNbRows(),other.getNbColumns()),
-   storage(
-       const_cast<T2*>(other.getDataPointer()) + beginRow * other.getNbColumns() + beginColumn,
-       other.getSize() - beginRow * other.getNbColumns() - beginColumn
-   )
+   leadingDimension(other.getLdRows(),other.getLdColumns()),
+   storage(const_cast<T2*>(other.getDataPointer() + beginRow * other.getLdColumns() + beginColumn),
+       nbColumns, nbRows, other.getLdColumns() - nbColumns)
 {}
 
 // Conversion from DenseMatrix with same orientation
@@ -527,15 +525,10 @@ Matrix<Dense,T,P>::Matrix(Matrix<Dense,T2,P2> const& other, ValueChecker const&
     storage(other.getSize())
 {
     typename storage::iterator iterCur(this->begin());
-    typename Matrix<Dense,T2,P2>::const_iterator otherIterCur(other.begin());
-
-    typename P2::IndexType leadingDifference(other.getLdColumns() - other.getNbColumns());
+    typename Matrix<Dense,T2,P2>::const_iterator otherIterCur(other.begin()), otherIterEnd(other.end());
 
-    for ( size_t rowCur(0), rowEnd(other.getNbRows()); rowCur != rowEnd; ++rowCur ) {
-        for ( size_t columnCur(0), columnEnd(other.getNbColumns()); columnCur != columnEnd; ++columnCur ) {
-            *iterCur++ = *otherIterCur++;
-        }
-        otherIterCur += leadingDifference;
+    for ( ; otherIterCur != otherIterEnd; ++otherIterCur, ++iterCur) {
+        *iterCur = valueChecker(*otherIterCur) ? *otherIterCur : 0.0;
     }
 }
 
diff --git a/include/BlasBooster/Core/Multiplication_Native.h b/include/BlasBooster/Core/Multiplication_Native.h
index 07f7bd5..b3ddf88 100644
--- a/include/BlasBooster/Core/Multiplication_Native.h
+++ b/include/BlasBooster/Core/Multiplication_Native.h
@@ -101,7 +101,13 @@ template <class T1, class P1,
           class T2, class P2,
           class T3, class P3>
 struct MultiplicationFunctor<Dense,T1,P1,Dense,T2,P2,Dense,T3,P3,Native>
- : public GeneralDenseMultiplicationFunctor<T1,P1,T2,P2,T3,P3>
+ : public std::conditional<
+       std::is_same<typename P1::orientation, ColumnMajor>::value and
+       std::is_same<typename P2::orientation, ColumnMajor>::value and
+       std::is_same<typename P3::orientation, ColumnMajor>::value,
+       GeneralDenseMultiplicationFunctor<T1,P1,T2,P2,T3,P3>,
+       GeneralDenseMultiplicationFunctorUsingCursor<T1,P1,T2,P2,T3,P3>
+   >::type
 {};
 
 /// Matrix multiplication specialized for DynamicMatrix Dense, Dense.
-- 
2.43.0


From fa85b865bb5b89c1b80dfdbc2a2bcf168c2a4b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:10 +0000
Subject: [PATCH 20/40] fix: iterating over an empty sub-matrix ran past its
 end

---
 include/BlasBooster/Core/Storage.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/Storage.h b/include/BlasBooster/Core/Storage.h
index 08c8df0..044ec14 100644
--- a/include/BlasBooster/Core/Storage.h
+++ b/include/BlasBooster/Core/Storage.h
@@ -608,11 +608,11 @@ public:
     }
 
     iterator end() {
-        return iterator(data_ + size_ + (nbBlocks_-1) * separatorSize_, continuousSize_, nbBlocks_, continuousSize_, separatorSize_, nbBlocks_);
+        return iterator(data_ + (size_ ? size_ + (nbBlocks_-1) * separatorSize_ : 0), continuousSize_, nbBlocks_, continuousSize_, separatorSize_, nbBlocks_);
     }
 
     const_iterator end() const {
-        return const_iterator(data_ + size_ + (nbBlocks_-1) * separatorSize_, continuousSize_, nbBlocks_, continuousSize_, separatorSize_, nbBlocks_);
+        return const_iterator(data_ + (size_ ? size_ + (nbBlocks_-1) * separatorSize_ : 0), continuousSize_, nbBlocks_, continuousSize_, separatorSize_, nbBlocks_);
     }
 
     iterator rend() {
-- 
2.43.0


From 2da7a362787f87115da5c7f8756ee7130f5c1905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:27 +0000
Subject: [PATCH 21/40] fix: single-precision occupation threshold of the zero
 matrix returned the double-precision setting

---
 include/BlasBooster/Core/Threshold.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/Threshold.h b/include/BlasBooster/Core/Threshold.h
index 66591c7..75cec0a 100644
--- a/include/BlasBooster/Core/Threshold.h
+++ b/include/BlasBooster/Core/Threshold.h
@@ -170,7 +170,7 @@ struct OccupationThresholdDistributor<Matrix<Dense,double>,double>
 template <>
 struct OccupationThresholdDistributor<Matrix<Zero>,float>
 {
-    ThresholdType operator () (Threshold const& threshold) const { return threshold.settings.occupationThresholdMatrixZeroDoublePrecision; }
+    ThresholdType operator () (Threshold const& threshold) const { return threshold.settings.occupationThresholdMatrixZeroSinglePrecision; }
 };
 
 template <>
-- 
2.43.0


From 91df0b10348fd9a07a678c431bb8970346cd81af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:27 +0000
Subject: [PATCH 22/40] fix: ordering of value filters of unlisted types
 compared unrelated objects

---
 include/BlasBooster/Core/AbsoluteValueRangeChecker.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/BlasBooster/Core/AbsoluteValueRangeChecker.h b/include/BlasBooster/Core/AbsoluteValueRangeChecker.h
index c1d6fb6..10df787 100644
--- a/include/BlasBooster/Core/AbsoluteValueRangeChecker.h
+++ b/include/BlasBooster/Core/AbsoluteValueRangeChecker.h
@@ -2,6 +2,7 @@
 
 #include "BlasBooster/Utilities/TypeList.h"
 #include "BlasBooster/Core/CoreException.h"
+#include <typeinfo>
 #include <cmath>
 #include <memory>
 
@@ -66,6 +67,8 @@ public:
     bool operator < (ValueCheckerBase const& other) const
     {
         size_t otherID = other.getID();
+        // types beyond ValueCheckerTypeList share one ID
+        if (id_ == otherID and typeid(*this) != typeid(other)) return typeid(*this).before(typeid(other));
         return std::tie(id_,threshold_)
             < std::tie(otherID,
             static_cast<AbsoluteValueRangeChecker const&>(other).threshold_);
@@ -110,6 +113,8 @@ public:
     bool operator < (ValueCheckerBase const& other) const
     {
         size_t otherID = other.getID();
+        // types beyond ValueCheckerTypeList share one ID
+        if (id_ == otherID and typeid(*this) != typeid(other)) return typeid(*this).before(typeid(other));
         return std::tie(id_,lowerThreshold_,upperThreshold_)
             < std::tie(otherID,
             static_cast<AbsoluteValueRangeChecker const&>(other).lowerThreshold_,
@@ -156,6 +161,8 @@ public:
     bool operator < (ValueCheckerBase const& other) const
     {
         size_t otherID = other.getID();
+        // types beyond ValueCheckerTypeList share one ID
+        if (id_ == otherID and typeid(*this) != typeid(other)) return typeid(*this).before(typeid(other));
         return std::tie(id_,lowerThreshold_,upperThreshold_)
             < std::tie(otherID,
             static_cast<AbsoluteValueRangeChecker const&>(other).lowerThreshold_,
@@ -202,6 +209,8 @@ public:
     bool operator < (ValueCheckerBase const& other) const
     {
         size_t otherID = other.getID();
+        // types beyond ValueCheckerTypeList share one ID
+        if (id_ == otherID and typeid(*this) != typeid(other)) return typeid(*this).before(typeid(other));
         return std::tie(id_,lowerThreshold_,upperThreshold_)
             < std::tie(otherID,
             static_cast<AbsoluteValueRangeChecker const&>(other).lowerThreshold_,
-- 
2.43.0


From 371cfca9cb5954aaee157d8121cab6685260a796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:13 +0000
Subject: [PATCH 23/40] fix: throw the errors for unknown actions and matrix
 sets

---
 src/Benchmark/ActionProvider.cpp     | 2 +-
 src/Benchmark/MatrixProvider.cpp     | 2 +-
 src/Benchmark/matrix_matrix_mult.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Benchmark/ActionProvider.cpp b/src/Benchmark/ActionProvider.cpp
index a278dcb..3db6967 100644
--- a/src/Benchmark/ActionProvider.cpp
+++ b/src/Benchmark/ActionProvider.cpp
@@ -101,7 +101,7 @@ ActionProvider::ActionProvider(ptree const& tree)
 //    	if (leaf.first == "blasbooster_sparse_float") {
 //    		action_list.push_back(std::make_shared<Action_blasbooster_sparse_float>(leaf.second));
         } else {
-            std::runtime_error(std::string("Unknown action: ") + leaf.first);
+            throw std::runtime_error(std::string("Unknown action: ") + leaf.first);
         }
     }
 }
diff --git a/src/Benchmark/MatrixProvider.cpp b/src/Benchmark/MatrixProvider.cpp
index 709bb84..898351b 100644
--- a/src/Benchmark/MatrixProvider.cpp
+++ b/src/Benchmark/MatrixProvider.cpp
@@ -41,7 +41,7 @@ MatrixProvider::MatrixProvider(ptree const& tree)
                 auto&& filename = type_leaf.second.get_value<std::string>();
                 matrix_set[name_leaf.first].push_back(Matrix<Dense, double>(filename));
             } else {
-                std::runtime_error("Unknown matrix_set type.");
+                throw std::runtime_error("Unknown matrix_set type.");
             }
         }
     }
diff --git a/src/Benchmark/matrix_matrix_mult.cpp b/src/Benchmark/matrix_matrix_mult.cpp
index b04b9d3..1268f40 100644
--- a/src/Benchmark/matrix_matrix_mult.cpp
+++ b/src/Benchmark/matrix_matrix_mult.cpp
@@ -199,7 +199,7 @@ matrix_matrix_mult(std::string const& action, BrainTwister::Benchmark const& ben
     }
     else
     {
-        std::runtime_error(std::string("Unknown action: ") + action);
+        throw std::runtime_error(std::string("Unknown action: ") + action);
     }
 
     return std::make_tuple(C, time, details);
-- 
2.43.0


From bfaa08d10dd0ec53c5d2aaee3e17c40ff4f6ecc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:14 +0000
Subject: [PATCH 24/40] fix: IntelMKL sparse product passes the size by address
 and consistent shapes and operands

---
 .../Core/Multiplication_IntelMKL.h            | 68 +++++++++++--------
 1 file changed, 40 insertions(+), 28 deletions(-)

diff --git a/include/BlasBooster/Core/Multiplication_IntelMKL.h b/include/BlasBooster/Core/Multiplication_IntelMKL.h
index f162a06..2306345 100644
--- a/include/BlasBooster/Core/Multiplication_IntelMKL.h
+++ b/include/BlasBooster/Core/Multiplication_IntelMKL.h
@@ -128,23 +128,32 @@ struct MultiplicationFunctor<Sparse,T,P,Sparse,T,P,Sparse,T,P,IntelMKL>
         int sort = 8;
         int info;
 
-        std::vector<int> A_key(A.key_.size());
-        std::transform(A.key_.begin(), A.key_.end(), A_key.begin(), [](size_t value){
+        // The lists of a column-major matrix are the row-major lists of its transposed: C^T = B^T * A^T
+        constexpr bool isColumnMajor = std::is_same<typename P::orientation, ColumnMajor>::value;
+        Matrix<Sparse,T,P> const& L = isColumnMajor ? B : A;
+        Matrix<Sparse,T,P> const& R = isColumnMajor ? A : B;
+        int nbRowsL = isColumnMajor ? B.nbColumns_ : A.nbRows_;
+        int nbInner = A.nbColumns_;
+        int nbColumnsR = isColumnMajor ? A.nbRows_ : B.nbColumns_;
+        int nzmax = C.value_.size();
+
+        std::vector<int> L_key(L.key_.size());
+        std::transform(L.key_.begin(), L.key_.end(), L_key.begin(), [](size_t value){
             return ++value;
         });
 
-        std::vector<int> A_offset(A.offset_.size());
-        std::transform(A.offset_.begin(), A.offset_.end(), A_offset.begin(), [](size_t value){
+        std::vector<int> L_offset(L.offset_.size());
+        std::transform(L.offset_.begin(), L.offset_.end(), L_offset.begin(), [](size_t value){
             return ++value;
         });
 
-        std::vector<int> B_key(B.key_.size());
-        std::transform(B.key_.begin(), B.key_.end(), B_key.begin(), [](size_t value){
+        std::vector<int> R_key(R.key_.size());
+        std::transform(R.key_.begin(), R.key_.end(), R_key.begin(), [](size_t value){
             return ++value;
         });
 
-        std::vector<int> B_offset(B.offset_.size());
-        std::transform(B.offset_.begin(), B.offset_.end(), B_offset.begin(), [](size_t value){
+        std::vector<int> R_offset(R.offset_.size());
+        std::transform(R.offset_.begin(), R.offset_.end(), R_offset.begin(), [](size_t value){
             return ++value;
         });
 
@@ -155,19 +164,19 @@ struct MultiplicationFunctor<Sparse,T,P,Sparse,T,P,Sparse,T,P,IntelMKL>
             &n,
             &request,
             &sort,
-            reinterpret_cast<const int*>(&A.nbRows_),
-            reinterpret_cast<const int*>(&A.nbColumns_),
-            reinterpret_cast<const int*>(&B.nbColumns_),
-            const_cast<T*>(A.value_.getDataPointer()),
-            &A_key[0],
-            &A_offset[0],
-            const_cast<T*>(B.value_.getDataPointer()),
-            &B_key[0],
-            &B_offset[0],
+            &nbRowsL,
+            &nbInner,
+            &nbColumnsR,
+            const_cast<T*>(L.value_.getDataPointer()),
+            &L_key[0],
+            &L_offset[0],
+            const_cast<T*>(R.value_.getDataPointer()),
+            &R_key[0],
+            &R_offset[0],
             const_cast<T*>(C.value_.getDataPointer()),
             &C_key[0],
             &C_offset[0],
-            reinterpret_cast<const int*>(C.value_.size()),
+            &nzmax,
             &info
         );
         assert(info == 0);
@@ -177,19 +186,19 @@ struct MultiplicationFunctor<Sparse,T,P,Sparse,T,P,Sparse,T,P,IntelMKL>
             &n,
             &request,
             &sort,
-            reinterpret_cast<const int*>(&A.nbRows_),
-            reinterpret_cast<const int*>(&B.nbColumns_),
-            reinterpret_cast<const int*>(&A.nbColumns_),
-            const_cast<T*>(A.value_.getDataPointer()),
-            &A_key[0],
-            &A_offset[0],
-            const_cast<T*>(B.value_.getDataPointer()),
-            &B_key[0],
-            &B_offset[0],
+            &nbRowsL,
+            &nbInner,
+            &nbColumnsR,
+            const_cast<T*>(L.value_.getDataPointer()),
+            &L_key[0],
+            &L_offset[0],
+            const_cast<T*>(R.value_.getDataPointer()),
+            &R_key[0],
+            &R_offset[0],
             const_cast<T*>(C.value_.getDataPointer()),
             &C_key[0],
             &C_offset[0],
-            reinterpret_cast<const int*>(C.value_.size()),
+            &nzmax,
             &info
         );
         assert(info == 0);
@@ -201,6 +210,9 @@ struct MultiplicationFunctor<Sparse,T,P,Sparse,T,P,Sparse,T,P,IntelMKL>
         std::transform(C_offset.begin(), C_offset.end(), C.offset_.begin(), [](int value){
             return --value;
         });
+
+        // release the space which was not needed
+        C.shrink(C_offset.back() - 1);
     }
 };
 
-- 
2.43.0


From 702804a55c73ff37b05d2b099d0a88053ca09e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:14 +0000
Subject: [PATCH 25/40] fix: conversion from a RowMajor dense matrix to a
 sparse one walks the lines of the result

---
 include/BlasBooster/Core/SparseMatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/SparseMatrix.h b/include/BlasBooster/Core/SparseMatrix.h
index 3e28e59..1380f6a 100644
--- a/include/BlasBooster/Core/SparseMatrix.h
+++ b/include/BlasBooster/Core/SparseMatrix.h
@@ -228,7 +228,7 @@ Matrix<Sparse,T,P>::Matrix(Matrix<Dense,T2,P2> const& other, ValueChecker const&
     typename P::IndexType key, offset(0);
 
     typedef typename std::conditional<
-        std::is_same<typename P::orientation, typename P2::orientation>::value,
+        std::is_same<typename P::orientation, ColumnMajor>::value,
         Cursor<const Matrix<Dense,T2,P2>, Direction::Column>,
         Cursor<const Matrix<Dense,T2,P2>, Direction::Row>
     >::type OuterCursor;
-- 
2.43.0


From ca7e8bc06817617a9974c575f509711c4689b930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:05 +0000
Subject: [PATCH 26/40] fix: sums with a matrix on external memory modified
 that operand

---
 include/BlasBooster/Core/BinaryFunctors.h | 9 +++++----
 include/BlasBooster/Core/DenseMatrix.h    | 2 +-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/BlasBooster/Core/BinaryFunctors.h b/include/BlasBooster/Core/BinaryFunctors.h
index 18a357a..339672a 100644
--- a/include/BlasBooster/Core/BinaryFunctors.h
+++ b/include/BlasBooster/Core/BinaryFunctors.h
@@ -266,7 +266,8 @@ struct BinaryOperationFunctor<Operation,Dense,T1,P1,Sparse,T2,P2,Dense,T3,P3>
         typename Matrix<Sparse,T2,P2>::const_index_iterator iterKeyBCur, iterKeyBEnd;
         typename Matrix<Sparse,T2,P2>::const_index_iterator iterOffsetBCur(B.beginOffset()), iterOffsetBEnd(B.endOffset() - 1);
 
-        C = A;
+        // an own copy, also of a matrix using external memory
+        C = Matrix<Dense,T3,P3>(A);
 
         typename Matrix<Dense,T3,P3>::iterator iterCCur(C.begin());
 
@@ -291,7 +292,7 @@ struct BinaryOperationFunctor<Operation,Sparse,T1,P1,Dense,T2,P2,Dense,T3,P3>
     void operator () (Matrix<Sparse,T1,P1> const& A, Matrix<Dense,T2,P2> const& B, Matrix<Dense,T3,P3>& C)
     {
         // C = 0 <Operation> B, followed by C += A
-        C = B;
+        C = Matrix<Dense,T3,P3>(B);
         for (typename Matrix<Dense,T3,P3>::iterator iterCCur(C.begin()), iterCEnd(C.end()); iterCCur != iterCEnd; ++iterCCur)
         {
             UnaryOperation<Operation>()(*iterCCur, *iterCCur);
@@ -306,7 +307,7 @@ struct BinaryOperationFunctor<Operation,M,T,P,Zero,NullType,P,M,T,P>
 {
     void operator () (Matrix<M,T,P> const& A, Matrix<Zero,NullType,P> const& B, Matrix<M,T,P>& C)
     {
-        C = A;
+        C = Matrix<M,T,P>(A);
     }
 };
 
@@ -316,7 +317,7 @@ struct BinaryOperationFunctor<Operation,Zero,NullType,P,M,T,P,M,T,P>
 {
     void operator () (Matrix<Zero,NullType,P> const& A, Matrix<M,T,P> const& B, Matrix<M,T,P>& C)
     {
-        C = B;
+        C = Matrix<M,T,P>(B);
         for (typename Matrix<M,T,P>::iterator iterCCur(C.begin()), iterCEnd(C.end()); iterCCur != iterCEnd; ++iterCCur)
         {
             UnaryOperation<Operation>()(*iterCCur, *iterCCur);
diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index b89a414..2f1ef59 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -666,7 +666,7 @@ template <class X1, class X2>
 Matrix<Dense,T,P>::Matrix(MultipleMatrix<X1,X2> const& other)
  : dimension(other.getNbRows(), other.getNbColumns()), storage(other.getSize())
 {
-    *this = other.getMatrix1();
+    *this = self(other.getMatrix1());
     *this += other.getMatrix2();
 }
 
-- 
2.43.0


From c24c227ab9f8e4353b51ae900b2f3a44438a178a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:18 +0000
Subject: [PATCH 27/40] fix: reject truncated matrix files and check the header
 before resizing

---
 include/BlasBooster/Core/MatrixFileIO.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/MatrixFileIO.h b/include/BlasBooster/Core/MatrixFileIO.h
index 623cea2..4649c4f 100644
--- a/include/BlasBooster/Core/MatrixFileIO.h
+++ b/include/BlasBooster/Core/MatrixFileIO.h
@@ -28,7 +28,6 @@ std::istream& operator >> (std::istream& is, Matrix<Dense,T,P>& matrix)
     boost::property_tree::ptree tree;
     boost::property_tree::read_xml(is, tree);
     MatrixFileSettings settings(tree);
-    matrix.resize(settings.nbRows, settings.nbColumns);
 
     // Some dimension checks
     if (settings.nbRows + settings.rowOffset > settings.rowLeadingDimension) throw BlasBoosterException("");
@@ -37,14 +36,17 @@ std::istream& operator >> (std::istream& is, Matrix<Dense,T,P>& matrix)
     std::ifstream is2(settings.filename, std::ifstream::binary);
     if (!is2) throw BlasBoosterException("Can't open file " + settings.filename);
 
+    matrix.resize(settings.nbRows, settings.nbColumns);
     T* dataPointer = matrix.getDataPointer();
 
     if (settings.nbColumns == settings.columnLeadingDimension and settings.nbRows == settings.rowLeadingDimension) {
         is2.read(reinterpret_cast<char*>(dataPointer), settings.nbRows * settings.nbColumns * sizeof(T));
+        if (!is2) throw BlasBoosterException("Can't read file " + settings.filename);
     } else {
         is2.seekg((settings.columnOffset * settings.rowLeadingDimension + settings.rowOffset) * sizeof(T), is.cur);
         for (size_t col = 0; col < settings.nbColumns; ++col) {
             is2.read(reinterpret_cast<char*>(dataPointer), settings.nbRows * sizeof(T));
+            if (!is2) throw BlasBoosterException("Can't read file " + settings.filename);
             dataPointer += settings.nbRows;
             is2.seekg((settings.rowLeadingDimension - settings.nbRows) * sizeof(T), is.cur);
         }
-- 
2.43.0


From a06c9e8407d6a716cae59b724c4566f372961a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:03 +0000
Subject: [PATCH 28/40] fix: block size generation used uninitialised indices
 when no block can be divided

---
 include/BlasBooster/Core/BlockSizeGenerator.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/BlasBooster/Core/BlockSizeGenerator.h b/include/BlasBooster/Core/BlockSizeGenerator.h
index 34432da..192e884 100644
--- a/include/BlasBooster/Core/BlockSizeGenerator.h
+++ b/include/BlasBooster/Core/BlockSizeGenerator.h
@@ -180,6 +180,7 @@ std::vector<size_t> BlockSizeGenerator::get_block_size(std::vector<T> const& det
                     next_right = right;
                 }
             }
+            if (largest_min == 0) break; // no index left which divides a block into two of sufficient size
             equal_indices.erase(next_j);
             borders.insert(next_idx);
             if (large_blocks.find(next_left_idx) != large_blocks.end())
-- 
2.43.0


From eabe3af751d6ec088db021eb03f814a08b03b34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:54 +0000
Subject: [PATCH 29/40] fix: products of row-major dense matrices are tracked
 like the other native dense products

---
 include/BlasBooster/Core/Multiplication_Native.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/BlasBooster/Core/Multiplication_Native.h b/include/BlasBooster/Core/Multiplication_Native.h
index b3ddf88..161c301 100644
--- a/include/BlasBooster/Core/Multiplication_Native.h
+++ b/include/BlasBooster/Core/Multiplication_Native.h
@@ -60,6 +60,8 @@ struct GeneralDenseMultiplicationFunctorUsingCursor
 {
     void operator () (Matrix<Dense,T1,P1> const& A, Matrix<Dense,T2,P2> const& B, Matrix<Dense,T3,P3>& C)
     {
+        [[maybe_unused]] Tracker<TrackerID::Native_GeneralDense> tracker;
+
         typedef const Matrix<Dense,T1,P1> ConstMatrixA;
         typedef const Matrix<Dense,T2,P2> ConstMatrixB;
         typedef Matrix<Dense,T3,P3> MatrixC;
-- 
2.43.0


From 5468f12f41a35eb7c8738f2bea643625179ac12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:28 +0000
Subject: [PATCH 30/40] fix: loading a fixed-size storage on external memory
 made it release that memory

---
 include/BlasBooster/Core/Storage.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/BlasBooster/Core/Storage.h b/include/BlasBooster/Core/Storage.h
index 044ec14..ab49b15 100644
--- a/include/BlasBooster/Core/Storage.h
+++ b/include/BlasBooster/Core/Storage.h
@@ -274,7 +274,6 @@ protected:
     void load(Archive & ar, const unsigned int version)
     {
         for ( size_t i(0); i != size_; ++i ) ar >> data_[i];
-        ownMemory_ = true;
     }
 
     T* data_;
-- 
2.43.0


From 41731d537c4f9992615cedd4cf88b96434112698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:22 +0000
Subject: [PATCH 31/40] fix: loading a matrix kept the cached norm and
 occupation of its old content

---
 include/BlasBooster/Core/DenseMatrix.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index 2f1ef59..5b56c7a 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -319,6 +319,10 @@ private:
     {
         ar & boost::serialization::base_object<dimension>(*this);
         ar & boost::serialization::base_object<storage>(*this);
+        if (Archive::is_loading::value) {
+            normPolicy::operator=(normPolicy());
+            occupationPolicy::operator=(occupationPolicy());
+        }
     }
 
     template <class U = P>
-- 
2.43.0


From ba66c6b718155e9061e5ec2a896afd2edfddfc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:10 +0000
Subject: [PATCH 32/40] fix: a fixed-size storage on the heap leaked its memory
 when its constructor failed

---
 include/BlasBooster/Core/Storage.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/Storage.h b/include/BlasBooster/Core/Storage.h
index ab49b15..805070e 100644
--- a/include/BlasBooster/Core/Storage.h
+++ b/include/BlasBooster/Core/Storage.h
@@ -142,7 +142,7 @@ public:
 #ifndef NO_INITIALIZER_LIST_SUPPORTED
     /// Initializer list constructor
     Storage( std::initializer_list<T> values )
-     : data_(new T[size_]), ownMemory_(true)
+     : Storage()
     {
         BLASBOOSTER_DEBUG_PRINT("Storage (fixed,onHeap): Initializer list constructor is called.");
         if ( values.size() != size_ ) throw std::runtime_error("Storage (fixed,onHeap): values.size() != size_");
@@ -170,7 +170,7 @@ public:
     /// Conversion constructor
     template <class T2, bool onStack2, bool isFixed2, size_t Size2, bool Strided2>
     Storage( const Storage<T2,onStack2,isFixed2,Size2,Strided2>& rhs )
-     : data_(new T[size_]), ownMemory_(true)
+     : Storage()
     {
         BLASBOOSTER_DEBUG_PRINT("Storage (fixed,onHeap): Conversion constructor is called.");
         if ( rhs.size_ != size_ ) throw std::runtime_error("Storage (fixed,onHeap): rhs.size_ != size_");
-- 
2.43.0


From f45edff8318cb40cff4c230b08ec049a4920623a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:18 +0000
Subject: [PATCH 33/40] fix: loading a storage leaked its new memory when
 reading an element failed

---
 include/BlasBooster/Core/Storage.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/Storage.h b/include/BlasBooster/Core/Storage.h
index 805070e..8fff16c 100644
--- a/include/BlasBooster/Core/Storage.h
+++ b/include/BlasBooster/Core/Storage.h
@@ -492,8 +492,8 @@ protected:
         data_ = nullptr;
         ar >> size_;
         data_ = allocate<T>(size_);
-        for ( size_t i(0); i != size_; ++i ) ar >> data_[i];
         ownMemory_ = true;
+        for ( size_t i(0); i != size_; ++i ) ar >> data_[i];
     }
 
     T* data_;
-- 
2.43.0


From 477fd7ec24dd175865d106c53f27bcc9a624d843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:57 +0000
Subject: [PATCH 34/40] fix: resizing a dense matrix with external memory
 changed its shape before refusing

---
 include/BlasBooster/Core/DenseMatrix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index 5b56c7a..40aaf9d 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -706,8 +706,8 @@ template <class Filler, class U>
 void Matrix<Dense,T,P>::resize(typename P::IndexType nbRows, typename P::IndexType nbColumns, Filler const& filler,
     typename std::enable_if<!std::is_same<U, DynamicMatrix>::value>::type*)
 {
-    static_cast<dimension*>(this)->resize(nbRows, nbColumns);
     static_cast<storage*>(this)->resize(nbRows * nbColumns);
+    static_cast<dimension*>(this)->resize(nbRows, nbColumns);
     normPolicy::operator=(normPolicy());
     occupationPolicy::operator=(occupationPolicy());
     filler(*this);
@@ -719,10 +719,10 @@ void Matrix<Dense,T,P>::resize(typename P::IndexType nbRows, typename P::IndexTy
     typename P::IndexType nbUnblockedRows, typename P::IndexType nbUnblockedColumns,
     typename std::enable_if<std::is_same<U, DynamicMatrix>::value>::type*)
 {
+    static_cast<storage*>(this)->resize(nbRows*nbColumns);
     static_cast<dimension*>(this)->resize(nbRows, nbColumns);
     this->ubRows_ = nbUnblockedRows;
     this->ubColumns_ = nbUnblockedColumns;
-    static_cast<storage*>(this)->resize(nbRows*nbColumns);
     normPolicy::operator=(normPolicy());
     occupationPolicy::operator=(occupationPolicy());
 }
-- 
2.43.0


From 0bcb41c8852eabe5641d92a02fbf49cc4d865764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:10 +0000
Subject: [PATCH 35/40] fix: decrementing a sub-matrix iterator from the end
 left the sub-matrix or lost its line

---
 include/BlasBooster/Core/Storage.h         | 4 ++--
 include/BlasBooster/Core/StripedIterator.h | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/BlasBooster/Core/Storage.h b/include/BlasBooster/Core/Storage.h
index 8fff16c..fb05fe3 100644
--- a/include/BlasBooster/Core/Storage.h
+++ b/include/BlasBooster/Core/Storage.h
@@ -607,11 +607,11 @@ public:
     }
 
     iterator end() {
-        return iterator(data_ + (size_ ? size_ + (nbBlocks_-1) * separatorSize_ : 0), continuousSize_, nbBlocks_, continuousSize_, separatorSize_, nbBlocks_);
+        return iterator(data_ + (size_ ? size_ + (nbBlocks_-1) * separatorSize_ : 0), 0, nbBlocks_, continuousSize_, separatorSize_, nbBlocks_);
     }
 
     const_iterator end() const {
-        return const_iterator(data_ + (size_ ? size_ + (nbBlocks_-1) * separatorSize_ : 0), continuousSize_, nbBlocks_, continuousSize_, separatorSize_, nbBlocks_);
+        return const_iterator(data_ + (size_ ? size_ + (nbBlocks_-1) * separatorSize_ : 0), 0, nbBlocks_, continuousSize_, separatorSize_, nbBlocks_);
     }
 
     iterator rend() {
diff --git a/include/BlasBooster/Core/StripedIterator.h b/include/BlasBooster/Core/StripedIterator.h
index d0c96cb..0d0cfc3 100644
--- a/include/BlasBooster/Core/StripedIterator.h
+++ b/include/BlasBooster/Core/StripedIterator.h
@@ -61,7 +61,7 @@ public:
     void decrement()
     {
         if (position_ == 0) {
-            if (--block_ == -1) --iter_;
+            if (--block_ == -1 or static_cast<size_t>(block_) + 1 == nbBlocks_) --iter_;
             else iter_ -= separatorSizePlus1_;
             position_ = continuousSizeMinus1_;
         } else {
-- 
2.43.0


From f7005f2a1f118c530abe538f5debafac88cd7398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:17 +0000
Subject: [PATCH 36/40] fix: reverse iteration over an empty sub-matrix never
 ended

---
 include/BlasBooster/Core/Storage.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/Storage.h b/include/BlasBooster/Core/Storage.h
index fb05fe3..5638b14 100644
--- a/include/BlasBooster/Core/Storage.h
+++ b/include/BlasBooster/Core/Storage.h
@@ -599,11 +599,11 @@ public:
     }
 
     iterator rbegin() {
-        return iterator(data_ + size_ + (nbBlocks_-1) * separatorSize_ - 1, continuousSize_-1, nbBlocks_-1, continuousSize_, separatorSize_, nbBlocks_);
+        return iterator(data_ + (size_ ? size_ + (nbBlocks_-1) * separatorSize_ : 0) - 1, continuousSize_-1, nbBlocks_-1, continuousSize_, separatorSize_, nbBlocks_);
     }
 
     const_iterator rbegin() const {
-        return iterator(data_ + size_ + (nbBlocks_-1) * separatorSize_ - 1, continuousSize_-1, nbBlocks_-1, continuousSize_, separatorSize_, nbBlocks_);
+        return iterator(data_ + (size_ ? size_ + (nbBlocks_-1) * separatorSize_ : 0) - 1, continuousSize_-1, nbBlocks_-1, continuousSize_, separatorSize_, nbBlocks_);
     }
 
     iterator end() {
-- 
2.43.0


From 647345c100861b5df215aaf34854ca77e7214517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:30 +0000
Subject: [PATCH 37/40] fix: assigning a value to all elements kept the cached
 norm and counts of the old content

---
 include/BlasBooster/Core/DenseMatrix.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index 40aaf9d..3a525b8 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -698,6 +698,8 @@ Matrix<Dense,T,P>& Matrix<Dense,T,P>::operator = (T value)
     {
         *iterCur = value;
     }
+    normPolicy::operator=(normPolicy());
+    occupationPolicy::operator=(occupationPolicy());
     return *this;
 }
 
-- 
2.43.0


From 9d0f08e2b10b0ba2db6b020f910c35fc95728fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:38 +0000
Subject: [PATCH 38/40] fix: adding to or subtracting from a dense matrix kept
 the cached norm and counts of the old content

---
 include/BlasBooster/Core/BinaryFunctors.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/BlasBooster/Core/BinaryFunctors.h b/include/BlasBooster/Core/BinaryFunctors.h
index 339672a..5df89f5 100644
--- a/include/BlasBooster/Core/BinaryFunctors.h
+++ b/include/BlasBooster/Core/BinaryFunctors.h
@@ -353,6 +353,8 @@ struct BinaryAssignmentOperationFunctor<Operation,Dense,T1,P1,Dense,T2,P2>
         {
             OperationAssignment<Operation>()(*curIterA,*curIterB);
         }
+        static_cast<typename MatrixA::normPolicy&>(A) = typename MatrixA::normPolicy();
+        static_cast<typename MatrixA::occupationPolicy&>(A) = typename MatrixA::occupationPolicy();
     }
 };
 
@@ -388,6 +390,8 @@ struct BinaryAssignmentOperationFunctor<Operation,Dense,T1,P1,Sparse,T2,P2>
                 OperationAssignment<Operation>()(isColumnMajor ? A(*iterKeyCur,line) : A(line,*iterKeyCur), *iterValueCur);
             }
         }
+        static_cast<typename Matrix<Dense,T1,P1>::normPolicy&>(A) = typename Matrix<Dense,T1,P1>::normPolicy();
+        static_cast<typename Matrix<Dense,T1,P1>::occupationPolicy&>(A) = typename Matrix<Dense,T1,P1>::occupationPolicy();
     }
 };
 
-- 
2.43.0


From 7b6e54566e8902b520e480ba549a3978943308a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:47 +0000
Subject: [PATCH 39/40] fix: a multiple matrix keeps its halves when new ones
 of different shape are refused

---
 include/BlasBooster/Core/MultipleMatrix.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/BlasBooster/Core/MultipleMatrix.h b/include/BlasBooster/Core/MultipleMatrix.h
index f3bce09..bd96517 100644
--- a/include/BlasBooster/Core/MultipleMatrix.h
+++ b/include/BlasBooster/Core/MultipleMatrix.h
@@ -47,14 +47,14 @@ struct MultipleMatrix
     void reset(std::shared_ptr<T1> const& ptrT1 = std::shared_ptr<T1>(),
         std::shared_ptr<T2> const& ptrT2 = std::shared_ptr<T2>()
     ){
-        ptrT1_ = ptrT1;
-        ptrT2_ = ptrT2;
-
-        if (ptrT1_ and ptrT2_)
+        if (ptrT1 and ptrT2)
         {
-            if (ptrT1_->getNbRows() != ptrT2_->getNbRows()) BLASBOOSTER_CORE_FAILURE("wrong dimension");
-            if (ptrT1_->getNbColumns() != ptrT2_->getNbColumns()) BLASBOOSTER_CORE_FAILURE("wrong dimension");
+            if (ptrT1->getNbRows() != ptrT2->getNbRows()) BLASBOOSTER_CORE_FAILURE("wrong dimension");
+            if (ptrT1->getNbColumns() != ptrT2->getNbColumns()) BLASBOOSTER_CORE_FAILURE("wrong dimension");
         }
+
+        ptrT1_ = ptrT1;
+        ptrT2_ = ptrT2;
     }
 
     typename T1::IndexType getNbRows() const { return ptrT1_->getNbRows(); }
-- 
2.43.0


From 06422529a4daa5e602cfbce3f9c642b6074874de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:31 +0000
Subject: [PATCH 40/40] fix: start counting block types from zero

---
 include/BlasBooster/Core/GenerateTypeMatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/GenerateTypeMatrix.h b/include/BlasBooster/Core/GenerateTypeMatrix.h
index 6616c5e..a637071 100644
--- a/include/BlasBooster/Core/GenerateTypeMatrix.h
+++ b/include/BlasBooster/Core/GenerateTypeMatrix.h
@@ -26,7 +26,7 @@ inline TypeMatrix generateTypeMatrix(BlockedDenseMatrix const& matrix)
 
 inline std::array<size_t, GetSize<DynamicMatrixTypeList>::value> get_type_counting(BlockedDenseMatrix const& matrix)
 {
-    std::array<size_t, GetSize<DynamicMatrixTypeList>::value> type_counting;
+    std::array<size_t, GetSize<DynamicMatrixTypeList>::value> type_counting{};
     for (auto&& submatrix : matrix) ++type_counting[submatrix->getTypeIndex()];
     return type_counting;
 }
-- 
2.43.0

