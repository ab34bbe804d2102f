From 1be739a93a9d6e151a04558ad55dc815940cf58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:39 +0000
Subject: [PATCH 01/56] fix: zero the unspecified components of a Dim

Dim(ValSet...) left data[] entries past the given values (including the
padding third entry of dim2) uninitialised, while operator== compares all
of them, so equal dim2 values could compare different.
---
 include/cnn_from_scratch/Matrix/dim.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cnn_from_scratch/Matrix/dim.h b/include/cnn_from_scratch/Matrix/dim.h
index 7dfef9d..58f562e 100644
--- a/include/cnn_from_scratch/Matrix/dim.h
+++ b/include/cnn_from_scratch/Matrix/dim.h
@@ -26,6 +26,7 @@ struct Dim{
     Dim(ValSet... vals) {
         static_assert((std::is_integral_v<ValSet> && ...));
         static_assert(sizeof...(vals) <= N);
+        data.fill(0);
         size_t i = 0; 
         (void(data[i++] = vals), ...);
     }
-- 
2.43.0


From 1b29e91c00ef6d8d3756a6f9c9fecdefb39b0dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:43 +0000
Subject: [PATCH 02/56] fix: do not iterate over non-existent elements of an
 empty matrix

A matrix or view with a zero row or column count but a non-zero channel
count had begin() != end(), so copying or reducing it accessed memory
past its (empty) storage.
---
 include/cnn_from_scratch/Matrix/MatrixIterator.h | 3 ++-
 include/cnn_from_scratch/Matrix/SubMatrixView.h  | 6 ++----
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/cnn_from_scratch/Matrix/MatrixIterator.h b/include/cnn_from_scratch/Matrix/MatrixIterator.h
index d8b5ac3..a51cf5a 100644
--- a/include/cnn_from_scratch/Matrix/MatrixIterator.h
+++ b/include/cnn_from_scratch/Matrix/MatrixIterator.h
@@ -26,7 +26,8 @@ public:
     template<typename = std::enable_if_t<std::is_reference_v<MatrixType>>>
     MatrixIterator(MatrixType&& parent, dim3 idx) : 
     parent_(&parent), 
-    dim_it_(parent.dim(), idx),
+    // An empty matrix has a single position, so that begin() == end()
+    dim_it_(parent.dim(), parent.size() == 0 ? dim3(0) : idx),
     scalar_idx_(idx.z*dim_it_.dim.x*dim_it_.dim.y + idx.y*dim_it_.dim.x + idx.x) {}
 
     reference operator*() {
diff --git a/include/cnn_from_scratch/Matrix/SubMatrixView.h b/include/cnn_from_scratch/Matrix/SubMatrixView.h
index e5d880e..8fdaedb 100644
--- a/include/cnn_from_scratch/Matrix/SubMatrixView.h
+++ b/include/cnn_from_scratch/Matrix/SubMatrixView.h
@@ -91,15 +91,13 @@ public:
         return MatrixIterator<SubMatrixView<T>&>(*this, dim3(0, 0, 0));
     }
     auto end() {
-        MatrixIterator<SubMatrixView<T>&> it(*this, dim_ - dim3(1));
-        return ++it;
+        return MatrixIterator<SubMatrixView<T>&>(*this, dim3(0, 0, dim_.z));
     }
     auto begin() const {
         return MatrixIterator<const SubMatrixView<T>&>(*this, dim3(0, 0, 0));
     }
     auto end() const {
-        MatrixIterator<const SubMatrixView<T>&> it(*this, dim_ - dim3(1));
-        return ++it;
+        return MatrixIterator<const SubMatrixView<T>&>(*this, dim3(0, 0, dim_.z));
     }
 
 private:
-- 
2.43.0


From 5802f0632193073fdc5dbc42317edfb5620fecc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:48 +0000
Subject: [PATCH 03/56] fix: refuse views and checked accesses with negative
 indices

subMatView({-1,0,0}, ...), a sub-view starting before its parent view and
view.at() with a negative index passed the range checks and accessed
memory outside the viewed region.
---
 .../cnn_from_scratch/Matrix/SubMatrixView.h   | 20 +++++++++++--------
 src/SubMatrixView.tpp                         |  4 ++--
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/include/cnn_from_scratch/Matrix/SubMatrixView.h b/include/cnn_from_scratch/Matrix/SubMatrixView.h
index 8fdaedb..6c13d96 100644
--- a/include/cnn_from_scratch/Matrix/SubMatrixView.h
+++ b/include/cnn_from_scratch/Matrix/SubMatrixView.h
@@ -33,10 +33,7 @@ public:
     SubMatrixView(MatrixType& mat, dim3 start, dim3 dim) : 
     MatrixBase(dim), mat_ptr_(&mat), start_(start) 
     {
-        dim3 end = start + dim;
-        if (end.x > mat_ptr_->dim().x ||
-            end.y > mat_ptr_->dim().y ||
-            end.z > mat_ptr_->dim().z)
+        if (!fitsInside(start, dim, mat_ptr_->dim()))
         {
             std::stringstream ss;
             ss << "Cannot create subMatrixView from index " << start << " and of size " 
@@ -48,10 +45,7 @@ public:
     SubMatrixView(const SubMatrixView<T>& other_view, dim3 start, dim3 dim) : 
     SubMatrixView(*other_view.mat_ptr_, other_view.start_ + start, dim)
     {
-        dim3 end = start + dim;
-        if (end.x > other_view.dim_.x ||
-            end.y > other_view.dim_.y ||
-            end.z > other_view.dim_.z)
+        if (!fitsInside(start, dim, other_view.dim_))
         {
             std::stringstream ss;
             ss << "Cannot create subMatrixView from index " << start << " and of size " 
@@ -101,6 +95,16 @@ public:
     }
 
 private:
+    // Whether the region of size dim at index start lies within a matrix of size outer
+    static bool fitsInside(const dim3& start, const dim3& dim, const dim3& outer){
+        for (int i = 0; i < 3; i++){
+            if (start.data[i] < 0 || dim.data[i] < 0 || dim.data[i] > outer.data[i] ||
+                start.data[i] > outer.data[i] - dim.data[i])
+                return false;
+        }
+        return true;
+    }
+
     dim3 start_;
     MatrixType* mat_ptr_;
 };
diff --git a/src/SubMatrixView.tpp b/src/SubMatrixView.tpp
index ab0b1f2..a6322eb 100644
--- a/src/SubMatrixView.tpp
+++ b/src/SubMatrixView.tpp
@@ -22,7 +22,7 @@ const T& SubMatrixView<T>::operator()(const dim3& idx) const{
 
 template<typename T>
 const T& SubMatrixView<T>::at(const dim3& idx) const{
-    if (idx.x >= dim_.x || idx.y >= dim_.y || idx.z >= dim_.z){
+    if (idx.x < 0 || idx.y < 0 || idx.z < 0 || idx.x >= dim_.x || idx.y >= dim_.y || idx.z >= dim_.z){
         std::stringstream ss;
         ss << "Failed to index SubMatrixView of size " << dim_ << " with index " << idx;
         throw std::out_of_range(ss.str());
@@ -42,7 +42,7 @@ T& SubMatrixView<T>::operator()(const dim3& idx) {
 
 template<typename T>
 T& SubMatrixView<T>::at(const dim3& idx) {
-    if (idx.x >= dim_.x || idx.y >= dim_.y || idx.z >= dim_.z){
+    if (idx.x < 0 || idx.y < 0 || idx.z < 0 || idx.x >= dim_.x || idx.y >= dim_.y || idx.z >= dim_.z){
         std::stringstream ss;
         ss << "Failed to index SubMatrixView of size " << dim_ << " with index " << idx;
         throw std::out_of_range(ss.str());
-- 
2.43.0


From b4dbb50f5caa2399d6b134014a4117dfe56ca949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:29 +0000
Subject: [PATCH 04/56] fix: take the scalar of a compound update by value

M /= M(0,0,0) and the like referred to the element while it was being
overwritten, so all later elements used the modified value.
---
 include/cnn_from_scratch/Matrix/MatrixMath.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/cnn_from_scratch/Matrix/MatrixMath.h b/include/cnn_from_scratch/Matrix/MatrixMath.h
index a624eda..4d8ff07 100644
--- a/include/cnn_from_scratch/Matrix/MatrixMath.h
+++ b/include/cnn_from_scratch/Matrix/MatrixMath.h
@@ -50,7 +50,7 @@ void modify(MatrixType&& M, UnaryOp op){
 }
 
 template<typename MatrixType, typename Scalar, std::enable_if_t<std::is_convertible_v<Scalar, typename std::remove_reference_t<MatrixType>::type>, bool> = true>
-MatrixType& operator+=(MatrixType&& M, const Scalar& other){
+MatrixType& operator+=(MatrixType&& M, const Scalar other){
     std::for_each(std::begin(M), std::end(M), [&](auto& val){val += other;});
     return M;
 }
@@ -65,7 +65,7 @@ MatrixType& operator+=(MatrixType&& M, Other&& other){
 }
 
 template<typename MatrixType, typename Scalar, std::enable_if_t<std::is_convertible_v<Scalar, typename std::remove_reference_t<MatrixType>::type>, bool> = true>
-MatrixType& operator-=(MatrixType&& M, const Scalar& other){
+MatrixType& operator-=(MatrixType&& M, const Scalar other){
     std::for_each(std::begin(M), std::end(M), [&](auto& val){val -= other;});
     return M;
 }
@@ -80,7 +80,7 @@ MatrixType& operator-=(MatrixType&& M, Other&& other){
 }
 
 template<typename MatrixType, typename Scalar, std::enable_if_t<std::is_convertible_v<Scalar, typename std::remove_reference_t<MatrixType>::type>, bool> = true>
-MatrixType& operator*=(MatrixType&& M, const Scalar& other){
+MatrixType& operator*=(MatrixType&& M, const Scalar other){
     std::for_each(std::begin(M), std::end(M), [&](auto& val){val *= other;});
     return M;
 }
@@ -95,7 +95,7 @@ MatrixType& operator*=(MatrixType&& M, Other&& other){
 }
 
 template<typename MatrixType, typename Scalar, std::enable_if_t<std::is_convertible_v<Scalar, typename std::remove_reference_t<MatrixType>::type>, bool> = true>
-MatrixType& operator/=(MatrixType&& M, const Scalar& other){
+MatrixType& operator/=(MatrixType&& M, const Scalar other){
     std::for_each(std::begin(M), std::end(M), [&](auto& val){val /= other;});
     return M;
 }
-- 
2.43.0


From 7e517d9a5eebda750db5c00160ceb00ca06064e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:34 +0000
Subject: [PATCH 05/56] fix: accumulate dot products in the common element type

The int initial value made std::inner_product truncate every partial sum.
---
 include/cnn_from_scratch/Matrix/MatrixMath.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cnn_from_scratch/Matrix/MatrixMath.h b/include/cnn_from_scratch/Matrix/MatrixMath.h
index 4d8ff07..85f6a66 100644
--- a/include/cnn_from_scratch/Matrix/MatrixMath.h
+++ b/include/cnn_from_scratch/Matrix/MatrixMath.h
@@ -188,7 +188,7 @@ auto dot(const MatrixType1& M1, const MatrixType2& M2){
         throw MatrixSizeException(ss.str());
     }
 
-    return std::inner_product(M1.begin(), M1.end(), M2.begin(), 0);
+    return std::inner_product(M1.begin(), M1.end(), M2.begin(), CommonMatrixType<MatrixType1, MatrixType2>{});
 }
 
 template<typename MatrixType1, typename MatrixType2, typename BinaryOp>
-- 
2.43.0


From 6464d8031aa105ec1c26756e61e9da94cd537ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:39 +0000
Subject: [PATCH 06/56] fix: mean of a signed integer matrix with a negative
 sum

Dividing an int by a size_t converted the negative sum to a huge unsigned
number.
---
 include/cnn_from_scratch/Matrix/MatrixMath.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cnn_from_scratch/Matrix/MatrixMath.h b/include/cnn_from_scratch/Matrix/MatrixMath.h
index 85f6a66..0601d3c 100644
--- a/include/cnn_from_scratch/Matrix/MatrixMath.h
+++ b/include/cnn_from_scratch/Matrix/MatrixMath.h
@@ -462,7 +462,9 @@ auto sum(const MatrixType& M){
 
 template<typename MatrixType>
 auto mean(const MatrixType& M){
-    return sum(M) / M.size();
+    // Keep the division in a signed type so that negative sums are not converted to unsigned
+    using T = std::common_type_t<typename std::remove_reference_t<MatrixType>::type, int>;
+    return sum(M) / static_cast<T>(M.size());
 }
 
 template<typename MatrixType>
-- 
2.43.0


From fade1ef4bb61a2266a01ac3d35dddf2a84340855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:45 +0000
Subject: [PATCH 07/56] fix: size the result of convolve by its stride and
 refuse oversized kernels

The output size ignored the stride, so a strided convolution read past
the end of its input; a kernel larger than the input gave a result with
negative dimensions that read out of bounds as well.
---
 include/cnn_from_scratch/Matrix/MatrixMath.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/cnn_from_scratch/Matrix/MatrixMath.h b/include/cnn_from_scratch/Matrix/MatrixMath.h
index 0601d3c..da67a6e 100644
--- a/include/cnn_from_scratch/Matrix/MatrixMath.h
+++ b/include/cnn_from_scratch/Matrix/MatrixMath.h
@@ -254,9 +254,16 @@ auto convolve(MatrixType1&& M1, MatrixType2&& M2, dim2 stride){
     // We define convolutions only for 2D matrices
     assert(M1.isFlat() && M2.isFlat());
 
+    // The second matrix must fit inside the first one at least once
+    if (M1.dim().x < M2.dim().x || M1.dim().y < M2.dim().y){
+        std::stringstream ss;
+        ss << "Cannot convolve a matrix of size " << M1.dim() << " with a larger matrix of size " << M2.dim();
+        throw MatrixSizeException(ss.str());
+    }
+
     const dim3 output_size(
-        M1.dim().x - M2.dim().x + 1,
-        M1.dim().y - M2.dim().y + 1,
+        (M1.dim().x - M2.dim().x)/stride.x + 1,
+        (M1.dim().y - M2.dim().y)/stride.y + 1,
         1
     );
 
-- 
2.43.0


From d6c63cb6b237aa32ffef9a1d6a71fe7b01d7206f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:50 +0000
Subject: [PATCH 08/56] fix: read operand dimensions before moving temporaries
 into an expression

transpose() of a temporary took its dimensions from the moved-from operand
and had size zero; matrixMultiply() of a temporary did the same whenever the
compiler evaluates constructor arguments left to right (clang).
---
 include/cnn_from_scratch/Matrix/MatrixMath.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/cnn_from_scratch/Matrix/MatrixMath.h b/include/cnn_from_scratch/Matrix/MatrixMath.h
index da67a6e..c5a1854 100644
--- a/include/cnn_from_scratch/Matrix/MatrixMath.h
+++ b/include/cnn_from_scratch/Matrix/MatrixMath.h
@@ -245,8 +245,11 @@ auto matrixMultiply(MatrixType1&& M1, MatrixType2&& M2){
         return sum;
     };
 
+    // Read the dimensions before the operands are (possibly) moved into the result
+    const dim3 output_size(M1.dim().x, M2.dim().y, M1.dim().z);
+
     return GeneralMatrixOperationResult<decltype(M1), decltype(M2),decltype(getMultipliedIndex)>
-    (std::forward<MatrixType1>(M1), std::forward<MatrixType2>(M2), dim3(M1.dim().x, M2.dim().y, M1.dim().z), getMultipliedIndex);
+    (std::forward<MatrixType1>(M1), std::forward<MatrixType2>(M2), output_size, getMultipliedIndex);
 }
 
 template<typename MatrixType1, typename MatrixType2, typename = IsMatrixBase<MatrixType1, MatrixType2>>
@@ -422,9 +425,11 @@ auto transpose(MatrixType&& M){
     auto transposeIdx = [](const MatrixType& M, const dim3& idx){
         return M(dim3(idx.y, idx.x, idx.z));
     };
+    // Read the dimensions before the operand is (possibly) moved into the result
+    const dim3 dim = M.dim();
     auto&& ret_val = UnaryOperationResult<decltype(M), decltype(transposeIdx)>(std::forward<MatrixType>(M), transposeIdx);
-    ret_val.dim_.x = M.dim().y;
-    ret_val.dim_.y = M.dim().x;
+    ret_val.dim_.x = dim.y;
+    ret_val.dim_.y = dim.x;
     return ret_val;
 }
 
-- 
2.43.0


From 5add5cb4436a61fac9c0832c10780ac1c3c6b42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:55 +0000
Subject: [PATCH 09/56] fix: allow half-turn rotation of non-square matrices

rotate<2> keeps the shape of any matrix. Refusing it made the input
gradient of a convolution layer throw for every non-square input.
---
 include/cnn_from_scratch/Matrix/MatrixMath.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cnn_from_scratch/Matrix/MatrixMath.h b/include/cnn_from_scratch/Matrix/MatrixMath.h
index c5a1854..f37d5b4 100644
--- a/include/cnn_from_scratch/Matrix/MatrixMath.h
+++ b/include/cnn_from_scratch/Matrix/MatrixMath.h
@@ -436,7 +436,8 @@ auto transpose(MatrixType&& M){
 template<size_t NumSteps, typename MatrixType, typename = IsMatrixBase<MatrixType>>
 auto rotate(MatrixType&& M){
     static_assert(NumSteps > 0 && NumSteps < 4);
-    if (!M.isSquare()){
+    // Half turns keep the shape, quarter turns only do so for square matrices
+    if (NumSteps != 2 && !M.isSquare()){
         std::stringstream ss;
         ss << "Cannot rotate matrix of size " << M.dim() << " because it is not square";
         throw MatrixTransformException(ss.str());
-- 
2.43.0


From 863b7c2fc15944d894b632bdc30006f9606bf67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:59 +0000
Subject: [PATCH 10/56] fix: make SimpleMatrix::abs usable

std::abs does not accept a matrix, so instantiating abs() for any signed
type failed to compile.
---
 src/SimpleMatrix.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SimpleMatrix.tpp b/src/SimpleMatrix.tpp
index ccb2b11..424affd 100644
--- a/src/SimpleMatrix.tpp
+++ b/src/SimpleMatrix.tpp
@@ -203,7 +203,7 @@ SimpleMatrix<T> SimpleMatrix<T>::abs() const {
         return *this;
     else{
         SimpleMatrix<T> out(dim_);
-        return out = std::abs(*this);
+        return out = my_cnn::abs(*this);
     }
 }
 
-- 
2.43.0


From af8053a8e1ff9818e39e3dd0d27b4bcb5b55bbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:28 +0000
Subject: [PATCH 11/56] fix: evaluate self-referential expressions before
 overwriting their operands

A = transpose(A), A = A.subMatView(...), A += transpose(A) and overlapping
view assignments read elements that the same statement had already
overwritten (or re-indexed with the new dimensions).
---
 include/cnn_from_scratch/Matrix/MatrixMath.h | 24 ++++++++++++++++----
 src/SimpleMatrix.tpp                         |  6 ++---
 src/SubMatrixView.tpp                        |  8 +++++--
 3 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/include/cnn_from_scratch/Matrix/MatrixMath.h b/include/cnn_from_scratch/Matrix/MatrixMath.h
index f37d5b4..7e55fa8 100644
--- a/include/cnn_from_scratch/Matrix/MatrixMath.h
+++ b/include/cnn_from_scratch/Matrix/MatrixMath.h
@@ -44,6 +44,18 @@ using MatrixStorageType = typename std::conditional_t<
 // Self modification math
 // ================================================================================================
 
+// Provide the operand of an in-place update. Views and expressions may refer to the matrix being
+// updated at other indices, and so they are evaluated first. Plain matrices are passed through
+template<typename T>
+const SimpleMatrix<T>& evaluateOperand(const SimpleMatrix<T>& M){
+    return M;
+}
+
+template<typename MatrixType, typename = IsMatrixBase<MatrixType>>
+auto evaluateOperand(const MatrixType& M){
+    return SimpleMatrix<CommonMatrixType<MatrixType, MatrixType>>(M);
+}
+
 template<typename MatrixType, typename UnaryOp>
 void modify(MatrixType&& M, UnaryOp op){
     std::for_each(std::forward<MatrixType>(M).begin(), std::forward<MatrixType>(M).end(), [&](auto& in){in = op(in);});
@@ -58,8 +70,9 @@ MatrixType& operator+=(MatrixType&& M, const Scalar other){
 template<typename MatrixType, typename Other, typename = IsMatrixBase<MatrixType, Other>>
 MatrixType& operator+=(MatrixType&& M, Other&& other){
     checkSize(M, other);
+    const auto& rhs = evaluateOperand(std::as_const(other));
     for (auto it = std::begin(M); it != std::end(M); it++){
-        *it += std::forward<Other>(other)(it.idx());
+        *it += rhs(it.idx());
     }
     return M;
 }
@@ -73,8 +86,9 @@ MatrixType& operator-=(MatrixType&& M, const Scalar other){
 template<typename MatrixType, typename Other, typename = IsMatrixBase<MatrixType, Other>>
 MatrixType& operator-=(MatrixType&& M, Other&& other){
     checkSize(M, other);
+    const auto& rhs = evaluateOperand(std::as_const(other));
     for (auto it = std::begin(M); it != std::end(M); it++){
-        *it -= std::forward<Other>(other)(it.idx());
+        *it -= rhs(it.idx());
     }
     return M;
 }
@@ -88,8 +102,9 @@ MatrixType& operator*=(MatrixType&& M, const Scalar other){
 template<typename MatrixType, typename Other, typename = IsMatrixBase<MatrixType, Other>>
 MatrixType& operator*=(MatrixType&& M, Other&& other){
     checkSize(M, other);
+    const auto& rhs = evaluateOperand(std::as_const(other));
     for (auto it = std::begin(M); it != std::end(M); it++){
-        *it *= std::forward<Other>(other)(it.idx());
+        *it *= rhs(it.idx());
     }
     return M;
 }
@@ -103,8 +118,9 @@ MatrixType& operator/=(MatrixType&& M, const Scalar other){
 template<typename MatrixType, typename Other, typename = IsMatrixBase<MatrixType, Other>>
 MatrixType& operator/=(MatrixType&& M, Other&& other){
     checkSize(M, other);
+    const auto& rhs = evaluateOperand(std::as_const(other));
     for (auto it = std::begin(M); it != std::end(M); it++){
-        *it /= std::forward<Other>(other)(it.idx());
+        *it /= rhs(it.idx());
     }
     return M;
 }
diff --git a/src/SimpleMatrix.tpp b/src/SimpleMatrix.tpp
index 424affd..82e063e 100644
--- a/src/SimpleMatrix.tpp
+++ b/src/SimpleMatrix.tpp
@@ -88,10 +88,8 @@ void SimpleMatrix<T>::setEntries(std::vector<T>&& v){
 template<typename T>
 template<typename MatrixType, std::enable_if_t<std::is_base_of_v<MatrixBase, std::remove_reference_t<MatrixType>>, bool>>
 SimpleMatrix<T>& SimpleMatrix<T>::operator=(MatrixType&& M){
-    dim_ = M.dim();
-    values_.resize(size());
-    std::copy(std::forward<MatrixType>(M).begin(), std::forward<MatrixType>(M).end(), begin());
-    return *this;
+    // M may refer to this matrix, so it has to be evaluated before anything is overwritten
+    return *this = SimpleMatrix<T>(std::forward<MatrixType>(M));
 }
 
 // ================================== //
diff --git a/src/SubMatrixView.tpp b/src/SubMatrixView.tpp
index a6322eb..e5db4d0 100644
--- a/src/SubMatrixView.tpp
+++ b/src/SubMatrixView.tpp
@@ -71,14 +71,18 @@ template<typename T>
 template<typename Other, std::enable_if_t<std::is_base_of_v<MatrixBase, std::remove_reference_t<Other>>, bool>>
 SubMatrixView<T>& SubMatrixView<T>::operator=(Other&& M){
     checkSize(*this, M);
-    std::copy(std::forward<Other>(M).begin(), std::forward<Other>(M).end(), this->begin());
+    // M may refer to the viewed matrix, so it has to be evaluated before anything is overwritten
+    const SimpleMatrix<std::remove_const_t<T>> values(std::forward<Other>(M));
+    std::copy(values.begin(), values.end(), this->begin());
     return *this;
 }
 
 template<typename T>
 SubMatrixView<T>& SubMatrixView<T>::operator=(const SubMatrixView<T>& M){
     checkSize(*this, M);
-    std::copy(M.begin(), M.end(), this->begin());
+    // M may overlap with this view, so it has to be read before anything is overwritten
+    const SimpleMatrix<std::remove_const_t<T>> values(M);
+    std::copy(values.begin(), values.end(), this->begin());
     return *this;
 }
 
-- 
2.43.0


From d39a94887bb1d2de0907b219d7c1c0eeca078830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:01 +0000
Subject: [PATCH 12/56] fix: serialize the stride of a pooling layer

The pool size was written in place of the stride.
---
 src/Layers/Pooling.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Layers/Pooling.cpp b/src/Layers/Pooling.cpp
index 05db568..2c0ee1c 100644
--- a/src/Layers/Pooling.cpp
+++ b/src/Layers/Pooling.cpp
@@ -146,8 +146,8 @@ std::string Pooling::serialize() const {
 
     // Record the stride
     ss << "stride\n";
-    serialization::place(ss, dim_.x, "x");
-    serialization::place(ss, dim_.y, "y");
+    serialization::place(ss, stride_.x, "x");
+    serialization::place(ss, stride_.y, "y");
 
     return ss.str();
 }
-- 
2.43.0


From 52f65df21eec1fa3f3ca7a8b07f3d85060cb3ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:03 +0000
Subject: [PATCH 13/56] fix: use the deserialized activation function

deserialize only updated the enum; the layer went on applying the function
it was constructed with.
---
 src/Layers/Activation.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Layers/Activation.cpp b/src/Layers/Activation.cpp
index 44701cc..b8757bd 100644
--- a/src/Layers/Activation.cpp
+++ b/src/Layers/Activation.cpp
@@ -97,6 +97,8 @@ bool Activation::deserialize(std::istream& is) {
     std::string activation_string;
     std::getline(is, activation_string);
     activation_ = fromString(activation_string);
+    activationFunction_ = activation_functions()[activation_];
+    activationGradientFunction_ = activation_gradients()[activation_];
     return true;
 }
 
-- 
2.43.0


From 19032dd663f17440dcff903fc2400f0f7dc71d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:07 +0000
Subject: [PATCH 14/56] fix: evaluate the activation gradient at the layer
 input

propagateBackward passed the activated output to gradient functions of the
unactivated input, which is wrong for SIGMOID and TANGENT.
---
 include/cnn_from_scratch/Layers/Activation.h | 6 +++---
 src/Layers/Activation.cpp                    | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/cnn_from_scratch/Layers/Activation.h b/include/cnn_from_scratch/Layers/Activation.h
index 23dc990..1103130 100644
--- a/include/cnn_from_scratch/Layers/Activation.h
+++ b/include/cnn_from_scratch/Layers/Activation.h
@@ -75,16 +75,16 @@ public:
     SimpleMatrix<double> propagateForward(SimpleMatrix<double>&& input, size_t idx = 0) override;
 
     /**
-     * Return the gradient of the activation function for the given activated matrix 
+     * Return the gradient of the activation function at the given (unactivated) input matrix 
      */
-    SimpleMatrix<double> activationGradient(const SimpleMatrix<double>& activated_output) const;
+    SimpleMatrix<double> activationGradient(const SimpleMatrix<double>& input) const;
 
     /**
      * Given the loss gradient from the previous layer, return the loss gradient
      * to be propagated to subsequent layers 
      */
     SimpleMatrix<double> propagateBackward(
-        const SimpleMatrix<double>&, const SimpleMatrix<double>& Z, 
+        const SimpleMatrix<double>& X, const SimpleMatrix<double>&, 
         const SimpleMatrix<double>& dLdZ, size_t, bool) override;
 
     /**
diff --git a/src/Layers/Activation.cpp b/src/Layers/Activation.cpp
index b8757bd..5920887 100644
--- a/src/Layers/Activation.cpp
+++ b/src/Layers/Activation.cpp
@@ -64,18 +64,18 @@ SimpleMatrix<double> Activation::propagateForward(SimpleMatrix<double>&& input,
 // ----------------------------------------------------------------------------
 // ----------------------------------------------------------------------------
 
-SimpleMatrix<double> Activation::activationGradient(const SimpleMatrix<double>& activated_output) const {
-    return apply(activated_output, activationGradientFunction_);
+SimpleMatrix<double> Activation::activationGradient(const SimpleMatrix<double>& input) const {
+    return apply(input, activationGradientFunction_);
 }
 
 // ----------------------------------------------------------------------------
 // ----------------------------------------------------------------------------
 
 SimpleMatrix<double> Activation::propagateBackward(
-    const SimpleMatrix<double>&, const SimpleMatrix<double>& Z, 
+    const SimpleMatrix<double>& X, const SimpleMatrix<double>&, 
     const SimpleMatrix<double>& dLdZ, size_t, bool)
 {
-    return dLdZ * activationGradient(Z);
+    return dLdZ * activationGradient(X);
 }
 
 // ----------------------------------------------------------------------------
-- 
2.43.0


From 960dec266ea91b056d4f12c19bfe13cd19025eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:13 +0000
Subject: [PATCH 15/56] fix: apply only the gradients of the current batch

In a partially filled batch applyBatch re-applied the gradients left over
from the previous batch, or threw MatrixSizeException if there was none.
---
 src/Layers/ConnectedLayer.cpp | 12 +++++++++---
 src/Layers/Kernel.cpp         | 12 +++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/Layers/ConnectedLayer.cpp b/src/Layers/ConnectedLayer.cpp
index eb60755..679b9f2 100644
--- a/src/Layers/ConnectedLayer.cpp
+++ b/src/Layers/ConnectedLayer.cpp
@@ -28,15 +28,21 @@ void ConnectedLayer::applyBatch(double learning_rate){
     SimpleMatrix<double> avg_weight_grad(weights.dim(), 0.0);
     SimpleMatrix<double> avg_bias_grad(biases.dim(), 0.0);
 
-    // Accumulate the stored gradientss
+    // Accumulate and consume the stored gradients. The last batch of an epoch may only be partially filled
+    size_t num_gradients = 0;
     for (size_t i = 0; i < weight_gradients_.size(); i++){
+        if (weight_gradients_[i].size() == 0) continue;
         avg_weight_grad += weight_gradients_[i]; 
         avg_bias_grad += bias_gradients_[i];  
+        weight_gradients_[i] = SimpleMatrix<double>();
+        bias_gradients_[i]   = SimpleMatrix<double>();
+        num_gradients++;
     }
+    if (num_gradients == 0) return;
 
     // Average the gradients
-    avg_weight_grad /= weight_gradients_.size();
-    avg_bias_grad /= bias_gradients_.size();
+    avg_weight_grad /= num_gradients;
+    avg_bias_grad /= num_gradients;
 
     // Apply
     weights -= learning_rate * avg_weight_grad;
diff --git a/src/Layers/Kernel.cpp b/src/Layers/Kernel.cpp
index 543b936..f48a0bf 100644
--- a/src/Layers/Kernel.cpp
+++ b/src/Layers/Kernel.cpp
@@ -50,15 +50,21 @@ void Kernel::applyBatch(double learning_rate){
     SimpleMatrix<double> avg_weight_grad(weights.dim(), 0.0);
     SimpleMatrix<double> avg_bias_grad(biases.dim(), 0.0);
 
-    // Accumulate the stored gradientss
+    // Accumulate and consume the stored gradients. The last batch of an epoch may only be partially filled
+    size_t num_gradients = 0;
     for (size_t i = 0; i < weight_gradients_.size(); i++){
+        if (weight_gradients_[i].size() == 0) continue;
         avg_weight_grad += weight_gradients_[i]; 
         avg_bias_grad   += bias_gradients_[i];  
+        weight_gradients_[i] = SimpleMatrix<double>();
+        bias_gradients_[i]   = SimpleMatrix<double>();
+        num_gradients++;
     }
+    if (num_gradients == 0) return;
 
     // Average the gradients
-    avg_weight_grad /= weight_gradients_.size();
-    avg_bias_grad   /= bias_gradients_.size();
+    avg_weight_grad /= num_gradients;
+    avg_bias_grad   /= num_gradients;
 
     // Apply
     weights -= learning_rate * avg_weight_grad;
-- 
2.43.0


From 33ecb7c13f6677578317ffc28ca4b15bcc13a618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:15 +0000
Subject: [PATCH 16/56] fix: serialize the first-use initialization of fully
 connected layers

All worker threads of runEpoch raced to create and fill the weights.
---
 src/Layers/ConnectedLayer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Layers/ConnectedLayer.cpp b/src/Layers/ConnectedLayer.cpp
index 679b9f2..c17e56c 100644
--- a/src/Layers/ConnectedLayer.cpp
+++ b/src/Layers/ConnectedLayer.cpp
@@ -1,4 +1,5 @@
 #include <chrono>
+#include <mutex>
 #include "cnn_from_scratch/Layers/ConnectedLayer.h"
 
 namespace my_cnn{
@@ -53,6 +54,10 @@ void ConnectedLayer::applyBatch(double learning_rate){
 // ----------------------------------------------------------------------------
 
 bool ConnectedLayer::checkSize(const SimpleMatrix<double>& input_data){
+    // Training threads share the layer, and any of them may be the one to initialize it
+    static std::mutex init_mutex;
+    std::lock_guard<std::mutex> lock(init_mutex);
+
     // If this is the first time at this layer, resize and apply random values
     dim3 expected_size(biases.size(), input_data.size(), 1);
     if (!initialized_){
-- 
2.43.0


From 15cb87a40030f88baca9ecdf9a2e1a4791f161ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:18 +0000
Subject: [PATCH 17/56] fix: remember the input shape of a deserialized fully
 connected layer

Back-propagation through a loaded layer threw MatrixTransformException
because its input gradient was reshaped to (0, 0, 0).
---
 src/Layers/ConnectedLayer.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Layers/ConnectedLayer.cpp b/src/Layers/ConnectedLayer.cpp
index c17e56c..f4fd91a 100644
--- a/src/Layers/ConnectedLayer.cpp
+++ b/src/Layers/ConnectedLayer.cpp
@@ -81,7 +81,10 @@ bool ConnectedLayer::checkSize(const SimpleMatrix<double>& input_data){
     }
     // Otherwise check to make sure the size is correct
     else{
-        return ( weights.dims() == expected_size );
+        if (weights.dims() != expected_size) return false;
+        // The input shape is not known yet if the layer was loaded from a stream
+        if (input_dim_.size() == 0) input_dim_ = input_data.dim();
+        return true;
     }
 }
 
@@ -173,6 +176,7 @@ bool ConnectedLayer::deserialize(std::istream& is) {
     serialization::expect<void>(is, "biases");
     if (!biases.deserialize(is)) return false;
     initialized_ = true;
+    input_dim_ = dim3();
     return true;
 }
 
-- 
2.43.0


From 0ae2bce06aa768147e12c2fb5c2f78a3b1e11ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:22 +0000
Subject: [PATCH 18/56] fix: keep the true label of the softmax layer per batch
 entry

The single stored label was shared by all training threads, so a thread
could back-propagate its sample with the label of another one.
---
 include/cnn_from_scratch/Layers/Softmax.h | 16 +++++++++++-----
 src/Layers/Softmax.cpp                    | 19 +++++++++++++------
 src/ModelDescription.tpp                  |  2 +-
 3 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/include/cnn_from_scratch/Layers/Softmax.h b/include/cnn_from_scratch/Layers/Softmax.h
index 5a6dc8f..2ede9d8 100644
--- a/include/cnn_from_scratch/Layers/Softmax.h
+++ b/include/cnn_from_scratch/Layers/Softmax.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <optional>
 #include "cnn_from_scratch/Serialization.h"
 #include "cnn_from_scratch/Layers/ModelLayer.h"
 
@@ -24,9 +25,14 @@ public:
     bool checkSize(const SimpleMatrix<double>& input) override;
 
     /**
-     * Inform the layer which output label is correct. Used in backpropagation
+     * Set the number of batch entries for which to remember the true label 
      */
-    void assignTrueLabel(size_t true_label_idx);
+    void setBatchSize(size_t batch_size) override;
+
+    /**
+     * Inform the layer which output label is correct for a batch entry. Used in backpropagation
+     */
+    void assignTrueLabel(size_t true_label_idx, size_t batch_idx = 0);
 
     /**
      * The actual softmax function 
@@ -48,7 +54,7 @@ public:
      */
     SimpleMatrix<double> propagateBackward(
         const SimpleMatrix<double>& input, const SimpleMatrix<double>& output, 
-        const SimpleMatrix<double>&, size_t, bool) override;
+        const SimpleMatrix<double>&, size_t batch_idx, bool) override;
 
     /**
      * Convert the layer configuration to a standard ascii text format 
@@ -62,8 +68,8 @@ public:
     bool deserialize(std::istream& is) override;
 
 private:
-    bool knows_true_label_ = false;
-    size_t true_label_idx_;
+    // The true label of each batch entry, if known
+    std::vector<std::optional<size_t>> true_label_idx_;
     size_t output_label_count_;
 };
     
diff --git a/src/Layers/Softmax.cpp b/src/Layers/Softmax.cpp
index 33dbd71..dfc0b88 100644
--- a/src/Layers/Softmax.cpp
+++ b/src/Layers/Softmax.cpp
@@ -6,6 +6,7 @@ namespace my_cnn{
 // ----------------------------------------------------------------------------
 
 Softmax::Softmax(size_t output_label_count) : 
+true_label_idx_(1),
 output_label_count_(output_label_count)
 {}
 
@@ -27,15 +28,21 @@ bool Softmax::checkSize(const SimpleMatrix<double>& input) {
 // ----------------------------------------------------------------------------
 // ----------------------------------------------------------------------------
 
-void Softmax::assignTrueLabel(size_t true_label_idx){
+void Softmax::setBatchSize(size_t batch_size){
+    true_label_idx_.assign(batch_size, std::nullopt);
+}
+
+// ----------------------------------------------------------------------------
+// ----------------------------------------------------------------------------
+
+void Softmax::assignTrueLabel(size_t true_label_idx, size_t batch_idx){
     if (true_label_idx >= output_label_count_){
         std::stringstream ss;
         ss << "Cannot assign true label of " << true_label_idx << " when there are only " << output_label_count_ << " labels";
         throw std::out_of_range(ss.str());
     }
 
-    true_label_idx_ = true_label_idx;
-    knows_true_label_ = true;
+    true_label_idx_.at(batch_idx) = true_label_idx;
 }
 
 // ----------------------------------------------------------------------------
@@ -75,13 +82,13 @@ SimpleMatrix<double> Softmax::getdLdX(const SimpleMatrix<double> output, size_t
 
 SimpleMatrix<double> Softmax::propagateBackward(
         const SimpleMatrix<double>&, const SimpleMatrix<double>& output, 
-        const SimpleMatrix<double>&, size_t, bool) 
+        const SimpleMatrix<double>&, size_t batch_idx, bool) 
 {
-    if (!knows_true_label_){
+    if (!true_label_idx_.at(batch_idx)){
         throw ModelLayerException("Cannot backpropagate softmax layer without knowledge of true label");
     }
 
-    return getdLdX(output, true_label_idx_);
+    return getdLdX(output, *true_label_idx_[batch_idx]);
 }
 
 // ----------------------------------------------------------------------------
diff --git a/src/ModelDescription.tpp b/src/ModelDescription.tpp
index aedfb7d..cf8a740 100644
--- a/src/ModelDescription.tpp
+++ b/src/ModelDescription.tpp
@@ -199,7 +199,7 @@ void ModelDescription<InputDataType, OutputDataType>::backwardsPropagation(Model
     // Provide the label to the output layer for gradient calculations
     assert(layers.back()->getType() == OUTPUT);
     auto output_layer = std::dynamic_pointer_cast<Softmax>(layers.back());
-    output_layer->assignTrueLabel(result.true_label_idx);
+    output_layer->assignTrueLabel(result.true_label_idx, batch_idx);
 
     // For each of the layers, calculate the corresponding gradient and adjust the weights accordingly
     SimpleMatrix<double> dLdz;
-- 
2.43.0


From 021d19d89ac88e711f01a41f45eefb478ce54ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:38 +0000
Subject: [PATCH 19/56] fix: refuse inputs smaller than the filter or pool

Convolution and pooling layers computed negative output dimensions for
such inputs and went on to access memory out of bounds.
---
 include/cnn_from_scratch/Layers/Kernel.h | 3 ++-
 src/Layers/Kernel.cpp                    | 4 ++--
 src/Layers/Pooling.cpp                   | 3 +++
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/cnn_from_scratch/Layers/Kernel.h b/include/cnn_from_scratch/Layers/Kernel.h
index c091817..d05033d 100644
--- a/include/cnn_from_scratch/Layers/Kernel.h
+++ b/include/cnn_from_scratch/Layers/Kernel.h
@@ -43,7 +43,8 @@ public:
     static SimpleMatrix<double> padInput(MatrixType&& input_data, const dim3 filter_dim);
 
     /**
-     * Ensure that the depth of the input matches the depth of the kernel 
+     * Ensure that the depth of the input matches the depth of the kernel, and that
+     * the input is at least as big as the kernel
      */
     bool checkSize(const SimpleMatrix<double>& input_data) override;
 
diff --git a/src/Layers/Kernel.cpp b/src/Layers/Kernel.cpp
index f48a0bf..e7c29ce 100644
--- a/src/Layers/Kernel.cpp
+++ b/src/Layers/Kernel.cpp
@@ -91,7 +91,7 @@ SimpleMatrix<double> Kernel::padInput(MatrixType&& input_data, const dim3 filter
 // ----------------------------------------------------------------------------
 
 bool Kernel::checkSize(const SimpleMatrix<double>& input_data) {
-    return input_data.dim(2) == dim_.z;
+    return input_data.dim(2) == dim_.z && input_data.dim(0) >= dim_.x && input_data.dim(1) >= dim_.y;
 }
 
 // ----------------------------------------------------------------------------
@@ -111,7 +111,7 @@ dim3 Kernel::outputSize(const SimpleMatrix<double>& input_data) const{
 SimpleMatrix<double> Kernel::propagateForward(SimpleMatrix<double>&& input_data, size_t) {
     // Make sure the input size is what we expect based on weights and biases dimensions
     if (!checkSize(input_data))
-        throw ModelLayerException("Mismatched channel count for convolution");
+        throw ModelLayerException("Mismatched channel count or too small input for convolution");
 
     SimpleMatrix<double> output(outputSize(input_data));
     
diff --git a/src/Layers/Pooling.cpp b/src/Layers/Pooling.cpp
index 2c0ee1c..a7ceea7 100644
--- a/src/Layers/Pooling.cpp
+++ b/src/Layers/Pooling.cpp
@@ -45,6 +45,9 @@ dim3 Pooling::outputSize(const dim3& input_dim) const {
 // ----------------------------------------------------------------------------
 
 SimpleMatrix<double> Pooling::propagateForward(SimpleMatrix<double>&& input, size_t batch_idx) {
+    if (!checkSize(input))
+        throw ModelLayerException("Pooling input is smaller than the pool");
+
     // Create the approriately sized output
     SimpleMatrix<double> output(outputSize(input.dim()));
 
-- 
2.43.0


From 5a14470216617bea57ae95a1f0670397a3eb87db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:43 +0000
Subject: [PATCH 20/56] fix: honour the stride of a convolution layer

The output size and the gradients assumed a stride of 1, so a layer with a
larger stride read past its input and could not be back-propagated.
---
 include/cnn_from_scratch/Layers/Kernel.h |  6 ++++++
 src/Layers/Kernel.cpp                    | 22 ++++++++++++++++++----
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/include/cnn_from_scratch/Layers/Kernel.h b/include/cnn_from_scratch/Layers/Kernel.h
index d05033d..01f2b9f 100644
--- a/include/cnn_from_scratch/Layers/Kernel.h
+++ b/include/cnn_from_scratch/Layers/Kernel.h
@@ -103,6 +103,12 @@ public:
     bool deserialize(std::istream& is) override;
 
 private:
+    /**
+     * Spread the loss gradient with respect to the output out to the output
+     * positions of a stride 1 convolution, with zeros at the skipped positions 
+     */
+    SimpleMatrix<double> unitStrideGradient(const SimpleMatrix<double>& X, const SimpleMatrix<double>& dLdY) const;
+
     dim3 dim_;
 
     // Vectors of gradient matrices for batch backpropagation
diff --git a/src/Layers/Kernel.cpp b/src/Layers/Kernel.cpp
index e7c29ce..0943b5c 100644
--- a/src/Layers/Kernel.cpp
+++ b/src/Layers/Kernel.cpp
@@ -99,8 +99,8 @@ bool Kernel::checkSize(const SimpleMatrix<double>& input_data) {
 
 dim3 Kernel::outputSize(const SimpleMatrix<double>& input_data) const{
     return dim3(
-        input_data.dim(0) - dim_.x + 1,
-        input_data.dim(1) - dim_.y + 1,
+        (input_data.dim(0) - dim_.x)/stride + 1,
+        (input_data.dim(1) - dim_.y)/stride + 1,
         num_filters
     );
 }
@@ -134,9 +134,22 @@ SimpleMatrix<double> Kernel::propagateForward(SimpleMatrix<double>&& input_data,
 // ----------------------------------------------------------------------------
 // ----------------------------------------------------------------------------
 
+SimpleMatrix<double> Kernel::unitStrideGradient(const SimpleMatrix<double>& X, const SimpleMatrix<double>& dLdY) const{
+    if (stride == 1) return dLdY;
+    SimpleMatrix<double> expanded(dim3(X.dim().x - dim_.x + 1, X.dim().y - dim_.y + 1, num_filters));
+    for (auto it = dLdY.begin(); it != dLdY.end(); ++it){
+        expanded(it.idx().x*stride, it.idx().y*stride, it.idx().z) = *it;
+    }
+    return expanded;
+}
+
+// ----------------------------------------------------------------------------
+// ----------------------------------------------------------------------------
+
 SimpleMatrix<double> Kernel::getdLdW(const SimpleMatrix<double>& X, const SimpleMatrix<double>& dLdY){
     // STIC;
     const int num_channels = dim_.z;
+    const SimpleMatrix<double> gradient = unitStrideGradient(X, dLdY);
 
     // Create the output matrix
     SimpleMatrix<double> dLdW(weights.dim());
@@ -145,7 +158,7 @@ SimpleMatrix<double> Kernel::getdLdW(const SimpleMatrix<double>& X, const Simple
     for (int filter_idx = 0; filter_idx < num_filters; filter_idx++){
 
         // Get references to the data just for this filter
-        SubMatrixView<const double> output_gradient = dLdY.slice(filter_idx);
+        SubMatrixView<const double> output_gradient = gradient.slice(filter_idx);
         SubMatrixView<double>       weight_gradient = dLdW.slices(filter_idx*num_channels, num_channels);
 
         for (int channel_idx = 0; channel_idx < num_channels; channel_idx++){
@@ -166,6 +179,7 @@ SimpleMatrix<double> Kernel::getdLdW(const SimpleMatrix<double>& X, const Simple
 SimpleMatrix<double> Kernel::getdLdX(const SimpleMatrix<double>& X, const SimpleMatrix<double>& dLdY){
     // STIC;
     const int num_channels = dim_.z;
+    const SimpleMatrix<double> gradient = unitStrideGradient(X, dLdY);
 
     // Create the output matrix
     SimpleMatrix<double> dLdX(X.dim());
@@ -174,7 +188,7 @@ SimpleMatrix<double> Kernel::getdLdX(const SimpleMatrix<double>& X, const Simple
     for (int filter_idx = 0; filter_idx < num_filters; filter_idx++){
         // Get references to the data just for this filter
         const SubMatrixView<double> filter          = weights.slices(filter_idx*num_channels, num_channels);
-        SubMatrixView<const double> output_gradient = dLdY.slice(filter_idx);
+        SubMatrixView<const double> output_gradient = gradient.slice(filter_idx);
 
         // Create storage for the input gradient corresponding to this filter
         SimpleMatrix<double> filter_gradient(dLdX.dim());
-- 
2.43.0


From 2c0597c92f298e49e21e2093ba791f6825212288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:48 +0000
Subject: [PATCH 21/56] fix: serialize the stride of a convolution layer

A restored layer silently kept the stride it was constructed with.
---
 src/Layers/Kernel.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Layers/Kernel.cpp b/src/Layers/Kernel.cpp
index 0943b5c..9ec9384 100644
--- a/src/Layers/Kernel.cpp
+++ b/src/Layers/Kernel.cpp
@@ -247,6 +247,7 @@ std::string Kernel::serialize() const {
     serialization::place(ss, dim_.y, "y");
     serialization::place(ss, dim_.z, "z");
     serialization::place(ss, num_filters, "n");
+    serialization::place(ss, stride, "stride");
     ss << "weights\n";
     weights.serialize(ss);
     ss << "biases\n";
@@ -270,6 +271,9 @@ bool Kernel::deserialize(std::istream& is) {
     // Get the number of kernels
     num_filters = serialization::expect<unsigned>(is, "n");
 
+    // Get the stride (files written before it was recorded always had a stride of 1)
+    stride = is.peek() == 's' ? serialization::expect<unsigned>(is, "stride") : 1;
+
     // Read the weights matrix
     serialization::expect<void>(is, "weights");
     if (!weights.deserialize(is)) return false;
-- 
2.43.0


From 9064f0749c1321b814eaa10406c0472a9100b105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:54 +0000
Subject: [PATCH 22/56] fix: report missing or malformed values in
 serialization::expect

A truncated stream returned an uninitialized value as if it had been read.
---
 include/cnn_from_scratch/Serialization.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/cnn_from_scratch/Serialization.h b/include/cnn_from_scratch/Serialization.h
index 77b8358..cfbcf0c 100644
--- a/include/cnn_from_scratch/Serialization.h
+++ b/include/cnn_from_scratch/Serialization.h
@@ -3,6 +3,7 @@
 #include <string>
 #include <limits>
 #include <istream>
+#include <stdexcept>
 #include <type_traits>
 
 namespace my_cnn{
@@ -55,8 +56,11 @@ static inline T expect(std::istream& is, const std::string& expected){
     }
 
     if constexpr (!std::is_void_v<T>){
-        T output;
+        T output{};
         is >> output;
+        if (is.fail()){
+            throw std::runtime_error("No valid value found for \"" + expected + "\"");
+        }
         clearLine(is);
         return output;
     }else{
-- 
2.43.0


From 204909e65e98597b790ea01f9d4581050b63088c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:00 +0000
Subject: [PATCH 23/56] fix: refuse serialized layers whose parts do not fit
 together

Negative sizes, zero strides and parameter matrices that contradict the
recorded configuration were accepted and led to out of bounds accesses or
divisions by zero when the layer was used.
---
 src/Layers/ConnectedLayer.cpp | 5 ++++-
 src/Layers/Kernel.cpp         | 5 ++++-
 src/Layers/Pooling.cpp        | 3 ++-
 src/SimpleMatrix.tpp          | 2 +-
 4 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/Layers/ConnectedLayer.cpp b/src/Layers/ConnectedLayer.cpp
index f4fd91a..63b7134 100644
--- a/src/Layers/ConnectedLayer.cpp
+++ b/src/Layers/ConnectedLayer.cpp
@@ -177,7 +177,10 @@ bool ConnectedLayer::deserialize(std::istream& is) {
     if (!biases.deserialize(is)) return false;
     initialized_ = true;
     input_dim_ = dim3();
-    return true;
+
+    // The parameters have to match the configuration
+    return weights.dim() == dim3(stream_dim.x, stream_dim.y, 1)
+        && biases.dim()  == dim3(stream_dim.x, 1, 1);
 }
 
     
diff --git a/src/Layers/Kernel.cpp b/src/Layers/Kernel.cpp
index 9ec9384..c24ce5d 100644
--- a/src/Layers/Kernel.cpp
+++ b/src/Layers/Kernel.cpp
@@ -282,7 +282,10 @@ bool Kernel::deserialize(std::istream& is) {
     serialization::expect<void>(is, "biases");
     if (!biases.deserialize(is)) return false;
 
-    return true;
+    // The parameters have to match the configuration
+    return stride > 0
+        && weights.dim() == dim3(dim_.x, dim_.y, static_cast<int>(dim_.z*num_filters))
+        && biases.dim()  == dim3(static_cast<int>(num_filters), 1, 1);
 }
 
 } // namespace my_cnn
diff --git a/src/Layers/Pooling.cpp b/src/Layers/Pooling.cpp
index a7ceea7..b48a463 100644
--- a/src/Layers/Pooling.cpp
+++ b/src/Layers/Pooling.cpp
@@ -182,7 +182,8 @@ bool Pooling::deserialize(std::istream& is) {
     stride_.x = serialization::expect<int>(is, "x");
     stride_.y = serialization::expect<int>(is, "y");
 
-    return true;
+    // Empty pools and zero strides cannot be applied to any input
+    return dim_.x > 0 && dim_.y > 0 && stride_.x > 0 && stride_.y > 0;
 }
 
 // ----------------------------------------------------------------------------
diff --git a/src/SimpleMatrix.tpp b/src/SimpleMatrix.tpp
index 82e063e..8f289a5 100644
--- a/src/SimpleMatrix.tpp
+++ b/src/SimpleMatrix.tpp
@@ -244,7 +244,7 @@ bool SimpleMatrix<T>::deserialize(std::istream& is) {
     is >> dim.y;
     is >> dim.z;
 
-    if (is.fail()) return false;
+    if (is.fail() || dim.x < 0 || dim.y < 0 || dim.z < 0) return false;
     this->resize(dim);
 
     // Retrieve the rows of the matrix
-- 
2.43.0


From d39bf05a005bc4ee384ec9bcaa2d7edb67f2b21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:56 +0000
Subject: [PATCH 24/56] fix: restore a fully connected layer that has no
 weights yet

Such a layer was marked as initialized and refused every input.
---
 src/Layers/ConnectedLayer.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Layers/ConnectedLayer.cpp b/src/Layers/ConnectedLayer.cpp
index 63b7134..620ae36 100644
--- a/src/Layers/ConnectedLayer.cpp
+++ b/src/Layers/ConnectedLayer.cpp
@@ -175,10 +175,13 @@ bool ConnectedLayer::deserialize(std::istream& is) {
     if (!weights.deserialize(is)) return false;
     serialization::expect<void>(is, "biases");
     if (!biases.deserialize(is)) return false;
-    initialized_ = true;
+
+    // A layer that has not seen any input yet has no weights
+    initialized_ = weights.size() > 0;
     input_dim_ = dim3();
 
     // The parameters have to match the configuration
+    if (!initialized_) return stream_dim.size() == 0 && biases.isColumn();
     return weights.dim() == dim3(stream_dim.x, stream_dim.y, 1)
         && biases.dim()  == dim3(stream_dim.x, 1, 1);
 }
-- 
2.43.0


From cf6ad99d62e9bc190b0a9aa5d1c842f8d7e7662d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:01 +0000
Subject: [PATCH 25/56] fix: initialize the loss function of a model

lossFcn switched on an indeterminate value.
---
 include/cnn_from_scratch/ModelDescription.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cnn_from_scratch/ModelDescription.h b/include/cnn_from_scratch/ModelDescription.h
index ecb8bdd..af94b49 100644
--- a/include/cnn_from_scratch/ModelDescription.h
+++ b/include/cnn_from_scratch/ModelDescription.h
@@ -37,7 +37,7 @@ class ModelDescription{
 public:
     std::vector<std::shared_ptr<ModelLayer>> layers;
     std::vector<OutputDataType> output_labels;
-    LossFunction loss_function;
+    LossFunction loss_function = CROSS_ENTROPY;
 
     struct Hyperparameters{
         double learning_rate = 0;
-- 
2.43.0


From 90a0d3901e596f007e05bb9cc20a6c8d3fe2baf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:05 +0000
Subject: [PATCH 26/56] fix: refuse unknown labels in assignLoss

The loss was read from one past the end of the output probabilities.
---
 src/ModelDescription.tpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ModelDescription.tpp b/src/ModelDescription.tpp
index cf8a740..d7174fc 100644
--- a/src/ModelDescription.tpp
+++ b/src/ModelDescription.tpp
@@ -184,7 +184,11 @@ ModelResults<OutputDataType> ModelDescription<InputDataType, OutputDataType>::fo
 
 template<typename InputDataType, typename OutputDataType>
 void ModelDescription<InputDataType, OutputDataType>::assignLoss(ModelResults<OutputDataType>& result, OutputDataType label){
-    result.true_label_idx = std::distance(std::begin(output_labels), std::find(std::begin(output_labels), std::end(output_labels), label));
+    const auto label_it = std::find(std::begin(output_labels), std::end(output_labels), label);
+    if (label_it == std::end(output_labels)){
+        throw std::out_of_range("Cannot assign loss for a label that is not an output label of the model");
+    }
+    result.true_label_idx = std::distance(std::begin(output_labels), label_it);
     result.true_label = label;
     result.loss = lossFcn(result.layer_inputs.back(), result.true_label_idx);
 }
-- 
2.43.0


From 1f5044781ceb4983810616a28e65fea14d6e2d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:10 +0000
Subject: [PATCH 27/56] fix: make loadingBar inline

Including ModelDescription.h in two translation units failed to link.
---
 include/cnn_from_scratch/LoadingBar.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cnn_from_scratch/LoadingBar.h b/include/cnn_from_scratch/LoadingBar.h
index 90bfb15..93d3525 100644
--- a/include/cnn_from_scratch/LoadingBar.h
+++ b/include/cnn_from_scratch/LoadingBar.h
@@ -3,7 +3,7 @@
 #include <iostream>
 #include <iomanip>
 
-void loadingBar(float val, float total, size_t width = 50){
+inline void loadingBar(float val, float total, size_t width = 50){
     size_t occupied_width = val/total * width;
     size_t unoccupied_width = width - occupied_width;
     printf("\033[?25l");
-- 
2.43.0


From bcab2a1e3fd4040530a31abdb19b24b6fee267ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:14 +0000
Subject: [PATCH 28/56] fix: report failed writes from saveModel

It returned true even if the file could not be opened or written.
---
 src/ModelDescription.tpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ModelDescription.tpp b/src/ModelDescription.tpp
index d7174fc..b94b17d 100644
--- a/src/ModelDescription.tpp
+++ b/src/ModelDescription.tpp
@@ -62,6 +62,7 @@ template<typename InputDataType, typename OutputDataType>
 bool ModelDescription<InputDataType, OutputDataType>::saveModel(std::string filename) {
     STIC;
     std::ofstream f(filename);
+    if (!f.is_open()) return false;
 
     int i = 0;
     try{
@@ -80,7 +81,7 @@ bool ModelDescription<InputDataType, OutputDataType>::saveModel(std::string file
     }
     f << std::endl;
 
-    return true;
+    return f.good();
 }
 
 template<typename InputDataType, typename OutputDataType>
-- 
2.43.0


From 61990945276fd9e33c0aea9c300e916d5fde5144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:18 +0000
Subject: [PATCH 29/56] fix: make loadModel load what saveModel writes

loadModel could not be instantiated (addKernel takes two arguments), had no
branch for activation layers, cut labels off at the first space, and
accepted missing, truncated and unrecognized files.
---
 src/ModelDescription.tpp | 48 ++++++++++++++++++++++++++++++----------
 1 file changed, 36 insertions(+), 12 deletions(-)

diff --git a/src/ModelDescription.tpp b/src/ModelDescription.tpp
index b94b17d..1005836 100644
--- a/src/ModelDescription.tpp
+++ b/src/ModelDescription.tpp
@@ -88,7 +88,9 @@ template<typename InputDataType, typename OutputDataType>
 bool ModelDescription<InputDataType, OutputDataType>::loadModel(std::string filename) {
     STIC;
     std::ifstream f(filename);
+    if (!f.is_open()) return false;
 
+    OutputFunction output_function = UNSPECIFIED_OUTPUT;
     std::string line;
     while (std::getline(f, line)){
         // Read the next line without extracting it
@@ -97,7 +99,7 @@ bool ModelDescription<InputDataType, OutputDataType>::loadModel(std::string file
         // Determine the type of layer coming next
         try{
             if (label == "Kernel"){
-                Kernel& K = addKernel({0, 0, 0}, 1, LINEAR);
+                Kernel& K = addKernel({0, 0, 0}, 1);
                 if (not K.deserialize(f)) return false;
             }
 
@@ -111,24 +113,45 @@ bool ModelDescription<InputDataType, OutputDataType>::loadModel(std::string file
                 if (not C.deserialize(f)) return false;
             }
             
+            else if (label == "Activation"){
+                Activation& A = addActivation(LINEAR);
+                if (not A.deserialize(f)) return false;
+            }
+
             else if (label == "Softmax"){
-                // Determine the number of output labels
-                serialization::clearLine(f);
+                // The layer itself is added along with the output labels
                 serialization::clearLine(f);
+                output_function = SOFTMAX;
+            }
+
+            else if (label.rfind("Output labels", 0) == 0){
+                // Determine the number of output labels
                 int size = serialization::expect<int>(f, "Output labels");
 
-                // Load the output vector
-                std::vector<OutputDataType> labels(size);
+                // Load the output vector, where each label takes up one complete line
+                std::vector<OutputDataType> labels;
                 for (int i = 0; i < size; i++){
-                    OutputDataType label;
-                    f >> label;
-                    serialization::clearLine(f);
-                    labels[i] = label;
+                    std::string label_line;
+                    std::getline(f, label_line);
+                    if (not f.good()) return false;
+
+                    if constexpr (std::is_same_v<OutputDataType, std::string>){
+                        labels.push_back(label_line);
+                    }else{
+                        std::stringstream ss(label_line);
+                        OutputDataType value;
+                        if (not (ss >> value)) return false;
+                        labels.push_back(value);
+                    }
                 }
 
-                // Set the vector with softmax activation
-                setOutputLabels(labels, SOFTMAX);
+                // The labels are the last part of a complete file
+                setOutputLabels(labels, output_function);
+                return size >= 0;
             }
+
+            // Unknown or missing layer
+            else return false;
         }
         
         catch(std::runtime_error& e){
@@ -137,7 +160,8 @@ bool ModelDescription<InputDataType, OutputDataType>::loadModel(std::string file
         }
     }
 
-    return true;
+    // The file ended before the output labels
+    return false;
 }
 
 template<typename InputDataType, typename OutputDataType>
-- 
2.43.0


From 1eeb743355ae754d088d8804b58d1487b865143b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:28 +0000
Subject: [PATCH 30/56] fix: pass errors in training threads on to the caller
 of train

An exception in a worker thread (such as a label that is not in the output
labels) terminated the process.
---
 src/ModelDescription.tpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/ModelDescription.tpp b/src/ModelDescription.tpp
index 1005836..36ae05f 100644
--- a/src/ModelDescription.tpp
+++ b/src/ModelDescription.tpp
@@ -1,5 +1,6 @@
 #include <mutex>
 #include <thread>
+#include <exception>
 #include <fstream>
 #include <atomic>
 #include "cnn_from_scratch/imageUtil.h"
@@ -261,8 +262,10 @@ int ModelDescription<InputDataType, OutputDataType>::runEpoch(DataGenerator<Inpu
         // Assign each thread to propagate the values
         int thread_idx = 0;
         std::mutex data_mtx;
+        std::exception_ptr error;
         for (std::thread& t : workers){
             t = std::thread([&, thread_idx](){
+            try{
                 // Determine the final input index that this thread is responsible for
                 size_t start  = thread_idx * work_count;
                 size_t cutoff = std::min((thread_idx+1) * work_count, params.batch_size);
@@ -283,6 +286,11 @@ int ModelDescription<InputDataType, OutputDataType>::runEpoch(DataGenerator<Inpu
                     if (result.label_idx == result.true_label_idx)
                         success_count++;
                 }
+            }catch(...){
+                // Keep the first error to pass it on to the caller
+                std::lock_guard<std::mutex> lock(data_mtx);
+                if (!error) error = std::current_exception();
+            }
             });
 
             thread_idx++;
@@ -293,6 +301,14 @@ int ModelDescription<InputDataType, OutputDataType>::runEpoch(DataGenerator<Inpu
             t.join();
         }
 
+        // Discard the batch if any of its inputs could not be processed
+        if (error){
+            for (auto& layer : layers){
+                layer->setBatchSize(params.batch_size);
+            }
+            std::rethrow_exception(error);
+        }
+
         // Apply the update step
         for (auto& layer : layers){
             layer->applyBatch(params.learning_rate);
-- 
2.43.0


From e9d252ab3cbe3f96f7e8fe25258186df06a462bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:30 +0000
Subject: [PATCH 31/56] fix: report MNIST files that end early

Images and labels past the end of a truncated file were made up from
uninitialized memory.
---
 src/MNISTReader.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/MNISTReader.cpp b/src/MNISTReader.cpp
index ed70ac3..48ffe0a 100644
--- a/src/MNISTReader.cpp
+++ b/src/MNISTReader.cpp
@@ -92,6 +92,9 @@ T MNISTReader::read(std::fstream& stream){
             stream.read(&buf[i], 1);
         }
     }
+    if (!stream){
+        throw std::runtime_error("Unexpected end of MNIST file");
+    }
     return val;
 }
 
-- 
2.43.0


From d6248f5148d95778b800bd1b006d6fc552427d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:36 +0000
Subject: [PATCH 32/56] fix: keep image intensities in range for constant and
 negative images

Constant images divided zero by zero and negative color channels were
converted to unsigned char out of range.
---
 include/cnn_from_scratch/imageUtil.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cnn_from_scratch/imageUtil.h b/include/cnn_from_scratch/imageUtil.h
index 243203a..1f6c8fb 100644
--- a/include/cnn_from_scratch/imageUtil.h
+++ b/include/cnn_from_scratch/imageUtil.h
@@ -14,7 +14,7 @@ void printImageBWImpl(const MatrixType& M, typename MatrixType::type max_val){
         for (idx.y = 0; idx.y < M.dim().y; idx.y++){
             const T& val = M(idx);
             float dist = max_val - val;
-            float mapped_val = max_val * (1 - dist/range);
+            float mapped_val = range > 0 ? max_val * (1 - dist/range) : max_val;
             unsigned char code = std::min(static_cast<double>(mapped_val)/max_val * 255, 255.0);
             printf("\033[48;2;%d;%d;%dm  ", (int)code, (int)code, (int)code);
         }
@@ -32,7 +32,7 @@ void printImageColorImpl(const MatrixType& M, typename MatrixType::type max_val)
             ss << "\033[48;2";
             for (idx.z = 0; idx.z < 3; idx.z++){
                 const T& val = M(idx);
-                unsigned char code = std::min(static_cast<double>(val)/max_val * 255, 255.0);
+                unsigned char code = std::max(std::min(static_cast<double>(val)/max_val * 255, 255.0), 0.0);
                 ss << ";" << +code;
             }
             ss << "m   ";
-- 
2.43.0


From aaf1bb0f3b4cdea1649d970266911aada7ffe82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:41 +0000
Subject: [PATCH 33/56] fix: format the stream a matrix is printed to

Printing to any stream changed the format of std::cout instead.
---
 include/cnn_from_scratch/Matrix/SimpleMatrix.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/cnn_from_scratch/Matrix/SimpleMatrix.h b/include/cnn_from_scratch/Matrix/SimpleMatrix.h
index addb3f2..567e423 100644
--- a/include/cnn_from_scratch/Matrix/SimpleMatrix.h
+++ b/include/cnn_from_scratch/Matrix/SimpleMatrix.h
@@ -135,11 +135,12 @@ template<typename MatrixType, std::enable_if_t<std::is_base_of_v<MatrixBase, Mat
 std::ostream& operator<<(std::ostream& os, const MatrixType& M){
     using T = typename MatrixType::type;
 
-    int default_precision = std::cout.precision();
+    const auto default_precision = os.precision();
+    const auto default_flags = os.flags();
     int max_width = 4;
     
     if constexpr (std::is_floating_point_v<T>){
-        std::cout << std::setprecision(2) << std::fixed;
+        os << std::setprecision(2) << std::fixed;
         max_width += 3;
     }
 
@@ -156,8 +157,8 @@ std::ostream& operator<<(std::ostream& os, const MatrixType& M){
         os << "\n";
     }
 
-    std::cout << std::setprecision(default_precision);
-    std::cout << std::defaultfloat;
+    os.precision(default_precision);
+    os.flags(default_flags);
 
     return os;
 }
-- 
2.43.0


From eead1fff86f20c56c342bdcc472d93eb117ddd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:46 +0000
Subject: [PATCH 34/56] fix: use one batch entry per validation thread

All threads recorded their pooling indices in the same batch entry at the
same time.
---
 src/main.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index 6a276f1..51c16d2 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -69,6 +69,11 @@ void validate(ModelType& model, const typename ModelType::Hyperparameters& param
     std::atomic<int> correct_count = 0;
     std::vector<std::thread> workers(params.num_threads);
 
+    // Each thread uses its own batch entry
+    for (auto& layer : model.layers){
+        layer->setBatchSize(params.num_threads);
+    }
+
     // Assign work to threads
     auto start = std::chrono::steady_clock::now();
     int num_images = db.numImages();
@@ -81,7 +86,7 @@ void validate(ModelType& model, const typename ModelType::Hyperparameters& param
                 lock.unlock();
 
                 // Run forwards propagation and check result
-                my_cnn::ModelResults result = model.forwardPropagation(Data.data);
+                my_cnn::ModelResults result = model.forwardPropagation(Data.data, worker_idx);
                 correct_count += model.output_labels[result.label_idx] == std::to_string(Data.label);
             }
         });
-- 
2.43.0


From 42b1f06d6f1dae30ed50b3fc10d2611d5db052dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:22 +0000
Subject: [PATCH 35/56] fix: keep the MNIST reader usable after a refused
 request

getImage with an index far past the end moved the streams to an invalid
position, and a read past the end of a short file left them failed, so that
every later valid request was refused as well.
---
 src/MNISTReader.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/MNISTReader.cpp b/src/MNISTReader.cpp
index 48ffe0a..72357d0 100644
--- a/src/MNISTReader.cpp
+++ b/src/MNISTReader.cpp
@@ -48,7 +48,14 @@ MNISTReader::~MNISTReader(){
 }
 
 Image MNISTReader::getImage(size_t idx){
+    // Refuse indices past the end before moving the streams to a position that does not exist
+    if (idx >= num_images_){
+        throw std::runtime_error("Cannot extract image " + std::to_string(idx) + " out of " + std::to_string(num_images_) + " images");
+    }
+
     current_index_ = idx;
+    image_stream_.clear();
+    label_stream_.clear();
 
     // Set the index for the image stream
     size_t img_char_start_idx = DATA_NUM_HEADER_LINES*sizeof(int32_t) + idx * image_height_ * image_width_;
-- 
2.43.0


From cbfba6f5b0e668f975b1bb7b149a37120a2c04cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:12 +0000
Subject: [PATCH 36/56] fix: count the elements of a matrix without integer
 overflow

---
 src/SimpleMatrix.tpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/SimpleMatrix.tpp b/src/SimpleMatrix.tpp
index 8f289a5..01bf2e6 100644
--- a/src/SimpleMatrix.tpp
+++ b/src/SimpleMatrix.tpp
@@ -21,7 +21,7 @@ namespace my_cnn{
 template<typename T>
 SimpleMatrix<T>::SimpleMatrix(dim3 dim, T initial_val):
 MatrixBase(dim),
-values_(dim.x*dim.y*dim.z, initial_val)
+values_(dim.size(), initial_val)
 {}
 
 // From a Matrix-like object
@@ -108,13 +108,13 @@ const dim3& SimpleMatrix<T>::dims() const{
 
 template<typename T>
 void SimpleMatrix<T>::resize(int x, int y, int z){
+    values_.resize(dim3(x, y, z).size(), T{});
     dim_ = dim3(x, y, z);
-    values_.resize(x*y*z, T{});
 }
 
 template<typename T>
 void SimpleMatrix<T>::reshape(int x, int y, int z){
-    if(x*y*z != dim_.x*dim_.y*dim_.z){
+    if(dim3(x, y, z).size() != dim_.size()){
         std::stringstream ss;
         ss << "Cannot transform matrix from size " << dim_ << " to size " << dim3(x,y,z) << "\n";
         throw MatrixTransformException(ss.str());
-- 
2.43.0


From c53a2501ede5777ba75e2904e6b24b856058df54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:12 +0000
Subject: [PATCH 37/56] fix: refuse to reshape a matrix to negative extents

---
 src/SimpleMatrix.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SimpleMatrix.tpp b/src/SimpleMatrix.tpp
index 01bf2e6..4448f44 100644
--- a/src/SimpleMatrix.tpp
+++ b/src/SimpleMatrix.tpp
@@ -114,7 +114,7 @@ void SimpleMatrix<T>::resize(int x, int y, int z){
 
 template<typename T>
 void SimpleMatrix<T>::reshape(int x, int y, int z){
-    if(dim3(x, y, z).size() != dim_.size()){
+    if(x < 0 || y < 0 || z < 0 || dim3(x, y, z).size() != dim_.size()){
         std::stringstream ss;
         ss << "Cannot transform matrix from size " << dim_ << " to size " << dim3(x,y,z) << "\n";
         throw MatrixTransformException(ss.str());
-- 
2.43.0


From 747d150812131aeebf13cfc8bc03fe1c899b9042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:44 +0000
Subject: [PATCH 38/56] fix: do not trust the dimensions of a serialized matrix

A damaged stream could request a matrix of any size, which overflowed the
element count or exhausted the memory instead of being refused.
---
 src/SimpleMatrix.tpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/SimpleMatrix.tpp b/src/SimpleMatrix.tpp
index 4448f44..7f53cc6 100644
--- a/src/SimpleMatrix.tpp
+++ b/src/SimpleMatrix.tpp
@@ -245,15 +245,21 @@ bool SimpleMatrix<T>::deserialize(std::istream& is) {
     is >> dim.z;
 
     if (is.fail() || dim.x < 0 || dim.y < 0 || dim.z < 0) return false;
-    this->resize(dim);
 
-    // Retrieve the rows of the matrix
+    // Retrieve the rows of the matrix. The values are only stored once all of them were found, because
+    // the dimensions in a damaged stream can be of any size
+    std::vector<T> values;
     for (int z = 0; z < dim.z; z++){
+        if (is.fail()) return false;
         for (int x = 0; x < dim.x; x++){
-            // For each entry, write to the corresponding value
+            if (is.fail()) return false;
+
+            // Read the entries of this row
             for (int y = 0; y < dim.y; y++){
-                is >> this->operator()(x, y, z);
+                T value;
+                is >> value;
                 if (is.fail()) return false;
+                values.push_back(value);
             }
 
             // Newline
@@ -264,6 +270,8 @@ bool SimpleMatrix<T>::deserialize(std::istream& is) {
         serialization::clearLine(is);
     }
 
+    this->resize(dim);
+    this->setEntries(std::move(values));
     return true;
 }
 
-- 
2.43.0


From cb7ab2ffa553fec7e1f94124b6d83f3eafc9e21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:44 +0000
Subject: [PATCH 39/56] fix: read the complete first line of a serialized
 matrix

The rest of the line was left in the stream for a matrix without elements, so
nothing written after it could be read back.
---
 src/SimpleMatrix.tpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/SimpleMatrix.tpp b/src/SimpleMatrix.tpp
index 7f53cc6..044280d 100644
--- a/src/SimpleMatrix.tpp
+++ b/src/SimpleMatrix.tpp
@@ -246,6 +246,9 @@ bool SimpleMatrix<T>::deserialize(std::istream& is) {
 
     if (is.fail() || dim.x < 0 || dim.y < 0 || dim.z < 0) return false;
 
+    // Newline
+    serialization::clearLine(is);
+
     // Retrieve the rows of the matrix. The values are only stored once all of them were found, because
     // the dimensions in a damaged stream can be of any size
     std::vector<T> values;
-- 
2.43.0


From 228812fa702df2fc64233c0bd4d5cd6601d378ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:09 +0000
Subject: [PATCH 40/56] fix: serialize matrices of small integers as numbers

Entries of a character type were written as raw characters, and the ones that
are white space were lost when reading them back.
---
 src/SimpleMatrix.tpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/SimpleMatrix.tpp b/src/SimpleMatrix.tpp
index 044280d..ddca791 100644
--- a/src/SimpleMatrix.tpp
+++ b/src/SimpleMatrix.tpp
@@ -227,7 +227,7 @@ void SimpleMatrix<T>::serialize(std::ostream& os) const {
         for (int x = 0; x < dim_.x; x++){
             for (int y = 0; y < dim_.y; y++){
                 const T& val = this->operator()(x, y, z);
-                os << std::setw(16) << val << " ";
+                os << std::setw(16) << +val << " ";
             }
             os << "\n";
         }
@@ -259,10 +259,10 @@ bool SimpleMatrix<T>::deserialize(std::istream& is) {
 
             // Read the entries of this row
             for (int y = 0; y < dim.y; y++){
-                T value;
+                decltype(+T{}) value;
                 is >> value;
                 if (is.fail()) return false;
-                values.push_back(value);
+                values.push_back(static_cast<T>(value));
             }
 
             // Newline
-- 
2.43.0


From 550610fcf184829010cf3e1d1af48e749ca17858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:10 +0000
Subject: [PATCH 41/56] fix: refuse unexpected text in serialized layers and
 matrices

Rows with more numbers than the matrix has columns, rows in place of the blank line between
channels and text after a value were skipped, so that files with damaged sizes or numbers were
accepted with wrong content.
---
 include/cnn_from_scratch/Serialization.h | 23 ++++++++++++++++++++---
 src/SimpleMatrix.tpp                     |  6 +++---
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/include/cnn_from_scratch/Serialization.h b/include/cnn_from_scratch/Serialization.h
index cfbcf0c..bafd2a6 100644
--- a/include/cnn_from_scratch/Serialization.h
+++ b/include/cnn_from_scratch/Serialization.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <string>
+#include <cctype>
 #include <limits>
 #include <istream>
 #include <stdexcept>
@@ -17,6 +18,20 @@ static inline void clearLine(std::istream& S){
     S.ignore(std::numeric_limits<int>::max(), '\n');
 }
 
+/**
+ * Given an input stream, extract everything until the next line
+ * @return Whether there was nothing but white space left on the current line
+ */
+static inline bool finishLine(std::istream& S){
+    bool blank = true;
+    while (S.peek() != std::istream::traits_type::eof()){
+        const char c = S.get();
+        if (c == '\n') break;
+        if (!std::isspace(static_cast<unsigned char>(c))) blank = false;
+    }
+    return blank;
+}
+
 /**
  * Given an input stream, read the next line without extracting it 
  */
@@ -61,10 +76,12 @@ static inline T expect(std::istream& is, const std::string& expected){
         if (is.fail()){
             throw std::runtime_error("No valid value found for \"" + expected + "\"");
         }
-        clearLine(is);
+        if (!finishLine(is)){
+            throw std::runtime_error("Unexpected text after the value of \"" + expected + "\"");
+        }
         return output;
-    }else{
-        clearLine(is);
+    }else if (!finishLine(is)){
+        throw std::runtime_error("Unexpected text after \"" + expected + "\"");
     }
 }
 
diff --git a/src/SimpleMatrix.tpp b/src/SimpleMatrix.tpp
index ddca791..c189d30 100644
--- a/src/SimpleMatrix.tpp
+++ b/src/SimpleMatrix.tpp
@@ -247,7 +247,7 @@ bool SimpleMatrix<T>::deserialize(std::istream& is) {
     if (is.fail() || dim.x < 0 || dim.y < 0 || dim.z < 0) return false;
 
     // Newline
-    serialization::clearLine(is);
+    if (!serialization::finishLine(is)) return false;
 
     // Retrieve the rows of the matrix. The values are only stored once all of them were found, because
     // the dimensions in a damaged stream can be of any size
@@ -266,11 +266,11 @@ bool SimpleMatrix<T>::deserialize(std::istream& is) {
             }
 
             // Newline
-            serialization::clearLine(is);
+            if (!serialization::finishLine(is)) return false;
         }
 
         // Newline
-        serialization::clearLine(is);
+        if (!serialization::finishLine(is)) return false;
     }
 
     this->resize(dim);
-- 
2.43.0


From f5f5c414a3a4fd81a1cac1857389d58a10183415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:15 +0000
Subject: [PATCH 42/56] fix: refuse model files with more labels than announced

The labels past the announced count were ignored and the model was loaded with too few labels.
---
 src/ModelDescription.tpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ModelDescription.tpp b/src/ModelDescription.tpp
index 36ae05f..4dc0807 100644
--- a/src/ModelDescription.tpp
+++ b/src/ModelDescription.tpp
@@ -147,6 +147,9 @@ bool ModelDescription<InputDataType, OutputDataType>::loadModel(std::string file
                 }
 
                 // The labels are the last part of a complete file
+                while (f.peek() != std::ifstream::traits_type::eof()){
+                    if (not serialization::finishLine(f)) return false;
+                }
                 setOutputLabels(labels, output_function);
                 return size >= 0;
             }
-- 
2.43.0


From 5f60e79d8ce23bb2faf15b01e229199cb74b66e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:08 +0000
Subject: [PATCH 43/56] fix: refuse a negative stride in a serialized kernel

It was read as an unsigned number, so that "stride -1" was accepted as a stride of 4294967295.
---
 src/Layers/Kernel.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Layers/Kernel.cpp b/src/Layers/Kernel.cpp
index c24ce5d..7067d83 100644
--- a/src/Layers/Kernel.cpp
+++ b/src/Layers/Kernel.cpp
@@ -272,7 +272,9 @@ bool Kernel::deserialize(std::istream& is) {
     num_filters = serialization::expect<unsigned>(is, "n");
 
     // Get the stride (files written before it was recorded always had a stride of 1)
-    stride = is.peek() == 's' ? serialization::expect<unsigned>(is, "stride") : 1;
+    const int stream_stride = is.peek() == 's' ? serialization::expect<int>(is, "stride") : 1;
+    if (stream_stride <= 0) return false;
+    stride = stream_stride;
 
     // Read the weights matrix
     serialization::expect<void>(is, "weights");
@@ -283,8 +285,7 @@ bool Kernel::deserialize(std::istream& is) {
     if (!biases.deserialize(is)) return false;
 
     // The parameters have to match the configuration
-    return stride > 0
-        && weights.dim() == dim3(dim_.x, dim_.y, static_cast<int>(dim_.z*num_filters))
+    return weights.dim() == dim3(dim_.x, dim_.y, static_cast<int>(dim_.z*num_filters))
         && biases.dim()  == dim3(static_cast<int>(num_filters), 1, 1);
 }
 
-- 
2.43.0


From 541452ed976566090a66349eeb6f5e7488edfaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:59 +0000
Subject: [PATCH 44/56] fix: refuse batch entries beyond the batch that was set
 up

---
 src/Layers/ConnectedLayer.cpp | 4 ++--
 src/Layers/Kernel.cpp         | 4 ++--
 src/Layers/Pooling.cpp        | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Layers/ConnectedLayer.cpp b/src/Layers/ConnectedLayer.cpp
index 620ae36..52725e7 100644
--- a/src/Layers/ConnectedLayer.cpp
+++ b/src/Layers/ConnectedLayer.cpp
@@ -138,8 +138,8 @@ SimpleMatrix<double> ConnectedLayer::propagateBackward(
             const SimpleMatrix<double>& X, const SimpleMatrix<double>&, 
             const SimpleMatrix<double>& dLdZ, size_t batch_idx, bool last_layer)
 {        
-    weight_gradients_[batch_idx] = getdLdW(X, dLdZ);
-    bias_gradients_[batch_idx]   = getdLdB(dLdZ);
+    weight_gradients_.at(batch_idx) = getdLdW(X, dLdZ);
+    bias_gradients_.at(batch_idx)   = getdLdB(dLdZ);
     // weights -= learning_rate * getdLdW(X, dLdZ);
     // biases  -= learning_rate * getdLdB(dLdZ);
 
diff --git a/src/Layers/Kernel.cpp b/src/Layers/Kernel.cpp
index 7067d83..1ce5cd2 100644
--- a/src/Layers/Kernel.cpp
+++ b/src/Layers/Kernel.cpp
@@ -230,8 +230,8 @@ SimpleMatrix<double> Kernel::propagateBackward(
         const SimpleMatrix<double>& dLdZ, size_t batch_idx, bool last_layer) 
 {
     // SimpleMatrix<double> dLdY = getdLdY(Z, dLdZ);
-    weight_gradients_[batch_idx] = getdLdW(X, dLdZ);
-    bias_gradients_[batch_idx]   = getdLdB(dLdZ);
+    weight_gradients_.at(batch_idx) = getdLdW(X, dLdZ);
+    bias_gradients_.at(batch_idx)   = getdLdB(dLdZ);
     // weights -= learning_rate * getdLdW(X, dLdZ);       
     // biases  -= learning_rate * getdLdB(dLdZ);
     return last_layer ? SimpleMatrix<double>() : getdLdX(X, dLdZ);
diff --git a/src/Layers/Pooling.cpp b/src/Layers/Pooling.cpp
index b48a463..e1473b7 100644
--- a/src/Layers/Pooling.cpp
+++ b/src/Layers/Pooling.cpp
@@ -52,7 +52,7 @@ SimpleMatrix<double> Pooling::propagateForward(SimpleMatrix<double>&& input, siz
     SimpleMatrix<double> output(outputSize(input.dim()));
 
     // Reset the affected indices vector
-    SimpleMatrix<dim3>& indices = affected_indices_[batch_idx];
+    SimpleMatrix<dim3>& indices = affected_indices_.at(batch_idx);
     indices.resize(output.dim());
 
     const dim3 pool_size{dim_.x, dim_.y, 1};
@@ -94,7 +94,7 @@ SimpleMatrix<double> Pooling::propagateForward(SimpleMatrix<double>&& input, siz
 
 SimpleMatrix<double> Pooling::getdLdX(const SimpleMatrix<double>& X, const SimpleMatrix<double>& dLdY, size_t batch_idx){
     SimpleMatrix<double> dLdx(X.dim());
-    SimpleMatrix<dim3>& indices = affected_indices_[batch_idx];
+    SimpleMatrix<dim3>& indices = affected_indices_.at(batch_idx);
 
     switch(type_){
         case MIN:
-- 
2.43.0


From 872e1ed27d09e2664175041835b442816c9e7318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:05 +0000
Subject: [PATCH 45/56] fix: refuse label lines with text after the value

---
 src/ModelDescription.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ModelDescription.tpp b/src/ModelDescription.tpp
index 4dc0807..f3279a2 100644
--- a/src/ModelDescription.tpp
+++ b/src/ModelDescription.tpp
@@ -141,7 +141,7 @@ bool ModelDescription<InputDataType, OutputDataType>::loadModel(std::string file
                     }else{
                         std::stringstream ss(label_line);
                         OutputDataType value;
-                        if (not (ss >> value)) return false;
+                        if (not (ss >> value) or not serialization::finishLine(ss)) return false;
                         labels.push_back(value);
                     }
                 }
-- 
2.43.0


From c7768203eefb5a2aff70256f04019dc5ad0dea7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:11 +0000
Subject: [PATCH 46/56] fix: count the batches of large data sets exactly

---
 src/ModelDescription.tpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ModelDescription.tpp b/src/ModelDescription.tpp
index f3279a2..a0d7723 100644
--- a/src/ModelDescription.tpp
+++ b/src/ModelDescription.tpp
@@ -252,13 +252,13 @@ int ModelDescription<InputDataType, OutputDataType>::runEpoch(DataGenerator<Inpu
     std::vector<std::thread> workers(params.num_threads);
 
     // Determine how much work each thread has to do
-    const int work_count = std::ceil((float)params.batch_size / params.num_threads);
+    const int work_count = std::ceil((double)params.batch_size / params.num_threads);
 
     // Create a vector to store the results of each individual forward propagation
     std::vector<ModelResults<OutputDataType>> batch_results(params.batch_size);
     std::atomic_int success_count = 0;
 
-    const int num_batches = std::ceil((float)data_source.size() / params.batch_size);
+    const int num_batches = std::ceil((double)data_source.size() / params.batch_size);
     for (int n = 0; n < num_batches; n++){
         TIC("Run Batch");
 
-- 
2.43.0


From f59a8b8cc84cc196bc319c412e6329004e4be9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:12 +0000
Subject: [PATCH 47/56] fix: never show an image past the end of the test set

---
 src/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index 51c16d2..59a74e8 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -100,7 +100,7 @@ void validate(ModelType& model, const typename ModelType::Hyperparameters& param
 
     // Print some samples for manual inspection
     for (int i = 0; i < 5; i++){
-        int idx = (double)(rand())/RAND_MAX * num_images;
+        int idx = std::min<int>((double)(rand())/RAND_MAX * num_images, num_images - 1);
         auto Data = db.getImage(idx);
 
         my_cnn::ModelResults result = model.forwardPropagation(Data.data);
-- 
2.43.0


From ac7871b6bf7bffc0edb154b9b0cc1e5740a49bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:34 +0000
Subject: [PATCH 48/56] fix: save every digit of floating point labels

---
 src/ModelDescription.tpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ModelDescription.tpp b/src/ModelDescription.tpp
index a0d7723..ad68c65 100644
--- a/src/ModelDescription.tpp
+++ b/src/ModelDescription.tpp
@@ -77,6 +77,9 @@ bool ModelDescription<InputDataType, OutputDataType>::saveModel(std::string file
     }
 
     f << "\nOutput labels " << output_labels.size() << "\n";
+    if constexpr (std::is_floating_point_v<OutputDataType>){
+        f.precision(std::numeric_limits<OutputDataType>::max_digits10);
+    }
     for (OutputDataType& label : output_labels){
         f << label << "\n";
     }
-- 
2.43.0


From a38cd4cdce135c7a27b6e82de7015a0f6228e668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:34 +0000
Subject: [PATCH 49/56] fix: refuse to save labels that contain a line break

---
 src/ModelDescription.tpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ModelDescription.tpp b/src/ModelDescription.tpp
index ad68c65..2e8bbaa 100644
--- a/src/ModelDescription.tpp
+++ b/src/ModelDescription.tpp
@@ -2,6 +2,7 @@
 #include <thread>
 #include <exception>
 #include <fstream>
+#include <sstream>
 #include <atomic>
 #include "cnn_from_scratch/imageUtil.h"
 #include "cnn_from_scratch/timerConfig.h"
@@ -62,6 +63,14 @@ void ModelDescription<InputDataType, OutputDataType>::setOutputLabels(std::vecto
 template<typename InputDataType, typename OutputDataType>
 bool ModelDescription<InputDataType, OutputDataType>::saveModel(std::string filename) {
     STIC;
+
+    // Each label takes up one complete line of the file
+    for (const OutputDataType& label : output_labels){
+        std::stringstream ss;
+        ss << label;
+        if (ss.str().find('\n') != std::string::npos) return false;
+    }
+
     std::ofstream f(filename);
     if (!f.is_open()) return false;
 
-- 
2.43.0


From e580a4fe740cef5efe96357dac248bea520af45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:34 +0000
Subject: [PATCH 50/56] fix: load labels that are white space characters

---
 src/ModelDescription.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ModelDescription.tpp b/src/ModelDescription.tpp
index 2e8bbaa..da566eb 100644
--- a/src/ModelDescription.tpp
+++ b/src/ModelDescription.tpp
@@ -153,7 +153,7 @@ bool ModelDescription<InputDataType, OutputDataType>::loadModel(std::string file
                     }else{
                         std::stringstream ss(label_line);
                         OutputDataType value;
-                        if (not (ss >> value) or not serialization::finishLine(ss)) return false;
+                        if (not (ss >> std::noskipws >> value) or not serialization::finishLine(ss)) return false;
                         labels.push_back(value);
                     }
                 }
-- 
2.43.0


From 7096b20934131b1a2af63445bf51de6a3a572b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:34 +0000
Subject: [PATCH 51/56] fix: report worker threads that cannot be started

---
 src/ModelDescription.tpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ModelDescription.tpp b/src/ModelDescription.tpp
index da566eb..fdfe547 100644
--- a/src/ModelDescription.tpp
+++ b/src/ModelDescription.tpp
@@ -1,6 +1,7 @@
 #include <mutex>
 #include <thread>
 #include <exception>
+#include <system_error>
 #include <fstream>
 #include <sstream>
 #include <atomic>
@@ -279,6 +280,7 @@ int ModelDescription<InputDataType, OutputDataType>::runEpoch(DataGenerator<Inpu
         std::mutex data_mtx;
         std::exception_ptr error;
         for (std::thread& t : workers){
+            try{
             t = std::thread([&, thread_idx](){
             try{
                 // Determine the final input index that this thread is responsible for
@@ -307,13 +309,18 @@ int ModelDescription<InputDataType, OutputDataType>::runEpoch(DataGenerator<Inpu
                 if (!error) error = std::current_exception();
             }
             });
+            }catch(const std::system_error&){
+                // The thread could not be started, so its share of the batch is missing
+                std::lock_guard<std::mutex> lock(data_mtx);
+                if (!error) error = std::current_exception();
+            }
 
             thread_idx++;
         }
 
         // Wait for all threads to finish
         for (std::thread& t : workers){
-            t.join();
+            if (t.joinable()) t.join();
         }
 
         // Discard the batch if any of its inputs could not be processed
-- 
2.43.0


From 61a9d0cf1d6135d4a194cdb1e2efb649928950f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:34 +0000
Subject: [PATCH 52/56] fix: count the elements of matrices beyond the range of
 int

---
 include/cnn_from_scratch/Matrix/MatrixBase.h     | 2 +-
 include/cnn_from_scratch/Matrix/MatrixIterator.h | 4 ++--
 src/SimpleMatrix.tpp                             | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/cnn_from_scratch/Matrix/MatrixBase.h b/include/cnn_from_scratch/Matrix/MatrixBase.h
index f7f0cd4..9f72a37 100644
--- a/include/cnn_from_scratch/Matrix/MatrixBase.h
+++ b/include/cnn_from_scratch/Matrix/MatrixBase.h
@@ -26,7 +26,7 @@ public:
     }
 
     size_t size() const{
-        return dim_.x*dim_.y*dim_.z;
+        return dim_.size();
     }
 
     const dim3& dim() const{
diff --git a/include/cnn_from_scratch/Matrix/MatrixIterator.h b/include/cnn_from_scratch/Matrix/MatrixIterator.h
index a51cf5a..f67bce5 100644
--- a/include/cnn_from_scratch/Matrix/MatrixIterator.h
+++ b/include/cnn_from_scratch/Matrix/MatrixIterator.h
@@ -28,7 +28,7 @@ public:
     parent_(&parent), 
     // An empty matrix has a single position, so that begin() == end()
     dim_it_(parent.dim(), parent.size() == 0 ? dim3(0) : idx),
-    scalar_idx_(idx.z*dim_it_.dim.x*dim_it_.dim.y + idx.y*dim_it_.dim.x + idx.x) {}
+    scalar_idx_(size_t(idx.z)*dim_it_.dim.x*dim_it_.dim.y + size_t(idx.y)*dim_it_.dim.x + idx.x) {}
 
     reference operator*() {
         if constexpr (is_pure_matrix)
@@ -60,7 +60,7 @@ public:
     // Difference of two iterators
     difference_type operator-(const MatrixIterator& other) const{
         dim3 diff = dim_it_.idx - other.dim_it_.idx;
-        return (diff.z * dim_it_.dim.x * dim_it_.dim.y) + (diff.y * dim_it_.dim.x) + diff.x;
+        return (difference_type(diff.z) * dim_it_.dim.x * dim_it_.dim.y) + (difference_type(diff.y) * dim_it_.dim.x) + diff.x;
     }
 
     bool operator==(const MatrixIterator& other) const{
diff --git a/src/SimpleMatrix.tpp b/src/SimpleMatrix.tpp
index c189d30..9c82fec 100644
--- a/src/SimpleMatrix.tpp
+++ b/src/SimpleMatrix.tpp
@@ -62,7 +62,7 @@ template<typename T>
 template<typename Other>
 SimpleMatrix<T>& SimpleMatrix<T>::operator=(const SimpleMatrix<Other>& M){
     dim_ = M.dim_;
-    values_.resize(dim_.x*dim_.y*dim_.z);
+    values_.resize(dim_.size());
     std::copy(M.values_.begin(), M.values_.end(), values_.begin());
     return *this;
 }
-- 
2.43.0


From 9a670696ff299190bf4ac3139949017fc48c67ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:34 +0000
Subject: [PATCH 53/56] fix: refuse to train without threads or with an empty
 batch

---
 include/cnn_from_scratch/ModelDescription.h |  3 +++
 src/ModelDescription.tpp                    | 11 ++++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/cnn_from_scratch/ModelDescription.h b/include/cnn_from_scratch/ModelDescription.h
index af94b49..c09abf6 100644
--- a/include/cnn_from_scratch/ModelDescription.h
+++ b/include/cnn_from_scratch/ModelDescription.h
@@ -65,6 +65,9 @@ public:
     void train(DataGenerator<InputDataType>& data_source, Hyperparameters params);
 
 private:
+    // Refuse configurations that no sample could be processed with
+    static void checkHyperparameters(const Hyperparameters& params);
+
     size_t kernel_count_     = 0;
     size_t pooling_count_    = 0;
     size_t fully_conn_count_ = 0;
diff --git a/src/ModelDescription.tpp b/src/ModelDescription.tpp
index fdfe547..0a313a7 100644
--- a/src/ModelDescription.tpp
+++ b/src/ModelDescription.tpp
@@ -1,6 +1,7 @@
 #include <mutex>
 #include <thread>
 #include <exception>
+#include <stdexcept>
 #include <system_error>
 #include <fstream>
 #include <sstream>
@@ -260,7 +261,8 @@ void ModelDescription<InputDataType, OutputDataType>::backwardsPropagation(Model
 
 template<typename InputDataType, typename OutputDataType>
 int ModelDescription<InputDataType, OutputDataType>::runEpoch(DataGenerator<InputDataType>& data_source, Hyperparameters params){
-    
+    checkHyperparameters(params);
+
     // Create a pool of worker threads to operate on the inputs
     std::vector<std::thread> workers(params.num_threads);
 
@@ -344,9 +346,16 @@ int ModelDescription<InputDataType, OutputDataType>::runEpoch(DataGenerator<Inpu
     return success_count;
 }
 
+template<typename InputDataType, typename OutputDataType>
+void ModelDescription<InputDataType, OutputDataType>::checkHyperparameters(const Hyperparameters& params){
+    if (params.batch_size < 1) throw std::invalid_argument("Cannot train with a batch size of " + std::to_string(params.batch_size));
+    if (params.num_threads < 1) throw std::invalid_argument("Cannot train with " + std::to_string(params.num_threads) + " threads");
+}
+
 template<typename InputDataType, typename OutputDataType>
 void ModelDescription<InputDataType, OutputDataType>::train(DataGenerator<InputDataType>& data_source, Hyperparameters params){
     STIC;
+    checkHyperparameters(params);
 
     // Set up all layers to expect the incoming batch size
     for (auto& layer : layers){
-- 
2.43.0


From 4102eaf4b6cf01c9d4b322401d36a1001a245fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:34 +0000
Subject: [PATCH 54/56] fix: write matrices the same way to any stream

---
 src/SimpleMatrix.tpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/SimpleMatrix.tpp b/src/SimpleMatrix.tpp
index 9c82fec..de1130a 100644
--- a/src/SimpleMatrix.tpp
+++ b/src/SimpleMatrix.tpp
@@ -221,7 +221,10 @@ size_t SimpleMatrix<T>::maxIndex() const{
 
 template<typename T>
 void SimpleMatrix<T>::serialize(std::ostream& os) const {
-    os << std::fixed;
+    // The stream may have been set up to print numbers in any other way
+    const auto default_flags     = os.flags(std::ios::dec | std::ios::fixed | std::ios::right);
+    const auto default_precision = os.precision(6);
+    const auto default_fill      = os.fill(' ');
     os << dim_.x << " " << dim_.y << " " << dim_.z << "\n";
     for (int z = 0; z < dim_.z; z++){
         for (int x = 0; x < dim_.x; x++){
@@ -233,7 +236,9 @@ void SimpleMatrix<T>::serialize(std::ostream& os) const {
         }
         os << "\n";
     }
-    os << std::defaultfloat;
+    os.flags(default_flags);
+    os.precision(default_precision);
+    os.fill(default_fill);
 }
 
 template<typename T>
-- 
2.43.0


From df628c5aa7c77292d8e01b6ffb92c04ab3e71a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:01 +0000
Subject: [PATCH 55/56] fix: count the windows of a pooling layer exactly for
 inputs of any extent

---
 src/Layers/Pooling.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Layers/Pooling.cpp b/src/Layers/Pooling.cpp
index e1473b7..db5f095 100644
--- a/src/Layers/Pooling.cpp
+++ b/src/Layers/Pooling.cpp
@@ -35,8 +35,8 @@ void Pooling::setBatchSize(size_t batch_size) {
 // ----------------------------------------------------------------------------
 
 dim3 Pooling::outputSize(const dim3& input_dim) const {
-    const int x_size = std::ceil((input_dim.x - dim_.x + 1.0f)/stride_.x);
-    const int y_size = std::ceil((input_dim.y - dim_.y + 1.0f)/stride_.y);
+    const int x_size = std::ceil((input_dim.x - dim_.x + 1.0)/stride_.x);
+    const int y_size = std::ceil((input_dim.y - dim_.y + 1.0)/stride_.y);
     const int z_size = input_dim.z;
     return dim3(x_size, y_size, z_size); 
 }
-- 
2.43.0


From 82bb5f0f1bf19b49595cf555def9e2198b1f2f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:02 +0000
Subject: [PATCH 56/56] fix: draw the progress bar without changing the
 formatting of std::cout

---
 include/cnn_from_scratch/LoadingBar.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/cnn_from_scratch/LoadingBar.h b/include/cnn_from_scratch/LoadingBar.h
index 93d3525..72692e3 100644
--- a/include/cnn_from_scratch/LoadingBar.h
+++ b/include/cnn_from_scratch/LoadingBar.h
@@ -2,13 +2,17 @@
 
 #include <iostream>
 #include <iomanip>
+#include <sstream>
 
 inline void loadingBar(float val, float total, size_t width = 50){
     size_t occupied_width = val/total * width;
     size_t unoccupied_width = width - occupied_width;
     printf("\033[?25l");
-    std::cout << "\r" << std::setfill('=') << std::setw(occupied_width+1) << std::left << "[";
-    std::cout << std::setfill(' ') << std::setw(unoccupied_width) << std::right << "]";
-    std::cout << " " << std::setw(3) << (int)(100.0*val/total+1) << "%";
+    // Composed in a stream of its own to leave the formatting of std::cout as it is
+    std::ostringstream bar;
+    bar << "\r" << std::setfill('=') << std::setw(occupied_width+1) << std::left << "[";
+    bar << std::setfill(' ') << std::setw(unoccupied_width) << std::right << "]";
+    bar << " " << std::setw(3) << (int)(100.0*val/total+1) << "%";
+    std::cout << bar.str();
     printf("\033[?25h");
 }
\ No newline at end of file
-- 
2.43.0

