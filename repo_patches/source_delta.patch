From fb79b5692c8b7066d4fffb8e9ae8958de2cce366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:16 +0000
Subject: [PATCH 001/105] fix: flatten handles negative start and end dims

---
 src/Tensor/TensorImpl.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/Tensor/TensorImpl.cpp b/src/Tensor/TensorImpl.cpp
index b2ea842..5c40643 100644
--- a/src/Tensor/TensorImpl.cpp
+++ b/src/Tensor/TensorImpl.cpp
@@ -91,14 +91,25 @@ void TensorImpl::reshape_(const IntArrayView shape) {
 }
 
 void TensorImpl::flatten_(int64_t startDim, int64_t endDim) {
+  if (dim() == 0) {
+    reshape_({1});
+    return;
+  }
+  if (startDim < 0) {
+    startDim += dim();
+  }
+  if (endDim < 0) {
+    endDim += dim();
+  }
+  if (startDim < 0 || endDim >= dim() || startDim > endDim) {
+    LOGE("Invalid flatten dims");
+    return;
+  }
   SizeVector retShape;
   for (int64_t i = 0; i < startDim; i++) {
     retShape.pushBack(shape_[i]);
   }
   int64_t flattenDims = 1;
-  if (endDim < 0) {
-    endDim = dim() - 1;
-  }
   for (int64_t i = startDim; i <= endDim; i++) {
     flattenDims *= shape_[i];
   }
-- 
2.43.0


From 6bbbc76d73337dd469ca6e4136d877f4b0806d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:16 +0000
Subject: [PATCH 002/105] fix: reshape rejects negative sizes other than -1

---
 src/Tensor/TensorImpl.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Tensor/TensorImpl.cpp b/src/Tensor/TensorImpl.cpp
index 5c40643..679b553 100644
--- a/src/Tensor/TensorImpl.cpp
+++ b/src/Tensor/TensorImpl.cpp
@@ -66,6 +66,10 @@ void TensorImpl::reshape_(const IntArrayView shape) {
       inferredIdx = static_cast<int64_t>(i);
       retShape[i] = 0;
     } else {
+      if (shape[i] < 0) {
+        LOGE("Invalid shape: negative dimension");
+        return;
+      }
       cnt *= shape[i];
       retShape[i] = shape[i];
     }
-- 
2.43.0


From 022b17074f98b8609d816a2258b6ac68f81c9b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:16 +0000
Subject: [PATCH 003/105] fix: indexing a view takes the view's own offset into
 account

---
 src/Operation/OpTransform.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Operation/OpTransform.cpp b/src/Operation/OpTransform.cpp
index b97ea9c..63ddc61 100644
--- a/src/Operation/OpTransform.cpp
+++ b/src/Operation/OpTransform.cpp
@@ -111,7 +111,7 @@ Tensor indexOpImpl(const Tensor& self, const IntArrayView indices) {
     retShape.pushBack(self.shape(i));
   }
   // share storage
-  auto ret = Tensor(retShape, self.options(), self.storage(), dataIdx);
+  auto ret = Tensor(retShape, self.options(), self.storage(), self.storageOffset() + dataIdx);
   ASSERT(dimStride == ret.numel());
   return ret;
 }
-- 
2.43.0


From 7d5cc95024085e5c78c7dba6515eb3e5a5d9a314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:08 +0000
Subject: [PATCH 004/105] fix: index assignment does not write into clones and
 parent tensors

---
 src/Operation/OpTransformCpu.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Operation/OpTransformCpu.h b/src/Operation/OpTransformCpu.h
index f8d1fe9..0660706 100644
--- a/src/Operation/OpTransformCpu.h
+++ b/src/Operation/OpTransformCpu.h
@@ -143,6 +143,7 @@ Tensor indexAdvanceOpCpuImpl(const Tensor& self, ArrayView<Tensor> indices) {
 
 template <typename T>
 void indexPutAdvanceOpCpuImpl(Tensor& self, ArrayView<Tensor> indices, const Tensor& val) {
+  self.copyOnWrite();
   auto len = static_cast<int64_t>(indices.size());
   auto firstDim = indices[0].numel();
   auto dimStride = self.stride(len - 1);
-- 
2.43.0


From 0edc7b258331623d50d1095efff40784ee98f4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:07 +0000
Subject: [PATCH 005/105] fix: broadcasting a zero-size dimension against size
 1 gives size 0

---
 src/Tensor/TensorIterator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Tensor/TensorIterator.cpp b/src/Tensor/TensorIterator.cpp
index d7d51e7..792f8b3 100644
--- a/src/Tensor/TensorIterator.cpp
+++ b/src/Tensor/TensorIterator.cpp
@@ -81,7 +81,9 @@ bool TensorIteratorBase::broadcastShape(SizeVector& ret, const SmallVector<IntAr
         LOGE("Incompatible shapes for broadcasting");
         return false;
       }
-      dim = std::max(dim, d);
+      if (d != 1) {
+        dim = d;
+      }
     }
     ret[i] = dim;
   }
-- 
2.43.0


From d7c602a1ab4d040a6b4de0cc6e214339d02fc892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:40 +0000
Subject: [PATCH 006/105] fix: unary operations into an output tensor do not
 write into clones of it

---
 src/Operation/OpElemWiseCpu.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Operation/OpElemWiseCpu.h b/src/Operation/OpElemWiseCpu.h
index b2b1348..766f277 100644
--- a/src/Operation/OpElemWiseCpu.h
+++ b/src/Operation/OpElemWiseCpu.h
@@ -307,6 +307,7 @@ Tensor unaryOpCpuImpl(const Tensor& self) {
 template <typename T, typename OP>
 void unaryOpOutCpuImpl(Tensor& out, const Tensor& self) {
   ASSERT(self.shape() == out.shape());
+  out.copyOnWrite();
   T* outPtr = out.dataPtr<T>();
   const T* selfPtr = self.dataPtr<T>();
   for (int64_t i = 0; i < self.numel(); i++) {
-- 
2.43.0


From dca2836fe45537492abe90b58b4ab6d976a92af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:40 +0000
Subject: [PATCH 007/105] fix: sign of zero is zero

---
 src/Operation/OpElemWiseCpu.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Operation/OpElemWiseCpu.h b/src/Operation/OpElemWiseCpu.h
index 766f277..a8bb948 100644
--- a/src/Operation/OpElemWiseCpu.h
+++ b/src/Operation/OpElemWiseCpu.h
@@ -30,7 +30,7 @@ struct OpCpuNeg {
 struct OpCpuSign {
   template <typename T>
   static T apply(const T& a) {
-    return a > 0 ? 1 : -1;
+    return a > 0 ? 1 : (a < 0 ? -1 : 0);
   }
 };
 
-- 
2.43.0


From 19e77d8bf3d841e8b953ee3d6f0529ab61810cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:40 +0000
Subject: [PATCH 008/105] fix: converting to Bool maps every non-zero value to
 true

---
 src/Operation/OpTransformCpu.cpp | 6 +++++-
 src/Tensor/Scalar.h              | 2 ++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Operation/OpTransformCpu.cpp b/src/Operation/OpTransformCpu.cpp
index 13bc098..b97f742 100644
--- a/src/Operation/OpTransformCpu.cpp
+++ b/src/Operation/OpTransformCpu.cpp
@@ -13,7 +13,11 @@ void dtypeCastCpuKernel(const void* src, void* dst, int64_t numel) {
   const SrcT* srcPtr = static_cast<const SrcT*>(src);
   DstT* dstPtr = static_cast<DstT*>(dst);
   for (auto i = 0; i < numel; i++) {
-    dstPtr[i] = static_cast<DstT>(srcPtr[i]);
+    if constexpr (std::is_same_v<DstT, DTypeToType_t<DType::Bool>>) {
+      dstPtr[i] = srcPtr[i] != SrcT(0);
+    } else {
+      dstPtr[i] = static_cast<DstT>(srcPtr[i]);
+    }
   }
 }
 
diff --git a/src/Tensor/Scalar.h b/src/Tensor/Scalar.h
index 2dab524..f4d25dc 100644
--- a/src/Tensor/Scalar.h
+++ b/src/Tensor/Scalar.h
@@ -39,6 +39,8 @@ class Scalar {
           using U = std::decay_t<decltype(val)>;
           if constexpr (std::is_same_v<U, T>) {
             return val;
+          } else if constexpr (std::is_same_v<T, DTypeToType_t<DType::Bool>>) {
+            return val != U(0);
           } else {
             return static_cast<T>(val);
           }
-- 
2.43.0


From 375d546cb844edda609fcdcb1e1c7f306af1212a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:40 +0000
Subject: [PATCH 009/105] fix: arange with integer types keeps the last partial
 step

---
 src/Tensor/Tensor.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Tensor/Tensor.h b/src/Tensor/Tensor.h
index bad7ef0..0ef4170 100644
--- a/src/Tensor/Tensor.h
+++ b/src/Tensor/Tensor.h
@@ -327,7 +327,7 @@ Tensor::Tensor(const Array3d<T>& values) : Tensor(values, options::dtype(TypeToD
 template <typename T>
 Tensor Tensor::arange(T start, T stop, T step, Options options) {
   options.dtype(TypeToDType_v<T>);
-  auto steps = static_cast<int64_t>(std::ceil((stop - start) / step));
+  auto steps = static_cast<int64_t>(std::ceil((static_cast<double>(stop) - static_cast<double>(start)) / static_cast<double>(step)));
   Tensor ret({steps}, options);
   ret.fillLinSpace_(start, step, steps);
   return ret;
-- 
2.43.0


From 62e1efb6b4b91f251b849721070ed112366ce58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:40 +0000
Subject: [PATCH 010/105] fix: linspace with integer types reaches its end
 point

---
 src/Tensor/Tensor.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Tensor/Tensor.h b/src/Tensor/Tensor.h
index 0ef4170..6b42dc4 100644
--- a/src/Tensor/Tensor.h
+++ b/src/Tensor/Tensor.h
@@ -337,6 +337,13 @@ template <typename T>
 Tensor Tensor::linspace(T start, T end, int64_t steps, Options options) {
   ASSERT(steps > 0);
   options.dtype(TypeToDType_v<T>);
+  if constexpr (std::is_integral_v<T>) {
+    std::vector<T> values(steps, start);
+    for (int64_t i = 1; i < steps; i++) {
+      values[i] = static_cast<T>(start + (static_cast<double>(end) - start) * i / (steps - 1));
+    }
+    return Tensor(values, {steps}, options);
+  }
   T step = 0;
   if (steps > 1) {
     step = (end - start) / static_cast<T>(steps - 1);
-- 
2.43.0


From e88edc2ff11754cb0d151df76647a2bd4fe88b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:33 +0000
Subject: [PATCH 011/105] fix: min and max reductions handle slices of
 infinities

---
 src/Operation/OpReduceCpu.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Operation/OpReduceCpu.h b/src/Operation/OpReduceCpu.h
index 77be05e..2980556 100644
--- a/src/Operation/OpReduceCpu.h
+++ b/src/Operation/OpReduceCpu.h
@@ -24,7 +24,7 @@ struct OpCpuReduceMin {
 
   template <typename T>
   static T defaultVal() {
-    return std::numeric_limits<T>::max();
+    return std::numeric_limits<T>::infinity();
   }
 };
 
@@ -41,7 +41,7 @@ struct OpCpuReduceMax {
 
   template <typename T>
   static T defaultVal() {
-    return -std::numeric_limits<T>::max();
+    return -std::numeric_limits<T>::infinity();
   }
 };
 
-- 
2.43.0


From 9362f8f901e8e71aea29e11adb665611cf19fa42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:33 +0000
Subject: [PATCH 012/105] fix: reducing a zero-dim tensor does not return the
 tensor itself

---
 src/Operation/OpReduceCpu.h | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/Operation/OpReduceCpu.h b/src/Operation/OpReduceCpu.h
index 2980556..3672427 100644
--- a/src/Operation/OpReduceCpu.h
+++ b/src/Operation/OpReduceCpu.h
@@ -180,10 +180,17 @@ Tensor ReducerCpu::reduceMultiDim(const Tensor &t, const IntArrayView dims, bool
   return ret;
 }
 
+// a zero-dim tensor reduces to itself: same value, but never the same tensor
+inline Tensor reduceScalarCopy(const Tensor &t) {
+  auto ret = t.clone();
+  ret.setRequiresGrad(false);
+  return ret;
+}
+
 template <typename T, typename OP>
 Tensor reduceOpAllCpuImpl(const Tensor &t) {
   if (t.isScalar()) {
-    return t;
+    return reduceScalarCopy(t);
   }
   auto ret = Tensor::empty({}, t.options().noGrad());
   const T *tPtr = t.dataPtr<T>();
@@ -207,7 +214,7 @@ Tensor reduceOpArgMinMaxCpuImpl(const Tensor &t) {
 template <typename T, typename OP>
 TensorPair reduceOpMinMaxDimCpuImpl(const Tensor &t, int64_t dim, bool keepDims = false) {
   if (t.isScalar()) {
-    return {t, Tensor::scalar(0, t.options().noGrad().indices())};
+    return {reduceScalarCopy(t), Tensor::scalar(0, t.options().noGrad().indices())};
   }
   return ReducerCpu::reduceIdxDim<T, OP>(t, dim, keepDims);
 }
@@ -215,7 +222,7 @@ TensorPair reduceOpMinMaxDimCpuImpl(const Tensor &t, int64_t dim, bool keepDims
 template <typename T>
 Tensor reduceOpSumDimsCpuImpl(const Tensor &t, const IntArrayView dims, bool keepDims = false) {
   if (t.isScalar()) {
-    return t;
+    return reduceScalarCopy(t);
   }
   ASSERT(!dims.empty());
   return ReducerCpu::reduceMultiDim<T>(t, dims, keepDims, [](T *retPtr, const T *tPtr, int64_t retIdx, int64_t srcIdx) {
@@ -236,7 +243,7 @@ Tensor reduceOpSumCpuImpl(const Tensor &t) {
 template <typename T>
 Tensor reduceOpMeanCpuImpl(const Tensor &t) {
   if (t.isScalar()) {
-    return t;
+    return reduceScalarCopy(t);
   }
   auto ret = reduceOpAllCpuImpl<T, OpCpuReduceSum>(t);
   const auto r = 1.f / static_cast<float>(t.numel());
@@ -247,7 +254,7 @@ Tensor reduceOpMeanCpuImpl(const Tensor &t) {
 template <typename T>
 Tensor reduceOpMeanDimsCpuImpl(const Tensor &t, const IntArrayView dims, bool keepDims = false) {
   if (t.isScalar()) {
-    return t;
+    return reduceScalarCopy(t);
   }
   ASSERT(!dims.empty());
   auto ret = reduceOpSumDimsCpuImpl<T>(t, dims, keepDims);
@@ -266,7 +273,7 @@ Tensor reduceOpMeanDimCpuImpl(const Tensor &t, const int64_t dim, bool keepDims
 template <typename T>
 TensorPair reduceOpVarMeanCpuImpl(const Tensor &t, bool unbiased = true) {
   if (t.isScalar()) {
-    return {Tensor::scalar(0, t.options().noGrad()), t};
+    return {Tensor::scalar(0, t.options().noGrad()), reduceScalarCopy(t)};
   }
   const auto meanVal = op::mean(t);
 
@@ -292,7 +299,7 @@ template <typename T>
 TensorPair reduceOpVarMeanDimsCpuImpl(const Tensor &t, const IntArrayView dims, bool unbiased = true,
                                       bool keepDims = false) {
   if (t.isScalar()) {
-    return {Tensor::scalar(0, t.options().noGrad()), t};
+    return {Tensor::scalar(0, t.options().noGrad()), reduceScalarCopy(t)};
   }
   ASSERT(!dims.empty());
   auto meanVal = op::meanOnDims(t, dims, true);
-- 
2.43.0


From 9b89db8dd30f2ccefa014662a9ddd593635a1694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:16 +0000
Subject: [PATCH 013/105] fix: varMean over dimensions returns the mean without
 the kept dimensions when asked

---
 src/Operation/OpReduceCpu.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Operation/OpReduceCpu.h b/src/Operation/OpReduceCpu.h
index 3672427..ba64857 100644
--- a/src/Operation/OpReduceCpu.h
+++ b/src/Operation/OpReduceCpu.h
@@ -8,6 +8,7 @@
 
 #include "OpElemWise.h"
 #include "OpReduce.h"
+#include "OpTransform.h"
 
 namespace tinytorch::op {
 
@@ -317,6 +318,9 @@ TensorPair reduceOpVarMeanDimsCpuImpl(const Tensor &t, const IntArrayView dims,
       r *= reduceSize / (reduceSize - 1.f);
     }
     op::mulInplace(varVal, Tensor::scalar(r, varVal.options().noGrad()));
+    if (!keepDims) {
+      meanVal = op::reshape(meanVal, varVal.shape());
+    }
   }
   return {varVal, meanVal};
 }
-- 
2.43.0


From 16a4bb32f6ad52c19f20bdc81205d332a4d89118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:20 +0000
Subject: [PATCH 014/105] fix: batched matmul broadcasts operands of different
 rank

---
 src/Operation/OpLinalg.cpp | 36 +++++++++++++++---------------------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/src/Operation/OpLinalg.cpp b/src/Operation/OpLinalg.cpp
index 6d956dc..e925c3b 100644
--- a/src/Operation/OpLinalg.cpp
+++ b/src/Operation/OpLinalg.cpp
@@ -8,15 +8,17 @@
 
 namespace tinytorch::op {
 
-inline SizeVector makePaddedStrides(const IntArrayView &strides, int64_t targetDim) {
-  auto srcSize = static_cast<int64_t>(strides.size());
-  if (srcSize >= targetDim) {
-    return {strides};
-  }
+// stride of each batch dimension of the result within an operand, 0 where the operand is broadcast
+inline SizeVector makeBatchStrides(const SizeVector &shape, int64_t targetDim) {
+  auto srcSize = static_cast<int64_t>(shape.size());
   SizeVector result(targetDim, 0);
   auto offset = targetDim - srcSize;
-  for (int64_t i = 0; i < srcSize; i++) {
-    result[offset + i] = strides[i];
+  auto stride = shape[srcSize - 1] * shape[srcSize - 2];
+  for (int64_t i = srcSize - 3; i >= 0; i--) {
+    if (shape[i] != 1) {
+      result[offset + i] = stride;
+    }
+    stride *= shape[i];
   }
   return result;
 }
@@ -147,8 +149,8 @@ Tensor matmulOpImplDetail(const Tensor &a, const Tensor &b, bool transA = false,
       }
     }
 
-    SizeVector aStrides = makePaddedStrides(a.strides(), retTensor.dim());
-    SizeVector bStrides = makePaddedStrides(b.strides(), retTensor.dim());
+    SizeVector aStrides = makeBatchStrides(shapeA, retDimCnt);
+    SizeVector bStrides = makeBatchStrides(shapeB, retDimCnt);
 
     // pointer arrays based batched gemm
     auto gemmBatched = getGemmBatchedFunc<T>(a.device().type);
@@ -165,12 +167,8 @@ Tensor matmulOpImplDetail(const Tensor &a, const Tensor &b, bool transA = false,
         for (auto i = retDimCnt - 3; i >= 0; i--) {
           int64_t index = tmp % retShape[i];
           tmp /= retShape[i];
-          if (static_cast<int64_t>(a.shape().size()) > i && a.shape()[i] != 1) {
-            aOffset += index * aStrides[i];
-          }
-          if (static_cast<int64_t>(b.shape().size()) > i && b.shape()[i] != 1) {
-            bOffset += index * bStrides[i];
-          }
+          aOffset += index * aStrides[i];
+          bOffset += index * bStrides[i];
         }
         aPtrsHost[batch] = selfPtr + aOffset;
         bPtrsHost[batch] = otherPtr + bOffset;
@@ -208,12 +206,8 @@ Tensor matmulOpImplDetail(const Tensor &a, const Tensor &b, bool transA = false,
       for (auto i = retDimCnt - 3; i >= 0; i--) {
         int64_t index = tmp % retShape[i];
         tmp /= retShape[i];
-        if (static_cast<int64_t>(a.shape().size()) > i && a.shape()[i] != 1) {
-          aOffset += index * aStrides[i];
-        }
-        if (static_cast<int64_t>(b.shape().size()) > i && b.shape()[i] != 1) {
-          bOffset += index * bStrides[i];
-        }
+        aOffset += index * aStrides[i];
+        bOffset += index * bStrides[i];
       }
 
       gemm(retPtr + batch * m * n, selfPtr + aOffset, otherPtr + bOffset, m, k, n, transA, transB, a.device().index);
-- 
2.43.0


From 7fcda35fac49f1ac62f149d3af966cd1c13e323e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:20 +0000
Subject: [PATCH 015/105] fix: batched matmul handles zero-size dimensions

---
 src/Operation/OpLinalg.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Operation/OpLinalg.cpp b/src/Operation/OpLinalg.cpp
index e925c3b..99d834a 100644
--- a/src/Operation/OpLinalg.cpp
+++ b/src/Operation/OpLinalg.cpp
@@ -35,7 +35,7 @@ SizeVector broadcastShape(const IntArrayView t0, const IntArrayView t1, int64_t
     auto dim1 = t1[idx1];
     if (dim0 != dim1) {
       if (dim0 == 1 || dim1 == 1) {
-        retShape[idxRet] = std::max(dim0, dim1);  // needBroadcast
+        retShape[idxRet] = dim0 == 1 ? dim1 : dim0;  // needBroadcast
       } else {
         return {};
       }
@@ -106,7 +106,10 @@ Tensor matmulOpImplDetail(const Tensor &a, const Tensor &b, bool transA = false,
 
   if (retDimCnt > 2) {
     // batched matrix multiply with broadcasting
-    int64_t batchSize = retTensor.numel() / (m * n);
+    int64_t batchSize = 1;
+    for (int64_t i = 0; i < retDimCnt - 2; i++) {
+      batchSize *= retShape[i];
+    }
 
     // strided batched gemm
     auto gemmStridedBatched = getGemmStridedBatchedFunc<T>(a.device().type);
-- 
2.43.0


From ca4cfc9dca8e321ec2934401461fb0733733b703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:21 +0000
Subject: [PATCH 016/105] fix: matmul of a vector with a batch of matrices
 keeps the batch dimensions

---
 src/Operation/OpLinalg.cpp | 46 +++++++++++++++-----------------------
 1 file changed, 18 insertions(+), 28 deletions(-)

diff --git a/src/Operation/OpLinalg.cpp b/src/Operation/OpLinalg.cpp
index 99d834a..d433292 100644
--- a/src/Operation/OpLinalg.cpp
+++ b/src/Operation/OpLinalg.cpp
@@ -49,6 +49,21 @@ SizeVector broadcastShape(const IntArrayView t0, const IntArrayView t1, int64_t
   return retShape;
 }
 
+// drop the matrix dimensions that were added to one-dimensional operands
+inline void removePaddedDims(Tensor &t, bool prependA, bool appendB) {
+  if (!prependA && !appendB) {
+    return;
+  }
+  SizeVector shape;
+  for (int64_t i = 0; i < t.dim(); i++) {
+    bool padded = (prependA && i == t.dim() - 2) || (appendB && i == t.dim() - 1);
+    if (!padded) {
+      shape.pushBack(t.shape(i));
+    }
+  }
+  t.reshape_(shape);
+}
+
 template <typename T>
 Tensor matmulOpImplDetail(const Tensor &a, const Tensor &b, bool transA = false, bool transB = false) {
   if (a.dim() == 0 || b.dim() == 0) {
@@ -140,14 +155,7 @@ Tensor matmulOpImplDetail(const Tensor &a, const Tensor &b, bool transA = false,
         gemmStridedBatched(retPtr, selfPtr, otherPtr, m, k, n, strideA, strideB, strideC, batchSize, transA, transB,
                            a.device().index);
 
-        // reduce dimension if necessary
-        if (appendB) {
-          if (prependA) {
-            retTensor.reshape_({});
-          } else {
-            retTensor.reshape_({m});
-          }
-        }
+        removePaddedDims(retTensor, prependA, appendB);
         return retTensor;
       }
     }
@@ -190,14 +198,7 @@ Tensor matmulOpImplDetail(const Tensor &a, const Tensor &b, bool transA = false,
 
       gemmBatched(cPtrsDevice, aPtrsDevice, bPtrsDevice, m, k, n, batchSize, transA, transB, a.device().index);
 
-      // reduce dimension if necessary
-      if (appendB) {
-        if (prependA) {
-          retTensor.reshape_({});
-        } else {
-          retTensor.reshape_({m});
-        }
-      }
+      removePaddedDims(retTensor, prependA, appendB);
       return retTensor;
     }
 
@@ -217,20 +218,9 @@ Tensor matmulOpImplDetail(const Tensor &a, const Tensor &b, bool transA = false,
     }
   } else {
     gemm(retPtr, selfPtr, otherPtr, m, k, n, transA, transB, a.device().index);
-    if (prependA) {
-      retTensor.reshape_({n});
-    }
-  }
-
-  // reduce dimension if necessary
-  if (appendB) {
-    if (prependA) {
-      retTensor.reshape_({});
-    } else {
-      retTensor.reshape_({m});
-    }
   }
 
+  removePaddedDims(retTensor, prependA, appendB);
   return retTensor;
 }
 
-- 
2.43.0


From 581f6fe76eb736cddf12c7149432c2813d3770a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:43 +0000
Subject: [PATCH 017/105] fix: softmax of half-precision tensors accumulates in
 float

---
 src/Operation/OpNNLayerCpu.h | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/src/Operation/OpNNLayerCpu.h b/src/Operation/OpNNLayerCpu.h
index 4a771e1..3b42bc5 100644
--- a/src/Operation/OpNNLayerCpu.h
+++ b/src/Operation/OpNNLayerCpu.h
@@ -26,36 +26,33 @@ void softmaxForwardCpuImpl(Tensor& out, const Tensor& self, int64_t dim) {
     for (int64_t i = 0; i < info.innerSize; i++) {
       int64_t base = outerBase + i;
       // max
-      T maxVal = -std::numeric_limits<T>::max();
+      float maxVal = -std::numeric_limits<float>::infinity();
       int64_t offset = base;
       for (int64_t d = 0; d < info.dimSize; d++) {
-        T v = selfPtr[offset];
+        float v = selfPtr[offset];
         if (v > maxVal) {
           maxVal = v;
         }
         offset += info.innerSize;
       }
       // exp & sum
-      T sum = 0;
+      float sum = 0;
       offset = base;
       for (int64_t d = 0; d < info.dimSize; d++) {
-        T e = std::exp(selfPtr[offset] - maxVal);
-        outPtr[offset] = e;
-        sum += e;
+        sum += std::exp(static_cast<float>(selfPtr[offset]) - maxVal);
         offset += info.innerSize;
       }
       // output
       offset = base;
       if constexpr (type == SoftmaxType::Softmax) {
-        T invSum = 1.0 / sum;
         for (int64_t d = 0; d < info.dimSize; d++) {
-          outPtr[offset] *= invSum;
+          outPtr[offset] = static_cast<T>(std::exp(static_cast<float>(selfPtr[offset]) - maxVal) / sum);
           offset += info.innerSize;
         }
       } else {  // LogSoftmax
-        T logSum = std::log(sum);
+        float logSum = std::log(sum);
         for (int64_t d = 0; d < info.dimSize; d++) {
-          outPtr[offset] = selfPtr[offset] - maxVal - logSum;
+          outPtr[offset] = static_cast<T>(static_cast<float>(selfPtr[offset]) - maxVal - logSum);
           offset += info.innerSize;
         }
       }
@@ -90,16 +87,17 @@ Tensor softmaxOpBackwardCpuImpl(const Tensor& grad, const Tensor& output, int64_
     for (int64_t i = 0; i < info.innerSize; i++) {
       int64_t base = outerBase + i;
       // sum_j(y_j * dL/dy_j)
-      T sum = 0;
+      float sum = 0;
       int64_t offset = base;
       for (int64_t d = 0; d < info.dimSize; d++) {
-        sum += outputPtr[offset] * gradPtr[offset];
+        sum += static_cast<float>(outputPtr[offset]) * static_cast<float>(gradPtr[offset]);
         offset += info.innerSize;
       }
       // dL/dx_i = y_i * (dL/dy_i - sum)
       offset = base;
       for (int64_t d = 0; d < info.dimSize; d++) {
-        outPtr[offset] = outputPtr[offset] * (gradPtr[offset] - sum);
+        outPtr[offset] =
+            static_cast<T>(static_cast<float>(outputPtr[offset]) * (static_cast<float>(gradPtr[offset]) - sum));
         offset += info.innerSize;
       }
     }
@@ -135,16 +133,17 @@ Tensor logSoftmaxOpBackwardCpuImpl(const Tensor& grad, const Tensor& output, int
     for (int64_t i = 0; i < info.innerSize; i++) {
       int64_t base = outerBase + i;
       // sum_j(dL/dy_j)
-      T sum = 0;
+      float sum = 0;
       int64_t offset = base;
       for (int64_t d = 0; d < info.dimSize; d++) {
-        sum += gradPtr[offset];
+        sum += static_cast<float>(gradPtr[offset]);
         offset += info.innerSize;
       }
       // dL/dx_i = dL/dy_i - exp(y_i) * sum
       offset = base;
       for (int64_t d = 0; d < info.dimSize; d++) {
-        outPtr[offset] = gradPtr[offset] - std::exp(outputPtr[offset]) * sum;
+        outPtr[offset] = static_cast<T>(static_cast<float>(gradPtr[offset]) -
+                                        std::exp(static_cast<float>(outputPtr[offset])) * sum);
         offset += info.innerSize;
       }
     }
-- 
2.43.0


From 9e5c8ed8531a7f15259aabdc93a96b5acdf1883e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:43 +0000
Subject: [PATCH 018/105] fix: softmax into an output tensor does not write
 into clones of it

---
 src/Operation/OpNNLayerCpu.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Operation/OpNNLayerCpu.h b/src/Operation/OpNNLayerCpu.h
index 3b42bc5..ea05d55 100644
--- a/src/Operation/OpNNLayerCpu.h
+++ b/src/Operation/OpNNLayerCpu.h
@@ -16,6 +16,7 @@ namespace tinytorch::op {
 template <typename T, SoftmaxType type>
 void softmaxForwardCpuImpl(Tensor& out, const Tensor& self, int64_t dim) {
   ASSERT(out.shape() == self.shape());
+  out.copyOnWrite();
   auto info = getSoftmaxDimInfo(self, dim);
 
   const T* selfPtr = self.dataPtr<T>();
-- 
2.43.0


From 6a457d968910ef62e9ef809474fc806cf49eadc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:43 +0000
Subject: [PATCH 019/105] fix: layerNorm and rmsNorm of half-precision tensors
 neither overflow nor lose the sum

---
 src/Operation/OpNNLayerCpu.h | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/Operation/OpNNLayerCpu.h b/src/Operation/OpNNLayerCpu.h
index ea05d55..1961a4a 100644
--- a/src/Operation/OpNNLayerCpu.h
+++ b/src/Operation/OpNNLayerCpu.h
@@ -196,39 +196,39 @@ Tensor normOpCpuImplDetail(const Tensor& self, IntArrayView normalizedShape, con
     T* dst = outPtr + i * dim;
 
     if constexpr (normType == NormType::LayerNorm) {
-      T mean = 0;
+      float mean = 0;
       for (auto j = 0; j < dim; j++) {
-        mean += src[j];
+        mean += static_cast<float>(src[j]);
       }
-      mean /= static_cast<T>(dim);
+      mean /= static_cast<float>(dim);
 
-      T var = 0;
+      float var = 0;
       for (auto j = 0; j < dim; j++) {
-        T diff = src[j] - mean;
+        float diff = static_cast<float>(src[j]) - mean;
         var += diff * diff;
       }
-      var /= static_cast<T>(dim);
-      T invStd = T(1) / std::sqrt(var + eps);
+      var /= static_cast<float>(dim);
+      float invStd = 1.f / std::sqrt(var + eps);
 
       for (auto j = 0; j < dim; j++) {
-        T normed = (src[j] - mean) * invStd;
-        if (weightPtr) normed *= weightPtr[j];
-        if (biasPtr) normed += biasPtr[j];
-        dst[j] = normed;
+        float normed = (static_cast<float>(src[j]) - mean) * invStd;
+        if (weightPtr) normed *= static_cast<float>(weightPtr[j]);
+        if (biasPtr) normed += static_cast<float>(biasPtr[j]);
+        dst[j] = static_cast<T>(normed);
       }
     } else {
       UNUSED(biasPtr);
-      T meanSquare = 0;
+      float meanSquare = 0;
       for (auto j = 0; j < dim; j++) {
-        meanSquare += src[j] * src[j];
+        meanSquare += static_cast<float>(src[j]) * static_cast<float>(src[j]);
       }
-      meanSquare /= static_cast<T>(dim);
-      T invRms = T(1) / std::sqrt(meanSquare + eps);
+      meanSquare /= static_cast<float>(dim);
+      float invRms = 1.f / std::sqrt(meanSquare + eps);
 
       for (auto j = 0; j < dim; j++) {
-        T normed = src[j] * invRms;
-        if (weightPtr) normed *= weightPtr[j];
-        dst[j] = normed;
+        float normed = static_cast<float>(src[j]) * invRms;
+        if (weightPtr) normed *= static_cast<float>(weightPtr[j]);
+        dst[j] = static_cast<T>(normed);
       }
     }
   }
-- 
2.43.0


From e9ae8b6c169d9fa9d5c639ab1f48413db1b8abb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:44 +0000
Subject: [PATCH 020/105] fix: sum, mean and var of half-precision tensors
 accumulate in float

---
 src/Operation/OpReduceCpu.h | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/Operation/OpReduceCpu.h b/src/Operation/OpReduceCpu.h
index ba64857..0d9e5c8 100644
--- a/src/Operation/OpReduceCpu.h
+++ b/src/Operation/OpReduceCpu.h
@@ -222,6 +222,9 @@ TensorPair reduceOpMinMaxDimCpuImpl(const Tensor &t, int64_t dim, bool keepDims
 
 template <typename T>
 Tensor reduceOpSumDimsCpuImpl(const Tensor &t, const IntArrayView dims, bool keepDims = false) {
+  if constexpr (!std::is_same_v<T, float>) {
+    return op::sumOnDims(t.to(DType::Float32), dims, keepDims).to(t.dtype());
+  }
   if (t.isScalar()) {
     return reduceScalarCopy(t);
   }
@@ -238,11 +241,17 @@ Tensor reduceOpSumDimCpuImpl(const Tensor &t, const int64_t dim, bool keepDims =
 
 template <typename T>
 Tensor reduceOpSumCpuImpl(const Tensor &t) {
+  if constexpr (!std::is_same_v<T, float>) {
+    return op::sum(t.to(DType::Float32)).to(t.dtype());  // accumulate in float
+  }
   return reduceOpAllCpuImpl<T, OpCpuReduceSum>(t);
 }
 
 template <typename T>
 Tensor reduceOpMeanCpuImpl(const Tensor &t) {
+  if constexpr (!std::is_same_v<T, float>) {
+    return op::mean(t.to(DType::Float32)).to(t.dtype());
+  }
   if (t.isScalar()) {
     return reduceScalarCopy(t);
   }
@@ -254,6 +263,9 @@ Tensor reduceOpMeanCpuImpl(const Tensor &t) {
 
 template <typename T>
 Tensor reduceOpMeanDimsCpuImpl(const Tensor &t, const IntArrayView dims, bool keepDims = false) {
+  if constexpr (!std::is_same_v<T, float>) {
+    return op::meanOnDims(t.to(DType::Float32), dims, keepDims).to(t.dtype());
+  }
   if (t.isScalar()) {
     return reduceScalarCopy(t);
   }
@@ -273,6 +285,10 @@ Tensor reduceOpMeanDimCpuImpl(const Tensor &t, const int64_t dim, bool keepDims
 
 template <typename T>
 TensorPair reduceOpVarMeanCpuImpl(const Tensor &t, bool unbiased = true) {
+  if constexpr (!std::is_same_v<T, float>) {
+    auto ret = op::varMean(t.to(DType::Float32), unbiased);
+    return {ret.first.to(t.dtype()), ret.second.to(t.dtype())};
+  }
   if (t.isScalar()) {
     return {Tensor::scalar(0, t.options().noGrad()), reduceScalarCopy(t)};
   }
@@ -299,6 +315,10 @@ TensorPair reduceOpVarMeanCpuImpl(const Tensor &t, bool unbiased = true) {
 template <typename T>
 TensorPair reduceOpVarMeanDimsCpuImpl(const Tensor &t, const IntArrayView dims, bool unbiased = true,
                                       bool keepDims = false) {
+  if constexpr (!std::is_same_v<T, float>) {
+    auto ret = op::varMeanOnDims(t.to(DType::Float32), dims, unbiased, keepDims);
+    return {ret.first.to(t.dtype()), ret.second.to(t.dtype())};
+  }
   if (t.isScalar()) {
     return {Tensor::scalar(0, t.options().noGrad()), reduceScalarCopy(t)};
   }
-- 
2.43.0


From 97cc6821b47015340d955178dbc53d53c7b9e454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:45 +0000
Subject: [PATCH 021/105] fix: matmul and dot of half-precision tensors
 accumulate in float

---
 src/Operation/OpLinalgCpu.h | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/Operation/OpLinalgCpu.h b/src/Operation/OpLinalgCpu.h
index 5a83028..bb40950 100644
--- a/src/Operation/OpLinalgCpu.h
+++ b/src/Operation/OpLinalgCpu.h
@@ -6,6 +6,8 @@
 
 #pragma once
 
+#include <vector>
+
 #include "OpLinalg.h"
 
 #ifdef __APPLE__
@@ -18,11 +20,11 @@ namespace tinytorch::op {
 
 template <typename T>
 Tensor dotOpCpuImpl(const Tensor& self, const Tensor& other) {
-  T ret = 0;
+  float ret = 0;
   const T* selfPtr = self.dataPtr<T>();
   const T* otherPtr = other.dataPtr<T>();
   for (auto i = 0; i < self.numel(); i++) {
-    ret += selfPtr[i] * otherPtr[i];
+    ret += static_cast<float>(selfPtr[i]) * static_cast<float>(otherPtr[i]);
   }
   return Tensor::scalar(ret, self.options().noGrad());
 }
@@ -128,15 +130,18 @@ void gemmCpuImpl(T* c, const T* a, const T* b, int64_t m, int64_t k, int64_t n,
   }
 #endif
   // basic
-  std::memset(c, 0, m * n * sizeof(T));
+  std::vector<float> row(n);  // accumulate in float
   for (int64_t i = 0; i < m; i++) {
+    std::fill(row.begin(), row.end(), 0.f);
     for (int64_t p = 0; p < k; p++) {
-      T aVal = transA ? a[p * m + i] : a[i * k + p];
+      auto aVal = static_cast<float>(transA ? a[p * m + i] : a[i * k + p]);
       for (int64_t j = 0; j < n; j++) {
-        T bVal = transB ? b[j * k + p] : b[p * n + j];
-        c[i * n + j] += aVal * bVal;
+        row[j] += aVal * static_cast<float>(transB ? b[j * k + p] : b[p * n + j]);
       }
     }
+    for (int64_t j = 0; j < n; j++) {
+      c[i * n + j] = static_cast<T>(row[j]);
+    }
   }
 }
 
-- 
2.43.0


From 8cecaf495f83556ececb8aab67af29ff139d96cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:46 +0000
Subject: [PATCH 022/105] fix: cumulative sum of half-precision tensors
 accumulates in float

---
 src/Operation/OpSamplingCpu.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Operation/OpSamplingCpu.h b/src/Operation/OpSamplingCpu.h
index 1407625..13023a2 100644
--- a/src/Operation/OpSamplingCpu.h
+++ b/src/Operation/OpSamplingCpu.h
@@ -191,13 +191,14 @@ Tensor cumsumOpCpuImpl(const Tensor& self, int64_t dim) {
     inner *= self.shape(i);
   }
 
+  using Acc = std::conditional_t<std::is_same_v<T, Half> || std::is_same_v<T, BFloat16>, float, T>;
   for (int64_t o = 0; o < outer; o++) {
     for (int64_t in = 0; in < inner; in++) {
-      T sum = 0;
+      Acc sum = 0;
       for (int64_t i = 0; i < n; i++) {
         int64_t offset = o * n * inner + i * inner + in;
-        sum += selfPtr[offset];
-        retPtr[offset] = sum;
+        sum += static_cast<Acc>(selfPtr[offset]);
+        retPtr[offset] = static_cast<T>(sum);
       }
     }
   }
-- 
2.43.0


From bda6131e8b46cc78cdd57d04111745edad27f4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:29 +0000
Subject: [PATCH 023/105] fix: half-precision rotary tables compute their
 angles in float

---
 src/Operation/OpNNLayerCpu.h | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/Operation/OpNNLayerCpu.h b/src/Operation/OpNNLayerCpu.h
index 1961a4a..9628a3d 100644
--- a/src/Operation/OpNNLayerCpu.h
+++ b/src/Operation/OpNNLayerCpu.h
@@ -257,10 +257,9 @@ Tensor ropeInitOpCpuImpl(int64_t headDim, int64_t contextLength, float thetaBase
   int64_t halfDim = headDim >> 1;
 
   // inverse frequency
-  Tensor invFreq({halfDim}, options);
-  auto* invFreqPtr = invFreq.dataPtr<T>();
+  std::vector<float> invFreq(halfDim);
   for (int64_t i = 0; i < halfDim; i++) {
-    invFreqPtr[i] = 1.f / std::pow(thetaBase, static_cast<float>(i << 1) / static_cast<float>(headDim));
+    invFreq[i] = 1.f / std::pow(thetaBase, static_cast<float>(i << 1) / static_cast<float>(headDim));
   }
 
   // apply scaling if needed
@@ -269,16 +268,16 @@ Tensor ropeInitOpCpuImpl(int64_t headDim, int64_t contextLength, float thetaBase
     auto lowWaveLen = originCtxLen / scaling->lowFreqFactor;
     auto highWaveLen = originCtxLen / scaling->highFreqFactor;
     for (int64_t i = 0; i < halfDim; i++) {
-      auto waveLen = 2.f * static_cast<float>(M_PI) / invFreqPtr[i];
+      auto waveLen = 2.f * static_cast<float>(M_PI) / invFreq[i];
       if (waveLen > lowWaveLen) {
-        invFreqPtr[i] /= scaling->factor;
+        invFreq[i] /= scaling->factor;
       } else if (waveLen < highWaveLen) {
         // do nothing
       } else {
         auto smoothFactor =
             (originCtxLen / waveLen - scaling->lowFreqFactor) / (scaling->highFreqFactor - scaling->lowFreqFactor);
-        auto scaled = invFreqPtr[i] / scaling->factor;
-        invFreqPtr[i] = (1.f - smoothFactor) * scaled + smoothFactor * invFreqPtr[i];
+        auto scaled = invFreq[i] / scaling->factor;
+        invFreq[i] = (1.f - smoothFactor) * scaled + smoothFactor * invFreq[i];
       }
     }
   }
@@ -290,7 +289,7 @@ Tensor ropeInitOpCpuImpl(int64_t headDim, int64_t contextLength, float thetaBase
 
   for (int64_t pos = 0; pos < contextLength; pos++) {
     for (int64_t i = 0; i < halfDim; i++) {
-      float angle = static_cast<T>(pos) * invFreqPtr[i];
+      float angle = static_cast<float>(pos) * invFreq[i];
       float cosVal = std::cos(angle);
       float sinVal = std::sin(angle);
 
-- 
2.43.0


From 5b5880b25b5dd5acb1e1e3056ee8a3ed5e6fa8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:37 +0000
Subject: [PATCH 024/105] fix: attention drops weights with probability
 dropoutP instead of keeping them with it

---
 src/Function/FuncNNLayer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Function/FuncNNLayer.h b/src/Function/FuncNNLayer.h
index 1003673..6e9c776 100644
--- a/src/Function/FuncNNLayer.h
+++ b/src/Function/FuncNNLayer.h
@@ -270,7 +270,7 @@ class FuncSDPAttention : public Function<FuncSDPAttention> {
     }
     attnWeight = op::softmax(attnWeight, -1);
     if (dropoutP > 0.f) {
-      attnWeight = op::dropout(attnWeight, dropoutP);
+      attnWeight = op::dropout(attnWeight, 1.f - dropoutP);
     }
     return op::matmul(attnWeight, value, false, false);
     // TODO fuse
-- 
2.43.0


From 29f19ae75cd1d83a2a99dc10c2a1623cb0151d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:02 +0000
Subject: [PATCH 025/105] fix: conv2d with several output channels puts every
 channel where it belongs

---
 src/Function/FuncNNLayer.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Function/FuncNNLayer.h b/src/Function/FuncNNLayer.h
index 6e9c776..0cada27 100644
--- a/src/Function/FuncNNLayer.h
+++ b/src/Function/FuncNNLayer.h
@@ -167,7 +167,8 @@ class FuncConv2D : public Function<FuncConv2D> {
       ASSERT(bias.shape()[0] == outChannels);
       op::addInplace(ret, bias, 1);
     }
-    ret.reshape_({batch, outChannels, outH, outW});
+    ret.reshape_({batch, outH, outW, outChannels});
+    ret = op::permute(ret, IntArrayView{0, 3, 1, 2});
 
     if (ctx) {
       ctx->pushData(stride);
@@ -188,7 +189,7 @@ class FuncConv2D : public Function<FuncConv2D> {
     auto stride = ctx->popData().toDim2D();
     auto padding = ctx->popData().toDim2D();
 
-    auto gradW = op::reshape(grad, IntArrayView{-1, outChannels});
+    auto gradW = op::reshape(op::permute(grad, IntArrayView{0, 2, 3, 1}), IntArrayView{-1, outChannels});
     auto colW = op::reshape(weight, IntArrayView{outChannels, -1});
 
     if (input.requiresGrad()) {
-- 
2.43.0


From da8572c6a488269a7d023b68c9ecc99d22a39349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:02 +0000
Subject: [PATCH 026/105] fix: maxPool2d with several channels puts every
 channel where it belongs

---
 src/Function/FuncNNLayer.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Function/FuncNNLayer.h b/src/Function/FuncNNLayer.h
index 0cada27..cb69bf1 100644
--- a/src/Function/FuncNNLayer.h
+++ b/src/Function/FuncNNLayer.h
@@ -95,7 +95,8 @@ class FuncMaxPool : public Function<FuncMaxPool> {
     auto maxIndices = maxRet.second;
 
     auto output = maxRet.first;
-    output.reshape_({batch, channels, outH, outW});
+    output.reshape_({batch, outH, outW, channels});
+    output = op::permute(output, IntArrayView{0, 3, 1, 2});
 
     if (ctx) {
       ctx->pushData(kernel);
@@ -131,7 +132,8 @@ class FuncMaxPool : public Function<FuncMaxPool> {
 
       auto gradCol = Tensor::zeros({grad.numel(), kernel.h * kernel.w}, input.options().noGrad());
       auto idx = Tensor::arange<int64_t>(0, grad.numel(), 1, input.options().noGrad());
-      op::indexPutAdvance(gradCol, ArrayView<Tensor>{idx, maxIndices}, grad);
+      auto gradRows = op::permute(op::reshape(grad, IntArrayView{batch, channels, outH, outW}), IntArrayView{0, 2, 3, 1});
+      op::indexPutAdvance(gradCol, ArrayView<Tensor>{idx, maxIndices}, gradRows);
       gradCol.reshape_({batch * outH * outW, channels * kernel.h * kernel.w});
       auto inputGrad = op::col2im(gradCol, shape, kernel, stride, padding);
       // TODO fuse
-- 
2.43.0


From 6cc8677c01aebde30a2bf8c216a7cfb97f1a7606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:02 +0000
Subject: [PATCH 027/105] fix: maxPool2d ignores the padding when it takes the
 maximum

---
 src/Function/FuncNNLayer.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Function/FuncNNLayer.h b/src/Function/FuncNNLayer.h
index cb69bf1..adf8ef6 100644
--- a/src/Function/FuncNNLayer.h
+++ b/src/Function/FuncNNLayer.h
@@ -89,6 +89,11 @@ class FuncMaxPool : public Function<FuncMaxPool> {
     auto outW = (width - kernel.w + 2 * padding.w) / stride.w + 1;
 
     auto col = op::im2col(input, kernel, stride, padding);
+    if (padding.h > 0 || padding.w > 0) {
+      // padding never wins
+      auto valid = op::im2col(Tensor::onesLike(input, input.options().noGrad()), kernel, stride, padding);
+      op::fillMaskedInplace(col, valid == 0, -std::numeric_limits<float>::infinity());
+    }
     col.reshape_({-1, kernel.h * kernel.w});
 
     auto maxRet = op::maxOnDim(col, 1, false);
-- 
2.43.0


From 4ca8456be119bb3c6eac16ad9b9d3fdd2c8777d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:02 +0000
Subject: [PATCH 028/105] fix: maxPool2d of an unbatched input returns an
 unbatched output

---
 src/Function/FuncNNLayer.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Function/FuncNNLayer.h b/src/Function/FuncNNLayer.h
index adf8ef6..5a7d4e2 100644
--- a/src/Function/FuncNNLayer.h
+++ b/src/Function/FuncNNLayer.h
@@ -102,6 +102,9 @@ class FuncMaxPool : public Function<FuncMaxPool> {
     auto output = maxRet.first;
     output.reshape_({batch, outH, outW, channels});
     output = op::permute(output, IntArrayView{0, 3, 1, 2});
+    if (shape.size() == 3) {
+      output.reshape_({channels, outH, outW});
+    }
 
     if (ctx) {
       ctx->pushData(kernel);
-- 
2.43.0


From 62b3235c745c55a4c052bdd00c18cca215b37f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:01 +0000
Subject: [PATCH 029/105] fix: blocks allocated before the cache switch changes
 are freed to where they came from

---
 src/Tensor/CachedAllocator.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/Tensor/CachedAllocator.h b/src/Tensor/CachedAllocator.h
index 63bf375..469606a 100644
--- a/src/Tensor/CachedAllocator.h
+++ b/src/Tensor/CachedAllocator.h
@@ -18,13 +18,18 @@ class CachedAllocator : public Allocator {
 
   void* allocate(int64_t nbytes) override {
     if (!cacheEnabled_) {
-      return base_->allocate(nbytes);
+      void* ptr = base_->allocate(nbytes);
+      if (ptr) {
+        uncachedPtrs_.insert(ptr);
+      }
+      return ptr;
     }
     return impl_->allocate(nbytes);
   }
 
   void deallocate(void* ptr) override {
-    if (!cacheEnabled_) {
+    // the switch may have changed since the block was allocated
+    if (uncachedPtrs_.erase(ptr) > 0) {
       base_->deallocate(ptr);
       return;
     }
@@ -33,6 +38,7 @@ class CachedAllocator : public Allocator {
 
  private:
   static bool cacheEnabled_;
+  ankerl::unordered_dense::set<void*> uncachedPtrs_;
   std::unique_ptr<Allocator> base_;
   std::unique_ptr<Allocator> impl_;
 };
-- 
2.43.0


From 92f995eb01d4357003a9c2b01664233779a01487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:44 +0000
Subject: [PATCH 030/105] fix: copying into a tensor does not write into its
 clones, nor into clones of a sliced tensor

---
 src/Operation/OpTransform.cpp |  8 ++++----
 src/Tensor/Storage.h          |  5 +++++
 src/Tensor/Tensor.cpp         |  5 +++++
 src/Tensor/TensorImpl.cpp     | 23 +++++++++++++++++++++++
 src/Tensor/TensorImpl.h       |  5 +++++
 5 files changed, 42 insertions(+), 4 deletions(-)

diff --git a/src/Operation/OpTransform.cpp b/src/Operation/OpTransform.cpp
index 63ddc61..2de9e39 100644
--- a/src/Operation/OpTransform.cpp
+++ b/src/Operation/OpTransform.cpp
@@ -111,7 +111,7 @@ Tensor indexOpImpl(const Tensor& self, const IntArrayView indices) {
     retShape.pushBack(self.shape(i));
   }
   // share storage
-  auto ret = Tensor(retShape, self.options(), self.storage(), self.storageOffset() + dataIdx);
+  auto ret = Tensor(retShape, self.options(), self.getImpl().aliasStorage(), self.storageOffset() + dataIdx);
   ASSERT(dimStride == ret.numel());
   return ret;
 }
@@ -159,7 +159,7 @@ std::vector<Tensor> splitOpImplDetail(const Tensor& self, IntArrayView sectionSi
       retShape[0] = sectionSizes[i];
 
       int64_t storageOffset = self.storageOffset() + startIdx * self.stride(0);
-      retTensors[i] = Tensor(retShape, self.options().noGrad(), self.storage(), storageOffset);
+      retTensors[i] = Tensor(retShape, self.options().noGrad(), self.getImpl().aliasStorage(), storageOffset);
 
       startIdx += sectionSizes[i];
     }
@@ -263,7 +263,7 @@ std::vector<Tensor> chunkOpImpl(const Tensor& self, int64_t chunks, int64_t dim)
     if (dim == 0) {  // share storage
       int64_t innerBlockSize = calcBlockSize(self.shape(), dim + 1, self.dim());
       int64_t offset = self.storageOffset() + start * innerBlockSize;
-      Tensor chunk(retShape, self.options().noGrad(), self.storage(), offset);
+      Tensor chunk(retShape, self.options().noGrad(), self.getImpl().aliasStorage(), offset);
       retTensors.push_back(chunk);
     } else {
       Tensor chunk = Tensor::empty(retShape, self.options().noGrad());
@@ -418,7 +418,7 @@ Tensor narrowOpImpl(const Tensor& self, int64_t dim, int64_t start, int64_t leng
 
   if (dim == 0) {  // share storage
     int64_t newOffset = self.storageOffset() + start * self.stride(0);
-    return {retShape, self.options().noGrad(), self.storage(), newOffset};
+    return {retShape, self.options().noGrad(), self.getImpl().aliasStorage(), newOffset};
   }
 
   auto ret = Tensor::empty(retShape, self.options().noGrad());
diff --git a/src/Tensor/Storage.h b/src/Tensor/Storage.h
index 94b85c9..5e0420f 100644
--- a/src/Tensor/Storage.h
+++ b/src/Tensor/Storage.h
@@ -35,6 +35,10 @@ class Storage {
   int64_t size() const { return nbytes_; }
   Device device() const { return device_; }
 
+  // shared with views that write through, not only with copy-on-write clones
+  bool aliased() const { return aliased_; }
+  void setAliased() { aliased_ = true; }
+
   static void copyOnDevice(void* dst, const Device& dstDevice, const void* src, const Device& srcDevice,
                            int64_t nbytes);
   static void copyOnDevice(void* dst, const void* src, int64_t nbytes, const Device& device);
@@ -43,6 +47,7 @@ class Storage {
   int64_t nbytes_;
   Device device_;
   Allocator* allocator_;
+  bool aliased_ = false;
   std::unique_ptr<void, std::function<void(void*)>> data_;
 };
 
diff --git a/src/Tensor/Tensor.cpp b/src/Tensor/Tensor.cpp
index bac3612..e54a2ac 100644
--- a/src/Tensor/Tensor.cpp
+++ b/src/Tensor/Tensor.cpp
@@ -125,6 +125,7 @@ void Tensor::backwardImpl(const Tensor &grad) const {
 Tensor Tensor::clone() const {
   Tensor ret;
   ret.impl_ = std::make_shared<TensorImpl>(*this->impl_);
+  ret.impl_->detachAlias();
   ret.initAutogradMeta();
   return ret;
 }
@@ -133,6 +134,10 @@ void Tensor::copy_(const Tensor &src) {
   ASSERT(src.defined() && this->defined());
   ASSERT(src.shape() == this->shape());
   ASSERT(src.dtype() == this->dtype());
+  // views write through to the tensor they were taken from
+  if (!impl_->isView()) {
+    copyOnWrite();
+  }
   int64_t nbytes = numel() * static_cast<int64_t>(dtypeSize(dtype()));
   Storage::copyOnDevice(this->dataPtr<>(), this->device(), src.dataPtr<>(), src.device(), nbytes);
 }
diff --git a/src/Tensor/TensorImpl.cpp b/src/Tensor/TensorImpl.cpp
index 679b553..3df0b21 100644
--- a/src/Tensor/TensorImpl.cpp
+++ b/src/Tensor/TensorImpl.cpp
@@ -27,9 +27,31 @@ TensorImpl::TensorImpl(const IntArrayView shape, Options options, const std::sha
   ASSERT(offset + nbytes() <= storage->size());
   storageOffset_ = offset;
   storage_ = storage;
+  storage_->setAliased();
+  isView_ = true;
   dataPtr_ = storage_->dataPtr<uint8_t>() + storageOffset_ * dtypeSize(options.dtype_);
 }
 
+const std::shared_ptr<Storage>& TensorImpl::aliasStorage() const {
+  ensureStorage();
+  if (!storage_->aliased()) {
+    // clones must not see what is written through the view
+    copyOnWrite();
+    storage_->setAliased();
+  }
+  return storage_;
+}
+
+void TensorImpl::detachAlias() {
+  isView_ = false;
+  if (!storage_ || !storage_->aliased()) {
+    return;
+  }
+  auto storage = std::make_shared<Storage>(nbytes(), options_.device_, getAllocator(options_));
+  Storage::copyOnDevice(storage->dataPtr<>(), dataPtr_, nbytes(), options_.device_);
+  setStorage(storage);
+}
+
 void TensorImpl::setStorage(const std::shared_ptr<Storage>& storage, int64_t offset) {
   ASSERT(offset + nbytes() <= storage->size());
   storage_ = storage;
@@ -43,6 +65,7 @@ void TensorImpl::copyOnWrite() const {
     storage_ = storage_->clone();
     dataPtr_ = storage_->dataPtr<uint8_t>() + storageOffset_ * dtypeSize(options_.dtype_);
   }
+  isView_ = false;
 }
 
 void TensorImpl::reshape_(const IntArrayView shape) {
diff --git a/src/Tensor/TensorImpl.h b/src/Tensor/TensorImpl.h
index f0f7982..11a068d 100644
--- a/src/Tensor/TensorImpl.h
+++ b/src/Tensor/TensorImpl.h
@@ -65,7 +65,11 @@ class TensorImpl {
     return storage_;
   }
   void setStorage(const std::shared_ptr<Storage>& storage, int64_t offset = 0);
+  // storage to build a view on
+  const std::shared_ptr<Storage>& aliasStorage() const;
+  bool isView() const { return isView_; }
   void copyOnWrite() const;
+  void detachAlias();
 
   void reshape_(IntArrayView shape);
   void flatten_(int64_t startDim = 0, int64_t endDim = -1);
@@ -87,6 +91,7 @@ class TensorImpl {
 
   int64_t numel_ = 0;
   int64_t storageOffset_ = 0;  // element index, not bytes
+  mutable bool isView_ = false;
   mutable void* dataPtr_ = nullptr;
 
   Options options_;
-- 
2.43.0


From 7310b4215ec7987df358dd00b741da85545241c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:45 +0000
Subject: [PATCH 031/105] fix: the gradient of a broadcast operand always has
 the shape of the operand

---
 src/Function/FuncElemWise.h | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/Function/FuncElemWise.h b/src/Function/FuncElemWise.h
index 0ccbec0..df4d90b 100644
--- a/src/Function/FuncElemWise.h
+++ b/src/Function/FuncElemWise.h
@@ -27,11 +27,7 @@ static Tensor reduceGrad(const Tensor& self, const Tensor& grad) {
     }
   }
 
-  if (dims.empty()) {
-    return grad;
-  }
-
-  auto ret = op::sumOnDims(grad, dims, true);
+  auto ret = dims.empty() ? grad.clone() : op::sumOnDims(grad, dims, true);
   op::reshapeInplace(ret, self.shape());
   return ret;
 }
-- 
2.43.0


From 9cc2e5156f25dbe3df4716d1f0f676ce34db086b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:45 +0000
Subject: [PATCH 032/105] fix: sub honours its alpha factor in the backward
 pass

---
 src/Function/FuncElemWise.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Function/FuncElemWise.h b/src/Function/FuncElemWise.h
index df4d90b..850cbb6 100644
--- a/src/Function/FuncElemWise.h
+++ b/src/Function/FuncElemWise.h
@@ -86,6 +86,9 @@ class FuncAdd : public Function<FuncAdd> {
 class FuncSub : public Function<FuncSub> {
  public:
   static Tensor forward(AutogradContext* ctx, const Tensor& self, const Tensor& other, const Scalar& alpha) {
+    if (ctx) {
+      ctx->pushData(alpha);
+    }
     return op::sub(self, other, alpha);
   }
 
@@ -97,7 +100,8 @@ class FuncSub : public Function<FuncSub> {
       self.addGrad(reduceGrad(self, grad));
     }
     if (other.requiresGrad()) {
-      other.addGrad(reduceGrad(other, op::neg(grad)));
+      auto alpha = Tensor::scalar(ctx->popData().toScalar(), grad.options().noGrad());
+      other.addGrad(reduceGrad(other, op::neg(op::mul(grad, alpha))));
     }
   }
 };
-- 
2.43.0


From 3e38d6a9e8975c134f146bab85d125506fa1e51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:45 +0000
Subject: [PATCH 033/105] fix: linear backward handles inputs with leading
 batch dimensions

---
 src/Function/FuncNNLayer.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Function/FuncNNLayer.h b/src/Function/FuncNNLayer.h
index 5a7d4e2..d0d41f7 100644
--- a/src/Function/FuncNNLayer.h
+++ b/src/Function/FuncNNLayer.h
@@ -27,14 +27,17 @@ class FuncLinear : public Function<FuncLinear> {
     auto& weight = ctx->savedInputs[1];
     auto& bias = ctx->savedInputs[2];
 
+    // leading dimensions are batch dimensions
+    auto rows = op::reshape(grad, IntArrayView{-1, weight.shape(0)});
+
     if (input.requiresGrad()) {
       input.addGrad(op::matmul(grad, weight, false, false));
     }
     if (weight.requiresGrad()) {
-      weight.addGrad(op::matmul(grad, input, true, false));
+      weight.addGrad(op::matmul(rows, op::reshape(input, IntArrayView{-1, weight.shape(1)}), true, false));
     }
     if (bias.defined() && bias.requiresGrad()) {
-      bias.addGrad(op::sumOnDim(grad, 0, false));
+      bias.addGrad(op::sumOnDim(rows, 0, false));
     }
   }
 };
-- 
2.43.0


From 15f2363eaf7c7aece80e2779574b2c7b63dc215b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:45 +0000
Subject: [PATCH 034/105] fix: permute backward applies the inverse permutation

---
 src/Function/FuncTransform.h | 40 +++++++++++++++++++++++++++++++++---
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/src/Function/FuncTransform.h b/src/Function/FuncTransform.h
index 5afc356..c2c4b7b 100644
--- a/src/Function/FuncTransform.h
+++ b/src/Function/FuncTransform.h
@@ -30,10 +30,44 @@ DEFINE_TRANSFORM_FUNCTION(FuncReshape, (AutogradContext * ctx, const Tensor& sel
 DEFINE_TRANSFORM_FUNCTION(FuncView, (AutogradContext * ctx, const Tensor& self, const IntArrayView shape),
                           return op::view(self, shape););
 
-DEFINE_TRANSFORM_FUNCTION(FuncPermute, (AutogradContext * ctx, const Tensor& self, const IntArrayView dims),
-                          return op::permute(self, dims););
+class FuncPermute : public Function<FuncPermute> {
+ public:
+  static Tensor forward(AutogradContext* ctx, const Tensor& self, const IntArrayView dims) {
+    if (ctx) {
+      std::vector<IValue> savedDims;
+      for (auto d : dims) {
+        savedDims.emplace_back(d < 0 ? d + self.dim() : d);
+      }
+      ctx->pushData(savedDims);
+    }
+    return op::permute(self, dims);
+  }
+  static void backward(AutogradContext* ctx, const Tensor& grad) {
+    auto& self = ctx->savedInputs[0];
+
+    if (self.requiresGrad()) {
+      auto savedDims = ctx->popData();
+      const auto& dims = savedDims.toList();
+      SizeVector inverse(dims.size());
+      for (size_t i = 0; i < dims.size(); i++) {
+        inverse[dims[i].toInt64()] = static_cast<int64_t>(i);
+      }
+      self.addGrad(op::permute(grad, inverse));
+    }
+  }
+};
 
-DEFINE_TRANSFORM_FUNCTION(FuncPermuteAll, (AutogradContext * ctx, const Tensor& self), return op::permuteAll(self););
+class FuncPermuteAll : public Function<FuncPermuteAll> {
+ public:
+  static Tensor forward(AutogradContext* ctx, const Tensor& self) { return op::permuteAll(self); }
+  static void backward(AutogradContext* ctx, const Tensor& grad) {
+    auto& self = ctx->savedInputs[0];
+
+    if (self.requiresGrad()) {
+      self.addGrad(op::permuteAll(grad));
+    }
+  }
+};
 
 DEFINE_TRANSFORM_FUNCTION(FuncFlatten,
                           (AutogradContext * ctx, const Tensor& self, int64_t startDim = 0, int64_t endDim = -1),
-- 
2.43.0


From 1c7baf2a5f1378c593f8c0540cca9b5343dbacba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:45 +0000
Subject: [PATCH 035/105] fix: pow gradients at zero are finite where the
 derivative is

---
 src/Operation/OpElemWiseCpu.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Operation/OpElemWiseCpu.h b/src/Operation/OpElemWiseCpu.h
index a8bb948..e530cbd 100644
--- a/src/Operation/OpElemWiseCpu.h
+++ b/src/Operation/OpElemWiseCpu.h
@@ -182,14 +182,14 @@ struct OpCpuPow {
 struct OpCpuPowBackwardP1 {
   template <typename T>
   static T apply(const T& a, const T& b, const T& grad) {
-    return grad * b * std::pow(a, b - 1);
+    return b == T(0) ? T(0) : static_cast<T>(grad * b * std::pow(a, b - 1));
   }
 };
 
 struct OpCpuPowBackwardP2 {
   template <typename T>
   static T apply(const T& a, const T& b, const T& grad) {
-    return grad * std::pow(a, b) * std::log(a);
+    return a == T(0) && b >= T(0) ? T(0) : static_cast<T>(grad * std::pow(a, b) * std::log(a));
   }
 };
 
-- 
2.43.0


From 282535870ead174403a8787ac04f0a3b1b0bc8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:45 +0000
Subject: [PATCH 036/105] fix: nll loss backward takes the incoming gradient
 into account

---
 src/Operation/OpLossCpu.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Operation/OpLossCpu.h b/src/Operation/OpLossCpu.h
index 4c10b25..e7d2e8a 100644
--- a/src/Operation/OpLossCpu.h
+++ b/src/Operation/OpLossCpu.h
@@ -88,6 +88,8 @@ Tensor nllLossOpBackwardCpuImpl(const Tensor& grad, const Tensor& input, const T
     default:
       break;
   }
+  // one gradient per sample, or one for all
+  op::mulInplace(out, grad.numel() == 1 ? op::reshape(grad, IntArrayView{1, 1}) : op::reshape(grad, IntArrayView{batchSize, 1}));
   // TODO fuse
   return out;
 }
-- 
2.43.0


From e115e9d5ac329d2482f002ab06e624acb18a82f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:45 +0000
Subject: [PATCH 037/105] fix: mse loss with broadcast operands has the right
 gradient shape and mean

---
 src/Function/FuncLoss.h   | 3 ++-
 src/Operation/OpLossCpu.h | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Function/FuncLoss.h b/src/Function/FuncLoss.h
index 1f54ca7..f485f31 100644
--- a/src/Function/FuncLoss.h
+++ b/src/Function/FuncLoss.h
@@ -6,6 +6,7 @@
 
 #pragma once
 
+#include "FuncElemWise.h"
 #include "Operations.h"
 #include "Tensor/Function.h"
 
@@ -28,7 +29,7 @@ namespace tinytorch::function {
       auto reduction = ctx->popData().toEnum<LossReduction>();                                                        \
                                                                                                                       \
       if (input.requiresGrad()) {                                                                                     \
-        input.addGrad(BACKWARD_OP(grad, input, target, reduction));                                                   \
+        input.addGrad(reduceGrad(input, BACKWARD_OP(grad, input, target, reduction)));                                \
       }                                                                                                               \
       ASSERT(!target.requiresGrad());                                                                                 \
     }                                                                                                                 \
diff --git a/src/Operation/OpLossCpu.h b/src/Operation/OpLossCpu.h
index e7d2e8a..33be2c2 100644
--- a/src/Operation/OpLossCpu.h
+++ b/src/Operation/OpLossCpu.h
@@ -42,7 +42,7 @@ Tensor mseLossOpBackwardCpuImpl(const Tensor& grad, const Tensor& input, const T
 
   switch (reduction) {
     case LossReduction::MEAN:
-      op::divInplace(out, Tensor::scalar(input.numel(), out.options().noGrad()));
+      op::divInplace(out, Tensor::scalar(out.numel(), out.options().noGrad()));
       break;
     default:
       break;
-- 
2.43.0


From c3a0975cdcaba99f9167cba2e921c6f93347a889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:46 +0000
Subject: [PATCH 038/105] fix: in-place operations and flag changes keep the
 graph of the tensor they act on

---
 src/Tensor/Tensor.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/Tensor/Tensor.cpp b/src/Tensor/Tensor.cpp
index e54a2ac..4e24796 100644
--- a/src/Tensor/Tensor.cpp
+++ b/src/Tensor/Tensor.cpp
@@ -101,7 +101,11 @@ void Tensor::initAutogradMeta(const std::shared_ptr<FunctionBase> &fn) {
     if (gradMeta_ == nullptr) {
       gradMeta_ = std::make_unique<AutogradMeta>();
     }
-    setGradFn(fn ? fn : std::make_shared<FuncLeaf>());
+    if (fn) {
+      setGradFn(fn);
+    } else if (gradFn() == nullptr) {
+      setGradFn(std::make_shared<FuncLeaf>());
+    }
   } else {
     gradMeta_.reset();
   }
@@ -110,6 +114,11 @@ void Tensor::initAutogradMeta(const std::shared_ptr<FunctionBase> &fn) {
 void Tensor::inplaceSet(Tensor &&val) {
   auto reqGrad = requiresGrad();
   impl_ = std::move(val.impl_);
+  if (impl_->requiresGrad() && !(reqGrad && gradMeta_->isLeaf())) {
+    // continue with the graph of the new value
+    gradMeta_ = std::move(val.gradMeta_);
+    return;
+  }
   impl_->options().requiresGrad(reqGrad);
 }
 
-- 
2.43.0


From 72bd1684b92f7aa79dcec1a2d27d5f5cbd801a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:46 +0000
Subject: [PATCH 039/105] fix: only float results require gradients, and
 results of shape operations without gradients are plain

---
 src/Tensor/DType.h    |  2 ++
 src/Tensor/Function.h | 10 +++++++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/Tensor/DType.h b/src/Tensor/DType.h
index 2c1feaf..645b464 100644
--- a/src/Tensor/DType.h
+++ b/src/Tensor/DType.h
@@ -45,6 +45,8 @@ inline size_t dtypeSize(DType t) {
   }
 }
 
+inline bool isFloatDType(DType t) { return t == DType::Float32 || t == DType::Float16 || t == DType::BFloat16; }
+
 inline const char* dtypeToString(DType dtype) {
   switch (dtype) {
     case DType::Float32:
diff --git a/src/Tensor/Function.h b/src/Tensor/Function.h
index e99a597..419f1c6 100644
--- a/src/Tensor/Function.h
+++ b/src/Tensor/Function.h
@@ -83,10 +83,14 @@ inline void collectTensorInfo(const TensorListView& tlv, bool& requiresGrad, Ten
 
 template <typename TensorType>
 void handleOutputTensor(TensorType& t, bool shouldRequireGrad, const std::shared_ptr<FunctionBase>& fn) {
-  if (shouldRequireGrad) {
+  if (!t.defined()) {
+    return;
+  }
+  // only floating point results are differentiable
+  if (shouldRequireGrad && isFloatDType(t.dtype())) {
     t.setRequiresGrad(true, fn);
-  } else {
-    ASSERT(!t.requiresGrad());
+  } else if (t.requiresGrad()) {
+    t.setRequiresGrad(false);
   }
 }
 
-- 
2.43.0


From 632000b35db8efe23d91a563958d91a16cbcdc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:46 +0000
Subject: [PATCH 040/105] fix: a graph can be run backward more than once

---
 src/Tensor/Function.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/Tensor/Function.h b/src/Tensor/Function.h
index 419f1c6..5ab136b 100644
--- a/src/Tensor/Function.h
+++ b/src/Tensor/Function.h
@@ -19,17 +19,19 @@ class AutogradMeta;
 
 struct AutogradContext {
   std::deque<IValue> savedData;
+  size_t savedDataPos = 0;
   TensorList savedInputs;
 
   void pushData(IValue&& val) { savedData.push_back(std::move(val)); }
 
+  // data stays saved, a graph may be run backward more than once
   IValue popData() {
-    ASSERT(!savedData.empty());
-    IValue ret = std::move(savedData.front());
-    savedData.pop_front();
-    return ret;
+    ASSERT(savedDataPos < savedData.size());
+    return savedData[savedDataPos++];
   }
 
+  void rewindData() { savedDataPos = 0; }
+
   explicit AutogradContext(TensorList&& inputs) : savedInputs(std::move(inputs)) {}
 };
 
@@ -52,7 +54,10 @@ template <class T>
 struct Function {
   struct FunctionInstance : FunctionBase {
     explicit FunctionInstance(std::shared_ptr<AutogradContext> c) { ctx = std::move(c); }
-    void backward(const Tensor& grad) override { T::backward(ctx.get(), grad); }
+    void backward(const Tensor& grad) override {
+      ctx->rewindData();
+      T::backward(ctx.get(), grad);
+    }
   };
 
   template <typename X = T, typename... Args>
-- 
2.43.0


From 169797d87e10981511e1fa668ad7d15e416de37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:46 +0000
Subject: [PATCH 041/105] fix: gradients are never shared between tensors,
 intermediate gradients do not leak into the next pass, hooks have stable ids
 and run once

---
 src/Tensor/AutogradMeta.cpp | 51 +++++++++++++++++++++++++------------
 src/Tensor/AutogradMeta.h   |  3 ++-
 src/Tensor/Function.cpp     |  3 +--
 3 files changed, 38 insertions(+), 19 deletions(-)

diff --git a/src/Tensor/AutogradMeta.cpp b/src/Tensor/AutogradMeta.cpp
index e7925d7..9335734 100644
--- a/src/Tensor/AutogradMeta.cpp
+++ b/src/Tensor/AutogradMeta.cpp
@@ -6,6 +6,7 @@
 
 #include "AutogradMeta.h"
 
+#include <algorithm>
 #include <queue>
 #include <set>
 
@@ -22,25 +23,27 @@ void AutogradMeta::setGradFn(const std::shared_ptr<FunctionBase> &fn) {
   fn->weakOwner = shared_from_this();
 }
 
-void AutogradMeta::setGrad(const Tensor &grad) { grad_ = grad; }
+void AutogradMeta::setGrad(const Tensor &grad) {
+  if (!grad.defined()) {
+    grad_ = Tensor();
+    return;
+  }
+  // the gradient is never the same tensor as another one
+  grad_ = grad.clone();
+  grad_.setRequiresGrad(false);
+}
 
-void AutogradMeta::setGrad(Tensor &&grad) { grad_ = std::move(grad); }
+void AutogradMeta::setGrad(Tensor &&grad) { setGrad(static_cast<const Tensor &>(grad)); }
 
 void AutogradMeta::addGrad(const Tensor &grad) {
   if (grad_.defined()) {
     op::addInplace(grad_, grad, 1);
   } else {
-    grad_ = grad;
+    setGrad(grad);
   }
 }
 
-void AutogradMeta::addGrad(Tensor &&grad) {
-  if (grad_.defined()) {
-    op::addInplace(grad_, grad, 1);
-  } else {
-    grad_ = std::move(grad);
-  }
-}
+void AutogradMeta::addGrad(Tensor &&grad) { addGrad(static_cast<const Tensor &>(grad)); }
 
 void AutogradMeta::zeroGrad(const Tensor &owner) {
   if (!grad_.defined()) {
@@ -67,27 +70,43 @@ void AutogradMeta::backward(const Tensor &grad) {
     buildBackwardGraph();
   }
 
+  // intermediate gradients belong to this backward pass only
+  for (auto &currFunc : backwardGraph_) {
+    auto owner = currFunc->weakOwner.lock();
+    ASSERT(owner != nullptr);
+    if (!owner->isLeaf()) {
+      owner->grad_ = Tensor();
+    }
+  }
+
   addGrad(grad);
   for (auto &currFunc : backwardGraph_) {
     auto owner = currFunc->weakOwner.lock();
     ASSERT(owner != nullptr);
+    if (!owner->grad_.defined()) {
+      continue;
+    }
+    owner->applyHooks();
     currFunc->backward(owner->grad_);
   }
 }
 
 int64_t AutogradMeta::registerHook(Hook::FnType fn, void *ctx) {
-  hooks_.push_back({fn, ctx});
-  return static_cast<int64_t>(hooks_.size() - 1);
+  hooks_.emplace_back(nextHookId_, Hook{fn, ctx});
+  return nextHookId_++;
 }
 
 void AutogradMeta::unregisterHook(int64_t hid) {
-  ASSERT(hid >= 0 && hid < static_cast<int64_t>(hooks_.size()));
-  hooks_.erase(hooks_.begin() + hid);
+  auto it = std::find_if(hooks_.begin(), hooks_.end(), [hid](const auto &h) { return h.first == hid; });
+  ASSERT(it != hooks_.end());
+  hooks_.erase(it);
 }
 
 void AutogradMeta::applyHooks() {
-  for (auto &h : hooks_) {
-    h.fn(h.ctx, grad_);
+  // hooks may be registered or unregistered by a hook
+  const auto hooks = hooks_;
+  for (auto &h : hooks) {
+    h.second.fn(h.second.ctx, grad_);
   }
 }
 
diff --git a/src/Tensor/AutogradMeta.h b/src/Tensor/AutogradMeta.h
index 805a465..65411ed 100644
--- a/src/Tensor/AutogradMeta.h
+++ b/src/Tensor/AutogradMeta.h
@@ -40,7 +40,8 @@ class AutogradMeta : public std::enable_shared_from_this<AutogradMeta> {
   Tensor grad_;
   std::shared_ptr<FunctionBase> gradFn_;
   std::vector<std::shared_ptr<FunctionBase>> backwardGraph_;
-  std::vector<Hook> hooks_;
+  std::vector<std::pair<int64_t, Hook>> hooks_;
+  int64_t nextHookId_ = 0;
 };
 
 }  // namespace tinytorch
diff --git a/src/Tensor/Function.cpp b/src/Tensor/Function.cpp
index 30d63c9..d9f151c 100644
--- a/src/Tensor/Function.cpp
+++ b/src/Tensor/Function.cpp
@@ -17,8 +17,7 @@ void FuncLeaf::backward(const Tensor& grad) {
     return;
   }
 
-  owner->setGrad(grad);
-  owner->applyHooks();
+  // the gradient has been accumulated in the owner
 }
 
 }  // namespace tinytorch
-- 
2.43.0


From cdded5a1e9f2853d562ffe14c9f48d65a7cad0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:37 +0000
Subject: [PATCH 042/105] fix: dropout with p = 1 drops everything instead of
 producing NaN

---
 src/Operation/OpNNLayerCpu.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/Operation/OpNNLayerCpu.h b/src/Operation/OpNNLayerCpu.h
index 9628a3d..c72ec46 100644
--- a/src/Operation/OpNNLayerCpu.h
+++ b/src/Operation/OpNNLayerCpu.h
@@ -161,7 +161,9 @@ Tensor dropoutOpCpuImpl(const Tensor& self, float p) {
   auto generator = RandomGeneratorCPU::getGenerator();
   std::bernoulli_distribution distribution(p);
   for (int64_t i = 0; i < self.numel(); i++) {
-    outPtr[i] = static_cast<T>(static_cast<float>(selfPtr[i]) * static_cast<float>(distribution(generator)) / p);
+    // nothing is kept when p is 0
+    const bool kept = distribution(generator);
+    outPtr[i] = kept ? static_cast<T>(static_cast<float>(selfPtr[i]) / p) : static_cast<T>(0.f);
   }
   return out;
 }
@@ -172,7 +174,10 @@ Tensor dropoutMaskedOpCpuImpl(const Tensor& self, const Tensor& mask, float p) {
   auto outShape = iterator.setupBroadcast();
   ASSERT(iterator.isBroadcastOk());
   Tensor out(outShape, self.options().noGrad());
-  iterator.template forEach<T>(out, [p](const T& a, const T& b) -> T { return a * b / p; });
+  iterator.template forEach<T>(out, [p](const T& a, const T& b) -> T {
+    // nothing is kept when p is 0
+    return p > 0.f ? static_cast<T>(a * b / p) : static_cast<T>(0.f);
+  });
   return out;
 }
 
-- 
2.43.0


From 5922960a1c610fc9ceaf8036ab40339569137d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:13 +0000
Subject: [PATCH 043/105] fix: SGD keeps its own momentum buffer instead of
 sharing the gradient's memory

---
 src/Optimizer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Optimizer.cpp b/src/Optimizer.cpp
index b3c4a11..ed207d2 100644
--- a/src/Optimizer.cpp
+++ b/src/Optimizer.cpp
@@ -69,7 +69,8 @@ void SGD::doStep() {
     }
     if (momentum_ != 0.f) {
       auto &buf = momentumBuffer_[i];
-      buf = buf.defined() ? (momentum_ * buf + (1.f - dampening_) * grad) : grad;
+      // own memory: the gradient is overwritten in place by later passes
+      buf = buf.defined() ? (momentum_ * buf + (1.f - dampening_) * grad) : grad.clone();
       if (nesterov_) {
         grad += momentum_ * buf;
       } else {
-- 
2.43.0


From d8f00dbd2fdc1a0cc92435f4b23a5d7027a9b62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:13 +0000
Subject: [PATCH 044/105] fix: centered RMSprop divides by the standard
 deviation, not the variance

---
 src/Optimizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Optimizer.cpp b/src/Optimizer.cpp
index ed207d2..67a2294 100644
--- a/src/Optimizer.cpp
+++ b/src/Optimizer.cpp
@@ -135,7 +135,7 @@ void RMSprop::doStep() {
     if (centered_) {
       auto &g = gradAvg_[i];
       g = alpha_ * g + (1.f - alpha_) * grad;
-      avg = v - g * g;
+      avg = (v - g * g).sqrt();
     } else {
       avg = v.sqrt();
     }
-- 
2.43.0


From b07f16a346ca8d1258c5e50684beb6c6b80af95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:13 +0000
Subject: [PATCH 045/105] fix: AdamW leaves parameters without a gradient alone

---
 src/Optimizer.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Optimizer.cpp b/src/Optimizer.cpp
index 67a2294..b2be836 100644
--- a/src/Optimizer.cpp
+++ b/src/Optimizer.cpp
@@ -216,8 +216,11 @@ AdamW::AdamW(std::vector<TensorPtr> &&parameters, float lr, const std::pair<floa
     : Adam(std::move(parameters), lr, betas, eps, weightDecay, amsGrad) {}
 
 Tensor AdamW::getDecayedGrad(TensorPtr param) const {
-  *param *= (1.f - lr_ * weightDecay_);
-  return param->grad();
+  auto ret = param->grad();
+  if (ret.defined()) {
+    *param *= (1.f - lr_ * weightDecay_);
+  }
+  return ret;
 }
 
 }  // namespace tinytorch::optim
-- 
2.43.0


From 2e88c9ff3f0e0f46f39743a50c5f377d7830246c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:13 +0000
Subject: [PATCH 046/105] fix: Adam and Adagrad count the steps of each
 parameter separately

---
 src/Optimizer.cpp | 10 +++++-----
 src/Optimizer.h   |  1 +
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/Optimizer.cpp b/src/Optimizer.cpp
index b2be836..e1a445d 100644
--- a/src/Optimizer.cpp
+++ b/src/Optimizer.cpp
@@ -12,7 +12,7 @@
 namespace tinytorch::optim {
 
 Optimizer::Optimizer(std::vector<TensorPtr> &&parameters, float lr, float weightDecay)
-    : parameters_(parameters), step_(0), lr_(lr), weightDecay_(weightDecay) {
+    : parameters_(parameters), step_(0), updates_(parameters_.size(), 0), lr_(lr), weightDecay_(weightDecay) {
   if (lr_ <= 0) {
     LOGE("Invalid learning rate: %f", lr_);
     return;
@@ -100,7 +100,7 @@ void Adagrad::doStep() {
       continue;
     }
     auto &s = stateSums_[i];
-    auto clr = lr_ / (1 + static_cast<float>(step_ - 1) * lrDecay_);
+    auto clr = lr_ / (1 + static_cast<float>(updates_[i]++) * lrDecay_);
     s += grad * grad;
     *param -= clr * grad / (s.sqrt() + eps_);
   }
@@ -187,15 +187,15 @@ Adam::Adam(std::vector<TensorPtr> &&parameters, float lr, const std::pair<float,
 }
 
 void Adam::doStep() {
-  float b1t = 1.f - std::pow(beta1_, static_cast<float>(step_));
-  float b2t = 1.f - std::pow(beta2_, static_cast<float>(step_));
-
   for (size_t i = 0; i < parameters_.size(); i++) {
     auto &param = parameters_[i];
     auto grad = getDecayedGrad(param);
     if (!grad.defined()) {
       continue;
     }
+    updates_[i]++;
+    float b1t = 1.f - std::pow(beta1_, static_cast<float>(updates_[i]));
+    float b2t = 1.f - std::pow(beta2_, static_cast<float>(updates_[i]));
     auto &m = expAvg_[i];
     auto &v = expAvgSq_[i];
     m = beta1_ * m + (1.f - beta1_) * grad;
diff --git a/src/Optimizer.h b/src/Optimizer.h
index 7583389..3329398 100644
--- a/src/Optimizer.h
+++ b/src/Optimizer.h
@@ -34,6 +34,7 @@ class Optimizer {
 
   std::vector<TensorPtr> parameters_;
   int64_t step_;
+  std::vector<int64_t> updates_;  // steps each parameter took part in
   float lr_;
   float weightDecay_;
 };
-- 
2.43.0


From af66ff7a7c902c7ac840cdcc413723c080447ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:58 +0000
Subject: [PATCH 047/105] fix: a step schedule continued at a decay epoch
 applies the decay

---
 src/Scheduler.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Scheduler.h b/src/Scheduler.h
index f351692..3a9041b 100644
--- a/src/Scheduler.h
+++ b/src/Scheduler.h
@@ -51,7 +51,11 @@ class Scheduler {
 class StepLR : public Scheduler {
  public:
   StepLR(Optimizer &optimizer, int64_t stepSize, float gamma = 0.1, int64_t lastEpoch = -1)
-      : Scheduler(optimizer, lastEpoch), stepSize_(stepSize), gamma_(gamma) {}
+      : Scheduler(optimizer, lastEpoch), stepSize_(stepSize), gamma_(gamma) {
+    // the base constructor cannot reach the override: apply the schedule to the first epoch here
+    lastLr_ = StepLR::getLr();
+    optimizer_.setLr(lastLr_);
+  }
 
   float getLr() override;
 
-- 
2.43.0


From 52bcf654b9712099d3db745e47cf00f8e31a6123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:25 +0000
Subject: [PATCH 048/105] fix: a module registered in several places lists its
 parameters once

---
 src/Module/Module.h | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/Module/Module.h b/src/Module/Module.h
index cf436f9..88afc0a 100644
--- a/src/Module/Module.h
+++ b/src/Module/Module.h
@@ -6,6 +6,8 @@
 
 #pragma once
 
+#include <unordered_set>
+
 #include "Tensor.h"
 
 namespace tinytorch::nn {
@@ -33,8 +35,7 @@ class Module {
       ret.emplace_back(prefix + name, param);
     }
     for (const auto &[name, module] : subModules_) {
-      auto subParams = module.get().namedParameters(prefix + name + ".");
-      ret.insert(ret.end(), subParams.begin(), subParams.end());
+      appendUnique(ret, module.get().namedParameters(prefix + name + "."));
     }
     return ret;
   }
@@ -46,8 +47,7 @@ class Module {
       ret.emplace_back(prefix + name, state);
     }
     for (const auto &[name, module] : subModules_) {
-      auto subStates = module.get().namedStates(prefix + name + ".");
-      ret.insert(ret.end(), subStates.begin(), subStates.end());
+      appendUnique(ret, module.get().namedStates(prefix + name + "."));
     }
     return ret;
   }
@@ -128,6 +128,20 @@ class Module {
   virtual std::vector<std::pair<std::string, TensorPtr>> namedParameters_() { return {}; }
   virtual std::vector<std::pair<std::string, TensorPtr>> namedStates_() { return namedParameters_(); }
 
+  // a module used in several places is listed once, under its first name
+  static void appendUnique(std::vector<std::pair<std::string, TensorPtr>> &dst,
+                           const std::vector<std::pair<std::string, TensorPtr>> &src) {
+    std::unordered_set<TensorPtr> seen;
+    for (const auto &[name, tensor] : dst) {
+      seen.insert(tensor);
+    }
+    for (const auto &item : src) {
+      if (seen.insert(item.second).second) {
+        dst.push_back(item);
+      }
+    }
+  }
+
   bool training_ = true;
   std::vector<std::pair<std::string, std::reference_wrapper<Module>>> subModules_;
 };
-- 
2.43.0


From be88ef635e74ebc193640905479d1d34b76c2b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:38 +0000
Subject: [PATCH 049/105] fix: loading applies a model file completely or not
 at all, and does not write into clones of the parameters

---
 src/Serializer.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/Serializer.cpp b/src/Serializer.cpp
index 39dfa65..83e3a9b 100644
--- a/src/Serializer.cpp
+++ b/src/Serializer.cpp
@@ -116,6 +116,7 @@ bool Serializer::load(nn::Module& module, const std::string& path, bool strict)
 
   bool success = true;
   ankerl::unordered_dense::set<std::string> fileKeys;
+  std::vector<std::pair<TensorPtr, Tensor>> loaded;  // applied only if the whole file is good
   // read tensors
   for (uint64_t i = 0; i < tensorCount; i++) {
     const auto* header = reinterpret_cast<const TensorHeader*>(dataPtr + offset);
@@ -175,8 +176,10 @@ bool Serializer::load(nn::Module& module, const std::string& path, bool strict)
 
     // copy data
     const void* tensorDataPtr = dataPtr + header->dataOffset;
-    Storage::copyOnDevice(tensor->dataPtr<>(), tensor->device(), tensorDataPtr, Device::cpu(),
+    auto value = Tensor::empty(tensor->shape(), tensor->options().noGrad());
+    Storage::copyOnDevice(value.dataPtr<>(), value.device(), tensorDataPtr, Device::cpu(),
                           static_cast<int64_t>(header->dataSize));
+    loaded.emplace_back(tensor, std::move(value));
   }
 
   // check missing keys
@@ -190,6 +193,12 @@ bool Serializer::load(nn::Module& module, const std::string& path, bool strict)
   }
 
   MMapUtils::unmapFile(mappingResult);
+  if (success) {
+    NoGradGuard guard;
+    for (auto& [tensor, value] : loaded) {
+      tensor->copy_(value);  // clones of the tensor keep their values
+    }
+  }
   return success;
 }
 
-- 
2.43.0


From 5f73899fcd33078816141ac8f84f3e63d5f13d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:54 +0000
Subject: [PATCH 050/105] fix: loading a truncated or corrupted model file
 fails instead of reading past its end or accepting it

---
 src/Serializer.cpp | 97 ++++++++++++++++++++++++++++++----------------
 1 file changed, 63 insertions(+), 34 deletions(-)

diff --git a/src/Serializer.cpp b/src/Serializer.cpp
index 83e3a9b..2f743c1 100644
--- a/src/Serializer.cpp
+++ b/src/Serializer.cpp
@@ -6,6 +6,7 @@
 
 #include "Serializer.h"
 
+#include <cstring>
 #include <fstream>
 #include <vector>
 
@@ -85,29 +86,41 @@ bool Serializer::load(nn::Module& module, const std::string& path, bool strict)
   }
 
   const char* dataPtr = static_cast<const char*>(mappingResult.dataPtr);
+  const size_t fileSize = mappingResult.fileSize;
   size_t offset = 0;
 
-  // read header
-  uint64_t magic = *reinterpret_cast<const uint64_t*>(dataPtr + offset);
-  offset += sizeof(magic);
-
-  if (magic != MAGIC_NUMBER) {
-    LOGE("Invalid magic number in file: %s", path.c_str());
+  // every access goes through here: nothing is read past the end of the file
+  auto read = [&](void* dst, size_t size) {
+    if (size > fileSize - offset) {
+      return false;
+    }
+    if (size > 0) {
+      std::memcpy(dst, dataPtr + offset, size);
+    }
+    offset += size;
+    return true;
+  };
+  auto malformed = [&](const char* what) {
+    LOGE("Malformed file (%s): %s", what, path.c_str());
     MMapUtils::unmapFile(mappingResult);
     return false;
-  }
+  };
 
-  uint64_t version = *reinterpret_cast<const uint64_t*>(dataPtr + offset);
-  offset += sizeof(version);
+  // read header
+  uint64_t magic = 0;
+  if (!read(&magic, sizeof(magic)) || magic != MAGIC_NUMBER) {
+    return malformed("magic number");
+  }
 
-  if (version != VERSION) {
-    LOGE("Unsupported version %u in file: %s", version, path.c_str());
-    MMapUtils::unmapFile(mappingResult);
-    return false;
+  uint64_t version = 0;
+  if (!read(&version, sizeof(version)) || version != VERSION) {
+    return malformed("version");
   }
 
-  uint64_t tensorCount = *reinterpret_cast<const uint64_t*>(dataPtr + offset);
-  offset += sizeof(tensorCount);
+  uint64_t tensorCount = 0;
+  if (!read(&tensorCount, sizeof(tensorCount))) {
+    return malformed("tensor count");
+  }
 
   ankerl::unordered_dense::map<std::string, TensorPtr> name2tensor;
   for (const auto& [name, tensor] : module.namedStates()) {
@@ -117,22 +130,41 @@ bool Serializer::load(nn::Module& module, const std::string& path, bool strict)
   bool success = true;
   ankerl::unordered_dense::set<std::string> fileKeys;
   std::vector<std::pair<TensorPtr, Tensor>> loaded;  // applied only if the whole file is good
+  size_t firstDataOffset = fileSize;
+  size_t nextDataOffset = 0;
   // read tensors
   for (uint64_t i = 0; i < tensorCount; i++) {
-    const auto* header = reinterpret_cast<const TensorHeader*>(dataPtr + offset);
-    offset += sizeof(TensorHeader);
+    TensorHeader header{};
+    if (!read(&header, sizeof(header)) || header.nameLength > fileSize - offset) {
+      return malformed("tensor header");
+    }
 
-    std::string name(dataPtr + offset, header->nameLength);
-    offset += header->nameLength;
-    fileKeys.insert(name);
+    std::string name(dataPtr + offset, header.nameLength);
+    offset += header.nameLength;
+    if (!fileKeys.insert(name).second) {
+      return malformed("duplicate key");
+    }
 
+    if (header.ndim > (fileSize - offset) / sizeof(int64_t)) {
+      return malformed("tensor shape");
+    }
     SizeVector shape;
-    for (uint64_t j = 0; j < header->ndim; j++) {
-      int64_t dim = *reinterpret_cast<const int64_t*>(dataPtr + offset);
+    for (uint64_t j = 0; j < header.ndim; j++) {
+      int64_t dim = 0;
+      read(&dim, sizeof(dim));
       shape.pushBack(dim);
-      offset += sizeof(int64_t);
     }
 
+    // tensor data follows the headers in order, without gaps
+    if (i == 0) {
+      firstDataOffset = nextDataOffset = header.dataOffset;
+    }
+    if (header.dataOffset != nextDataOffset || nextDataOffset > fileSize ||
+        header.dataSize > fileSize - nextDataOffset) {
+      return malformed("tensor data");
+    }
+    nextDataOffset += header.dataSize;
+
     auto iter = name2tensor.find(name);
     if (iter == name2tensor.end()) {
       LOGW("Unexpected key: %s", name.c_str());
@@ -152,7 +184,7 @@ bool Serializer::load(nn::Module& module, const std::string& path, bool strict)
     }
 
     // check dtype
-    auto dtype = static_cast<DType>(header->dtype);
+    auto dtype = static_cast<DType>(header.dtype);
     if (dtype != tensor->dtype()) {
       LOGE("dtype not equal for tensor: %s", name.c_str());
       success = false;
@@ -161,27 +193,24 @@ bool Serializer::load(nn::Module& module, const std::string& path, bool strict)
 
     // check dataSize
     size_t expectedSize = tensor->numel() * dtypeSize(tensor->dtype());
-    if (header->dataSize != expectedSize) {
+    if (header.dataSize != expectedSize) {
       LOGE("size not equal for tensor: %s", name.c_str());
       success = false;
       continue;
     }
 
-    // check dataOffset
-    if (header->dataOffset + header->dataSize > mappingResult.fileSize) {
-      LOGE("Tensor data out of file range: %s", name.c_str());
-      success = false;
-      continue;
-    }
-
     // copy data
-    const void* tensorDataPtr = dataPtr + header->dataOffset;
+    const void* tensorDataPtr = dataPtr + header.dataOffset;
     auto value = Tensor::empty(tensor->shape(), tensor->options().noGrad());
     Storage::copyOnDevice(value.dataPtr<>(), value.device(), tensorDataPtr, Device::cpu(),
-                          static_cast<int64_t>(header->dataSize));
+                          static_cast<int64_t>(header.dataSize));
     loaded.emplace_back(tensor, std::move(value));
   }
 
+  if (tensorCount > 0 && firstDataOffset != offset) {
+    return malformed("tensor data");
+  }
+
   // check missing keys
   for (const auto& [name, tensor] : name2tensor) {
     if (!fileKeys.count(name)) {
-- 
2.43.0


From fdff369ad014140a197bd9e2d3383090c3924921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:54 +0000
Subject: [PATCH 051/105] fix: saving reports write errors and never leaves a
 partial file in place of the model

---
 src/Serializer.cpp | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/src/Serializer.cpp b/src/Serializer.cpp
index 2f743c1..4fec3e8 100644
--- a/src/Serializer.cpp
+++ b/src/Serializer.cpp
@@ -7,7 +7,11 @@
 #include "Serializer.h"
 
 #include <cstring>
+#include <filesystem>
 #include <fstream>
+#include <random>
+#include <string>
+#include <system_error>
 #include <vector>
 
 #include "Utils/Logger.h"
@@ -19,7 +23,24 @@ namespace tinytorch {
 bool Serializer::save(nn::Module& module, const std::string& path) {
   auto namedStates = module.namedStates();
 
-  std::ofstream ofs(path, std::ios::binary);
+  // write next to the target and rename, so that the target is always a complete file;
+  // devices and pipes are written directly
+  std::error_code ec;
+  auto target = std::filesystem::path(path);
+  if (std::filesystem::is_symlink(target, ec)) {
+    auto resolved = std::filesystem::weakly_canonical(target, ec);
+    if (!ec) {
+      target = resolved;
+    }
+  }
+  auto status = std::filesystem::status(target, ec);
+  bool replace = !std::filesystem::exists(status) || std::filesystem::is_regular_file(status);
+  auto output = target;
+  if (replace) {
+    output += "." + std::to_string(std::random_device()()) + ".tmp";
+  }
+
+  std::ofstream ofs(output, std::ios::binary);
   if (!ofs.is_open()) {
     LOGE("Error open file: %s", path.c_str());
     return false;
@@ -75,7 +96,18 @@ bool Serializer::save(nn::Module& module, const std::string& path) {
   }
 
   ofs.close();
-  return true;
+  bool success = ofs.good();
+  if (success && replace) {
+    std::filesystem::rename(output, target, ec);
+    success = !ec;
+  }
+  if (!success) {
+    LOGE("Error write file: %s", path.c_str());
+    if (replace) {
+      std::filesystem::remove(output, ec);
+    }
+  }
+  return success;
 }
 
 bool Serializer::load(nn::Module& module, const std::string& path, bool strict) {
-- 
2.43.0


From e66cb032d1697804e6ea9aaeca69f21ad7a7609d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:13 +0000
Subject: [PATCH 052/105] fix: loading compares the whole element-type field,
 not its low byte

---
 src/Serializer.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/Serializer.cpp b/src/Serializer.cpp
index 4fec3e8..16037d3 100644
--- a/src/Serializer.cpp
+++ b/src/Serializer.cpp
@@ -216,8 +216,7 @@ bool Serializer::load(nn::Module& module, const std::string& path, bool strict)
     }
 
     // check dtype
-    auto dtype = static_cast<DType>(header.dtype);
-    if (dtype != tensor->dtype()) {
+    if (header.dtype != static_cast<uint64_t>(tensor->dtype())) {
       LOGE("dtype not equal for tensor: %s", name.c_str());
       success = false;
       continue;
-- 
2.43.0


From d837b4dd83877a0844b465011541a8c3de73df9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:07 +0000
Subject: [PATCH 053/105] fix: random operations advance the shared generator
 instead of a copy of it

---
 src/Operation/OpFillingCpu.h  | 6 +++---
 src/Operation/OpNNLayerCpu.h  | 2 +-
 src/Operation/OpSamplingCpu.h | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/Operation/OpFillingCpu.h b/src/Operation/OpFillingCpu.h
index f64bc75..44d7941 100644
--- a/src/Operation/OpFillingCpu.h
+++ b/src/Operation/OpFillingCpu.h
@@ -79,7 +79,7 @@ template <typename T>
 void fillOpRandUniformCpuImpl(Tensor& self, float min, float max) {
   self.copyOnWrite();
   auto* selfPtr = self.dataPtr<T>();
-  auto generator = RandomGeneratorCPU::getGenerator();
+  auto& generator = RandomGeneratorCPU::getGenerator();
   std::uniform_real_distribution distribution(min, max);
   for (int64_t i = 0; i < self.numel(); i++) {
     selfPtr[i] = static_cast<T>(distribution(generator));
@@ -90,7 +90,7 @@ template <typename T>
 void fillOpRandNormalCpuImpl(Tensor& self, float mean, float stddev) {
   self.copyOnWrite();
   auto* selfPtr = self.dataPtr<T>();
-  auto generator = RandomGeneratorCPU::getGenerator();
+  auto& generator = RandomGeneratorCPU::getGenerator();
   std::normal_distribution distribution(mean, stddev);
   for (int64_t i = 0; i < self.numel(); i++) {
     selfPtr[i] = static_cast<T>(distribution(generator));
@@ -101,7 +101,7 @@ template <typename T>
 void fillOpRandBernoulliCpuImpl(Tensor& self, float p) {
   self.copyOnWrite();
   auto* selfPtr = self.dataPtr<T>();
-  auto generator = RandomGeneratorCPU::getGenerator();
+  auto& generator = RandomGeneratorCPU::getGenerator();
   std::bernoulli_distribution distribution(p);
   for (int64_t i = 0; i < self.numel(); i++) {
     selfPtr[i] = static_cast<T>(distribution(generator));
diff --git a/src/Operation/OpNNLayerCpu.h b/src/Operation/OpNNLayerCpu.h
index c72ec46..bd35e01 100644
--- a/src/Operation/OpNNLayerCpu.h
+++ b/src/Operation/OpNNLayerCpu.h
@@ -158,7 +158,7 @@ Tensor dropoutOpCpuImpl(const Tensor& self, float p) {
   Tensor out(self.shape(), self.options().noGrad());
   const auto* selfPtr = self.dataPtr<T>();
   auto* outPtr = out.dataPtr<T>();
-  auto generator = RandomGeneratorCPU::getGenerator();
+  auto& generator = RandomGeneratorCPU::getGenerator();
   std::bernoulli_distribution distribution(p);
   for (int64_t i = 0; i < self.numel(); i++) {
     // nothing is kept when p is 0
diff --git a/src/Operation/OpSamplingCpu.h b/src/Operation/OpSamplingCpu.h
index 13023a2..9f5d8c2 100644
--- a/src/Operation/OpSamplingCpu.h
+++ b/src/Operation/OpSamplingCpu.h
@@ -88,7 +88,7 @@ Tensor multinomialOpCpuImpl(const Tensor& self, int64_t numSamples, bool replace
   const T* selfPtr = self.dataPtr<T>();
   auto* retPtr = ret.dataPtr<int64_t>();
 
-  auto generator = RandomGeneratorCPU::getGenerator();
+  auto& generator = RandomGeneratorCPU::getGenerator();
   std::uniform_real_distribution<float> dist(0.f, 1.f);
 
   for (int64_t b = 0; b < batch; b++) {
-- 
2.43.0


From 478982b77c07079e409fab4c6fa51c0eafb3cc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:07 +0000
Subject: [PATCH 054/105] fix: different seeds give different random streams

---
 src/Utils/RandomGenerator.cpp | 2 +-
 src/Utils/RandomGenerator.h   | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/Utils/RandomGenerator.cpp b/src/Utils/RandomGenerator.cpp
index 82a37d1..fdf561c 100644
--- a/src/Utils/RandomGenerator.cpp
+++ b/src/Utils/RandomGenerator.cpp
@@ -11,7 +11,7 @@ namespace tinytorch {
 static std::random_device _r;
 
 std::optional<unsigned long> RandomGeneratorCPU::seed_;
-std::default_random_engine RandomGeneratorCPU::randomEngine_(_r());
+RandomGeneratorCPU::Engine RandomGeneratorCPU::randomEngine_(_r());
 
 unsigned long RandomGeneratorCUDA::seed_ = _r();
 unsigned long RandomGeneratorCUDA::sequence_ = 0;
diff --git a/src/Utils/RandomGenerator.h b/src/Utils/RandomGenerator.h
index 4e19f92..935b609 100644
--- a/src/Utils/RandomGenerator.h
+++ b/src/Utils/RandomGenerator.h
@@ -13,11 +13,14 @@ namespace tinytorch {
 
 class RandomGeneratorCPU {
  public:
+  // 64 bits of seed: std::default_random_engine maps different seeds (0 and 1) to one stream
+  using Engine = std::mt19937_64;
+
   static void setSeed(const unsigned long seed) {
     seed_ = seed;
     randomEngine_.seed(seed);
   }
-  static std::default_random_engine& getGenerator() {
+  static Engine& getGenerator() {
     if (!seed_.has_value()) {
       std::random_device r;
       randomEngine_.seed(r());
@@ -27,7 +30,7 @@ class RandomGeneratorCPU {
 
  private:
   static std::optional<unsigned long> seed_;
-  static std::default_random_engine randomEngine_;
+  static Engine randomEngine_;
 };
 
 class RandomGeneratorCUDA {
-- 
2.43.0


From d234be70b172fce830b1a8d670318924e39af8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:07 +0000
Subject: [PATCH 055/105] fix: samplers do not reset the shared random stream
 and shuffle differently in every epoch

---
 src/Data/Sampler.h                     | 4 ++--
 src/Distributed/DistributedSampler.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Data/Sampler.h b/src/Data/Sampler.h
index 8ee1d47..cd86141 100644
--- a/src/Data/Sampler.h
+++ b/src/Data/Sampler.h
@@ -53,8 +53,8 @@ class RandomSampler : public Sampler {
     indices_.resize(datasetSize_);
     std::iota(indices_.begin(), indices_.end(), 0);
 
-    auto& gen = RandomGeneratorCPU::getGenerator();
-    gen.seed(static_cast<unsigned int>(seed_ + epoch_));
+    // a generator of its own: the shared stream is left alone
+    RandomGeneratorCPU::Engine gen(seed_ + epoch_);
     std::shuffle(indices_.begin(), indices_.end(), gen);
   }
 
diff --git a/src/Distributed/DistributedSampler.cpp b/src/Distributed/DistributedSampler.cpp
index 8963521..63c41dd 100644
--- a/src/Distributed/DistributedSampler.cpp
+++ b/src/Distributed/DistributedSampler.cpp
@@ -41,8 +41,8 @@ void DistributedSampler::generateIndices() {
   std::iota(allIndices.begin(), allIndices.end(), 0);
 
   if (shuffle_) {
-    auto& gen = RandomGeneratorCPU::getGenerator();
-    gen.seed(static_cast<unsigned int>(seed_ + epoch_));
+    // a generator of its own: the shared stream is left alone
+    RandomGeneratorCPU::Engine gen(seed_ + epoch_);
     std::shuffle(allIndices.begin(), allIndices.end(), gen);
   }
 
-- 
2.43.0


From e5abdfc05277717106e68b708a88037ff59a4ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:07 +0000
Subject: [PATCH 056/105] fix: batch count of large datasets is exact

---
 src/Data/DataLoader.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Data/DataLoader.h b/src/Data/DataLoader.h
index f0b7be8..f946d47 100644
--- a/src/Data/DataLoader.h
+++ b/src/Data/DataLoader.h
@@ -31,7 +31,7 @@ class DataLoader {
     if (dropLast) {
       batchCnt_ = indices_.size() / batchSize;
     } else {
-      batchCnt_ = std::ceil(static_cast<float>(indices_.size()) * 1.0f / static_cast<float>(batchSize));
+      batchCnt_ = indices_.size() / batchSize + (indices_.size() % batchSize != 0 ? 1 : 0);
     }
   }
 
-- 
2.43.0


From f16d4d605ed44a14e5b8f1a87e61851ff28b0f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:20 +0000
Subject: [PATCH 057/105] fix: a data loader follows its sampler into a new
 epoch

---
 src/Data/DataLoader.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/Data/DataLoader.h b/src/Data/DataLoader.h
index f946d47..7540629 100644
--- a/src/Data/DataLoader.h
+++ b/src/Data/DataLoader.h
@@ -17,7 +17,7 @@ class DataLoader {
  public:
   DataLoader(const std::shared_ptr<Dataset>& dataset, size_t batchSize,
              const std::shared_ptr<Sampler>& sampler = nullptr, bool shuffle = true, bool dropLast = false)
-      : dataset_(dataset), batchSize_(batchSize) {
+      : dataset_(dataset), sampler_(sampler), batchSize_(batchSize) {
     if (sampler) {
       indices_ = sampler->indices();
     } else {
@@ -40,7 +40,12 @@ class DataLoader {
 
   class Iterator {
    public:
-    Iterator(const DataLoader& loader, size_t startIdx) : loader_(loader), batchIdx(startIdx) {}
+    Iterator(const DataLoader& loader, size_t startIdx) : loader_(loader), batchIdx(startIdx) {
+      // the sampler's order of the current epoch, fixed for this iteration
+      if (loader.sampler_) {
+        indices_ = loader.sampler_->indices();
+      }
+    }
     bool operator!=(const Iterator& other) const { return batchIdx != other.batchIdx; }
     Iterator& operator++() {
       batchIdx++;
@@ -48,10 +53,11 @@ class DataLoader {
     }
 
     std::tuple<size_t, std::vector<Tensor>> operator*() const {
+      const auto& indices = loader_.sampler_ ? indices_ : loader_.indices_;
       std::vector<std::vector<Tensor>> itemList;
       for (size_t i = batchIdx * loader_.batchSize_;
-           i < batchIdx * loader_.batchSize_ + loader_.batchSize_ && i < loader_.indices_.size(); i++) {
-        auto item = loader_.dataset_->getItem(loader_.indices_[i]);
+           i < batchIdx * loader_.batchSize_ + loader_.batchSize_ && i < indices.size(); i++) {
+        auto item = loader_.dataset_->getItem(indices[i]);
         itemList.resize(item.size());
         for (size_t j = 0; j < item.size(); j++) {
           itemList[j].emplace_back(item[j]);
@@ -68,6 +74,7 @@ class DataLoader {
    private:
     const DataLoader& loader_;
     size_t batchIdx;
+    std::vector<size_t> indices_;
   };
 
   Iterator begin() const { return {*this, 0}; }
@@ -76,6 +83,7 @@ class DataLoader {
 
  private:
   std::shared_ptr<Dataset> dataset_;
+  std::shared_ptr<Sampler> sampler_;
   size_t batchSize_;
   size_t batchCnt_;
   std::vector<size_t> indices_;
-- 
2.43.0


From 2ecafcc68ae4bdb837ba809116d8130c7a149699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:38 +0000
Subject: [PATCH 058/105] fix: truncated MNIST files are rejected instead of
 yielding uninitialised samples

---
 src/Data/DatasetMNIST.cpp | 50 ++++++++++++++++++++++++++++-----------
 1 file changed, 36 insertions(+), 14 deletions(-)

diff --git a/src/Data/DatasetMNIST.cpp b/src/Data/DatasetMNIST.cpp
index 5c814d0..3b3ecca 100644
--- a/src/Data/DatasetMNIST.cpp
+++ b/src/Data/DatasetMNIST.cpp
@@ -49,21 +49,32 @@ void DatasetMNIST::loadImages(const std::string& path) {
     LOGE("failed to load images from %s", path.c_str());
     return;
   }
-  char p[4];
+  char p[16];
 
-  ifs.read(p, 4);
+  if (!ifs.read(p, 16)) {
+    LOGE("truncated image file %s", path.c_str());
+    return;
+  }
   auto magicNumber = toInt32(p);
   ASSERT(magicNumber == 0x803);
 
-  ifs.read(p, 4);
-  auto size = toInt32(p);
+  auto size = toInt32(p + 4);
+  auto height = toInt32(p + 8);
+  auto width = toInt32(p + 12);
+
+  // every image must be in the file
+  ifs.seekg(0, std::ios::end);
+  auto available = static_cast<int64_t>(ifs.tellg()) - 16;
+  ifs.seekg(16);
+  constexpr int32_t maxExtent = 1 << 15;
+  if (size < 0 || height <= 0 || height > maxExtent || width <= 0 || width > maxExtent ||
+      size > available / (height * width)) {
+    LOGE("invalid image file %s", path.c_str());
+    return;
+  }
   images_.resize(size);
-
-  ifs.read(p, 4);
-  height_ = toInt32(p);
-
-  ifs.read(p, 4);
-  width_ = toInt32(p);
+  height_ = height;
+  width_ = width;
 
   char* tmp = new char[height_ * width_];
   for (int32_t i = 0; i < size; ++i) {
@@ -86,14 +97,25 @@ void DatasetMNIST::loadLabels(const std::string& path) {
     LOGE("failed to load labels from %s", path.c_str());
     return;
   }
-  char p[4];
+  char p[8];
 
-  ifs.read(p, 4);
+  if (!ifs.read(p, 8)) {
+    LOGE("truncated label file %s", path.c_str());
+    return;
+  }
   auto magicNumber = toInt32(p);
   ASSERT(magicNumber == 0x801);
 
-  ifs.read(p, 4);
-  auto size = toInt32(p);
+  auto size = toInt32(p + 4);
+
+  // every label must be in the file
+  ifs.seekg(0, std::ios::end);
+  auto available = static_cast<int64_t>(ifs.tellg()) - 8;
+  ifs.seekg(8);
+  if (size < 0 || size > available) {
+    LOGE("invalid label file %s", path.c_str());
+    return;
+  }
   labels_.resize(size);
   for (int32_t i = 0; i < size; ++i) {
     ifs.read(p, 1);
-- 
2.43.0


From e404bdbe857cb76f94931a16e6721976f83e25ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:34 +0000
Subject: [PATCH 059/105] fix: small vector operations may be given a reference
 to one of their own elements

---
 src/Utils/VectorUtils.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/Utils/VectorUtils.h b/src/Utils/VectorUtils.h
index c02051c..8c7743c 100644
--- a/src/Utils/VectorUtils.h
+++ b/src/Utils/VectorUtils.h
@@ -122,9 +122,13 @@ class SmallVector {
   template <typename... Args>
   void pushBack(Args&&... args) {
     if (size_ == capacity_) {
+      // the arguments may refer to an element, which growing destroys
+      T value(std::forward<Args>(args)...);
       grow();
+      new (data_ + size_) T(std::move(value));
+    } else {
+      new (data_ + size_) T(std::forward<Args>(args)...);
     }
-    new (data_ + size_) T(std::forward<Args>(args)...);
     size_++;
   }
 
@@ -153,14 +157,18 @@ class SmallVector {
     if (size < size_) {
       std::destroy(data_ + size, data_ + size_);
     } else if (size > size_) {
+      // value may refer to an element
+      const T copy(value);
       reserve(size);
-      std::uninitialized_fill_n(data_ + size_, size - size_, value);
+      std::uninitialized_fill_n(data_ + size_, size - size_, copy);
     }
     size_ = size;
   }
 
   T* insert(T* pos, const T& value) {
     size_type idx = pos - data_;
+    // value may refer to an element, which is about to move
+    T copy(value);
     if (size_ == capacity_) {
       grow();
     }
@@ -169,9 +177,9 @@ class SmallVector {
       for (size_type i = size_ - 1; i > idx; i--) {
         data_[i] = std::move(data_[i - 1]);
       }
-      data_[idx] = value;
+      data_[idx] = std::move(copy);
     } else {
-      new (data_ + size_) T(value);
+      new (data_ + size_) T(std::move(copy));
     }
     size_++;
     return data_ + idx;
-- 
2.43.0


From 5f3062c3d427d489a8406cff1a21fab3f9a9d853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:02 +0000
Subject: [PATCH 060/105] fix: distributed sampler counts large datasets
 exactly and pads when there are more replicas than samples

---
 src/Distributed/DistributedSampler.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/Distributed/DistributedSampler.cpp b/src/Distributed/DistributedSampler.cpp
index 63c41dd..8b5e119 100644
--- a/src/Distributed/DistributedSampler.cpp
+++ b/src/Distributed/DistributedSampler.cpp
@@ -26,11 +26,12 @@ DistributedSampler::DistributedSampler(size_t datasetSize, std::optional<size_t>
   } else {
     rank_ = dpg->getRank();
   }
+  ASSERT(rank_ < numReplicas_);
 
   if (dropLast_) {
     numSamples_ = datasetSize_ / numReplicas_;
   } else {
-    numSamples_ = std::ceil(static_cast<float>(datasetSize_) * 1.0f / static_cast<float>(numReplicas_));
+    numSamples_ = datasetSize_ / numReplicas_ + (datasetSize_ % numReplicas_ != 0 ? 1 : 0);
   }
   totalSize_ = numSamples_ * numReplicas_;
   generateIndices();
@@ -47,9 +48,10 @@ void DistributedSampler::generateIndices() {
   }
 
   if (!dropLast_) {
-    if (allIndices.size() < totalSize_) {
-      allIndices.insert(allIndices.end(), allIndices.begin(),
-                        allIndices.begin() + static_cast<int64_t>(totalSize_ - allIndices.size()));
+    // pad with samples from the start, several times over when there are more replicas than samples
+    allIndices.resize(totalSize_);
+    for (size_t i = datasetSize_; i < totalSize_; i++) {
+      allIndices[i] = allIndices[i - datasetSize_];
     }
   } else {
     allIndices.resize(totalSize_);
-- 
2.43.0


From 9e77f487ac30ac41e70899e435a5976342e22dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:57 +0000
Subject: [PATCH 061/105] fix: work handles keep their first outcome and a
 timed-out wait returns false

---
 src/Distributed/Work.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Distributed/Work.h b/src/Distributed/Work.h
index 3eb4cf0..764c564 100644
--- a/src/Distributed/Work.h
+++ b/src/Distributed/Work.h
@@ -87,7 +87,7 @@ class Work {
       cv_.wait_for(lock, timeout, [&] { return completed_; });
       if (!completed_) {
         LOGE("Work: Operation timed out!");
-        ASSERT(false);
+        return false;
       }
     }
     return exception_.empty();
@@ -102,6 +102,9 @@ class Work {
  protected:
   void finish(std::string exception) {
     std::unique_lock<std::mutex> lock(mutex_);
+    if (completed_) {
+      return;  // the first outcome stays
+    }
     completed_ = true;
     exception_ = std::move(exception);
     lock.unlock();
-- 
2.43.0


From c4cbb745983aa0f36e48bf91e19e475ca2df567e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:21 +0000
Subject: [PATCH 062/105] fix: TCP store client calls observe their timeout,
 survive interrupted calls and drop a connection left mid-message

---
 src/Distributed/TCPStore.cpp | 189 +++++++++++++++++++++++++----------
 1 file changed, 136 insertions(+), 53 deletions(-)

diff --git a/src/Distributed/TCPStore.cpp b/src/Distributed/TCPStore.cpp
index f5f017e..43b352b 100644
--- a/src/Distributed/TCPStore.cpp
+++ b/src/Distributed/TCPStore.cpp
@@ -10,6 +10,7 @@
 #include <fcntl.h>
 #include <netdb.h>
 #include <netinet/in.h>
+#include <poll.h>
 #include <sys/select.h>
 #include <sys/socket.h>
 #include <unistd.h>
@@ -21,6 +22,7 @@
 #include <csignal>
 #include <cstring>
 #include <mutex>
+#include <optional>
 #include <thread>
 #include <unordered_map>
 #include <unordered_set>
@@ -55,25 +57,63 @@ static void setupSignalHandlers() {
   signal(SIGPIPE, SIG_IGN);
 }
 
-static bool sendBytes(socket_t socket, const void* data, size_t size) {
+// point in time after which a network operation is given up, empty: never
+typedef std::optional<std::chrono::steady_clock::time_point> Deadline;
+
+static Deadline deadlineAfter(const std::chrono::milliseconds& timeout) {
+  if (timeout == Store::kNoTimeout) {
+    return std::nullopt;
+  }
+  return std::chrono::steady_clock::now() + timeout;
+}
+
+// wait until the socket is ready for events, or broken (the next operation reports how)
+static bool waitReady(socket_t socket, short events, const Deadline& deadline) {
+  while (true) {
+    int timeoutMs = -1;
+    if (deadline) {
+      auto remaining = std::chrono::ceil<std::chrono::milliseconds>(*deadline - std::chrono::steady_clock::now());
+      timeoutMs = static_cast<int>(std::clamp<int64_t>(remaining.count(), 0, INT32_MAX));
+    }
+
+    pollfd pfd{socket, events, 0};
+    int ready = poll(&pfd, 1, timeoutMs);
+    if (ready > 0) {
+      return true;
+    }
+    if (ready < 0 && errno != EINTR) {
+      LOGE("TCPStore: Poll error: %d", errno);
+      return false;
+    }
+    if (deadline && std::chrono::steady_clock::now() >= *deadline) {
+      LOGE("TCPStore: Network operation timed out");
+      return false;
+    }
+  }
+}
+
+static bool sendBytes(socket_t socket, const void* data, size_t size, const Deadline& deadline = std::nullopt) {
   const char* ptr = static_cast<const char*>(data);
   size_t remaining = size;
 
   while (remaining > 0) {
-    ssize_t sent = send(socket, ptr, remaining, MSG_NOSIGNAL);
+    if (!waitReady(socket, POLLOUT, deadline)) {
+      return false;
+    }
+
+    ssize_t sent = send(socket, ptr, remaining, MSG_NOSIGNAL | MSG_DONTWAIT);
 
     if (sent < 0) {
       int error = errno;
+      if (error == EINTR || error == EAGAIN || error == EWOULDBLOCK) {
+        continue;
+      }
       if (error == EPIPE || error == ECONNRESET || error == ECONNABORTED) {
         LOGE("TCPStore: Client disconnected (EPIPE/ECONNRESET/ECONNABORTED)");
-        return false;
-      } else if (error == EAGAIN) {
-        std::this_thread::sleep_for(std::chrono::milliseconds(1));
-        continue;
       } else {
         LOGE("TCPStore: Send error: %d", error);
-        return false;
       }
+      return false;
     } else if (sent == 0) {
       return false;
     }
@@ -84,28 +124,28 @@ static bool sendBytes(socket_t socket, const void* data, size_t size) {
   return true;
 }
 
-static bool recvBytes(socket_t socket, void* data, size_t size) {
+static bool recvBytes(socket_t socket, void* data, size_t size, const Deadline& deadline = std::nullopt) {
   char* ptr = static_cast<char*>(data);
   size_t remaining = size;
 
   while (remaining > 0) {
-    ssize_t received = recv(socket, ptr, remaining, 0);
+    if (!waitReady(socket, POLLIN, deadline)) {
+      return false;
+    }
+
+    ssize_t received = recv(socket, ptr, remaining, MSG_DONTWAIT);
 
     if (received < 0) {
       int error = errno;
+      if (error == EINTR || error == EAGAIN || error == EWOULDBLOCK) {
+        continue;
+      }
       if (error == ECONNRESET || error == EPIPE || error == ECONNABORTED) {
         LOGE("TCPStore: Client disconnected during recv");
-        return false;
-      } else if (error == EAGAIN) {
-        std::this_thread::sleep_for(std::chrono::milliseconds(1));
-        continue;
-      } else if (error == ETIMEDOUT) {
-        LOGE("TCPStore: Recv timeout");
-        return false;
       } else {
         LOGE("TCPStore: Recv error: %d", error);
-        return false;
       }
+      return false;
     } else if (received == 0) {
       return false;
     }
@@ -192,10 +232,16 @@ class TCPStore::ClientImpl {
   std::uint16_t getPort() const noexcept { return port_; }
 
  private:
+  // a failed exchange leaves the stream between two messages, so the connection is given up
+  bool sendBytes(const void* data, size_t size) const;
+  bool recvBytes(void* data, size_t size) const;
+  void disconnect() const;
+
   std::string host_;
   uint16_t port_;
   std::chrono::milliseconds timeout_;
-  socket_t clientSock_;
+  mutable socket_t clientSock_;
+  mutable detail::Deadline deadline_;  // of the current request
 
   int maxRetries = 10;
   int retryDelayMs = 1000;
@@ -407,30 +453,59 @@ bool TCPStore::ClientImpl::connect() {
   return true;
 }
 
+bool TCPStore::ClientImpl::sendBytes(const void* data, size_t size) const {
+  if (clientSock_ == INVALID_SOCKET) {
+    return false;
+  }
+  if (!detail::sendBytes(clientSock_, data, size, deadline_)) {
+    disconnect();
+    return false;
+  }
+  return true;
+}
+
+bool TCPStore::ClientImpl::recvBytes(void* data, size_t size) const {
+  if (clientSock_ == INVALID_SOCKET) {
+    return false;
+  }
+  if (!detail::recvBytes(clientSock_, data, size, deadline_)) {
+    disconnect();
+    return false;
+  }
+  return true;
+}
+
+void TCPStore::ClientImpl::disconnect() const {
+  closesocket(clientSock_);
+  clientSock_ = INVALID_SOCKET;
+  isRegistered_.store(false);
+}
+
 bool TCPStore::ClientImpl::set(const std::string& key, const std::vector<uint8_t>& value) const {
   detail::TCPStoreCommandType cmd = detail::TCPStoreCommandType::CMD_SET;
 
-  if (!detail::sendBytes(clientSock_, &cmd, sizeof(cmd))) {
+  deadline_ = detail::deadlineAfter(timeout_);
+  if (!sendBytes(&cmd, sizeof(cmd))) {
     LOGE("TCPStore: Failed to send SET command");
     return false;
   }
 
   uint64_t keySize = key.size();
-  if (!detail::sendBytes(clientSock_, &keySize, sizeof(keySize)) ||
-      !detail::sendBytes(clientSock_, key.data(), keySize)) {
+  if (!sendBytes(&keySize, sizeof(keySize)) ||
+      !sendBytes(key.data(), keySize)) {
     LOGE("TCPStore: Failed to send key for SET command");
     return false;
   }
 
   uint64_t valueSize = value.size();
-  if (!detail::sendBytes(clientSock_, &valueSize, sizeof(valueSize)) ||
-      !detail::sendBytes(clientSock_, value.data(), valueSize)) {
+  if (!sendBytes(&valueSize, sizeof(valueSize)) ||
+      !sendBytes(value.data(), valueSize)) {
     LOGE("TCPStore: Failed to send value for SET command");
     return false;
   }
 
   uint8_t confirmation;
-  if (!detail::recvBytes(clientSock_, &confirmation, sizeof(confirmation)) || confirmation != 1) {
+  if (!recvBytes(&confirmation, sizeof(confirmation)) || confirmation != 1) {
     LOGE("TCPStore: Failed to receive confirmation for SET command");
     return false;
   }
@@ -441,26 +516,27 @@ bool TCPStore::ClientImpl::set(const std::string& key, const std::vector<uint8_t
 bool TCPStore::ClientImpl::get(const std::string& key, std::vector<uint8_t>& value) const {
   detail::TCPStoreCommandType cmd = detail::TCPStoreCommandType::CMD_GET;
 
-  if (!detail::sendBytes(clientSock_, &cmd, sizeof(cmd))) {
+  deadline_ = detail::deadlineAfter(timeout_);
+  if (!sendBytes(&cmd, sizeof(cmd))) {
     LOGE("TCPStore: Failed to send GET command");
     return false;
   }
 
   uint64_t keySize = key.size();
-  if (!detail::sendBytes(clientSock_, &keySize, sizeof(keySize)) ||
-      !detail::sendBytes(clientSock_, key.data(), keySize)) {
+  if (!sendBytes(&keySize, sizeof(keySize)) ||
+      !sendBytes(key.data(), keySize)) {
     LOGE("TCPStore: Failed to send key for GET command");
     return false;
   }
 
   uint64_t valueSize;
-  if (!detail::recvBytes(clientSock_, &valueSize, sizeof(valueSize))) {
+  if (!recvBytes(&valueSize, sizeof(valueSize))) {
     LOGE("TCPStore: Failed to receive value size for GET command");
     return false;
   }
 
   value.resize(valueSize);
-  if (valueSize > 0 && !detail::recvBytes(clientSock_, value.data(), valueSize)) {
+  if (valueSize > 0 && !recvBytes(value.data(), valueSize)) {
     LOGE("TCPStore: Failed to receive value for GET command");
     return false;
   }
@@ -471,24 +547,25 @@ bool TCPStore::ClientImpl::get(const std::string& key, std::vector<uint8_t>& val
 bool TCPStore::ClientImpl::add(const std::string& key, int64_t addValue, int64_t& newValue) const {
   detail::TCPStoreCommandType cmd = detail::TCPStoreCommandType::CMD_ADD;
 
-  if (!detail::sendBytes(clientSock_, &cmd, sizeof(cmd))) {
+  deadline_ = detail::deadlineAfter(timeout_);
+  if (!sendBytes(&cmd, sizeof(cmd))) {
     LOGE("TCPStore: Failed to send ADD command");
     return false;
   }
 
   uint64_t keySize = key.size();
-  if (!detail::sendBytes(clientSock_, &keySize, sizeof(keySize)) ||
-      !detail::sendBytes(clientSock_, key.data(), keySize)) {
+  if (!sendBytes(&keySize, sizeof(keySize)) ||
+      !sendBytes(key.data(), keySize)) {
     LOGE("TCPStore: Failed to send key for ADD command");
     return false;
   }
 
-  if (!detail::sendBytes(clientSock_, &addValue, sizeof(addValue))) {
+  if (!sendBytes(&addValue, sizeof(addValue))) {
     LOGE("TCPStore: Failed to send value for ADD command");
     return false;
   }
 
-  if (!detail::recvBytes(clientSock_, &newValue, sizeof(newValue))) {
+  if (!recvBytes(&newValue, sizeof(newValue))) {
     LOGE("TCPStore: Failed to receive new value for ADD command");
     return false;
   }
@@ -499,20 +576,21 @@ bool TCPStore::ClientImpl::add(const std::string& key, int64_t addValue, int64_t
 bool TCPStore::ClientImpl::deleteKey(const std::string& key) const {
   detail::TCPStoreCommandType cmd = detail::TCPStoreCommandType::CMD_DELETE_KEY;
 
-  if (!detail::sendBytes(clientSock_, &cmd, sizeof(cmd))) {
+  deadline_ = detail::deadlineAfter(timeout_);
+  if (!sendBytes(&cmd, sizeof(cmd))) {
     LOGE("TCPStore: Failed to send DELETE command");
     return false;
   }
 
   uint64_t keySize = key.size();
-  if (!detail::sendBytes(clientSock_, &keySize, sizeof(keySize)) ||
-      !detail::sendBytes(clientSock_, key.data(), keySize)) {
+  if (!sendBytes(&keySize, sizeof(keySize)) ||
+      !sendBytes(key.data(), keySize)) {
     LOGE("TCPStore: Failed to send key for DELETE command");
     return false;
   }
 
   uint8_t result;
-  if (!detail::recvBytes(clientSock_, &result, sizeof(result))) {
+  if (!recvBytes(&result, sizeof(result))) {
     LOGE("TCPStore: Failed to receive result for DELETE command");
     return false;
   }
@@ -523,28 +601,29 @@ bool TCPStore::ClientImpl::deleteKey(const std::string& key) const {
 bool TCPStore::ClientImpl::check(const std::vector<std::string>& keys) const {
   detail::TCPStoreCommandType cmd = detail::TCPStoreCommandType::CMD_CHECK;
 
-  if (!detail::sendBytes(clientSock_, &cmd, sizeof(cmd))) {
+  deadline_ = detail::deadlineAfter(timeout_);
+  if (!sendBytes(&cmd, sizeof(cmd))) {
     LOGE("TCPStore: Failed to send CHECK command");
     return false;
   }
 
   uint64_t numKeys = keys.size();
-  if (!detail::sendBytes(clientSock_, &numKeys, sizeof(numKeys))) {
+  if (!sendBytes(&numKeys, sizeof(numKeys))) {
     LOGE("TCPStore: Failed to send number of keys for CHECK command");
     return false;
   }
 
   for (const auto& key : keys) {
     uint64_t keySize = key.size();
-    if (!detail::sendBytes(clientSock_, &keySize, sizeof(keySize)) ||
-        !detail::sendBytes(clientSock_, key.data(), keySize)) {
+    if (!sendBytes(&keySize, sizeof(keySize)) ||
+        !sendBytes(key.data(), keySize)) {
       LOGE("TCPStore: Failed to send key for CHECK command");
       return false;
     }
   }
 
   uint8_t result;
-  if (!detail::recvBytes(clientSock_, &result, sizeof(result))) {
+  if (!recvBytes(&result, sizeof(result))) {
     LOGE("TCPStore: Failed to receive result for CHECK command");
     return false;
   }
@@ -555,12 +634,13 @@ bool TCPStore::ClientImpl::check(const std::vector<std::string>& keys) const {
 bool TCPStore::ClientImpl::getNumKeys(int64_t& numKeys) const {
   detail::TCPStoreCommandType cmd = detail::TCPStoreCommandType::CMD_NUM_KEYS;
 
-  if (!detail::sendBytes(clientSock_, &cmd, sizeof(cmd))) {
+  deadline_ = detail::deadlineAfter(timeout_);
+  if (!sendBytes(&cmd, sizeof(cmd))) {
     LOGE("TCPStore: Failed to send NUM_KEYS command");
     return false;
   }
 
-  if (!detail::recvBytes(clientSock_, &numKeys, sizeof(numKeys))) {
+  if (!recvBytes(&numKeys, sizeof(numKeys))) {
     LOGE("TCPStore: Failed to receive number of keys");
     return false;
   }
@@ -571,28 +651,29 @@ bool TCPStore::ClientImpl::getNumKeys(int64_t& numKeys) const {
 bool TCPStore::ClientImpl::wait(const std::vector<std::string>& keys) const {
   detail::TCPStoreCommandType cmd = detail::TCPStoreCommandType::CMD_WAIT;
 
-  if (!detail::sendBytes(clientSock_, &cmd, sizeof(cmd))) {
+  deadline_ = detail::deadlineAfter(timeout_);
+  if (!sendBytes(&cmd, sizeof(cmd))) {
     LOGE("TCPStore: Failed to send WAIT command");
     return false;
   }
 
   uint64_t numKeys = keys.size();
-  if (!detail::sendBytes(clientSock_, &numKeys, sizeof(numKeys))) {
+  if (!sendBytes(&numKeys, sizeof(numKeys))) {
     LOGE("TCPStore: Failed to send number of keys for WAIT command");
     return false;
   }
 
   for (const auto& key : keys) {
     uint64_t keySize = key.size();
-    if (!detail::sendBytes(clientSock_, &keySize, sizeof(keySize)) ||
-        !detail::sendBytes(clientSock_, key.data(), keySize)) {
+    if (!sendBytes(&keySize, sizeof(keySize)) ||
+        !sendBytes(key.data(), keySize)) {
       LOGE("TCPStore: Failed to send key for WAIT command");
       return false;
     }
   }
 
   uint8_t result;
-  if (!detail::recvBytes(clientSock_, &result, sizeof(result))) {
+  if (!recvBytes(&result, sizeof(result))) {
     LOGE("TCPStore: Failed to receive result for WAIT command");
     return false;
   }
@@ -602,13 +683,14 @@ bool TCPStore::ClientImpl::wait(const std::vector<std::string>& keys) const {
 
 bool TCPStore::ClientImpl::registerWorker() const {
   detail::TCPStoreCommandType cmd = detail::TCPStoreCommandType::CMD_WORKER_REGISTER;
-  if (!detail::sendBytes(clientSock_, &cmd, sizeof(cmd))) {
+  deadline_ = detail::deadlineAfter(timeout_);
+  if (!sendBytes(&cmd, sizeof(cmd))) {
     LOGE("TCPStore: Failed to send worker registration command");
     return false;
   }
 
   uint8_t confirmation;
-  if (!detail::recvBytes(clientSock_, &confirmation, sizeof(confirmation)) || confirmation != 1) {
+  if (!recvBytes(&confirmation, sizeof(confirmation)) || confirmation != 1) {
     LOGE("TCPStore: Failed to receive worker registration confirmation");
     return false;
   }
@@ -623,7 +705,8 @@ bool TCPStore::ClientImpl::unregisterWorker() const {
   }
 
   detail::TCPStoreCommandType cmd = detail::TCPStoreCommandType::CMD_WORKER_UNREGISTER;
-  if (!detail::sendBytes(clientSock_, &cmd, sizeof(cmd))) {
+  deadline_ = detail::deadlineAfter(timeout_);
+  if (!sendBytes(&cmd, sizeof(cmd))) {
     LOGE("TCPStore: Failed to send worker unregistration command");
     return false;
   }
-- 
2.43.0


From b5e0af29ec57e6eeb2721859463aedbb2a7e359b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:21 +0000
Subject: [PATCH 063/105] fix: TCP store keeps waiters registered until all
 their keys exist

---
 src/Distributed/TCPStore.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/Distributed/TCPStore.cpp b/src/Distributed/TCPStore.cpp
index 43b352b..cce8a86 100644
--- a/src/Distributed/TCPStore.cpp
+++ b/src/Distributed/TCPStore.cpp
@@ -1002,7 +1002,6 @@ bool TCPStore::ServerImpl::handleSetCommand(socket_t socket) {
       for (auto& cv : it->second) {
         cv->notify_all();
       }
-      keyCVs_.erase(it);
     }
   }
 
@@ -1124,7 +1123,6 @@ bool TCPStore::ServerImpl::handleAddCommand(socket_t socket) {
       for (auto& cv : it->second) {
         cv->notify_all();
       }
-      keyCVs_.erase(it);
     }
   }
 
-- 
2.43.0


From 06e5eeb553b88ea286904455686b77bfc59993b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:50 +0000
Subject: [PATCH 064/105] fix: TCP store get and wait observe the caller's
 timeout and keep the connection usable after it

---
 src/Distributed/TCPStore.cpp | 61 +++++++++++++++++++++++++++++++-----
 1 file changed, 53 insertions(+), 8 deletions(-)

diff --git a/src/Distributed/TCPStore.cpp b/src/Distributed/TCPStore.cpp
index cce8a86..accd442 100644
--- a/src/Distributed/TCPStore.cpp
+++ b/src/Distributed/TCPStore.cpp
@@ -52,6 +52,12 @@ enum class TCPStoreCommandType : uint8_t {
   CMD_WORKER_UNREGISTER
 };
 
+// size sent instead of a value when the key did not appear in time
+static constexpr uint64_t kNoValue = UINT64_MAX;
+
+// time a reply may take on top of the timeout the server observes for the caller
+static constexpr auto kReplyGrace = std::chrono::milliseconds(2000);
+
 static void setupSignalHandlers() {
   // ignore SIGPIPE
   signal(SIGPIPE, SIG_IGN);
@@ -236,6 +242,8 @@ class TCPStore::ClientImpl {
   bool sendBytes(const void* data, size_t size) const;
   bool recvBytes(void* data, size_t size) const;
   void disconnect() const;
+  bool sendTimeout() const;
+  detail::Deadline replyDeadline() const;
 
   std::string host_;
   uint16_t port_;
@@ -475,6 +483,16 @@ bool TCPStore::ClientImpl::recvBytes(void* data, size_t size) const {
   return true;
 }
 
+// the server observes the timeout of the caller
+bool TCPStore::ClientImpl::sendTimeout() const {
+  int64_t timeoutMs = timeout_.count();
+  return sendBytes(&timeoutMs, sizeof(timeoutMs));
+}
+
+detail::Deadline TCPStore::ClientImpl::replyDeadline() const {
+  return timeout_ == kNoTimeout ? std::nullopt : detail::deadlineAfter(timeout_ + detail::kReplyGrace);
+}
+
 void TCPStore::ClientImpl::disconnect() const {
   closesocket(clientSock_);
   clientSock_ = INVALID_SOCKET;
@@ -516,7 +534,7 @@ bool TCPStore::ClientImpl::set(const std::string& key, const std::vector<uint8_t
 bool TCPStore::ClientImpl::get(const std::string& key, std::vector<uint8_t>& value) const {
   detail::TCPStoreCommandType cmd = detail::TCPStoreCommandType::CMD_GET;
 
-  deadline_ = detail::deadlineAfter(timeout_);
+  deadline_ = replyDeadline();
   if (!sendBytes(&cmd, sizeof(cmd))) {
     LOGE("TCPStore: Failed to send GET command");
     return false;
@@ -529,12 +547,22 @@ bool TCPStore::ClientImpl::get(const std::string& key, std::vector<uint8_t>& val
     return false;
   }
 
+  if (!sendTimeout()) {
+    LOGE("TCPStore: Failed to send timeout for GET command");
+    return false;
+  }
+
   uint64_t valueSize;
   if (!recvBytes(&valueSize, sizeof(valueSize))) {
     LOGE("TCPStore: Failed to receive value size for GET command");
     return false;
   }
 
+  if (valueSize == detail::kNoValue) {
+    LOGE("TCPStore: Get timeout after %lld ms for key: %s", static_cast<long long>(timeout_.count()), key.c_str());
+    return false;
+  }
+
   value.resize(valueSize);
   if (valueSize > 0 && !recvBytes(value.data(), valueSize)) {
     LOGE("TCPStore: Failed to receive value for GET command");
@@ -651,7 +679,7 @@ bool TCPStore::ClientImpl::getNumKeys(int64_t& numKeys) const {
 bool TCPStore::ClientImpl::wait(const std::vector<std::string>& keys) const {
   detail::TCPStoreCommandType cmd = detail::TCPStoreCommandType::CMD_WAIT;
 
-  deadline_ = detail::deadlineAfter(timeout_);
+  deadline_ = replyDeadline();
   if (!sendBytes(&cmd, sizeof(cmd))) {
     LOGE("TCPStore: Failed to send WAIT command");
     return false;
@@ -672,6 +700,11 @@ bool TCPStore::ClientImpl::wait(const std::vector<std::string>& keys) const {
     }
   }
 
+  if (!sendTimeout()) {
+    LOGE("TCPStore: Failed to send timeout for WAIT command");
+    return false;
+  }
+
   uint8_t result;
   if (!recvBytes(&result, sizeof(result))) {
     LOGE("TCPStore: Failed to receive result for WAIT command");
@@ -1020,6 +1053,11 @@ bool TCPStore::ServerImpl::handleGetCommand(socket_t socket) {
     return false;
   }
 
+  int64_t timeoutMs;
+  if (!detail::recvBytes(socket, &timeoutMs, sizeof(timeoutMs))) {
+    return false;
+  }
+
   std::vector<uint8_t> value;
   std::shared_ptr<std::condition_variable> cv;
   bool success = false;
@@ -1046,8 +1084,8 @@ bool TCPStore::ServerImpl::handleGetCommand(socket_t socket) {
   {
     std::unique_lock<std::mutex> lock(mutex_);
 
-    if (timeout_ != kNoTimeout) {
-      auto waitUntil = std::chrono::steady_clock::now() + timeout_;
+    if (timeoutMs != kNoTimeout.count()) {
+      auto waitUntil = std::chrono::steady_clock::now() + std::chrono::milliseconds(timeoutMs);
       success = cv->wait_until(lock, waitUntil, [this, &key] {
         return shutdownServer_.load() || keyValueStore_.find(key) != keyValueStore_.end();
       });
@@ -1086,8 +1124,10 @@ bool TCPStore::ServerImpl::handleGetCommand(socket_t socket) {
            (valueSize == 0 || detail::sendBytes(socket, value.data(), valueSize));
   }
 
-  LOGE("TCPStore: Get timeout after %lld ms for key: %s", timeout_.count(), key.c_str());
-  return false;
+  if (shutdownServer_.load()) {
+    return false;
+  }
+  return detail::sendBytes(socket, &detail::kNoValue, sizeof(detail::kNoValue));
 }
 
 bool TCPStore::ServerImpl::handleAddCommand(socket_t socket) {
@@ -1182,6 +1222,11 @@ bool TCPStore::ServerImpl::handleWaitCommand(socket_t socket) {
     }
   }
 
+  int64_t timeoutMs;
+  if (!detail::recvBytes(socket, &timeoutMs, sizeof(timeoutMs))) {
+    return false;
+  }
+
   bool success = true;
   std::shared_ptr<std::condition_variable> cv;
   std::vector<std::string> missingKeys;
@@ -1209,8 +1254,8 @@ bool TCPStore::ServerImpl::handleWaitCommand(socket_t socket) {
   {
     std::unique_lock<std::mutex> lock(mutex_);
 
-    if (timeout_ != kNoTimeout) {
-      auto waitUntil = std::chrono::steady_clock::now() + timeout_;
+    if (timeoutMs != kNoTimeout.count()) {
+      auto waitUntil = std::chrono::steady_clock::now() + std::chrono::milliseconds(timeoutMs);
       success = cv->wait_until(lock, waitUntil, [this, &keys] {
         return shutdownServer_.load() || std::all_of(keys.begin(), keys.end(), [this](const auto& key) {
                  return keyValueStore_.find(key) != keyValueStore_.end();
-- 
2.43.0


From 28080ce7d783af5fb76b3880773506a6bddef853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:50 +0000
Subject: [PATCH 065/105] fix: TCP store add on a value that is not a number
 fails instead of ending the server

---
 src/Distributed/TCPStore.cpp | 45 +++++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/src/Distributed/TCPStore.cpp b/src/Distributed/TCPStore.cpp
index accd442..4279be9 100644
--- a/src/Distributed/TCPStore.cpp
+++ b/src/Distributed/TCPStore.cpp
@@ -18,6 +18,7 @@
 #include <algorithm>
 #include <atomic>
 #include <cerrno>
+#include <charconv>
 #include <condition_variable>
 #include <csignal>
 #include <cstring>
@@ -593,6 +594,16 @@ bool TCPStore::ClientImpl::add(const std::string& key, int64_t addValue, int64_t
     return false;
   }
 
+  uint8_t result;
+  if (!recvBytes(&result, sizeof(result))) {
+    LOGE("TCPStore: Failed to receive result for ADD command");
+    return false;
+  }
+  if (result != 1) {
+    LOGE("TCPStore: Value is not a number, key: %s", key.c_str());
+    return false;
+  }
+
   if (!recvBytes(&newValue, sizeof(newValue))) {
     LOGE("TCPStore: Failed to receive new value for ADD command");
     return false;
@@ -1147,26 +1158,38 @@ bool TCPStore::ServerImpl::handleAddCommand(socket_t socket) {
   }
 
   int64_t newValue = addValue;
+  uint8_t result = 1;
   {
     std::lock_guard<std::mutex> lock(mutex_);
-    const auto& value = keyValueStore_[key];
-    if (!value.empty()) {
+    auto valueIt = keyValueStore_.find(key);
+    if (valueIt != keyValueStore_.end() && !valueIt->second.empty()) {
+      const auto& value = valueIt->second;
       auto buf = reinterpret_cast<const char*>(value.data());
-      auto len = value.size();
-      newValue += std::stoll(std::string(buf, len));
+      int64_t oldValue = 0;
+      auto parsed = std::from_chars(buf, buf + value.size(), oldValue);
+      if (parsed.ec != std::errc() || parsed.ptr != buf + value.size()) {
+        result = 0;
+      }
+      newValue += oldValue;
     }
-    auto newValStr = std::to_string(newValue);
-    keyValueStore_[key] = std::vector<uint8_t>(newValStr.begin(), newValStr.end());
 
-    auto it = keyCVs_.find(key);
-    if (it != keyCVs_.end()) {
-      for (auto& cv : it->second) {
-        cv->notify_all();
+    if (result == 1) {
+      auto newValStr = std::to_string(newValue);
+      keyValueStore_[key] = std::vector<uint8_t>(newValStr.begin(), newValStr.end());
+
+      auto it = keyCVs_.find(key);
+      if (it != keyCVs_.end()) {
+        for (auto& cv : it->second) {
+          cv->notify_all();
+        }
       }
     }
   }
 
-  return detail::sendBytes(socket, &newValue, sizeof(newValue));
+  if (!detail::sendBytes(socket, &result, sizeof(result))) {
+    return false;
+  }
+  return result != 1 || detail::sendBytes(socket, &newValue, sizeof(newValue));
 }
 
 bool TCPStore::ServerImpl::handleCheckCommand(socket_t socket) {
-- 
2.43.0


From 420eb5700d99c958f2c4bb6d824c6e019d2a5461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:23 +0000
Subject: [PATCH 066/105] fix: TCP store server counts workers that have
 already left and waits without limit when told to

---
 src/Distributed/TCPStore.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/Distributed/TCPStore.cpp b/src/Distributed/TCPStore.cpp
index 4279be9..0a2cac8 100644
--- a/src/Distributed/TCPStore.cpp
+++ b/src/Distributed/TCPStore.cpp
@@ -298,6 +298,7 @@ class TCPStore::ServerImpl {
 
   std::condition_variable workerCV_;
   std::atomic<int> registeredWorkers_;
+  std::atomic<int> joinedWorkers_{0};  // including those that have left again
 
   std::unordered_map<std::string, std::vector<std::shared_ptr<std::condition_variable>>> keyCVs_;
 
@@ -837,9 +838,13 @@ bool TCPStore::ServerImpl::waitForWorkers() {
   }
 
   std::unique_lock<std::mutex> lock(mutex_);
-  bool success = workerCV_.wait_for(
-      lock, timeout_, [this] { return shutdownServer_.load() || registeredWorkers_.load() >= numWorkers_; });
-
+  auto ready = [this] { return shutdownServer_.load() || joinedWorkers_.load() >= numWorkers_; };
+  bool success = true;
+  if (timeout_ == kNoTimeout) {
+    workerCV_.wait(lock, ready);
+  } else {
+    success = workerCV_.wait_for(lock, timeout_, ready);
+  }
   if (!success) {
     LOGE("TCPStore: Timeout waiting for workers. Expected: %d, Registered: %d", numWorkers_, registeredWorkers_.load());
   } else if (!shutdownServer_.load()) {
@@ -1358,7 +1363,7 @@ bool TCPStore::ServerImpl::handleWorkerRegister(socket_t socket) {
     return false;
   }
 
-  if (currentWorkers >= numWorkers_) {
+  if (joinedWorkers_.fetch_add(1) + 1 >= numWorkers_) {
     std::lock_guard<std::mutex> lock(mutex_);
     workerCV_.notify_all();
   }
-- 
2.43.0


From be558185705671fc76a9d3a579a32512bbbaa6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:53 +0000
Subject: [PATCH 067/105] fix: TCP store server ends and joins all its threads
 and closes each socket once when destroyed

---
 src/Distributed/TCPStore.cpp | 187 ++++++++++-------------------------
 1 file changed, 51 insertions(+), 136 deletions(-)

diff --git a/src/Distributed/TCPStore.cpp b/src/Distributed/TCPStore.cpp
index 0a2cac8..8c12454 100644
--- a/src/Distributed/TCPStore.cpp
+++ b/src/Distributed/TCPStore.cpp
@@ -22,11 +22,11 @@
 #include <condition_variable>
 #include <csignal>
 #include <cstring>
+#include <iterator>
 #include <mutex>
 #include <optional>
 #include <thread>
 #include <unordered_map>
-#include <unordered_set>
 #include <utility>
 
 #include "Utils/Logger.h"
@@ -192,31 +192,6 @@ bool configureSocket(socket_t socket) {
   return true;
 }
 
-static bool isSocketConnected(socket_t socket) {
-  int error = 0;
-  socklen_t len = sizeof(error);
-  int retval = getsockopt(socket, SOL_SOCKET, SO_ERROR, &error, &len);
-
-  if (retval != 0) {
-    return false;
-  }
-
-  if (error != 0) {
-    return false;
-  }
-
-  char dummy;
-  ssize_t result = send(socket, &dummy, 0, MSG_NOSIGNAL);
-  if (result < 0) {
-    int sendError = errno;
-    if (sendError == EPIPE || sendError == ECONNRESET || sendError == ENOTCONN) {
-      return false;
-    }
-  }
-
-  return true;
-}
-
 }  // namespace detail
 
 class TCPStore::ClientImpl {
@@ -269,8 +244,10 @@ class TCPStore::ServerImpl {
   int getRegisteredWorkers() const;
 
  private:
+  struct ClientThread;
+
   void serverLoop();
-  void handleClientInThread(socket_t socket);
+  void handleClientInThread(ClientThread* client, socket_t socket);
   bool handleClient(socket_t socket);
   bool handleSetCommand(socket_t socket);
   bool handleGetCommand(socket_t socket);
@@ -284,9 +261,6 @@ class TCPStore::ServerImpl {
 
   void cleanupFinishedThreads();
   void shutdownAllThreads();
-  void cleanupDisconnectedClients();
-  void startClientMonitoring();
-  void stopClientMonitoring();
 
   uint16_t port_;
   int numWorkers_;
@@ -305,14 +279,13 @@ class TCPStore::ServerImpl {
   socket_t serverSock_;
   std::thread serverThread_;
 
-  std::vector<std::unique_ptr<std::thread>> clientThreads_;
+  struct ClientThread {
+    socket_t socket = INVALID_SOCKET;  // closed by the thread when it ends
+    bool finished = false;
+    std::thread thread;
+  };
+  std::vector<std::unique_ptr<ClientThread>> clientThreads_;
   std::mutex clientThreadsMutex_;
-  std::atomic<size_t> activeThreadCount_{0};
-
-  std::unordered_set<socket_t> activeClients_;
-  std::mutex activeClientsMutex_;
-  std::thread clientMonitorThread_;
-  std::atomic<bool> monitoringRunning_{false};
 };
 
 TCPStore::TCPStore(const std::string& host, uint16_t port, bool isServer, bool waitWorkers, int numWorkers,
@@ -772,12 +745,6 @@ TCPStore::ServerImpl::ServerImpl(uint16_t port, int numWorkers, const std::chron
 
 TCPStore::ServerImpl::~ServerImpl() {
   shutdownServer_.store(true);
-  stopClientMonitoring();
-
-  if (serverSock_ != INVALID_SOCKET) {
-    closesocket(serverSock_);
-    serverSock_ = INVALID_SOCKET;
-  }
 
   {
     std::lock_guard<std::mutex> lock(mutex_);
@@ -786,12 +753,19 @@ TCPStore::ServerImpl::~ServerImpl() {
         cv->notify_all();
       }
     }
-    keyCVs_.clear();
     workerCV_.notify_all();
   }
 
-  serverThread_.detach();
+  if (serverThread_.joinable()) {
+    shutdown(serverSock_, SHUT_RDWR);  // wakes accept
+    serverThread_.join();
+  }
   shutdownAllThreads();
+
+  if (serverSock_ != INVALID_SOCKET) {
+    closesocket(serverSock_);
+    serverSock_ = INVALID_SOCKET;
+  }
 }
 
 bool TCPStore::ServerImpl::start() {
@@ -828,7 +802,6 @@ bool TCPStore::ServerImpl::start() {
   }
 
   serverThread_ = std::thread(&ServerImpl::serverLoop, this);
-  startClientMonitoring();
   return true;
 }
 
@@ -855,65 +828,37 @@ bool TCPStore::ServerImpl::waitForWorkers() {
 
 int TCPStore::ServerImpl::getRegisteredWorkers() const { return registeredWorkers_.load(); }
 
-void TCPStore::ServerImpl::startClientMonitoring() {
-  monitoringRunning_.store(true);
-  clientMonitorThread_ = std::thread([this]() {
-    while (monitoringRunning_.load()) {
-      cleanupDisconnectedClients();
-      std::this_thread::sleep_for(std::chrono::milliseconds(500));
-    }
-  });
-}
-
-void TCPStore::ServerImpl::stopClientMonitoring() {
-  monitoringRunning_.store(false);
-  clientMonitorThread_.detach();
-}
-
-void TCPStore::ServerImpl::cleanupDisconnectedClients() {
-  std::lock_guard<std::mutex> lock(activeClientsMutex_);
-
-  auto it = activeClients_.begin();
-  while (it != activeClients_.end()) {
-    if (!detail::isSocketConnected(*it)) {
-      LOGI("TCPStore: Detected disconnected client, cleaning up");
-      closesocket(*it);
-      it = activeClients_.erase(it);
-    } else {
-      ++it;
-    }
-  }
-}
-
 void TCPStore::ServerImpl::cleanupFinishedThreads() {
-  std::lock_guard<std::mutex> lock(clientThreadsMutex_);
+  std::vector<std::unique_ptr<ClientThread>> finished;
+  {
+    std::lock_guard<std::mutex> lock(clientThreadsMutex_);
+    auto it = std::partition(clientThreads_.begin(), clientThreads_.end(),
+                             [](const std::unique_ptr<ClientThread>& client) { return !client->finished; });
+    std::move(it, clientThreads_.end(), std::back_inserter(finished));
+    clientThreads_.erase(it, clientThreads_.end());
+  }
 
-  auto it = clientThreads_.begin();
-  while (it != clientThreads_.end()) {
-    if ((*it)->joinable()) {
-      ++it;
-    } else {
-      it = clientThreads_.erase(it);
-      activeThreadCount_.fetch_sub(1);
-    }
+  for (auto& client : finished) {
+    client->thread.join();
   }
 }
 
 void TCPStore::ServerImpl::shutdownAllThreads() {
-  std::vector<std::unique_ptr<std::thread>> threads;
+  std::vector<std::unique_ptr<ClientThread>> clients;
   {
     std::lock_guard<std::mutex> lock(clientThreadsMutex_);
-    threads = std::move(clientThreads_);
+    clients = std::move(clientThreads_);
     clientThreads_.clear();
-  }
-
-  for (auto& thread : threads) {
-    if (thread) {
-      thread->detach();
+    for (auto& client : clients) {
+      if (!client->finished) {
+        shutdown(client->socket, SHUT_RDWR);  // ends whatever the thread waits for
+      }
     }
   }
 
-  activeThreadCount_.store(0);
+  for (auto& client : clients) {
+    client->thread.join();
+  }
 }
 
 void TCPStore::ServerImpl::serverLoop() {
@@ -923,63 +868,33 @@ void TCPStore::ServerImpl::serverLoop() {
     socket_t clientSocket = accept(serverSock_, reinterpret_cast<sockaddr*>(&clientAddr), &addrLen);
 
     if (clientSocket == INVALID_SOCKET) {
-      if (!shutdownServer_.load()) {
+      if (!shutdownServer_.load() && errno != EAGAIN && errno != EINTR) {
         LOGE("TCPStore: Failed to accept client connection");
+        std::this_thread::sleep_for(std::chrono::milliseconds(1));
       }
       continue;
     }
 
-    {
-      std::lock_guard<std::mutex> lock(activeClientsMutex_);
-      activeClients_.insert(clientSocket);
-    }
-
-    {
-      std::lock_guard<std::mutex> lock(clientThreadsMutex_);
-
-      if (clientThreads_.size() > 128) {
-        cleanupFinishedThreads();
-      }
+    cleanupFinishedThreads();
 
-      auto thread = std::make_unique<std::thread>(&ServerImpl::handleClientInThread, this, clientSocket);
-      clientThreads_.push_back(std::move(thread));
-      activeThreadCount_.fetch_add(1);
-    }
+    std::lock_guard<std::mutex> lock(clientThreadsMutex_);
+    clientThreads_.push_back(std::make_unique<ClientThread>());
+    auto* client = clientThreads_.back().get();
+    client->socket = clientSocket;
+    client->thread = std::thread(&ServerImpl::handleClientInThread, this, client, clientSocket);
   }
 }
 
-void TCPStore::ServerImpl::handleClientInThread(socket_t socket) {
-  struct ThreadGuard {
-    std::atomic<size_t>& counter;
-    socket_t socket_;
-    std::unordered_set<socket_t>& activeClients_;
-    std::mutex& activeClientsMutex_;
-
-    explicit ThreadGuard(std::atomic<size_t>& c, socket_t s, std::unordered_set<socket_t>& clients, std::mutex& mutex)
-        : counter(c), socket_(s), activeClients_(clients), activeClientsMutex_(mutex) {}
-
-    ~ThreadGuard() {
-      counter.fetch_sub(1);
-      {
-        std::lock_guard<std::mutex> lock(activeClientsMutex_);
-        activeClients_.erase(socket_);
-      }
-      closesocket(socket_);
-    }
-  };
-
-  ThreadGuard guard(activeThreadCount_, socket, activeClients_, activeClientsMutex_);
-
-  timeval timeout{};
-  timeout.tv_sec = 1;  // 1s
-  timeout.tv_usec = 0;
-  setsockopt(socket, SOL_SOCKET, SO_RCVTIMEO, (const char*)&timeout, sizeof(timeout));
-
+void TCPStore::ServerImpl::handleClientInThread(ClientThread* client, socket_t socket) {
   while (!shutdownServer_.load()) {
     if (!handleClient(socket)) {
       break;
     }
   }
+
+  std::lock_guard<std::mutex> lock(clientThreadsMutex_);
+  closesocket(socket);
+  client->finished = true;
 }
 
 bool TCPStore::ServerImpl::handleClient(socket_t socket) {
-- 
2.43.0


From fb315261df070a88e8c500389d24a1fe690bda94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:53 +0000
Subject: [PATCH 068/105] fix: TCP store calls fail cleanly when the server
 could not be started

---
 src/Distributed/TCPStore.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Distributed/TCPStore.cpp b/src/Distributed/TCPStore.cpp
index 8c12454..1f200da 100644
--- a/src/Distributed/TCPStore.cpp
+++ b/src/Distributed/TCPStore.cpp
@@ -291,6 +291,7 @@ class TCPStore::ServerImpl {
 TCPStore::TCPStore(const std::string& host, uint16_t port, bool isServer, bool waitWorkers, int numWorkers,
                    const std::chrono::milliseconds& timeout)
     : Store(timeout), host_(host), port_(port), isServer_(isServer) {
+  client_ = std::make_unique<ClientImpl>(host, port, timeout);
   if (isServer_) {
     server_ = std::make_unique<ServerImpl>(port, numWorkers, timeout);
     if (!server_->start()) {
@@ -299,7 +300,6 @@ TCPStore::TCPStore(const std::string& host, uint16_t port, bool isServer, bool w
     }
   }
 
-  client_ = std::make_unique<ClientImpl>(host, port, timeout);
   if (!client_->connect()) {
     LOGE("TCPStore: Failed to connect client");
     return;
-- 
2.43.0


From 4cf4b41950b5b09e91587d2676b94d357a8418c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:56 +0000
Subject: [PATCH 069/105] fix: TCP store connects for as long as its timeout
 says, and no longer

---
 src/Distributed/TCPStore.cpp | 66 +++++++++++++++++++++---------------
 1 file changed, 39 insertions(+), 27 deletions(-)

diff --git a/src/Distributed/TCPStore.cpp b/src/Distributed/TCPStore.cpp
index 1f200da..c5cdfff 100644
--- a/src/Distributed/TCPStore.cpp
+++ b/src/Distributed/TCPStore.cpp
@@ -218,6 +218,7 @@ class TCPStore::ClientImpl {
   bool sendBytes(const void* data, size_t size) const;
   bool recvBytes(void* data, size_t size) const;
   void disconnect() const;
+  bool tryConnect(const sockaddr_in& addr);
   bool sendTimeout() const;
   detail::Deadline replyDeadline() const;
 
@@ -227,7 +228,6 @@ class TCPStore::ClientImpl {
   mutable socket_t clientSock_;
   mutable detail::Deadline deadline_;  // of the current request
 
-  int maxRetries = 10;
   int retryDelayMs = 1000;
 
   mutable std::atomic<bool> isRegistered_{false};
@@ -380,17 +380,7 @@ TCPStore::ClientImpl::~ClientImpl() {
 }
 
 bool TCPStore::ClientImpl::connect() {
-  clientSock_ = socket(AF_INET, SOCK_STREAM, 0);
-  if (clientSock_ == INVALID_SOCKET) {
-    LOGE("TCPStore: Failed to create client socket");
-    return false;
-  }
-
-  if (!detail::configureSocket(clientSock_)) {
-    closesocket(clientSock_);
-    clientSock_ = INVALID_SOCKET;
-    return false;
-  }
+  deadline_ = detail::deadlineAfter(timeout_);
 
   sockaddr_in addr{};
   std::memset(&addr, 0, sizeof(addr));
@@ -404,35 +394,57 @@ bool TCPStore::ClientImpl::connect() {
 
   if (getaddrinfo(host_.c_str(), nullptr, &hints, &result) != 0) {
     LOGE("TCPStore: Failed to resolve hostname %s", host_.c_str());
-    closesocket(clientSock_);
-    clientSock_ = INVALID_SOCKET;
     return false;
   }
 
   std::memcpy(&addr.sin_addr, &reinterpret_cast<sockaddr_in*>(result->ai_addr)->sin_addr, sizeof(in_addr));
   freeaddrinfo(result);
 
-  // connect & retry
-  bool connected = false;
-  for (int i = 0; i < maxRetries && !connected; i++) {
-    if (::connect(clientSock_, reinterpret_cast<sockaddr*>(&addr), sizeof(addr)) == 0) {
-      connected = true;
-      break;
+  // the server may start later: retry until the timeout
+  while (true) {
+    if (tryConnect(addr)) {
+      return true;
     }
 
-    if (i < maxRetries - 1) {
-      LOGE("TCPStore: Connection attempt failed, retrying in %d ms", retryDelayMs);
-      std::this_thread::sleep_for(std::chrono::milliseconds(retryDelayMs));
+    auto delay = std::chrono::milliseconds(retryDelayMs);
+    if (deadline_) {
+      auto remaining = std::chrono::ceil<std::chrono::milliseconds>(*deadline_ - std::chrono::steady_clock::now());
+      if (remaining.count() <= 0) {
+        LOGE("TCPStore: Failed to connect to server %s:%d in time", host_.c_str(), port_);
+        return false;
+      }
+      delay = std::min(delay, remaining);
     }
+    std::this_thread::sleep_for(delay);
   }
+}
 
-  if (!connected) {
-    LOGE("TCPStore: Failed to connect to server after %d attempts", maxRetries);
-    closesocket(clientSock_);
-    clientSock_ = INVALID_SOCKET;
+bool TCPStore::ClientImpl::tryConnect(const sockaddr_in& addr) {
+  socket_t sock = socket(AF_INET, SOCK_STREAM, 0);
+  if (sock == INVALID_SOCKET) {
+    LOGE("TCPStore: Failed to create client socket");
     return false;
   }
 
+  // connect without blocking, so that an unreachable server is given up in time
+  int flags = fcntl(sock, F_GETFL, 0);
+  bool connected = detail::configureSocket(sock) && fcntl(sock, F_SETFL, flags | O_NONBLOCK) == 0;
+  if (connected && ::connect(sock, reinterpret_cast<const sockaddr*>(&addr), sizeof(addr)) != 0) {
+    int error = errno;
+    if (error == EINPROGRESS || error == EINTR) {
+      socklen_t len = sizeof(error);
+      connected = detail::waitReady(sock, POLLOUT, deadline_) &&
+                  getsockopt(sock, SOL_SOCKET, SO_ERROR, &error, &len) == 0 && error == 0;
+    } else {
+      connected = false;
+    }
+  }
+
+  if (!connected || fcntl(sock, F_SETFL, flags) != 0) {
+    closesocket(sock);
+    return false;
+  }
+  clientSock_ = sock;
   return true;
 }
 
-- 
2.43.0


From 6c3f45b0e7429f81adef7ba950daf539aa04cad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:03 +0000
Subject: [PATCH 070/105] fix: file store updates are atomic across processes,
 threads and crashes, keys are kept apart and read-only calls create nothing

---
 src/Distributed/FileStore.cpp | 203 +++++++++++++++-------------------
 1 file changed, 91 insertions(+), 112 deletions(-)

diff --git a/src/Distributed/FileStore.cpp b/src/Distributed/FileStore.cpp
index 82326d2..02463ba 100644
--- a/src/Distributed/FileStore.cpp
+++ b/src/Distributed/FileStore.cpp
@@ -14,29 +14,36 @@
 #include <unistd.h>
 
 #include <algorithm>
-#include <iostream>
+#include <cerrno>
+#include <charconv>
 #include <thread>
 
 #include "Utils/Logger.h"
 
 namespace tinytorch::distributed {
 
+// names in the directory that are not keys (an encoded key never starts with a dot)
+static constexpr auto kLockName = "/.lock";
+static constexpr auto kTempName = "/.tmp";
+
+// Lock of the whole store, held by one user (exclusive) or by several readers. It belongs to the opened file, so it
+// also works between threads, and the system releases it when its process ends.
 class FileLock {
  public:
-  explicit FileLock(const std::string& path) {
-    fd_ = open(path.c_str(), O_RDWR | O_CREAT, 0666);
+  explicit FileLock(const std::string& storePath, bool exclusive = true) {
+    const auto path = storePath + kLockName;
+    fd_ = open(path.c_str(), O_RDWR | O_CREAT | O_CLOEXEC, 0666);
     if (fd_ == -1) {
       LOGE("FileStore: Open failed for path: %s", path.c_str());
       return;
     }
 
-    struct flock fl {};
-    fl.l_type = F_WRLCK;
-    fl.l_whence = SEEK_SET;
-    fl.l_start = 0;
-    fl.l_len = 0;
-    if (fcntl(fd_, F_SETLKW, &fl) == -1) {
-      LOGE("FileStore: fcntl lock failed for path: %s", path.c_str());
+    int result;
+    do {
+      result = flock(fd_, exclusive ? LOCK_EX : LOCK_SH);
+    } while (result == -1 && errno == EINTR);
+    if (result == -1) {
+      LOGE("FileStore: flock failed for path: %s", path.c_str());
       close(fd_);
       fd_ = -1;
     }
@@ -44,12 +51,6 @@ class FileLock {
 
   ~FileLock() {
     if (fd_ != -1) {
-      struct flock fl {};
-      fl.l_type = F_UNLCK;
-      fl.l_whence = SEEK_SET;
-      fl.l_start = 0;
-      fl.l_len = 0;
-      fcntl(fd_, F_SETLK, &fl);
       close(fd_);
     }
   }
@@ -60,6 +61,43 @@ class FileLock {
   int fd_ = -1;
 };
 
+// the value appears under its name all at once
+static bool writeValue(const std::string& storePath, const std::string& path, const void* data, size_t size) {
+  const auto tempPath = storePath + kTempName;
+  FILE* f = fopen(tempPath.c_str(), "wb");
+  if (!f) {
+    LOGE("FileStore: fopen for writing failed for path: %s", tempPath.c_str());
+    return false;
+  }
+
+  bool written = size == 0 || fwrite(data, 1, size, f) == size;
+  written = (fclose(f) == 0) && written;
+  if (!written || rename(tempPath.c_str(), path.c_str()) != 0) {
+    LOGE("FileStore: write failed for path: %s", path.c_str());
+    unlink(tempPath.c_str());
+    return false;
+  }
+  return true;
+}
+
+// false if there is no such value
+static bool readValue(const std::string& path, std::vector<uint8_t>& value) {
+  FILE* f = fopen(path.c_str(), "rb");
+  if (!f) {
+    return false;
+  }
+
+  value.clear();
+  uint8_t buf[4096];
+  size_t count;
+  while ((count = fread(buf, 1, sizeof(buf), f)) > 0) {
+    value.insert(value.end(), buf, buf + count);
+  }
+  bool success = ferror(f) == 0;
+  fclose(f);
+  return success;
+}
+
 FileStore::FileStore(std::string path) : path_(std::move(path)) {
   int result = 0;
   result = mkdir(path_.c_str(), 0755);
@@ -68,133 +106,74 @@ FileStore::FileStore(std::string path) : path_(std::move(path)) {
   }
 }
 
-std::string FileStore::getKeyPath(const std::string& key) const { return path_ + "/" + key; }
+// a key can hold any character, a file name cannot
+std::string FileStore::getKeyPath(const std::string& key) const {
+  static constexpr auto kHex = "0123456789ABCDEF";
+  std::string name;
+  for (size_t i = 0; i < key.size(); i++) {
+    auto c = static_cast<uint8_t>(key[i]);
+    if (c == '/' || c == '%' || c == '\0' || (c == '.' && i == 0)) {
+      name += {'%', kHex[c >> 4], kHex[c & 15]};
+    } else {
+      name += key[i];
+    }
+  }
+  return path_ + "/" + (name.empty() ? "%" : name);
+}
 
 void FileStore::set(const std::string& key, const std::vector<uint8_t>& value) {
   const auto path = getKeyPath(key);
-  FileLock lock(path);
+  FileLock lock(path_);
   if (!lock.isValid()) {
     LOGE("FileStore: lock failed for path: %s", path.c_str());
     return;
   }
-
-  FILE* f = fopen(path.c_str(), "wb");
-  if (!f) {
-    LOGE("FileStore: fopen for writing failed for path: %s", path.c_str());
-    return;
-  }
-
-  if (!value.empty()) {
-    size_t written = fwrite(value.data(), 1, value.size(), f);
-    if (written != value.size()) {
-      LOGE("FileStore: fwrite failed for path: %s", path.c_str());
-    }
-  }
-  fclose(f);
+  writeValue(path_, path, value.data(), value.size());
 }
 
 std::vector<uint8_t> FileStore::get(const std::string& key) {
   const auto path = getKeyPath(key);
-
-  auto timeout = timeout_;
   auto start = std::chrono::steady_clock::now();
-  bool hasTimeout = (timeout != kNoTimeout);
-
-  while (!checkKey(key)) {
-    if (hasTimeout) {
-      auto now = std::chrono::steady_clock::now();
-      if (now - start > timeout) {
-        LOGE("FileStore: Get timeout after %lld ms for key: %s", timeout.count(), key.c_str());
-        return {};
-      }
-    }
-    std::this_thread::sleep_for(std::chrono::milliseconds(10));
-  }
-
-  FileLock lock(path);
-  if (!lock.isValid()) {
-    LOGE("FileStore: lock failed for path: %s", path.c_str());
-    return {};
-  }
-
-  FILE* f = fopen(path.c_str(), "rb");
-  if (!f) {
-    LOGE("FileStore: fopen for reading failed for path: %s", path.c_str());
-    return {};
-  }
-
-  using FileCloserFn = int (*)(FILE*);
-  std::unique_ptr<FILE, FileCloserFn> fileGuard(f, &fclose);
 
-  if (fseek(f, 0, SEEK_END) != 0) {
-    LOGE("FileStore: fseek failed for path: %s", path.c_str());
-    return {};
-  }
-
-  auto fileSize = ftell(f);
-  if (fileSize < 0) {
-    LOGE("FileStore: ftell failed for path: %s", path.c_str());
-    return {};
-  }
-
-  if (fseek(f, 0, SEEK_SET) != 0) {
-    LOGE("FileStore: fseek to beginning failed for path: %s", path.c_str());
-    return {};
-  }
-
-  auto size = static_cast<size_t>(fileSize);
-  std::vector<uint8_t> value(size);
-
-  if (size > 0) {
-    auto read = fread(value.data(), 1, size, f);
-    if (read != size) {
-      LOGE("FileStore: fread failed for path: %s", path.c_str());
+  std::vector<uint8_t> value;
+  while (!readValue(path, value)) {
+    if (timeout_ != kNoTimeout && std::chrono::steady_clock::now() - start > timeout_) {
+      LOGE("FileStore: Get timeout after %lld ms for key: %s", static_cast<long long>(timeout_.count()), key.c_str());
       return {};
     }
+    std::this_thread::sleep_for(std::chrono::milliseconds(10));
   }
-
   return value;
 }
 
 int64_t FileStore::add(const std::string& key, int64_t value) {
   const auto path = getKeyPath(key);
-  FileLock lock(path);
+  FileLock lock(path_);
   if (!lock.isValid()) {
     LOGE("FileStore: lock failed for path: %s", path.c_str());
     return 0;
   }
 
   int64_t currentValue = 0;
-  FILE* fRead = fopen(path.c_str(), "rb");
-  if (fRead) {
-    char buf[64] = {0};
-    if (fread(buf, 1, sizeof(buf) - 1, fRead) > 0) {
-      currentValue = std::stoll(buf);
+  std::vector<uint8_t> oldValue;
+  if (readValue(path, oldValue) && !oldValue.empty()) {
+    auto buf = reinterpret_cast<const char*>(oldValue.data());
+    auto parsed = std::from_chars(buf, buf + oldValue.size(), currentValue);
+    if (parsed.ec != std::errc() || parsed.ptr != buf + oldValue.size()) {
+      LOGE("FileStore: Value is not a number, key: %s", key.c_str());
+      return -1;
     }
-    fclose(fRead);
   }
 
   currentValue += value;
-
-  FILE* fWrite = fopen(path.c_str(), "wb");
-  if (!fWrite) {
-    LOGE("FileStore: fopen for writing failed for path: %s", path.c_str());
-    return currentValue;
-  }
-
-  using FileCloserFn = int (*)(FILE*);
-  std::unique_ptr<FILE, FileCloserFn> fileGuard(fWrite, &fclose);
   std::string s = std::to_string(currentValue);
-  if (fwrite(s.c_str(), 1, s.length(), fWrite) != s.length()) {
-    LOGE("FileStore: fwrite failed for path: %s", path.c_str());
-  }
-
+  writeValue(path_, path, s.data(), s.size());
   return currentValue;
 }
 
 bool FileStore::deleteKey(const std::string& key) {
   const auto path = getKeyPath(key);
-  FileLock lock(path);
+  FileLock lock(path_);
   if (!lock.isValid()) {
     LOGE("FileStore: lock failed for path: %s", path.c_str());
     return false;
@@ -208,10 +187,12 @@ bool FileStore::checkKey(const std::string& key) const {
 }
 
 bool FileStore::check(const std::vector<std::string>& keys) {
+  FileLock lock(path_, false);
   return std::all_of(keys.begin(), keys.end(), [this](const auto& key) { return checkKey(key); });
 }
 
 int64_t FileStore::getNumKeys() {
+  FileLock lock(path_, false);
   int64_t count = 0;
   DIR* dir = opendir(path_.c_str());
   if (!dir) {
@@ -221,8 +202,7 @@ int64_t FileStore::getNumKeys() {
 
   dirent* entry;
   while ((entry = readdir(dir)) != nullptr) {
-    const std::string name = entry->d_name;
-    if (name != "." && name != "..") {
+    if (entry->d_name[0] != '.') {
       count++;
     }
   }
@@ -234,13 +214,12 @@ int64_t FileStore::getNumKeys() {
 void FileStore::wait(const std::vector<std::string>& keys) {
   auto start = std::chrono::steady_clock::now();
   while (!check(keys)) {
-    auto now = std::chrono::steady_clock::now();
-    if (now - start > timeout_) {
-      LOGE("FileStore: Wait timeout after %lld ms", timeout_.count());
+    if (timeout_ != kNoTimeout && std::chrono::steady_clock::now() - start > timeout_) {
+      LOGE("FileStore: Wait timeout after %lld ms", static_cast<long long>(timeout_.count()));
       return;
     }
     std::this_thread::sleep_for(std::chrono::milliseconds(10));
   }
 }
 
-}  // namespace tinytorch::distributed
\ No newline at end of file
+}  // namespace tinytorch::distributed
-- 
2.43.0


From ec5cd504325fa3d5987d6a608cac9116e4d570fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:05 +0000
Subject: [PATCH 071/105] fix: process group rejects invalid configurations,
 observes its timeout and is not set up without its store

---
 src/Distributed/DistributedProcessGroup.cpp | 111 ++++++++++----------
 src/Distributed/FileStore.cpp               |   3 +-
 src/Distributed/FileStore.h                 |   2 +-
 src/Distributed/ProcessGroup.cpp            |   2 +-
 src/Distributed/TCPStore.cpp                |   1 +
 src/Distributed/TCPStore.h                  |   4 +
 6 files changed, 65 insertions(+), 58 deletions(-)

diff --git a/src/Distributed/DistributedProcessGroup.cpp b/src/Distributed/DistributedProcessGroup.cpp
index 9c90ca1..bc9b23d 100644
--- a/src/Distributed/DistributedProcessGroup.cpp
+++ b/src/Distributed/DistributedProcessGroup.cpp
@@ -6,7 +6,7 @@
 
 #include "DistributedProcessGroup.h"
 
-#include <iostream>
+#include <charconv>
 #include <regex>
 
 #include "BackendNCCL.h"
@@ -15,6 +15,20 @@
 
 namespace tinytorch::distributed {
 
+// the whole text must be a number in the given range
+static bool parseNumber(const std::string& text, int minValue, int maxValue, int& value) {
+  int number = 0;
+  auto result = std::from_chars(text.data(), text.data() + text.size(), number);
+  if (result.ec != std::errc() || result.ptr != text.data() + text.size() || number < minValue || number > maxValue) {
+    LOGE("Invalid number: %s", text.c_str());
+    return false;
+  }
+  value = number;
+  return true;
+}
+
+static constexpr int kMaxPort = UINT16_MAX;
+
 bool DistributedProcessGroup::initProcessGroup(BackendType backend, const std::string& initMethod, int rank,
                                                int worldSize, std::chrono::milliseconds timeout, bool waitWorkers) {
   if (processGroup_ != nullptr) {
@@ -25,8 +39,12 @@ bool DistributedProcessGroup::initProcessGroup(BackendType backend, const std::s
   config.timeout = timeout;
   config.waitWorkers = waitWorkers;
 
-  if (config.rank == -1 || config.worldSize == -1) {
-    LOGE("Invalid ProcessGroup config");
+  if (config.worldSize <= 0 || config.rank < 0 || config.rank >= config.worldSize) {
+    LOGE("Invalid ProcessGroup config, rank=%d, world_size=%d", config.rank, config.worldSize);
+    return false;
+  }
+  if (backend != NCCL) {
+    LOGE("Invalid ProcessGroup backend, backend=%d", backend);
     return false;
   }
 
@@ -51,21 +69,16 @@ bool DistributedProcessGroup::initProcessGroup(BackendType backend, const std::s
   }
 
   auto store = createStore(config);
+  if (!store) {
+    LOGE("Init ProcessGroup failed, store is not available");
+    return false;
+  }
+
   processGroup_ = std::make_shared<ProcessGroup>(store, config.rank, config.worldSize);
-  processGroup_->setTimeout(timeout);
   processGroup_->setDefaultBackend(backend);
-
-  switch (backend) {
-    case NCCL: {
-      auto ncclBackend = std::make_shared<BackendNCCL>(store, config.rank, config.worldSize);
-      processGroup_->setBackend(DeviceType::CUDA, NCCL, ncclBackend);
-      break;
-    }
-    default: {
-      LOGE("Invalid ProcessGroup backend, backend=%d", backend);
-      return false;
-    }
-  }
+  auto ncclBackend = std::make_shared<BackendNCCL>(store, config.rank, config.worldSize);
+  processGroup_->setBackend(DeviceType::CUDA, NCCL, ncclBackend);
+  processGroup_->setTimeout(timeout);
 
   LOGD("Init ProcessGroup success, backend=%s", backendTypeToString(backend));
   return true;
@@ -90,17 +103,15 @@ DistributedProcessGroup::InitConfig DistributedProcessGroup::parseInitString(con
     }
 
     config.masterAddr = envAddr;
-    if (envPort) {
-      config.masterPort = std::stoi(envPort);
-    } else {
-      config.masterPort = TCPStore::kDefaultPort;
+    config.masterPort = TCPStore::kDefaultPort;
+    if (envPort && !parseNumber(envPort, 1, kMaxPort, config.masterPort)) {
+      return {};
     }
-
-    if (envWorldSize && config.worldSize == -1) {
-      config.worldSize = std::stoi(envWorldSize);
+    if (envWorldSize && config.worldSize == -1 && !parseNumber(envWorldSize, 1, INT32_MAX, config.worldSize)) {
+      return {};
     }
-    if (envRank && config.rank == -1) {
-      config.rank = std::stoi(envRank);
+    if (envRank && config.rank == -1 && !parseNumber(envRank, 0, INT32_MAX, config.rank)) {
+      return {};
     }
   } else if (initString.substr(0, 6) == "tcp://") {
     config.method = InitMethod::TCP;
@@ -112,7 +123,9 @@ DistributedProcessGroup::InitConfig DistributedProcessGroup::parseInitString(con
 
     if (std::regex_match(initString, matches, tcpRegexWithPort)) {
       config.masterAddr = matches[1].str();
-      config.masterPort = std::stoi(matches[2].str());
+      if (!parseNumber(matches[2].str(), 1, kMaxPort, config.masterPort)) {
+        return {};
+      }
     } else if (std::regex_match(initString, matches, tcpRegexNoPort)) {
       config.masterAddr = matches[1].str();
       config.masterPort = TCPStore::kDefaultPort;
@@ -123,7 +136,10 @@ DistributedProcessGroup::InitConfig DistributedProcessGroup::parseInitString(con
   } else if (initString.substr(0, 7) == "file://") {
     config.method = InitMethod::FILE;
     config.filePath = initString.substr(7);
-
+    if (config.filePath.empty()) {
+      LOGE("InitMethod: file, format error: file://path");
+      return {};
+    }
   } else {
     LOGE("InitMethod not support: %s", initString.c_str());
     return {};
@@ -132,39 +148,24 @@ DistributedProcessGroup::InitConfig DistributedProcessGroup::parseInitString(con
 }
 
 std::shared_ptr<Store> DistributedProcessGroup::createStore(const InitConfig& config) {
-  auto timeout = kBackendDefaultTimeout;
-
-  // env
-  if (config.method == InitMethod::ENV) {
-    bool isServer = (config.rank == 0);
-    int numWorkers = config.worldSize;
-    bool waitWorkers = true;
-    return std::make_shared<TCPStore>(config.masterAddr,  // host
-                                      config.masterPort,  // port
-                                      isServer,           // isServer
-                                      waitWorkers,        // waitWorkers
-                                      numWorkers,         // numWorkers
-                                      timeout             // timeout
-    );
-  }
-
-  // tcp
-  if (config.method == InitMethod::TCP) {
-    bool isServer = (config.rank == 0);
-    int numWorkers = config.worldSize;
-    bool waitWorkers = true;
-    return std::make_shared<TCPStore>(config.masterAddr,                         // host
-                                      static_cast<uint16_t>(config.masterPort),  // port
-                                      isServer,                                  // isServer
-                                      waitWorkers,                               // waitWorkers
-                                      numWorkers,                                // numWorkers
-                                      timeout                                    // timeout
+  // env, tcp
+  if (config.method == InitMethod::ENV || config.method == InitMethod::TCP) {
+    auto store = std::make_shared<TCPStore>(config.masterAddr,                         // host
+                                            static_cast<uint16_t>(config.masterPort),  // port
+                                            config.rank == 0,                          // isServer
+                                            config.waitWorkers,                        // waitWorkers
+                                            config.worldSize,                          // numWorkers
+                                            config.timeout                             // timeout
     );
+    if (!store->isReady()) {
+      return nullptr;
+    }
+    return store;
   }
 
   // file
   if (config.method == InitMethod::FILE) {
-    return std::make_shared<FileStore>(config.filePath);
+    return std::make_shared<FileStore>(config.filePath, config.timeout);
   }
 
   LOGE("Invalid config: %s", initMethodToString(config.method));
diff --git a/src/Distributed/FileStore.cpp b/src/Distributed/FileStore.cpp
index 02463ba..6b04d21 100644
--- a/src/Distributed/FileStore.cpp
+++ b/src/Distributed/FileStore.cpp
@@ -98,7 +98,8 @@ static bool readValue(const std::string& path, std::vector<uint8_t>& value) {
   return success;
 }
 
-FileStore::FileStore(std::string path) : path_(std::move(path)) {
+FileStore::FileStore(std::string path, const std::chrono::milliseconds& timeout)
+    : Store(timeout), path_(std::move(path)) {
   int result = 0;
   result = mkdir(path_.c_str(), 0755);
   if (result != 0 && errno != EEXIST) {
diff --git a/src/Distributed/FileStore.h b/src/Distributed/FileStore.h
index f5edd72..276859c 100644
--- a/src/Distributed/FileStore.h
+++ b/src/Distributed/FileStore.h
@@ -12,7 +12,7 @@ namespace tinytorch::distributed {
 
 class FileStore : public Store {
  public:
-  explicit FileStore(std::string path);
+  explicit FileStore(std::string path, const std::chrono::milliseconds& timeout = kDefaultTimeout);
   ~FileStore() override = default;
 
   FileStore(const FileStore&) = delete;
diff --git a/src/Distributed/ProcessGroup.cpp b/src/Distributed/ProcessGroup.cpp
index 25b2533..20b7748 100644
--- a/src/Distributed/ProcessGroup.cpp
+++ b/src/Distributed/ProcessGroup.cpp
@@ -76,7 +76,7 @@ void ProcessGroup::setBackend(DeviceType deviceType, BackendType backendType,
   if (backendTypeToBackend_.find(backendType) != backendTypeToBackend_.end()) {
     auto existingBackend = backendTypeToBackend_.at(backendType);
     deviceTypeToBackend_[deviceType] = existingBackend;
-    ASSERT(existingBackend->getBoundDeviceId() == (*backend)->getBoundDeviceId());
+    ASSERT(!backend.has_value() || existingBackend->getBoundDeviceId() == (*backend)->getBoundDeviceId());
   } else {
     if (backend.has_value()) {
       deviceTypeToBackend_[deviceType] = backend.value();
diff --git a/src/Distributed/TCPStore.cpp b/src/Distributed/TCPStore.cpp
index c5cdfff..b962e84 100644
--- a/src/Distributed/TCPStore.cpp
+++ b/src/Distributed/TCPStore.cpp
@@ -316,6 +316,7 @@ TCPStore::TCPStore(const std::string& host, uint16_t port, bool isServer, bool w
       return;
     }
   }
+  isReady_ = true;
 }
 
 TCPStore::~TCPStore() {
diff --git a/src/Distributed/TCPStore.h b/src/Distributed/TCPStore.h
index 87a7ad2..12676b0 100644
--- a/src/Distributed/TCPStore.h
+++ b/src/Distributed/TCPStore.h
@@ -36,6 +36,9 @@ class TCPStore : public Store {
   const std::string& getHost() const noexcept { return host_; }
   std::uint16_t getPort() const noexcept { return port_; }
 
+  // connected, and joined by all workers if asked to wait for them
+  bool isReady() const noexcept { return isReady_; }
+
  private:
   class ServerImpl;
   class ClientImpl;
@@ -46,6 +49,7 @@ class TCPStore : public Store {
   std::string host_;
   uint16_t port_;
   bool isServer_;
+  bool isReady_ = false;
 };
 
 }  // namespace tinytorch::distributed
\ No newline at end of file
-- 
2.43.0


From 66cade5d5d374029d169a5e21b5cfc8deb4a5c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:39 +0000
Subject: [PATCH 072/105] fix: reducer removes its hooks from the parameters
 when it is destroyed

---
 src/Distributed/Reducer.cpp | 8 +++++++-
 src/Distributed/Reducer.h   | 6 +++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/Distributed/Reducer.cpp b/src/Distributed/Reducer.cpp
index 367a69f..10a1583 100644
--- a/src/Distributed/Reducer.cpp
+++ b/src/Distributed/Reducer.cpp
@@ -28,6 +28,12 @@ Reducer::Reducer(std::vector<TensorPtr> parameters, std::shared_ptr<DistributedP
   registerHooks();
 }
 
+Reducer::~Reducer() {
+  for (auto& [param, hookId] : hooks_) {
+    param.unregisterHook(hookId);
+  }
+}
+
 void Reducer::buildBuckets() {
   if (parameters_.empty()) {
     return;
@@ -91,7 +97,7 @@ void Reducer::registerHooks() {
       ctx->self = this;
       ctx->bIdx = bIdx;
       ctx->pIdx = pIdx;
-      param->registerHook(&parameterHookFn, ctx.get());
+      hooks_.emplace_back(*param, param->registerHook(&parameterHookFn, ctx.get()));
       hookCtxs_.push_back(std::move(ctx));
     }
   }
diff --git a/src/Distributed/Reducer.h b/src/Distributed/Reducer.h
index 7d27726..68ce595 100644
--- a/src/Distributed/Reducer.h
+++ b/src/Distributed/Reducer.h
@@ -24,7 +24,10 @@ class Reducer {
   Reducer(std::vector<TensorPtr> parameters, std::shared_ptr<DistributedProcessGroup> processGroup,
           int64_t bucketBytesCap = kDefaultBucketBytesCap);
 
-  ~Reducer() = default;
+  ~Reducer();
+
+  Reducer(const Reducer&) = delete;
+  Reducer& operator=(const Reducer&) = delete;
 
   void prepareForBackward();
   void broadcastParameters(int rootRank = 0) const;
@@ -63,6 +66,7 @@ class Reducer {
   int64_t bucketReadyCnt_;
   std::vector<Bucket> buckets_;
   std::vector<std::unique_ptr<ParameterHookCtx>> hookCtxs_;
+  std::vector<std::pair<Tensor, int64_t>> hooks_;
 };
 
 }  // namespace tinytorch::distributed
-- 
2.43.0


From b9a4827355cad759bc82aa8aa86aef0acfd15a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:39 +0000
Subject: [PATCH 073/105] fix: reducer starts its reductions in the same order
 on all replicas

---
 src/Distributed/Reducer.cpp | 17 +++++++++++++----
 src/Distributed/Reducer.h   |  3 ++-
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/Distributed/Reducer.cpp b/src/Distributed/Reducer.cpp
index 10a1583..6a37783 100644
--- a/src/Distributed/Reducer.cpp
+++ b/src/Distributed/Reducer.cpp
@@ -117,9 +117,21 @@ void Reducer::onGradReady(int64_t bucketIdx, int64_t paramIdx, const Tensor& gra
 
   ASSERT(!bucket.reduceStarted);
   if (bucket.readyCount == static_cast<int64_t>(bucket.params.size())) {
+    reduceReadyBuckets();
+  }
+}
+
+void Reducer::reduceReadyBuckets() {
+  while (bucketReadyCnt_ < static_cast<int64_t>(buckets_.size())) {
+    auto& bucket = buckets_[bucketReadyCnt_];
+    if (bucket.readyCount < static_cast<int64_t>(bucket.params.size())) {
+      return;
+    }
     bucket.reduceStarted = true;
-    reduceBucket(bucketIdx);
+    reduceBucket(bucketReadyCnt_);
+    bucketReadyCnt_++;
   }
+  checkAllBucketsReady();
 }
 
 void Reducer::reduceBucket(int64_t bucketIdx) {
@@ -132,9 +144,6 @@ void Reducer::reduceBucket(int64_t bucketIdx) {
   std::vector<Tensor> tensors = {bucket.flatBuffer};
   bucket.work = processGroup_->allReduce(tensors);
   ASSERT(bucket.work);
-
-  bucketReadyCnt_++;
-  checkAllBucketsReady();
 }
 
 void Reducer::prepareForBackward() {
diff --git a/src/Distributed/Reducer.h b/src/Distributed/Reducer.h
index 68ce595..721b4f6 100644
--- a/src/Distributed/Reducer.h
+++ b/src/Distributed/Reducer.h
@@ -50,6 +50,7 @@ class Reducer {
 
   void buildBuckets();
   void registerHooks();
+  void reduceReadyBuckets();
   void reduceBucket(int64_t bucketIdx);
   void checkAllBucketsReady();
 
@@ -63,7 +64,7 @@ class Reducer {
   std::vector<TensorPtr> parameters_;
   std::shared_ptr<DistributedProcessGroup> processGroup_;
   int64_t bucketBytesCap_;
-  int64_t bucketReadyCnt_;
+  int64_t bucketReadyCnt_;  // buckets are reduced in order, the same on all replicas
   std::vector<Bucket> buckets_;
   std::vector<std::unique_ptr<ParameterHookCtx>> hookCtxs_;
   std::vector<std::pair<Tensor, int64_t>> hooks_;
-- 
2.43.0


From a8accf449dde595ac3c58dba8d07a21c91e222bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:39 +0000
Subject: [PATCH 074/105] fix: reducer handles frozen and empty parameters,
 several element types and repeated backward passes

---
 src/Distributed/Reducer.cpp | 28 ++++++++++++++++++++++------
 src/Distributed/Reducer.h   |  1 +
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/Distributed/Reducer.cpp b/src/Distributed/Reducer.cpp
index 6a37783..c8da5ae 100644
--- a/src/Distributed/Reducer.cpp
+++ b/src/Distributed/Reducer.cpp
@@ -48,15 +48,18 @@ void Reducer::buildBuckets() {
   for (auto& param : parameters_) {
     ASSERT(param != nullptr);
     ASSERT(param->device() == device);
-    ASSERT(param->dtype() == dtype);
+    if (param->numel() == 0) {
+      continue;  // nothing to reduce
+    }
 
     int64_t paramBytes = param->nbytes();
-    if (currentBytes + paramBytes > bucketBytesCap_ && !currentParams.empty()) {
+    if ((currentBytes + paramBytes > bucketBytesCap_ || param->dtype() != dtype) && !currentParams.empty()) {
       buckets_.push_back(createBucket(currentParams, device, dtype));
       currentParams.clear();
       currentBytes = 0;
     }
 
+    dtype = param->dtype();
     currentParams.push_back(param);
     currentBytes += paramBytes;
   }
@@ -92,6 +95,9 @@ void Reducer::registerHooks() {
     for (int64_t pIdx = 0; pIdx < static_cast<int64_t>(bucket.params.size()); pIdx++) {
       auto& param = bucket.params[pIdx];
       ASSERT(param != nullptr);
+      if (!param->requiresGrad()) {
+        continue;
+      }
 
       auto ctx = std::make_unique<ParameterHookCtx>();
       ctx->self = this;
@@ -99,6 +105,7 @@ void Reducer::registerHooks() {
       ctx->pIdx = pIdx;
       hooks_.emplace_back(*param, param->registerHook(&parameterHookFn, ctx.get()));
       hookCtxs_.push_back(std::move(ctx));
+      bucket.trainableCount++;
     }
   }
 }
@@ -116,7 +123,7 @@ void Reducer::onGradReady(int64_t bucketIdx, int64_t paramIdx, const Tensor& gra
   bucket.readyCount++;
 
   ASSERT(!bucket.reduceStarted);
-  if (bucket.readyCount == static_cast<int64_t>(bucket.params.size())) {
+  if (bucket.readyCount == bucket.trainableCount) {
     reduceReadyBuckets();
   }
 }
@@ -124,11 +131,13 @@ void Reducer::onGradReady(int64_t bucketIdx, int64_t paramIdx, const Tensor& gra
 void Reducer::reduceReadyBuckets() {
   while (bucketReadyCnt_ < static_cast<int64_t>(buckets_.size())) {
     auto& bucket = buckets_[bucketReadyCnt_];
-    if (bucket.readyCount < static_cast<int64_t>(bucket.params.size())) {
+    if (bucket.readyCount < bucket.trainableCount) {
       return;
     }
-    bucket.reduceStarted = true;
-    reduceBucket(bucketReadyCnt_);
+    if (bucket.trainableCount > 0) {
+      bucket.reduceStarted = true;
+      reduceBucket(bucketReadyCnt_);
+    }
     bucketReadyCnt_++;
   }
   checkAllBucketsReady();
@@ -191,6 +200,7 @@ void Reducer::checkAllBucketsReady() {
       bucket.work = nullptr;
     }
   }
+  prepareForBackward();
 }
 
 void Reducer::copyParamsToFlattenedBuffer(int64_t bucketIdx) const {
@@ -225,6 +235,9 @@ void Reducer::copyGradsToFlattenedBuffer(int64_t bucketIdx) const {
   for (int64_t i = 0; i < static_cast<int64_t>(bucket.params.size()); i++) {
     ASSERT(bucket.params[i] != nullptr);
     ASSERT(bucket.params[i]->defined());
+    if (!bucket.params[i]->requiresGrad()) {
+      continue;
+    }
     auto& grad = bucket.params[i]->grad();
     ASSERT(grad.defined());
     bucket.flatBuffer.narrow(0, bucket.paramOffsets[i], bucket.paramSizes[i]).copy_(grad.flatten());
@@ -238,6 +251,9 @@ void Reducer::copyFlattenedBufferToGrads(int64_t bucketIdx) const {
   for (int64_t i = 0; i < static_cast<int64_t>(bucket.params.size()); i++) {
     ASSERT(bucket.params[i] != nullptr);
     ASSERT(bucket.params[i]->defined());
+    if (!bucket.params[i]->requiresGrad()) {
+      continue;
+    }
     auto& grad = bucket.params[i]->grad();
     ASSERT(grad.defined());
     auto slice = bucket.flatBuffer.narrow(0, bucket.paramOffsets[i], bucket.paramSizes[i]);
diff --git a/src/Distributed/Reducer.h b/src/Distributed/Reducer.h
index 721b4f6..e16047f 100644
--- a/src/Distributed/Reducer.h
+++ b/src/Distributed/Reducer.h
@@ -43,6 +43,7 @@ class Reducer {
     Tensor flatBuffer;
 
     int64_t totalSize = 0;
+    int64_t trainableCount = 0;  // parameters that receive gradients
     int64_t readyCount = 0;
     bool reduceStarted = false;
     std::shared_ptr<Work> work;
-- 
2.43.0


From cd4894bed946a8173140efb23e0f76882753649c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:02 +0000
Subject: [PATCH 075/105] fix: TCP store wait also notices keys that are
 deleted and set again while it waits

---
 src/Distributed/TCPStore.cpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/Distributed/TCPStore.cpp b/src/Distributed/TCPStore.cpp
index b962e84..a66a89d 100644
--- a/src/Distributed/TCPStore.cpp
+++ b/src/Distributed/TCPStore.cpp
@@ -1185,24 +1185,22 @@ bool TCPStore::ServerImpl::handleWaitCommand(socket_t socket) {
 
   bool success = true;
   std::shared_ptr<std::condition_variable> cv;
-  std::vector<std::string> missingKeys;
 
   {
     std::unique_lock<std::mutex> lock(mutex_);
 
-    for (const auto& key : keys) {
-      if (keyValueStore_.find(key) == keyValueStore_.end()) {
-        missingKeys.push_back(key);
-      }
-    }
+    bool allKeysExist = std::all_of(keys.begin(), keys.end(), [this](const auto& key) {
+      return keyValueStore_.find(key) != keyValueStore_.end();
+    });
 
-    if (missingKeys.empty()) {
+    if (allKeysExist) {
       uint8_t result = 1;
       return detail::sendBytes(socket, &result, sizeof(result));
     }
 
+    // keys that exist now may be deleted and set again before the others exist
     cv = std::make_shared<std::condition_variable>();
-    for (const auto& key : missingKeys) {
+    for (const auto& key : keys) {
       keyCVs_[key].push_back(cv);
     }
   }
@@ -1230,7 +1228,7 @@ bool TCPStore::ServerImpl::handleWaitCommand(socket_t socket) {
       success = false;
     }
 
-    for (const auto& key : missingKeys) {
+    for (const auto& key : keys) {
       auto it = keyCVs_.find(key);
       if (it != keyCVs_.end()) {
         auto& cvs = it->second;
-- 
2.43.0


From c913ae0d20149b7eab74a71229306361f5bec38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:21 +0000
Subject: [PATCH 076/105] fix: TCP store get, add and getNumKeys return nothing
 of a reply that was cut off

---
 src/Distributed/TCPStore.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Distributed/TCPStore.cpp b/src/Distributed/TCPStore.cpp
index a66a89d..e68aef0 100644
--- a/src/Distributed/TCPStore.cpp
+++ b/src/Distributed/TCPStore.cpp
@@ -340,6 +340,7 @@ std::vector<uint8_t> TCPStore::get(const std::string& key) {
   std::vector<uint8_t> value;
   if (!client_->get(key, value)) {
     LOGE("TCPStore: get operation failed for key: %s", key.c_str());
+    return {};  // not the part of a value that was received before the failure
   }
   return value;
 }
@@ -348,6 +349,7 @@ int64_t TCPStore::add(const std::string& key, int64_t value) {
   int64_t newValue = -1;
   if (!client_->add(key, value, newValue)) {
     LOGE("TCPStore: add operation failed for key: %s", key.c_str());
+    return -1;
   }
   return newValue;
 }
@@ -360,6 +362,7 @@ int64_t TCPStore::getNumKeys() {
   int64_t numKeys = -1;
   if (!client_->getNumKeys(numKeys)) {
     LOGE("TCPStore: getNumKeys operation failed");
+    return -1;
   }
   return numKeys;
 }
-- 
2.43.0


From 65325cb395ef5e67246ef6be12c9b8045f920250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:48 +0000
Subject: [PATCH 077/105] fix: optimizer steps and gradient zeroing skip
 parameters that do not require gradients

---
 src/Module/Module.h |  4 +++-
 src/Optimizer.cpp   | 10 +++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/Module/Module.h b/src/Module/Module.h
index 88afc0a..b0845bc 100644
--- a/src/Module/Module.h
+++ b/src/Module/Module.h
@@ -85,7 +85,9 @@ class Module {
   virtual void zeroGrad() {
     auto allParameters = namedParameters();
     for (auto &[name, param] : allParameters) {
-      param->zeroGrad();
+      if (param->requiresGrad()) {
+        param->zeroGrad();
+      }
     }
   }
 
diff --git a/src/Optimizer.cpp b/src/Optimizer.cpp
index e1a445d..cee1dc5 100644
--- a/src/Optimizer.cpp
+++ b/src/Optimizer.cpp
@@ -21,11 +21,16 @@ Optimizer::Optimizer(std::vector<TensorPtr> &&parameters, float lr, float weight
 
 void Optimizer::zeroGrad() const {
   for (auto &param : parameters_) {
-    param->zeroGrad();
+    if (param->requiresGrad()) {
+      param->zeroGrad();
+    }
   }
 }
 
 Tensor Optimizer::getDecayedGrad(TensorPtr param) const {
+  if (!param->requiresGrad()) {
+    return {};
+  }
   auto ret = param->grad();
   if (!ret.defined()) {
     return ret;
@@ -216,6 +221,9 @@ AdamW::AdamW(std::vector<TensorPtr> &&parameters, float lr, const std::pair<floa
     : Adam(std::move(parameters), lr, betas, eps, weightDecay, amsGrad) {}
 
 Tensor AdamW::getDecayedGrad(TensorPtr param) const {
+  if (!param->requiresGrad()) {
+    return {};
+  }
   auto ret = param->grad();
   if (ret.defined()) {
     *param *= (1.f - lr_ * weightDecay_);
-- 
2.43.0


From 818233ebe8a20973048de30f311c9d3e97c481e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:33 +0000
Subject: [PATCH 078/105] fix: threads allocate and free tensor memory under a
 lock

---
 src/Tensor/CachedAllocator.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Tensor/CachedAllocator.h b/src/Tensor/CachedAllocator.h
index 469606a..0a9b60f 100644
--- a/src/Tensor/CachedAllocator.h
+++ b/src/Tensor/CachedAllocator.h
@@ -6,6 +6,9 @@
 
 #pragma once
 
+#include <memory>
+#include <mutex>
+
 #include "Allocator.h"
 
 namespace tinytorch {
@@ -17,6 +20,7 @@ class CachedAllocator : public Allocator {
   static void setCacheEnabled(bool enabled) { cacheEnabled_ = enabled; }
 
   void* allocate(int64_t nbytes) override {
+    std::lock_guard<std::mutex> lock(*mutex_);
     if (!cacheEnabled_) {
       void* ptr = base_->allocate(nbytes);
       if (ptr) {
@@ -28,6 +32,7 @@ class CachedAllocator : public Allocator {
   }
 
   void deallocate(void* ptr) override {
+    std::lock_guard<std::mutex> lock(*mutex_);
     // the switch may have changed since the block was allocated
     if (uncachedPtrs_.erase(ptr) > 0) {
       base_->deallocate(ptr);
@@ -38,6 +43,7 @@ class CachedAllocator : public Allocator {
 
  private:
   static bool cacheEnabled_;
+  std::unique_ptr<std::mutex> mutex_ = std::make_unique<std::mutex>();
   ankerl::unordered_dense::set<void*> uncachedPtrs_;
   std::unique_ptr<Allocator> base_;
   std::unique_ptr<Allocator> impl_;
-- 
2.43.0


From 008593549bce96832dd3de719765a0cad4d9eff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:33 +0000
Subject: [PATCH 079/105] fix: reordering indices uses no buffer shared between
 threads

---
 src/Operation/OpTransform.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Operation/OpTransform.cpp b/src/Operation/OpTransform.cpp
index 2de9e39..876df3c 100644
--- a/src/Operation/OpTransform.cpp
+++ b/src/Operation/OpTransform.cpp
@@ -30,7 +30,7 @@ void offsetToIndices(int64_t* indices, const IntArrayView shape, int64_t offset)
 
 void reorderIndices(int64_t* indices, int64_t ndim, const IntArrayView order) {
   ASSERT(ndim == static_cast<int64_t>(order.size()));
-  static SizeVector temp(MAX_TENSOR_DIM);
+  int64_t temp[MAX_TENSOR_DIM];
   for (auto i = 0; i < ndim; i++) {
     auto d = order[i];
     if (d < 0) {
@@ -42,7 +42,7 @@ void reorderIndices(int64_t* indices, int64_t ndim, const IntArrayView order) {
     }
     temp[i] = indices[d];
   }
-  std::memcpy(indices, temp.data(), sizeof(int64_t) * ndim);
+  std::memcpy(indices, temp, sizeof(int64_t) * ndim);
 }
 
 Tensor reshapeOpImpl(const Tensor& self, const IntArrayView shape) {
-- 
2.43.0


From a9ff8d79451f9fff7ddd5aea91c4a243e133223b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:47 +0000
Subject: [PATCH 080/105] fix: CUDA kernels are not launched with an empty grid
 or a zero leading dimension for empty tensors

---
 src/Operation/OpLinalgCuda.cuh    | 56 ++++++++++++++++---------------
 src/Operation/OpNNLayerCuda.cuh   | 14 +++++++-
 src/Operation/OpReduceCuda.cuh    | 13 +++++--
 src/Operation/OpSamplingCuda.cu   |  2 +-
 src/Operation/OpTransformCuda.cuh |  6 ++++
 src/Utils/CUDAUtils.cpp           |  4 ++-
 6 files changed, 63 insertions(+), 32 deletions(-)

diff --git a/src/Operation/OpLinalgCuda.cuh b/src/Operation/OpLinalgCuda.cuh
index 117e53e..af296a3 100644
--- a/src/Operation/OpLinalgCuda.cuh
+++ b/src/Operation/OpLinalgCuda.cuh
@@ -6,6 +6,8 @@
 
 #pragma once
 
+#include <algorithm>
+
 #include "OpLinalg.h"
 #include "Utils/CUDAUtils.h"
 
@@ -142,9 +144,9 @@ inline void gemmCudaF32Impl(float* c, const float* a, const float* b, int64_t m,
   cublasOperation_t opA = transA ? CUBLAS_OP_T : CUBLAS_OP_N;
   cublasOperation_t opB = transB ? CUBLAS_OP_T : CUBLAS_OP_N;
 
-  int lda = static_cast<int>(transA ? m : k);
-  int ldb = static_cast<int>(transB ? k : n);
-  int ldc = static_cast<int>(n);
+  int lda = static_cast<int>(std::max<int64_t>(1, transA ? m : k));
+  int ldb = static_cast<int>(std::max<int64_t>(1, transB ? k : n));
+  int ldc = static_cast<int>(std::max<int64_t>(1, n));
 
   constexpr float alpha = 1.f;
   constexpr float beta = 0.f;
@@ -158,9 +160,9 @@ inline void gemmCudaF16Impl(__half* c, const __half* a, const __half* b, int64_t
   cublasOperation_t opA = transA ? CUBLAS_OP_T : CUBLAS_OP_N;
   cublasOperation_t opB = transB ? CUBLAS_OP_T : CUBLAS_OP_N;
 
-  int lda = static_cast<int>(transA ? m : k);
-  int ldb = static_cast<int>(transB ? k : n);
-  int ldc = static_cast<int>(n);
+  int lda = static_cast<int>(std::max<int64_t>(1, transA ? m : k));
+  int ldb = static_cast<int>(std::max<int64_t>(1, transB ? k : n));
+  int ldc = static_cast<int>(std::max<int64_t>(1, n));
 
   constexpr float alpha = 1.f;
   constexpr float beta = 0.f;
@@ -175,9 +177,9 @@ inline void gemmCudaBF16Impl(__nv_bfloat16* c, const __nv_bfloat16* a, const __n
   cublasOperation_t opA = transA ? CUBLAS_OP_T : CUBLAS_OP_N;
   cublasOperation_t opB = transB ? CUBLAS_OP_T : CUBLAS_OP_N;
 
-  int lda = static_cast<int>(transA ? m : k);
-  int ldb = static_cast<int>(transB ? k : n);
-  int ldc = static_cast<int>(n);
+  int lda = static_cast<int>(std::max<int64_t>(1, transA ? m : k));
+  int ldb = static_cast<int>(std::max<int64_t>(1, transB ? k : n));
+  int ldc = static_cast<int>(std::max<int64_t>(1, n));
 
   constexpr float alpha = 1.f;
   constexpr float beta = 0.f;
@@ -213,9 +215,9 @@ inline void gemmStridedBatchedCudaF32Impl(float* c, const float* a, const float*
   cublasOperation_t opA = transA ? CUBLAS_OP_T : CUBLAS_OP_N;
   cublasOperation_t opB = transB ? CUBLAS_OP_T : CUBLAS_OP_N;
 
-  int lda = static_cast<int>(transA ? m : k);
-  int ldb = static_cast<int>(transB ? k : n);
-  int ldc = static_cast<int>(n);
+  int lda = static_cast<int>(std::max<int64_t>(1, transA ? m : k));
+  int ldb = static_cast<int>(std::max<int64_t>(1, transB ? k : n));
+  int ldc = static_cast<int>(std::max<int64_t>(1, n));
 
   constexpr float alpha = 1.f;
   constexpr float beta = 0.f;
@@ -231,9 +233,9 @@ inline void gemmStridedBatchedCudaF16Impl(__half* c, const __half* a, const __ha
   cublasOperation_t opA = transA ? CUBLAS_OP_T : CUBLAS_OP_N;
   cublasOperation_t opB = transB ? CUBLAS_OP_T : CUBLAS_OP_N;
 
-  int lda = static_cast<int>(transA ? m : k);
-  int ldb = static_cast<int>(transB ? k : n);
-  int ldc = static_cast<int>(n);
+  int lda = static_cast<int>(std::max<int64_t>(1, transA ? m : k));
+  int ldb = static_cast<int>(std::max<int64_t>(1, transB ? k : n));
+  int ldc = static_cast<int>(std::max<int64_t>(1, n));
 
   constexpr float alpha = 1.f;
   constexpr float beta = 0.f;
@@ -250,9 +252,9 @@ inline void gemmStridedBatchedCudaBF16Impl(__nv_bfloat16* c, const __nv_bfloat16
   cublasOperation_t opA = transA ? CUBLAS_OP_T : CUBLAS_OP_N;
   cublasOperation_t opB = transB ? CUBLAS_OP_T : CUBLAS_OP_N;
 
-  int lda = static_cast<int>(transA ? m : k);
-  int ldb = static_cast<int>(transB ? k : n);
-  int ldc = static_cast<int>(n);
+  int lda = static_cast<int>(std::max<int64_t>(1, transA ? m : k));
+  int ldb = static_cast<int>(std::max<int64_t>(1, transB ? k : n));
+  int ldc = static_cast<int>(std::max<int64_t>(1, n));
 
   constexpr float alpha = 1.f;
   constexpr float beta = 0.f;
@@ -294,9 +296,9 @@ inline void gemmBatchedCudaF32Impl(float** c, const float** a, const float** b,
   cublasOperation_t opA = transA ? CUBLAS_OP_T : CUBLAS_OP_N;
   cublasOperation_t opB = transB ? CUBLAS_OP_T : CUBLAS_OP_N;
 
-  int lda = static_cast<int>(transA ? m : k);
-  int ldb = static_cast<int>(transB ? k : n);
-  int ldc = static_cast<int>(n);
+  int lda = static_cast<int>(std::max<int64_t>(1, transA ? m : k));
+  int ldb = static_cast<int>(std::max<int64_t>(1, transB ? k : n));
+  int ldc = static_cast<int>(std::max<int64_t>(1, n));
 
   constexpr float alpha = 1.f;
   constexpr float beta = 0.f;
@@ -311,9 +313,9 @@ inline void gemmBatchedCudaF16Impl(__half** c, const __half** a, const __half**
   cublasOperation_t opA = transA ? CUBLAS_OP_T : CUBLAS_OP_N;
   cublasOperation_t opB = transB ? CUBLAS_OP_T : CUBLAS_OP_N;
 
-  int lda = static_cast<int>(transA ? m : k);
-  int ldb = static_cast<int>(transB ? k : n);
-  int ldc = static_cast<int>(n);
+  int lda = static_cast<int>(std::max<int64_t>(1, transA ? m : k));
+  int ldb = static_cast<int>(std::max<int64_t>(1, transB ? k : n));
+  int ldc = static_cast<int>(std::max<int64_t>(1, n));
 
   constexpr float alpha = 1.f;
   constexpr float beta = 0.f;
@@ -330,9 +332,9 @@ inline void gemmBatchedCudaBF16Impl(__nv_bfloat16** c, const __nv_bfloat16** a,
   cublasOperation_t opA = transA ? CUBLAS_OP_T : CUBLAS_OP_N;
   cublasOperation_t opB = transB ? CUBLAS_OP_T : CUBLAS_OP_N;
 
-  int lda = static_cast<int>(transA ? m : k);
-  int ldb = static_cast<int>(transB ? k : n);
-  int ldc = static_cast<int>(n);
+  int lda = static_cast<int>(std::max<int64_t>(1, transA ? m : k));
+  int ldb = static_cast<int>(std::max<int64_t>(1, transB ? k : n));
+  int ldc = static_cast<int>(std::max<int64_t>(1, n));
 
   constexpr float alpha = 1.f;
   constexpr float beta = 0.f;
diff --git a/src/Operation/OpNNLayerCuda.cuh b/src/Operation/OpNNLayerCuda.cuh
index 9054297..d80eca5 100644
--- a/src/Operation/OpNNLayerCuda.cuh
+++ b/src/Operation/OpNNLayerCuda.cuh
@@ -443,6 +443,9 @@ template <typename T, SoftmaxType type>
 void softmaxForwardCudaImpl(Tensor& out, const Tensor& self, int64_t dim) {
   ASSERT(out.shape() == self.shape());
   auto info = getSoftmaxDimInfo(self, dim);
+  if (self.numel() == 0) {
+    return;
+  }
 
   using CudaT = typename cuda::CudaTypeCast<T>::type;
   const CudaT* selfPtr = self.dataPtr<CudaT>();
@@ -479,6 +482,9 @@ Tensor softmaxBackwardCudaImplDetail(const Tensor& grad, const Tensor& output, i
   ASSERT(output.shape() == grad.shape());
   auto info = getSoftmaxDimInfo(output, dim);
   Tensor out(output.shape(), output.options().noGrad());
+  if (out.numel() == 0) {
+    return out;
+  }
 
   using CudaT = typename cuda::CudaTypeCast<T>::type;
   const CudaT* outputPtr = output.dataPtr<CudaT>();
@@ -570,11 +576,14 @@ template <typename T, NormType normType>
 Tensor normOpCudaImplDetail(const Tensor& self, IntArrayView normalizedShape, const Tensor& weight, const Tensor& bias,
                             float eps) {
   int64_t dim = self.shape().back();
-  int64_t numRows = self.numel() / dim;
   ASSERT(normalizedShape.size() == 1);
   ASSERT(normalizedShape.front() == dim);
 
   Tensor out(self.shape(), self.options().noGrad());
+  if (out.numel() == 0) {
+    return out;
+  }
+  int64_t numRows = self.numel() / dim;
 
   using CudaT = typename cuda::CudaTypeCast<T>::type;
   const CudaT* inputPtr = self.dataPtr<CudaT>();
@@ -671,6 +680,9 @@ Tensor ropeApplyOpCudaImpl(const Tensor& input, const Tensor& rope, int64_t offs
   const auto* ropePtr = rope.dataPtr<float>();
 
   Tensor out(shape, input.options().noGrad());
+  if (out.numel() == 0) {
+    return out;
+  }
   auto* outPtr = out.dataPtr<CudaT>();
 
   const auto blockSize = cuda::getKernelBlockSize(input.device().index);
diff --git a/src/Operation/OpReduceCuda.cuh b/src/Operation/OpReduceCuda.cuh
index 47fc0f8..c43dc2c 100644
--- a/src/Operation/OpReduceCuda.cuh
+++ b/src/Operation/OpReduceCuda.cuh
@@ -432,6 +432,9 @@ class ReducerCuda {
 
 template <typename T, typename OP, typename IndexFunc>
 void ReducerCuda::reduceMerge(T* values, const T* input, const Options& options, int64_t n, int64_t m) {
+  if (m == 0) {
+    return;
+  }
   using ComputeT = typename cuda::CudaComputeType<T>::type;
   const auto blockSize = cuda::getKernelBlockSize(options.device_.index);
   const auto& stream = cuda::getCurrentCUDAStream(options.device_.index).stream();
@@ -459,6 +462,9 @@ void ReducerCuda::reduceMerge(T* values, const T* input, const Options& options,
 template <typename T, typename OP, typename IndexFunc>
 void ReducerCuda::reduceIdxMerge(T* values, int64_t* indices, const T* input, const Options& options, int64_t n,
                                  int64_t m) {
+  if (m == 0) {
+    return;
+  }
   using ComputeT = typename cuda::CudaComputeType<T>::type;
   const auto blockSize = cuda::getKernelBlockSize(options.device_.index);
   const auto& stream = cuda::getCurrentCUDAStream(options.device_.index).stream();
@@ -699,17 +705,20 @@ Tensor reduceOpSumDimsCudaImpl(const Tensor& t, const IntArrayView dims, bool ke
 
   const auto retShape = getReduceShape(t, inAxis, keepDims);
   auto ret = Tensor::zeros(retShape, t.options().noGrad());
+  if (ret.numel() == 0) {
+    return ret;
+  }
 
   auto ctxT = cuda::getTensorCudaCtx(t);
 
   constexpr int blockSize = 512;
   ASSERT(blockSize <= cuda::getMaxThreadsPerBlock(t.device().index));
 
-  dim3 grid(t.numel());
+  dim3 grid(ret.numel());
   dim3 block(blockSize);
   const auto& stream = cuda::getCurrentCUDAStream(t.device().index).stream();
   kReduceMultiDimSum<CudaT, blockSize>
-      <<<grid, block, 0, stream>>>(ret.dataPtr<CudaT>(), ctxT, inAxis, reduceCnt, t.numel());
+      <<<grid, block, 0, stream>>>(ret.dataPtr<CudaT>(), ctxT, inAxis, reduceCnt, ret.numel());
   CUDA_KERNEL_CHECK();
   return ret;
 }
diff --git a/src/Operation/OpSamplingCuda.cu b/src/Operation/OpSamplingCuda.cu
index eb7322d..0b9d34d 100644
--- a/src/Operation/OpSamplingCuda.cu
+++ b/src/Operation/OpSamplingCuda.cu
@@ -210,7 +210,7 @@ Tensor multinomialOpCudaImpl(const Tensor& self, int64_t nSamples, bool replacem
   }
 
   Tensor ret = Tensor::empty(retShape, self.options().noGrad().indices());
-  if (n == 0) {
+  if (n == 0 || ret.numel() == 0) {
     return ret;
   }
 
diff --git a/src/Operation/OpTransformCuda.cuh b/src/Operation/OpTransformCuda.cuh
index bfb781f..390fb83 100644
--- a/src/Operation/OpTransformCuda.cuh
+++ b/src/Operation/OpTransformCuda.cuh
@@ -343,6 +343,9 @@ __global__ void kDataCheck(const T* selfPtr, int64_t n) {
 
 template <typename T>
 void cudaTranspose2d(T* out, const T* in, int64_t width, int64_t height, const Device& device) {
+  if (width == 0 || height == 0) {
+    return;
+  }
   dim3 blockSize(TRANSPOSE_TILE_DIM, TRANSPOSE_TILE_DIM);
   dim3 gridSize((width + TRANSPOSE_TILE_DIM - 1) / TRANSPOSE_TILE_DIM,
                 (height + TRANSPOSE_TILE_DIM - 1) / TRANSPOSE_TILE_DIM);
@@ -570,6 +573,9 @@ void indexPutAdvanceOpCudaImpl(Tensor& self, ArrayView<Tensor> indices, const Te
 template <typename T, bool LOWER>
 Tensor triangleOpCudaImpl(const Tensor& self, int64_t diagonal) {
   auto ret = Tensor::empty(self.shape(), self.options().noGrad());
+  if (ret.numel() == 0) {
+    return ret;
+  }
 
   const auto dims = self.dim();
   const auto rows = self.shape(dims - 2);
diff --git a/src/Utils/CUDAUtils.cpp b/src/Utils/CUDAUtils.cpp
index 230ed7f..b35ef12 100644
--- a/src/Utils/CUDAUtils.cpp
+++ b/src/Utils/CUDAUtils.cpp
@@ -6,6 +6,7 @@
 
 #include "CUDAUtils.h"
 
+#include <algorithm>
 #include <vector>
 
 #include "Logger.h"
@@ -175,7 +176,8 @@ unsigned int getKernelBlockSize(int device) {
 }
 
 unsigned int getKernelGridSize(unsigned int blockSize, int64_t n, size_t batch) {
-  return (n + (blockSize * batch) - 1) / (blockSize * batch);
+  // a grid has at least one block, even when there are no elements
+  return std::max<int64_t>(1, (n + (blockSize * batch) - 1) / (blockSize * batch));
 }
 
 KernelLaunchParams getKernelLaunchParams(int device, int64_t n, size_t batch, size_t sharedMemBytes) {
-- 
2.43.0


From 25c3f66de3cc1b00596495c03a5337db2baaf615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:58 +0000
Subject: [PATCH 081/105] fix: CUDA reductions merge partial results out of
 place and copy the converted result

---
 src/Operation/OpReduceCuda.cuh | 40 +++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/src/Operation/OpReduceCuda.cuh b/src/Operation/OpReduceCuda.cuh
index c43dc2c..0eaedc4 100644
--- a/src/Operation/OpReduceCuda.cuh
+++ b/src/Operation/OpReduceCuda.cuh
@@ -440,23 +440,26 @@ void ReducerCuda::reduceMerge(T* values, const T* input, const Options& options,
   const auto& stream = cuda::getCurrentCUDAStream(options.device_.index).stream();
 
   auto blocks = cuda::getKernelGridSize(blockSize, n);
-  Tensor tmp({m * blocks}, Options(options.device_, TypeToDType_v<ComputeT>));
-  ComputeT* tmpPtr = tmp.dataPtr<ComputeT>();
+  const Options computeOptions(options.device_, TypeToDType_v<ComputeT>);
+  Tensor tmp({m * blocks}, computeOptions);
 
   // first round
-  kReduceMerge<ComputeT, T, OP, IndexFunc><<<m * blocks, blockSize, 0, stream>>>(tmpPtr, input, n, m);
+  kReduceMerge<ComputeT, T, OP, IndexFunc><<<m * blocks, blockSize, 0, stream>>>(tmp.dataPtr<ComputeT>(), input, n, m);
   CUDA_KERNEL_CHECK();
 
   // merge
   while (blocks > 1) {
     const auto currBlocks = blocks;
     blocks = cuda::getKernelGridSize(blockSize, currBlocks);
+    // blocks run in any order: a round never writes where it reads
+    Tensor merged({m * blocks}, computeOptions);
     kReduceMerge<ComputeT, ComputeT, OP, IndexFunc>
-        <<<m * blocks, blockSize, 0, stream>>>(tmpPtr, tmpPtr, currBlocks, m);
+        <<<m * blocks, blockSize, 0, stream>>>(merged.dataPtr<ComputeT>(), tmp.dataPtr<ComputeT>(), currBlocks, m);
     CUDA_KERNEL_CHECK();
+    tmp = merged;
   }
   tmp = tmp.to(options.dtype_);
-  Storage::copyOnDevice(values, tmpPtr, m * sizeof(T), options.device_);
+  Storage::copyOnDevice(values, tmp.dataPtr<T>(), m * sizeof(T), options.device_);
 }
 
 template <typename T, typename OP, typename IndexFunc>
@@ -471,30 +474,37 @@ void ReducerCuda::reduceIdxMerge(T* values, int64_t* indices, const T* input, co
 
   auto blocks = cuda::getKernelGridSize(blockSize, n);
 
-  Tensor tmpValues({m * blocks}, Options(options.device_, TypeToDType_v<ComputeT>));
-  Tensor tmpIndices({m * blocks}, Options(options.device_, DType::Int64));
-  ComputeT* tmpValuesPtr = tmpValues.dataPtr<ComputeT>();
-  int64_t* tmpIndicesPtr = tmpIndices.dataPtr<int64_t>();
+  const Options computeOptions(options.device_, TypeToDType_v<ComputeT>);
+  const Options indexOptions(options.device_, DType::Int64);
+  Tensor tmpValues({m * blocks}, computeOptions);
+  Tensor tmpIndices({m * blocks}, indexOptions);
 
   // first round
-  kReduceIdxMerge<ComputeT, T, OP, IndexFunc>
-      <<<m * blocks, blockSize, 0, stream>>>(tmpValuesPtr, tmpIndicesPtr, input, nullptr, n, m);
+  kReduceIdxMerge<ComputeT, T, OP, IndexFunc><<<m * blocks, blockSize, 0, stream>>>(
+      tmpValues.dataPtr<ComputeT>(), tmpIndices.dataPtr<int64_t>(), input, nullptr, n, m);
   CUDA_KERNEL_CHECK();
 
   // merge
   while (blocks > 1) {
     const auto currBlocks = blocks;
     blocks = cuda::getKernelGridSize(blockSize, currBlocks);
-    kReduceIdxMerge<ComputeT, ComputeT, OP, IndexFunc>
-        <<<m * blocks, blockSize, 0, stream>>>(tmpValuesPtr, tmpIndicesPtr, tmpValuesPtr, tmpIndicesPtr, currBlocks, m);
+    // blocks run in any order: a round never writes where it reads
+    Tensor mergedValues({m * blocks}, computeOptions);
+    Tensor mergedIndices({m * blocks}, indexOptions);
+    kReduceIdxMerge<ComputeT, ComputeT, OP, IndexFunc><<<m * blocks, blockSize, 0, stream>>>(
+        mergedValues.dataPtr<ComputeT>(), mergedIndices.dataPtr<int64_t>(), tmpValues.dataPtr<ComputeT>(),
+        tmpIndices.dataPtr<int64_t>(), currBlocks, m);
     CUDA_KERNEL_CHECK();
+    tmpValues = mergedValues;
+    tmpIndices = mergedIndices;
   }
   if (values) {
     tmpValues = tmpValues.to(options.dtype_);
-    Storage::copyOnDevice(values, tmpValuesPtr, m * sizeof(T), options.device_);
+    Storage::copyOnDevice(values, tmpValues.dataPtr<T>(), m * sizeof(T), options.device_);
   }
   if (indices) {
-    Storage::copyOnDevice(indices, tmpIndicesPtr, m * static_cast<int64_t>(sizeof(int64_t)), options.device_);
+    Storage::copyOnDevice(indices, tmpIndices.dataPtr<int64_t>(), m * static_cast<int64_t>(sizeof(int64_t)),
+                          options.device_);
   }
 }
 
-- 
2.43.0


From b2f6ad79a95da5f127acb58635b999e53de24a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:24 +0000
Subject: [PATCH 082/105] fix: CUDA index reductions return the first of equal
 values

---
 src/Operation/OpReduceCuda.cuh | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/Operation/OpReduceCuda.cuh b/src/Operation/OpReduceCuda.cuh
index 0eaedc4..6bc6d18 100644
--- a/src/Operation/OpReduceCuda.cuh
+++ b/src/Operation/OpReduceCuda.cuh
@@ -28,7 +28,12 @@ struct OpCudaReduceMin {
 
   template <typename T>
   __device__ static T defaultVal() {
-    return std::numeric_limits<T>::max();
+    // a value no element beats: integers have no infinity
+    if constexpr (std::numeric_limits<T>::has_infinity) {
+      return std::numeric_limits<T>::infinity();
+    } else {
+      return std::numeric_limits<T>::max();
+    }
   }
 };
 
@@ -45,7 +50,12 @@ struct OpCudaReduceMax {
 
   template <typename T>
   __device__ static T defaultVal() {
-    return std::numeric_limits<T>::lowest();
+    // a value every element reaches: integers have no infinity
+    if constexpr (std::numeric_limits<T>::has_infinity) {
+      return -std::numeric_limits<T>::infinity();
+    } else {
+      return std::numeric_limits<T>::lowest();
+    }
   }
 };
 
@@ -148,7 +158,9 @@ __device__ __forceinline__ void cudaWarpReduceIdx(T& val, int64_t& idx) {
   for (int offset = 16; offset > 0; offset /= 2) {
     T otherVal = __shfl_down_sync(0xFFFFFFFF, val, offset);
     int64_t otherIdx = __shfl_down_sync(0xFFFFFFFF, idx, offset);
-    if (OP::template apply(otherVal, val) == otherVal) {
+    // the first of equal values wins, and an element always wins over none (-1)
+    const bool better = idx < 0 || OP::template compare<T>(otherVal, val) || (otherVal == val && otherIdx < idx);
+    if (otherIdx >= 0 && better) {
       val = otherVal;
       idx = otherIdx;
     }
@@ -279,7 +291,8 @@ __global__ void kReduceIdxDimFirstOrLast(T* outValues, int64_t* outIndices, cons
     for (int64_t j = 0; j < segLength; j++) {
       const auto val = static_cast<ComputeT>(inValues[srcIdx]);
       srcIdx += isFirstDim ? segCount : 1;
-      if (OP::template apply(val, targetVal) == val) {
+      // the first of equal values wins
+      if (j == 0 || OP::template compare<ComputeT>(val, targetVal)) {
         targetVal = val;
         targetIdx = j;
       }
@@ -309,7 +322,8 @@ __global__ void kReduceIdxDim(cuda::TensorCudaCtx values, int64_t* indices, cons
     for (int64_t j = 0; j < dimSize; j++) {
       const auto val = static_cast<ComputeT>(tPtr[srcIdx]);
       srcIdx += stride;
-      if (OP::template apply(val, targetVal) == val) {
+      // the first of equal values wins
+      if (j == 0 || OP::template compare<ComputeT>(val, targetVal)) {
         targetVal = val;
         targetIdx = j;
       }
-- 
2.43.0


From 70bd910c8a969e591c1f615177bffd11188699a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:24 +0000
Subject: [PATCH 083/105] fix: CUDA varMeanOnDim(s) gives the mean the shape of
 the variance

---
 src/Operation/OpReduceCuda.cuh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Operation/OpReduceCuda.cuh b/src/Operation/OpReduceCuda.cuh
index 6bc6d18..1f203f8 100644
--- a/src/Operation/OpReduceCuda.cuh
+++ b/src/Operation/OpReduceCuda.cuh
@@ -858,6 +858,9 @@ TensorPair reduceOpVarMeanDimsCudaImpl(const Tensor& t, IntArrayView dims, bool
     r *= reduceSize / (reduceSize - 1.f);
   }
   op::mulInplace(varVal, Tensor::scalar(r, varVal.options().noGrad()));
+  if (!keepDims) {
+    meanVal.reshape_(retShape);
+  }
   return {varVal, meanVal};
 }
 
-- 
2.43.0


From 273b6f2d758902495a86de90739348802d2fd77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:47 +0000
Subject: [PATCH 084/105] fix: CUDA out-variants and index put detach shared
 storage before they write

---
 src/Operation/OpElemWiseCuda.cuh  | 1 +
 src/Operation/OpNNLayerCuda.cuh   | 1 +
 src/Operation/OpTransformCuda.cuh | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/Operation/OpElemWiseCuda.cuh b/src/Operation/OpElemWiseCuda.cuh
index cbb3464..fb0d0ce 100644
--- a/src/Operation/OpElemWiseCuda.cuh
+++ b/src/Operation/OpElemWiseCuda.cuh
@@ -335,6 +335,7 @@ Tensor unaryOpCudaImpl(const Tensor& self) {
 template <typename T, typename OP>
 void unaryOpOutCudaImpl(Tensor& out, const Tensor& self) {
   ASSERT(self.shape() == out.shape());
+  out.copyOnWrite();
   T* outPtr = out.dataPtr<T>();
   const T* selfPtr = self.dataPtr<T>();
   int64_t n = self.numel();
diff --git a/src/Operation/OpNNLayerCuda.cuh b/src/Operation/OpNNLayerCuda.cuh
index d80eca5..c78ed59 100644
--- a/src/Operation/OpNNLayerCuda.cuh
+++ b/src/Operation/OpNNLayerCuda.cuh
@@ -442,6 +442,7 @@ __global__ void kRopeApply(const T* input, const float* rope, T* output, int64_t
 template <typename T, SoftmaxType type>
 void softmaxForwardCudaImpl(Tensor& out, const Tensor& self, int64_t dim) {
   ASSERT(out.shape() == self.shape());
+  out.copyOnWrite();
   auto info = getSoftmaxDimInfo(self, dim);
   if (self.numel() == 0) {
     return;
diff --git a/src/Operation/OpTransformCuda.cuh b/src/Operation/OpTransformCuda.cuh
index 390fb83..d4d5eba 100644
--- a/src/Operation/OpTransformCuda.cuh
+++ b/src/Operation/OpTransformCuda.cuh
@@ -530,6 +530,7 @@ Tensor indexAdvanceOpCudaImpl(const Tensor& self, ArrayView<Tensor> indices) {
 
 template <typename T>
 void indexPutAdvanceOpCudaImpl(Tensor& self, ArrayView<Tensor> indices, const Tensor& val) {
+  self.copyOnWrite();
   auto len = static_cast<int64_t>(indices.size());
   auto firstDim = indices[0].numel();
   auto dimStride = self.stride(len - 1);
-- 
2.43.0


From c3262fd01af6c1f2b75b710f9486033e4b27beb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:47 +0000
Subject: [PATCH 085/105] fix: CUDA block reduction waits for readers of the
 previous result

---
 src/Operation/OpNNLayerCuda.cuh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Operation/OpNNLayerCuda.cuh b/src/Operation/OpNNLayerCuda.cuh
index c78ed59..4888d01 100644
--- a/src/Operation/OpNNLayerCuda.cuh
+++ b/src/Operation/OpNNLayerCuda.cuh
@@ -22,6 +22,7 @@ __device__ T cudaBlockReduce(T val, T init) {
   __shared__ T shared[32];
   auto lane = threadIdx.x & 0x1f;
   auto wid = threadIdx.x >> 5;
+  __syncthreads();  // every thread has read the result of an earlier reduction
   if (lane == 0) shared[wid] = val;
   __syncthreads();
   val = (threadIdx.x < (blockDim.x >> 5)) ? shared[lane] : init;
-- 
2.43.0


From 74462da08628a31574fc4e415d077cc370df75b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:47 +0000
Subject: [PATCH 086/105] fix: CUDA softmax launches stay within the grid
 limits for any inner and outer size

---
 src/Operation/OpNNLayerCuda.cuh | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/Operation/OpNNLayerCuda.cuh b/src/Operation/OpNNLayerCuda.cuh
index 4888d01..5a22b82 100644
--- a/src/Operation/OpNNLayerCuda.cuh
+++ b/src/Operation/OpNNLayerCuda.cuh
@@ -36,8 +36,8 @@ __device__ T cudaBlockReduce(T val, T init) {
 
 template <typename T, SoftmaxType type>
 __global__ void kSoftmaxForward(T* out, const T* self, int64_t dimSize, int64_t innerSize) {
-  auto outer = blockIdx.x;
-  auto inner = blockIdx.y;
+  const int64_t outer = blockIdx.x / innerSize;
+  const int64_t inner = blockIdx.x % innerSize;
   auto tid = threadIdx.x;
   auto base = (outer * dimSize * innerSize) + inner;
 
@@ -76,10 +76,10 @@ template <typename T, SoftmaxType type>
 __global__ void kSoftmaxForwardLargeDim(T* out, const T* self, int64_t dimSize, int64_t innerSize) {
   __shared__ float shared[2];  // max, sum
 
-  auto blockPerRow = gridDim.x;
-  auto blockId = blockIdx.x;
-  auto outer = blockIdx.y;
-  auto inner = blockIdx.z;
+  auto blockPerRow = gridDim.y;
+  auto blockId = blockIdx.y;
+  const int64_t outer = blockIdx.x / innerSize;
+  const int64_t inner = blockIdx.x % innerSize;
   auto tid = threadIdx.x;
 
   auto tileSize = (dimSize + blockPerRow - 1) / blockPerRow;
@@ -169,8 +169,8 @@ struct OpCudaLogSoftmaxBackward {
 
 template <typename T, typename Op>
 __global__ void kSoftmaxBackward(T* out, const T* output, const T* grad, int64_t dimSize, int64_t innerSize) {
-  auto outer = blockIdx.x;
-  auto inner = blockIdx.y;
+  const int64_t outer = blockIdx.x / innerSize;
+  const int64_t inner = blockIdx.x % innerSize;
   auto tid = threadIdx.x;
   auto base = (outer * dimSize * innerSize) + inner;
 
@@ -190,9 +190,9 @@ __global__ void kSoftmaxBackward(T* out, const T* output, const T* grad, int64_t
 template <typename T, typename Op, bool isPhase1>
 __global__ void kSoftmaxBackwardLarge(T* out, const T* output, const T* grad, float* partialSums, int64_t dimSize,
                                       int64_t innerSize, int64_t numBlocks) {
-  auto outer = blockIdx.z;
-  auto inner = blockIdx.y;
-  auto blockId = blockIdx.x;
+  const int64_t outer = blockIdx.x / innerSize;
+  const int64_t inner = blockIdx.x % innerSize;
+  auto blockId = blockIdx.y;
   auto tid = threadIdx.x;
   auto base = (outer * dimSize * innerSize) + inner;
 
@@ -455,12 +455,13 @@ void softmaxForwardCudaImpl(Tensor& out, const Tensor& self, int64_t dim) {
 
   if (info.dimSize <= 1024) {
     dim3 block(std::clamp(nextPow2(info.dimSize), 32u, 1024u));
-    dim3 grid(info.outerSize, info.innerSize);
+    // rows go in x: y and z are limited to 65535 blocks
+    dim3 grid(info.outerSize * info.innerSize);
     const auto& stream = cuda::getCurrentCUDAStream(self.device().index).stream();
     kSoftmaxForward<CudaT, type><<<grid, block, 0, stream>>>(outPtr, selfPtr, info.dimSize, info.innerSize);
   } else {
     auto blockSize = cuda::getKernelBlockSize(self.device().index);
-    dim3 grid(1, info.outerSize, info.innerSize);
+    dim3 grid(info.outerSize * info.innerSize);
     const auto& stream = cuda::getCurrentCUDAStream(self.device().index).stream();
     kSoftmaxForwardLargeDim<CudaT, type><<<grid, blockSize, 0, stream>>>(outPtr, selfPtr, info.dimSize, info.innerSize);
   }
@@ -496,7 +497,8 @@ Tensor softmaxBackwardCudaImplDetail(const Tensor& grad, const Tensor& output, i
 
   if (info.dimSize <= 1024) {
     dim3 block(std::clamp(nextPow2(info.dimSize), 32u, 1024u));
-    dim3 grid(info.outerSize, info.innerSize);
+    // rows go in x: y and z are limited to 65535 blocks
+    dim3 grid(info.outerSize * info.innerSize);
     kSoftmaxBackward<CudaT, Op><<<grid, block, 0, stream>>>(outPtr, outputPtr, gradPtr, info.dimSize, info.innerSize);
   } else {
     constexpr int64_t maxBlocksPerDim = 16;
@@ -507,7 +509,7 @@ Tensor softmaxBackwardCudaImplDetail(const Tensor& grad, const Tensor& output, i
     auto* partialSumsPtr = partialSums.dataPtr<float>();
 
     dim3 block(cuda::getKernelBlockSize(output.device().index));
-    dim3 grid(numBlocks, info.innerSize, info.outerSize);
+    dim3 grid(info.outerSize * info.innerSize, numBlocks);
 
     // phase 1
     kSoftmaxBackwardLarge<CudaT, Op, true><<<grid, block, 0, stream>>>(outPtr, outputPtr, gradPtr, partialSumsPtr,
-- 
2.43.0


From c97b79148bcce469b359a54050f3bc1d7808f59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:47 +0000
Subject: [PATCH 087/105] fix: manualSeed restarts the CUDA random sequence

---
 src/Utils/RandomGenerator.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Utils/RandomGenerator.h b/src/Utils/RandomGenerator.h
index 935b609..e4cf6b1 100644
--- a/src/Utils/RandomGenerator.h
+++ b/src/Utils/RandomGenerator.h
@@ -35,7 +35,10 @@ class RandomGeneratorCPU {
 
 class RandomGeneratorCUDA {
  public:
-  static void setSeed(unsigned long seed) { seed_ = seed; }
+  static void setSeed(unsigned long seed) {
+    seed_ = seed;
+    sequence_ = 0;
+  }
   static unsigned long getSeed() { return seed_; }
   static unsigned long nextSequence() { return sequence_++; }
 
-- 
2.43.0


From 287d77a1e1bc2db6858b07a006d450f33319bb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:47 +0000
Subject: [PATCH 088/105] fix: CUDA mseLoss backward divides by the number of
 broadcast elements

---
 src/Operation/OpLossCuda.cuh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Operation/OpLossCuda.cuh b/src/Operation/OpLossCuda.cuh
index d62baf0..13cad95 100644
--- a/src/Operation/OpLossCuda.cuh
+++ b/src/Operation/OpLossCuda.cuh
@@ -42,7 +42,7 @@ Tensor mseLossOpBackwardCudaImpl(const Tensor& grad, const Tensor& input, const
 
   switch (reduction) {
     case LossReduction::MEAN:
-      op::divInplace(out, Tensor::scalar(input.numel(), out.options().noGrad()));
+      op::divInplace(out, Tensor::scalar(out.numel(), out.options().noGrad()));
       break;
     default:
       break;
-- 
2.43.0


From 7850ad229e82a21da7331dd741aacb30a78e1b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:01 +0000
Subject: [PATCH 089/105] fix: CUDA nllLoss backward multiplies by the incoming
 gradient

---
 src/Operation/OpLossCuda.cuh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Operation/OpLossCuda.cuh b/src/Operation/OpLossCuda.cuh
index 13cad95..9395453 100644
--- a/src/Operation/OpLossCuda.cuh
+++ b/src/Operation/OpLossCuda.cuh
@@ -88,6 +88,9 @@ Tensor nllLossOpBackwardCudaImpl(const Tensor& grad, const Tensor& input, const
     default:
       break;
   }
+  // one gradient per sample, or one for all
+  op::mulInplace(out, grad.numel() == 1 ? op::reshape(grad, IntArrayView{1, 1})
+                                         : op::reshape(grad, IntArrayView{batchSize, 1}));
   // TODO fuse
   return out;
 }
-- 
2.43.0


From fd2d22e264a2cd14bbdc1b343ff821a252503143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:41 +0000
Subject: [PATCH 090/105] fix: CUDA bernoulli and dropout are exact at
 probabilities 0 and 1

---
 src/Operation/OpFillingCuda.cuh | 16 ++++++++--------
 src/Operation/OpNNLayerCuda.cuh | 21 ++++++++++++---------
 2 files changed, 20 insertions(+), 17 deletions(-)

diff --git a/src/Operation/OpFillingCuda.cuh b/src/Operation/OpFillingCuda.cuh
index 7998a22..73e4df9 100644
--- a/src/Operation/OpFillingCuda.cuh
+++ b/src/Operation/OpFillingCuda.cuh
@@ -112,17 +112,17 @@ __global__ void kFillRandBernoulli(T* t, const float p, const unsigned long seed
   if (index < n) {
     curandStatePhilox4_32_10_t state;
     curand_init(seed, seq, index, &state);
-    const auto rand = curand_uniform4(&state);
+    const auto rand = curand_uniform4(&state);  // in (0, 1]
 
     if (index + 3 < n) {
-      t[index] = rand.x < p ? T(1.f) : T(0.f);
-      t[index + 1] = rand.y < p ? T(1.f) : T(0.f);
-      t[index + 2] = rand.z < p ? T(1.f) : T(0.f);
-      t[index + 3] = rand.w < p ? T(1.f) : T(0.f);
+      t[index] = rand.x <= p ? T(1.f) : T(0.f);
+      t[index + 1] = rand.y <= p ? T(1.f) : T(0.f);
+      t[index + 2] = rand.z <= p ? T(1.f) : T(0.f);
+      t[index + 3] = rand.w <= p ? T(1.f) : T(0.f);
     } else {
-      if (index < n) t[index] = rand.x < p ? T(1.f) : T(0.f);
-      if (index + 1 < n) t[index + 1] = rand.y < p ? T(1.f) : T(0.f);
-      if (index + 2 < n) t[index + 2] = rand.z < p ? T(1.f) : T(0.f);
+      if (index < n) t[index] = rand.x <= p ? T(1.f) : T(0.f);
+      if (index + 1 < n) t[index + 1] = rand.y <= p ? T(1.f) : T(0.f);
+      if (index + 2 < n) t[index + 2] = rand.z <= p ? T(1.f) : T(0.f);
     }
   }
 }
diff --git a/src/Operation/OpNNLayerCuda.cuh b/src/Operation/OpNNLayerCuda.cuh
index 5a22b82..7544a82 100644
--- a/src/Operation/OpNNLayerCuda.cuh
+++ b/src/Operation/OpNNLayerCuda.cuh
@@ -234,18 +234,18 @@ __global__ void kDropout(T* out, const T* self, const float p, const unsigned lo
   if (index < n) {
     curandStatePhilox4_32_10_t state;
     curand_init(seed, seq, index, &state);
-    const auto rand = curand_uniform4(&state);
+    const auto rand = curand_uniform4(&state);  // in (0, 1]
 
     T tp = static_cast<T>(p);
     if (index + 3 < n) {
-      out[index] = rand.x < p ? (self[index] / tp) : T(0.f);
-      out[index + 1] = rand.y < p ? (self[index + 1] / tp) : T(0.f);
-      out[index + 2] = rand.z < p ? (self[index + 2] / tp) : T(0.f);
-      out[index + 3] = rand.w < p ? (self[index + 3] / tp) : T(0.f);
+      out[index] = rand.x <= p ? (self[index] / tp) : T(0.f);
+      out[index + 1] = rand.y <= p ? (self[index + 1] / tp) : T(0.f);
+      out[index + 2] = rand.z <= p ? (self[index + 2] / tp) : T(0.f);
+      out[index + 3] = rand.w <= p ? (self[index + 3] / tp) : T(0.f);
     } else {
-      if (index < n) out[index] = rand.x < p ? (self[index] / tp) : T(0.f);
-      if (index + 1 < n) out[index + 1] = rand.y < p ? (self[index + 1] / tp) : T(0.f);
-      if (index + 2 < n) out[index + 2] = rand.z < p ? (self[index + 2] / tp) : T(0.f);
+      if (index < n) out[index] = rand.x <= p ? (self[index] / tp) : T(0.f);
+      if (index + 1 < n) out[index + 1] = rand.y <= p ? (self[index + 1] / tp) : T(0.f);
+      if (index + 2 < n) out[index + 2] = rand.z <= p ? (self[index + 2] / tp) : T(0.f);
     }
   }
 }
@@ -572,7 +572,10 @@ Tensor dropoutMaskedOpCudaImpl(const Tensor& self, const Tensor& mask, float p)
   using CudaT = typename cuda::CudaTypeCast<T>::type;
   auto tp = static_cast<CudaT>(p);
   iterator.template forEach<CudaT>(out,
-                                   [tp] __device__(const CudaT& a, const CudaT& b) -> CudaT { return a * b / tp; });
+                                   [p, tp] __device__(const CudaT& a, const CudaT& b) -> CudaT {
+                                     // nothing is kept when p is 0
+                                     return p > 0.f ? a * b / tp : CudaT(0.f);
+                                   });
   return out;
 }
 
-- 
2.43.0


From 537b1cfab1bae6f802dc05237ae60e9000855219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:41 +0000
Subject: [PATCH 091/105] fix: CUDA cast to bool is true for every non-zero
 value

---
 src/Operation/OpTransformCuda.cu | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Operation/OpTransformCuda.cu b/src/Operation/OpTransformCuda.cu
index c25f0f3..f44b009 100644
--- a/src/Operation/OpTransformCuda.cu
+++ b/src/Operation/OpTransformCuda.cu
@@ -12,7 +12,11 @@ template <typename SrcT, typename DstT>
 __global__ void kDtypeCast(const SrcT* src, DstT* dst, int64_t numel) {
   auto idx = blockIdx.x * blockDim.x + threadIdx.x;
   if (idx < numel) {
-    dst[idx] = static_cast<DstT>(src[idx]);
+    if constexpr (std::is_same_v<DstT, DTypeToType_t<DType::Bool>>) {
+      dst[idx] = src[idx] != static_cast<SrcT>(0.f);
+    } else {
+      dst[idx] = static_cast<DstT>(src[idx]);
+    }
   }
 }
 
-- 
2.43.0


From 675eb937193864255aea17e54a18f7995ec6c54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:41 +0000
Subject: [PATCH 092/105] fix: CUDA transpose, tril and triu launches stay
 within the grid limits

---
 src/Operation/OpTransformCuda.cuh | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/Operation/OpTransformCuda.cuh b/src/Operation/OpTransformCuda.cuh
index d4d5eba..0f94fd9 100644
--- a/src/Operation/OpTransformCuda.cuh
+++ b/src/Operation/OpTransformCuda.cuh
@@ -59,16 +59,20 @@ template <typename T>
 __global__ void kTranspose2D(T* out, const T* in, const int64_t width, const int64_t height) {
   __shared__ T tile[TRANSPOSE_TILE_DIM][TRANSPOSE_TILE_DIM + 1];  // +1 to avoid bank conflicts
 
-  auto x = blockIdx.x * TRANSPOSE_TILE_DIM + threadIdx.x;
-  auto y = blockIdx.y * TRANSPOSE_TILE_DIM + threadIdx.y;
+  const int64_t tilesX = (width + TRANSPOSE_TILE_DIM - 1) / TRANSPOSE_TILE_DIM;
+  const int64_t tileX = blockIdx.x % tilesX;
+  const int64_t tileY = blockIdx.x / tilesX;
+
+  auto x = tileX * TRANSPOSE_TILE_DIM + threadIdx.x;
+  auto y = tileY * TRANSPOSE_TILE_DIM + threadIdx.y;
 
   if (x < width && y < height) {
     tile[threadIdx.y][threadIdx.x] = in[y * width + x];
   }
   __syncthreads();
 
-  x = blockIdx.y * TRANSPOSE_TILE_DIM + threadIdx.x;
-  y = blockIdx.x * TRANSPOSE_TILE_DIM + threadIdx.y;
+  x = tileY * TRANSPOSE_TILE_DIM + threadIdx.x;
+  y = tileX * TRANSPOSE_TILE_DIM + threadIdx.y;
 
   if (x < height && y < width) {
     out[y * height + x] = tile[threadIdx.x][threadIdx.y];
@@ -192,9 +196,12 @@ __global__ void kIndexPut2D(T* self, const int64_t* indices0, const int64_t* ind
 template <typename T, bool LOWER>
 __global__ void kTriangle(T* ret, const T* t, const int64_t batch, const int64_t rows, const int64_t cols,
                           const int64_t diagonal, const int64_t matrixSize) {
-  const int64_t b = blockIdx.z;
-  const int64_t i = blockIdx.y * blockDim.y + threadIdx.y;
-  const int64_t j = blockIdx.x * blockDim.x + threadIdx.x;
+  const int64_t tilesX = (cols + blockDim.x - 1) / blockDim.x;
+  const int64_t tilesY = (rows + blockDim.y - 1) / blockDim.y;
+  const int64_t tile = blockIdx.x % (tilesX * tilesY);
+  const int64_t b = blockIdx.x / (tilesX * tilesY);
+  const int64_t i = tile / tilesX * blockDim.y + threadIdx.y;
+  const int64_t j = tile % tilesX * blockDim.x + threadIdx.x;
 
   if (b < batch && i < rows && j < cols) {
     const int64_t index = b * matrixSize + i * cols + j;
@@ -347,8 +354,9 @@ void cudaTranspose2d(T* out, const T* in, int64_t width, int64_t height, const D
     return;
   }
   dim3 blockSize(TRANSPOSE_TILE_DIM, TRANSPOSE_TILE_DIM);
-  dim3 gridSize((width + TRANSPOSE_TILE_DIM - 1) / TRANSPOSE_TILE_DIM,
-                (height + TRANSPOSE_TILE_DIM - 1) / TRANSPOSE_TILE_DIM);
+  // tiles go in x: y is limited to 65535 blocks
+  dim3 gridSize(((width + TRANSPOSE_TILE_DIM - 1) / TRANSPOSE_TILE_DIM) *
+                ((height + TRANSPOSE_TILE_DIM - 1) / TRANSPOSE_TILE_DIM));
 
   const auto& stream = cuda::getCurrentCUDAStream(device.index).stream();
   kTranspose2D<<<gridSize, blockSize, 0, stream>>>(out, in, width, height);
@@ -592,7 +600,8 @@ Tensor triangleOpCudaImpl(const Tensor& self, int64_t diagonal) {
   T* retPtr = ret.dataPtr<T>();
 
   dim3 blockSize(16, 16);
-  dim3 gridSize((cols + blockSize.x - 1) / blockSize.x, (rows + blockSize.y - 1) / blockSize.y, batch);
+  // tiles and batches go in x: y and z are limited to 65535 blocks
+  dim3 gridSize(((cols + blockSize.x - 1) / blockSize.x) * ((rows + blockSize.y - 1) / blockSize.y) * batch);
 
   const auto& stream = cuda::getCurrentCUDAStream(self.device().index).stream();
   kTriangle<T, LOWER><<<gridSize, blockSize, 0, stream>>>(retPtr, selfPtr, batch, rows, cols, diagonal, matrixSize);
-- 
2.43.0


From e07e1c218aafa95ab2835162f2704873874aaab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:46 +0000
Subject: [PATCH 093/105] fix: a CUDA op runs on the device of its tensors

---
 src/Tensor/Dispatch.h | 38 +++++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/src/Tensor/Dispatch.h b/src/Tensor/Dispatch.h
index 0389dba..6ae43e4 100644
--- a/src/Tensor/Dispatch.h
+++ b/src/Tensor/Dispatch.h
@@ -12,6 +12,11 @@
 
 #include "Tensor.h"
 #include "Utils/VectorUtils.h"
+#ifdef USE_CUDA
+#include <optional>
+
+#include "Utils/CUDAUtils.h"
+#endif
 
 namespace tinytorch {
 
@@ -57,34 +62,53 @@ template <typename T>
 constexpr bool isTensorArrayValue = std::is_same_v<std::decay_t<T>, ArrayView<Tensor>>;
 
 template <typename First, typename... Rest>
-DispatchKey getDispatchKeyFromArgs(First&& first, Rest&&... rest) {
+std::pair<Device, DType> getDispatchTargetFromArgs(First&& first, Rest&&... rest) {
   if constexpr (isOptionValue<First>) {
-    return {first.device_.type, first.dtype_};
+    return {first.device_, first.dtype_};
   } else if constexpr (isTensorValue<First>) {
-    return {first.device().type, first.dtype()};
+    return {first.device(), first.dtype()};
   } else if constexpr (isTensorArrayValue<std::decay_t<First>>) {
     ASSERT(!first.empty());
     const Tensor& t = first[0];
     ASSERT(t.defined());
-    return {t.device().type, t.dtype()};
+    return {t.device(), t.dtype()};
   } else {
-    static_assert(sizeof...(Rest) > 0, "No Tensor argument found in getDispatchKeyFromArgs");
-    return getDispatchKeyFromArgs(std::forward<Rest>(rest)...);
+    static_assert(sizeof...(Rest) > 0, "No Tensor argument found in getDispatchTargetFromArgs");
+    return getDispatchTargetFromArgs(std::forward<Rest>(rest)...);
   }
 }
 
+// an op runs with the device of its tensors as the current one
+class DispatchDeviceGuard {
+ public:
+#ifdef USE_CUDA
+  explicit DispatchDeviceGuard(const Device& device) {
+    if (device.isCuda()) {
+      guard_.emplace(device.index);
+    }
+  }
+
+ private:
+  std::optional<cuda::CudaDeviceGuard> guard_;
+#else
+  explicit DispatchDeviceGuard(const Device&) {}
+#endif
+};
+
 #define DEFINE_OP(opname, fnType)                                                                                  \
   struct opname##Tag {};                                                                                           \
   using opname##Fn = fnType;                                                                                       \
   using opname##Registry = OpRegistry<opname##Tag, opname##Fn>;                                                    \
   template <typename... Args>                                                                                      \
   inline auto opname(Args&&... args) {                                                                             \
-    DispatchKey key = getDispatchKeyFromArgs(std::forward<Args>(args)...);                                         \
+    auto target = getDispatchTargetFromArgs(std::forward<Args>(args)...);                                          \
+    DispatchKey key = {target.first.type, target.second};                                                          \
     auto fn = opname##Registry::lookup(key);                                                                       \
     if (!fn) {                                                                                                     \
       std::cerr << "Error call op: " << #opname << ", no impl for dispatch key = " << key.toString() << std::endl; \
     }                                                                                                              \
     ASSERT(fn&& #opname);                                                                                          \
+    DispatchDeviceGuard guard(target.first);                                                                       \
     return fn(std::forward<Args>(args)...);                                                                        \
   }                                                                                                                \
   struct opname##Register {                                                                                        \
-- 
2.43.0


From b1e6cd6cea9e25af37a7ad54bba3fcef35e50889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:46 +0000
Subject: [PATCH 094/105] fix: copy from pinned memory to CUDA is done when it
 returns

---
 src/Tensor/Storage.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Tensor/Storage.cpp b/src/Tensor/Storage.cpp
index 7fba16f..13f042b 100644
--- a/src/Tensor/Storage.cpp
+++ b/src/Tensor/Storage.cpp
@@ -57,6 +57,8 @@ void Storage::copyOnDevice(void* dst, const Device& dstDevice, const void* src,
     cuda::CudaDeviceGuard guard(dstDevice.index);
     auto& stream = cuda::getCurrentCUDAStream(dstDevice.index);
     CUDA_CHECK(cudaMemcpyAsync(dst, src, nbytes, cudaMemcpyHostToDevice, stream.stream()));
+    // pinned memory is read by the queued copy: the source may change or go after this call
+    stream.synchronize();
     return;
   }
 
-- 
2.43.0


From 3d3be08f636062bc9efe44e2662134fa75257aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:46 +0000
Subject: [PATCH 095/105] fix: copy between CUDA devices is ordered with the
 work of both

---
 src/Tensor/Storage.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/Tensor/Storage.cpp b/src/Tensor/Storage.cpp
index 13f042b..d8c6529 100644
--- a/src/Tensor/Storage.cpp
+++ b/src/Tensor/Storage.cpp
@@ -48,7 +48,20 @@ void Storage::copyOnDevice(void* dst, const Device& dstDevice, const void* src,
   if (dstDevice.isCuda() && srcDevice.isCuda()) {
     cuda::CudaDeviceGuard guard(dstDevice.index);
     auto& stream = cuda::getCurrentCUDAStream(dstDevice.index);
+    if (srcDevice.index != dstDevice.index) {
+      // the copy waits for the work that writes the source
+      cuda::CudaDeviceGuard srcGuard(srcDevice.index);
+      auto ready = cuda::createCUDAEvent(srcDevice.index);
+      ready.record(cuda::getCurrentCUDAStream(srcDevice.index));
+      ready.block(stream);
+    }
     CUDA_CHECK(cudaMemcpyAsync(dst, src, nbytes, cudaMemcpyDeviceToDevice, stream.stream()));
+    if (srcDevice.index != dstDevice.index) {
+      // and later work on the source waits for the copy
+      auto done = cuda::createCUDAEvent(dstDevice.index);
+      done.record(stream);
+      done.block(cuda::getCurrentCUDAStream(srcDevice.index));
+    }
     return;
   }
 
-- 
2.43.0


From 52129c356b46350713084d29ab4fea124e94df42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:45 +0000
Subject: [PATCH 096/105] fix: allGather fills the output tensors

---
 src/Distributed/BackendNCCL.cpp | 10 +++++++++-
 src/Distributed/BackendNCCL.h   | 14 +++++++++++---
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/Distributed/BackendNCCL.cpp b/src/Distributed/BackendNCCL.cpp
index 4d578ee..e6021f6 100644
--- a/src/Distributed/BackendNCCL.cpp
+++ b/src/Distributed/BackendNCCL.cpp
@@ -51,13 +51,21 @@ std::shared_ptr<Work> BackendNCCL::allGather(std::vector<std::vector<Tensor>>& o
   ASSERT(outputTensors.size() == 1);
   ASSERT(inputTensors.size() == 1);
   auto& input = inputTensors.back();
-  auto output = op::stack(ArrayView<Tensor>(outputTensors.back()), 0);
+  auto& outputs = outputTensors.back();
+  auto output = op::stack(ArrayView<Tensor>(outputs), 0);
   return collective(
       input, output,
       [&](const std::shared_ptr<NCCLComm>& comm, cudaStream_t stream) {
         return ncclAllGather(input.dataPtr<>(), output.dataPtr<>(), input.numel(), getNcclDataType(input.dtype()),
                              comm->getNcclComm(), stream);
       },
+      [&](cudaStream_t stream) {
+        const auto* data = static_cast<const uint8_t*>(output.dataPtr<>());
+        for (size_t i = 0; i < outputs.size(); i++) {
+          CUDA_CHECK(cudaMemcpyAsync(outputs[i].dataPtr<>(), data + i * outputs[i].nbytes(), outputs[i].nbytes(),
+                                     cudaMemcpyDeviceToDevice, stream));
+        }
+      },
       OpType::ALL_GATHER);
 }
 
diff --git a/src/Distributed/BackendNCCL.h b/src/Distributed/BackendNCCL.h
index b131ab7..496f2f7 100644
--- a/src/Distributed/BackendNCCL.h
+++ b/src/Distributed/BackendNCCL.h
@@ -106,7 +106,13 @@ class BackendNCCL : public Backend {
   }
 
   template <typename Func>
-  std::shared_ptr<Work> collective(Tensor& input, Tensor& output, Func&& ncclFunc, OpType opType);
+  std::shared_ptr<Work> collective(Tensor& input, Tensor& output, Func&& ncclFunc, OpType opType) {
+    return collective(input, output, std::forward<Func>(ncclFunc), [](cudaStream_t) {}, opType);
+  }
+
+  // postFunc adds work to the NCCL stream after the operation
+  template <typename Func, typename PostFunc>
+  std::shared_ptr<Work> collective(Tensor& input, Tensor& output, Func&& ncclFunc, PostFunc&& postFunc, OpType opType);
 
   template <typename Func>
   std::shared_ptr<Work> pointToPoint(Tensor& tensor, Func&& ncclFunc, OpType opType) {
@@ -148,8 +154,9 @@ class BackendNCCL : public Backend {
   BackendErrorType error_ = BackendErrorType::SUCCESS;
 };
 
-template <typename Func>
-std::shared_ptr<Work> BackendNCCL::collective(Tensor& input, Tensor& output, Func&& ncclFunc, OpType opType) {
+template <typename Func, typename PostFunc>
+std::shared_ptr<Work> BackendNCCL::collective(Tensor& input, Tensor& output, Func&& ncclFunc, PostFunc&& postFunc,
+                                              OpType opType) {
   if (!input.defined()) {
     LOGE("BackendNCCL::collective error: input undefined");
     return nullptr;
@@ -185,6 +192,7 @@ std::shared_ptr<Work> BackendNCCL::collective(Tensor& input, Tensor& output, Fun
     return nullptr;
   }
 
+  postFunc(ncclStream.stream());
   work->getCudaEvent().record(ncclStream);
   workEnqueue(work);
   return work;
-- 
2.43.0


From 6bd39ce8b2ff6ddebfaae0f9261a38ffbdb8f339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:45 +0000
Subject: [PATCH 097/105] fix: an operation in progress keeps its input

---
 src/Distributed/BackendNCCL.h | 1 +
 src/Distributed/WorkNCCL.h    | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/Distributed/BackendNCCL.h b/src/Distributed/BackendNCCL.h
index 496f2f7..061f44c 100644
--- a/src/Distributed/BackendNCCL.h
+++ b/src/Distributed/BackendNCCL.h
@@ -181,6 +181,7 @@ std::shared_ptr<Work> BackendNCCL::collective(Tensor& input, Tensor& output, Fun
   work->setStore(store_);
   work->setIsBarrierOp(opType == OpType::BARRIER);
   work->setCudaEvent(cuda::createCUDAEvent(device.index));
+  work->setInputs({input});
   work->setOutputs({output});
 
   cuda::CudaDeviceGuard guard(device.index);
diff --git a/src/Distributed/WorkNCCL.h b/src/Distributed/WorkNCCL.h
index 1991e37..85c14e1 100644
--- a/src/Distributed/WorkNCCL.h
+++ b/src/Distributed/WorkNCCL.h
@@ -32,6 +32,7 @@ class WorkNCCL : public Work {
   void setStore(const std::shared_ptr<Store>& store) { store_ = store; }
   void setIsBarrierOp(bool isBarrierOp) { isBarrierOp_ = isBarrierOp; }
   void setCudaEvent(cuda::CUDAEvent&& event) { cudaEvent_ = std::move(event); }
+  void setInputs(std::vector<Tensor>&& input) { inputs_ = std::move(input); }
   void setOutputs(std::vector<Tensor>&& output) { outputs_ = std::move(output); }
 
   const Device& getDevice() const { return device_; }
@@ -55,6 +56,7 @@ class WorkNCCL : public Work {
 
   bool isBarrierOp_{false};
   cuda::CUDAEvent cudaEvent_;
+  std::vector<Tensor> inputs_;  // kept until the operation is done
   std::vector<Tensor> outputs_;
 };
 
-- 
2.43.0


From b7f5b4f3d57bf310181db6a742d5d1adb41bea84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:45 +0000
Subject: [PATCH 098/105] fix: the sum of Bool tensors over replicas is a Bool

---
 src/Distributed/BackendNCCL.cpp | 12 +++++++-----
 src/Distributed/BackendNCCL.h   |  2 +-
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/Distributed/BackendNCCL.cpp b/src/Distributed/BackendNCCL.cpp
index e6021f6..8d3446d 100644
--- a/src/Distributed/BackendNCCL.cpp
+++ b/src/Distributed/BackendNCCL.cpp
@@ -29,7 +29,7 @@ std::shared_ptr<Work> BackendNCCL::allReduce(std::vector<Tensor>& tensors, const
       tensor, tensor,
       [&](const std::shared_ptr<NCCLComm>& comm, cudaStream_t stream) {
         return ncclAllReduce(tensor.dataPtr<>(), tensor.dataPtr<>(), tensor.numel(), getNcclDataType(tensor.dtype()),
-                             getNcclReduceOp(opts.reduceOp), comm->getNcclComm(), stream);
+                             getNcclReduceOp(opts.reduceOp, tensor.dtype()), comm->getNcclComm(), stream);
       },
       OpType::ALL_REDUCE);
 }
@@ -41,7 +41,7 @@ std::shared_ptr<Work> BackendNCCL::reduce(std::vector<Tensor>& tensors, const Re
       tensor, tensor,
       [&](const std::shared_ptr<NCCLComm>& comm, cudaStream_t stream) {
         return ncclReduce(tensor.dataPtr<>(), tensor.dataPtr<>(), tensor.numel(), getNcclDataType(tensor.dtype()),
-                          getNcclReduceOp(opts.reduceOp), opts.rootRank, comm->getNcclComm(), stream);
+                          getNcclReduceOp(opts.reduceOp, tensor.dtype()), opts.rootRank, comm->getNcclComm(), stream);
       },
       OpType::REDUCE);
 }
@@ -80,7 +80,7 @@ std::shared_ptr<Work> BackendNCCL::reduceScatter(std::vector<Tensor>& outputTens
       input, output,
       [&](const std::shared_ptr<NCCLComm>& comm, cudaStream_t stream) {
         return ncclReduceScatter(input.dataPtr<>(), output.dataPtr<>(), output.numel(), getNcclDataType(output.dtype()),
-                                 getNcclReduceOp(opts.reduceOp), comm->getNcclComm(), stream);
+                                 getNcclReduceOp(opts.reduceOp, output.dtype()), comm->getNcclComm(), stream);
       },
       OpType::REDUCE_SCATTER);
 }
@@ -211,10 +211,12 @@ ncclDataType_t BackendNCCL::getNcclDataType(DType dtype) {
   }
 }
 
-ncclRedOp_t BackendNCCL::getNcclReduceOp(ReduceOpType reduceOp) {
+ncclRedOp_t BackendNCCL::getNcclReduceOp(ReduceOpType reduceOp, DType dtype) {
+  ASSERT((dtype != DType::Bool || reduceOp != AVG) && "Unsupported reduce operation for Bool");
   switch (reduceOp) {
     case SUM:
-      return ncclSum;
+      // bytes of a Bool tensor have to stay 0 or 1
+      return dtype == DType::Bool ? ncclMax : ncclSum;
     case PRODUCT:
       return ncclProd;
     case MIN:
diff --git a/src/Distributed/BackendNCCL.h b/src/Distributed/BackendNCCL.h
index 061f44c..00c0a0e 100644
--- a/src/Distributed/BackendNCCL.h
+++ b/src/Distributed/BackendNCCL.h
@@ -138,7 +138,7 @@ class BackendNCCL : public Backend {
   bool waitNcclCommandResult(const std::shared_ptr<NCCLComm>& comm, ncclResult_t state) const;
 
   static ncclDataType_t getNcclDataType(DType dtype);
-  static ncclRedOp_t getNcclReduceOp(ReduceOpType reduceOp);
+  static ncclRedOp_t getNcclReduceOp(ReduceOpType reduceOp, DType dtype);
 
  private:
   std::shared_ptr<Store> store_;
-- 
2.43.0


From c092292fd5330c508defc0c1fee8827b3eaf0275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:45 +0000
Subject: [PATCH 099/105] fix: waiting for a barrier of the NCCL backend blocks
 the host

---
 src/Distributed/BackendNCCL.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/Distributed/BackendNCCL.cpp b/src/Distributed/BackendNCCL.cpp
index 8d3446d..b9b713c 100644
--- a/src/Distributed/BackendNCCL.cpp
+++ b/src/Distributed/BackendNCCL.cpp
@@ -121,8 +121,13 @@ std::shared_ptr<Work> BackendNCCL::barrier(const BarrierOptions& opts) {
   }
   ASSERT(barDevIdx >= 0);
   auto tensor = Tensor::zeros({1}, Options(Device(DeviceType::CUDA, barDevIdx), DType::Float32));
-  std::vector<Tensor> tensors = {tensor};
-  return allReduce(tensors, {});
+  return collective(
+      tensor, tensor,
+      [&](const std::shared_ptr<NCCLComm>& comm, cudaStream_t stream) {
+        return ncclAllReduce(tensor.dataPtr<>(), tensor.dataPtr<>(), tensor.numel(), getNcclDataType(tensor.dtype()),
+                             ncclSum, comm->getNcclComm(), stream);
+      },
+      OpType::BARRIER);
 }
 
 std::shared_ptr<NCCLComm> BackendNCCL::getNCCLComm(const std::string& deviceKey, const Device& device) {
-- 
2.43.0


From 08da4da10e275ebc1b3f1c2a48fe0a9a0e4cb86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:45 +0000
Subject: [PATCH 100/105] fix: WorkNCCL reports a time-out again and is not
 completed by a wait that does not block

---
 src/Distributed/WorkNCCL.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/Distributed/WorkNCCL.cpp b/src/Distributed/WorkNCCL.cpp
index 4a4220c..4ba1d95 100644
--- a/src/Distributed/WorkNCCL.cpp
+++ b/src/Distributed/WorkNCCL.cpp
@@ -23,6 +23,9 @@ bool WorkNCCL::isCompleted() {
 
 bool WorkNCCL::wait(std::chrono::milliseconds timeout) {
   synchronize();
+  if (Work::isCompleted()) {
+    return isSuccess();
+  }
 
   if (timeout != kNoTimeout) {
     while (!isCompleted()) {
@@ -33,13 +36,15 @@ bool WorkNCCL::wait(std::chrono::milliseconds timeout) {
       }
       std::this_thread::sleep_for(std::chrono::milliseconds(1));
     }
-  } else if (isBarrierOp_ && !isCompleted()) {
+  } else if (isBarrierOp_) {
     auto &stream = cuda::getCurrentCUDAStream(device_.index);
     stream.synchronize();
+  } else {
+    return true;  // the current stream waits, the operation may still be in progress
   }
 
   finish("");
-  return true;
+  return isSuccess();
 }
 
 void WorkNCCL::synchronize() const {
-- 
2.43.0


From dc366cfd06a163c692012238b984687b9040b7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:45 +0000
Subject: [PATCH 101/105] fix: a failure to make the NCCL communicator is
 reported, not a deadlock

---
 src/Distributed/BackendNCCL.cpp | 11 ++++++++---
 src/Distributed/BackendNCCL.h   |  4 ++++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/Distributed/BackendNCCL.cpp b/src/Distributed/BackendNCCL.cpp
index b9b713c..a874661 100644
--- a/src/Distributed/BackendNCCL.cpp
+++ b/src/Distributed/BackendNCCL.cpp
@@ -141,12 +141,17 @@ std::shared_ptr<NCCLComm> BackendNCCL::getNCCLComm(const std::string& deviceKey,
   ncclUniqueId commId;
   std::string key = NCCL_COMM_ID_PREFIX + std::to_string(ncclCommCounter_++);
   if (getRank() == 0) {
-    NCCL_CALL(ncclGetUniqueId(&commId));
+    auto ret = ncclGetUniqueId(&commId);
+    if (ret != ncclSuccess) {
+      NCCL_ERROR(ret);
+      setErrorLocked(BackendErrorType::COMM_ERROR);
+      return nullptr;
+    }
     store_->set(key, std::string(reinterpret_cast<char*>(&commId), sizeof(commId)));
   } else {
     auto idData = store_->get(key);
     if (idData.size() != sizeof(commId)) {
-      setError(BackendErrorType::COMM_ERROR);
+      setErrorLocked(BackendErrorType::COMM_ERROR);
       return nullptr;
     }
     std::memcpy(&commId, idData.data(), sizeof(commId));
@@ -154,7 +159,7 @@ std::shared_ptr<NCCLComm> BackendNCCL::getNCCLComm(const std::string& deviceKey,
 
   auto comm = NCCLComm::create(getSize(), getRank(), commId, device.index);
   if (!comm) {
-    setError(BackendErrorType::COMM_ERROR);
+    setErrorLocked(BackendErrorType::COMM_ERROR);
     return nullptr;
   }
 
diff --git a/src/Distributed/BackendNCCL.h b/src/Distributed/BackendNCCL.h
index 00c0a0e..d6a02fc 100644
--- a/src/Distributed/BackendNCCL.h
+++ b/src/Distributed/BackendNCCL.h
@@ -90,6 +90,10 @@ class BackendNCCL : public Backend {
  protected:
   void setError(BackendErrorType error) {
     std::lock_guard<std::mutex> lock(mutex_);
+    setErrorLocked(error);
+  }
+
+  void setErrorLocked(BackendErrorType error) {
     if (error_ == BackendErrorType::SUCCESS) {
       error_ = error;
     }
-- 
2.43.0


From 42df7ad23e4cabe27b65e79f5f7a3290b8a76b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:45 +0000
Subject: [PATCH 102/105] fix: the NCCL group is ended when an operation in it
 fails

---
 src/Distributed/BackendNCCL.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Distributed/BackendNCCL.h b/src/Distributed/BackendNCCL.h
index d6a02fc..1b1ed6c 100644
--- a/src/Distributed/BackendNCCL.h
+++ b/src/Distributed/BackendNCCL.h
@@ -190,8 +190,9 @@ std::shared_ptr<Work> BackendNCCL::collective(Tensor& input, Tensor& output, Fun
 
   cuda::CudaDeviceGuard guard(device.index);
   NCCL_CALL(ncclGroupStart());
-  NCCL_CALL(ncclFunc(comm, ncclStream.stream()));
+  ncclResult_t result = ncclFunc(comm, ncclStream.stream());
   ncclResult_t state = ncclGroupEnd();
+  NCCL_CALL(result);
 
   if (!waitNcclCommandResult(comm, state)) {
     return nullptr;
-- 
2.43.0


From 99c549e195afdf59967981184d258d20128da25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:45 +0000
Subject: [PATCH 103/105] fix: a failed or late NCCL operation is recorded as
 the error of the backend

---
 src/Distributed/BackendNCCL.cpp | 4 +++-
 src/Distributed/BackendNCCL.h   | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Distributed/BackendNCCL.cpp b/src/Distributed/BackendNCCL.cpp
index a874661..00314f0 100644
--- a/src/Distributed/BackendNCCL.cpp
+++ b/src/Distributed/BackendNCCL.cpp
@@ -180,7 +180,7 @@ cuda::CUDAStream& BackendNCCL::getNCCLStream(const std::string& deviceKey, Devic
   return ncclStreams_[deviceKey];
 }
 
-bool BackendNCCL::waitNcclCommandResult(const std::shared_ptr<NCCLComm>& comm, ncclResult_t state) const {
+bool BackendNCCL::waitNcclCommandResult(const std::shared_ptr<NCCLComm>& comm, ncclResult_t state) {
   auto startTimepoint = std::chrono::steady_clock::now();
   if (state == ncclInProgress) {
     do {
@@ -188,6 +188,7 @@ bool BackendNCCL::waitNcclCommandResult(const std::shared_ptr<NCCLComm>& comm, n
       auto timeElapsed = std::chrono::duration_cast<std::chrono::milliseconds>(now - startTimepoint);
       if (timeElapsed > options_->timeout) {
         LOGE("BackendNCCL::waitNcclGroupEnd timeout");
+        setError(BackendErrorType::TIMEOUT);
         return false;
       }
       sched_yield();
@@ -196,6 +197,7 @@ bool BackendNCCL::waitNcclCommandResult(const std::shared_ptr<NCCLComm>& comm, n
   }
   if (state != ncclSuccess) {
     NCCL_ERROR(state);
+    setError(BackendErrorType::COMM_ERROR);
     return false;
   }
   return true;
diff --git a/src/Distributed/BackendNCCL.h b/src/Distributed/BackendNCCL.h
index 1b1ed6c..5639fb8 100644
--- a/src/Distributed/BackendNCCL.h
+++ b/src/Distributed/BackendNCCL.h
@@ -139,7 +139,7 @@ class BackendNCCL : public Backend {
   std::shared_ptr<NCCLComm> getNCCLComm(const std::string& deviceKey, const Device& device);
   cuda::CUDAStream& getNCCLStream(const std::string& deviceKey, DeviceIndex deviceIndex);
 
-  bool waitNcclCommandResult(const std::shared_ptr<NCCLComm>& comm, ncclResult_t state) const;
+  bool waitNcclCommandResult(const std::shared_ptr<NCCLComm>& comm, ncclResult_t state);
 
   static ncclDataType_t getNcclDataType(DType dtype);
   static ncclRedOp_t getNcclReduceOp(ReduceOpType reduceOp, DType dtype);
-- 
2.43.0


From ea529683684610f5f78709fe9030579d3f1b54c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:45 +0000
Subject: [PATCH 104/105] fix: abort of the NCCL backend aborts communicators
 that are still starting

---
 src/Distributed/BackendNCCL.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Distributed/BackendNCCL.h b/src/Distributed/BackendNCCL.h
index 5639fb8..edada08 100644
--- a/src/Distributed/BackendNCCL.h
+++ b/src/Distributed/BackendNCCL.h
@@ -63,7 +63,7 @@ class BackendNCCL : public Backend {
     std::lock_guard<std::mutex> lock(mutex_);
     for (auto& kv : devNCCLCommMap_) {
       auto& comm = kv.second;
-      if (comm && comm->isInitialized()) {
+      if (comm) {
         comm->abort();
       }
     }
-- 
2.43.0


From f81c949405df6ec10990bdd16c81ab1da91c1e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:49 +0000
Subject: [PATCH 105/105] fix: an allGather in progress keeps its outputs

---
 src/Distributed/BackendNCCL.cpp | 3 ++-
 src/Distributed/BackendNCCL.h   | 6 +++---
 src/Distributed/WorkNCCL.h      | 4 ++--
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/Distributed/BackendNCCL.cpp b/src/Distributed/BackendNCCL.cpp
index 00314f0..8a97d2b 100644
--- a/src/Distributed/BackendNCCL.cpp
+++ b/src/Distributed/BackendNCCL.cpp
@@ -59,11 +59,12 @@ std::shared_ptr<Work> BackendNCCL::allGather(std::vector<std::vector<Tensor>>& o
         return ncclAllGather(input.dataPtr<>(), output.dataPtr<>(), input.numel(), getNcclDataType(input.dtype()),
                              comm->getNcclComm(), stream);
       },
-      [&](cudaStream_t stream) {
+      [&](WorkNCCL& work, cudaStream_t stream) {
         const auto* data = static_cast<const uint8_t*>(output.dataPtr<>());
         for (size_t i = 0; i < outputs.size(); i++) {
           CUDA_CHECK(cudaMemcpyAsync(outputs[i].dataPtr<>(), data + i * outputs[i].nbytes(), outputs[i].nbytes(),
                                      cudaMemcpyDeviceToDevice, stream));
+          work.keepAlive(outputs[i]);
         }
       },
       OpType::ALL_GATHER);
diff --git a/src/Distributed/BackendNCCL.h b/src/Distributed/BackendNCCL.h
index edada08..34d8ae5 100644
--- a/src/Distributed/BackendNCCL.h
+++ b/src/Distributed/BackendNCCL.h
@@ -111,7 +111,7 @@ class BackendNCCL : public Backend {
 
   template <typename Func>
   std::shared_ptr<Work> collective(Tensor& input, Tensor& output, Func&& ncclFunc, OpType opType) {
-    return collective(input, output, std::forward<Func>(ncclFunc), [](cudaStream_t) {}, opType);
+    return collective(input, output, std::forward<Func>(ncclFunc), [](WorkNCCL&, cudaStream_t) {}, opType);
   }
 
   // postFunc adds work to the NCCL stream after the operation
@@ -185,7 +185,7 @@ std::shared_ptr<Work> BackendNCCL::collective(Tensor& input, Tensor& output, Fun
   work->setStore(store_);
   work->setIsBarrierOp(opType == OpType::BARRIER);
   work->setCudaEvent(cuda::createCUDAEvent(device.index));
-  work->setInputs({input});
+  work->keepAlive(input);
   work->setOutputs({output});
 
   cuda::CudaDeviceGuard guard(device.index);
@@ -198,7 +198,7 @@ std::shared_ptr<Work> BackendNCCL::collective(Tensor& input, Tensor& output, Fun
     return nullptr;
   }
 
-  postFunc(ncclStream.stream());
+  postFunc(*work, ncclStream.stream());
   work->getCudaEvent().record(ncclStream);
   workEnqueue(work);
   return work;
diff --git a/src/Distributed/WorkNCCL.h b/src/Distributed/WorkNCCL.h
index 85c14e1..e76acd4 100644
--- a/src/Distributed/WorkNCCL.h
+++ b/src/Distributed/WorkNCCL.h
@@ -32,7 +32,7 @@ class WorkNCCL : public Work {
   void setStore(const std::shared_ptr<Store>& store) { store_ = store; }
   void setIsBarrierOp(bool isBarrierOp) { isBarrierOp_ = isBarrierOp; }
   void setCudaEvent(cuda::CUDAEvent&& event) { cudaEvent_ = std::move(event); }
-  void setInputs(std::vector<Tensor>&& input) { inputs_ = std::move(input); }
+  void keepAlive(const Tensor& tensor) { kept_.push_back(tensor); }
   void setOutputs(std::vector<Tensor>&& output) { outputs_ = std::move(output); }
 
   const Device& getDevice() const { return device_; }
@@ -56,7 +56,7 @@ class WorkNCCL : public Work {
 
   bool isBarrierOp_{false};
   cuda::CUDAEvent cudaEvent_;
-  std::vector<Tensor> inputs_;  // kept until the operation is done
+  std::vector<Tensor> kept_;  // used by the operation besides the outputs
   std::vector<Tensor> outputs_;
 };
 
-- 
2.43.0

