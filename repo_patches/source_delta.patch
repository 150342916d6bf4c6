From aef567a02c5d455703829596886a7f6085cfccbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:35 +0000
Subject: [PATCH 01/43] fix: recarray_to_colmajor raised NameError (typo in
 flag name)

---
 src/pnumpy/recarray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pnumpy/recarray.py b/src/pnumpy/recarray.py
index e18c49b..53e9829 100644
--- a/src/pnumpy/recarray.py
+++ b/src/pnumpy/recarray.py
@@ -36,7 +36,7 @@ def recarray_to_colmajor(item, parallel=True):
                 break;
 
         d={}
-        if successs and parallel:
+        if success and parallel:
             offsets=[]
             arrays=np.empty(len(item.dtype.fields), dtype='O')
             arrlen = len(item)
-- 
2.43.0


From d24e9d0bdfab2a83ceb1aefbf909d3e4d4ee06af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:35 +0000
Subject: [PATCH 02/43] fix: dtype_to_atop bounds check counted bytes instead
 of table entries

---
 src/pnumpy/_pnumpy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pnumpy/_pnumpy.cpp b/src/pnumpy/_pnumpy.cpp
index b73b4c1..a6e3aac 100644
--- a/src/pnumpy/_pnumpy.cpp
+++ b/src/pnumpy/_pnumpy.cpp
@@ -56,7 +56,7 @@ int convert_atop_to_itemsize[] = {
 // Helper function, converts numpy dtype to atop type
 // return -1 on failure
 int dtype_to_atop(int dtype) {
-    if (dtype >= 0 && dtype < (int)sizeof(convert_dtype_to_atop)) {
+    if (dtype >= 0 && dtype < (int)(sizeof(convert_dtype_to_atop) / sizeof(convert_dtype_to_atop[0]))) {
         return convert_dtype_to_atop[dtype];
     }
     return -1;
-- 
2.43.0


From e19daf4a77ecba749321ab042cce1fe6ed454a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:35 +0000
Subject: [PATCH 03/43] fix: float32 sum/prod read past the end of the upcasted
 accumulator register

---
 src/atop/ops_binary.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/atop/ops_binary.cpp b/src/atop/ops_binary.cpp
index d59e778..5b3992a 100644
--- a/src/atop/ops_binary.cpp
+++ b/src/atop/ops_binary.cpp
@@ -267,7 +267,8 @@ inline void ReduceMathOpFastUpcast(void* pDataIn1X, void* pDataOutX, void* pStar
         // TJD: testing indicates unrolling size of 2 is 3% faster
         const int64_t NUM_LOOPS_UNROLLED = 2;
         const int64_t chunkSize = NUM_LOOPS_UNROLLED * (sizeof(U256) / sizeof(DOWNCAST));
-        int64_t perReg = sizeof(U256) / sizeof(DOWNCAST);
+        // the horizontal pass walks a register of upcasted values
+        int64_t perReg = sizeof(U256d) / sizeof(UPCAST);
 
         // NOTE: numpy uses the output val to seed the first input
         UPCAST startval = *(DOWNCAST*)pStartVal;
-- 
2.43.0


From 3360c6557ee772b26fbe40e65a1c6519c54a5454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:58 +0000
Subject: [PATCH 04/43] fix: unary and reduce kernels used aligned loads on
 arrays that need not be 32-byte aligned

---
 src/atop/ops_binary.cpp | 4 ++--
 src/atop/ops_unary.cpp  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/atop/ops_binary.cpp b/src/atop/ops_binary.cpp
index 5b3992a..a025520 100644
--- a/src/atop/ops_binary.cpp
+++ b/src/atop/ops_binary.cpp
@@ -209,8 +209,8 @@ inline void ReduceMathOpFast(void* pDataIn1X, void* pDataOutX, void* pStartVal,
             pDataIn256 += NUM_LOOPS_UNROLLED;
 
             while (pDataIn256 < pEnd_256) {
-                m0 = MATH_OP256(m0, pDataIn256[0]);
-                m1 = MATH_OP256(m1, pDataIn256[1]);
+                m0 = MATH_OP256(m0, LOADU(pDataIn256));
+                m1 = MATH_OP256(m1, LOADU(pDataIn256 + 1));
                 pDataIn256 += NUM_LOOPS_UNROLLED;
             }
 
diff --git a/src/atop/ops_unary.cpp b/src/atop/ops_unary.cpp
index 7d249fc..2abab67 100644
--- a/src/atop/ops_unary.cpp
+++ b/src/atop/ops_unary.cpp
@@ -355,7 +355,7 @@ static inline void UnaryOpFast(void* pDataIn, void* pDataOut, int64_t len, int64
         do {
             // Use 256 bit registers which hold 8 floats or 4 doubles
             // The first operand should allow unaligned loads
-            STOREU(pOut_256, MATH_OP256(*pIn1_256));
+            STOREU(pOut_256, MATH_OP256(LOADU(pIn1_256)));
             pIn1_256 += 1;
             pOut_256 += 1;
 
-- 
2.43.0


From df6c60e120b187f0d236e38756f1dbf62770f704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:27 +0000
Subject: [PATCH 05/43] fix: minimum/maximum on floats did not propagate nan
 from the first operand

---
 src/atop/ops_binary.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/atop/ops_binary.cpp b/src/atop/ops_binary.cpp
index a025520..95f6af2 100644
--- a/src/atop/ops_binary.cpp
+++ b/src/atop/ops_binary.cpp
@@ -61,6 +61,11 @@ template<typename T> static const inline T SubOp(T x, T y) { return x - y; }
 template<typename T> static const inline T MulOp(T x, T y) { return x * y; }
 template<typename T> static const inline T MinOp(T x, T y) { return x < y? x : y; }
 template<typename T> static const inline T MaxOp(T x, T y) { return x > y? x : y; }
+// minimum and maximum propagate nan from either side
+template<> const inline float  MinOp(float x, float y) { return (x < y || x != x) ? x : y; }
+template<> const inline double MinOp(double x, double y) { return (x < y || x != x) ? x : y; }
+template<> const inline float  MaxOp(float x, float y) { return (x > y || x != x) ? x : y; }
+template<> const inline double MaxOp(double x, double y) { return (x > y || x != x) ? x : y; }
 template<typename T> static const inline double DivOp(T x, T y) { return (double)x / (double)y; }
 template<typename T> static const inline float DivOp(float x, T y) { return x / y; }
 template<typename T> static const inline long double DivOp(long double x, T y) { return x / y; }
@@ -143,8 +148,8 @@ static const inline __m256i MIN_OP_256u16(__m256i x, __m256i y) { return _mm256_
 static const inline __m256i MIN_OP_256i16(__m256i x, __m256i y) { return _mm256_min_epi16(x, y); }
 static const inline __m256i MIN_OP_256i32(__m256i x, __m256i y) { return _mm256_min_epi32(x, y); }
 static const inline __m256i MIN_OP_256u32(__m256i x, __m256i y) { return _mm256_min_epu32(x, y); }
-static const inline __m256  MIN_OP_256f32(__m256 x, __m256 y) { return _mm256_min_ps(x, y); }
-static const inline __m256d MIN_OP_256f64(__m256d x, __m256d y) { return _mm256_min_pd(x, y); }
+static const inline __m256  MIN_OP_256f32(__m256 x, __m256 y) { return _mm256_blendv_ps(_mm256_min_ps(x, y), x, _mm256_cmp_ps(x, x, _CMP_UNORD_Q)); }
+static const inline __m256d MIN_OP_256f64(__m256d x, __m256d y) { return _mm256_blendv_pd(_mm256_min_pd(x, y), x, _mm256_cmp_pd(x, x, _CMP_UNORD_Q)); }
 
 static const inline __m256i MAX_OP_256i8(__m256i x, __m256i y) { return _mm256_max_epi8(x, y); }
 static const inline __m256i MAX_OP_256u8(__m256i x, __m256i y) { return _mm256_max_epu8(x, y); }
@@ -152,8 +157,8 @@ static const inline __m256i MAX_OP_256u16(__m256i x, __m256i y) { return _mm256_
 static const inline __m256i MAX_OP_256i16(__m256i x, __m256i y) { return _mm256_max_epi16(x, y); }
 static const inline __m256i MAX_OP_256i32(__m256i x, __m256i y) { return _mm256_max_epi32(x, y); }
 static const inline __m256i MAX_OP_256u32(__m256i x, __m256i y) { return _mm256_max_epu32(x, y); }
-static const inline __m256  MAX_OP_256f32(__m256 x, __m256 y) { return _mm256_max_ps(x, y); }
-static const inline __m256d MAX_OP_256f64(__m256d x, __m256d y) { return _mm256_max_pd(x, y); }
+static const inline __m256  MAX_OP_256f32(__m256 x, __m256 y) { return _mm256_blendv_ps(_mm256_max_ps(x, y), x, _mm256_cmp_ps(x, x, _CMP_UNORD_Q)); }
+static const inline __m256d MAX_OP_256f64(__m256d x, __m256d y) { return _mm256_blendv_pd(_mm256_max_pd(x, y), x, _mm256_cmp_pd(x, x, _CMP_UNORD_Q)); }
 
 // mask off low 32bits
 static const __m256i masklo = _mm256_set1_epi64x(0xFFFFFFFFLL);
-- 
2.43.0


From a1b3b958009b2a2ee6852d6152f82366b798d8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:27 +0000
Subject: [PATCH 06/43] fix: floor_divide on floats differed from numpy when
 the quotient rounds or the divisor is infinite

---
 src/atop/ops_binary.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/atop/ops_binary.cpp b/src/atop/ops_binary.cpp
index 95f6af2..3fc7a10 100644
--- a/src/atop/ops_binary.cpp
+++ b/src/atop/ops_binary.cpp
@@ -82,9 +82,20 @@ template<typename T> static const inline T FloorDivOp(T x, T y) {
     }
     else return 0;
 }
-template<typename T> static const inline long double FloorDivOp(long double x, long double y) { if (y == y) return floorl(x / y); else return NAN; }
-template<typename T> static const inline double FloorDivOp(double x, double y) { if (y == y) return floor(x / y); else return NAN; }
-template<typename T> static const inline float FloorDivOp(float x, float y) { if (y == y) return floorf(x / y); else return NAN; }
+// python floor division: exact remainder first, since floor(x / y) is wrong when the quotient rounds
+template<typename T> static const inline T FloorDivFloat(T x, T y) {
+    if (y == 0) return x / y;
+    T mod = std::fmod(x, y);
+    T div = (x - mod) / y;
+    if (mod != 0 && ((y < 0) != (mod < 0))) div -= 1;
+    if (div == 0) return std::copysign((T)0, x / y);
+    T result = std::floor(div);
+    if (div - result > (T)0.5) result += 1;
+    return result;
+}
+template<typename T> static const inline long double FloorDivOp(long double x, long double y) { return FloorDivFloat<long double>(x, y); }
+template<typename T> static const inline double FloorDivOp(double x, double y) { return FloorDivFloat<double>(x, y); }
+template<typename T> static const inline float FloorDivOp(float x, float y) { return FloorDivFloat<float>(x, y); }
 
 // bitwise operations
 template<typename T> static const inline T AndOp(T x, T y) { return x & y; }
-- 
2.43.0


From 0b808d8af916c5a411b6fa427f6e35f140c533dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:27 +0000
Subject: [PATCH 07/43] fix: scalar abs kept the sign of negative zero

---
 src/atop/ops_unary.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/atop/ops_unary.cpp b/src/atop/ops_unary.cpp
index 2abab67..7a4c3bd 100644
--- a/src/atop/ops_unary.cpp
+++ b/src/atop/ops_unary.cpp
@@ -181,6 +181,10 @@ const union
 
 
 template<typename T> static const inline T ABS_OP(T x) { return x < 0 ? -x : x; }
+// clear the sign bit so that -0.0 becomes 0.0
+template<> const inline float ABS_OP(float x) { return std::fabs(x); }
+template<> const inline double ABS_OP(double x) { return std::fabs(x); }
+template<> const inline long double ABS_OP(long double x) { return std::fabs(x); }
 template<typename T> static const inline double FABS_OP(T x) { return x < 0 ? -x : x; }
 
 // Invalid int mode (consider if we should return invalid when we discover invalid)
-- 
2.43.0


From bc5cef6232985e04545cf10f34603dac7f446ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:27 +0000
Subject: [PATCH 08/43] fix: vectorized negative turned +0.0 into +0.0 instead
 of -0.0

---
 src/atop/ops_unary.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/atop/ops_unary.cpp b/src/atop/ops_unary.cpp
index 7a4c3bd..5fffd9e 100644
--- a/src/atop/ops_unary.cpp
+++ b/src/atop/ops_unary.cpp
@@ -297,15 +297,13 @@ static const inline __m256i NEG_OP_256i16(__m256i x) { const __m256i m8 = _mm256
 static const inline __m256i NEG_OP_256i8(__m256i x) { const __m256i m8 = _mm256_setzero_si256(); return _mm256_sub_epi8(m8, x); }
 
 template<typename T> static const inline __m256  NEG_OP_256(__m256 x) {
-    const __m256 m8 = _mm256_setzero_ps();
-    // The second operand does not need to be unaligned loaded
-    return _mm256_sub_ps(m8, x);
+    // flip the sign bit, since 0 - x loses the sign of zero
+    return _mm256_xor_ps(_mm256_set1_ps(-0.0f), x);
 }
 
 template<typename T> static const inline __m256d  NEG_OP_256(__m256d x) {
-    const __m256d m8 = _mm256_setzero_pd();
-    // The second operand does not need to be unaligned loaded
-    return _mm256_sub_pd(m8, x);
+    // flip the sign bit, since 0 - x loses the sign of zero
+    return _mm256_xor_pd(_mm256_set1_pd(-0.0), x);
 }
 
 template<typename T> static const inline __m256  ROUND_OP_256(__m256 x) { return _mm_roundme_ps(x); }
-- 
2.43.0


From 83178886f1cdb41caf34dda1f41459736e645c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:27 +0000
Subject: [PATCH 09/43] fix: rint rounded halfway cases away from zero instead
 of to even

---
 src/atop/ops_unary.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/atop/ops_unary.cpp b/src/atop/ops_unary.cpp
index 5fffd9e..c849c99 100644
--- a/src/atop/ops_unary.cpp
+++ b/src/atop/ops_unary.cpp
@@ -212,9 +212,9 @@ template<typename T> static const inline bool ISNORMAL_OP(T x) { return std::isn
 template<typename T> static const inline bool ISNOTNORMAL_OP(T x) { return !std::isnormal(x); }
 template<typename T> static const inline bool ISNANORZERO_OP(T x) { return x == 0.0 || std::isnan(x); }
 
-template<typename T> static const inline long double ROUND_OP(long double x) { return roundl(x); }
-template<typename T> static const inline double ROUND_OP(double x) { return round(x); }
-template<typename T> static const inline float ROUND_OP(float x) { return roundf(x); }
+template<typename T> static const inline long double ROUND_OP(long double x) { return rintl(x); }
+template<typename T> static const inline double ROUND_OP(double x) { return rint(x); }
+template<typename T> static const inline float ROUND_OP(float x) { return rintf(x); }
 
 template<typename T> static const inline long double FLOOR_OP(long double x) { return floorl(x); }
 template<typename T> static const inline double FLOOR_OP(double x) { return floor(x); }
-- 
2.43.0


From 6e7436ecf38b4b376f42a125a954e9c9af1e983f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:24 +0000
Subject: [PATCH 10/43] fix: threaded reduce split operations that cannot be
 split (subtract, divide, power, shifts, xor, ...)

---
 src/pnumpy/_pnumpy.cpp | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/pnumpy/_pnumpy.cpp b/src/pnumpy/_pnumpy.cpp
index a6e3aac..407bd21 100644
--- a/src/pnumpy/_pnumpy.cpp
+++ b/src/pnumpy/_pnumpy.cpp
@@ -632,6 +632,26 @@ GetReduceStartVal(int funcop, int atype) {
 }
 
 
+//============================================================================
+// A reduce can be split into chunks only if combining the partial results
+// with the same operation gives the same answer
+static bool
+IsReduceSplittable(int funcop) {
+    switch (funcop) {
+    case BINARY_OPERATION::ADD:
+    case BINARY_OPERATION::MUL:
+    case BINARY_OPERATION::MIN:
+    case BINARY_OPERATION::MAX:
+    case BINARY_OPERATION::LOGICAL_AND:
+    case BINARY_OPERATION::LOGICAL_OR:
+    case BINARY_OPERATION::BITWISE_AND:
+    case BINARY_OPERATION::BITWISE_OR:
+        return true;
+    }
+    return false;
+}
+
+
 //============================================================================
 // For binary math functions like add, sbutract, multiply.
 // 2 inputs and 1 output
@@ -640,7 +660,8 @@ static void AtopBinaryMathFunction(char** args, const npy_intp* dimensions, cons
     if (!g_Settings.LedgerEnabled) {
         stUFunc* pstUFunc = &g_UFuncLUT[funcop][atype];
         npy_intp n = dimensions[0];
-        stMATH_WORKER_ITEM* pWorkItem = THREADER->GetWorkItem(n);
+        bool canThread = !IS_BINARY_REDUCE || IsReduceSplittable(funcop);
+        stMATH_WORKER_ITEM* pWorkItem = THREADER->GetWorkItem(canThread ? n : 0);
         LOGGING("called with %d %d   funcp: %p  len:%lld   inputs: %p %p %p  steps: %lld %lld %lld  pWorkItem: %p\n", funcop, atype, g_UFuncLUT[funcop][atype].pOldFunc, (long long)n, args[0], args[1], args[2], (long long)steps[0], (long long)steps[1], (long long)steps[2], pWorkItem);
 
         if (IS_BINARY_REDUCE) {
-- 
2.43.0


From 982db62d72c1f5034c90664ef93803ce0a82054b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:24 +0000
Subject: [PATCH 11/43] fix: threaded reduce combined the partial results with
 the stride of the input

---
 src/pnumpy/_pnumpy.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pnumpy/_pnumpy.cpp b/src/pnumpy/_pnumpy.cpp
index 407bd21..5b92736 100644
--- a/src/pnumpy/_pnumpy.cpp
+++ b/src/pnumpy/_pnumpy.cpp
@@ -738,13 +738,16 @@ static void AtopBinaryMathFunction(char** args, const npy_intp* dimensions, cons
                     // possible bug -- check how big dimensions is for reduce
                     npy_intp dimensions[1];
 
+                    // the partial results are contiguous, unlike the original input
+                    npy_intp newsteps[3] = { 0, (npy_intp)itemsize, 0 };
+
                     newargs[0] = newargs[2] = op1;
                     newargs[1] = pReduceOfReduce;
 
                     // todo, check if only 1 dimension for reduce
                     dimensions[0] = chunks;
 
-                    pstUFunc->pOldFunc(newargs, dimensions, steps, innerloop);
+                    pstUFunc->pOldFunc(newargs, dimensions, newsteps, innerloop);
                 }
                 // Free if not on the stack
                 POSSIBLY_STACK_FREE(allocsize, pReduceOfReduce);
-- 
2.43.0


From 7f54da1713018041063b6beda11c48fc01d35840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:24 +0000
Subject: [PATCH 12/43] fix: large accumulate was threaded although each output
 depends on the previous one

---
 src/pnumpy/_pnumpy.cpp | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/pnumpy/_pnumpy.cpp b/src/pnumpy/_pnumpy.cpp
index 5b92736..31acce1 100644
--- a/src/pnumpy/_pnumpy.cpp
+++ b/src/pnumpy/_pnumpy.cpp
@@ -652,6 +652,25 @@ IsReduceSplittable(int funcop) {
 }
 
 
+//============================================================================
+// Returns true if the output may overwrite an element that a later iteration of
+// the loop reads (ufunc.accumulate, or a reduce), which forces the loop to run in order.
+// Output which is exactly in place does not.
+static bool
+IsOutputFeedingInput(char* pInput, npy_intp stepIn, char* pOutput, npy_intp stepOut, npy_intp n) {
+    if (pInput == pOutput && stepIn == stepOut) {
+        return stepIn == 0;
+    }
+    char* pInputLast = pInput + (n - 1) * stepIn;
+    char* pOutputLast = pOutput + (n - 1) * stepOut;
+    char* pInputLow = stepIn < 0 ? pInputLast : pInput;
+    char* pInputHigh = stepIn < 0 ? pInput : pInputLast;
+    char* pOutputLow = stepOut < 0 ? pOutputLast : pOutput;
+    char* pOutputHigh = stepOut < 0 ? pOutput : pOutputLast;
+    return pOutputLow <= pInputHigh && pInputLow <= pOutputHigh;
+}
+
+
 //============================================================================
 // For binary math functions like add, sbutract, multiply.
 // 2 inputs and 1 output
@@ -660,7 +679,10 @@ static void AtopBinaryMathFunction(char** args, const npy_intp* dimensions, cons
     if (!g_Settings.LedgerEnabled) {
         stUFunc* pstUFunc = &g_UFuncLUT[funcop][atype];
         npy_intp n = dimensions[0];
-        bool canThread = !IS_BINARY_REDUCE || IsReduceSplittable(funcop);
+        bool inOrder = !IS_BINARY_REDUCE &&
+            (IsOutputFeedingInput(args[0], steps[0], args[2], steps[2], n) ||
+             IsOutputFeedingInput(args[1], steps[1], args[2], steps[2], n));
+        bool canThread = IS_BINARY_REDUCE ? IsReduceSplittable(funcop) : !inOrder;
         stMATH_WORKER_ITEM* pWorkItem = THREADER->GetWorkItem(canThread ? n : 0);
         LOGGING("called with %d %d   funcp: %p  len:%lld   inputs: %p %p %p  steps: %lld %lld %lld  pWorkItem: %p\n", funcop, atype, g_UFuncLUT[funcop][atype].pOldFunc, (long long)n, args[0], args[1], args[2], (long long)steps[0], (long long)steps[1], (long long)steps[2], pWorkItem);
 
@@ -764,7 +786,7 @@ static void AtopBinaryMathFunction(char** args, const npy_intp* dimensions, cons
             // This code needs review: this is only an issue if array is contiguous and output is within
             // a cacheline of the input (that is, 32 or 64 bytes) because vector intrinsics process in chunks
             // Check for address overlap where the output memory lies inside input1 or input2
-            if ((pOutput > pInput1&& pOutput < (pInput1 + 64)) || (pOutput > pInput2&& pOutput < (pInput2 + 64))) {
+            if (inOrder || (pOutput > pInput1&& pOutput < (pInput1 + 64)) || (pOutput > pInput2&& pOutput < (pInput2 + 64))) {
                 pBinaryFunc = NULL;
             }
 
-- 
2.43.0


From c0dce4ef2fc6a8501378856ef04916a0eb42ecb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:24 +0000
Subject: [PATCH 13/43] fix: reduce and accumulate of comparison ufuncs were
 vectorized and threaded as if elementwise

---
 src/pnumpy/_pnumpy.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pnumpy/_pnumpy.cpp b/src/pnumpy/_pnumpy.cpp
index 31acce1..7b22e4f 100644
--- a/src/pnumpy/_pnumpy.cpp
+++ b/src/pnumpy/_pnumpy.cpp
@@ -853,8 +853,11 @@ static void AtopCompareMathFunction(char** args, const npy_intp* dimensions, con
         // LOGGING("comparison called with %d %d   funcp: %p  len: %lld\n", funcop, atype, g_CompFuncLUT[funcop][atype].pOldFunc, (long long)dimensions[0]);
         stUFunc* pstUFunc = &g_CompFuncLUT[funcop][atype];
         npy_intp n = dimensions[0];
-        stMATH_WORKER_ITEM* pWorkItem = THREADER->GetWorkItem(n);
-        ANY_TWO_FUNC pBinaryFunc = pstUFunc->pBinaryFunc;
+        // reduce and accumulate also come here when both inputs are bool
+        bool inOrder = IsOutputFeedingInput(args[0], steps[0], args[2], steps[2], n) ||
+            IsOutputFeedingInput(args[1], steps[1], args[2], steps[2], n);
+        stMATH_WORKER_ITEM* pWorkItem = THREADER->GetWorkItem(inOrder ? 0 : n);
+        ANY_TWO_FUNC pBinaryFunc = inOrder ? NULL : pstUFunc->pBinaryFunc;
 
         // Check if threading allowed
         if (!pWorkItem) {
-- 
2.43.0


From ea7880f6f68e48706e5ff33ae5b2831f11709c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:25 +0000
Subject: [PATCH 14/43] fix: counted parallel work hung when no worker thread
 could help (one cpu, after fork)

---
 src/atop/threads.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/atop/threads.h b/src/atop/threads.h
index 20214c0..611fc0e 100644
--- a/src/atop/threads.h
+++ b/src/atop/threads.h
@@ -1115,7 +1115,9 @@ public:
         }
 
         pWorkItem->BlocksCompleted = 0;
-        pWorkItem->BlockNext = 0;
+        // In custom mode the work indexes start at 1 and 0 means there is no more work,
+        // do not hand out 0: whoever got it would stop and might be the only thread
+        pWorkItem->BlockNext = bGenericMode ? 0 : 1;
         pWorkItem->BlockSize = BlockSize;
 
         int32_t threads = (threadWakeup + 1);
-- 
2.43.0


From d835d1736aa228f90643000b8a655c9f7a93c21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:25 +0000
Subject: [PATCH 15/43] fix: worker thread could pick up a work item that was
 still being filled in

---
 src/atop/threads.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/atop/threads.cpp b/src/atop/threads.cpp
index e3f670b..a627a30 100644
--- a/src/atop/threads.cpp
+++ b/src/atop/threads.cpp
@@ -110,7 +110,8 @@ WorkerThreadFunction(void* lpParam)
 
         // See if work to do
         if (workIndex > workIndexCompleted) {
-            stMATH_WORKER_ITEM* pWorkItem = pWorkerRing->GetExistingWorkItem();
+            // Use the item that was announced: a newer one may have been taken but not filled in yet
+            stMATH_WORKER_ITEM* pWorkItem = &pWorkerRing->WorkerQueue[workIndex & stWorkerRing::RING_BUFFER_MASK];
 
             // check if the work was for our thread
             if ((int64_t)core <= pWorkItem->ThreadWakeup) {
-- 
2.43.0


From e74547adf216400a1a43f83528fd6e85eda50daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:52 +0000
Subject: [PATCH 16/43] fix: double sin/cos/exp/log used a vector version with
 single precision coefficients and bit layout

---
 src/atop/ops_trig.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/atop/ops_trig.cpp b/src/atop/ops_trig.cpp
index faa1dc5..25fc3db 100644
--- a/src/atop/ops_trig.cpp
+++ b/src/atop/ops_trig.cpp
@@ -585,7 +585,7 @@ UNARY_FUNC GetTrigOpFast(int func, int atopInType1, int* wantedOutType) {
         *wantedOutType = atopInType1;
         switch (atopInType1) {
         case ATOP_FLOAT:  return UnaryOpFast<float, __m256, SIN_OP<float>, SIN_OP_256<__m256>>;
-        case ATOP_DOUBLE: return UnaryOpFast<double, __m256d, SIN_OP<double>, SIN_OP_256<__m256d>>;
+        // the 256 bit double version is only accurate to single precision
         }
         break;
 
@@ -593,7 +593,7 @@ UNARY_FUNC GetTrigOpFast(int func, int atopInType1, int* wantedOutType) {
         *wantedOutType = atopInType1;
         switch (atopInType1) {
         case ATOP_FLOAT:  return UnaryOpFast<float, __m256, COS_OP<float>, COS_OP_256<__m256>>;
-        case ATOP_DOUBLE: return UnaryOpFast<double, __m256d, COS_OP<double>, COS_OP_256<__m256d>>;
+        // the 256 bit double version is only accurate to single precision
         }
         break;
     case TRIG_OPERATION::TAN:
@@ -704,7 +704,7 @@ UNARY_FUNC GetTrigOpFast(int func, int atopInType1, int* wantedOutType) {
         *wantedOutType = atopInType1;
         switch (atopInType1) {
         case ATOP_FLOAT:  return UnaryOpFast<float, __m256, EXP_OP<float>, EXP_OP_256<__m256>>;
-        case ATOP_DOUBLE: return UnaryOpFast<double, __m256d, EXP_OP<double>, EXP_OP_256<__m256d>>;
+        // the 256 bit double version is only accurate to single precision
         }
         break;
 
@@ -732,7 +732,7 @@ UNARY_FUNC GetTrigOpFast(int func, int atopInType1, int* wantedOutType) {
         *wantedOutType = atopInType1;
         switch (atopInType1) {
         case ATOP_FLOAT:  return UnaryOpFast<float, __m256, LOG_OP<float>, LOG_OP_256<__m256>>;
-        case ATOP_DOUBLE: return UnaryOpFast<double, __m256d, LOG_OP<double>, LOG_OP_256<__m256d>>;
+        // the 256 bit double version is only accurate to single precision
         }
         break;
 
-- 
2.43.0


From 93be736135a8786bd6d167c5e1e6f353b41ffb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:42 +0000
Subject: [PATCH 17/43] fix: vectorized float sin/cos/exp/log gave wrong values
 for nan, infinities, zero and large inputs

---
 src/atop/ops_trig.cpp | 36 +++++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/src/atop/ops_trig.cpp b/src/atop/ops_trig.cpp
index 25fc3db..b5a79eb 100644
--- a/src/atop/ops_trig.cpp
+++ b/src/atop/ops_trig.cpp
@@ -1,5 +1,6 @@
 #include "common_inc.h"
 #include <cmath>
+#include <cfloat>
 #include "invalids.h"
 #include "thread"
 
@@ -134,14 +135,39 @@ template<typename T> static const inline float ATANH_OP(float x) { return atanhf
 //template<typename T> static const inline __m256  EXP_OP_256(__m256 x) { return _mm256_exp_ps(x); }
 //template<typename T> static const inline __m256d EXP_OP_256(__m256d x) { return _mm256_exp_pd(x); }
 
-// Our custom sped up routines
-template<typename T> static const inline __m256  SIN_OP_256(__m256 x) { return sin256_ps(x);}
+// Our custom sped up routines are only good within a range of inputs,
+// the lanes outside of the range (also nan) are redone with the scalar routine
+template<const float MATH_OP(float)>
+static const inline __m256 REDO_LANES_OUTSIDE(__m256 x, __m256 result, __m256 lo, __m256 hi) {
+    const __m256 inside = _mm256_and_ps(_mm256_cmp_ps(x, lo, _CMP_GE_OQ), _mm256_cmp_ps(x, hi, _CMP_LE_OQ));
+    const int mask = _mm256_movemask_ps(inside);
+    if (mask != 0xff) {
+        float in[8], out[8];
+        _mm256_storeu_ps(in, x);
+        _mm256_storeu_ps(out, result);
+        for (int i = 0; i < 8; i++) {
+            if (!((mask >> i) & 1)) out[i] = MATH_OP(in[i]);
+        }
+        result = _mm256_loadu_ps(out);
+    }
+    return result;
+}
+
+template<typename T> static const inline __m256  SIN_OP_256(__m256 x) {
+    return REDO_LANES_OUTSIDE<SIN_OP<float> >(x, sin256_ps(x), _mm256_set1_ps(-8192.0f), _mm256_set1_ps(8192.0f));
+}
 template<typename T> static const inline __m256d SIN_OP_256(__m256d x) { return sin256_pd(x); }
-template<typename T> static const inline __m256  COS_OP_256(__m256 x) { return cos256_ps(x); }
+template<typename T> static const inline __m256  COS_OP_256(__m256 x) {
+    return REDO_LANES_OUTSIDE<COS_OP<float> >(x, cos256_ps(x), _mm256_set1_ps(-8192.0f), _mm256_set1_ps(8192.0f));
+}
 template<typename T> static const inline __m256d COS_OP_256(__m256d x) { return cos256_pd(x); }
-template<typename T> static const inline __m256  LOG_OP_256(__m256 x) { return log256_ps(x); }
+template<typename T> static const inline __m256  LOG_OP_256(__m256 x) {
+    return REDO_LANES_OUTSIDE<LOG_OP<float> >(x, log256_ps(x), _mm256_set1_ps(FLT_MIN), _mm256_set1_ps(FLT_MAX));
+}
 template<typename T> static const inline __m256d LOG_OP_256(__m256d x) { return log256_pd(x); }
-template<typename T> static const inline __m256  EXP_OP_256(__m256 x) { return exp256_ps(x); }
+template<typename T> static const inline __m256  EXP_OP_256(__m256 x) {
+    return REDO_LANES_OUTSIDE<EXP_OP<float> >(x, exp256_ps(x), _mm256_set1_ps(-87.0f), _mm256_set1_ps(88.0f));
+}
 template<typename T> static const inline __m256d EXP_OP_256(__m256d x) { return exp256_pd(x); }
 
 #if defined(RT_COMPILER_MSVC)
-- 
2.43.0


From c896f171a6a4150c7c87fe40b4bdf9b016233d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:05 +0000
Subject: [PATCH 18/43] fix: in-place compare of bool/int8 arrays compared the
 first elements again with the result

---
 src/atop/ops_compare.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/atop/ops_compare.cpp b/src/atop/ops_compare.cpp
index e857711..bb1f551 100644
--- a/src/atop/ops_compare.cpp
+++ b/src/atop/ops_compare.cpp
@@ -1238,6 +1238,7 @@ static void CompareInt8(void* pDataIn, void* pDataIn2, void* pDataOut, int64_t l
                     for (int64_t i = 0; i < len; i++) {
                         pDataOutX[i] = COMPARE(pDataInX[i], pDataIn2X[i]);
                     }
+                    return;
                 }
             }
     }
-- 
2.43.0


From 93ea1f7e04d528d9e414b22351dfcf8304abe12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:53 +0000
Subject: [PATCH 19/43] fix: process overlapping input and output of
 one-operand ufuncs in order

---
 src/pnumpy/_pnumpy.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/pnumpy/_pnumpy.cpp b/src/pnumpy/_pnumpy.cpp
index 7b22e4f..6b9700c 100644
--- a/src/pnumpy/_pnumpy.cpp
+++ b/src/pnumpy/_pnumpy.cpp
@@ -927,9 +927,11 @@ static void AtopUnaryMathFunction(char** args, const npy_intp* dimensions, const
         UNARY_FUNC pUnaryFunc = pstUFunc->pUnaryFunc;
         LOGGING("unary called with %d %d   funcp: %p  len: %lld  inputs: %p %p  steps: %lld %lld\n", funcop, atype, g_UFuncLUT[funcop][atype].pOldFunc, n, args[0], args[1], (int64_t)steps[0], (int64_t)steps[1]);
 
-        stMATH_WORKER_ITEM* pWorkItem = THREADER->GetWorkItem(n);
+        // numpy passes overlapping arrays when processing them in order is safe
+        bool inOrder = IsOutputFeedingInput(args[0], steps[0], args[1], steps[1], n);
+        stMATH_WORKER_ITEM* pWorkItem = THREADER->GetWorkItem(inOrder ? 0 : n);
         int64_t strideOut = steps[1];
-        if (strideOut == 0) {
+        if (inOrder || strideOut == 0) {
             pUnaryFunc = NULL;
             //        strideOut = convert_atop_to_itemsize[atype];
             //        if (n != 1) printf("!!!! error unary with no strides but len != 1  %lld\n", n);
@@ -991,9 +993,11 @@ static void AtopTrigMathFunction(char** args, const npy_intp* dimensions, const
         UNARY_FUNC pUnaryFunc = pstUFunc->pUnaryFunc;
         //printf("trig called with %d %d   funcp: %p  len: %lld  inputs: %p %p  steps: %lld %lld\n", funcop, atype, pstUFunc->pOldFunc, n, args[0], args[1], (int64_t)steps[0], (int64_t)steps[1]);
 
-        stMATH_WORKER_ITEM* pWorkItem = THREADER->GetWorkItem(n);
+        // numpy passes overlapping arrays when processing them in order is safe
+        bool inOrder = IsOutputFeedingInput(args[0], steps[0], args[1], steps[1], n);
+        stMATH_WORKER_ITEM* pWorkItem = THREADER->GetWorkItem(inOrder ? 0 : n);
         int64_t strideOut = steps[1];
-        if (strideOut == 0) {
+        if (inOrder || strideOut == 0) {
             pUnaryFunc = NULL;
             //        strideOut = convert_atop_to_itemsize[atype];
             //        if (n != 1) printf("!!!! error unary with no strides but len != 1  %lld\n", n);
-- 
2.43.0


From 8643251171cf147b79ef41a003a9681cdfcf8b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:04 +0000
Subject: [PATCH 20/43] fix: ledger read a second dimension that loop calls do
 not have

---
 src/pnumpy/ledger.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pnumpy/ledger.cpp b/src/pnumpy/ledger.cpp
index 59709d8..1475cd7 100644
--- a/src/pnumpy/ledger.cpp
+++ b/src/pnumpy/ledger.cpp
@@ -241,7 +241,8 @@ void LedgerRecord(int32_t op_category, int64_t start_time, int64_t end_time, cha
     pEntry->StrCatName = strCatName;
     pEntry->StrOpName = g_str_ufunc_name[op_category][funcop];
     pEntry->ArrayLength1 = (int64_t)dimensions[0];
-    pEntry->ArrayLength2 = (int64_t)dimensions[1];
+    // ufunc loops are given one dimension
+    pEntry->ArrayLength2 = 0;
 
     // temporary for debugging print out results
     printf ("%lld \tlen: %lld   %s,  %s,  %s\n", (long long)deltaTime, (long long)dimensions[0], pEntry->StrOpName, gStrAtopTypes[atype], strCatName);
-- 
2.43.0


From c81900db7bc189a81d95f045d9281f7894858b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:20 +0000
Subject: [PATCH 21/43] fix: sort hook: sort the destination numpy prepared
 instead of the array buffer with an out of range stride

---
 src/pnumpy/_pnumpy.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pnumpy/_pnumpy.cpp b/src/pnumpy/_pnumpy.cpp
index 6b9700c..d32a242 100644
--- a/src/pnumpy/_pnumpy.cpp
+++ b/src/pnumpy/_pnumpy.cpp
@@ -1085,8 +1085,10 @@ static int AtopSortMathFunction(void* pDest, npy_intp length, void* pArrayObject
                         // Make sure we can handle this
                         if (PyArray_ITEMSIZE(pSrcObject) == itemsize && PyArray_STRIDE(pSrcObject, 0) == itemsize) {
                             SORT_MODE sortmode = (SORT_MODE)sortkind;
+                            // NOTE: numpy already put the values in pDest.  The buffer of the array may hold them
+                            // byteswapped or misaligned (numpy then sorts a converted copy)
                             int result =
-                                Sort(sortmode, atype, PyArray_BYTES(pSrcObject), ArrayLength(pSrcObject), PyArray_STRIDE(pSrcObject, 1), PyArray_ITEMSIZE(pSrcObject), pDest, PyArray_ITEMSIZE(pSrcObject));
+                                Sort(sortmode, atype, pDest, length, itemsize, itemsize, pDest, itemsize);
 
                             LOGGING("result is %d  %d   len: %lld\n", result, atype, length);
                             if (result >= 0)
-- 
2.43.0


From 35a8f46c2aa2290abf8232a40c82b21c962d32a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:20 +0000
Subject: [PATCH 22/43] fix: parallel sort: copy first, and only use the
 parallel merge when there is a routine for one job

---
 src/atop/sort.cpp | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/atop/sort.cpp b/src/atop/sort.cpp
index 4f7416c..f9eaec2 100644
--- a/src/atop/sort.cpp
+++ b/src/atop/sort.cpp
@@ -2130,7 +2130,19 @@ par_sort(
     // If size is large, go parallel
     LOGGING("Parallel version  %p  %p  %p\n", pSortFunction.sortfunc, pOut , pValues);
 
-    stMATH_WORKER_ITEM* pWorkItem = THREADER->GetWorkItem(arrayLength);
+    // Check if in place or a copy needs to be done
+    if (pValues != pOut) {
+        CopyData(
+            pValues,
+            arrayLength,
+            stridesIn,
+            itemSize,
+            pOut,
+            stridesOut);
+    }
+
+    // The parallel merge compares single elements, strings have to be sorted by one thread
+    stMATH_WORKER_ITEM* pWorkItem = pSortFunction.sortfunc ? THREADER->GetWorkItem(arrayLength) : NULL;
 
     if (pWorkItem) {
         MERGE_STEP_ONE_CALLBACK stParMergeCallback;
@@ -2161,7 +2173,7 @@ par_sort(
         // second pass is a mergesort in place
         stParMergeCallback.SortCallbackTwo = ParInPlaceMerge<DATATYPE>;
 
-        stParMergeCallback.pValues = pValues;
+        stParMergeCallback.pValues = pOut;
         stParMergeCallback.pToSort = pOut;
         stParMergeCallback.ArrayLength = arrayLength;
         stParMergeCallback.StrLen = itemSize;
@@ -2180,18 +2192,6 @@ par_sort(
     }
 
     // No threading path
-
-    // Check if in place or a copy needs to be done
-    if (pValues != pOut) {
-        CopyData(
-            pValues,
-            arrayLength,
-            stridesIn,
-            itemSize,
-            pOut,
-            stridesOut);
-    }
-
     // single threaded sort
     if (pSortFunction.sortfunc)
         return  pSortFunction.sortfunc(pOut, arrayLength);
-- 
2.43.0


From b474b9038a7b43e33cd8e0872e1a1158a769a88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:20 +0000
Subject: [PATCH 23/43] fix: amergesort: compare like the other routines so nan
 sorts last

---
 src/atop/sort.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/atop/sort.cpp b/src/atop/sort.cpp
index f9eaec2..ccfcc07 100644
--- a/src/atop/sort.cpp
+++ b/src/atop/sort.cpp
@@ -1162,7 +1162,7 @@ amergesort0_(UINDEX* pl, UINDEX* pr, const T* v, UINDEX* pw)
         // moving from workspace into left
 
         while (pw < pwEnd && pm < pr) {
-            if (v[*pm] < v[*pw]) {
+            if (COMPARE_LT(v[*pm], v[*pw])) {
                 *pl++ = *pm++;
             }
             else {
-- 
2.43.0


From 0346c99ca57e1948c030fe6a2062805252b37209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:20 +0000
Subject: [PATCH 24/43] fix: parallel string merge: compare with the previous
 element in the quick check

---
 src/atop/sort.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/atop/sort.cpp b/src/atop/sort.cpp
index ccfcc07..7e0ac1f 100644
--- a/src/atop/sort.cpp
+++ b/src/atop/sort.cpp
@@ -1288,7 +1288,7 @@ ParMergeMergeString(void* pValue1, void* pToSort1, int64_t totalLen, int64_t str
 
     PLOGGING("Comparing %s to %s  ALSO %s\n", pValue + (*pm) * strlen, pValue + (*pm - 1) * strlen, pValue + (*pm + 1) * strlen);
 
-    if ( STRING_LT((DATATYPE)(pValue + (*pm) * strlen), (DATATYPE)(pValue + (*pm - 1) * strlen), strlen)) {
+    if ( STRING_LT((DATATYPE)(pValue + (*pm) * strlen), (DATATYPE)(pValue + (*(pm - 1)) * strlen), strlen)) {
 
         // copy the left to workspace
         MEMCPYR(pWorkSpace, pl, (pm - pl) * sizeof(UINDEX));
-- 
2.43.0


From 83a3b91c08e946792db8a436ef5d93290873938e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:20 +0000
Subject: [PATCH 25/43] fix: lexsort and sort: reject byteswapped arrays

---
 src/pnumpy/sorting.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pnumpy/sorting.cpp b/src/pnumpy/sorting.cpp
index ddee8af..78f4bfa 100644
--- a/src/pnumpy/sorting.cpp
+++ b/src/pnumpy/sorting.cpp
@@ -396,6 +396,10 @@ PyObject* lexsort(PyObject* self, PyObject* args, PyObject* kwargs) {
                 PyErr_Format(PyExc_ValueError, "LexSort cannot handle type %d\n",dtype);
                 return NULL;
             }
+            if (!PyArray_ISNOTSWAPPED(mlp.aInfo[i].pObject)) {
+                PyErr_Format(PyExc_ValueError, "LexSort cannot handle byteswapped arrays");
+                return NULL;
+            }
         }
 
 
@@ -540,6 +544,10 @@ extern "C" PyObject* sort(PyObject* self, PyObject* args, PyObject* kwargs) {
         PyErr_Format(PyExc_ValueError, "Sort cannot handle type %d\n", dtype);
         return NULL;
     }
+    if (!PyArray_ISNOTSWAPPED(inArrValues)) {
+        PyErr_Format(PyExc_ValueError, "Sort cannot handle byteswapped arrays");
+        return NULL;
+    }
     int ndimValue;
     int64_t strideValue = 0;
 
-- 
2.43.0


From 45d12c2126bea6bd48f6cb83b4c57a2118ee8cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:20 +0000
Subject: [PATCH 26/43] fix: half floats: order by value

---
 src/atop/sort.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/atop/sort.cpp b/src/atop/sort.cpp
index 7e0ac1f..f33497c 100644
--- a/src/atop/sort.cpp
+++ b/src/atop/sort.cpp
@@ -199,6 +199,15 @@ HALF_LT(atop_half a, atop_half b)
     return ret;
 }
 
+// The bits of a half float do not sort as an integer (sign, nan)
+struct half_item {
+    atop_half bits;
+};
+FORCE_INLINE static bool COMPARE_LT(half_item X, half_item Y) { return HALF_LT(X.bits, Y.bits); }
+FORCE_INLINE static bool operator<=(half_item X, half_item Y) { return !HALF_LT(Y.bits, X.bits); }
+FORCE_INLINE static half_item* FIND_NANS(half_item* pr, half_item* pm)
+    { do { if (!atop_half_isnan((pr - 1)->bits)) return pr; --pr; } while (pm < pr); return pr; }
+
 //======================================
 // For one byte strings
 FORCE_INLINE static bool
@@ -2321,6 +2330,8 @@ static int SortIndex(
         return SortIndex<uint32_t, UINDEX>(pCutOffs, cutOffLength, pDataIn1, pDataOut1, arraySize1, mode);
     case ATOP_UINT64:
         return SortIndex<uint64_t, UINDEX>(pCutOffs, cutOffLength, pDataIn1, pDataOut1, arraySize1, mode);
+    case ATOP_HALF_FLOAT:
+        return SortIndex<half_item, UINDEX>(pCutOffs, cutOffLength, pDataIn1, pDataOut1, arraySize1, mode);
     case ATOP_FLOAT:
         return SortIndex<float, UINDEX>(pCutOffs, cutOffLength, pDataIn1, pDataOut1, arraySize1, mode);
     case ATOP_DOUBLE:
@@ -2403,7 +2414,7 @@ static SORT_FUNCTION GetSortFunction(void* pDataIn1, int64_t arraySize1, int32_t
     case ATOP_LONGDOUBLE:
         return SortInPlace<long double>(mode);
     case ATOP_HALF_FLOAT:
-        return SortInPlace<atop_half>(mode);
+        return SortInPlace<half_item>(mode);
     default:
         LOGGING("SortArray does not understand type %d\n", atype);
         return NULL;
@@ -2475,7 +2486,7 @@ extern "C" int Sort(
     case ATOP_LONGDOUBLE:
         return par_sort<long double>(pDataIn1, arraySize1, stridesIn, itemSize, pDataOut1, stridesOut, pSortFunction);
     case ATOP_HALF_FLOAT:
-        return par_sort<atop_half>(pDataIn1, arraySize1, stridesIn, itemSize, pDataOut1, stridesOut, pSortFunction);
+        return par_sort<half_item>(pDataIn1, arraySize1, stridesIn, itemSize, pDataOut1, stridesOut, pSortFunction);
     case ATOP_STRING:
         return par_sort<unsigned char>(pDataIn1, arraySize1, stridesIn, itemSize, pDataOut1, stridesOut, pSortFunction);
     case ATOP_UNICODE:
-- 
2.43.0


From ac9b3fe70d71249971b8bebd9e09ab213e021f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:21 +0000
Subject: [PATCH 27/43] fix: pn.sort: sort when axis is None

---
 src/pnumpy/sort.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/pnumpy/sort.py b/src/pnumpy/sort.py
index 7906b55..aa7aa73 100644
--- a/src/pnumpy/sort.py
+++ b/src/pnumpy/sort.py
@@ -198,12 +198,6 @@ def sort(a, axis=-1, kind=None, order=None):
         # flatten returns (1, N) for np.matrix, so always use the last axis
         a = asanyarray(a).flatten()
         axis = -1
-        try:
-            # attempt a parallel sort
-            sort(a, kind=kind)
-            return a
-        except Exception:
-            pass
     else:
         a = asanyarray(a).copy(order="K")
 
-- 
2.43.0


From a2d495513edd1ca08d2ed7f1a5413bd2b841b3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:21 +0000
Subject: [PATCH 28/43] fix: arange fill starts after the two given elements

---
 src/atop/fill.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/atop/fill.cpp b/src/atop/fill.cpp
index eca8480..b423b29 100644
--- a/src/atop/fill.cpp
+++ b/src/atop/fill.cpp
@@ -70,6 +70,9 @@ ArangeFillType(char *pBufferV, void* pFirstV, void* pNextValueV, int64_t start,
 
     delta -= first;
 
+    // The first two values are already there (the second may differ from first + delta by rounding)
+    if (start < 2) start = 2;
+
     // TOOD: vectorize this code
     for (int64_t i = start; i < length; i++) {
         pBuffer[i] = (TYPE)(first + i * delta);
-- 
2.43.0


From fda0f302dc4f7abe4bba521e00b7a4c181de94b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:50 +0000
Subject: [PATCH 29/43] fix: copy records to columns by field name and only
 walk adjacent one-dimensional records

A title made a second key for its field, fields without bytes broke the
copy loop, and arrays of more dimensions or with a stride were rejected
or read past their rows.
---
 src/pnumpy/conversions.cpp |  7 ++++++-
 src/pnumpy/recarray.py     | 15 +++++++++------
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/pnumpy/conversions.cpp b/src/pnumpy/conversions.cpp
index 037b3e4..3ccb2d9 100644
--- a/src/pnumpy/conversions.cpp
+++ b/src/pnumpy/conversions.cpp
@@ -46,7 +46,7 @@ recarray_to_colmajor(PyObject* self, PyObject* args) {
 
     int64_t itemSize = PyArray_ITEMSIZE(inArr);
 
-    if (itemSize != PyArray_STRIDE(inArr, 0)) {
+    if (PyArray_NDIM(inArr) != 1 || itemSize != PyArray_STRIDE(inArr, 0)) {
         PyErr_Format(PyExc_ValueError, "recarray_to_colmajor cannot yet handle strides");
         return NULL;
     }
@@ -69,6 +69,11 @@ recarray_to_colmajor(PyObject* self, PyObject* args) {
         return NULL;
     }
 
+    if (itemSize < 1 || numArrays < 1) {
+        // no bytes in the records or no columns: nothing to copy
+        RETURN_NONE;
+    }
+
     int64_t totalRows = length;
     int64_t* pOffsets = (int64_t*)PyArray_BYTES(offsetArr);
     PyArrayObject** ppArrays = (PyArrayObject**)PyArray_BYTES(arrArr);
diff --git a/src/pnumpy/recarray.py b/src/pnumpy/recarray.py
index 53e9829..9429f18 100644
--- a/src/pnumpy/recarray.py
+++ b/src/pnumpy/recarray.py
@@ -26,22 +26,25 @@ def recarray_to_colmajor(item, parallel=True):
     if item.dtype.char == 'V':
         # warnings.warn(f"Converting numpy record array. Performance may suffer.")
         # flip row-major to column-major
-        list_types = [*item.dtype.fields.values()]
+        # the fields by name (a title is another key for the same field)
+        list_types = [item.dtype.fields[name] for name in item.dtype.names]
         success = True
         for t in list_types:
             val = t[0].char
             # if the record type has an object or another record type, we cannot handle
-            if val == 'O' or val =='V':
+            # a field without bytes has nothing to copy (numpy allocates one byte for it)
+            if val == 'O' or val =='V' or t[0].itemsize == 0:
                 success = False
                 break;
 
         d={}
-        if success and parallel:
+        # the parallel routine walks one dimension of adjacent records, the rest is copied by numpy
+        if success and parallel and item.ndim == 1 and item.strides[0] == item.itemsize:
             offsets=[]
-            arrays=np.empty(len(item.dtype.fields), dtype='O')
+            arrays=np.empty(len(item.dtype.names), dtype='O')
             arrlen = len(item)
             count =0
-            for name, v in item.dtype.fields.items():
+            for name, v in zip(item.dtype.names, list_types):
                 offsets.append(v[1])
                 arr= np.empty(arrlen, dtype=v[0])
                 arrays[count] = arr
@@ -55,7 +58,7 @@ def recarray_to_colmajor(item, parallel=True):
         else:
             # single thread way
             for name in item.dtype.names:
-                d[name] = item[:][name].copy()
+                d[name] = item[name].copy()
         return d
 
     warnings.warn(f"The array passed was not a numpy record array.")
-- 
2.43.0


From f28a33d70f40a97279e31a10b48a3e0f922b2540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:50 +0000
Subject: [PATCH 30/43] fix: advance the boolean index output by the item size
 in the tail loop

Strided values left holes in (and wrote past the end of) the dense result.
---
 src/pnumpy/getitem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pnumpy/getitem.cpp b/src/pnumpy/getitem.cpp
index b708352..a37b4a8 100644
--- a/src/pnumpy/getitem.cpp
+++ b/src/pnumpy/getitem.cpp
@@ -475,7 +475,7 @@ BooleanIndexInternal(
                         for (int64_t i = 0; i < blength; i++) {
                             if (*pBooleanMask++) {
                                 memcpy(pValuesOut, pValuesIn, itemSize);
-                                pValuesOut += strideValues;
+                                pValuesOut += itemSize;
                             }
                             pValuesIn += strideValues;
                         }
-- 
2.43.0


From 3e9361b5f27d65f637537d831a1fd0699e8889f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:50 +0000
Subject: [PATCH 31/43] fix: boolean index requires equal shapes and walks
 contiguous arrays item by item

The stride of the first dimension was used for arrays of more dimensions,
which read far outside both arrays, and any shape of equal size was accepted.
---
 src/pnumpy/getitem.cpp | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/pnumpy/getitem.cpp b/src/pnumpy/getitem.cpp
index a37b4a8..6540ed0 100644
--- a/src/pnumpy/getitem.cpp
+++ b/src/pnumpy/getitem.cpp
@@ -148,7 +148,7 @@ int64_t SumBooleanMask(const int8_t* const pData, const int64_t length, const in
 // Output: chunk count and ppChunkCount
 // NOTE: CALLER MUST FREE pChunkCount
 //
-int64_t BooleanCount(PyArrayObject* aIndex, int64_t** ppChunkCount) {
+int64_t BooleanCount(PyArrayObject* aIndex, int64_t strideBoolean, int64_t** ppChunkCount) {
 
     // Pass one, count the values
     // Eight at a time
@@ -199,7 +199,7 @@ int64_t BooleanCount(PyArrayObject* aIndex, int64_t** ppChunkCount) {
         BSCallbackStruct stBSCallback;
         stBSCallback.pChunkCount = pChunkCount;
         stBSCallback.pBooleanMask = pBooleanMask;
-        stBSCallback.strideBoolean = PyArray_STRIDE(aIndex, 0);
+        stBSCallback.strideBoolean = strideBoolean;
 
         BOOL didMtWork = THREADER->DoMultiThreadedChunkWork(lengthBool, lambdaBSCallback, &stBSCallback);
 
@@ -237,18 +237,30 @@ BooleanIndexInternal(
         return NULL;
     }
 
+    const int ndim = PyArray_NDIM(aIndex);
+    if (ndim < 1 || ndim != PyArray_NDIM(aValues)) {
+        PyErr_Format(PyExc_ValueError, "Array dimensions must match %d vs %d", ndim, PyArray_NDIM(aValues));
+        return NULL;
+    }
+
     // Pass one, count the values
     // Eight at a time
     int64_t lengthBool = ArrayLength(aIndex);
     int64_t lengthValue = ArrayLength(aValues);
 
-    if (lengthBool != lengthValue) {
-        PyErr_Format(PyExc_ValueError, "Array lengths must match %lld vs %lld", lengthBool, lengthValue);
-        return NULL;
+    for (int i = 0; i < ndim; i++) {
+        if (PyArray_DIM(aIndex, i) != PyArray_DIM(aValues, i)) {
+            PyErr_Format(PyExc_ValueError, "Array lengths must match %lld vs %lld", lengthBool, lengthValue);
+            return NULL;
+        }
     }
 
+    // a contiguous array of more than one dimension is walked item by item
+    const int64_t strideBoolean = ndim == 1 ? PyArray_STRIDE(aIndex, 0) : 1;
+    const int64_t strideValues = ndim == 1 ? PyArray_STRIDE(aValues, 0) : PyArray_ITEMSIZE(aValues);
+
     int64_t* pChunkCount = NULL;
-    int64_t    chunks = BooleanCount(aIndex, &pChunkCount);
+    int64_t    chunks = BooleanCount(aIndex, strideBoolean, &pChunkCount);
 
     if (chunks == 0) {
         PyErr_Format(PyExc_ValueError, "Out of memory");
@@ -564,8 +576,8 @@ BooleanIndexInternal(
             stBICallback.pValuesIn = (char*)PyArray_BYTES(aValues);
             stBICallback.pValuesOut = (char*)PyArray_BYTES(pReturnArray);
             stBICallback.itemSize = PyArray_ITEMSIZE(aValues);
-            stBICallback.strideBoolean = PyArray_STRIDE(aIndex, 0);
-            stBICallback.strideValues = PyArray_STRIDE(aValues, 0);
+            stBICallback.strideBoolean = strideBoolean;
+            stBICallback.strideValues = strideValues;
 
             THREADER->DoMultiThreadedChunkWork(lengthBool, lambdaBICallback2, &stBICallback);
         }
-- 
2.43.0


From 41aefda55e2683b5edaa357e16ae60a591f83e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:50 +0000
Subject: [PATCH 32/43] fix: boolean index splits the copy only if the count
 was split

When another thread held the worker ring during the count, the chunk
offsets of the copy were never written.
---
 src/pnumpy/getitem.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pnumpy/getitem.cpp b/src/pnumpy/getitem.cpp
index 6540ed0..7656b00 100644
--- a/src/pnumpy/getitem.cpp
+++ b/src/pnumpy/getitem.cpp
@@ -579,7 +579,13 @@ BooleanIndexInternal(
             stBICallback.strideBoolean = strideBoolean;
             stBICallback.strideValues = strideValues;
 
-            THREADER->DoMultiThreadedChunkWork(lengthBool, lambdaBICallback2, &stBICallback);
+            if (chunks > 1) {
+                THREADER->DoMultiThreadedChunkWork(lengthBool, lambdaBICallback2, &stBICallback);
+            }
+            else {
+                // there is one count only, the work cannot be split
+                lambdaBICallback2(&stBICallback, 0, 0, lengthBool);
+            }
         }
     }  else {
         // ran out of memory
-- 
2.43.0


From 1a3fb296541b7acb3adcee6c5d6a9628d5a00b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:50 +0000
Subject: [PATCH 33/43] fix: AllocateLikeResize keeps the dtype of the array

The result lost the byte order, the datetime unit and the fields.
---
 src/pnumpy/common.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/pnumpy/common.cpp b/src/pnumpy/common.cpp
index 8cb9acb..f6e8818 100644
--- a/src/pnumpy/common.cpp
+++ b/src/pnumpy/common.cpp
@@ -157,14 +157,11 @@ PyArrayObject* AllocateNumpyArray(int ndim, npy_intp* dims, int32_t numpyType, i
 //-----------------------------------------------------------------------------------
 // NOTE: will only allocate 1 dim arrays
 PyArrayObject* AllocateLikeResize(PyArrayObject* inArr, npy_intp rowSize) {
-    int numpyType = PyArray_TYPE(inArr);
+    // keep the descriptor: the type number alone loses byte order, time unit and fields
+    PyArray_Descr* descr = PyArray_DESCR(inArr);
 
-    PyArrayObject* result = NULL;
-
-    int64_t itemSize = PyArray_ITEMSIZE(inArr);
-    result = AllocateNumpyArray(1, &rowSize, numpyType, itemSize);
-
-    return result;
+    Py_INCREF(descr);
+    return (PyArrayObject*)PyArray_NewFromDescr(pPyArray_Type, descr, 1, &rowSize, NULL, NULL, 0, NULL);
 }
 
 //-----------------------------------------------------------------------------------
-- 
2.43.0


From e920dedf80dd13be44b435760092cc59de973abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:50 +0000
Subject: [PATCH 34/43] fix: getitem refuses arrays that hold objects

The pointers were copied without taking references.
---
 src/pnumpy/getitem.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/pnumpy/getitem.cpp b/src/pnumpy/getitem.cpp
index 7656b00..ec94a38 100644
--- a/src/pnumpy/getitem.cpp
+++ b/src/pnumpy/getitem.cpp
@@ -237,6 +237,11 @@ BooleanIndexInternal(
         return NULL;
     }
 
+    if (PyDataType_REFCHK(PyArray_DESCR(aValues))) {
+        PyErr_Format(PyExc_ValueError, "Dont know how to index an array of objects.");
+        return NULL;
+    }
+
     const int ndim = PyArray_NDIM(aIndex);
     if (ndim < 1 || ndim != PyArray_NDIM(aValues)) {
         PyErr_Format(PyExc_ValueError, "Array dimensions must match %d vs %d", ndim, PyArray_NDIM(aValues));
@@ -1097,6 +1102,11 @@ getitem(PyObject* self, PyObject* args)
         return BooleanIndexInternal(aValues, aIndex);
     }
 
+    if (PyDataType_REFCHK(PyArray_DESCR(aValues))) {
+        PyErr_Format(PyExc_ValueError, "Dont know how to index an array of objects.");
+        return NULL;
+    }
+
     int ndimValue;
     int ndimIndex;
     int64_t strideValue = 0;
-- 
2.43.0


From debafcbe60d06c6a478731ed5bc24d97653410b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:50 +0000
Subject: [PATCH 35/43] fix: getitem does not assume that 16 byte items are
 aligned to 16 bytes

A strided complex array crashed on the aligned load.
---
 src/pnumpy/getitem.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/pnumpy/getitem.cpp b/src/pnumpy/getitem.cpp
index ec94a38..45f04dc 100644
--- a/src/pnumpy/getitem.cpp
+++ b/src/pnumpy/getitem.cpp
@@ -626,6 +626,12 @@ BooleanIndex(PyObject* self, PyObject* args)
 
 
 
+//----------------------------------------------------
+// A 16 byte item, which numpy need not align to 16 bytes
+struct ITEM16 {
+    int64_t part[2];
+};
+
 //----------------------------------------------------
 // Consider:  C=A[B]   where A is a value array
 // C must be the same type as A (and is also a value array)
@@ -960,7 +966,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         case 2:  return GetItemInt<int16_t, int8_t>;
         case 4:  return GetItemInt<int32_t, int8_t>;
         case 8:  return GetItemInt<int64_t, int8_t>;
-        case 16:  return GetItemInt<__m128, int8_t>;
+        case 16:  return GetItemInt<ITEM16, int8_t>;
         default: return GetItemIntVariable<int8_t>;
         }
         break;
@@ -970,7 +976,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         case 2:  return GetItemUInt<int16_t, int8_t>;
         case 4:  return GetItemUInt<int32_t, int8_t>;
         case 8:  return GetItemUInt<int64_t, int8_t>;
-        case 16:  return GetItemUInt<__m128, int8_t>;
+        case 16:  return GetItemUInt<ITEM16, int8_t>;
         default: return GetItemUIntVariable<int8_t>;
         }
         break;
@@ -981,7 +987,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         case 2:  return GetItemInt<int16_t, int16_t>;
         case 4:  return GetItemInt<int32_t, int16_t>;
         case 8:  return GetItemInt<int64_t, int16_t>;
-        case 16:  return GetItemInt<__m128, int16_t>;
+        case 16:  return GetItemInt<ITEM16, int16_t>;
         default: return GetItemIntVariable<int16_t>;
         }
         break;
@@ -991,7 +997,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         case 2:  return GetItemUInt<int16_t, int16_t>;
         case 4:  return GetItemUInt<int32_t, int16_t>;
         case 8:  return GetItemUInt<int64_t, int16_t>;
-        case 16:  return GetItemUInt<__m128, int16_t>;
+        case 16:  return GetItemUInt<ITEM16, int16_t>;
         default: return GetItemUIntVariable<int16_t>;
         }
         break;
@@ -1002,7 +1008,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         case 2:  return GetItemInt<int16_t, int32_t>;
         case 4:  return GetItemInt<int32_t, int32_t>;
         case 8:  return GetItemInt<int64_t, int32_t>;
-        case 16:  return GetItemInt<__m128, int32_t>;
+        case 16:  return GetItemInt<ITEM16, int32_t>;
         default: return GetItemIntVariable<int32_t>;
         }
         break;
@@ -1012,7 +1018,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         case 2:  return GetItemUInt<int16_t, int32_t>;
         case 4:  return GetItemUInt<int32_t, int32_t>;
         case 8:  return GetItemUInt<int64_t, int32_t>;
-        case 16:  return GetItemUInt<__m128, int32_t>;
+        case 16:  return GetItemUInt<ITEM16, int32_t>;
         default: return GetItemUIntVariable<int32_t>;
         }
         break;
@@ -1023,7 +1029,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         case 2:  return GetItemInt<int16_t, int64_t>;
         case 4:  return GetItemInt<int32_t, int64_t>;
         case 8:  return GetItemInt<int64_t, int64_t>;
-        case 16:  return GetItemInt<__m128, int64_t>;
+        case 16:  return GetItemInt<ITEM16, int64_t>;
         default: return GetItemIntVariable<int64_t>;
         }
         break;
@@ -1033,7 +1039,7 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         case 2:  return GetItemUInt<int16_t, int64_t>;
         case 4:  return GetItemUInt<int32_t, int64_t>;
         case 8:  return GetItemUInt<int64_t, int64_t>;
-        case 16:  return GetItemUInt<__m128, int64_t>;
+        case 16:  return GetItemUInt<ITEM16, int64_t>;
         default: return GetItemUIntVariable<int64_t>;
         }
         break;
-- 
2.43.0


From 44479f7aeadda266a48df4c17649f933f5285dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:50 +0000
Subject: [PATCH 36/43] fix: unsigned index arrays are read as unsigned

An index past the signed half became negative and passed the range check.
---
 src/pnumpy/getitem.cpp | 48 +++++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/pnumpy/getitem.cpp b/src/pnumpy/getitem.cpp
index 45f04dc..39390b4 100644
--- a/src/pnumpy/getitem.cpp
+++ b/src/pnumpy/getitem.cpp
@@ -972,12 +972,12 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         break;
     case NPY_UINT8:
         switch (itemSize) {
-        case 1:  return GetItemUInt<int8_t, int8_t>;
-        case 2:  return GetItemUInt<int16_t, int8_t>;
-        case 4:  return GetItemUInt<int32_t, int8_t>;
-        case 8:  return GetItemUInt<int64_t, int8_t>;
-        case 16:  return GetItemUInt<ITEM16, int8_t>;
-        default: return GetItemUIntVariable<int8_t>;
+        case 1:  return GetItemUInt<int8_t, uint8_t>;
+        case 2:  return GetItemUInt<int16_t, uint8_t>;
+        case 4:  return GetItemUInt<int32_t, uint8_t>;
+        case 8:  return GetItemUInt<int64_t, uint8_t>;
+        case 16:  return GetItemUInt<ITEM16, uint8_t>;
+        default: return GetItemUIntVariable<uint8_t>;
         }
         break;
 
@@ -993,12 +993,12 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         break;
     case NPY_UINT16:
         switch (itemSize) {
-        case 1:  return GetItemUInt<int8_t, int16_t>;
-        case 2:  return GetItemUInt<int16_t, int16_t>;
-        case 4:  return GetItemUInt<int32_t, int16_t>;
-        case 8:  return GetItemUInt<int64_t, int16_t>;
-        case 16:  return GetItemUInt<ITEM16, int16_t>;
-        default: return GetItemUIntVariable<int16_t>;
+        case 1:  return GetItemUInt<int8_t, uint16_t>;
+        case 2:  return GetItemUInt<int16_t, uint16_t>;
+        case 4:  return GetItemUInt<int32_t, uint16_t>;
+        case 8:  return GetItemUInt<int64_t, uint16_t>;
+        case 16:  return GetItemUInt<ITEM16, uint16_t>;
+        default: return GetItemUIntVariable<uint16_t>;
         }
         break;
 
@@ -1014,12 +1014,12 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         break;
     CASE_NPY_UINT32:
         switch (itemSize) {
-        case 1:  return GetItemUInt<int8_t, int32_t>;
-        case 2:  return GetItemUInt<int16_t, int32_t>;
-        case 4:  return GetItemUInt<int32_t, int32_t>;
-        case 8:  return GetItemUInt<int64_t, int32_t>;
-        case 16:  return GetItemUInt<ITEM16, int32_t>;
-        default: return GetItemUIntVariable<int32_t>;
+        case 1:  return GetItemUInt<int8_t, uint32_t>;
+        case 2:  return GetItemUInt<int16_t, uint32_t>;
+        case 4:  return GetItemUInt<int32_t, uint32_t>;
+        case 8:  return GetItemUInt<int64_t, uint32_t>;
+        case 16:  return GetItemUInt<ITEM16, uint32_t>;
+        default: return GetItemUIntVariable<uint32_t>;
         }
         break;
 
@@ -1035,12 +1035,12 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
         break;
     CASE_NPY_UINT64:
         switch (itemSize) {
-        case 1:  return GetItemUInt<int8_t, int64_t>;
-        case 2:  return GetItemUInt<int16_t, int64_t>;
-        case 4:  return GetItemUInt<int32_t, int64_t>;
-        case 8:  return GetItemUInt<int64_t, int64_t>;
-        case 16:  return GetItemUInt<ITEM16, int64_t>;
-        default: return GetItemUIntVariable<int64_t>;
+        case 1:  return GetItemUInt<int8_t, uint64_t>;
+        case 2:  return GetItemUInt<int16_t, uint64_t>;
+        case 4:  return GetItemUInt<int32_t, uint64_t>;
+        case 8:  return GetItemUInt<int64_t, uint64_t>;
+        case 16:  return GetItemUInt<ITEM16, uint64_t>;
+        default: return GetItemUIntVariable<uint64_t>;
         }
         break;
     }
-- 
2.43.0


From 7673f06cb507c6fe59619b3264914558e11ce1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:50 +0000
Subject: [PATCH 37/43] fix: getitem with an unsigned index and other item
 sizes fills every item

The output advanced twice per item, so the loop ran past the end.
---
 src/pnumpy/getitem.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/pnumpy/getitem.cpp b/src/pnumpy/getitem.cpp
index 39390b4..9afda4b 100644
--- a/src/pnumpy/getitem.cpp
+++ b/src/pnumpy/getitem.cpp
@@ -855,7 +855,6 @@ static void GetItemUIntVariable(void* aValues, void* aIndex, void* aDataOut, int
             //    memcpy(pDataOut, pSrc, itemSize);
 
             pIndex++;
-            pDataOut += itemSize;
         }
     }
     else {
@@ -881,7 +880,6 @@ static void GetItemUIntVariable(void* aValues, void* aIndex, void* aDataOut, int
                 *pDataOut++ = *pSrc++;
             }
             pIndex = STRIDE_NEXT(const INDEX, pIndex, strideIndex);
-            pDataOut += itemSize;
         }
     }
 }
-- 
2.43.0


From 83d5e7e3332673701f31e8beefb7443f577cb252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:50 +0000
Subject: [PATCH 38/43] fix: getitem blocks write to the dense output, not at
 the stride of the values

---
 src/pnumpy/getitem.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pnumpy/getitem.cpp b/src/pnumpy/getitem.cpp
index 9afda4b..4f5fbbe 100644
--- a/src/pnumpy/getitem.cpp
+++ b/src/pnumpy/getitem.cpp
@@ -933,7 +933,8 @@ static int64_t GetItemCallback(struct stMATH_WORKER_ITEM* pstWorkerItem, int cor
         // Calculate how much to adjust the pointers to get to the data for this work block
         int64_t blockStart = workBlock * pstWorkerItem->BlockSize;
 
-        int64_t valueAdj = blockStart * strideValue;
+        // the output is dense, whatever the stride of the values
+        int64_t valueAdj = blockStart * valueItemSize;
         int64_t indexAdj = blockStart * strideIndex;
 
         LOGGING("%d : workBlock %lld   blocksize: %lld    lenx: %lld  %lld  %lld  %lld %lld\n", core, workBlock, pstWorkerItem->BlockSize, lenX, typeSizeValues, typeSizeIndex, valueAdj, indexAdj);
-- 
2.43.0


From bdf593bc528e6f1e1a110facf35a84e74d7cace4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:50 +0000
Subject: [PATCH 39/43] fix: the getitem hook leaves subclasses of ndarray to
 numpy

---
 src/pnumpy/_pnumpy.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pnumpy/_pnumpy.cpp b/src/pnumpy/_pnumpy.cpp
index d32a242..194c3b7 100644
--- a/src/pnumpy/_pnumpy.cpp
+++ b/src/pnumpy/_pnumpy.cpp
@@ -1737,7 +1737,8 @@ extern "C"
 PyObject * GetItemHook(PyObject* aValues, PyObject* aIndex) {
 
     // Quick check for an array or we bail
-    if (PyType_IsSubtype(aIndex->ob_type, &PyArray_Type)) {
+    // (a subclass is left to numpy, which keeps the class of the result)
+    if (PyArray_CheckExact(aValues) && PyArray_CheckExact(aIndex)) {
         int32_t numpyValuesType = PyArray_TYPE((PyArrayObject*)aValues);
         int32_t numpyIndexType = PyArray_TYPE((PyArrayObject*)aIndex);
 
-- 
2.43.0


From 397f10cdc4ccbcfd1114aa997df09bc18d525424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:24 +0000
Subject: [PATCH 40/43] fix: getitem refuses an index array of the other byte
 order

The swapped bytes were taken as the index.
---
 src/pnumpy/getitem.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pnumpy/getitem.cpp b/src/pnumpy/getitem.cpp
index 4f5fbbe..cd6d14b 100644
--- a/src/pnumpy/getitem.cpp
+++ b/src/pnumpy/getitem.cpp
@@ -1112,6 +1112,11 @@ getitem(PyObject* self, PyObject* args)
         return NULL;
     }
 
+    if (PyArray_ISBYTESWAPPED(aIndex)) {
+        PyErr_Format(PyExc_ValueError, "Dont know how to handle an index dtype of the other byte order: %d", numpyIndexType);
+        return NULL;
+    }
+
     int ndimValue;
     int ndimIndex;
     int64_t strideValue = 0;
-- 
2.43.0


From 234fa0656e2f5d4ee3364ada01bfbc994e291c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:24 +0000
Subject: [PATCH 41/43] fix: a default for a boolean array is stored as 0 or 1

---
 src/pnumpy/common.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pnumpy/common.cpp b/src/pnumpy/common.cpp
index f6e8818..701f10d 100644
--- a/src/pnumpy/common.cpp
+++ b/src/pnumpy/common.cpp
@@ -332,6 +332,9 @@ BOOL ConvertScalarObject(PyObject* inObject1,  void* pDestVoid, int16_t numpyOut
 
             switch (numpyOutType) {
             case NPY_BOOL:
+                // overflow also means not zero
+                pDest->i = _mm256_set1_epi8(value != 0 ? 1 : 0);
+                break;
             case NPY_INT8:
                 pDest->i = _mm256_set1_epi8((int8_t)value);
                 break;
@@ -375,6 +378,8 @@ BOOL ConvertScalarObject(PyObject* inObject1,  void* pDestVoid, int16_t numpyOut
 
             switch (numpyOutType) {
             case NPY_BOOL:
+                pDest->i = _mm256_set1_epi8(value != 0 ? 1 : 0);
+                break;
             case NPY_INT8:
                 pDest->i = _mm256_set1_epi8((int8_t)value);
                 break;
-- 
2.43.0


From eb5dddebbd3060aef10b6ae10e5efdd780ab4829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:24 +0000
Subject: [PATCH 42/43] fix: the getitem default is one whole item of the dtype
 of the values

Items of 16 bytes or more read past the default of the type, a string
default was never copied, and the buffer was not aligned for the store.
---
 src/pnumpy/getitem.cpp | 83 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 68 insertions(+), 15 deletions(-)

diff --git a/src/pnumpy/getitem.cpp b/src/pnumpy/getitem.cpp
index cd6d14b..f52806d 100644
--- a/src/pnumpy/getitem.cpp
+++ b/src/pnumpy/getitem.cpp
@@ -1047,6 +1047,56 @@ static GETITEM_FUNC GetItemFunction(int64_t itemSize, int indexType) {
     return NULL;
 }
 
+//------------------------------------------------------------
+// Write the item used for an index that is out of range
+// pDefault is zeroed and holds at least 32 bytes, or the itemsize if that is larger
+// The invalid value of the type is used if defaultValue is None or cannot be converted
+static void FillDefault(PyArrayObject* aValues, PyObject* defaultValue, char* pDefault) {
+    const int numpyType = PyArray_TYPE(aValues);
+    const int64_t itemSize = PyArray_ITEMSIZE(aValues);
+
+    // The types which have an invalid value, others use 0
+    if (numpyType == NPY_LONGDOUBLE) {
+        *(npy_longdouble*)pDefault = (npy_longdouble)NAN;
+    }
+    else if (numpyType < NPY_LONGDOUBLE || numpyType == NPY_DATETIME || numpyType == NPY_TIMEDELTA) {
+        // NaT is the invalid value of int64_t
+        memcpy(pDefault, GetDefaultForType(numpyType < NPY_LONGDOUBLE ? numpyType : NPY_INT64), itemSize);
+    }
+
+    // Check if a default value was passed in
+    if (defaultValue != Py_None) {
+        alignas(32) char temp[32];
+        int64_t dataSize = 0;
+        void* pTempData = NULL;
+
+        // Try to convert the scalar
+        if (ConvertScalarObject(defaultValue, temp, numpyType == NPY_LONGDOUBLE ? NPY_DOUBLE : numpyType, &pTempData, &dataSize)) {
+            if (pTempData != temp) {
+                // The characters of a string
+                const bool isBytes = PyBytes_Check(defaultValue);
+                if (numpyType == (isBytes ? NPY_STRING : NPY_UNICODE)) {
+                    memset(pDefault, 0, itemSize);
+                    memcpy(pDefault, pTempData, dataSize < itemSize ? dataSize : itemSize);
+                }
+                if (!isBytes) {
+                    PyMem_Free(pTempData);
+                }
+            }
+            else if (numpyType == NPY_LONGDOUBLE) {
+                *(npy_longdouble*)pDefault = (npy_longdouble)*(double*)temp;
+            }
+            else {
+                memcpy(pDefault, temp, itemSize);
+            }
+        }
+    }
+
+    if (PyArray_ISBYTESWAPPED(aValues)) {
+        PyArray_DESCR(aValues)->f->copyswap(pDefault, NULL, 1, aValues);
+    }
+}
+
 //---------------------------------------------------------------------------
 // Input:
 // Arg1: numpy array aValues (can be anything)
@@ -1161,23 +1211,23 @@ getitem(PyObject* self, PyObject* args)
 
         if (outArray) {
             void* pDataOut = PyArray_BYTES(outArray);
-            void* pDefault = GetDefaultForType(numpyValuesType);
-
-            // reserve a full 16 bytes for default in case we have oneS
-            char tempDefault[128];
-
-            // Check if a default value was passed in as third parameter
-            if (defaultValue != Py_None) {
-                BOOL result;
-                int64_t itemSize;
-                void* pTempData = NULL;
-                // Try to convert the scalar
-                result = ConvertScalarObject(defaultValue, &tempDefault, numpyValuesType, &pTempData, &itemSize);
-                if (result) {
-                    // Assign the new default for out of range indexes
-                    pDefault = &tempDefault;
+            // one full item which holds the default, zero where the type has no invalid value
+            alignas(32) char tempDefault[128];
+            char* pDefault = tempDefault;
+
+            if (aValueItemSize > (int64_t)sizeof(tempDefault)) {
+                pDefault = (char*)WORKSPACE_ALLOC(aValueItemSize);
+                if (!pDefault) {
+                    Py_DECREF(outArray);
+                    PyErr_Format(PyExc_ValueError, "GetItem ran out of memory %d %d", numpyValuesType, numpyIndexType);
+                    return NULL;
                 }
+                memset(pDefault, 0, aValueItemSize);
+            }
+            else {
+                memset(tempDefault, 0, sizeof(tempDefault));
             }
+            FillDefault(aValues, defaultValue, pDefault);
 
             stMATH_WORKER_ITEM* pWorkItem = THREADER ? THREADER->GetWorkItem(aIndexLength) : NULL;
 
@@ -1218,6 +1268,9 @@ getitem(PyObject* self, PyObject* args)
                 //g_cMathWorker->WorkMain(pWorkItem, aIndexLength);
             }
 
+            if (pDefault != tempDefault) {
+                WORKSPACE_FREE(pDefault);
+            }
             return (PyObject*)outArray;
         }
         PyErr_Format(PyExc_ValueError, "GetItem ran out of memory %d %d", numpyValuesType, numpyIndexType);
-- 
2.43.0


From 611af1206876620912cad794044533af32368a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:43 +0000
Subject: [PATCH 43/43] fix: float sin and cos lost nearly all digits close to
 a root

---
 src/atop/ops_trig.cpp | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/atop/ops_trig.cpp b/src/atop/ops_trig.cpp
index b5a79eb..986d3ed 100644
--- a/src/atop/ops_trig.cpp
+++ b/src/atop/ops_trig.cpp
@@ -137,9 +137,20 @@ template<typename T> static const inline float ATANH_OP(float x) { return atanhf
 
 // Our custom sped up routines are only good within a range of inputs,
 // the lanes outside of the range (also nan) are redone with the scalar routine
+static const inline __m256 LANES_INSIDE(__m256 x, __m256 lo, __m256 hi) {
+    return _mm256_and_ps(_mm256_cmp_ps(x, lo, _CMP_GE_OQ), _mm256_cmp_ps(x, hi, _CMP_LE_OQ));
+}
+
+// Close to a root (other than 0 itself) the digits of the argument cancel, and so
+// a small sine or cosine of a large argument is also redone
+static const inline __m256 LANES_NOT_NEAR_ROOT(__m256 x, __m256 result) {
+    const __m256 sign = _mm256_set1_ps(-0.0f);
+    return _mm256_or_ps(_mm256_cmp_ps(_mm256_andnot_ps(sign, result), _mm256_set1_ps(0.00390625f), _CMP_GE_OQ),
+        _mm256_cmp_ps(_mm256_andnot_ps(sign, x), _mm256_set1_ps(1.0f), _CMP_LE_OQ));
+}
+
 template<const float MATH_OP(float)>
-static const inline __m256 REDO_LANES_OUTSIDE(__m256 x, __m256 result, __m256 lo, __m256 hi) {
-    const __m256 inside = _mm256_and_ps(_mm256_cmp_ps(x, lo, _CMP_GE_OQ), _mm256_cmp_ps(x, hi, _CMP_LE_OQ));
+static const inline __m256 REDO_LANES_OUTSIDE(__m256 x, __m256 result, __m256 inside) {
     const int mask = _mm256_movemask_ps(inside);
     if (mask != 0xff) {
         float in[8], out[8];
@@ -154,19 +165,21 @@ static const inline __m256 REDO_LANES_OUTSIDE(__m256 x, __m256 result, __m256 lo
 }
 
 template<typename T> static const inline __m256  SIN_OP_256(__m256 x) {
-    return REDO_LANES_OUTSIDE<SIN_OP<float> >(x, sin256_ps(x), _mm256_set1_ps(-8192.0f), _mm256_set1_ps(8192.0f));
+    const __m256 result = sin256_ps(x);
+    return REDO_LANES_OUTSIDE<SIN_OP<float> >(x, result, _mm256_and_ps(LANES_INSIDE(x, _mm256_set1_ps(-8192.0f), _mm256_set1_ps(8192.0f)), LANES_NOT_NEAR_ROOT(x, result)));
 }
 template<typename T> static const inline __m256d SIN_OP_256(__m256d x) { return sin256_pd(x); }
 template<typename T> static const inline __m256  COS_OP_256(__m256 x) {
-    return REDO_LANES_OUTSIDE<COS_OP<float> >(x, cos256_ps(x), _mm256_set1_ps(-8192.0f), _mm256_set1_ps(8192.0f));
+    const __m256 result = cos256_ps(x);
+    return REDO_LANES_OUTSIDE<COS_OP<float> >(x, result, _mm256_and_ps(LANES_INSIDE(x, _mm256_set1_ps(-8192.0f), _mm256_set1_ps(8192.0f)), LANES_NOT_NEAR_ROOT(x, result)));
 }
 template<typename T> static const inline __m256d COS_OP_256(__m256d x) { return cos256_pd(x); }
 template<typename T> static const inline __m256  LOG_OP_256(__m256 x) {
-    return REDO_LANES_OUTSIDE<LOG_OP<float> >(x, log256_ps(x), _mm256_set1_ps(FLT_MIN), _mm256_set1_ps(FLT_MAX));
+    return REDO_LANES_OUTSIDE<LOG_OP<float> >(x, log256_ps(x), LANES_INSIDE(x, _mm256_set1_ps(FLT_MIN), _mm256_set1_ps(FLT_MAX)));
 }
 template<typename T> static const inline __m256d LOG_OP_256(__m256d x) { return log256_pd(x); }
 template<typename T> static const inline __m256  EXP_OP_256(__m256 x) {
-    return REDO_LANES_OUTSIDE<EXP_OP<float> >(x, exp256_ps(x), _mm256_set1_ps(-87.0f), _mm256_set1_ps(88.0f));
+    return REDO_LANES_OUTSIDE<EXP_OP<float> >(x, exp256_ps(x), LANES_INSIDE(x, _mm256_set1_ps(-87.0f), _mm256_set1_ps(88.0f)));
 }
 template<typename T> static const inline __m256d EXP_OP_256(__m256d x) { return exp256_pd(x); }
 
-- 
2.43.0

