From 0310519a69678ff2bf539bf33a05afdf73ddd63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:57 +0000
Subject: [PATCH 01/14] fix: reject out-of-range type codes instead of reading
 past the operator tables

---
 src/expr/operator_vector.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/expr/operator_vector.cc b/src/expr/operator_vector.cc
index d369f69..15a98db 100644
--- a/src/expr/operator_vector.cc
+++ b/src/expr/operator_vector.cc
@@ -374,6 +374,9 @@ eoe:
 }
 
 bool OperatorVector::AddOperatorByType(const Operator *const ops[], Byte type) {
+  if (type >= TYPE_NUM) {
+    return false;
+  }
   const auto *op = ops[type];
   if (op != nullptr) {
     Add(op);
@@ -385,6 +388,9 @@ bool OperatorVector::AddOperatorByType(const Operator *const ops[], Byte type) {
 bool OperatorVector::AddCastOperator(const Operator *const ops[][TYPE_NUM], Byte b) {
   Byte dst = (Byte)(b >> 4);
   Byte src = (Byte)(b & 0x0F);
+  if (dst >= TYPE_NUM || src >= TYPE_NUM) {
+    return false;
+  }
   if (dst == src) {
     return true;
   }
-- 
2.43.0


From 575bd1e08d704a5f81fee81f679bdc99ed7a5400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:57 +0000
Subject: [PATCH 02/14] fix: dividing the minimum integer by -1 must wrap, not
 trap

---
 src/expr/calc/arithmetic.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/expr/calc/arithmetic.h b/src/expr/calc/arithmetic.h
index 5d26385..866df7b 100644
--- a/src/expr/calc/arithmetic.h
+++ b/src/expr/calc/arithmetic.h
@@ -15,6 +15,8 @@
 #ifndef _EXPR_CALC_ARITHMETIC_H_
 #define _EXPR_CALC_ARITHMETIC_H_
 
+#include <type_traits>
+
 #include "../operand.h"
 
 namespace dingodb::expr::calc {
@@ -47,6 +49,12 @@ T Mul(T v0, T v1) {
 template <typename T>
 Operand Div(T v0, T v1) {
   if (v1 != 0) {
+    if constexpr (std::is_integral_v<T>) {
+      if (v1 == -1) {
+        // The quotient of the minimum value overflows, which traps on some platforms.
+        return static_cast<T>(0 - static_cast<std::make_unsigned_t<T>>(v0));
+      }
+    }
     return v0 / v1;
   }
   return nullptr;
@@ -55,6 +63,10 @@ Operand Div(T v0, T v1) {
 template <typename T>
 Operand Mod(T v0, T v1) {
   if (v1 != 0) {
+    if (v1 == -1) {
+      // The quotient of the minimum value overflows, which traps on some platforms.
+      return static_cast<T>(0);
+    }
     return v0 % v1;
   }
   return nullptr;
-- 
2.43.0


From 84d43a08abeae3dc3f528f634220ad31311aa3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:57 +0000
Subject: [PATCH 03/14] fix: SUBSTR must clamp positions and give an empty
 string for empty ranges

---
 src/expr/calc/string_fun.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/expr/calc/string_fun.cc b/src/expr/calc/string_fun.cc
index 9337ee4..9384d3f 100644
--- a/src/expr/calc/string_fun.cc
+++ b/src/expr/calc/string_fun.cc
@@ -93,6 +93,9 @@ String Substr(String v0, int32_t v1, int32_t v2) {
   if (v1 < 0) {
     v1 = 0;
   }
+  if (v1 >= len || v1 >= v2) {
+    return String();
+  }
   if (v1 == 0) {
     if (v2 >= len) {
       return v0;
@@ -113,6 +116,9 @@ String Substr(String v0, int32_t v1) {
   if (v1 < 0) {
     v1 = 0;
   }
+  if (v1 >= len) {
+    return String();
+  }
   if (v1 == 0) {
     return v0;
   } else {
-- 
2.43.0


From a97f36da943996cffbe1b62c33f56c6c09bd9e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:57 +0000
Subject: [PATCH 04/14] fix: raise an error instead of popping an empty operand
 stack

---
 src/expr/operand_stack.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/expr/operand_stack.h b/src/expr/operand_stack.h
index 0a80ff1..bb5fbfb 100644
--- a/src/expr/operand_stack.h
+++ b/src/expr/operand_stack.h
@@ -30,10 +30,12 @@ class OperandStack {
   virtual ~OperandStack() = default;
 
   void Pop() {
+    CheckNotEmpty();
     m_stack.pop_back();
   }
 
   Operand Get() const {
+    CheckNotEmpty();
     return m_stack.back();
   }
 
@@ -82,6 +84,12 @@ class OperandStack {
   }
 
  private:
+  void CheckNotEmpty() const {
+    if (m_stack.empty()) {
+      throw std::runtime_error("No operand in the stack.");
+    }
+  }
+
   std::deque<Operand> m_stack;
   const Tuple *m_tuple;
 };
-- 
2.43.0


From 07cc0a03c89ce62a7d2c66915d72f26e5bbc5e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:57 +0000
Subject: [PATCH 05/14] fix: reject decimal constants, which are not supported,
 instead of skipping them

---
 src/expr/operator_vector.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr/operator_vector.cc b/src/expr/operator_vector.cc
index 15a98db..485eb2c 100644
--- a/src/expr/operator_vector.cc
+++ b/src/expr/operator_vector.cc
@@ -153,8 +153,8 @@ const Byte *OperatorVector::Decode(const Byte code[], size_t len) {
       break;
     }
     case CONST_DECIMAL: {
-      ++p;
       // TODO
+      successful = false;
       break;
     }
     case CONST_STRING: {
-- 
2.43.0


From 35e7d0d1a608119e749c8e84ffda3c2fc9295cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:57 +0000
Subject: [PATCH 06/14] fix: strings have no subtraction, reject it instead of
 concatenating

---
 src/expr/operators.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr/operators.cc b/src/expr/operators.cc
index 8b60085..99a2ed8 100644
--- a/src/expr/operators.cc
+++ b/src/expr/operators.cc
@@ -211,7 +211,7 @@ const Operator *const OP_SUB[] = {
     [TYPE_FLOAT]   = new BinaryArithmeticOperator<TYPE_FLOAT, calc::Sub>,
     [TYPE_DOUBLE]  = new BinaryArithmeticOperator<TYPE_DOUBLE, calc::Sub>,
     [TYPE_DECIMAL] = nullptr,
-    [TYPE_STRING]  = new BinaryArithmeticOperator<TYPE_STRING, calc::Add>,
+    [TYPE_STRING]  = nullptr,
 };
 
 const Operator *const OP_MUL[] = {
-- 
2.43.0


From f114dcea914b5f6485245371b6f2d612c81b8509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:06 +0000
Subject: [PATCH 07/14] fix: raise an error instead of reading beyond the end
 of truncated code

---
 src/expr/codec.cc           | 48 +++++++++++++++++++++++--------------
 src/expr/codec.h            | 27 +++++++++++----------
 src/expr/exception.h        |  6 +++++
 src/expr/operator_vector.cc | 36 ++++++++++++++++------------
 src/rel/rel_runner.cc       | 46 +++++++++++++++++------------------
 src/rel/rel_runner.h        |  8 +++----
 6 files changed, 98 insertions(+), 73 deletions(-)

diff --git a/src/expr/codec.cc b/src/expr/codec.cc
index 014bb00..7b00546 100644
--- a/src/expr/codec.cc
+++ b/src/expr/codec.cc
@@ -24,67 +24,79 @@
 
 namespace dingodb::expr {
 
+static void CheckLength(const Byte *data, const Byte *end, size_t len) {
+  if (len > (size_t)(end - data)) {
+    throw UnexpectedEnd();
+  }
+}
+
 template <typename T>
-static const Byte *DecodeVarint(T &value, const Byte *data) {
+static const Byte *DecodeVarint(T &value, const Byte *data, const Byte *end) {
   value = 0;
   const Byte *p;
   int shift = 0;
-  for (p = data; ((*p) & 0x80) != 0; ++p) {
+  for (p = data; p < end && ((*p) & 0x80) != 0; ++p) {
     value |= ((T)(*p & 0x7F) << shift);
     shift += 7;
   }
+  if (p >= end) {
+    throw UnexpectedEnd();
+  }
   value |= ((T)(*p) << shift);
   return p + 1;
 }
 
 template <>
-const Byte *DecodeValue(int &value, const Byte *data) {
-  return DecodeVarint(value, data);
+const Byte *DecodeValue(int &value, const Byte *data, const Byte *end) {
+  return DecodeVarint(value, data, end);
 }
 
 template <>
-const Byte *DecodeValue(long &value, const Byte *data) {
-  return DecodeVarint(value, data);
+const Byte *DecodeValue(long &value, const Byte *data, const Byte *end) {
+  return DecodeVarint(value, data, end);
 }
 
 template <>
-const Byte *DecodeValue(long long &value, const Byte *data) {
-  return DecodeVarint(value, data);
+const Byte *DecodeValue(long long &value, const Byte *data, const Byte *end) {
+  return DecodeVarint(value, data, end);
 }
 
 template <>
-const Byte *DecodeValue(unsigned int &value, const Byte *data) {
-  return DecodeVarint(value, data);
+const Byte *DecodeValue(unsigned int &value, const Byte *data, const Byte *end) {
+  return DecodeVarint(value, data, end);
 }
 
 template <>
-const Byte *DecodeValue(unsigned long &value, const Byte *data) {
-  return DecodeVarint(value, data);
+const Byte *DecodeValue(unsigned long &value, const Byte *data, const Byte *end) {
+  return DecodeVarint(value, data, end);
 }
 
 template <>
-const Byte *DecodeValue(unsigned long long &value, const Byte *data) {
-  return DecodeVarint(value, data);
+const Byte *DecodeValue(unsigned long long &value, const Byte *data, const Byte *end) {
+  return DecodeVarint(value, data, end);
 }
 
 template <>
-const Byte *DecodeValue(float &value, const Byte *data) {
+const Byte *DecodeValue(float &value, const Byte *data, const Byte *end) {
+  CheckLength(data, end, 4);
   uint32_t l = be32toh(*(uint32_t *)data);
   value = *(float *)&l;
   return data + 4;
 }
 
 template <>
-const Byte *DecodeValue(double &value, const Byte *data) {
+const Byte *DecodeValue(double &value, const Byte *data, const Byte *end) {
+  CheckLength(data, end, 8);
   uint64_t l = be64toh(*(uint64_t *)data);
   value = *(double *)&l;
   return data + 8;
 }
 
 template <>
-const Byte *DecodeValue(String &value, const Byte *data) {
+const Byte *DecodeValue(String &value, const Byte *data, const Byte *end) {
   uint32_t len;
-  const Byte *p = DecodeValue(len, data);
+  const Byte *p = DecodeValue(len, data, end);
+  CheckLength(p, end, len);
   value = String(reinterpret_cast<const char *>(p), len);
   return p + len;
 }
diff --git a/src/expr/codec.h b/src/expr/codec.h
index d33bad7..718778e 100644
--- a/src/expr/codec.h
+++ b/src/expr/codec.h
@@ -29,44 +29,45 @@ namespace dingodb::expr {
  * @tparam T type of the value
  * @param value reference to the value
  * @param data code buffer
+ * @param end end of the code buffer
  * @return const Byte* point to the next byte of the bytes used
  */
 template <typename T>
-const Byte *DecodeValue(T &value, const Byte *data);
+const Byte *DecodeValue(T &value, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue(int &value, const Byte *data);
+const Byte *DecodeValue(int &value, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue(long &value, const Byte *data);
+const Byte *DecodeValue(long &value, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue(long long &value, const Byte *data);
+const Byte *DecodeValue(long long &value, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue(unsigned int &value, const Byte *data);
+const Byte *DecodeValue(unsigned int &value, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue(unsigned long &value, const Byte *data);
+const Byte *DecodeValue(unsigned long &value, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue(unsigned long long &value, const Byte *data);
+const Byte *DecodeValue(unsigned long long &value, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue(float &value, const Byte *data);
+const Byte *DecodeValue(float &value, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue(double &value, const Byte *data);
+const Byte *DecodeValue(double &value, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue(String &value, const Byte *data);
+const Byte *DecodeValue(String &value, const Byte *data, const Byte *end);
 
 template <typename T>
 const Byte *DecodeElements(T &container, size_t count, const Byte *code, size_t len) {
   const Byte *p = code;
   int i;
   for (i = 0; i < count && p < code + len; ++i) {
-    p = DecodeValue(container[i], p);
+    p = DecodeValue(container[i], p, code + len);
   }
   if (i < count) {
     throw MoreElementsRequired(count, i);
@@ -77,7 +78,7 @@ const Byte *DecodeElements(T &container, size_t count, const Byte *code, size_t
 template <typename T>
 const Byte *DecodeArray(T *&arr, size_t &count, const Byte *code, size_t len) {
   const Byte *p = code;
-  p = DecodeValue(count, p);
+  p = DecodeValue(count, p, code + len);
   arr = new T[count];
   return DecodeElements(arr, count, p, code + len - p);
 }
@@ -86,7 +87,7 @@ template <typename T>
 const Byte *DecodeVector(std::vector<T> *&vec, const Byte *code, size_t len) {
   const Byte *p = code;
   size_t count;
-  p = DecodeValue(count, p);
+  p = DecodeValue(count, p, code + len);
   vec = new std::vector<T>(count);
   return DecodeElements(*vec, count, p, code + len - p);
 }
diff --git a/src/expr/exception.h b/src/expr/exception.h
index e66b7d5..f6f4e2d 100644
--- a/src/expr/exception.h
+++ b/src/expr/exception.h
@@ -46,6 +46,12 @@ class UnknownCode : public ExprError {
   }
 };
 
+class UnexpectedEnd : public ExprError {
+ public:
+  UnexpectedEnd() : ExprError("Unexpected end of code.") {
+  }
+};
+
 class MoreElementsRequired : public ExprError {
  public:
   MoreElementsRequired(int required, int actual)
diff --git a/src/expr/operator_vector.cc b/src/expr/operator_vector.cc
index 485eb2c..b368b0e 100644
--- a/src/expr/operator_vector.cc
+++ b/src/expr/operator_vector.cc
@@ -93,8 +93,14 @@ const Byte *OperatorVector::Decode(const Byte code[], size_t len) {
   bool successful = true;
   const Byte *p   = code;
   const Byte *b;
-  while (successful && p < code + len) {
+  const Byte *const end = code + len;
+  while (successful && p < end) {
     b = p;
+    if ((*p & 0x80) != 0 && p + 1 == end) {
+      // The 2nd byte of a two-bytes operator is missing.
+      successful = false;
+      break;
+    }
     switch (*p) {
     case NULL_INT32:
       ++p;
@@ -123,14 +129,14 @@ const Byte *OperatorVector::Decode(const Byte code[], size_t len) {
     case CONST_INT32: {
       ++p;
       int32_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, end);
       AddRelease(new ConstOperator<TYPE_INT32>(v));
       break;
     }
     case CONST_INT64: {
       ++p;
       int64_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, end);
       AddRelease(new ConstOperator<TYPE_INT64>(v));
       break;
     }
@@ -141,14 +147,14 @@ const Byte *OperatorVector::Decode(const Byte code[], size_t len) {
     case CONST_FLOAT: {
       ++p;
       float v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, end);
       AddRelease(new ConstOperator<TYPE_FLOAT>(v));
       break;
     }
     case CONST_DOUBLE: {
       ++p;
       double v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, end);
       AddRelease(new ConstOperator<TYPE_DOUBLE>(v));
       break;
     }
@@ -160,21 +166,21 @@ const Byte *OperatorVector::Decode(const Byte code[], size_t len) {
     case CONST_STRING: {
       ++p;
       String v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, end);
       AddRelease(new ConstOperator<TYPE_STRING>(v));
       break;
     }
     case CONST_N_INT32: {
       ++p;
       int32_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, end);
       AddRelease(new ConstOperator<TYPE_INT32>(-v));
       break;
     }
     case CONST_N_INT64: {
       ++p;
       int64_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, end);
       AddRelease(new ConstOperator<TYPE_INT64>(-v));
       break;
     }
@@ -185,49 +191,49 @@ const Byte *OperatorVector::Decode(const Byte code[], size_t len) {
     case VAR_I_INT32: {
       ++p;
       int32_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, end);
       AddRelease(new IndexedVarOperator<TYPE_INT32>(v));
       break;
     }
     case VAR_I_INT64: {
       ++p;
       int32_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, end);
       AddRelease(new IndexedVarOperator<TYPE_INT64>(v));
       break;
     }
     case VAR_I_BOOL: {
       ++p;
       int32_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, end);
       AddRelease(new IndexedVarOperator<TYPE_BOOL>(v));
       break;
     }
     case VAR_I_FLOAT: {
       ++p;
       int32_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, end);
       AddRelease(new IndexedVarOperator<TYPE_FLOAT>(v));
       break;
     }
     case VAR_I_DOUBLE: {
       ++p;
       int32_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, end);
       AddRelease(new IndexedVarOperator<TYPE_DOUBLE>(v));
       break;
     }
     case VAR_I_DECIMAL: {
       ++p;
       int32_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, end);
       AddRelease(new IndexedVarOperator<TYPE_DECIMAL>(v));
       break;
     }
     case VAR_I_STRING: {
       ++p;
       int32_t v;
-      p = DecodeValue(v, p);
+      p = DecodeValue(v, p, end);
       AddRelease(new IndexedVarOperator<TYPE_STRING>(v));
       break;
     }
diff --git a/src/rel/rel_runner.cc b/src/rel/rel_runner.cc
index 96bfe85..efea011 100644
--- a/src/rel/rel_runner.cc
+++ b/src/rel/rel_runner.cc
@@ -120,7 +120,7 @@ void RelRunner::AppendOp(RelOp *op) {
 namespace dingodb::expr {
 
 template <>
-const Byte *DecodeAgg<rel::op::CountAllAgg>(const rel::op::Agg *&agg, const Byte *data) {
+const Byte *DecodeAgg<rel::op::CountAllAgg>(const rel::op::Agg *&agg, const Byte *data, [[maybe_unused]] const Byte *end) {
   const expr::Byte *p = data;
   ++p;
   agg = new rel::op::CountAllAgg();
@@ -128,71 +128,71 @@ const Byte *DecodeAgg<rel::op::CountAllAgg>(const rel::op::Agg *&agg, const Byte
 }
 
 template <>
-const Byte *DecodeValue<const rel::op::Agg *>(const rel::op::Agg *&value, const Byte *data) {
+const Byte *DecodeValue<const rel::op::Agg *>(const rel::op::Agg *&value, const Byte *data, const Byte *end) {
   const Byte *p = data;
   switch (*p) {
   case rel::AGG_COUNT_ALL:
-    p = DecodeAgg<rel::op::CountAllAgg>(value, p);
+    p = DecodeAgg<rel::op::CountAllAgg>(value, p, end);
     break;
   case rel::AGG_COUNT | TYPE_INT32:
-    p = DecodeAgg<rel::op::CountAgg<int32_t>>(value, p);
+    p = DecodeAgg<rel::op::CountAgg<int32_t>>(value, p, end);
     break;
   case rel::AGG_COUNT | TYPE_INT64:
-    p = DecodeAgg<rel::op::CountAgg<int64_t>>(value, p);
+    p = DecodeAgg<rel::op::CountAgg<int64_t>>(value, p, end);
     break;
   case rel::AGG_COUNT | TYPE_BOOL:
-    p = DecodeAgg<rel::op::CountAgg<bool>>(value, p);
+    p = DecodeAgg<rel::op::CountAgg<bool>>(value, p, end);
     break;
   case rel::AGG_COUNT | TYPE_FLOAT:
-    p = DecodeAgg<rel::op::CountAgg<float>>(value, p);
+    p = DecodeAgg<rel::op::CountAgg<float>>(value, p, end);
     break;
   case rel::AGG_COUNT | TYPE_DOUBLE:
-    p = DecodeAgg<rel::op::CountAgg<double>>(value, p);
+    p = DecodeAgg<rel::op::CountAgg<double>>(value, p, end);
     break;
   case rel::AGG_COUNT | TYPE_STRING:
-    p = DecodeAgg<rel::op::CountAgg<expr::String>>(value, p);
+    p = DecodeAgg<rel::op::CountAgg<expr::String>>(value, p, end);
     break;
   case rel::AGG_SUM | TYPE_INT32:
-    p = DecodeAgg<rel::op::SumAgg<int32_t>>(value, p);
+    p = DecodeAgg<rel::op::SumAgg<int32_t>>(value, p, end);
     break;
   case rel::AGG_SUM | TYPE_INT64:
-    p = DecodeAgg<rel::op::SumAgg<int64_t>>(value, p);
+    p = DecodeAgg<rel::op::SumAgg<int64_t>>(value, p, end);
     break;
   case rel::AGG_SUM | TYPE_FLOAT:
-    p = DecodeAgg<rel::op::SumAgg<float>>(value, p);
+    p = DecodeAgg<rel::op::SumAgg<float>>(value, p, end);
     break;
   case rel::AGG_SUM | TYPE_DOUBLE:
-    p = DecodeAgg<rel::op::SumAgg<double>>(value, p);
+    p = DecodeAgg<rel::op::SumAgg<double>>(value, p, end);
     break;
   case rel::AGG_MAX | TYPE_INT32:
-    p = DecodeAgg<rel::op::MaxAgg<int32_t>>(value, p);
+    p = DecodeAgg<rel::op::MaxAgg<int32_t>>(value, p, end);
     break;
   case rel::AGG_MAX | TYPE_INT64:
-    p = DecodeAgg<rel::op::MaxAgg<int64_t>>(value, p);
+    p = DecodeAgg<rel::op::MaxAgg<int64_t>>(value, p, end);
     break;
   case rel::AGG_MAX | TYPE_FLOAT:
-    p = DecodeAgg<rel::op::MaxAgg<float>>(value, p);
+    p = DecodeAgg<rel::op::MaxAgg<float>>(value, p, end);
     break;
   case rel::AGG_MAX | TYPE_DOUBLE:
-    p = DecodeAgg<rel::op::MaxAgg<double>>(value, p);
+    p = DecodeAgg<rel::op::MaxAgg<double>>(value, p, end);
     break;
   case rel::AGG_MAX | TYPE_STRING:
-    p = DecodeAgg<rel::op::MaxAgg<expr::String>>(value, p);
+    p = DecodeAgg<rel::op::MaxAgg<expr::String>>(value, p, end);
     break;
   case rel::AGG_MIN | TYPE_INT32:
-    p = DecodeAgg<rel::op::MinAgg<int32_t>>(value, p);
+    p = DecodeAgg<rel::op::MinAgg<int32_t>>(value, p, end);
     break;
   case rel::AGG_MIN | TYPE_INT64:
-    p = DecodeAgg<rel::op::MinAgg<int64_t>>(value, p);
+    p = DecodeAgg<rel::op::MinAgg<int64_t>>(value, p, end);
     break;
   case rel::AGG_MIN | TYPE_FLOAT:
-    p = DecodeAgg<rel::op::MinAgg<float>>(value, p);
+    p = DecodeAgg<rel::op::MinAgg<float>>(value, p, end);
     break;
   case rel::AGG_MIN | TYPE_DOUBLE:
-    p = DecodeAgg<rel::op::MinAgg<double>>(value, p);
+    p = DecodeAgg<rel::op::MinAgg<double>>(value, p, end);
     break;
   case rel::AGG_MIN | TYPE_STRING:
-    p = DecodeAgg<rel::op::MinAgg<expr::String>>(value, p);
+    p = DecodeAgg<rel::op::MinAgg<expr::String>>(value, p, end);
     break;
   default:
     throw ExprError("Unknown aggregation type: " + HexOfBytes(data, 1));
diff --git a/src/rel/rel_runner.h b/src/rel/rel_runner.h
index a505af9..aade21a 100644
--- a/src/rel/rel_runner.h
+++ b/src/rel/rel_runner.h
@@ -49,20 +49,20 @@ class RelRunner {
 namespace dingodb::expr {
 
 template <class AGG>
-const Byte *DecodeAgg(const rel::op::Agg *&agg, const Byte *data) {
+const Byte *DecodeAgg(const rel::op::Agg *&agg, const Byte *data, const Byte *end) {
   const Byte *p = data;
   ++p;
   int32_t index;
-  p = DecodeValue(index, p);
+  p = DecodeValue(index, p, end);
   agg = new AGG(index);
   return p;
 }
 
 template <>
-const Byte *DecodeAgg<rel::op::CountAllAgg>(const rel::op::Agg *&agg, const Byte *data);
+const Byte *DecodeAgg<rel::op::CountAllAgg>(const rel::op::Agg *&agg, const Byte *data, const Byte *end);
 
 template <>
-const Byte *DecodeValue<const rel::op::Agg *>(const rel::op::Agg *&value, const Byte *data);
+const Byte *DecodeValue<const rel::op::Agg *>(const rel::op::Agg *&value, const Byte *data, const Byte *end);
 
 }  // namespace dingodb::expr
 
-- 
2.43.0


From c554bbba789a6b37f9dbcab69095171726f24ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:06 +0000
Subject: [PATCH 08/14] fix: check the element count of arrays before
 allocating memory for them

---
 src/expr/codec.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/expr/codec.h b/src/expr/codec.h
index 718778e..65b4f4a 100644
--- a/src/expr/codec.h
+++ b/src/expr/codec.h
@@ -75,10 +75,18 @@ const Byte *DecodeElements(T &container, size_t count, const Byte *code, size_t
   return p;
 }
 
+// Each element takes at least one byte, so do not allocate memory for more of them.
+inline void CheckCount(size_t count, size_t len) {
+  if (count > len) {
+    throw MoreElementsRequired(count, len);
+  }
+}
+
 template <typename T>
 const Byte *DecodeArray(T *&arr, size_t &count, const Byte *code, size_t len) {
   const Byte *p = code;
   p = DecodeValue(count, p, code + len);
+  CheckCount(count, code + len - p);
   arr = new T[count];
   return DecodeElements(arr, count, p, code + len - p);
 }
@@ -88,6 +96,7 @@ const Byte *DecodeVector(std::vector<T> *&vec, const Byte *code, size_t len) {
   const Byte *p = code;
   size_t count;
   p = DecodeValue(count, p, code + len);
+  CheckCount(count, code + len - p);
   vec = new std::vector<T>(count);
   return DecodeElements(*vec, count, p, code + len - p);
 }
-- 
2.43.0


From e42414381eb027ab9e64dfed6e50a19271cb9aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:06 +0000
Subject: [PATCH 09/14] fix: drop varint bits beyond the width of the type
 instead of shifting out of range

---
 src/expr/codec.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/expr/codec.cc b/src/expr/codec.cc
index 7b00546..3a09be4 100644
--- a/src/expr/codec.cc
+++ b/src/expr/codec.cc
@@ -24,6 +24,14 @@
 
 namespace dingodb::expr {
 
+// Bits out of the range of the type are dropped, as in Protocol Buffers.
+template <typename T>
+static void AddBits(T &value, int bits, int shift) {
+  if (shift < (int)(sizeof(T) * 8)) {
+    value |= ((T)bits << shift);
+  }
+}
+
 static void CheckLength(const Byte *data, const Byte *end, size_t len) {
   if (len > (size_t)(end - data)) {
     throw UnexpectedEnd();
@@ -36,13 +44,13 @@ static const Byte *DecodeVarint(T &value, const Byte *data, const Byte *end) {
   const Byte *p;
   int shift = 0;
   for (p = data; p < end && ((*p) & 0x80) != 0; ++p) {
-    value |= ((T)(*p & 0x7F) << shift);
+    AddBits(value, *p & 0x7F, shift);
     shift += 7;
   }
   if (p >= end) {
     throw UnexpectedEnd();
   }
-  value |= ((T)(*p) << shift);
+  AddBits(value, *p, shift);
   return p + 1;
 }
 
-- 
2.43.0


From 92e66908fc969336ca6f137bcb9ff257a5894cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:16 +0000
Subject: [PATCH 10/14] fix: release the tuple put in if evaluating it raises
 an error

---
 src/rel/op/agg_op.cc     | 4 +++-
 src/rel/op/filter_op.cc  | 6 ++++--
 src/rel/op/project_op.cc | 4 +++-
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/rel/op/agg_op.cc b/src/rel/op/agg_op.cc
index 3e827d9..3351c1a 100644
--- a/src/rel/op/agg_op.cc
+++ b/src/rel/op/agg_op.cc
@@ -14,6 +14,8 @@
 
 #include "ungrouped_agg_op.h"
 
+#include <memory>
+
 namespace dingodb::rel::op {
 
 AggOp::AggOp(const std::vector<const Agg *> *aggs) : m_aggs(aggs) {
@@ -27,13 +29,13 @@ AggOp::~AggOp() {
 }
 
 void AggOp::AddToCache(expr::Tuple *&cache, const expr::Tuple *tuple) const {
+  const std::unique_ptr<const expr::Tuple> holder(tuple);
   if (cache == nullptr) {
     cache = new expr::Tuple(m_aggs->size());
   }
   for (int i = 0; i < m_aggs->size(); ++i) {
     (*cache)[i] = (*m_aggs)[i]->Add((*cache)[i], tuple);
   }
-  delete tuple;
 }
 
 }  // namespace dingodb::rel::op
diff --git a/src/rel/op/filter_op.cc b/src/rel/op/filter_op.cc
index 488a978..fb6832b 100644
--- a/src/rel/op/filter_op.cc
+++ b/src/rel/op/filter_op.cc
@@ -14,6 +14,8 @@
 
 #include "filter_op.h"
 
+#include <memory>
+
 #include "../../expr/calc/special.h"
 #include "../../expr/runner.h"
 
@@ -27,13 +29,13 @@ FilterOp::~FilterOp() {
 }
 
 const expr::Tuple *FilterOp::Put(const expr::Tuple *tuple) const {
+  std::unique_ptr<const expr::Tuple> holder(tuple);
   m_filter->BindTuple(tuple);
   m_filter->Run();
   auto v = m_filter->Get();
   if (expr::calc::IsTrue<bool>(v)) {
-    return tuple;
+    return holder.release();
   }
-  delete tuple;
   return nullptr;
 }
 
diff --git a/src/rel/op/project_op.cc b/src/rel/op/project_op.cc
index ba9f33e..d779a16 100644
--- a/src/rel/op/project_op.cc
+++ b/src/rel/op/project_op.cc
@@ -14,6 +14,8 @@
 
 #include "project_op.h"
 
+#include <memory>
+
 #include "../../expr/runner.h"
 
 namespace dingodb::rel::op {
@@ -26,9 +28,9 @@ ProjectOp::~ProjectOp() {
 }
 
 const expr::Tuple *ProjectOp::Put(const expr::Tuple *tuple) const {
+  const std::unique_ptr<const expr::Tuple> holder(tuple);
   m_projects->BindTuple(tuple);
   m_projects->Run();
-  delete tuple;
   return m_projects->GetAll();
 }
 
-- 
2.43.0


From d28e5a0aa2727c7563a906392299b63d4ef79512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:19 +0000
Subject: [PATCH 11/14] fix: reject group indices which are not encoded as an
 INT32 array in release builds also

---
 src/rel/rel_runner.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/rel/rel_runner.cc b/src/rel/rel_runner.cc
index efea011..bbb50f2 100644
--- a/src/rel/rel_runner.cc
+++ b/src/rel/rel_runner.cc
@@ -14,8 +14,6 @@
 
 #include "rel_runner.h"
 
-#include <cassert>
-
 #include "../expr/exception.h"
 #include "../expr/runner.h"
 #include "op/filter_op.h"
@@ -71,7 +69,10 @@ const expr::Byte *RelRunner::Decode(const expr::Byte *code, size_t len) {
     }
     case GROUPED_AGGREGATE: {
       ++p;
-      assert(*p == ARRAY_INT32);
+      if (p >= code + len || *p != ARRAY_INT32) {
+        successful = false;
+        break;
+      }
       ++p;
       int32_t *groupe_indices;
       size_t count;
-- 
2.43.0


From 5ed4c8dfa78523bf6df4a4160d15b94bf8775ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:26 +0000
Subject: [PATCH 12/14] fix: release what has been decoded if decoding
 relational operators fails

---
 src/expr/codec.h      |  7 +++++--
 src/rel/rel_runner.cc | 32 +++++++++++++++++++++++++-------
 2 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/src/expr/codec.h b/src/expr/codec.h
index 65b4f4a..48f6e03 100644
--- a/src/expr/codec.h
+++ b/src/expr/codec.h
@@ -16,6 +16,7 @@
 #define _EXPR_CODEC_H_
 
 #include <cstddef>
+#include <memory>
 #include <vector>
 
 #include "exception.h"
@@ -87,8 +88,10 @@ const Byte *DecodeArray(T *&arr, size_t &count, const Byte *code, size_t len) {
   const Byte *p = code;
   p = DecodeValue(count, p, code + len);
   CheckCount(count, code + len - p);
-  arr = new T[count];
-  return DecodeElements(arr, count, p, code + len - p);
+  std::unique_ptr<T[]> elements(new T[count]);
+  p = DecodeElements(elements, count, p, code + len - p);
+  arr = elements.release();
+  return p;
 }
 
 template <typename T>
diff --git a/src/rel/rel_runner.cc b/src/rel/rel_runner.cc
index bbb50f2..cd3d67e 100644
--- a/src/rel/rel_runner.cc
+++ b/src/rel/rel_runner.cc
@@ -14,6 +14,8 @@
 
 #include "rel_runner.h"
 
+#include <memory>
+
 #include "../expr/exception.h"
 #include "../expr/runner.h"
 #include "op/filter_op.h"
@@ -38,6 +40,21 @@ static const expr::Byte AGG_SUM = 0x20;
 static const expr::Byte AGG_MAX = 0x30;
 static const expr::Byte AGG_MIN = 0x40;
 
+static const expr::Byte *DecodeAggs(std::vector<const op::Agg *> *&aggs, const expr::Byte *code, size_t len) {
+  aggs = nullptr;
+  try {
+    return expr::DecodeVector(aggs, code, len);
+  } catch (...) {
+    if (aggs != nullptr) {
+      for (const auto *agg : *aggs) {
+        delete agg;
+      }
+      delete aggs;
+    }
+    throw;
+  }
+}
+
 RelRunner::RelRunner() : m_op(nullptr) {
 }
 
@@ -55,16 +72,16 @@ const expr::Byte *RelRunner::Decode(const expr::Byte *code, size_t len) {
     switch (*p) {
     case FILTER_OP: {
       ++p;
-      auto *filter = new expr::Runner();
+      auto filter = std::make_unique<expr::Runner>();
       p = filter->Decode(p, code + len - p);
-      AppendOp(new op::FilterOp(filter));
+      AppendOp(new op::FilterOp(filter.release()));
       break;
     }
     case PROJECT_OP: {
       ++p;
-      auto *projects = new expr::Runner();
+      auto projects = std::make_unique<expr::Runner>();
       p = projects->Decode(p, code + len - p);
-      AppendOp(new op::ProjectOp(projects));
+      AppendOp(new op::ProjectOp(projects.release()));
       break;
     }
     case GROUPED_AGGREGATE: {
@@ -77,15 +94,16 @@ const expr::Byte *RelRunner::Decode(const expr::Byte *code, size_t len) {
       int32_t *groupe_indices;
       size_t count;
       p = expr::DecodeArray(groupe_indices, count, p, code + len - p);
+      std::unique_ptr<int32_t[]> holder(groupe_indices);
       std::vector<const op::Agg *> *aggs;
-      p = expr::DecodeVector(aggs, p, code + len - p);
-      AppendOp(new op::GroupedAggOp(groupe_indices, count, aggs));
+      p = DecodeAggs(aggs, p, code + len - p);
+      AppendOp(new op::GroupedAggOp(holder.release(), count, aggs));
       break;
     }
     case UNGROUPED_AGGREGATE: {
       ++p;
       std::vector<const op::Agg *> *aggs;
-      p = expr::DecodeVector(aggs, p, code + len - p);
+      p = DecodeAggs(aggs, p, code + len - p);
       AppendOp(new op::UngroupedAggOp(aggs));
       break;
     }
-- 
2.43.0


From d1af94305cfb12078ab3445b969f37c04cc57223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:29 +0000
Subject: [PATCH 13/14] fix: accept the documented end byte after aggregation
 operators

---
 src/rel/rel_runner.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/rel/rel_runner.cc b/src/rel/rel_runner.cc
index cd3d67e..8eb372e 100644
--- a/src/rel/rel_runner.cc
+++ b/src/rel/rel_runner.cc
@@ -40,6 +40,12 @@ static const expr::Byte AGG_SUM = 0x20;
 static const expr::Byte AGG_MAX = 0x30;
 static const expr::Byte AGG_MIN = 0x40;
 
+static const expr::Byte EOE = 0x00;
+
+static const expr::Byte *SkipEoe(const expr::Byte *p, const expr::Byte *end) {
+  return (p < end && *p == EOE) ? p + 1 : p;
+}
+
 static const expr::Byte *DecodeAggs(std::vector<const op::Agg *> *&aggs, const expr::Byte *code, size_t len) {
   aggs = nullptr;
   try {
@@ -98,6 +104,7 @@ const expr::Byte *RelRunner::Decode(const expr::Byte *code, size_t len) {
       std::vector<const op::Agg *> *aggs;
       p = DecodeAggs(aggs, p, code + len - p);
       AppendOp(new op::GroupedAggOp(holder.release(), count, aggs));
+      p = SkipEoe(p, code + len);
       break;
     }
     case UNGROUPED_AGGREGATE: {
@@ -105,6 +112,7 @@ const expr::Byte *RelRunner::Decode(const expr::Byte *code, size_t len) {
       std::vector<const op::Agg *> *aggs;
       p = DecodeAggs(aggs, p, code + len - p);
       AppendOp(new op::UngroupedAggOp(aggs));
+      p = SkipEoe(p, code + len);
       break;
     }
     default:
-- 
2.43.0


From f51e2a69c565cce5432cd212ffdbe2f2c9c510e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:21 +0000
Subject: [PATCH 14/14] fix: long chains of relational operators overflowed the
 call stack

Every operator appended nested the ones before it one level deeper, so that putting rows, taking results and even
destroying a runner needed stack in proportion to the number of operators: a code of 800 kB crashed the process.
---
 src/rel/op/tandem_op.cc | 37 ++++++++++++++++++++++---------------
 src/rel/op/tandem_op.h  | 15 ++++++++++++---
 src/rel/rel_runner.cc   | 13 +++++++++----
 src/rel/rel_runner.h    |  6 ++++++
 4 files changed, 49 insertions(+), 22 deletions(-)

diff --git a/src/rel/op/tandem_op.cc b/src/rel/op/tandem_op.cc
index b04b1dc..c104b89 100644
--- a/src/rel/op/tandem_op.cc
+++ b/src/rel/op/tandem_op.cc
@@ -16,31 +16,38 @@
 
 namespace dingodb::rel::op {
 
-TandemOp::TandemOp(const RelOp *in, const RelOp *out) : m_in(in), m_out(out) {
+TandemOp::~TandemOp() {
+  for (const auto *op : m_ops) {
+    delete op;
+  }
 }
 
-TandemOp::~TandemOp() {
-  delete m_in;
-  delete m_out;
+void TandemOp::Append(const RelOp *op) {
+  m_ops.push_back(op);
 }
 
-const expr::Tuple *TandemOp::Put(const expr::Tuple *tuple) const {
-  const auto *t = m_in->Put(tuple);
-  if (t != nullptr) {
-    return m_out->Put(t);
+const expr::Tuple *TandemOp::PutFrom(size_t index, const expr::Tuple *tuple) const {
+  for (size_t i = index; i < m_ops.size() && tuple != nullptr; ++i) {
+    tuple = m_ops[i]->Put(tuple);
   }
-  return nullptr;
+  return tuple;
+}
+
+const expr::Tuple *TandemOp::Put(const expr::Tuple *tuple) const {
+  return PutFrom(0, tuple);
 }
 
 const expr::Tuple *TandemOp::Get() const {
-  const expr::Tuple *tuple;
-  while ((tuple = m_in->Get()) != nullptr) {
-    const auto *t = m_out->Put(tuple);
-    if (t != nullptr) {
-      return t;
+  for (size_t i = 0; i < m_ops.size(); ++i) {
+    const expr::Tuple *tuple;
+    while ((tuple = m_ops[i]->Get()) != nullptr) {
+      const auto *t = PutFrom(i + 1, tuple);
+      if (t != nullptr) {
+        return t;
+      }
     }
   }
-  return m_out->Get();
+  return nullptr;
 }
 
 }  // namespace dingodb::rel::op
diff --git a/src/rel/op/tandem_op.h b/src/rel/op/tandem_op.h
index 4907b79..857fe4a 100644
--- a/src/rel/op/tandem_op.h
+++ b/src/rel/op/tandem_op.h
@@ -15,22 +15,31 @@
 #ifndef _REL_OP_TANDEM_OP_H_
 #define _REL_OP_TANDEM_OP_H_
 
+#include <vector>
+
 #include "rel_op.h"
 
 namespace dingodb::rel::op {
 
+/**
+ * Any number of operators in a row. They are kept in one list (not nested), so that the depth of the call stack does not
+ * depend on the length of the chain.
+ */
 class TandemOp : public RelOp {
  public:
-  TandemOp(const RelOp *in, const RelOp *out);
+  TandemOp() = default;
 
   ~TandemOp() override;
 
+  void Append(const RelOp *op);
+
   const expr::Tuple *Put(const expr::Tuple *tuple) const override;
   const expr::Tuple *Get() const override;
 
  private:
-  const RelOp *m_in;
-  const RelOp *m_out;
+  std::vector<const RelOp *> m_ops;
+
+  const expr::Tuple *PutFrom(size_t index, const expr::Tuple *tuple) const;
 };
 
 }  // namespace dingodb::rel::op
diff --git a/src/rel/rel_runner.cc b/src/rel/rel_runner.cc
index 8eb372e..d3a96c2 100644
--- a/src/rel/rel_runner.cc
+++ b/src/rel/rel_runner.cc
@@ -61,7 +61,7 @@ static const expr::Byte *DecodeAggs(std::vector<const op::Agg *> *&aggs, const e
   }
 }
 
-RelRunner::RelRunner() : m_op(nullptr) {
+RelRunner::RelRunner() : m_op(nullptr), m_tandem(nullptr) {
 }
 
 RelRunner::~RelRunner() {
@@ -135,11 +135,16 @@ const expr::Tuple *RelRunner::Get() const {
 }
 
 void RelRunner::AppendOp(RelOp *op) {
-  if (m_op != nullptr) {
-    m_op = new op::TandemOp(m_op, op);
-  } else {
+  if (m_op == nullptr) {
     m_op = op;
+    return;
   }
+  if (m_tandem == nullptr) {
+    m_tandem = new op::TandemOp();
+    m_tandem->Append(m_op);
+    m_op = m_tandem;
+  }
+  m_tandem->Append(op);
 }
 
 }  // namespace dingodb::rel
diff --git a/src/rel/rel_runner.h b/src/rel/rel_runner.h
index aade21a..867a837 100644
--- a/src/rel/rel_runner.h
+++ b/src/rel/rel_runner.h
@@ -22,6 +22,10 @@
 
 namespace dingodb::rel {
 
+namespace op {
+class TandemOp;
+}
+
 class RelRunner {
  public:
   RelRunner();
@@ -35,10 +39,12 @@ class RelRunner {
 
  private:
   RelOp *m_op;
+  op::TandemOp *m_tandem;  // m_op if there are several operators
 
   void Release() {
     delete m_op;
     m_op = nullptr;
+    m_tandem = nullptr;
   }
 
   void AppendOp(RelOp *op);
-- 
2.43.0

