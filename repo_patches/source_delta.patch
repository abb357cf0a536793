From 973e911a4fa9e0de02cdbd82f138783b889443b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:47 +0000
Subject: [PATCH 01/28] fix: in-place multiplication of a dense number with
 itself or its own storage

---
 include/hyperjet/hyperjet.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 250d204..c3c06ef 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -1140,15 +1140,16 @@ namespace hyperjet
             check_equal_size(size(), b.size());
 
             const Data a_m_data = m_data;
+            const Data &b_m_data = this == &b ? a_m_data : b.m_data;
 
-            const Scalar da = b.f();
+            const Scalar da = b_m_data[0];
             const Scalar db = this->f();
 
-            f() *= b.f();
+            f() *= da;
 
             for (index i = 1; i < length(m_data); i++)
             {
-                m_data[i] = da * m_data[i] + db * b.m_data[i];
+                m_data[i] = da * m_data[i] + db * b_m_data[i];
             }
 
             if constexpr (order() == 1)
@@ -1160,14 +1161,14 @@ namespace hyperjet
             {
                 for (index j = i; j < size(); j++)
                 {
-                    *it++ += a_m_data[1 + i] * b.m_data[1 + j] + a_m_data[1 + j] * b.m_data[1 + i];
+                    *it++ += a_m_data[1 + i] * b_m_data[1 + j] + a_m_data[1 + j] * b_m_data[1 + i];
                 }
             }
 
             return *this;
         }
 
-        Type &operator*=(const Scalar &b)
+        Type &operator*=(const Scalar b)
         {
             for (index i = 0; i < length(m_data); i++)
             {
-- 
2.43.0


From 31f5f2156687623cd5d59f5672725ebd30518fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:47 +0000
Subject: [PATCH 02/28] fix: in-place multiplication and division of a sparse
 number with itself

---
 include/hyperjet/hyperjet.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index c3c06ef..6a304ca 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -2253,6 +2253,9 @@ namespace hyperjet
 
         Type &operator*=(const Type &b)
         {
+            if (this == &b)
+                return *this = *this * b;
+
             const Scalar da = b.m_f;
             const Scalar db = m_f;
 
@@ -2311,6 +2314,9 @@ namespace hyperjet
         {
             using std::pow;
 
+            if (this == &b)
+                return *this = *this / b;
+
             const auto da = 1 / b.m_f;
             const auto db = -m_f / pow(b.m_f, 2);
 
-- 
2.43.0


From 5fd64e9979106a2330d12cfb41ca51483a7cd326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:47 +0000
Subject: [PATCH 03/28] fix: reject operands of different size in atan2 and
 three-argument hypot

---
 include/hyperjet/hyperjet.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 6a304ca..a22297f 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -1414,6 +1414,8 @@ namespace hyperjet
         {
             using std::atan2;
 
+            check_equal_size(size(), b.size());
+
             Type result = Type::empty(size());
 
             const Scalar tmp = this->f() * this->f() + b.f() * b.f();
@@ -1456,6 +1458,7 @@ namespace hyperjet
             using std::hypot;
 
             check_equal_size(a.size(), b.size());
+            check_equal_size(a.size(), c.size());
 
             Type result = Type::empty(a.size());
 
-- 
2.43.0


From 77df64282c47f9d7d1daf264db233b9488b969d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:47 +0000
Subject: [PATCH 04/28] fix: run-time-sized numbers constructed without a size
 have zero variables

---
 include/hyperjet/hyperjet.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index a22297f..809e90a 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -318,7 +318,7 @@ namespace hyperjet
 
             if constexpr (is_dynamic())
             {
-                m_size = 1;
+                m_size = 0;
                 m_data = Data(1);
             }
             else
@@ -333,7 +333,7 @@ namespace hyperjet
 
             if constexpr (is_dynamic())
             {
-                m_size = 1;
+                m_size = 0;
                 m_data = Data(1);
             }
             else
-- 
2.43.0


From 678ab5ee134f6525513b223e7272fba7dc320c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:47 +0000
Subject: [PATCH 05/28] fix: check and allocate the storage of a number given
 by a component list

---
 include/hyperjet/hyperjet.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 809e90a..e7ed951 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -362,6 +362,13 @@ namespace hyperjet
         {
             static_assert(0 < order() && order() <= 2);
 
+            check_valid_size(m_size);
+
+            if constexpr (is_dynamic())
+            {
+                m_data.resize(data.size());
+            }
+
             std::copy(data.begin(), data.end(), m_data.begin());
         }
 
-- 
2.43.0


From b44793eddcaf92e40479e6472def69a9c9da0f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:47 +0000
Subject: [PATCH 06/28] fix: reject negative sizes of run-time-sized numbers

---
 include/hyperjet/hyperjet.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index e7ed951..451b9db 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -429,6 +429,7 @@ namespace hyperjet
         void resize(const index size)
         {
             static_assert(is_dynamic());
+            check_valid_size(size);
             m_size = size;
             const index n = data_length_from_size(size);
             m_data.resize(n);
@@ -573,6 +574,7 @@ namespace hyperjet
         {
             if constexpr (is_dynamic())
             {
+                check_valid_size(size);
                 const index n = data_length_from_size(size);
                 const Data data(n);
                 Type result(data, size);
@@ -606,6 +608,7 @@ namespace hyperjet
         {
             if constexpr (is_dynamic())
             {
+                check_valid_size(size);
                 const Data data(data_length_from_size(size), 0);
                 Type result(data, size);
                 return result;
-- 
2.43.0


From 077c16fdf3622060b11dbcc9100fcbfcdce058e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:47 +0000
Subject: [PATCH 07/28] fix: reject an empty component sequence

---
 include/hyperjet/hyperjet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 451b9db..64631b8 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -69,7 +69,7 @@ namespace hyperjet
 
             if constexpr (throw_exceptions())
             {
-                if (data_length_from_size(s) != n)
+                if (s < 0 || data_length_from_size(s) != n)
                 {
                     throw std::runtime_error("Invalid length");
                 }
-- 
2.43.0


From 75adcb959548c3e3e5f1f39efe038c82844e8e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:47 +0000
Subject: [PATCH 08/28] fix: assertion on the component count rejected valid
 lengths without exceptions

---
 include/hyperjet/hyperjet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 64631b8..eaba905 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -76,7 +76,7 @@ namespace hyperjet
             }
             else
             {
-                assert(data_length_from_size(s) == n == 0 && "Invalid length");
+                assert(s >= 0 && data_length_from_size(s) == n && "Invalid length");
             }
 
             return s;
-- 
2.43.0


From 53a3829ccedec3aedcfa85b58801157d7cfbeb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:47 +0000
Subject: [PATCH 09/28] fix: reject a component sequence that does not match
 the given size

---
 include/hyperjet/hyperjet.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index eaba905..89d1ccf 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -356,6 +356,9 @@ namespace hyperjet
             static_assert(0 < order() && order() <= 2);
 
             static_assert(is_dynamic());
+
+            check_valid_size(size);
+            check_equal_size(length(data), data_length_from_size(size));
         }
 
         DDScalar(std::initializer_list<TScalar> data) : m_size(size_from_data_length(length(data)))
-- 
2.43.0


From 8b33f1f6e6b085c044ac65dfec79f7317e002745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:47 +0000
Subject: [PATCH 10/28] fix: reject padding to a smaller size

---
 include/hyperjet/hyperjet.h | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 89d1ccf..88d5a81 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -133,6 +133,21 @@ namespace hyperjet
             }
         }
 
+        HYPERJET_INLINE static void check_valid_padding(const index size, const index new_size)
+        {
+            if constexpr (throw_exceptions())
+            {
+                if (new_size < size)
+                {
+                    throw std::runtime_error("Invalid size");
+                }
+            }
+            else
+            {
+                assert(new_size >= size && "Invalid size");
+            }
+        }
+
         struct Zero
         {
             HYPERJET_INLINE Zero operator*(const Scalar) const
@@ -442,6 +457,8 @@ namespace hyperjet
         {
             static_assert(is_dynamic());
 
+            check_valid_padding(size(), new_size);
+
             Type result = empty(new_size);
 
             const index head = new_size - size();
@@ -489,6 +506,8 @@ namespace hyperjet
         {
             static_assert(is_dynamic());
 
+            check_valid_padding(size(), new_size);
+
             Type result = empty(new_size);
 
             const index tail = new_size - size();
-- 
2.43.0


From 99dd41d3a6d9333eab222f6f297b5e92be0473f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:47 +0000
Subject: [PATCH 11/28] fix: resizing a second-order number keeps the Hessian
 of the remaining variables

---
 include/hyperjet/hyperjet.h | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 88d5a81..0cec37c 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -448,9 +448,36 @@ namespace hyperjet
         {
             static_assert(is_dynamic());
             check_valid_size(size);
-            m_size = size;
+
             const index n = data_length_from_size(size);
-            m_data.resize(n);
+
+            if constexpr (order() == 2)
+            {
+                const Data source = m_data;
+                const index source_size = m_size;
+                const index common_size = size < source_size ? size : source_size;
+
+                m_data.assign(n, Scalar(0));
+
+                std::copy(source.begin(), source.begin() + 1 + common_size, m_data.begin());
+
+                index source_row = 1 + source_size;
+                index target_row = 1 + size;
+
+                for (index i = 0; i < common_size; i++)
+                {
+                    std::copy(source.begin() + source_row, source.begin() + source_row + common_size - i, m_data.begin() + target_row);
+
+                    source_row += source_size - i;
+                    target_row += size - i;
+                }
+            }
+            else
+            {
+                m_data.resize(n);
+            }
+
+            m_size = size;
         }
 
         Type pad_left(const index new_size) const
-- 
2.43.0


From b5c675263972937890984f9f57e3645a61a2257e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:47 +0000
Subject: [PATCH 12/28] fix: finite derivatives of pow at zero for exponents
 zero and one

---
 include/hyperjet/hyperjet.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 0cec37c..add827d 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -1317,8 +1317,8 @@ namespace hyperjet
             Type result = Type::empty(size());
 
             const auto f = pow(this->f(), b);
-            const auto da = b * pow(this->f(), b - 1);
-            const auto daa = (b - 1) * b * pow(this->f(), b - 2);
+            const auto da = b == 0 ? Scalar(0) : b * pow(this->f(), b - 1);
+            const auto daa = b == 0 || b == 1 ? Scalar(0) : (b - 1) * b * pow(this->f(), b - 2);
 
             unary<false>(m_data, f, da, daa, result.m_data);
 
@@ -2407,7 +2407,7 @@ namespace hyperjet
             using std::pow;
 
             const auto f = pow(m_f, b);
-            const auto da = b * pow(m_f, b - Scalar(1));
+            const auto da = b == 0 ? Scalar(0) : b * pow(m_f, b - Scalar(1));
 
             return Type(f, unary(m_d, da));
         }
-- 
2.43.0


From 6edf0021950973af726847db8d0dc65dd926d275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:47 +0000
Subject: [PATCH 13/28] fix: read-only access to the gradient of a constant
 number

---
 include/hyperjet/hyperjet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index add827d..f849785 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -858,7 +858,7 @@ namespace hyperjet
 
         Eigen::Ref<const Vector> ag() const
         {
-            return Eigen::Map<Vector>(ptr() + 1, size());
+            return Eigen::Map<const Vector>(ptr() + 1, size());
         }
 
         Eigen::Ref<Vector> ag()
-- 
2.43.0


From 09cdf812f65541ba0a6ddfa17f8d3845fbf6df4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:47 +0000
Subject: [PATCH 14/28] fix: resolve pow with integer exponents and keep
 fractional ones

---
 include/hyperjet/hyperjet.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index f849785..4260c29 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -1831,8 +1831,8 @@ namespace hyperjet
 
     using std::pow;
 
-    template <index TOrder, typename TScalar, index TSize>
-    DDScalar<TOrder, TScalar, TSize> pow(const DDScalar<TOrder, TScalar, TSize> &a, const index b)
+    template <index TOrder, typename TScalar, index TSize, typename TExponent, typename = std::enable_if_t<std::is_integral_v<TExponent>>>
+    DDScalar<TOrder, TScalar, TSize> pow(const DDScalar<TOrder, TScalar, TSize> &a, const TExponent b)
     {
         return a.pow(b);
     }
@@ -2784,14 +2784,14 @@ namespace hyperjet
 
     // std::pow
 
-    template <typename TScalar>
-    SScalar<TScalar> pow(const SScalar<TScalar> &a, const index b)
+    template <typename TScalar, typename TExponent, typename = std::enable_if_t<std::is_integral_v<TExponent>>>
+    SScalar<TScalar> pow(const SScalar<TScalar> &a, const TExponent b)
     {
         return a.pow(b);
     }
 
     template <typename TScalar>
-    SScalar<TScalar> pow(const SScalar<TScalar> &a, const TScalar b)
+    SScalar<TScalar> pow(const SScalar<TScalar> &a, const typename SScalar<TScalar>::Scalar b)
     {
         return a.pow(b);
     }
-- 
2.43.0


From 62baca3dd6d0a58b9946cff91d573c722734cfb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:47 +0000
Subject: [PATCH 15/28] fix: compare with the end of the searched map in the
 evaluation of sparse numbers

---
 include/hyperjet/hyperjet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 4260c29..41cab83 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -2154,7 +2154,7 @@ namespace hyperjet
             {
                 const auto it = d.find(coef.first);
 
-                if (it == m_d.end())
+                if (it == d.end())
                     continue;
 
                 r += coef.second * it->second;
-- 
2.43.0


From 3f452fdb77e0c775196761da26d487bb2199fd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:47 +0000
Subject: [PATCH 16/28] fix: first-order numbers have no Hessian to read or
 write

---
 include/hyperjet/hyperjet.h |  8 ++++++++
 python/src/common.h         | 15 ++++++++++-----
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 41cab83..751f56b 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -799,6 +799,8 @@ namespace hyperjet
 
         Scalar &h(const index i)
         {
+            static_assert(order() == 2);
+
             assert(0 <= i && i < size() * (size() + 1) / 2);
 
             return m_data[1 + size() + i];
@@ -806,6 +808,8 @@ namespace hyperjet
 
         Scalar h(const index i) const
         {
+            static_assert(order() == 2);
+
             assert(0 <= i && i < size() * (size() + 1) / 2);
 
             return m_data[1 + size() + i];
@@ -818,6 +822,8 @@ namespace hyperjet
 
         Scalar &h(const index i, const index j)
         {
+            static_assert(order() == 2);
+
             assert(0 <= i && i < size());
             assert(0 <= j && j < size());
 
@@ -833,6 +839,8 @@ namespace hyperjet
 
         Scalar h(const index i, const index j) const
         {
+            static_assert(order() == 2);
+
             assert(0 <= i && i < size());
             assert(0 <= j && j < size());
 
diff --git a/python/src/common.h b/python/src/common.h
index 81b1193..c45544c 100644
--- a/python/src/common.h
+++ b/python/src/common.h
@@ -91,11 +91,16 @@ auto bind(py::module &m, const std::string &name)
         .def("__pow__", &T::pow)
         .def("__repr__", &T::to_string)
         .def("abs", &T::abs)
-        .def("eval", &T::eval, "d"_a)
-        .def("h", py::overload_cast<hj::index, hj::index>(&T::h), "row"_a, "col"_a)
-        .def("set_h", py::overload_cast<hj::index, hj::index, typename T::Scalar>(&T::set_h), "row"_a, "col"_a, "value"_a)
-        .def("hm", py::overload_cast<std::string>(&T::hm, py::const_), "mode"_a = "full")
-        .def("set_hm", &T::set_hm, "value"_a);
+        .def("eval", &T::eval, "d"_a);
+
+    if constexpr (T::order() == 2)
+    {
+        cls
+            .def("h", py::overload_cast<hj::index, hj::index>(&T::h), "row"_a, "col"_a)
+            .def("set_h", py::overload_cast<hj::index, hj::index, typename T::Scalar>(&T::set_h), "row"_a, "col"_a, "value"_a)
+            .def("hm", py::overload_cast<std::string>(&T::hm, py::const_), "mode"_a = "full")
+            .def("set_hm", &T::set_hm, "value"_a);
+    }
 
     if constexpr (T::is_dynamic())
     {
-- 
2.43.0


From a20a14f9dbd91b67c3b17402f04a8ed61556c4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:47 +0000
Subject: [PATCH 17/28] fix: reject Hessian indices outside the number in the
 Python binding

---
 python/src/common.h | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/python/src/common.h b/python/src/common.h
index c45544c..0cad8d9 100644
--- a/python/src/common.h
+++ b/python/src/common.h
@@ -17,6 +17,15 @@ namespace hj = hyperjet;
 namespace py = pybind11;
 using namespace py::literals;
 
+template <typename T>
+void check_index(const T &self, const hj::index i)
+{
+    if (i < 0 || self.size() <= i)
+    {
+        throw py::index_error("Index out of range");
+    }
+}
+
 template <typename T>
 auto bind(py::module &m, const std::string &name)
 {
@@ -96,8 +105,22 @@ auto bind(py::module &m, const std::string &name)
     if constexpr (T::order() == 2)
     {
         cls
-            .def("h", py::overload_cast<hj::index, hj::index>(&T::h), "row"_a, "col"_a)
-            .def("set_h", py::overload_cast<hj::index, hj::index, typename T::Scalar>(&T::set_h), "row"_a, "col"_a, "value"_a)
+            .def(
+                "h", [](const T &self, const hj::index row, const hj::index col)
+                {
+                    check_index(self, row);
+                    check_index(self, col);
+                    return self.h(row, col);
+                },
+                "row"_a, "col"_a)
+            .def(
+                "set_h", [](T &self, const hj::index row, const hj::index col, const typename T::Scalar value)
+                {
+                    check_index(self, row);
+                    check_index(self, col);
+                    self.set_h(row, col, value);
+                },
+                "row"_a, "col"_a, "value"_a)
             .def("hm", py::overload_cast<std::string>(&T::hm, py::const_), "mode"_a = "full")
             .def("set_hm", &T::set_hm, "value"_a);
     }
-- 
2.43.0


From fb005bd6e81045fa4a4256b28e52d89e64a6429a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:47 +0000
Subject: [PATCH 18/28] fix: reject variables with an index outside the number

---
 include/hyperjet/hyperjet.h | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 751f56b..7aa5c92 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -133,6 +133,21 @@ namespace hyperjet
             }
         }
 
+        HYPERJET_INLINE static void check_valid_index(const index i, const index size)
+        {
+            if constexpr (throw_exceptions())
+            {
+                if (i < 0 || size <= i)
+                {
+                    throw std::runtime_error("Invalid index");
+                }
+            }
+            else
+            {
+                assert(0 <= i && i < size && "Invalid index");
+            }
+        }
+
         HYPERJET_INLINE static void check_valid_padding(const index size, const index new_size)
         {
             if constexpr (throw_exceptions())
@@ -694,6 +709,7 @@ namespace hyperjet
         static Type variable(const index i, const Scalar f)
         {
             static_assert(!is_dynamic());
+            check_valid_index(i, TSize);
             Type result = zero();
             result.f() = f;
             result.g(i) = 1;
@@ -704,6 +720,8 @@ namespace hyperjet
         {
             if constexpr (is_dynamic())
             {
+                check_valid_size(size);
+                check_valid_index(i, size);
                 Type result = zero(size);
                 result.f() = f;
                 result.g(i) = 1;
@@ -722,7 +740,7 @@ namespace hyperjet
 
             if constexpr (!is_dynamic())
             {
-                assert(s == TSize);
+                check_valid_size(s);
             }
 
             std::vector<Type> vars(s);
-- 
2.43.0


From 6862001e1f2bbd1b65bc56d2d86a6fa543af579b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:47 +0000
Subject: [PATCH 19/28] fix: reject matrices, arrays and displacements of the
 wrong shape

---
 include/hyperjet/hyperjet.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 7aa5c92..3d2c11c 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -903,6 +903,9 @@ namespace hyperjet
 
         void hm(const std::string mode, Eigen::Ref<Matrix> out) const
         {
+            check_equal_size(size(), out.rows());
+            check_equal_size(size(), out.cols());
+
             index it = 0;
 
             for (index i = 0; i < size(); i++)
@@ -941,6 +944,9 @@ namespace hyperjet
 
         void set_hm(const Eigen::Ref<const Matrix> &value)
         {
+            check_equal_size(size(), value.rows());
+            check_equal_size(size(), value.cols());
+
             index it = 0;
 
             for (index i = 0; i < size(); i++)
@@ -959,6 +965,8 @@ namespace hyperjet
 
         void set_adata(const Eigen::Ref<DataVector> value)
         {
+            check_equal_size(length(m_data), length(value));
+
             Eigen::Map<DataVector>(ptr(), length(m_data)) = value;
         }
 
@@ -978,7 +986,8 @@ namespace hyperjet
         {
             static_assert(order() == 2);
 
-            assert(g.size() == hm.rows() && g.size() == hm.cols());
+            check_equal_size(length(g), hm.rows());
+            check_equal_size(length(g), hm.cols());
 
             Type result = empty(length(g));
 
@@ -991,6 +1000,8 @@ namespace hyperjet
 
         Scalar eval(typename std::conditional < TSize == Dynamic, std::vector<Scalar>, std::array<Scalar, TSize<0 ? 0 : TSize>>::type d) const
         {
+            check_equal_size(size(), length(d));
+
             Scalar result = f();
 
             for (index i = 0; i < size(); i++)
-- 
2.43.0


From 8f41b5d99ecd41adffda0506c6d61e6ef087c472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:47 +0000
Subject: [PATCH 20/28] fix: reject an unknown mode without exceptions by
 assertion

---
 include/hyperjet/hyperjet.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 3d2c11c..53934ce 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -938,7 +938,14 @@ namespace hyperjet
             }
             else
             {
-                throw std::runtime_error("Invalid value for 'mode'");
+                if constexpr (throw_exceptions())
+                {
+                    throw std::runtime_error("Invalid value for 'mode'");
+                }
+                else
+                {
+                    assert(false && "Invalid value for 'mode'");
+                }
             }
         }
 
-- 
2.43.0


From feeeacac68a725beddc65cf416b15fa7a7a574ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:47 +0000
Subject: [PATCH 21/28] fix: assert a non-negative index when writing gradient
 entries

---
 include/hyperjet/hyperjet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 53934ce..ee6cf28 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -798,7 +798,7 @@ namespace hyperjet
 
         Scalar &g(const index i)
         {
-            assert(i < size());
+            assert(0 <= i && i < size());
 
             return m_data[1 + i];
         }
-- 
2.43.0


From 492bb2a3695da991c34722dfd9df38c10f08fce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:33 +0000
Subject: [PATCH 22/28] fix: no throw expression when exceptions are disabled
 (clang rejected the header with -fno-exceptions)

---
 include/hyperjet/hyperjet.h | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index ee6cf28..5feaf99 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -4,9 +4,11 @@
 #include <assert.h>         // assert
 #include <cmath>            // acos, acosh, asin, asinh, atan, atanh, atan2, cbrt, cos, cosh, exp, hypot, log, log2, log10, pow, sin, sinh, sqrt, tan, tanh
 #include <cstddef>          // ptrdiff_t
+#include <cstdlib>          // abort
 #include <initializer_list> // initializer_list
 #include <ostream>          // ostream
 #include <sstream>          // stringstream
+#include <stdexcept>        // runtime_error
 #include <string>           // string
 #include <type_traits>      // conditional
 #include <vector>           // vector
@@ -40,6 +42,16 @@ namespace hyperjet
 #endif
     }
 
+    [[noreturn]] HYPERJET_INLINE void raise_error(const char *message)
+    {
+#if defined(HYPERJET_NO_EXCEPTIONS)
+        assert(false && message);
+        std::abort();
+#else
+        throw std::runtime_error(message);
+#endif
+    }
+
     template <index TOrder, typename TScalar = double, index TSize = Dynamic>
     class DDScalar
     {
@@ -71,7 +83,7 @@ namespace hyperjet
             {
                 if (s < 0 || data_length_from_size(s) != n)
                 {
-                    throw std::runtime_error("Invalid length");
+                    raise_error("Invalid length");
                 }
             }
             else
@@ -91,7 +103,7 @@ namespace hyperjet
                 {
                     if (size < 0)
                     {
-                        throw std::runtime_error("Negative size");
+                        raise_error("Negative size");
                     }
                 }
                 else
@@ -105,7 +117,7 @@ namespace hyperjet
                 {
                     if (size != TSize)
                     {
-                        throw std::runtime_error("Invalid size");
+                        raise_error("Invalid size");
                     }
                 }
                 else
@@ -123,7 +135,7 @@ namespace hyperjet
                 {
                     if (size_a != size_b)
                     {
-                        throw std::runtime_error("Incompatible size");
+                        raise_error("Incompatible size");
                     }
                 }
                 else
@@ -139,7 +151,7 @@ namespace hyperjet
             {
                 if (i < 0 || size <= i)
                 {
-                    throw std::runtime_error("Invalid index");
+                    raise_error("Invalid index");
                 }
             }
             else
@@ -154,7 +166,7 @@ namespace hyperjet
             {
                 if (new_size < size)
                 {
-                    throw std::runtime_error("Invalid size");
+                    raise_error("Invalid size");
                 }
             }
             else
@@ -940,7 +952,7 @@ namespace hyperjet
             {
                 if constexpr (throw_exceptions())
                 {
-                    throw std::runtime_error("Invalid value for 'mode'");
+                    raise_error("Invalid value for 'mode'");
                 }
                 else
                 {
-- 
2.43.0


From 5f3db0d2f03fd3679aed43528489a4e6b69c1b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:10 +0000
Subject: [PATCH 23/28] fix: in-place addition and subtraction of plain numbers
 modify the object

u += 1.5 fell back to u = u + 1.5, which left other references to the
object unchanged, unlike u *= 1.5 and u += v.
---
 python/src/bind_sscalar.cpp | 2 ++
 python/src/common.h         | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/python/src/bind_sscalar.cpp b/python/src/bind_sscalar.cpp
index 1094099..f76de20 100644
--- a/python/src/bind_sscalar.cpp
+++ b/python/src/bind_sscalar.cpp
@@ -101,7 +101,9 @@ void bind_sscalar(pybind11::module &m)
         .def(py::self / py::self)
         .def(py::self / double())
         .def(py::self += py::self)
+        .def(py::self += double())
         .def(py::self -= py::self)
+        .def(py::self -= double())
         .def(py::self *= py::self)
         .def(py::self *= double())
         .def(py::self /= py::self)
diff --git a/python/src/common.h b/python/src/common.h
index 0cad8d9..6ff6427 100644
--- a/python/src/common.h
+++ b/python/src/common.h
@@ -202,7 +202,9 @@ auto bind(py::module &m, const std::string &name)
         .def(py::self / py::self)
         .def(py::self / double())
         .def(py::self += py::self)
+        .def(py::self += double())
         .def(py::self -= py::self)
+        .def(py::self -= double())
         .def(py::self *= py::self)
         .def(py::self *= double())
         .def(py::self /= py::self)
-- 
2.43.0


From e2b533460d6584bca504bd8a86786420de795b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:10 +0000
Subject: [PATCH 24/28] fix: hm of a number with one variable is a matrix in
 Python

The 1x1 matrix of a fixed-size number was exposed with shape (1,), and
hyperjet.dd raised ValueError for it.
---
 python/src/common.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/src/common.h b/python/src/common.h
index 6ff6427..8e3d534 100644
--- a/python/src/common.h
+++ b/python/src/common.h
@@ -121,7 +121,13 @@ auto bind(py::module &m, const std::string &name)
                     self.set_h(row, col, value);
                 },
                 "row"_a, "col"_a, "value"_a)
-            .def("hm", py::overload_cast<std::string>(&T::hm, py::const_), "mode"_a = "full")
+            .def(
+                "hm", [](const T &self, const std::string &mode)
+                {
+                    // a 1x1 matrix of fixed size would be exposed as a vector
+                    return Eigen::Matrix<typename T::Scalar, Eigen::Dynamic, Eigen::Dynamic>(self.hm(mode));
+                },
+                "mode"_a = "full")
             .def("set_hm", &T::set_hm, "value"_a);
     }
 
-- 
2.43.0


From 5ce40b870f27fa3416b3470acd7f136bba2ef30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:10 +0000
Subject: [PATCH 25/28] fix: hyperjet.f does not truncate values after a
 leading integer

np.vectorize took the result type from the first element, so that
f([1, x]) with x.f = 2.5 gave [1, 2].
---
 python/src/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/main.cpp b/python/src/main.cpp
index 9eb058d..951fe24 100644
--- a/python/src/main.cpp
+++ b/python/src/main.cpp
@@ -62,7 +62,7 @@ PYBIND11_MODULE(hyperjet, m)
         auto global = py::dict();
         global["np"] = numpy;
 
-        m.attr("f") = py::eval("np.vectorize(lambda v: v.f if hasattr(v, 'f') else v)", global);
+        m.attr("f") = py::eval("np.vectorize(lambda v: v.f if hasattr(v, 'f') else v, otypes=[float])", global);
         m.attr("d") = py::eval("np.vectorize(lambda v: v.g if hasattr(v, 'g') else np.zeros((0)), signature='()->(n)')", global);
         m.attr("dd") = py::eval("np.vectorize(lambda v: v.hm() if hasattr(v, 'hm') else np.zeros((0, 0)), signature='()->(n,m)')", global);
 
-- 
2.43.0


From 7678741b6c13c0f4780cbecbc4660b49d3e732a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:36 +0000
Subject: [PATCH 26/28] fix: a number stays consistent when an assignment runs
 out of memory

The size was assigned before the components, so that an assignment whose
allocation failed left the new size with the old components.
---
 include/hyperjet/hyperjet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 5feaf99..606a211 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -66,8 +66,8 @@ namespace hyperjet
         using Scalar = TScalar;
         using Data = typename std::conditional<TSize == Dynamic, DynamicStorage, StaticStorage>::type;
 
-        index m_size;
         Data m_data;
+        index m_size;
 
     public:
         HYPERJET_INLINE static index data_length_from_size(const index size)
-- 
2.43.0


From d476b53cf25e6e67d05f625db669f3539b56f87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:49 +0000
Subject: [PATCH 27/28] fix: powers of long double numbers keep the precision
 of the exponent

---
 include/hyperjet/hyperjet.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 606a211..1619e5e 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -1366,7 +1366,7 @@ namespace hyperjet
 
         // --- arithmetic operations
 
-        Type pow(const double b) const
+        Type pow(const Scalar b) const
         {
             using std::pow;
 
@@ -1894,7 +1894,7 @@ namespace hyperjet
     }
 
     template <index TOrder, typename TScalar, index TSize>
-    DDScalar<TOrder, TScalar, TSize> pow(const DDScalar<TOrder, TScalar, TSize> &a, const double b)
+    DDScalar<TOrder, TScalar, TSize> pow(const DDScalar<TOrder, TScalar, TSize> &a, const typename DDScalar<TOrder, TScalar, TSize>::Scalar b)
     {
         return a.pow(b);
     }
-- 
2.43.0


From 02f13f942e178bfc537c8a444c4d16c7a96bb20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:07 +0000
Subject: [PATCH 28/28] fix: logarithms of long double numbers keep the
 precision of their constants

---
 include/hyperjet/hyperjet.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 1619e5e..400780e 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -1749,7 +1749,7 @@ namespace hyperjet
             Type result = Type::empty(size());
 
             const auto f = log2(this->f());
-            const auto da = 1 / (this->f() * log(2));
+            const auto da = 1 / (this->f() * log(Scalar(2)));
             const auto daa = -da / this->f();
 
             unary<false>(m_data, f, da, daa, result.m_data);
@@ -1765,7 +1765,7 @@ namespace hyperjet
             Type result = Type::empty(size());
 
             const auto f = log10(this->f());
-            const auto da = 1 / (this->f() * log(10));
+            const auto da = 1 / (this->f() * log(Scalar(10)));
             const auto daa = -da / this->f();
 
             unary<false>(m_data, f, da, daa, result.m_data);
@@ -2714,7 +2714,7 @@ namespace hyperjet
             using std::log2;
 
             const auto f = log2(m_f);
-            const auto da = 1 / (m_f * log(2));
+            const auto da = 1 / (m_f * log(Scalar(2)));
 
             return Type(f, unary(m_d, da));
         }
@@ -2725,7 +2725,7 @@ namespace hyperjet
             using std::log10;
 
             const auto f = log10(m_f);
-            const auto da = 1 / (m_f * log(10));
+            const auto da = 1 / (m_f * log(Scalar(10)));
 
             return Type(f, unary(m_d, da));
         }
-- 
2.43.0

