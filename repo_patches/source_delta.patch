From 0bb90f07167be1fc666dc5a287ea422205122193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:18 +0000
Subject: [PATCH 01/19] fix: ipf (python) must not keep pointers into temporary
 marginal arrays

---
 src/module.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/module.cpp b/src/module.cpp
index e4e5cbc..1245d83 100644
--- a/src/module.cpp
+++ b/src/module.cpp
@@ -189,7 +189,8 @@ py::tuple ipf(const py::array_t<double>& seed, const py::list& ilist, const py::
     const py::array_t<int64_t> ia = ilist[i].cast<py::array_t<int64_t>>();
     const py::array_t<double> ma = mlist[i].cast<py::array_t<double>>();
     indices[i] = toVector<int64_t>(ia);
-    marginals.push_back(asNDArray<double>(ma));
+    // copy, since ma may be a temporary (converted) array
+    marginals.push_back(toNDArray<double>(ma));
   }
 
   IPF<double> ipf(indices, marginals);
-- 
2.43.0


From 333118c0a222e694d04cde052ed683385f2eb6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:18 +0000
Subject: [PATCH 02/19] fix: python functions ignored the memory layout
 (strides) of their array arguments

---
 src/module.cpp | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/module.cpp b/src/module.cpp
index 1245d83..9fb4d3a 100644
--- a/src/module.cpp
+++ b/src/module.cpp
@@ -20,6 +20,10 @@ using namespace py::literals;
 
 namespace hl {
 
+// input arrays: always row-major and contiguous (converted if necessary), since the raw data is accessed directly
+template<typename T>
+using input_array_t = py::array_t<T, py::array::c_style | py::array::forcecast>;
+
 template<typename T>
 T* begin(py::array_t<T>& a)
 {
@@ -35,21 +39,21 @@ T* end(py::array_t<T>& a)
 }
 
 template<typename T>
-const T* cbegin(const py::array_t<T>& a)
+const T* cbegin(const input_array_t<T>& a)
 {
   //assert(a.itemsize() == sizeof(T));
   return (const T*)a.request().ptr;
 }
 
 template<typename T>
-const T* cend(const py::array_t<T>& a)
+const T* cend(const input_array_t<T>& a)
 {
   //assert(a.itemsize() == sizeof(T));
   return (const T*)a.request().ptr + a.size();
 }
 
 template<typename T>
-std::vector<T> toVector(const py::array_t<T>& a)
+std::vector<T> toVector(const input_array_t<T>& a)
 {
   if (a.ndim() != 1)
   {
@@ -59,7 +63,7 @@ std::vector<T> toVector(const py::array_t<T>& a)
 }
 
 template<typename T>
-NDArray<T> toNDArray(const py::array_t<T>& np)
+NDArray<T> toNDArray(const input_array_t<T>& np)
 {
   const size_t dim = np.ndim();
   std::vector<int64_t> sizes(dim);
@@ -71,7 +75,7 @@ NDArray<T> toNDArray(const py::array_t<T>& np)
 }
 
 template<typename T>
-NDArray<T> asNDArray(const py::array_t<T>& np)
+NDArray<T> asNDArray(const input_array_t<T>& np)
 {
   // this is a bit iffy re: constness
   return NDArray<T>(std::vector<int64_t>(np.shape(), np.shape() + np.ndim()), const_cast<T*>(cbegin(np)));
@@ -85,7 +89,7 @@ py::array_t<T> fromNDArray(const NDArray<T>& a)
 
 }
 
-py::list flatten(const py::array_t<int64_t>& a)
+py::list flatten(const input_array_t<int64_t>& a)
 {
   const NDArray<int64_t> array = asNDArray<int64_t>(a);
 
@@ -107,7 +111,7 @@ py::list flatten(const py::array_t<int64_t>& a)
   return outer;
 }
 
-py::tuple integerise1d(py::array_t<double> frac_a, int pop)
+py::tuple integerise1d(input_array_t<double> frac_a, int pop)
 {
   if (pop < 0)
   {
@@ -161,7 +165,7 @@ private:
 
 
 
-py::tuple integerise(const py::array_t<double>& npseed)
+py::tuple integerise(const input_array_t<double>& npseed)
 {
   const NDArray<double> seed = asNDArray<double>(npseed); // shallow copy
   Integeriser integeriser(seed);
@@ -173,7 +177,7 @@ py::tuple integerise(const py::array_t<double>& npseed)
   return py::make_tuple(fromNDArray<int64_t>(integeriser.result()), stats);
 }
 
-py::tuple ipf(const py::array_t<double>& seed, const py::list& ilist, const py::list& mlist)
+py::tuple ipf(const input_array_t<double>& seed, const py::list& ilist, const py::list& mlist)
 {
   size_t k = ilist.size();
   if (k != mlist.size())
@@ -186,8 +190,8 @@ py::tuple ipf(const py::array_t<double>& seed, const py::list& ilist, const py::
 
   for (size_t i = 0; i < k; ++i)
   {
-    const py::array_t<int64_t> ia = ilist[i].cast<py::array_t<int64_t>>();
-    const py::array_t<double> ma = mlist[i].cast<py::array_t<double>>();
+    const input_array_t<int64_t> ia = ilist[i].cast<input_array_t<int64_t>>();
+    const input_array_t<double> ma = mlist[i].cast<input_array_t<double>>();
     indices[i] = toVector<int64_t>(ia);
     // copy, since ma may be a temporary (converted) array
     marginals.push_back(toNDArray<double>(ma));
@@ -219,8 +223,8 @@ py::tuple qis(const py::list& ilist, const py::list& mlist, int64_t skips)
 
   for (size_t i = 0; i < k; ++i)
   {
-    const py::array_t<int64_t> ia = ilist[i].cast<py::array_t<int64_t>>();
-    const py::array_t<int64_t> ma = mlist[i].cast<py::array_t<int64_t>>();
+    const input_array_t<int64_t> ia = ilist[i].cast<input_array_t<int64_t>>();
+    const input_array_t<int64_t> ma = mlist[i].cast<input_array_t<int64_t>>();
     indices[i] = toVector<int64_t>(ia);
     marginals.emplace_back(toNDArray<int64_t>(ma));
   }
@@ -240,7 +244,7 @@ py::tuple qis(const py::list& ilist, const py::list& mlist, int64_t skips)
   return py::make_tuple(fromNDArray<int64_t>(result), stats);
 }
 
-py::tuple qisi(const py::array_t<double> seed, const py::list& ilist, const py::list& mlist, int64_t skips)
+py::tuple qisi(const input_array_t<double> seed, const py::list& ilist, const py::list& mlist, int64_t skips)
 {
   size_t k = ilist.size();
   if (k != mlist.size())
@@ -253,8 +257,8 @@ py::tuple qisi(const py::array_t<double> seed, const py::list& ilist, const py::
 
   for (size_t i = 0; i < k; ++i)
   {
-    const py::array_t<int64_t> ia = ilist[i].cast<py::array_t<int64_t>>();
-    const py::array_t<int64_t> ma = mlist[i].cast<py::array_t<int64_t>>();
+    const input_array_t<int64_t> ia = ilist[i].cast<input_array_t<int64_t>>();
+    const input_array_t<int64_t> ma = mlist[i].cast<input_array_t<int64_t>>();
     indices[i] = toVector<int64_t>(ia);
     marginals.emplace_back(toNDArray<int64_t>(ma));
   }
@@ -325,7 +329,7 @@ PYBIND11_MODULE(_humanleague, m) {
         qisi_docstr,
         "seed"_a, "indices"_a, "marginals"_a, "skips"_a)
    .def("qisi",
-        [](const py::array_t<double>& seed, const py::list& indices, const py::list& marginals) { return hl::qisi(seed, indices, marginals, 0); },
+        [](const hl::input_array_t<double>& seed, const py::list& indices, const py::list& marginals) { return hl::qisi(seed, indices, marginals, 0); },
         qisi2_docstr,
         "seed"_a, "indices"_a, "marginals"_a)
    .def("_unittest",
-- 
2.43.0


From ccf0e09d839dfd6e5b5c208e4941a5260fb49082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:18 +0000
Subject: [PATCH 03/19] fix: flatten wrote out of bounds if the table contained
 negative counts

---
 src/NDArrayUtils.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/NDArrayUtils.h b/src/NDArrayUtils.h
index 7995c21..f0334e6 100644
--- a/src/NDArrayUtils.h
+++ b/src/NDArrayUtils.h
@@ -204,6 +204,9 @@ NDArray<T> slice(const NDArray<T>& outer, const std::vector<std::pair<int64_t, i
 template<typename T>
 std::vector<std::vector<int>> listify(const size_t pop, const NDArray<T>& t, int offset = 0)
 {
+  if (min(t) < 0)
+    throw std::runtime_error("negative count in population array");
+
   // use offset = 1 for langauges where array indexing begins at 1 (e.g. R)
   std::vector<std::vector<int>> list(t.dim(), std::vector<int>(pop));
 
-- 
2.43.0


From c7285b85c64f70c0bf45deb709b8b772ec60881c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:18 +0000
Subject: [PATCH 04/19] fix: ipf reported convergence when the errors were NaN

---
 src/IPF.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/IPF.h b/src/IPF.h
index 8fa5219..7d897a6 100644
--- a/src/IPF.h
+++ b/src/IPF.h
@@ -114,7 +114,8 @@ private:
       {
         double e = std::fabs(diffs[k][index]);
         m_errors[k][index] = e;
-        m_maxError = std::max(m_maxError, e);
+        // a NaN must not be masked by the finite errors
+        m_maxError = std::isnan(e) ? e : std::max(m_maxError, e);
       }
     }
 
-- 
2.43.0


From 5d4ba300b4f4f0a8aeff55f7bc9f5976f699c081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:18 +0000
Subject: [PATCH 05/19] fix: a dimension repeated within a marginal's index
 hung ipf and corrupted memory

---
 src/Microsynthesis.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Microsynthesis.h b/src/Microsynthesis.h
index cc2ae9c..6f230c9 100644
--- a/src/Microsynthesis.h
+++ b/src/Microsynthesis.h
@@ -8,6 +8,7 @@
 #include "Index.h"
 #include "Log.h"
 
+#include <algorithm>
 #include <vector>
 #include <map>
 
@@ -43,6 +44,9 @@ public:
       for (size_t j = 0; j < m_indices[k].size(); ++j)
       {
         int64_t dim = m_indices[k][j];
+        // each dimension can appear only once in a marginal
+        if (std::find(m_indices[k].begin(), m_indices[k].begin() + j, dim) != m_indices[k].begin() + j)
+          throw std::runtime_error("repeated dimension %% in index %%"s % dim % k);
         int64_t size = m_marginals[k].size(j);
         // check if already entered that size is same
         auto posit = dim_sizes.find(dim);
-- 
2.43.0


From 35d06e6d4b5b97119d230af51a6c86957a670217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:18 +0000
Subject: [PATCH 06/19] fix: sobol skip never terminated for n > 2^31

---
 src/SobolImpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SobolImpl.cpp b/src/SobolImpl.cpp
index 3f33f82..fc625da 100644
--- a/src/SobolImpl.cpp
+++ b/src/SobolImpl.cpp
@@ -230,7 +230,7 @@ void nlopt_sobol_skip(SobolData* s, uint32_t n, uint32_t *x)
 {
   if (s)
   {
-	  uint32_t k = 1;
+	  uint64_t k = 1; // 32 bits would overflow for n > 2^31
 	  while (k*2 < n) k *= 2;
 	  while (k-- > 0) sobol_gen(s, x);
   }
-- 
2.43.0


From 0875270e478a19fe952c35a7af7391bb1eb06a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:18 +0000
Subject: [PATCH 07/19] fix: exhausted sobol sequence raised IndexError instead
 of ending the iteration

---
 src/module.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/module.cpp b/src/module.cpp
index 9fb4d3a..8b5cc64 100644
--- a/src/module.cpp
+++ b/src/module.cpp
@@ -148,7 +148,7 @@ public:
       std::transform(buf.cbegin(), buf.cend(), begin(sequence), [](uint32_t i) { return i * Sobol::SCALE; });
       return sequence;
     }
-    catch(const std::runtime_error&)
+    catch(const std::out_of_range&)
     {
       throw py::stop_iteration();
     }
-- 
2.43.0


From 11d3be4b6050e9ccc2d22e553b22df850d50208a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:18 +0000
Subject: [PATCH 08/19] fix: sobol dimension was truncated to 32 bits before
 being checked

---
 src/Sobol.cpp  | 12 +++++++++++-
 src/module.cpp |  2 +-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/Sobol.cpp b/src/Sobol.cpp
index 3a0b8e5..84055f0 100644
--- a/src/Sobol.cpp
+++ b/src/Sobol.cpp
@@ -6,12 +6,22 @@
 #include <cstdint>
 
 
-Sobol::Sobol(size_t dim, uint32_t nSkip) : m_dim(dim), m_buf(dim), m_pos(dim) // ensures m_buf gets populated on 1st access
+namespace {
+
+// check before anything of this size is allocated
+size_t checkDim(size_t dim)
 {
   if (dim < 1 || dim > 1111)
   {
     throw std::range_error("Dim %% is not in valid range [1,1111]"s % dim);
   }
+  return dim;
+}
+
+}
+
+Sobol::Sobol(size_t dim, uint32_t nSkip) : m_dim(checkDim(dim)), m_buf(dim), m_pos(dim) // ensures m_buf gets populated on 1st access
+{
 
   m_s = nlopt_sobol_create(dim);
   if (nSkip > 0)
diff --git a/src/module.cpp b/src/module.cpp
index 8b5cc64..264fa07 100644
--- a/src/module.cpp
+++ b/src/module.cpp
@@ -137,7 +137,7 @@ py::tuple integerise1d(input_array_t<double> frac_a, int pop)
 class SobolGenerator
 {
 public:
-  SobolGenerator(uint32_t dim, uint32_t nSkip = 0) : m_sobol(dim, nSkip) { }
+  SobolGenerator(size_t dim, uint32_t nSkip = 0) : m_sobol(dim, nSkip) { }
 
   py::array_t<double> next()
   {
-- 
2.43.0


From 80190b95d9df8364c85b9a307a13851c0a275f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:18 +0000
Subject: [PATCH 09/19] fix: chi-squared statistic was NaN if any expected
 state occupancy is zero

---
 src/StatFuncs.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/StatFuncs.h b/src/StatFuncs.h
index 2d5152c..2bb6898 100644
--- a/src/StatFuncs.h
+++ b/src/StatFuncs.h
@@ -38,6 +38,9 @@ double chiSq(const NDArray<T>& sample, const NDArray<U>& reference)
   double chisq = 0.0;
   for (Index index(sample.sizes()); !index.end(); ++index)
   {
+    // an unoccupied state that is expected to be unoccupied does not contribute
+    if (sample[index] == 0 && reference[index] == 0)
+      continue;
     // m is the mean population of this state
     chisq += (sample[index] - reference[index]) * (sample[index] - reference[index]) / reference[index];
   }
-- 
2.43.0


From 5cb0fccc99b288ce57288c0ec590642608115e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:00 +0000
Subject: [PATCH 10/19] fix: integerise accepted NaN as an integral total or
 marginal

---
 src/Integerise.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Integerise.cpp b/src/Integerise.cpp
index c98b899..6019513 100644
--- a/src/Integerise.cpp
+++ b/src/Integerise.cpp
@@ -13,7 +13,7 @@ namespace {
 
 int64_t checked_round(double x, double tol=1e-4) // loose tolerance ~1/4 mantissa precision
 {
-  if (fabs(x - round(x)) > tol)
+  if (!(fabs(x - round(x)) <= tol)) // this form also rejects NaN
     throw std::runtime_error("Marginal or total value %% is not an integer (within tolerance %%)"s % x % tol);
   return (int64_t)round(x);
 }
-- 
2.43.0


From 55c848f633b5ab825f5fbbb0ffebca30df4aab7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:00 +0000
Subject: [PATCH 11/19] fix: integerise (1-d) truncated the population instead
 of rounding it

---
 src/Integerise.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Integerise.cpp b/src/Integerise.cpp
index 6019513..33c1f66 100644
--- a/src/Integerise.cpp
+++ b/src/Integerise.cpp
@@ -62,7 +62,7 @@ Integeriser::Integeriser(const NDArray<double>& seed) : m_seed(seed)
   {
     // convert to vector (reduce 1-d special case)
     std::vector<double> p = reduce(seed, 0);
-    int pop = sum(seed);
+    int pop = checked_round(sum(seed));
     // convert to probabilities
     for (auto& x: p) x /= pop;
     std::vector<int> tmp = integeriseMarginalDistribution(p, pop, m_rmse);
-- 
2.43.0


From 455a57a7fc8e14e22a6562c18f61d64a71d236c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:00 +0000
Subject: [PATCH 12/19] fix: 1-d integerisation of negative, NaN, zero or no
 probabilities gave garbage or crashed

---
 src/Integerise.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/Integerise.cpp b/src/Integerise.cpp
index 33c1f66..e57d404 100644
--- a/src/Integerise.cpp
+++ b/src/Integerise.cpp
@@ -23,6 +23,16 @@ int64_t checked_round(double x, double tol=1e-4) // loose tolerance ~1/4 mantiss
 std::vector<int> integeriseMarginalDistribution(const std::vector<double>& p, int pop, double& rmse)
 {
   const size_t n = p.size();
+
+  // probabilities must be non-negative and sum to 1 (NaN satisfies neither)
+  for (size_t i = 0; i < n; ++i)
+  {
+    if (!(p[i] >= 0.0))
+      throw std::runtime_error("invalid probability %% at index %%"s % p[i] % i);
+  }
+  if (!(fabs(std::accumulate(p.begin(), p.end(), -1.0)) <= 1e-4))
+    throw std::runtime_error("probabilities do not sum to unity");
+
   std::vector<int> f(n);
   std::vector<double> r(n);
 
-- 
2.43.0


From bf8159883365c5faf739def2d1637b0b9feda5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:00 +0000
Subject: [PATCH 13/19] fix: slice with a negative index or a repeated
 dimension corrupted memory

---
 src/NDArrayUtils.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/NDArrayUtils.h b/src/NDArrayUtils.h
index f0334e6..4394894 100644
--- a/src/NDArrayUtils.h
+++ b/src/NDArrayUtils.h
@@ -178,8 +178,11 @@ NDArray<T> slice(const NDArray<T>& outer, const std::vector<std::pair<int64_t, i
   {
     if ((size_t)fixedDims[i].first >= outer.dim())
       throw std::runtime_error("dimension out of bounds in slice");
-    if (fixedDims[i].second >= outer.sizes()[fixedDims[i].first])
+    if (fixedDims[i].second < 0 || fixedDims[i].second >= outer.sizes()[fixedDims[i].first])
       throw std::runtime_error("index out of bounds in slice");
+    for (size_t j = 0; j < i; ++j)
+      if (fixedDims[j].first == fixedDims[i].first)
+        throw std::runtime_error("repeated dimension in slice");
   }
   // if dims empty have to make a complete copy of marginal and return it, which is massively inefficient
   if (fixedDims.empty())
-- 
2.43.0


From 170c7b37c0a7acd82fb95aabe2901ff134308688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:00 +0000
Subject: [PATCH 14/19] fix: reduce read outside the array if a preserved
 dimension is out of range

---
 src/NDArrayUtils.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/NDArrayUtils.h b/src/NDArrayUtils.h
index 4394894..27a6f4d 100644
--- a/src/NDArrayUtils.h
+++ b/src/NDArrayUtils.h
@@ -147,6 +147,8 @@ NDArray<T> reduce(const NDArray<T>& input, const std::vector<int64_t>& preserved
   std::vector<int64_t> preservedSizes(reducedDim);
   for (size_t d = 0; d < reducedDim; ++d)
   {
+    if (preservedDims[d] < 0 || (size_t)preservedDims[d] >= input.dim())
+      throw std::runtime_error("dimension out of bounds in reduce");
     preservedSizes[d] = input.sizes()[preservedDims[d]];
   }
 
-- 
2.43.0


From 28c94100f37166e0e9b34cab4c69797caa874229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:00 +0000
Subject: [PATCH 15/19] fix: arrays with no dimensions or an empty dimension
 crashed

---
 src/NDArray.h | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/NDArray.h b/src/NDArray.h
index bb45f3c..4c94b57 100644
--- a/src/NDArray.h
+++ b/src/NDArray.h
@@ -3,6 +3,7 @@
 
 #include <algorithm>
 #include <stdexcept>
+#include <string>
 
 #include <vector>
 #if __cplusplus <= 201703l
@@ -39,7 +40,7 @@ public:
   NDArray(const std::vector<int64_t>& sizes, T* const storage)
     : m_dim(sizes.size()), m_sizes(sizes)
   {
-    assert(m_sizes.size());
+    checkSizes(sizes);
     m_storageSize = sizes[0];
     assert(m_storageSize < MaxSize);
     for (size_t i = 1; i < m_dim; ++i)
@@ -113,6 +114,7 @@ public:
   {
     if (m_owned)
     {
+      checkSizes(sizes);
       m_dim = sizes.size();
       size_t oldStorageSize = m_storageSize;
 
@@ -202,6 +204,18 @@ public:
 
 private:
 
+  // there must be at least one dimension, and no empty ones
+  static void checkSizes(const std::vector<int64_t>& sizes)
+  {
+    if (sizes.empty())
+      throw std::runtime_error("array must have at least one dimension");
+    for (size_t i = 0; i < sizes.size(); ++i)
+    {
+      if (sizes[i] < 1)
+        throw std::runtime_error("array dimension " + std::to_string(i) + " is empty");
+    }
+  }
+
   void computeOffsets()
   {
     m_offsets.resize(m_dim);
-- 
2.43.0


From 73d62c73b031a6aca16c8150a452e080d85afb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:00 +0000
Subject: [PATCH 16/19] fix: qis expectation was NaN for an empty population

---
 src/QIS.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/QIS.cpp b/src/QIS.cpp
index 6185af4..8aaa505 100644
--- a/src/QIS.cpp
+++ b/src/QIS.cpp
@@ -165,7 +165,9 @@ QIS::QIS(const index_list_t& indices, marginal_list_t& marginals, int64_t skips)
   computeStateValues();
   NDArray<double>::copy(m_stateValues, m_expectedStateOccupancy);
   // scale to get expected occupancy
-  double scale = double(m_population) / sum(m_stateValues);
+  const double total = sum(m_stateValues);
+  // nothing is expected anywhere if there is no population
+  double scale = total > 0.0 ? double(m_population) / total : 0.0;
   for (Index index(m_expectedStateOccupancy.sizes()); !index.end(); ++index)
     m_expectedStateOccupancy[index] *= scale;
 #ifdef VERBOSE
-- 
2.43.0


From 71a2a2a4d3d7509689f267021af612fce13944bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:00 +0000
Subject: [PATCH 17/19] fix: (R) seed with the wrong number of dimensions
 caused reads outside the list of sizes

---
 src/rcpp_api.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rcpp_api.cpp b/src/rcpp_api.cpp
index bb9eb1b..b7a7802 100644
--- a/src/rcpp_api.cpp
+++ b/src/rcpp_api.cpp
@@ -92,6 +92,8 @@ std::vector<int64_t> getDimension(List indices, List marginals)
 void checkSeed(NumericVector seed, const std::vector<int64_t>& impliedDim)
 {
   const Dimension& seedDim = seed.attr("dim");
+  if (static_cast<size_t>(seedDim.size()) != impliedDim.size())
+    throw std::runtime_error("mismatch between number of seed dimensions and that implied by marginals");
   for (size_t i = 0; i < static_cast<size_t>(seedDim.size()); ++i)
   {
     if (seedDim[i] != impliedDim[i])
-- 
2.43.0


From 0dfee446467b02adb9b2f8c940e77f65040681ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:35 +0000
Subject: [PATCH 18/19] fix: 1-d integerise (python) accepted values with a
 negative sum

---
 src/module.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/module.cpp b/src/module.cpp
index 264fa07..fe8fb4c 100644
--- a/src/module.cpp
+++ b/src/module.cpp
@@ -121,6 +121,10 @@ py::tuple integerise1d(input_array_t<double> frac_a, int pop)
   // convert py::array_t to vector and normalise it to get probabilities
   std::vector<double> prob = toVector(frac_a);
   double sum = std::accumulate(prob.begin(), prob.end(), 0.0);
+  if (!(sum > 0.0)) // negative, zero or NaN
+  {
+    throw py::value_error("sum of values must be positive");
+  }
   for (double& p: prob) {
     p /= sum;
   }
-- 
2.43.0


From d49f36cd5352944926868f59b0c49b5f0c3c77aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:14 +0000
Subject: [PATCH 19/19] fix: ipf (and qisi) never returned if one marginal
 covers all the dimensions

---
 src/Index.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Index.cpp b/src/Index.cpp
index e7e72be..e788392 100644
--- a/src/Index.cpp
+++ b/src/Index.cpp
@@ -105,6 +105,9 @@ MappedIndex::MappedIndex(const Index& idx, const std::vector<int64_t>& mappedDim
 
 const MappedIndex& MappedIndex::operator++()
 {
+  // with no dimensions there is only one position
+  if (m_dim == 0)
+    m_atEnd = true;
   for (int64_t i = m_dim - 1; i != -1ll; --i)
   {
     ++*m_mappedIndex[i];
-- 
2.43.0

