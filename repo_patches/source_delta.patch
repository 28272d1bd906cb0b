From bf710d7a048a1fc9e0a7371c44f335bbe7eb1be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:32:11 +0000
Subject: [PATCH 01/49] fix: transvection sequence samplers start from an empty
 sequence

Sampling into a non empty sequence (e.g. TsAffineMap::random called twice)
appended to, or left behind, the transvections of the previous sequence.
---
 lib/hnco/maps/transvection.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/hnco/maps/transvection.cc b/lib/hnco/maps/transvection.cc
index 5ec0d9a..4258825 100644
--- a/lib/hnco/maps/transvection.cc
+++ b/lib/hnco/maps/transvection.cc
@@ -184,6 +184,7 @@ void hnco::map::ts_random_commuting(transvection_sequence_t& ts, int n, int t)
 {
   assert(n > 1);
 
+  ts.clear();
   if (t <= 0)
     return;
 
@@ -246,6 +247,7 @@ void hnco::map::ts_random_unique_source(transvection_sequence_t& ts, int n, int
 {
   assert(n > 1);
 
+  ts.clear();
   if (t <= 0)
     return;
 
@@ -279,6 +281,7 @@ void hnco::map::ts_random_unique_destination(transvection_sequence_t& ts, int n,
 {
   assert(n > 1);
 
+  ts.clear();
   if (t <= 0)
     return;
 
@@ -312,6 +315,7 @@ void hnco::map::ts_random_disjoint(transvection_sequence_t& ts, int n, int t)
 {
   assert(n > 1);
 
+  ts.clear();
   if (t <= 0)
     return;
 
@@ -342,6 +346,7 @@ void hnco::map::ts_random_non_commuting(transvection_sequence_t& ts, int n, int
 {
   assert(n > 1);
 
+  ts.clear();
   if (t <= 0)
     return;
 
-- 
2.43.0


From ca39f77a8b72c417ddf19a72d3cd232205596e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:32:11 +0000
Subject: [PATCH 02/49] fix: bm_solve_upper_triangular reports singular systems

It returned true (or aborted on an assertion) for an upper triangular
matrix with a zero on its diagonal.
---
 lib/hnco/bit-matrix.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/hnco/bit-matrix.cc b/lib/hnco/bit-matrix.cc
index 2f5155f..169f6bc 100644
--- a/lib/hnco/bit-matrix.cc
+++ b/lib/hnco/bit-matrix.cc
@@ -302,6 +302,8 @@ bool hnco::bm_solve_upper_triangular(bit_matrix_t& A, bit_vector_t& b)
 
   for (int k = 0; k < nrows; k++) {
     int i = nrows - 1 - k;
+    if (!A[i][i])
+      return false;
     for (int j = 0; j < i; j++)
       if (A[j][i]) {
         bm_add_rows(A, j, i);
-- 
2.43.0


From 3882b742cb799597a01eb6b866feef814a52bc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:32:55 +0000
Subject: [PATCH 03/49] fix: MaxSat loader rejects malformed files

A blank clause line read an uninitialized variable, the literal INT_MIN
passed the range check, a file without p line was accepted as an empty
instance, and an unreadable stream (e.g. a directory) looped forever.
---
 lib/hnco/functions/collection/max-sat.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/hnco/functions/collection/max-sat.cc b/lib/hnco/functions/collection/max-sat.cc
index 7db546a..ea6914e 100644
--- a/lib/hnco/functions/collection/max-sat.cc
+++ b/lib/hnco/functions/collection/max-sat.cc
@@ -66,7 +66,7 @@ AbstractMaxSat::load_(std::istream& stream)
   bool spec = false;
   int num_clauses = 0;
 
-  while (!stream.eof()) {
+  while (stream.good()) {
     std::string line;
     getline(stream, line);
 
@@ -115,7 +115,7 @@ AbstractMaxSat::load_(std::istream& stream)
         throw std::runtime_error("AbstractMaxSat::load: No p line");
 
       std::istringstream iss(line);
-      int n;
+      int n = -1;
       std::vector<int> clause;
 
       while (has_next_variable(iss)) {
@@ -127,8 +127,7 @@ AbstractMaxSat::load_(std::istream& stream)
         if (n == 0)
           break;
 
-        int v = (n > 0) ? n : -n;
-        if (v > _num_variables)
+        if (n > _num_variables || n < -_num_variables)
           throw std::runtime_error("AbstractMaxSat::load: Variable index overflow");
 
         clause.push_back(n);
@@ -142,6 +141,9 @@ AbstractMaxSat::load_(std::istream& stream)
     }
   }
 
+  if (!spec)
+    throw std::runtime_error("AbstractMaxSat::load: No p line");
+
   if (int(_expression.size()) != num_clauses)
     throw std::runtime_error("AbstractMaxSat::load: Incoherent number of clauses");
 
-- 
2.43.0


From c8df1d8fcce9a1c9b10900844fc0f2cca928bf95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:32:55 +0000
Subject: [PATCH 04/49] fix: Qubo loader rejects files without p line

A file without p line was accepted as an empty instance and an unreadable
stream (e.g. a directory) looped forever.
---
 lib/hnco/functions/collection/qubo.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/hnco/functions/collection/qubo.cc b/lib/hnco/functions/collection/qubo.cc
index 42bd5e4..65cdb62 100644
--- a/lib/hnco/functions/collection/qubo.cc
+++ b/lib/hnco/functions/collection/qubo.cc
@@ -44,7 +44,7 @@ Qubo::load(std::istream& stream)
   int count_diagonal_elements = 0;
   int count_other_elements = 0;
 
-  while (!stream.eof()) {
+  while (stream.good()) {
     std::string line;
     getline(stream, line);
 
@@ -129,6 +129,8 @@ Qubo::load(std::istream& stream)
     }
   }
 
+  if (!spec)
+    throw std::runtime_error("Qubo::load: No p line");
   if (count_other_elements != num_other_elements)
     throw std::runtime_error("Qubo::load: Not enough off diagonal elements");
   if (count_diagonal_elements != num_diagonal_elements)
-- 
2.43.0


From 353561e93fc657d902ec4f299591d2c76a0cc031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:32:55 +0000
Subject: [PATCH 05/49] fix: Tsp validates instance files and keeps its number
 of cities

A file without DIMENSION or NODE_COORD_SECTION, or with a city index out of
range, aborted or was silently accepted, and the number of cities was left
uninitialized by generate().
---
 lib/hnco/functions/collection/tsp.cc | 13 +++++++++----
 lib/hnco/functions/collection/tsp.hh |  3 ++-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/lib/hnco/functions/collection/tsp.cc b/lib/hnco/functions/collection/tsp.cc
index a76c45e..f6c462c 100644
--- a/lib/hnco/functions/collection/tsp.cc
+++ b/lib/hnco/functions/collection/tsp.cc
@@ -40,7 +40,7 @@ Tsp::load_(std::istream& stream)
   std::string line;
   std::string key, value;
 
-  while(!stream.eof()) {
+  while(stream.good()) {
     getline(stream, line);
     if (line.empty())
       continue;
@@ -75,15 +75,17 @@ Tsp::load_(std::istream& stream)
     } else if (key == "NODE_COORD_SECTION") {
       load_coordinates(stream);
       compute_distances();
-      break;
+      return;
     }
   }
+  throw std::runtime_error("Tsp::load_: Missing NODE_COORD_SECTION");
 }
 
 void
 Tsp::load_coordinates(std::istream& stream)
 {
-  assert(_num_cities > 0);
+  if (_num_cities <= 0)
+    throw std::runtime_error("Tsp::load_coordinates: Missing or bad DIMENSION");
   _xs.resize(_num_cities);
   _ys.resize(_num_cities);
   while (!stream.eof()) {
@@ -91,9 +93,12 @@ Tsp::load_coordinates(std::istream& stream)
     stream >> index;
     if (stream.fail())
       break;
-    assert((index >= 1) && (index <= _num_cities));
+    if (index < 1 || index > _num_cities)
+      throw std::runtime_error("Tsp::load_coordinates: City index out of range: " + std::to_string(index));
     stream >> _xs[index - 1];
     stream >> _ys[index - 1];
+    if (stream.fail())
+      throw std::runtime_error("Tsp::load_coordinates: Bad coordinates for city " + std::to_string(index));
   }
 }
 
diff --git a/lib/hnco/functions/collection/tsp.hh b/lib/hnco/functions/collection/tsp.hh
index 60df31c..0e0294b 100644
--- a/lib/hnco/functions/collection/tsp.hh
+++ b/lib/hnco/functions/collection/tsp.hh
@@ -45,7 +45,7 @@ private:
   /// Comment
   std::string _comment;
   /// Number of cities
-  int _num_cities;
+  int _num_cities = 0;
   /// Abscissas of cities
   std::vector<float> _xs;
   /// Ordinates of cities
@@ -97,6 +97,7 @@ public:
   template<class Generator>
   void generate(int n, Generator generator) {
     assert(n > 0);
+    _num_cities = n;
     _distances.resize(n);
     for (int i = 0; i < n; i++)
       _distances[i].resize(n);
-- 
2.43.0


From 6404f69aadf049d8d2ee9bd638eae3c6cc09cff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:32:55 +0000
Subject: [PATCH 06/49] fix: Sudoku::random yields an instance which can be
 evaluated

The number of variables was left uninitialized and the clues were not
copied to the candidate board.
---
 lib/hnco/functions/collection/sudoku.cc | 3 +++
 lib/hnco/functions/collection/sudoku.hh | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/hnco/functions/collection/sudoku.cc b/lib/hnco/functions/collection/sudoku.cc
index e6ca2fb..f9247cc 100644
--- a/lib/hnco/functions/collection/sudoku.cc
+++ b/lib/hnco/functions/collection/sudoku.cc
@@ -112,6 +112,7 @@ Sudoku::random(int c)
       for (int i = 0; i < 3; i++)
         for (int j = 0; j < 3; j++)
           _problem_instance[3 * bi + i][3 * bj + j] = _problem_instance[3 * (bi - 1) + i][3 * bj + (j + 1) % 3];
+  _num_variables = c;
   // Digits to erase
   bit_vector_t erase(81);
   bv_random(erase, c);
@@ -119,6 +120,8 @@ Sudoku::random(int c)
     for (int j = 0; j < 9; j++) {
       if (erase[i + 9 * j])
         _problem_instance[i][j] = '.';
+      else
+        _candidate[i][j] = _problem_instance[i][j] - '0';
     }
   }
 }
diff --git a/lib/hnco/functions/collection/sudoku.hh b/lib/hnco/functions/collection/sudoku.hh
index dbcc8e0..37d7410 100644
--- a/lib/hnco/functions/collection/sudoku.hh
+++ b/lib/hnco/functions/collection/sudoku.hh
@@ -53,7 +53,7 @@ private:
   std::vector<int> _counts;
 
   /// Number of variables
-  int _num_variables;
+  int _num_variables = 0;
 
   /// Write variables
   void write_variables(const std::vector<domain_type>& x);
-- 
2.43.0


From ac3d0e4558d0300c352e5515be339dacee128e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:33:15 +0000
Subject: [PATCH 07/49] fix: save() reports write failures

Errors which occur when the stream is flushed (e.g. no space left on device)
went unnoticed and left a truncated instance file.
---
 lib/hnco/functions/collection/max-sat.hh | 3 +++
 lib/hnco/functions/collection/sudoku.hh  | 3 +++
 lib/hnco/serialization.hh                | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/lib/hnco/functions/collection/max-sat.hh b/lib/hnco/functions/collection/max-sat.hh
index 63c7f5e..7304e3c 100644
--- a/lib/hnco/functions/collection/max-sat.hh
+++ b/lib/hnco/functions/collection/max-sat.hh
@@ -102,6 +102,9 @@ public:
     if (!stream.good())
       throw std::runtime_error("LinearFunction::save: Cannot open " + path);
     save_(stream);
+    stream.close();
+    if (stream.fail())
+      throw std::runtime_error("AbstractMaxSat::save: Cannot write " + path);
   }
 
   ///@}
diff --git a/lib/hnco/functions/collection/sudoku.hh b/lib/hnco/functions/collection/sudoku.hh
index 37d7410..3bfeb03 100644
--- a/lib/hnco/functions/collection/sudoku.hh
+++ b/lib/hnco/functions/collection/sudoku.hh
@@ -114,6 +114,9 @@ public:
     if (!stream.good())
       throw std::runtime_error("Sudoku::save: Cannot open " + path);
     save_(stream);
+    stream.close();
+    if (stream.fail())
+      throw std::runtime_error("Sudoku::save: Cannot write " + path);
   }
 
   ///@}
diff --git a/lib/hnco/serialization.hh b/lib/hnco/serialization.hh
index db743bf..67b38f2 100644
--- a/lib/hnco/serialization.hh
+++ b/lib/hnco/serialization.hh
@@ -73,6 +73,9 @@ void save_to_archive(const T& object, std::string path, std::string name)
   catch (boost::archive::archive_exception& e) {
     throw std::runtime_error(name + "::save: " + std::string(e.what()));
   }
+  stream.close();
+  if (stream.fail())
+    throw std::runtime_error(name + "::save: Cannot write " + path);
 }
 
 ///@}
-- 
2.43.0


From ceea4b13b16ca8ea9f53e9d4cab99080d750766d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:33:47 +0000
Subject: [PATCH 08/49] fix: exact size of dyadic integer representations

The size was computed with floating point logarithms which gives one bit too
many or too few for large intervals (the upper bound could not be reached),
overflowed for [0..max], and aborted for a set with a single value.
---
 lib/hnco/representations/integer.hh | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/hnco/representations/integer.hh b/lib/hnco/representations/integer.hh
index 3fa243a..b472f28 100644
--- a/lib/hnco/representations/integer.hh
+++ b/lib/hnco/representations/integer.hh
@@ -61,7 +61,7 @@ bool difference_is_safe(T a, T b)
   assert(a < 0);
   assert(b >= 0);
 
-  if (-a <= std::numeric_limits<T>::max() - b)
+  if (b <= std::numeric_limits<T>::max() + a)
     return true;
 
   return false;
@@ -86,10 +86,13 @@ class DyadicIntegerRepresentation {
 
   /// Set the exact size for a given interval
   void set_exact_size(T lower_bound, T upper_bound) {
-    assert(lower_bound < upper_bound);
-    assert(difference_is_safe(lower_bound, upper_bound));
+    assert(lower_bound <= upper_bound);
+    assert(lower_bound == upper_bound || difference_is_safe(lower_bound, upper_bound));
 
-    _exact_size = std::ceil(std::log(upper_bound - lower_bound + 1) / std::log(2));
+    // At least one bit, even if the interval is a singleton
+    _exact_size = 1;
+    for (T range = (upper_bound - lower_bound) / 2; range > 0; range /= 2)
+      _exact_size++;
     assert(_exact_size > 0);
     assert(_exact_size < int(sizeof(T) * 8));
   }
-- 
2.43.0


From 123b05a10b4cb513352f39df6b09dcab7da290c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:33:48 +0000
Subject: [PATCH 09/49] fix: NkLandscape::random_structure resets previous
 structure

resize(n, row) keeps existing rows, hence the previous K, when an instance is
generated twice.
---
 lib/hnco/functions/collection/nk-landscape.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/hnco/functions/collection/nk-landscape.cc b/lib/hnco/functions/collection/nk-landscape.cc
index b94b633..487e8ae 100644
--- a/lib/hnco/functions/collection/nk-landscape.cc
+++ b/lib/hnco/functions/collection/nk-landscape.cc
@@ -36,8 +36,8 @@ NkLandscape::random_structure(int n, int k)
   assert(n > 0);
   assert(k > 0);
 
-  _neighbors.resize(n, std::vector<int>(k + 1));
-  _partial_functions.resize(n, std::vector<double>(1 << (k + 1)));
+  _neighbors.assign(n, std::vector<int>(k + 1));
+  _partial_functions.assign(n, std::vector<double>(1 << (k + 1)));
 
   size_t length = _partial_functions.size();
 
-- 
2.43.0


From 49ec6bc86d9b112575b83b144e24dbd89d465296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:33:48 +0000
Subject: [PATCH 10/49] fix: Partition sums large numbers without overflow

---
 lib/hnco/functions/collection/partition.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/hnco/functions/collection/partition.cc b/lib/hnco/functions/collection/partition.cc
index 92eaea6..953c26c 100644
--- a/lib/hnco/functions/collection/partition.cc
+++ b/lib/hnco/functions/collection/partition.cc
@@ -33,8 +33,8 @@ Partition::evaluate(const bit_vector_t& s)
 {
   assert(s.size() == _numbers.size());
 
-  int sum0 = 0;
-  int sum1 = 0;
+  long long sum0 = 0;
+  long long sum1 = 0;
   for (size_t i = 0; i < s.size(); i++)
     if (s[i])
       sum1 += _numbers[i];
-- 
2.43.0


From 439fa91613de016f7c767dc5ccd620d00b8c287c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:33:48 +0000
Subject: [PATCH 11/49] fix: OppositeFunction provides incremental evaluation
 only if its function does

---
 lib/hnco/functions/modifiers/modifier.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/hnco/functions/modifiers/modifier.hh b/lib/hnco/functions/modifiers/modifier.hh
index 5ae20fe..c3fa693 100644
--- a/lib/hnco/functions/modifiers/modifier.hh
+++ b/lib/hnco/functions/modifiers/modifier.hh
@@ -63,9 +63,9 @@ public:
   int get_bv_size() const override { return _function->get_bv_size(); }
   /**
    * Check whether the function provides incremental evaluation.
-   * @return true
+   * @return true if the decorated function does
    */
-  bool provides_incremental_evaluation() const override { return true; }
+  bool provides_incremental_evaluation() const override { return _function->provides_incremental_evaluation(); }
   ///@}
 
   /**
-- 
2.43.0


From 0a1c437a0c2a3af9a1746539f8d19311020d0918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:34:03 +0000
Subject: [PATCH 12/49] fix: float representation has at least one bit

A precision greater than or equal to the length of the interval aborted.
---
 lib/hnco/representations/float.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/hnco/representations/float.hh b/lib/hnco/representations/float.hh
index a55bd0f..70f100a 100644
--- a/lib/hnco/representations/float.hh
+++ b/lib/hnco/representations/float.hh
@@ -23,6 +23,7 @@
 
 #include <assert.h>
 
+#include <algorithm>            // std::max
 #include <vector>
 #include <iostream>             // std::ostream
 #include <cmath>                // std::log, std::ceil
@@ -113,7 +114,7 @@ public:
     assert(precision > 0);
 
     int size = std::ceil(std::log(_length / precision) / std::log(2));
-    compute_lengths(size);
+    compute_lengths(std::max(size, 1));
   }
 
   /// Size of the representation
-- 
2.43.0


From 21b917af46b1ffab670bf29731d57b9fb7688d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:34:22 +0000
Subject: [PATCH 13/49] fix: StandardBitMutation honors allow_no_mutation with
 Bernoulli process

With a large mutation rate, at least one bit was always flipped even if no
mutation was allowed.
---
 lib/hnco/neighborhoods/neighborhood.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/hnco/neighborhoods/neighborhood.cc b/lib/hnco/neighborhoods/neighborhood.cc
index 05620e2..2d77e42 100644
--- a/lib/hnco/neighborhoods/neighborhood.cc
+++ b/lib/hnco/neighborhoods/neighborhood.cc
@@ -93,7 +93,7 @@ StandardBitMutation::bernoulli_process()
         _flipped_bits.push_back(i);
         again = false;
       }
-  } while (again);
+  } while (again && !_allow_no_mutation);
 }
 
 
-- 
2.43.0


From 037ff8c1c646af438df0e9b1bb3a4e6656ba0843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:34:22 +0000
Subject: [PATCH 14/49] fix: (1+(lambda,lambda)) GA does not read past its
 offspring population

When all offsprings have the same value the loop looked up the value after
the last one.
---
 .../one-plus-lambda-comma-lambda-ga.cc                        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/hnco/algorithms/evolutionary-algorithms/one-plus-lambda-comma-lambda-ga.cc b/lib/hnco/algorithms/evolutionary-algorithms/one-plus-lambda-comma-lambda-ga.cc
index 8504b8f..b163367 100644
--- a/lib/hnco/algorithms/evolutionary-algorithms/one-plus-lambda-comma-lambda-ga.cc
+++ b/lib/hnco/algorithms/evolutionary-algorithms/one-plus-lambda-comma-lambda-ga.cc
@@ -51,7 +51,7 @@ OnePlusLambdaCommaLambdaGa::iterate()
 
   double value = _offsprings.get_best_value(0);
   int n = 0;
-  while (_offsprings.get_best_value(n) == value && n < _offsprings.get_size())
+  while (n < _offsprings.get_size() && _offsprings.get_best_value(n) == value)
     n++;
   assert(n > 0);
   std::uniform_int_distribution<int> choose_parent(0, n - 1);
@@ -67,7 +67,7 @@ OnePlusLambdaCommaLambdaGa::iterate()
   value = _offsprings.get_best_value(0);
   if (value >= _solution.second) {
     n = 0;
-    while (_offsprings.get_best_value(n) == value && n < _offsprings.get_size())
+    while (n < _offsprings.get_size() && _offsprings.get_best_value(n) == value)
       n++;
     assert(n > 0);
     choose_parent = std::uniform_int_distribution<int>(0, n - 1);
-- 
2.43.0


From 557f440ab9866a661d1bc6b1113159b588458c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:34:22 +0000
Subject: [PATCH 15/49] fix: compact GA evaluates each candidate once

The assertion evaluated both candidates a second time, hence consumed twice
the evaluation budget and aborted on noisy functions.
---
 lib/hnco/algorithms/probability-vector/compact-ga.cc | 2 --
 1 file changed, 2 deletions(-)

diff --git a/lib/hnco/algorithms/probability-vector/compact-ga.cc b/lib/hnco/algorithms/probability-vector/compact-ga.cc
index d6bb120..fb70d12 100644
--- a/lib/hnco/algorithms/probability-vector/compact-ga.cc
+++ b/lib/hnco/algorithms/probability-vector/compact-ga.cc
@@ -55,8 +55,6 @@ CompactGa::iterate()
   } else
     update_solution(_candidates[0], v0);
 
-  assert(_function->evaluate(_candidates[best]) >= _function->evaluate(_candidates[worst]));
-
   // Update probability vector
   for (size_t i = 0; i < _pv.size(); i++)
     if (_candidates[best][i] != _candidates[worst][i]) {
-- 
2.43.0


From fd4664d7b0ddd3fde220e990d5d4597822b600df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:34:22 +0000
Subject: [PATCH 16/49] fix: NpsPbil uses the worst individuals for negative
 selection

The mean of the worst individuals was computed from the best ones, hence the
probability vector never moved.
---
 lib/hnco/algorithms/probability-vector/nps-pbil.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/hnco/algorithms/probability-vector/nps-pbil.cc b/lib/hnco/algorithms/probability-vector/nps-pbil.cc
index c6a752b..d648752 100644
--- a/lib/hnco/algorithms/probability-vector/nps-pbil.cc
+++ b/lib/hnco/algorithms/probability-vector/nps-pbil.cc
@@ -58,7 +58,7 @@ NpsPbil::iterate()
 
   pv_init(_mean_worst);
   for (int i = 0; i < _selection_size; i++)
-    pv_add(_mean_worst, _population.get_best_bv(i));
+    pv_add(_mean_worst, _population.get_worst_bv(i));
   pv_average(_mean_worst, _selection_size);
 
   pv_update(_pv, _mean_best, _mean_worst, _learning_rate);
-- 
2.43.0


From 1920b4b98d13ce7a8ff810b424ba0538c5660e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:34:22 +0000
Subject: [PATCH 17/49] fix: it-EA does not read past its population

It aborted when the selection size is equal to the population size.
---
 lib/hnco/algorithms/evolutionary-algorithms/it-ea.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/hnco/algorithms/evolutionary-algorithms/it-ea.cc b/lib/hnco/algorithms/evolutionary-algorithms/it-ea.cc
index 136647d..b97024a 100644
--- a/lib/hnco/algorithms/evolutionary-algorithms/it-ea.cc
+++ b/lib/hnco/algorithms/evolutionary-algorithms/it-ea.cc
@@ -205,7 +205,9 @@ InformationTheoreticEa::iterate()
 
   // Determinate equivalence class.
   int index = _selection_size - 1;
-  bool equivalent_individuals = (_population.get_best_value(index) == _population.get_best_value(index + 1));
+  bool equivalent_individuals =
+    index + 1 < _population.get_size() &&
+    _population.get_best_value(index) == _population.get_best_value(index + 1);
   std::pair<int, int> range;    // Equivalence class of index
   double c = 0;
   if (equivalent_individuals) {
-- 
2.43.0


From da4144ccd97ee5348cf796b062171da26142c14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:34:22 +0000
Subject: [PATCH 18/49] fix: RamUmda2 learns from selected individuals in the
 solution space

The probability vector was computed from the first individuals regardless of
their values.
---
 lib/hnco/algorithms/probability-vector/ram-umda.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/hnco/algorithms/probability-vector/ram-umda.cc b/lib/hnco/algorithms/probability-vector/ram-umda.cc
index b634e26..2811c7c 100644
--- a/lib/hnco/algorithms/probability-vector/ram-umda.cc
+++ b/lib/hnco/algorithms/probability-vector/ram-umda.cc
@@ -144,7 +144,7 @@ RamUmda2::iterate()
   // Compute probability vector in the solution space
   pv_init(_pv);
   for (int i = 0; i < _selection_size; i++)
-    pv_add(_pv, _population_x.bvs[i]);
+    pv_add(_pv, _population_x.get_best_bv(i));
   pv_average(_pv, _selection_size);
   pv_bound(_pv, _lower_bound, _upper_bound);
 
-- 
2.43.0


From 438b77391c358e7ce1378ae4824f395ace7e28b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:36:28 +0000
Subject: [PATCH 19/49] fix: RandomWalk starts from the value of its starting
 point

With incremental evaluation, the value of the starting point was left
uninitialized.
---
 lib/hnco/algorithms/local-search/random-walk.cc | 8 ++++++++
 lib/hnco/algorithms/local-search/random-walk.hh | 3 +++
 2 files changed, 11 insertions(+)

diff --git a/lib/hnco/algorithms/local-search/random-walk.cc b/lib/hnco/algorithms/local-search/random-walk.cc
index 177c484..c13709c 100644
--- a/lib/hnco/algorithms/local-search/random-walk.cc
+++ b/lib/hnco/algorithms/local-search/random-walk.cc
@@ -29,6 +29,14 @@ using namespace hnco::algorithm;
 using namespace hnco;
 
 
+void
+RandomWalk::init()
+{
+  LocalSearchAlgorithm<neighborhood::Neighborhood>::init();
+  _value = _solution.second;
+}
+
+
 void
 RandomWalk::iterate()
 {
diff --git a/lib/hnco/algorithms/local-search/random-walk.hh b/lib/hnco/algorithms/local-search/random-walk.hh
index a802912..65a6c20 100644
--- a/lib/hnco/algorithms/local-search/random-walk.hh
+++ b/lib/hnco/algorithms/local-search/random-walk.hh
@@ -59,6 +59,9 @@ protected:
    */
   ///@{
 
+  /// Initialize
+  void init() override;
+
   /// Single iteration
   void iterate() override;
 
-- 
2.43.0


From 8a21291679b54a619e0d93c345058605b540271e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:36:28 +0000
Subject: [PATCH 20/49] fix: random_solution keeps bit vector and value
 consistent

If the evaluation throws (e.g. LastEvaluation), the previous solution is left
untouched instead of being a new bit vector with an old value.
---
 lib/hnco/algorithms/algorithm.cc                     | 5 +++--
 lib/hnco/algorithms/evolutionary-algorithms/it-ea.cc | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/hnco/algorithms/algorithm.cc b/lib/hnco/algorithms/algorithm.cc
index d5c8b3f..a4d5326 100644
--- a/lib/hnco/algorithms/algorithm.cc
+++ b/lib/hnco/algorithms/algorithm.cc
@@ -30,8 +30,9 @@ Algorithm::random_solution()
 {
   assert(_function);
 
-  bv_random(_solution.first);
-  _solution.second = _function->evaluate(_solution.first);
+  bit_vector_t bv(get_bv_size());
+  bv_random(bv);
+  set_solution(bv);
 }
 
 void
diff --git a/lib/hnco/algorithms/evolutionary-algorithms/it-ea.cc b/lib/hnco/algorithms/evolutionary-algorithms/it-ea.cc
index b97024a..c727f78 100644
--- a/lib/hnco/algorithms/evolutionary-algorithms/it-ea.cc
+++ b/lib/hnco/algorithms/evolutionary-algorithms/it-ea.cc
@@ -34,8 +34,9 @@ void
 InformationTheoreticEa::init()
 {
   if (_replacement == Replacement::no_replacement) {
-    bv_random(_solution.first, _initial_hamming_weight);
-    _solution.second = _function->evaluate(_solution.first);
+    bit_vector_t bv(get_bv_size());
+    bv_random(bv, _initial_hamming_weight);
+    set_solution(bv);
   } else {
     random_solution();
   }
-- 
2.43.0


From a0087a6a64f8a740eb1fac5df208f37340dd355f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:36:28 +0000
Subject: [PATCH 21/49] fix: Restart takes into account interrupted runs

When the evaluation budget is exhausted during a run, its solution was lost.
In particular, if this is the first run, the solution was the all-zero bit
vector and its value was 0.
---
 lib/hnco/algorithms/decorators/restart.cc | 21 +++++++++++++++++----
 lib/hnco/algorithms/decorators/restart.hh | 23 ++++++++++++++++-------
 2 files changed, 33 insertions(+), 11 deletions(-)

diff --git a/lib/hnco/algorithms/decorators/restart.cc b/lib/hnco/algorithms/decorators/restart.cc
index 17a98ca..14efaa7 100644
--- a/lib/hnco/algorithms/decorators/restart.cc
+++ b/lib/hnco/algorithms/decorators/restart.cc
@@ -26,27 +26,40 @@ using namespace hnco::exception;
 
 
 void
-Restart::iterate(bool first_iteration)
+Restart::iterate()
 {
+  _pending = true;
   _algorithm->maximize(_functions);
+  finalize();
+}
+
+void
+Restart::finalize()
+{
+  if (!_pending)
+    return;
+  _pending = false;
   _algorithm->finalize();
-  if (first_iteration)
+  if (_first_iteration)
     _solution = _algorithm->get_solution();
   else
     update_solution(_algorithm->get_solution());
+  _first_iteration = false;
 }
 
 void
 Restart::maximize(const std::vector<function::Function *>& functions)
 {
   set_functions(functions);
+  _first_iteration = true;
+  _pending = false;
   if (_num_iterations > 0) {
     for (int i = 0; i < _num_iterations; i++) {
-      iterate(i == 0);
+      iterate();
     }
   } else {
     for (int i = 0;; i++) {
-      iterate(i == 0);
+      iterate();
     }
   }
 }
diff --git a/lib/hnco/algorithms/decorators/restart.hh b/lib/hnco/algorithms/decorators/restart.hh
index 842a0d6..4a0d5b9 100644
--- a/lib/hnco/algorithms/decorators/restart.hh
+++ b/lib/hnco/algorithms/decorators/restart.hh
@@ -40,13 +40,14 @@ class Restart: public Decorator {
   /// Number of iterations
   int _num_iterations = 0;
 
-  /**
-   * Iterate.
-   *
-   * @param first_iteration Boolean which is true if this is the first
-   * iteration.
-   */
-  void iterate(bool first_iteration);
+  /// First iteration not yet completed
+  bool _first_iteration = true;
+
+  /// An iteration has begun and its solution is not yet taken into account
+  bool _pending = false;
+
+  /// Iterate
+  void iterate();
 
 public:
 
@@ -63,6 +64,14 @@ public:
   /// Maximize
   void maximize(const std::vector<function::Function *>& functions) override;
 
+  /**
+   * Finalize.
+   *
+   * Takes into account the solution of the last run, which might have
+   * been interrupted by an exception.
+   */
+  void finalize() override;
+
   ///@}
 
   /**
-- 
2.43.0


From 7268b8fb0f3ed47771857844de04a267aa3acff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:36:28 +0000
Subject: [PATCH 22/49] fix: controllers record the flipped bit vector in
 incremental evaluation

StopOnTarget and ProgressTracker recorded the bit vector before flipping its
bits, together with the value of the flipped one.
---
 lib/hnco/functions/controllers/controller.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/hnco/functions/controllers/controller.cc b/lib/hnco/functions/controllers/controller.cc
index 5b34e0a..c349689 100644
--- a/lib/hnco/functions/controllers/controller.cc
+++ b/lib/hnco/functions/controllers/controller.cc
@@ -45,6 +45,7 @@ StopOnTarget::evaluate_incrementally(const bit_vector_t& bv, double value, const
   double result = _function->evaluate_incrementally(bv, value, flipped_bits);
   if (result >= _target) {
     _trigger.first = bv;
+    bv_flip(_trigger.first, flipped_bits);
     _trigger.second = result;
     throw TargetReached();
   }
@@ -128,7 +129,13 @@ double
 ProgressTracker::evaluate_incrementally(const bit_vector_t& bv, double value, const hnco::sparse_bit_vector_t& flipped_bits)
 {
   double result = CallCounter::evaluate_incrementally(bv, value, flipped_bits);
-  update_last_improvement(bv, result);
+  if (_record_bit_vector) {
+    bit_vector_t flipped(bv);
+    bv_flip(flipped, flipped_bits);
+    update_last_improvement(flipped, result);
+  } else {
+    update_last_improvement(bv, result);
+  }
   return result;
 }
 
-- 
2.43.0


From b42896017684172a758befd2886140ff8a037e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:36:28 +0000
Subject: [PATCH 23/49] fix: synchronous Gibbs sampling of triangular moments
 stays in bounds

Rows of triangular moments have i entries only.
---
 lib/hnco/algorithms/walsh-moment/gibbs-sampler.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/hnco/algorithms/walsh-moment/gibbs-sampler.cc b/lib/hnco/algorithms/walsh-moment/gibbs-sampler.cc
index 0c81e00..84df117 100644
--- a/lib/hnco/algorithms/walsh-moment/gibbs-sampler.cc
+++ b/lib/hnco/algorithms/walsh-moment/gibbs-sampler.cc
@@ -73,10 +73,11 @@ TriangularMomentGibbsSampler::update_sync()
     for (size_t j = 0; j < _state.size(); j++) {
       if (j == i)
         continue;
+      const double moment = j < i ? row[j] : _model_parameters.second_moment[j][i];
       if (_state[j])
-        delta -= row[j];
+        delta -= moment;
       else
-        delta += row[j];
+        delta += moment;
     }
     delta *= -2;
 
-- 
2.43.0


From b422e9335c8e83c6ce9377130af4a48e62809683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:36:28 +0000
Subject: [PATCH 24/49] fix: infinite norm of moments takes absolute values

---
 lib/hnco/algorithms/walsh-moment/walsh-moment.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/hnco/algorithms/walsh-moment/walsh-moment.cc b/lib/hnco/algorithms/walsh-moment/walsh-moment.cc
index dba6f21..6f2d9ae 100644
--- a/lib/hnco/algorithms/walsh-moment/walsh-moment.cc
+++ b/lib/hnco/algorithms/walsh-moment/walsh-moment.cc
@@ -208,10 +208,10 @@ TriangularMoment::norm_infinite() const
 {
   double result = 0;
   for (size_t i = 0; i < first_moment.size(); i++) {
-    result = std::max(result, first_moment[i]);
+    result = std::max(result, std::fabs(first_moment[i]));
     const std::vector<double>& row = second_moment[i];
     for (size_t j = 0; j < i; j++)
-      result = std::max(result, row[j]);
+      result = std::max(result, std::fabs(row[j]));
   }
   return result;
 }
@@ -424,10 +424,10 @@ FullMoment::norm_infinite() const
 {
   double result = 0;
   for (size_t i = 0; i < first_moment.size(); i++) {
-    result = std::max(result, first_moment[i]);
+    result = std::max(result, std::fabs(first_moment[i]));
     const std::vector<double>& row = second_moment[i];
     for (size_t j = 0; j < i; j++)
-      result = std::max(result, row[j]);
+      result = std::max(result, std::fabs(row[j]));
   }
   return result;
 }
-- 
2.43.0


From a647f00a98f7308e980c7748b2f281a5ba4c654f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:36:28 +0000
Subject: [PATCH 25/49] fix: tournament selection returns the winner of the
 last tournament

The permutation was shuffled before being used to look up the winner of the
last tournament in a round.
---
 lib/hnco/multiobjective/algorithms/random-selection.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/hnco/multiobjective/algorithms/random-selection.hh b/lib/hnco/multiobjective/algorithms/random-selection.hh
index bfb31d2..7eaaecb 100644
--- a/lib/hnco/multiobjective/algorithms/random-selection.hh
+++ b/lib/hnco/multiobjective/algorithms/random-selection.hh
@@ -95,12 +95,12 @@ public:
   const bit_vector_t& select() {
     assert(is_in_range(_stop, 2, _bvs.size() + 1));
 
-    int winner = _start;
-    T best_value = _values[_permutation[_start]];
+    int winner = _permutation[_start];
+    T best_value = _values[winner];
     for (int challenger = _start + 1; challenger < _stop; challenger++) {
       T value = _values[_permutation[challenger]];
       if (_compare(value, best_value)) {
-        winner = challenger;
+        winner = _permutation[challenger];
         best_value = value;
       }
     }
@@ -110,7 +110,7 @@ public:
     if (_stop > int(_bvs.size()))
       init();
 
-    return _bvs[_permutation[winner]];
+    return _bvs[winner];
   }
 
   /** @name Setters
-- 
2.43.0


From 288685970d013fb268f6132baba1f68a8c32e9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:36:28 +0000
Subject: [PATCH 26/49] fix: Nsga2 uses its crossover probability

---
 lib/hnco/multiobjective/algorithms/nsga2.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/hnco/multiobjective/algorithms/nsga2.cc b/lib/hnco/multiobjective/algorithms/nsga2.cc
index d9e0358..ba59dd5 100644
--- a/lib/hnco/multiobjective/algorithms/nsga2.cc
+++ b/lib/hnco/multiobjective/algorithms/nsga2.cc
@@ -37,6 +37,8 @@ Nsga2::init()
 
   _selection_by_front_distance_pair.set_tournament_size(_tournament_size);
 
+  _do_crossover = std::bernoulli_distribution(_crossover_probability);
+
   _mutation.set_mutation_rate(_mutation_rate);
   _mutation.set_allow_no_mutation(_allow_no_mutation);
 
-- 
2.43.0


From 7f8fe3ce150553f0952b11308c735bf0d16b74b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:36:28 +0000
Subject: [PATCH 27/49] fix: Nsga2 can be run more than once

The set of solutions was shrunk by the first run then written out of bounds by
the next one.
---
 lib/hnco/multiobjective/algorithms/nsga2.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/hnco/multiobjective/algorithms/nsga2.cc b/lib/hnco/multiobjective/algorithms/nsga2.cc
index ba59dd5..7a5c35f 100644
--- a/lib/hnco/multiobjective/algorithms/nsga2.cc
+++ b/lib/hnco/multiobjective/algorithms/nsga2.cc
@@ -152,6 +152,8 @@ Nsga2::finalize()
   Nsga2ParetoFrontComputation computation(_parents);
   computation.compute(fronts);
 
+  // A previous run might have shrunk _solutions
+  _solutions = _parents;
   int index = 0;
   for (int i = 0; i < _parents.get_size(); i++) {
     if (fronts[i] == 0) {
-- 
2.43.0


From d51f5ef1a12475961eaad8ddb2567fdaac8a2189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:36:28 +0000
Subject: [PATCH 28/49] fix: BinVal weights do not overflow

Weights were computed with int arithmetic, which overflows when the bit vector
size is greater than 31.
---
 lib/hnco/app/function-factory.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/hnco/app/function-factory.cc b/lib/hnco/app/function-factory.cc
index dba3fa7..e5c8b2a 100644
--- a/lib/hnco/app/function-factory.cc
+++ b/lib/hnco/app/function-factory.cc
@@ -53,7 +53,7 @@ CommandLineFunctionFactory::make()
   case 5: {
     LinearFunction* instance = new LinearFunction;
     instance->generate(_options.get_bv_size(),
-                       [w = 1] () mutable { double result = w; w *= 2; return result; });
+                       [w = 1.0] () mutable { double result = w; w *= 2; return result; });
     return instance;
   }
 
-- 
2.43.0


From 68e13a81720d04a05d4d8e8d463b11a8c8b59884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:36:28 +0000
Subject: [PATCH 29/49] fix: description of the concrete solution maps the
 solution only once

---
 lib/hnco/app/application.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/hnco/app/application.cc b/lib/hnco/app/application.cc
index e6c5f92..33bc96e 100644
--- a/lib/hnco/app/application.cc
+++ b/lib/hnco/app/application.cc
@@ -256,13 +256,13 @@ CommandLineApplication::manage_solution(const bit_vector_t& bv)
 
   // Print description
   if (_options.with_print_description()) {
-    _fn->describe(concrete_solution, std::cout);
+    _fn->describe(bv, std::cout);
   }
 
   // Save description
   if (_options.with_save_description()) {
     std::ofstream stream(_options.get_description_path());
-    _fn->describe(concrete_solution, stream);
+    _fn->describe(bv, stream);
   }
 }
 
-- 
2.43.0


From 0c9780ea41e7d4f1b1ae6c941ff5c255cbf1ced1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:36:41 +0000
Subject: [PATCH 30/49] fix: prior noise applies to the bit vectors seen by the
 algorithm

With a map which changes the bit vector size, the neighborhood had the wrong
size.
---
 lib/hnco/app/decorated-function-factory.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/hnco/app/decorated-function-factory.cc b/lib/hnco/app/decorated-function-factory.cc
index 296e75e..f1d515f 100644
--- a/lib/hnco/app/decorated-function-factory.cc
+++ b/lib/hnco/app/decorated-function-factory.cc
@@ -230,7 +230,7 @@ DecoratedFunctionFactory::make_function_modifier()
 
   // Prior noise
   if (_options.with_prior_noise()) {
-    Neighborhood *nh = make_prior_noise_neighborhood(_options, bv_size);
+    Neighborhood *nh = make_prior_noise_neighborhood(_options, function->get_bv_size());
     function = new PriorNoise(function, nh);
   }
 
-- 
2.43.0


From 8c6702edbfd0d936294be0c87cabf49107968986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:39:07 +0000
Subject: [PATCH 31/49] fix: P3, LTGA, and hBOA report the value of their
 solution

The value was rounded to float, and the solution was empty for functions with
values less than INT_MIN.
---
 lib/hnco/algorithms/fast-efficient-p3/hboa.cc |  3 +--
 .../fast-efficient-p3/hnco-evaluator.hh       | 21 ++++++++++++++++++-
 lib/hnco/algorithms/fast-efficient-p3/ltga.cc |  3 +--
 lib/hnco/algorithms/fast-efficient-p3/p3.cc   |  3 +--
 4 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/lib/hnco/algorithms/fast-efficient-p3/hboa.cc b/lib/hnco/algorithms/fast-efficient-p3/hboa.cc
index 022a8da..c046502 100644
--- a/lib/hnco/algorithms/fast-efficient-p3/hboa.cc
+++ b/lib/hnco/algorithms/fast-efficient-p3/hboa.cc
@@ -71,6 +71,5 @@ Hboa::maximize(const std::vector<function::Function *>& functions)
 void
 Hboa::finalize()
 {
-  bv_from_vector_bool(_solution.first, _implementation->middle_layer->best_solution);
-  _solution.second = _implementation->middle_layer->best_fitness;
+  _solution = _implementation->evaluator->get_best_solution();
 }
diff --git a/lib/hnco/algorithms/fast-efficient-p3/hnco-evaluator.hh b/lib/hnco/algorithms/fast-efficient-p3/hnco-evaluator.hh
index e1e7b86..b95601f 100644
--- a/lib/hnco/algorithms/fast-efficient-p3/hnco-evaluator.hh
+++ b/lib/hnco/algorithms/fast-efficient-p3/hnco-evaluator.hh
@@ -24,6 +24,7 @@
 #include <cassert>
 
 #include "hnco/functions/function.hh"
+#include "hnco/algorithms/solution.hh" // hnco::algorithm::solution_t
 
 #include "fast-efficient-p3/Evaluation.h"
 
@@ -41,6 +42,12 @@ class HncoEvaluator: public Evaluator {
   /// Argument of HNCO function
   hnco::bit_vector_t _bv;
 
+  /// Best solution
+  hnco::algorithm::solution_t _best_solution;
+
+  /// No evaluation yet
+  bool _first_evaluation = true;
+
 public:
 
   /// Constructor
@@ -50,6 +57,7 @@ public:
     assert(function);
 
     _bv = bit_vector_t(_function->get_bv_size());
+    _best_solution = solution_t(_bv, 0.0);
   }
 
   /// Evaluate a bit vector
@@ -57,9 +65,20 @@ public:
     assert(x.size() == _bv.size());
 
     bv_from_vector_bool(_bv, x);
-    return _function->evaluate(_bv);
+    const double value = _function->evaluate(_bv);
+    if (_first_evaluation || value > _best_solution.second) {
+      _best_solution = solution_t(_bv, value);
+      _first_evaluation = false;
+    }
+    return value;
   }
 
+  /** Get the best solution.
+
+      Its value has not been converted to float.
+  */
+  const hnco::algorithm::solution_t& get_best_solution() const { return _best_solution; }
+
 };
 
 } // end of namespace fast_efficient_p3
diff --git a/lib/hnco/algorithms/fast-efficient-p3/ltga.cc b/lib/hnco/algorithms/fast-efficient-p3/ltga.cc
index c606691..b0793c9 100644
--- a/lib/hnco/algorithms/fast-efficient-p3/ltga.cc
+++ b/lib/hnco/algorithms/fast-efficient-p3/ltga.cc
@@ -78,6 +78,5 @@ Ltga::maximize(const std::vector<function::Function *>& functions)
 void
 Ltga::finalize()
 {
-  bv_from_vector_bool(_solution.first, _implementation->middle_layer->best_solution);
-  _solution.second = _implementation->middle_layer->best_fitness;
+  _solution = _implementation->evaluator->get_best_solution();
 }
diff --git a/lib/hnco/algorithms/fast-efficient-p3/p3.cc b/lib/hnco/algorithms/fast-efficient-p3/p3.cc
index 24f76b4..92e13f4 100644
--- a/lib/hnco/algorithms/fast-efficient-p3/p3.cc
+++ b/lib/hnco/algorithms/fast-efficient-p3/p3.cc
@@ -80,6 +80,5 @@ ParameterLessPopulationPyramid::maximize(const std::vector<function::Function *>
 void
 ParameterLessPopulationPyramid::finalize()
 {
-  bv_from_vector_bool(_solution.first, _implementation->middle_layer->best_solution);
-  _solution.second = _implementation->middle_layer->best_fitness;
+  _solution = _implementation->evaluator->get_best_solution();
 }
-- 
2.43.0


From 66eeabc64278ccc6b283ac5906fd84bc00aaba75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:00:43 +0000
Subject: [PATCH 32/49] fix: Cache updates its function after a safe evaluation

---
 lib/hnco/functions/controllers/controller.cc | 13 +++++++++++++
 lib/hnco/functions/controllers/controller.hh |  3 +++
 2 files changed, 16 insertions(+)

diff --git a/lib/hnco/functions/controllers/controller.cc b/lib/hnco/functions/controllers/controller.cc
index c349689..3219b1e 100644
--- a/lib/hnco/functions/controllers/controller.cc
+++ b/lib/hnco/functions/controllers/controller.cc
@@ -196,3 +196,16 @@ Cache::evaluate(const bit_vector_t& bv)
     return iter->second;
   }
 }
+
+void
+Cache::update(const bit_vector_t& bv, double value)
+{
+  assert(bv.size() == _key.size());
+
+  _function->update(bv, value);
+
+  _num_evaluations++;
+
+  bv_to_vector_bool(_key, bv);
+  _cache.insert(std::make_pair(_key, value));
+}
diff --git a/lib/hnco/functions/controllers/controller.hh b/lib/hnco/functions/controllers/controller.hh
index 5ba23c3..a619b61 100644
--- a/lib/hnco/functions/controllers/controller.hh
+++ b/lib/hnco/functions/controllers/controller.hh
@@ -406,6 +406,9 @@ public:
   /// Evaluate a bit vector
   double evaluate(const bit_vector_t&);
 
+  /// Update after a safe evaluation
+  void update(const bit_vector_t& bv, double value);
+
   ///@}
 
   /// Get lookup ratio
-- 
2.43.0


From 971870c06c32afedea71b97f05b4c503e3b877c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:13:48 +0000
Subject: [PATCH 33/49] fix: GOMEA takes its seed from the random number
 generator of HNCO

---
 lib/hnco/algorithms/gomea/gomea.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/hnco/algorithms/gomea/gomea.cc b/lib/hnco/algorithms/gomea/gomea.cc
index cae85b8..d122629 100644
--- a/lib/hnco/algorithms/gomea/gomea.cc
+++ b/lib/hnco/algorithms/gomea/gomea.cc
@@ -18,6 +18,8 @@
 
 */
 
+#include "hnco/random.hh"
+
 #include "gomea/src/discrete/Config.hpp"
 #include "gomea/src/discrete/gomeaIMS.hpp"
 
@@ -52,8 +54,10 @@ Gomea::maximize(const std::vector<function::Function *>& functions)
   // _config.maximumNumberOfEvaluations = max_number_of_evaluations;
   // _config.maximumNumberOfGenerations = max_number_of_generations;
   // _config.maximumNumberOfSeconds     = max_number_of_seconds;
-  // _config.randomSeed                 = random_seed;
-  // _config.fix_seed                   = true;
+
+  // Without a fixed seed, GOMEA takes its seed from the clock.
+  _config.randomSeed = hnco::random::Generator::engine();
+  _config.fix_seed   = true;
 
   ::gomea::discrete::gomeaIMS gomea(&_config);
   gomea.run();
-- 
2.43.0


From 8435182dd1f5535cb1a7ac49ffb46786f3703777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:22:05 +0000
Subject: [PATCH 34/49] fix: P3 and LTGA can be run on bit vectors of another
 size

---
 lib/fast-efficient-p3/Population.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/fast-efficient-p3/Population.cpp b/lib/fast-efficient-p3/Population.cpp
index 1356bbb..c12693d 100644
--- a/lib/fast-efficient-p3/Population.cpp
+++ b/lib/fast-efficient-p3/Population.cpp
@@ -24,7 +24,10 @@ Population::Population(Configuration& config, size_t _level) {
   }
 
   // Set up the storage tables needed for model building
-  distances.resize(clusters.size(), vector<float>(clusters.size(), -1));
+  // distances is shared: its size may come from a population of another length
+  if (distances.size() != clusters.size()) {
+    distances.assign(clusters.size(), vector<float>(clusters.size(), -1));
+  }
   occurrences.resize(length, vector<array<int, 4>>());
   for (size_t i = 1; i < length; i++) {
     occurrences[i].resize(i);
-- 
2.43.0


From 517de11078ec57fa61db2bd16c7e13ffa52e8998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:22:32 +0000
Subject: [PATCH 35/49] fix: (mu+lambda) EA and GA have a solution if the
 budget ends during initialization

---
 .../evolutionary-algorithms/genetic-algorithm.cc       | 10 +++++++++-
 .../evolutionary-algorithms/mu-plus-lambda-ea.cc       | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/lib/hnco/algorithms/evolutionary-algorithms/genetic-algorithm.cc b/lib/hnco/algorithms/evolutionary-algorithms/genetic-algorithm.cc
index 18b2cfe..2ba77a1 100644
--- a/lib/hnco/algorithms/evolutionary-algorithms/genetic-algorithm.cc
+++ b/lib/hnco/algorithms/evolutionary-algorithms/genetic-algorithm.cc
@@ -39,7 +39,15 @@ GeneticAlgorithm::init()
   _mutation.set_allow_no_mutation(_allow_no_mutation);
 
   _parents.random();
-  _parents.evaluate(_function);
+
+  // The budget might be exhausted before all parents are evaluated.
+  for (int i = 0; i < _parents.get_size(); i++) {
+    _parents.values[i] = _function->evaluate(_parents.bvs[i]);
+    if (i == 0)
+      set_solution(_parents.bvs[i], _parents.values[i]);
+    else
+      update_solution(_parents.bvs[i], _parents.values[i]);
+  }
   _parents.sort();
 
   set_solution(_parents.get_best_bv(),
diff --git a/lib/hnco/algorithms/evolutionary-algorithms/mu-plus-lambda-ea.cc b/lib/hnco/algorithms/evolutionary-algorithms/mu-plus-lambda-ea.cc
index 0c783e8..1ec2a29 100644
--- a/lib/hnco/algorithms/evolutionary-algorithms/mu-plus-lambda-ea.cc
+++ b/lib/hnco/algorithms/evolutionary-algorithms/mu-plus-lambda-ea.cc
@@ -35,7 +35,15 @@ MuPlusLambdaEa::init()
   _mutation.set_allow_no_mutation(_allow_no_mutation);
 
   _parents.random();
-  _parents.evaluate(_function);
+
+  // The budget might be exhausted before all parents are evaluated.
+  for (int i = 0; i < _parents.get_size(); i++) {
+    _parents.values[i] = _function->evaluate(_parents.bvs[i]);
+    if (i == 0)
+      set_solution(_parents.bvs[i], _parents.values[i]);
+    else
+      update_solution(_parents.bvs[i], _parents.values[i]);
+  }
   _parents.sort();
 
   set_solution(_parents.get_best_bv(),
-- 
2.43.0


From 118409ce29293a7b857809386f2d27717bd3d118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:50 +0000
Subject: [PATCH 36/49] fix: maps loaded from an invalid archive are rejected
 with an exception instead of an assertion

---
 lib/hnco/maps/map.hh          | 17 +++++++++--------
 lib/hnco/maps/transvection.hh |  3 ++-
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/lib/hnco/maps/map.hh b/lib/hnco/maps/map.hh
index 7cdb170..f72290d 100644
--- a/lib/hnco/maps/map.hh
+++ b/lib/hnco/maps/map.hh
@@ -31,6 +31,7 @@
 #include "hnco/exception.hh"
 #include "hnco/permutation.hh"
 #include "hnco/serialization.hh"
+#include "hnco/util.hh"         // hnco::ensure
 
 #include "transvection.hh"
 
@@ -95,7 +96,7 @@ private:
   {
     ar & _bv;
 
-    assert(bv_is_valid(_bv));
+    ensure(bv_is_valid(_bv), "Translation::load: invalid bit vector");
   }
 
   BOOST_SERIALIZATION_SPLIT_MEMBER()
@@ -183,7 +184,7 @@ private:
   {
     ar & _permutation;
 
-    assert(perm_is_valid(_permutation));
+    ensure(perm_is_valid(_permutation), "Permutation::load: invalid permutation");
   }
 
   BOOST_SERIALIZATION_SPLIT_MEMBER()
@@ -263,7 +264,7 @@ private:
   {
     ar & _bm;
 
-    assert(bm_is_valid(_bm));
+    ensure(bm_is_valid(_bm), "LinearMap::load: invalid bit matrix");
   }
 
   BOOST_SERIALIZATION_SPLIT_MEMBER()
@@ -349,9 +350,9 @@ private:
     ar & _bm;
     ar & _bv;
 
-    assert(bm_is_valid(_bm));
-    assert(bv_is_valid(_bv));
-    assert(bm_num_rows(_bm) == int(_bv.size()));
+    ensure(bm_is_valid(_bm), "AffineMap::load: invalid bit matrix");
+    ensure(bv_is_valid(_bv), "AffineMap::load: invalid bit vector");
+    ensure(bm_num_rows(_bm) == int(_bv.size()), "AffineMap::load: size mismatch");
   }
 
   BOOST_SERIALIZATION_SPLIT_MEMBER()
@@ -614,8 +615,8 @@ private:
   {
     ar & _bv;
     ar & _ts;
-    assert(bv_is_valid(_bv));
-    assert(ts_is_valid(_ts, _bv.size()));
+    ensure(bv_is_valid(_bv), "TsAffineMap::load: invalid bit vector");
+    ensure(ts_is_valid(_ts, _bv.size()), "TsAffineMap::load: invalid transvection sequence");
   }
   BOOST_SERIALIZATION_SPLIT_MEMBER()
   /// %Transvection sequence
diff --git a/lib/hnco/maps/transvection.hh b/lib/hnco/maps/transvection.hh
index 0d24145..614fb4f 100644
--- a/lib/hnco/maps/transvection.hh
+++ b/lib/hnco/maps/transvection.hh
@@ -29,6 +29,7 @@
 
 #include "hnco/bit-vector.hh"
 #include "hnco/bit-matrix.hh"
+#include "hnco/util.hh"         // hnco::ensure
 
 namespace hnco {
 namespace map {
@@ -72,7 +73,7 @@ struct Transvection {
   {
     ar & row_index;
     ar & column_index;
-    assert(is_valid());
+    ensure(is_valid(), "Transvection::load: invalid transvection");
   }
   BOOST_SERIALIZATION_SPLIT_MEMBER()
   /// Row index
-- 
2.43.0


From 842ef9440d393e4a0db3c4780ceac0c361003a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:48 +0000
Subject: [PATCH 37/49] fix: Tsp distances between far away cities do not
 overflow int

---
 lib/hnco/functions/collection/tsp.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/hnco/functions/collection/tsp.cc b/lib/hnco/functions/collection/tsp.cc
index f6c462c..9c005c6 100644
--- a/lib/hnco/functions/collection/tsp.cc
+++ b/lib/hnco/functions/collection/tsp.cc
@@ -138,7 +138,7 @@ Tsp::compute_distances_att()
       float dx = _xs[i] - _xs[j];
       float dy = _ys[i] - _ys[j];
       float rij = std::sqrt((dx * dx + dy * dy) / 10.0);
-      float tij = (int)(rij + 0.5);
+      float tij = std::floor(rij + 0.5);
       float dij;
       if (tij < rij)
         dij = tij + 1;
@@ -159,7 +159,7 @@ Tsp::compute_distances_euc_2d()
     for (int j = 0; j < i; j++) {
       float dx = _xs[i] - _xs[j];
       float dy = _ys[i] - _ys[j];
-      float dij = (int)(std::sqrt(dx * dx + dy * dy) + 0.5);
+      float dij = std::floor(std::sqrt(dx * dx + dy * dy) + 0.5);
       _distances[i][j] = dij;
       _distances[j][i] = dij;
     }
-- 
2.43.0


From 9dbb4f87c55b735cf4b5d577a11d550d24e3c1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:39 +0000
Subject: [PATCH 38/49] fix: invalid domains in representation declarations are
 reported instead of failing an assertion

---
 lib/hnco/app/parser.cc |  8 ++++++++
 lib/hnco/app/parser.hh | 22 ++++++++++++++++++----
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/lib/hnco/app/parser.cc b/lib/hnco/app/parser.cc
index 15c12f6..fa71f1a 100644
--- a/lib/hnco/app/parser.cc
+++ b/lib/hnco/app/parser.cc
@@ -18,6 +18,8 @@
 
 */
 
+#include <algorithm>            // std::any_of
+#include <cmath>                // std::isnan
 #include <iostream>
 #include <fstream>
 #include <sstream>
@@ -65,6 +67,8 @@ hnco::app::parse_int_rep(std::string expression)
     throw std::runtime_error("parse_int_rep: Requires 2 parameters");
   int a = std::stoi(parameters[0]);
   int b = std::stoi(parameters[1]);
+  if (a > b || (a < b && !representation::difference_is_safe(a, b)))
+    throw std::runtime_error("parse_int_rep: Invalid interval");
   return IntRepParams(a, b);
 }
 
@@ -76,6 +80,8 @@ hnco::app::parse_long_rep(std::string expression)
     throw std::runtime_error("parse_long_rep: Requires 2 parameters");
   long a = std::stol(parameters[0]);
   long b = std::stol(parameters[1]);
+  if (a > b || (a < b && !representation::difference_is_safe(a, b)))
+    throw std::runtime_error("parse_long_rep: Invalid interval");
   return LongRepParams(a, b);
 }
 
@@ -86,5 +92,7 @@ hnco::app::parse_value_set_rep(std::string expression)
   std::vector<double> values;
   for (auto s : parameters)
     values.push_back(std::stod(s));
+  if (std::any_of(begin(values), end(values), [](double x) { return std::isnan(x); }))
+    throw std::runtime_error("parse_value_set_rep: Invalid value");
   return ValueSetRepParams(values);
 }
diff --git a/lib/hnco/app/parser.hh b/lib/hnco/app/parser.hh
index 34af4f2..9611cee 100644
--- a/lib/hnco/app/parser.hh
+++ b/lib/hnco/app/parser.hh
@@ -22,6 +22,7 @@
 #define HNCO_APP_PARSER_H
 
 #include <cassert>
+#include <cmath>                // std::isfinite
 
 #include <unordered_map>
 #include <type_traits>          // std::is_same_v
@@ -151,11 +152,24 @@ parse_double_rep(std::string expression, const Options& options)
     throw std::runtime_error("parse_double_rep: Too many parameters");
   double a = std::stod(parameters[0]);
   double b = std::stod(parameters[1]);
+  if (!(a < b) || !std::isfinite(b - a))
+    throw std::runtime_error("parse_double_rep: Invalid interval");
+  auto with_precision = [=](double precision) {
+    const double ratio = (b - a) / precision;
+    if (!(ratio > 0) || !std::isfinite(ratio))
+      throw std::runtime_error("parse_double_rep: Invalid precision");
+    return DoubleRepParams(a, b, precision);
+  };
+  auto with_size = [=](int size) {
+    if (size <= 0)
+      throw std::runtime_error("parse_double_rep: Invalid size");
+    return DoubleRepParams(a, b, size);
+  };
   if (parameters.size() == 2) {
     if (options.with_fp_default_double_precision())
-      return DoubleRepParams(a, b, options.get_fp_default_double_precision());
+      return with_precision(options.get_fp_default_double_precision());
     else if (options.with_fp_default_double_size())
-      return DoubleRepParams(a, b, options.get_fp_default_double_size());
+      return with_size(options.get_fp_default_double_size());
     else
       throw std::runtime_error("parse_double_rep: Missing precision or size parameter");
   }
@@ -169,9 +183,9 @@ parse_double_rep(std::string expression, const Options& options)
   if (!stream)
     throw std::runtime_error("parse_double_rep: Missing or invalid key");
   if (key == "precision")
-    return DoubleRepParams(a, b, std::stod(terms[1]));
+    return with_precision(std::stod(terms[1]));
   else if (key == "size")
-    return DoubleRepParams(a, b, std::stoi(terms[1]));
+    return with_size(std::stoi(terms[1]));
   else
     throw std::runtime_error("parse_double_rep: Unknown key");
 }
-- 
2.43.0


From fff0b9bea14bfa0583c7624545cb6b702ef84c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:12 +0000
Subject: [PATCH 39/49] fix: programs report any standard exception instead of
 terminating

---
 app/ffgen.cc   | 4 ++++
 app/hnco-mo.cc | 4 ++++
 app/hnco.cc    | 4 ++++
 app/mapgen.cc  | 4 ++++
 4 files changed, 16 insertions(+)

diff --git a/app/ffgen.cc b/app/ffgen.cc
index 81492de..5bf4fac 100644
--- a/app/ffgen.cc
+++ b/app/ffgen.cc
@@ -314,6 +314,10 @@ int main(int argc, char *argv[])
     std::cerr << "main: std::runtime_error: " << e.what() << std::endl;
     return 1;
   }
+  catch (const std::exception& e) {
+    std::cerr << "main: std::exception: " << e.what() << std::endl;
+    return 1;
+  }
 
   return 0;
 }
diff --git a/app/hnco-mo.cc b/app/hnco-mo.cc
index 2e9c742..048d026 100644
--- a/app/hnco-mo.cc
+++ b/app/hnco-mo.cc
@@ -40,4 +40,8 @@ int main(int argc, char *argv[])
     std::cerr << "main: std::runtime_error: " << e.what() << std::endl;
     return 1;
   }
+  catch (const std::exception& e) {
+    std::cerr << "main: std::exception: " << e.what() << std::endl;
+    return 1;
+  }
 }
diff --git a/app/hnco.cc b/app/hnco.cc
index 67266b0..58a11cb 100644
--- a/app/hnco.cc
+++ b/app/hnco.cc
@@ -40,4 +40,8 @@ int main(int argc, char *argv[])
     std::cerr << "main: std::runtime_error: " << e.what() << std::endl;
     return 1;
   }
+  catch (const std::exception& e) {
+    std::cerr << "main: std::exception: " << e.what() << std::endl;
+    return 1;
+  }
 }
diff --git a/app/mapgen.cc b/app/mapgen.cc
index 100035a..913e418 100644
--- a/app/mapgen.cc
+++ b/app/mapgen.cc
@@ -140,6 +140,10 @@ int main(int argc, char *argv[])
     std::cerr << "main: std::runtime_error: " << e.what() << std::endl;
     return 1;
   }
+  catch (const std::exception& e) {
+    std::cerr << "main: std::exception: " << e.what() << std::endl;
+    return 1;
+  }
 
   return 0;
 }
-- 
2.43.0


From 42ca740e15d85c719019eed4d0a3e171502c7618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:38 +0000
Subject: [PATCH 40/49] fix: mapgen reports write failures

---
 app/mapgen.cc | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/app/mapgen.cc b/app/mapgen.cc
index 913e418..ae0c530 100644
--- a/app/mapgen.cc
+++ b/app/mapgen.cc
@@ -35,6 +35,15 @@ using namespace hnco::random;
 using namespace hnco;
 
 
+/// Check that everything has been written
+void check_stream(std::ofstream& stream)
+{
+  stream.flush();
+  if (!stream)
+    throw std::runtime_error("check_stream: output stream error");
+}
+
+
 void generate_map(MapgenOptions& options)
 {
   switch(options.get_map()) {
@@ -46,6 +55,7 @@ void generate_map(MapgenOptions& options)
     boost::archive::text_oarchive archive(stream);
     std::cout << "Writing translation to " << options.get_path() << " ... ";
     archive << map;
+    check_stream(stream);
     std::cout << "done" << std::endl;
     break;
   }
@@ -57,6 +67,7 @@ void generate_map(MapgenOptions& options)
     boost::archive::text_oarchive archive(stream);
     std::cout << "Writing permutation to " << options.get_path() << " ... ";
     archive << map;
+    check_stream(stream);
     std::cout << "done" << std::endl;
     break;
   }
@@ -70,6 +81,7 @@ void generate_map(MapgenOptions& options)
     boost::archive::text_oarchive archive(stream);
     std::cout << "Writing permutation and translation to " << options.get_path() << " ... ";
     archive << permutation << translation;
+    check_stream(stream);
     std::cout << "done" << std::endl;
     break;
   }
@@ -81,6 +93,7 @@ void generate_map(MapgenOptions& options)
     boost::archive::text_oarchive archive(stream);
     std::cout << "Writing linear map to " << options.get_path() << " ... ";
     archive << map;
+    check_stream(stream);
     std::cout << "done" << std::endl;
     break;
   }
@@ -92,6 +105,7 @@ void generate_map(MapgenOptions& options)
     boost::archive::text_oarchive archive(stream);
     std::cout << "Writing affine map to " << options.get_path() << " ... ";
     archive << map;
+    check_stream(stream);
     std::cout << "done" << std::endl;
     break;
   }
@@ -107,6 +121,7 @@ void generate_map(MapgenOptions& options)
     boost::archive::text_oarchive archive(stream);
     std::cout << "Writing affine map (transvection sequence) to " << options.get_path() << " ... ";
     archive << map;
+    check_stream(stream);
     std::cout << "done" << std::endl;
     break;
   }
-- 
2.43.0


From fa3c64de2da6fb4400de9ad5bed6d9d0620cd5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:23 +0000
Subject: [PATCH 41/49] fix: do not run the optimizer of the function parser,
 which changes the values of expressions

For example, abs(exp(-abs(x))-cos(x)) was negative for some x, and
sqrt(abs(-3-sin(x))+1) was 0.
---
 lib/hnco/functions/collection/parsed-multivariate-function.hh    | 1 -
 .../functions/collection/parsed-multivariate-function.hh         | 1 -
 2 files changed, 2 deletions(-)

diff --git a/lib/hnco/functions/collection/parsed-multivariate-function.hh b/lib/hnco/functions/collection/parsed-multivariate-function.hh
index e9a2fee..e1de2cc 100644
--- a/lib/hnco/functions/collection/parsed-multivariate-function.hh
+++ b/lib/hnco/functions/collection/parsed-multivariate-function.hh
@@ -89,7 +89,6 @@ public:
         << " in _expression: " << _expression;
       throw std::runtime_error(stream.str());
     }
-    _fparser.Optimize();
   }
 
   /// Display the problem
diff --git a/lib/hnco/multiobjective/functions/collection/parsed-multivariate-function.hh b/lib/hnco/multiobjective/functions/collection/parsed-multivariate-function.hh
index 3e8ba6d..d5ee886 100644
--- a/lib/hnco/multiobjective/functions/collection/parsed-multivariate-function.hh
+++ b/lib/hnco/multiobjective/functions/collection/parsed-multivariate-function.hh
@@ -149,7 +149,6 @@ public:
           << " in expression: " << _expressions[i];
         throw std::runtime_error(stream.str());
       }
-      _parsers[i].Optimize();
       _variables[i].resize(_names[i].size());
     }
 
-- 
2.43.0


From eddd93854aae88ed9ad3ef771b441b6d36db75e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:23 +0000
Subject: [PATCH 42/49] fix: splits of HBOA are chosen by score, not by the
 addresses of trees

---
 lib/fast-efficient-p3/HBOA.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/fast-efficient-p3/HBOA.cpp b/lib/fast-efficient-p3/HBOA.cpp
index 299a921..cedb800 100644
--- a/lib/fast-efficient-p3/HBOA.cpp
+++ b/lib/fast-efficient-p3/HBOA.cpp
@@ -369,7 +369,11 @@ void Bayesian_Forest::build_forest(Random & rand) {
   // while there are still worthwhile splits
   while (options.size()) {
     // get the best split
-    auto best = *min_element(options.begin(), options.end());
+    // (ties have been broken by shuffling, not by the addresses of the trees)
+    auto best = *min_element(
+        options.begin(), options.end(),
+        [](const tuple<double, Bayesian_Tree*, size_t>& a,
+           const tuple<double, Bayesian_Tree*, size_t>& b) {return get<0>(a) < get<0>(b);});
     Bayesian_Tree& splitting = *get<1>(best);
     size_t new_index = get<2>(best);
     // update dependency information to prevent cycles
-- 
2.43.0


From 7e96e02bc3023c22cf9c8d48c94b1f49817465cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:54 +0000
Subject: [PATCH 43/49] fix: failing to save results, solution or description
 is an error

---
 lib/hnco/app/application.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/hnco/app/application.cc b/lib/hnco/app/application.cc
index 33bc96e..475a9da 100644
--- a/lib/hnco/app/application.cc
+++ b/lib/hnco/app/application.cc
@@ -44,6 +44,15 @@ using namespace hnco::neighborhood;
 using namespace hnco::random;
 using namespace hnco;
 
+/// Check that everything has been written
+static void
+check_stream(std::ofstream& stream, const std::string& path)
+{
+  stream.flush();
+  if (!stream)
+    throw std::runtime_error("check_stream: Cannot write to " + path);
+}
+
 void
 CommandLineApplication::init()
 {
@@ -225,6 +234,7 @@ CommandLineApplication::print_results(double total_time, bool target_reached)
   if (_options.with_save_results()) {
     std::ofstream stream(_options.get_results_path());
     stream << results.str();
+    check_stream(stream, _options.get_results_path());
   }
 }
 
@@ -252,6 +262,7 @@ CommandLineApplication::manage_solution(const bit_vector_t& bv)
     std::ofstream stream(_options.get_solution_path());
     bv_display(concrete_solution, stream);
     stream << std::endl;
+    check_stream(stream, _options.get_solution_path());
   }
 
   // Print description
@@ -263,6 +274,7 @@ CommandLineApplication::manage_solution(const bit_vector_t& bv)
   if (_options.with_save_description()) {
     std::ofstream stream(_options.get_description_path());
     _fn->describe(bv, stream);
+    check_stream(stream, _options.get_description_path());
   }
 }
 
-- 
2.43.0


From 394b583b2bceeb5727478a15f1eb04582c052348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:12 +0000
Subject: [PATCH 44/49] fix: populations are evaluated by as many threads as
 there are functions

---
 lib/hnco/algorithms/population.cc                | 2 +-
 lib/hnco/multiobjective/algorithms/population.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/hnco/algorithms/population.cc b/lib/hnco/algorithms/population.cc
index c5b9e49..a856b93 100644
--- a/lib/hnco/algorithms/population.cc
+++ b/lib/hnco/algorithms/population.cc
@@ -55,7 +55,7 @@ Population::evaluate_in_parallel(const std::vector<Function *>& fns)
   assert(have_same_size(bvs, values));
   assert(!fns.empty());
 
-#pragma omp parallel for
+#pragma omp parallel for num_threads(int(fns.size()))
   for (size_t i = 0; i < bvs.size(); i++) {
     int k = omp_get_thread_num();
     assert(is_in_range(k, fns.size()));
diff --git a/lib/hnco/multiobjective/algorithms/population.cc b/lib/hnco/multiobjective/algorithms/population.cc
index 089668e..b60d4b3 100644
--- a/lib/hnco/multiobjective/algorithms/population.cc
+++ b/lib/hnco/multiobjective/algorithms/population.cc
@@ -48,7 +48,7 @@ void Population::evaluate_in_parallel(const std::vector<Function *>& functions)
   assert(have_same_size(bvs, values));
   assert(!functions.empty());
 
-#pragma omp parallel for
+#pragma omp parallel for num_threads(int(functions.size()))
   for (size_t i = 0; i < bvs.size(); i++) {
     const int k = omp_get_thread_num();
     assert(is_in_range(k, functions.size()));
-- 
2.43.0


From 9ed60147696768757280da309602d3b9660dd0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:12 +0000
Subject: [PATCH 45/49] fix: Python objects keep alive the functions, maps and
 neighborhoods they hold

---
 bindings/hnco.cc | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/bindings/hnco.cc b/bindings/hnco.cc
index b9a78b0..65ef514 100644
--- a/bindings/hnco.cc
+++ b/bindings/hnco.cc
@@ -267,7 +267,7 @@ PYBIND11_MODULE(hnco, m_hnco) {
   //
 
   py::class_<HncoIterator>(m_hnco, "HncoIterator")
-    .def(py::init<Iterator&>())
+    .def(py::init<Iterator&>(), py::keep_alive<1, 2>())
     .def("__next__", &HncoIterator::__next__)
     ;
 
@@ -408,7 +408,7 @@ PYBIND11_MODULE(hnco, m_hnco) {
 
     py::class_<MapComposition, Map>(m_map, "MapComposition")
       .def(py::init<>())
-      .def(py::init<Map *, Map *>())
+      .def(py::init<Map *, Map *>(), py::keep_alive<1, 2>(), py::keep_alive<1, 3>())
       ;
 
     py::class_<Injection, Map>(m_map, "Injection")
@@ -649,7 +649,7 @@ PYBIND11_MODULE(hnco, m_hnco) {
            std::vector<FloatRep>,
            std::vector<ComplexRep>,
            std::vector<LinearCategoricalRepresentation>,
-           std::vector<PermutationRepresentation>>())
+           std::vector<PermutationRepresentation>>(), py::keep_alive<1, 2>())
       ;
 
     py::class_<UniversalFunction, PyUniversalFunction>(m_fn, "UniversalFunction")
@@ -677,28 +677,28 @@ PYBIND11_MODULE(hnco, m_hnco) {
     py::class_<Controller, function::Decorator>(m_ctrl, "Controller");
 
     py::class_<StopOnTarget, Controller>(m_ctrl, "StopOnTarget")
-      .def(py::init<function::Function *, double>())
+      .def(py::init<function::Function *, double>(), py::keep_alive<1, 2>())
       .def("get_trigger", &StopOnTarget::get_trigger)
       ;
 
     py::class_<StopOnMaximum, StopOnTarget>(m_ctrl, "StopOnMaximum")
-      .def(py::init<function::Function *>())
+      .def(py::init<function::Function *>(), py::keep_alive<1, 2>())
       ;
 
     py::class_<CallCounter, Controller>(m_ctrl, "CallCounter")
-      .def(py::init<function::Function *>())
+      .def(py::init<function::Function *>(), py::keep_alive<1, 2>())
       .def("get_num_calls", &CallCounter::get_num_calls)
       ;
 
     py::class_<OnBudgetFunction, CallCounter>(m_ctrl, "OnBudgetFunction")
-      .def(py::init<function::Function *, int>())
+      .def(py::init<function::Function *, int>(), py::keep_alive<1, 2>())
       ;
 
     py::class_<ProgressTracker::Event>(m_ctrl, "Event")
       ;
 
     py::class_<ProgressTracker, CallCounter>(m_ctrl, "ProgressTracker")
-      .def(py::init<function::Function *>())
+      .def(py::init<function::Function *>(), py::keep_alive<1, 2>())
       .def("set_log_improvement", &ProgressTracker::set_log_improvement)
       .def("set_record_evaluation_time", &ProgressTracker::set_record_evaluation_time)
       .def("get_evaluation_time", &ProgressTracker::get_evaluation_time)
@@ -706,7 +706,7 @@ PYBIND11_MODULE(hnco, m_hnco) {
       ;
 
     py::class_<Cache, Controller>(m_ctrl, "Cache")
-      .def(py::init<function::Function *>())
+      .def(py::init<function::Function *>(), py::keep_alive<1, 2>())
       .def("get_lookup_ratio", &Cache::get_lookup_ratio)
       ;
 
@@ -725,23 +725,23 @@ PYBIND11_MODULE(hnco, m_hnco) {
     py::class_<Modifier, function::Decorator>(m_mod, "Modifier");
 
     py::class_<AdditiveGaussianNoise, Modifier>(m_mod, "AdditiveGaussianNoise")
-      .def(py::init<function::Function *, double>())
+      .def(py::init<function::Function *, double>(), py::keep_alive<1, 2>())
       ;
 
     py::class_<FunctionMapComposition, Modifier>(m_mod, "FunctionMapComposition")
-      .def(py::init<function::Function *, Map *>())
+      .def(py::init<function::Function *, Map *>(), py::keep_alive<1, 2>(), py::keep_alive<1, 3>())
       ;
 
     py::class_<OppositeFunction, Modifier>(m_mod, "OppositeFunction")
-      .def(py::init<function::Function *>())
+      .def(py::init<function::Function *>(), py::keep_alive<1, 2>())
       ;
 
     py::class_<ParsedModifier, Modifier>(m_mod, "ParsedModifier")
-      .def(py::init<function::Function *, std::string>())
+      .def(py::init<function::Function *, std::string>(), py::keep_alive<1, 2>())
       ;
 
     py::class_<PriorNoise, Modifier>(m_mod, "PriorNoise")
-      .def(py::init<function::Function *, neighborhood::Neighborhood *>())
+      .def(py::init<function::Function *, neighborhood::Neighborhood *>(), py::keep_alive<1, 2>(), py::keep_alive<1, 3>())
       ;
 
   }
@@ -861,16 +861,16 @@ PYBIND11_MODULE(hnco, m_hnco) {
     py::class_<LocalSearchAlgorithm<neighborhood::Neighborhood>, IterativeAlgorithm>(m_algo, "LocalSearchAlgorithm");
 
     py::class_<RandomWalk, LocalSearchAlgorithm<neighborhood::Neighborhood>>(m_algo, "RandomWalk")
-      .def(py::init<int, neighborhood::Neighborhood *>())
+      .def(py::init<int, neighborhood::Neighborhood *>(), py::keep_alive<1, 3>())
       ;
 
     py::class_<RandomLocalSearch, LocalSearchAlgorithm<neighborhood::Neighborhood>>(m_algo, "RandomLocalSearch")
-      .def(py::init<int, neighborhood::Neighborhood *>())
+      .def(py::init<int, neighborhood::Neighborhood *>(), py::keep_alive<1, 3>())
       .def("set_patience", &RandomLocalSearch::set_patience)
       ;
 
     py::class_<SimulatedAnnealing, LocalSearchAlgorithm<neighborhood::Neighborhood>>(m_algo, "SimulatedAnnealing")
-      .def(py::init<int, neighborhood::Neighborhood *>())
+      .def(py::init<int, neighborhood::Neighborhood *>(), py::keep_alive<1, 3>())
       .def("set_num_transitions", &SimulatedAnnealing::set_num_transitions)
       .def("set_num_trials", &SimulatedAnnealing::set_num_trials)
       .def("set_initial_acceptance_probability", &SimulatedAnnealing::set_initial_acceptance_probability)
@@ -1105,7 +1105,7 @@ PYBIND11_MODULE(hnco, m_hnco) {
            std::vector<FloatRep>,
            std::vector<ComplexRep>,
            std::vector<LinearCategoricalRepresentation>,
-           std::vector<PermutationRepresentation>>())
+           std::vector<PermutationRepresentation>>(), py::keep_alive<1, 2>())
       ;
 
     py::class_<UniversalFunction, PyUniversalFunction>(m_multi_fn, "UniversalFunction")
@@ -1135,7 +1135,7 @@ PYBIND11_MODULE(hnco, m_hnco) {
 
     py::class_<Algorithm, multiobjective::algorithm::PyAlgorithm>(m_multi_algo, "Algorithm")
       .def(py::init<int, int>())
-      .def("get_solutions", &Algorithm::get_solutions, py::return_value_policy::reference)
+      .def("get_solutions", &Algorithm::get_solutions, py::return_value_policy::reference_internal)
       .def("minimize", &Algorithm::minimize)
       ;
 
-- 
2.43.0


From ef978354ce3fadd6fd7346722224b41368be10fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:10 +0000
Subject: [PATCH 46/49] fix: release the interpreter lock while optimizing, so
 that Python functions can be evaluated in parallel

---
 bindings/hnco.cc | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/bindings/hnco.cc b/bindings/hnco.cc
index 65ef514..c462608 100644
--- a/bindings/hnco.cc
+++ b/bindings/hnco.cc
@@ -105,8 +105,8 @@ namespace function {
 class PyFunction: public Function {
 public:
   using Function::Function;
-  int get_bv_size() const                override { PYBIND11_OVERRIDE_PURE(int, Function, get_bv_size, ); }
-  double evaluate(const bit_vector_t& x) override { PYBIND11_OVERRIDE_PURE(double, Function, evaluate, x); }
+  int get_bv_size() const                override { py::gil_scoped_acquire gil; PYBIND11_OVERRIDE_PURE(int, Function, get_bv_size, ); }
+  double evaluate(const bit_vector_t& x) override { py::gil_scoped_acquire gil; PYBIND11_OVERRIDE_PURE(double, Function, evaluate, x); }
   double get_maximum() const             override { PYBIND11_OVERRIDE(double, Function, get_maximum, ); }
   bool has_known_maximum() const         override { PYBIND11_OVERRIDE(bool, Function, has_known_maximum, ); }
 };
@@ -120,7 +120,7 @@ public:
                   const std::vector<std::complex<double>>& complex_vars,
                   const std::vector<int>& categorical_vars,
                   const std::vector<permutation_t>& permutation_vars) override {
-    PYBIND11_OVERRIDE_PURE(double, UniversalFunction, evaluate, boolean_vars, integer_vars, float_vars, complex_vars, categorical_vars, permutation_vars);
+    py::gil_scoped_acquire gil; PYBIND11_OVERRIDE_PURE(double, UniversalFunction, evaluate, boolean_vars, integer_vars, float_vars, complex_vars, categorical_vars, permutation_vars);
   }
 };
 
@@ -137,7 +137,7 @@ namespace algorithm {
 class PyAlgorithm: public Algorithm {
 public:
   using Algorithm::Algorithm;
-  void maximize(const std::vector<function::Function *>& functions) override { PYBIND11_OVERRIDE_PURE(void, Algorithm, maximize, functions); }
+  void maximize(const std::vector<function::Function *>& functions) override { py::gil_scoped_acquire gil; PYBIND11_OVERRIDE_PURE(void, Algorithm, maximize, functions); }
   void finalize()                                                   override { PYBIND11_OVERRIDE(void, Algorithm, finalize, ); }
 };
 
@@ -152,7 +152,7 @@ class PyIterativeAlgorithm: public IterativeAlgorithm {
 public:
   using IterativeAlgorithm::IterativeAlgorithm;
   void init()    override { PYBIND11_OVERRIDE(void, IterativeAlgorithm, init, ); }
-  void iterate() override { PYBIND11_OVERRIDE_PURE(void, IterativeAlgorithm, iterate, ); }
+  void iterate() override { py::gil_scoped_acquire gil; PYBIND11_OVERRIDE_PURE(void, IterativeAlgorithm, iterate, ); }
 };
 
 class IterativeAlgorithmPublicist: public IterativeAlgorithm {
@@ -174,15 +174,15 @@ namespace function {
 class PyFunction: public Function {
 public:
   using Function::Function;
-  int get_bv_size() const                               override { PYBIND11_OVERRIDE_PURE(int, Function, get_bv_size, ); }
-  int get_output_size() const                           override { PYBIND11_OVERRIDE_PURE(int, Function, get_output_size, ); }
-  void evaluate(const bit_vector_t& bv, value_t& value) override { PYBIND11_OVERRIDE_PURE(void, Function, evaluate, bv, &value); }
+  int get_bv_size() const                               override { py::gil_scoped_acquire gil; PYBIND11_OVERRIDE_PURE(int, Function, get_bv_size, ); }
+  int get_output_size() const                           override { py::gil_scoped_acquire gil; PYBIND11_OVERRIDE_PURE(int, Function, get_output_size, ); }
+  void evaluate(const bit_vector_t& bv, value_t& value) override { py::gil_scoped_acquire gil; PYBIND11_OVERRIDE_PURE(void, Function, evaluate, bv, &value); }
 };
 
 class PyUniversalFunction: public UniversalFunction {
 public:
   using UniversalFunction::UniversalFunction;
-  int get_output_size() const override { PYBIND11_OVERRIDE_PURE(int, UniversalFunction, get_output_size, ); }
+  int get_output_size() const override { py::gil_scoped_acquire gil; PYBIND11_OVERRIDE_PURE(int, UniversalFunction, get_output_size, ); }
   void evaluate(const bit_vector_t& boolean_vars,
                 const std::vector<int>& integer_vars,
                 const std::vector<double>& float_vars,
@@ -190,7 +190,7 @@ public:
                 const std::vector<int>& categorical_vars,
                 const std::vector<permutation_t> permutation_vars,
                 value_t& value) override {
-    PYBIND11_OVERRIDE_PURE(void, UniversalFunction, evaluate, boolean_vars, integer_vars, float_vars, complex_vars, categorical_vars, permutation_vars, &value);
+    py::gil_scoped_acquire gil; PYBIND11_OVERRIDE_PURE(void, UniversalFunction, evaluate, boolean_vars, integer_vars, float_vars, complex_vars, categorical_vars, permutation_vars, &value);
   }
 };
 
@@ -205,8 +205,8 @@ namespace algorithm {
 class PyAlgorithm: public Algorithm {
 public:
   using Algorithm::Algorithm;
-  void minimize(const std::vector<function::Function *>& functions) override { PYBIND11_OVERRIDE_PURE(void, Algorithm, minimize, functions); }
-  const Population& get_solutions()                                 override { PYBIND11_OVERRIDE_PURE(const Population&, Algorithm, get_solutions, ); }
+  void minimize(const std::vector<function::Function *>& functions) override { py::gil_scoped_acquire gil; PYBIND11_OVERRIDE_PURE(void, Algorithm, minimize, functions); }
+  const Population& get_solutions()                                 override { py::gil_scoped_acquire gil; PYBIND11_OVERRIDE_PURE(const Population&, Algorithm, get_solutions, ); }
 };
 
 class PyIterativeAlgorithm: public IterativeAlgorithm {
@@ -214,7 +214,7 @@ public:
   using IterativeAlgorithm::IterativeAlgorithm;
   void init()     override { PYBIND11_OVERRIDE(void, IterativeAlgorithm, init, ); }
   void finalize() override { PYBIND11_OVERRIDE(void, IterativeAlgorithm, finalize, ); }
-  void iterate()  override { PYBIND11_OVERRIDE_PURE(void, IterativeAlgorithm, iterate, ); }
+  void iterate()  override { py::gil_scoped_acquire gil; PYBIND11_OVERRIDE_PURE(void, IterativeAlgorithm, iterate, ); }
 };
 
 } // end of namespace algorithm
@@ -837,7 +837,7 @@ PYBIND11_MODULE(hnco, m_hnco) {
     py::class_<Algorithm, PyAlgorithm>(m_algo, "Algorithm")
       .def(py::init<int>())
       .def("get_solution", &Algorithm::get_solution)
-      .def("maximize", &Algorithm::maximize)
+      .def("maximize", &Algorithm::maximize, py::call_guard<py::gil_scoped_release>())
       .def("finalize", &Algorithm::finalize)
       .def("random_solution", &AlgorithmPublicist::random_solution)
       .def("update_solution", py::overload_cast<const bit_vector_t&>(&AlgorithmPublicist::update_solution))
@@ -1136,7 +1136,7 @@ PYBIND11_MODULE(hnco, m_hnco) {
     py::class_<Algorithm, multiobjective::algorithm::PyAlgorithm>(m_multi_algo, "Algorithm")
       .def(py::init<int, int>())
       .def("get_solutions", &Algorithm::get_solutions, py::return_value_policy::reference_internal)
-      .def("minimize", &Algorithm::minimize)
+      .def("minimize", &Algorithm::minimize, py::call_guard<py::gil_scoped_release>())
       ;
 
     py::class_<IterativeAlgorithm, Algorithm, multiobjective::algorithm::PyIterativeAlgorithm>(m_multi_algo, "IterativeAlgorithm")
-- 
2.43.0


From 3f6c9dc6f04222063a833beebcd75dbac25bc40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:45 +0000
Subject: [PATCH 47/49] fix: exceptions of functions evaluated in parallel
 reach the caller

---
 lib/hnco/algorithms/population.cc                | 15 ++++++++++++++-
 lib/hnco/multiobjective/algorithms/population.cc | 16 +++++++++++++++-
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/lib/hnco/algorithms/population.cc b/lib/hnco/algorithms/population.cc
index a856b93..5021d03 100644
--- a/lib/hnco/algorithms/population.cc
+++ b/lib/hnco/algorithms/population.cc
@@ -21,6 +21,7 @@
 #include <omp.h>                // omp_get_thread_num
 
 #include <algorithm>            // std::equal_range
+#include <exception>            // std::exception_ptr
 #include <iterator>             // std::distance
 
 #include "hnco/util.hh"         // hnco::is_in_range
@@ -55,15 +56,27 @@ Population::evaluate_in_parallel(const std::vector<Function *>& fns)
   assert(have_same_size(bvs, values));
   assert(!fns.empty());
 
+  // Exceptions must not leave the parallel region
+  std::exception_ptr error;
+
 #pragma omp parallel for num_threads(int(fns.size()))
   for (size_t i = 0; i < bvs.size(); i++) {
     int k = omp_get_thread_num();
     assert(is_in_range(k, fns.size()));
     assert(fns[k]);
 
-    values[i] = fns[k]->evaluate_safely(bvs[i]);
+    try {
+      values[i] = fns[k]->evaluate_safely(bvs[i]);
+    } catch (...) {
+#pragma omp critical
+      if (!error)
+        error = std::current_exception();
+    }
   }
 
+  if (error)
+    std::rethrow_exception(error);
+
   for (size_t i = 0; i < bvs.size(); i++)
     fns[0]->update(bvs[i], values[i]);
 }
diff --git a/lib/hnco/multiobjective/algorithms/population.cc b/lib/hnco/multiobjective/algorithms/population.cc
index b60d4b3..2a98c8a 100644
--- a/lib/hnco/multiobjective/algorithms/population.cc
+++ b/lib/hnco/multiobjective/algorithms/population.cc
@@ -20,6 +20,8 @@
 
 #include <omp.h>                // omp_get_thread_num
 
+#include <exception>            // std::exception_ptr
+
 #include "hnco/util.hh"         // hnco::is_in_range, hnco::have_same_size
 
 #include "population.hh"
@@ -48,11 +50,23 @@ void Population::evaluate_in_parallel(const std::vector<Function *>& functions)
   assert(have_same_size(bvs, values));
   assert(!functions.empty());
 
+  // Exceptions must not leave the parallel region
+  std::exception_ptr error;
+
 #pragma omp parallel for num_threads(int(functions.size()))
   for (size_t i = 0; i < bvs.size(); i++) {
     const int k = omp_get_thread_num();
     assert(is_in_range(k, functions.size()));
     assert(functions[k]);
-    functions[k]->evaluate(bvs[i], values[i]);
+    try {
+      functions[k]->evaluate(bvs[i], values[i]);
+    } catch (...) {
+#pragma omp critical
+      if (!error)
+        error = std::current_exception();
+    }
   }
+
+  if (error)
+    std::rethrow_exception(error);
 }
-- 
2.43.0


From ab455a754896ae958d3e4d05d45410ee8f72d240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:10 +0000
Subject: [PATCH 48/49] fix: Human stops at the end of its input instead of
 asking forever

---
 lib/hnco/algorithms/human.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/hnco/algorithms/human.cc b/lib/hnco/algorithms/human.cc
index 3e5815a..949b659 100644
--- a/lib/hnco/algorithms/human.cc
+++ b/lib/hnco/algorithms/human.cc
@@ -37,8 +37,7 @@ Human::parse_bit_vector()
   do {
     std::string str;
     std::cout << "bv? ";
-    std::cin >> str;
-    if (str == "quit")
+    if (!(std::cin >> str) || str == "quit")
       throw LastEvaluation();
     _candidate = bv_from_string(str);
     if (int(_candidate.size()) < get_bv_size())
-- 
2.43.0


From d4d10df9ed27a727f859154ecd7808c87340658d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:11 +0000
Subject: [PATCH 49/49] fix: Tsp::load rejects a file in which a city has no
 coordinates

---
 lib/hnco/functions/collection/tsp.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/hnco/functions/collection/tsp.cc b/lib/hnco/functions/collection/tsp.cc
index 9c005c6..978e457 100644
--- a/lib/hnco/functions/collection/tsp.cc
+++ b/lib/hnco/functions/collection/tsp.cc
@@ -88,6 +88,7 @@ Tsp::load_coordinates(std::istream& stream)
     throw std::runtime_error("Tsp::load_coordinates: Missing or bad DIMENSION");
   _xs.resize(_num_cities);
   _ys.resize(_num_cities);
+  std::vector<bool> loaded(_num_cities, false);
   while (!stream.eof()) {
     int index;
     stream >> index;
@@ -99,7 +100,11 @@ Tsp::load_coordinates(std::istream& stream)
     stream >> _ys[index - 1];
     if (stream.fail())
       throw std::runtime_error("Tsp::load_coordinates: Bad coordinates for city " + std::to_string(index));
+    loaded[index - 1] = true;
   }
+  for (int i = 0; i < _num_cities; i++)
+    if (!loaded[i])
+      throw std::runtime_error("Tsp::load_coordinates: Missing coordinates for city " + std::to_string(i + 1));
 }
 
 void
-- 
2.43.0

