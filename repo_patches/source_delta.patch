From a91bd97688a585b7c59bd5ff0f93bbdf0466806d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:37 +0000
Subject: [PATCH 01/29] fix: divide by k! for contractions repeated k times in
 combinatorial_factor

The division used binomial(k, 1) = k, which overcounts terms in which three
or more identical elementary contractions occur.
---
 wicked/diagrams/wick_theorem_process_contractions.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wicked/diagrams/wick_theorem_process_contractions.cc b/wicked/diagrams/wick_theorem_process_contractions.cc
index cf8e7d9..d79dd0b 100644
--- a/wicked/diagrams/wick_theorem_process_contractions.cc
+++ b/wicked/diagrams/wick_theorem_process_contractions.cc
@@ -548,7 +548,9 @@ WickTheorem::combinatorial_factor(const OperatorProduct &ops,
     contraction_count[contraction] += 1;
   }
   for (const auto &kv : contraction_count) {
-    factor /= binomial(kv.second, 1);
+    for (int k = 2; k <= kv.second; k++) {
+      factor /= scalar_t(k);
+    }
   }
   return factor;
 }
-- 
2.43.0


From 47dd1ecac0e3a9c70e43bc6d7e9d3a60fffdb252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:37 +0000
Subject: [PATCH 02/29] fix: data race on WickTheorem::timers_ in threaded
 contractions

process_single_contraction runs in one thread per contraction and updated
the timers map without synchronization.
---
 .../diagrams/wick_theorem_process_contractions.cc   | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/wicked/diagrams/wick_theorem_process_contractions.cc b/wicked/diagrams/wick_theorem_process_contractions.cc
index d79dd0b..cbd1641 100644
--- a/wicked/diagrams/wick_theorem_process_contractions.cc
+++ b/wicked/diagrams/wick_theorem_process_contractions.cc
@@ -3,6 +3,7 @@
 #include <future>
 #include <iomanip>
 #include <iostream>
+#include <mutex>
 
 #include "helpers/combinatorics.h"
 #include "helpers/helpers.h"
@@ -169,12 +170,20 @@ Expression WickTheorem::process_single_contraction(
         do_canonicalize_graph_
             ? canonicalize_contraction_graph(ops, contraction)
             : std::make_tuple(ops, contraction, scalar_t(1));
-    timers_["canonicalize_contraction_graph"] += tc.get();
+    const double canonicalize_time = tc.get();
 
     timer te;
     std::pair<SymbolicTerm, scalar_t> term_factor =
         evaluate_contraction(best_ops, best_contractions, factor * sign);
-    timers_["evaluate_contraction"] += te.get();
+    const double evaluate_time = te.get();
+
+    {
+      // this function is called concurrently: serialize access to the timers
+      static std::mutex timers_mutex;
+      std::lock_guard<std::mutex> lock(timers_mutex);
+      timers_["canonicalize_contraction_graph"] += canonicalize_time;
+      timers_["evaluate_contraction"] += evaluate_time;
+    }
 
     SymbolicTerm &term = term_factor.first;
     scalar_t canonicalize_factor = term.canonicalize();
-- 
2.43.0


From 0f1223c209c1b70a57a945971f7c2b1528397df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:32 +0000
Subject: [PATCH 03/29] fix: keep rationals canonical under division and reject
 zero denominators

Dividing by a negative rational left a negative denominator, so equal numbers
compared different. Zero denominators and divisions by zero were accepted
silently.
---
 wicked/helpers/rational.cc | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/wicked/helpers/rational.cc b/wicked/helpers/rational.cc
index 4bb564d..cb90356 100644
--- a/wicked/helpers/rational.cc
+++ b/wicked/helpers/rational.cc
@@ -1,5 +1,6 @@
 #include <numeric>
 #include <regex>
+#include <stdexcept>
 
 #if USE_BOOST_1024_INT
 #include "boost/lexical_cast.hpp"
@@ -20,9 +21,11 @@ rational::rational(rational_t numerator) {
 }
 
 rational::rational(rational_t numerator, rational_t denominator) {
-  // enforce a positive denominator
-  numerator_ = denominator < 0 ? -numerator : numerator;
-  denominator_ = denominator < 0 ? -denominator : denominator;
+  if (denominator == 0) {
+    throw std::runtime_error("rational: the denominator cannot be zero");
+  }
+  numerator_ = numerator;
+  denominator_ = denominator;
   // bring to canonical form
   reduce();
 }
@@ -63,8 +66,13 @@ rational &rational::operator*=(const rational &rhs) {
 }
 
 rational &rational::operator/=(const rational &rhs) {
-  numerator_ *= rhs.denominator();
-  denominator_ *= rhs.numerator();
+  const rational_t rhs_numerator = rhs.numerator();
+  const rational_t rhs_denominator = rhs.denominator();
+  if (rhs_numerator == 0) {
+    throw std::runtime_error("rational: division by zero");
+  }
+  numerator_ *= rhs_denominator;
+  denominator_ *= rhs_numerator;
   reduce();
   return *this;
 }
@@ -189,6 +197,11 @@ std::ostream &operator<<(std::ostream &os, const rational &rhs) {
 }
 
 void rational::reduce() {
+  // enforce a positive denominator
+  if (denominator_ < 0) {
+    numerator_ = -numerator_;
+    denominator_ = -denominator_;
+  }
 // find the gcd
 #if USE_BOOST_1024_INT
   rational_t gcd = boost::gcd(numerator_, denominator_);
-- 
2.43.0


From c2739951756b4e206dd29bb068a79b9a4e1d703f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:32 +0000
Subject: [PATCH 04/29] fix: return exact numerators and denominators to Python

Values beyond 64 bits were silently clamped to the long long range.
---
 wicked/api/rational_api.cc | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/wicked/api/rational_api.cc b/wicked/api/rational_api.cc
index e440a39..fa85c7e 100644
--- a/wicked/api/rational_api.cc
+++ b/wicked/api/rational_api.cc
@@ -1,3 +1,5 @@
+#include <sstream>
+
 #include <pybind11/pybind11.h>
 
 #include "diagrams/operator.h"
@@ -7,6 +9,16 @@
 namespace py = pybind11;
 using namespace pybind11::literals;
 
+namespace {
+/// Convert an integer of any size to a Python int
+py::object to_py_int(const rational_t &n) {
+  std::ostringstream ss;
+  ss << n;
+  return py::reinterpret_steal<py::object>(
+      PyLong_FromString(ss.str().c_str(), nullptr, 10));
+}
+} // namespace
+
 void export_rational(py::module &m) {
 
   py::class_<rational, std::shared_ptr<rational>>(m, "rational")
@@ -16,13 +28,9 @@ void export_rational(py::module &m) {
       .def("latex", &rational::latex)
       .def("compile", &rational::compile)
       .def("numerator",
-           [](const rational &r) {
-             return static_cast<long long int>(r.numerator());
-           })
+           [](const rational &r) { return to_py_int(r.numerator()); })
       .def("denominator",
-           [](const rational &r) {
-             return static_cast<long long int>(r.denominator());
-           })
+           [](const rational &r) { return to_py_int(r.denominator()); })
       .def("__float__", &rational::to_double)
       .def("__eq__",
            [](const rational &lhs, const rational &rhs) { return lhs == rhs; })
-- 
2.43.0


From 29f07b48ea4432f6d174719ce7696ad356e0a5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:32 +0000
Subject: [PATCH 05/29] fix: drop the terms of an expression multiplied by zero

The terms were kept with coefficient zero, so 0 * A did not compare equal to
the empty expression.
---
 wicked/helpers/algebra.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/wicked/helpers/algebra.hpp b/wicked/helpers/algebra.hpp
index 4c137cf..27286eb 100644
--- a/wicked/helpers/algebra.hpp
+++ b/wicked/helpers/algebra.hpp
@@ -124,6 +124,11 @@ public:
   /// @brief Scalar multiplication assignment operator
   /// @param rhs the scalar to multiply by
   Algebra &operator*=(scalar_t factor) {
+    if (factor == scalar_t(0, 1)) {
+      // do not keep terms with a zero coefficient
+      terms_.clear();
+      return *this;
+    }
     for (auto &[e, c] : terms()) {
       c *= factor;
     }
-- 
2.43.0


From 55c7c75a5569984b2f0ff07736f247fee5d14252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:32 +0000
Subject: [PATCH 06/29] fix: adding or subtracting an expression to itself

Terms that cancel were erased from the map while it was being iterated over.
Also return the sum of two expressions by value (it was a dangling reference).
---
 wicked/diagrams/operator_expression.cc | 4 +++-
 wicked/helpers/algebra.hpp             | 9 ++++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/wicked/diagrams/operator_expression.cc b/wicked/diagrams/operator_expression.cc
index 62996fa..3031266 100644
--- a/wicked/diagrams/operator_expression.cc
+++ b/wicked/diagrams/operator_expression.cc
@@ -15,7 +15,9 @@ OperatorExpression::OperatorExpression(
 }
 
 void OperatorExpression::add2(const OperatorExpression &expr, scalar_t factor) {
-  for (const auto &vec_dop_factor : expr.terms()) {
+  // work on a copy because expr might be this object
+  const auto terms = expr.terms();
+  for (const auto &vec_dop_factor : terms) {
     add(vec_dop_factor.first, factor * vec_dop_factor.second);
   }
 }
diff --git a/wicked/helpers/algebra.hpp b/wicked/helpers/algebra.hpp
index 27286eb..a082a12 100644
--- a/wicked/helpers/algebra.hpp
+++ b/wicked/helpers/algebra.hpp
@@ -71,7 +71,7 @@ public:
 
   /// @brief Addition operator
   /// @param rhs the term to add
-  Derived &operator+(const Algebra &rhs) {
+  Derived operator+(const Algebra &rhs) const {
     Derived result;
     for (const auto &[e, c] : terms()) {
       result.add(e, c);
@@ -93,6 +93,9 @@ public:
   /// @brief Addition assignment operator
   /// @param rhs the term to add
   Algebra &operator+=(const Algebra &rhs) {
+    if (&rhs == this) { // add() modifies the terms that are looped over
+      return *this *= scalar_t(2, 1);
+    }
     for (const auto &[e, c] : rhs.terms()) {
       add(e, c);
     }
@@ -102,6 +105,10 @@ public:
   /// @brief Subtraction assignment operator
   /// @param rhs the term to subtract
   Algebra &operator-=(const Algebra &rhs) {
+    if (&rhs == this) { // add() modifies the terms that are looped over
+      terms_.clear();
+      return *this;
+    }
     for (const auto &[e, c] : rhs.terms()) {
       add(e, -c);
     }
-- 
2.43.0


From 1cb641f90675a3c481583301e2cab3ae7aa29b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:03 +0000
Subject: [PATCH 07/29] fix: add_space leaves the orbital space registry
 unchanged when it fails

The label and some of the indices stayed registered after an error, so later
look ups returned a space that does not exist.
---
 wicked/helpers/orbital_space.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/wicked/helpers/orbital_space.cc b/wicked/helpers/orbital_space.cc
index 10a4cfa..688babd 100644
--- a/wicked/helpers/orbital_space.cc
+++ b/wicked/helpers/orbital_space.cc
@@ -81,23 +81,27 @@ void OrbitalSpaceInfo::add_space(char label, FieldType field_type,
                              "\" is already defined. Use another label.");
   }
 
+  // validate the input before modifying this object
   size_t pos = space_info_.size();
-  label_to_pos_[label] = pos;
+  std::map<std::string, int> new_indices_to_pos(indices_to_pos_);
   for (auto &index : indices) {
-    if (indices_to_pos_.count(index)) {
+    if (new_indices_to_pos.count(index)) {
       throw std::runtime_error(
           "add_space: Index \"" + index +
           "\" is already assigned to another space. Use another index.");
     } else {
-      indices_to_pos_[index] = pos;
+      new_indices_to_pos[index] = pos;
     }
   }
   std::vector<int> elementary_spaces_int;
   for (char e : elementary_spaces) {
-    elementary_spaces_int.push_back(label_to_space(e));
+    // the label of the new space is also valid
+    elementary_spaces_int.push_back(e == label ? pos : label_to_space(e));
   }
   space_info_.push_back(OrbitalSpace(label, field_type, space_type, indices,
                                      elementary_spaces_int));
+  label_to_pos_[label] = pos;
+  indices_to_pos_.swap(new_indices_to_pos);
 }
 
 std::string OrbitalSpaceInfo::str() const {
-- 
2.43.0


From 3a8e34df8d9c5d5deb0bed3abb418c790ba82153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:12 +0000
Subject: [PATCH 08/29] fix: bounds-check orbital space look ups

Indices and operators that refer to spaces that are not (or no longer)
defined, and more orbital spaces than a GraphMatrix can hold, led to out of
bounds memory accesses.
---
 wicked/algebra/index.cc         |  2 +-
 wicked/algebra/symbolic_term.cc |  2 +-
 wicked/algebra/tensor.cc        |  4 ++--
 wicked/diagrams/graph_matrix.cc |  8 +++++++-
 wicked/helpers/orbital_space.cc | 12 +++++++-----
 5 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/wicked/algebra/index.cc b/wicked/algebra/index.cc
index 5b1f31e..285d35f 100644
--- a/wicked/algebra/index.cc
+++ b/wicked/algebra/index.cc
@@ -106,7 +106,7 @@ index_map_t remap(const std::vector<Index> &idx_vec1,
 std::vector<int> num_indices_per_space(const std::vector<Index> &indices) {
   std::vector<int> counter(orbital_subspaces->num_spaces());
   for (const auto &index : indices) {
-    counter[index.space()] += 1;
+    counter.at(index.space()) += 1;
   }
   return counter;
 }
diff --git a/wicked/algebra/symbolic_term.cc b/wicked/algebra/symbolic_term.cc
index 5d7addd..ff51cc5 100644
--- a/wicked/algebra/symbolic_term.cc
+++ b/wicked/algebra/symbolic_term.cc
@@ -183,7 +183,7 @@ scalar_t SymbolicTerm::canonicalize() {
 
   // a. Assign indices to free operators
   for (const auto &sqop : operators_) {
-    tens_index_count[sqop.index().space()] += 1;
+    tens_index_count.at(sqop.index().space()) += 1;
     is_operator_index[sqop.index()] = true;
   }
 
diff --git a/wicked/algebra/tensor.cc b/wicked/algebra/tensor.cc
index 29f83f9..14e4470 100644
--- a/wicked/algebra/tensor.cc
+++ b/wicked/algebra/tensor.cc
@@ -16,10 +16,10 @@ std::vector<std::pair<int, int>> Tensor::signature() const {
   std::vector<std::pair<int, int>> result(orbital_subspaces->num_spaces(),
                                           std::pair(0, 0));
   for (const Index &idx : upper_) {
-    result[idx.space()].first += 1;
+    result.at(idx.space()).first += 1;
   }
   for (const Index &idx : lower_) {
-    result[idx.space()].second += 1;
+    result.at(idx.space()).second += 1;
   }
   return result;
 }
diff --git a/wicked/diagrams/graph_matrix.cc b/wicked/diagrams/graph_matrix.cc
index 3a15a96..9b681a0 100644
--- a/wicked/diagrams/graph_matrix.cc
+++ b/wicked/diagrams/graph_matrix.cc
@@ -1,5 +1,6 @@
 #include <cassert>
 #include <numeric>
+#include <stdexcept>
 
 #include "graph_matrix.h"
 #include "helpers/helpers.h"
@@ -11,8 +12,13 @@ GraphMatrix::GraphMatrix() {}
 
 GraphMatrix::GraphMatrix(const std::vector<int> &cre,
                          const std::vector<int> &ann) {
+  if (orbital_subspaces->num_spaces() > max_spaces_) {
+    throw std::runtime_error(
+        "GraphMatrix: operators can be defined only over up to " +
+        std::to_string(max_spaces_) + " orbital spaces");
+  }
   for (int i = 0; i < orbital_subspaces->num_spaces(); i++) {
-    elements_[i] = std::make_pair(cre[i], ann[i]);
+    elements_[i] = std::make_pair(cre.at(i), ann.at(i));
   }
 }
 
diff --git a/wicked/helpers/orbital_space.cc b/wicked/helpers/orbital_space.cc
index 688babd..d0b47bb 100644
--- a/wicked/helpers/orbital_space.cc
+++ b/wicked/helpers/orbital_space.cc
@@ -123,22 +123,24 @@ std::map<std::string, std::vector<std::string>> OrbitalSpaceInfo::to_dict() cons
   return d;
 }
 
-char OrbitalSpaceInfo::label(int pos) const { return space_info_[pos].label(); }
+char OrbitalSpaceInfo::label(int pos) const {
+  return space_info_.at(pos).label();
+}
 
 const std::string OrbitalSpaceInfo::index_label(int pos, int idx) const {
   const std::vector<std::string> &index_labels = indices(pos);
-  if (idx < index_labels.size()) {
+  if (idx >= 0 and idx < index_labels.size()) {
     return indices(pos)[idx];
   }
   return std::string(1, label(pos)) + "_{" + std::to_string(idx) + "}";
 }
 
 SpaceType OrbitalSpaceInfo::space_type(int pos) const {
-  return space_info_[pos].space_type();
+  return space_info_.at(pos).space_type();
 }
 
 FieldType OrbitalSpaceInfo::field_type(int pos) const {
-  return space_info_[pos].field_type();
+  return space_info_.at(pos).field_type();
 }
 
 const std::string &OrbitalSpaceInfo::op_symbol(int pos) const {
@@ -146,7 +148,7 @@ const std::string &OrbitalSpaceInfo::op_symbol(int pos) const {
 }
 
 const std::vector<std::string> &OrbitalSpaceInfo::indices(int pos) const {
-  return space_info_[pos].indices();
+  return space_info_.at(pos).indices();
 }
 
 int OrbitalSpaceInfo::label_to_space(char label) const {
-- 
2.43.0


From 73e2afe7e825e5a8a40f9e9afeabf69a125b17dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:47 +0000
Subject: [PATCH 09/29] fix: out of bounds write in SymbolicTerm::simplify

Index positions of 64 and above (or negative ones) were written past the end
of a bitset<64>.
---
 wicked/algebra/symbolic_term.cc | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/wicked/algebra/symbolic_term.cc b/wicked/algebra/symbolic_term.cc
index ff51cc5..41ef577 100644
--- a/wicked/algebra/symbolic_term.cc
+++ b/wicked/algebra/symbolic_term.cc
@@ -1,4 +1,5 @@
 #include <algorithm>
+#include <set>
 
 #include "helpers/combinatorics.h"
 #include "helpers/helpers.h"
@@ -250,15 +251,15 @@ scalar_t SymbolicTerm::simplify() {
     WPRINT(cout << "\nSpace " << orbital_subspaces->label(s) << endl;);
 
     std::vector<std::vector<Index>> equivalent_classes;
-    std::vector<std::pair<std::bitset<64>, std::bitset<64>>> ul_bit_masks;
+    std::vector<std::pair<std::set<int>, std::set<int>>> ul_positions;
     for (const auto &tensor : tensors_) {
-      std::bitset<64> upper_bits, lower_bits;
+      std::set<int> upper_positions, lower_positions;
       {
         std::vector<Index> equivalent;
         for (const auto &u : tensor.upper()) {
           if (u.space() == s) {
             equivalent.push_back(u);
-            upper_bits[u.pos()] = true;
+            upper_positions.insert(u.pos());
           }
         }
         if (equivalent.size() > 0)
@@ -269,23 +270,25 @@ scalar_t SymbolicTerm::simplify() {
         for (const auto &l : tensor.lower()) {
           if (l.space() == s) {
             equivalent.push_back(l);
-            lower_bits[l.pos()] = true;
+            lower_positions.insert(l.pos());
           }
         }
         if (equivalent.size() > 0)
           equivalent_classes.push_back(equivalent);
       }
-      ul_bit_masks.push_back(std::make_pair(upper_bits, lower_bits));
+      ul_positions.push_back(std::make_pair(upper_positions, lower_positions));
     }
     WPRINT(
         for (const auto &v
              : equivalent_classes) {
           PRINT_ELEMENTS(v);
           cout << endl;
-        } for (const auto &[ub, lb]
-               : ul_bit_masks) {
-          cout << ub << endl;
-          cout << lb << endl;
+        } for (const auto &[up, lp]
+               : ul_positions) {
+          PRINT_ELEMENTS(up);
+          cout << endl;
+          PRINT_ELEMENTS(lp);
+          cout << endl;
         });
   }
 
-- 
2.43.0


From ec712b8fe72d3ceb296ddd5424edaade1e92e272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:47 +0000
Subject: [PATCH 10/29] fix: index collisions in SymbolicTerm::canonicalize

Operator indices that do not appear on a tensor are not relabeled, but their
labels could be assigned to other indices, which changes the term.
---
 wicked/algebra/symbolic_term.cc | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/wicked/algebra/symbolic_term.cc b/wicked/algebra/symbolic_term.cc
index 41ef577..0da9258 100644
--- a/wicked/algebra/symbolic_term.cc
+++ b/wicked/algebra/symbolic_term.cc
@@ -188,6 +188,25 @@ scalar_t SymbolicTerm::canonicalize() {
     is_operator_index[sqop.index()] = true;
   }
 
+  // indices of operators that do not appear on any tensor keep their label, so
+  // these labels cannot be assigned to any other index
+  std::set<Index> reserved;
+  for (const auto &sqop : operators_) {
+    reserved.insert(sqop.index());
+  }
+  for (const auto &tensor : tensors_) {
+    for (const auto &index : tensor.indices()) {
+      reserved.erase(index);
+    }
+  }
+  auto next_index = [&reserved](int s, std::vector<int> &counter) {
+    Index index(s, counter[s]++);
+    while (reserved.count(index)) {
+      index = Index(s, counter[s]++);
+    }
+    return index;
+  };
+
   // b. Assign indices to tensors operators
   for (const auto &tensor : tensors_) {
     // lower indices
@@ -196,15 +215,13 @@ scalar_t SymbolicTerm::canonicalize() {
         // this index is not shared with an operator
         if (index_map.count(l) == 0) {
           int s = l.space();
-          index_map[l] = Index(s, tens_index_count[s]);
-          tens_index_count[s] += 1;
+          index_map[l] = next_index(s, tens_index_count);
         }
       } else {
         // this index is shared with an operator
         if (index_map.count(l) == 0) {
           int s = l.space();
-          index_map[l] = Index(s, sqop_index_count[s]);
-          sqop_index_count[s] += 1;
+          index_map[l] = next_index(s, sqop_index_count);
         }
       }
     }
@@ -213,14 +230,12 @@ scalar_t SymbolicTerm::canonicalize() {
       if (is_operator_index.count(u) == 0) {
         if (index_map.count(u) == 0) {
           int s = u.space();
-          index_map[u] = Index(s, tens_index_count[s]);
-          tens_index_count[s] += 1;
+          index_map[u] = next_index(s, tens_index_count);
         }
       } else {
         if (index_map.count(u) == 0) {
           int s = u.space();
-          index_map[u] = Index(s, sqop_index_count[s]);
-          sqop_index_count[s] += 1;
+          index_map[u] = next_index(s, sqop_index_count);
         }
       }
     }
-- 
2.43.0


From 11ee0912289616083246ddb609297f191611afc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:47 +0000
Subject: [PATCH 11/29] fix: no sign change when canonicalize reorders bosonic
 operators

---
 wicked/algebra/sqoperator.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wicked/algebra/sqoperator.cc b/wicked/algebra/sqoperator.cc
index d4de1fd..095d8e1 100644
--- a/wicked/algebra/sqoperator.cc
+++ b/wicked/algebra/sqoperator.cc
@@ -145,7 +145,10 @@ scalar_t canonicalize_sqops(Product<SQOperator> &sqops, bool reversed) {
   sqops.clear();
   for (const auto &[sqop, pos] : sqop_pos) {
     sqops.push_back(sqop);
-    perm.push_back(pos);
+    // only the exchange of two fermionic operators leads to a sign
+    if (sqop.field_type() == FieldType::Fermion) {
+      perm.push_back(pos);
+    }
   }
   return permutation_sign(perm);
 }
-- 
2.43.0


From 61b8c30660ebbf3ea757658e134f9d5020dc27f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:47 +0000
Subject: [PATCH 12/29] fix: expressions that could not be read back from their
 printed form

The first coefficient was glued to the tensor label when it has one digit
(2t^{..} reads as a tensor 2t), labels with underscores were truncated,
tensors with spaces between indices were dropped, and bosonic operators in
braces were not recognized as normal ordered.
---
 wicked/algebra/expression.cc | 6 +++---
 wicked/algebra/tensor.cc     | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/wicked/algebra/expression.cc b/wicked/algebra/expression.cc
index 71d8316..17c40e1 100644
--- a/wicked/algebra/expression.cc
+++ b/wicked/algebra/expression.cc
@@ -104,7 +104,7 @@ std::string Expression::str() const {
       }
       // rational(1,1).str() returns "", so we need to handle the case of
       // a pure scalar term with no operator
-      if ((factor_str.size() > 1) and (factor_str != "-")) {
+      if ((factor_str != "") and (factor_str != "+") and (factor_str != "-")) {
         factor_str += " ";
       }
     } else {
@@ -258,10 +258,10 @@ Expression make_expression(const std::string &s, SymmetryType symmetry) {
 
   std::regex factor_re, operator_re, normal_ordered_re, tensor_re;
   if (syntax == TensorSyntax::Wicked) {
-    tensor_re = std::regex(R"(([a-zA-Z0-9]+\^\{[\w,\d]*\}_\{[\w,\d]*\}))");
+    tensor_re = std::regex(R"((\w+\^\{[\w,\s]*\}_\{[\w,\s]*\}))");
     operator_re = std::regex(R"([ab]([+-]{1,1})\(([\w\d]*)\))");
     factor_re = std::regex(R"(^\s*([+-]?\d*\/?\d*)\s*)");
-    normal_ordered_re = std::regex(R"((?:\{(?:\s*a[+-]\([\w\d]+\))+\s*\}))");
+    normal_ordered_re = std::regex(R"((?:\{(?:\s*[ab][+-]\([\w\d]+\))+\s*\}))");
   }
 
   auto tensors = findall(s, tensor_re);
diff --git a/wicked/algebra/tensor.cc b/wicked/algebra/tensor.cc
index 14e4470..1f99aa4 100644
--- a/wicked/algebra/tensor.cc
+++ b/wicked/algebra/tensor.cc
@@ -181,7 +181,7 @@ Tensor make_tensor(const std::string &label,
 Tensor make_tensor_from_str(const std::string &s, SymmetryType symmetry) {
   std::smatch sm;
   auto const tensor_re =
-      std::regex("([a-zA-Z0-9]+)\\^\\{([\\w,\\s]*)\\}_\\{([\\w,\\s]*)\\}");
+      std::regex("(\\w+)\\^\\{([\\w,\\s]*)\\}_\\{([\\w,\\s]*)\\}");
   auto m = std::regex_match(s, sm, tensor_re);
   if (not m) {
     throw std::runtime_error("\nCould not convert the string " + s +
-- 
2.43.0


From 7851853b3b98bbc51e9b2a11d819d8f3144f6055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:59 +0000
Subject: [PATCH 13/29] fix: print the coefficient of scalar terms equal to one

The LaTeX of a scalar term +1 or -1 had no digits, and so had the string of a
term -1 and of an equation without tensors. Also add the sign of positive
integers to the LaTeX of rationals that do not use boost, and store the result
of Expression::reindex.
---
 wicked/algebra/equation.cc   | 11 +++++++++--
 wicked/algebra/expression.cc | 11 ++++++++++-
 wicked/algebra/term.cc       |  9 +++++++--
 wicked/helpers/rational.cc   |  3 ++-
 4 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/wicked/algebra/equation.cc b/wicked/algebra/equation.cc
index b1f2d4f..2348139 100644
--- a/wicked/algebra/equation.cc
+++ b/wicked/algebra/equation.cc
@@ -34,8 +34,15 @@ std::string Equation::str() const {
   std::vector<std::string> str_vec;
   str_vec.push_back(lhs_.str());
   str_vec.push_back("+=");
-  str_vec.push_back(factor_.str());
-  str_vec.push_back(rhs_.str());
+  const std::string rhs_str = rhs_.str();
+  std::string factor_str = factor_.str();
+  // rational(1,1).str() returns "" and rational(-1,1).str() returns "-", so we
+  // need to handle the case of a right-hand side without tensors
+  if (rhs_str.empty() and (factor_str == "" or factor_str == "-")) {
+    factor_str += "1";
+  }
+  str_vec.push_back(factor_str);
+  str_vec.push_back(rhs_str);
   return (join(str_vec, " "));
 }
 
diff --git a/wicked/algebra/expression.cc b/wicked/algebra/expression.cc
index 17c40e1..3488869 100644
--- a/wicked/algebra/expression.cc
+++ b/wicked/algebra/expression.cc
@@ -80,6 +80,7 @@ Expression &Expression::reindex(index_map_t &idx_map) {
     term.reindex(idx_map);
     add_to_map(reindexed_terms, term, kv.second);
   }
+  terms_ = reindexed_terms;
   return *this;
 }
 
@@ -146,7 +147,15 @@ std::string Expression::latex(const std::string &sep) const {
   std::vector<std::string> str_vec;
   bool first = true;
   for (const auto &[term, factor] : terms_) {
-    str_vec.push_back(factor.latex(first) + ' ' + term.latex());
+    const std::string term_latex = term.latex();
+    std::string factor_latex = factor.latex(first);
+    // rational(1,1).latex() returns "+" and rational(-1,1).latex() returns "-",
+    // so we need to handle the case of a pure scalar term
+    if (term_latex.empty() and
+        (factor_latex == "+" or factor_latex == "-")) {
+      factor_latex += "1";
+    }
+    str_vec.push_back(factor_latex + ' ' + term_latex);
     first = false;
   }
   return join(str_vec, sep);
diff --git a/wicked/algebra/term.cc b/wicked/algebra/term.cc
index c301a47..f4c6872 100644
--- a/wicked/algebra/term.cc
+++ b/wicked/algebra/term.cc
@@ -33,7 +33,7 @@ std::string Term::str() const {
   if ((term_str == "") and (coeff_str == "")) {
     return "1";
   } else if ((term_str == "") and (coeff_str != "")) {
-    return coeff_str;
+    return coeff_str == "-" ? "-1" : coeff_str;
   } else if ((term_str != "") and (coeff_str == "")) {
     return term_str;
   }
@@ -41,7 +41,12 @@ std::string Term::str() const {
 }
 
 std::string Term::latex() const {
-  return coefficient_.latex(true) + " " + SymbolicTerm::latex();
+  const std::string term_latex = SymbolicTerm::latex();
+  std::string coeff_latex = coefficient_.latex(true);
+  if (term_latex.empty() and (coeff_latex == "+" or coeff_latex == "-")) {
+    coeff_latex += "1";
+  }
+  return coeff_latex + " " + term_latex;
 }
 
 std::ostream &operator<<(std::ostream &os, const Term &term) {
diff --git a/wicked/helpers/rational.cc b/wicked/helpers/rational.cc
index cb90356..94446ca 100644
--- a/wicked/helpers/rational.cc
+++ b/wicked/helpers/rational.cc
@@ -134,7 +134,8 @@ std::string rational::latex(bool first) const {
         s += (first ? "" : (numerator_ > 0 ? "+" : "")) +
              boost::lexical_cast<std::string>(numerator_);
 #else
-        s += std::to_string(numerator_);
+        s += (first ? "" : (numerator_ > 0 ? "+" : "")) +
+             std::to_string(numerator_);
 #endif
       }
     } else {
-- 
2.43.0


From 8243c238ba53ef2f70315379cad2b267b6c299cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:16 +0000
Subject: [PATCH 14/29] fix: integer overflow in the factors of operators with
 many legs

Factorials and binomials were converted to int, so operators with 13 or more
equivalent legs had a wrong prefactor.
---
 wicked/diagrams/operator.cc                          | 12 ++++++++----
 wicked/diagrams/wick_theorem_process_contractions.cc |  4 ++--
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/wicked/diagrams/operator.cc b/wicked/diagrams/operator.cc
index b22e1a1..fbaaf82 100644
--- a/wicked/diagrams/operator.cc
+++ b/wicked/diagrams/operator.cc
@@ -18,12 +18,16 @@ const std::string &Operator::label() const { return label_; }
 GraphMatrix Operator::graph_matrix() const { return graph_matrix_; }
 
 scalar_t Operator::factor() const {
+  // divide by the factorials one factor at a time because 13! does not fit in
+  // an int and 21! does not fit in a long long int
   scalar_t result = 1;
   for (int s = 0; s < orbital_subspaces->num_spaces(); ++s) {
-    result /= static_cast<scalar_t>(factorial(cre(s)));
-  }
-  for (int s = 0; s < orbital_subspaces->num_spaces(); ++s) {
-    result /= static_cast<scalar_t>(factorial(ann(s)));
+    for (int i = 2; i <= cre(s); ++i) {
+      result /= scalar_t(i);
+    }
+    for (int i = 2; i <= ann(s); ++i) {
+      result /= scalar_t(i);
+    }
   }
   return result;
 }
diff --git a/wicked/diagrams/wick_theorem_process_contractions.cc b/wicked/diagrams/wick_theorem_process_contractions.cc
index cbd1641..213cdd2 100644
--- a/wicked/diagrams/wick_theorem_process_contractions.cc
+++ b/wicked/diagrams/wick_theorem_process_contractions.cc
@@ -543,8 +543,8 @@ WickTheorem::combinatorial_factor(const OperatorProduct &ops,
       for (int s = 0; s < orbital_subspaces->num_spaces(); s++) {
         const auto &[kcre, kann] = graph_matrix.elements(s);
         const auto &[ncre, nann] = free_graph_matrix[v].elements(s);
-        factor *= binomial(ncre, kcre);
-        factor *= binomial(nann, kann);
+        factor *= scalar_t(rational_t(binomial(ncre, kcre)));
+        factor *= scalar_t(rational_t(binomial(nann, kann)));
       }
       free_graph_matrix[v] -= graph_matrix;
     }
-- 
2.43.0


From cbe1793cb1208ca103b3c2bbcd789313240b650f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:16 +0000
Subject: [PATCH 15/29] fix: gen_op(diagonal=False) with diagonal components
 over several spaces

The creation and annihilation spaces are sorted in opposite order, so a
component like 'a+ b+ b a' was not recognized as diagonal.
---
 wicked/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wicked/utils.py b/wicked/utils.py
index b60b9ac..18f7310 100644
--- a/wicked/utils.py
+++ b/wicked/utils.py
@@ -45,7 +45,8 @@ def gen_op(label, rank, cre_spaces, ann_spaces, diagonal=True):
                 is_re_sorted = all(m[re[i]] >= m[re[i + 1]] for i in range(len(re) - 1))
                 if is_re_sorted:
                     if not diagonal:
-                        if le != re:
+                        # re is sorted in the opposite order of le
+                        if le != re[::-1]:
                             terms.append(
                                 " ".join([s + "+" for s in le]) + " " + " ".join(re)
                             )
-- 
2.43.0


From f0b8d3db9023f2fd147da66b786e1af539ec9d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:16 +0000
Subject: [PATCH 16/29] fix: compile_einsum for equations with a tensor on the
 left-hand side

It passed a list of tensors where a tensor is expected (AttributeError) and
took the label from the first tensor of the right-hand side.
---
 wicked/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wicked/utils.py b/wicked/utils.py
index 18f7310..c12b851 100644
--- a/wicked/utils.py
+++ b/wicked/utils.py
@@ -95,9 +95,9 @@ def compile_einsum(equation):
     tensor_label_string += "optimize='optimal')"
 
     if (lhs.tensors()[0].upper() != [] or lhs.tensors()[0].lower() != []): # If the lhs is not a scalar
-        left = rhs.tensors()[0].label()
+        left = lhs.tensors()[0].label()
         left += ''.join([osi.label(_.space()) for _ in lhs.tensors()[0].upper()]) + ''.join([osi.label(_.space()) for _ in lhs.tensors()[0].lower()])
-        res_indx = _get_unique_tensor_indices(rhs.tensors(), unused_indices, index_dict)
+        res_indx = _get_unique_tensor_indices(lhs.tensors()[0], unused_indices, index_dict)
         index_string += res_indx
     else: # If it's scalar, just return the label.
         left = lhs.tensors()[0].label()
-- 
2.43.0


From 2a2856542cbe4a9324b4a737486e6ee8454cbf96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:16 +0000
Subject: [PATCH 17/29] fix: read rationals of any size from strings

Coefficients that do not fit in an int are printed but could not be read.
---
 wicked/helpers/rational.cc | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/wicked/helpers/rational.cc b/wicked/helpers/rational.cc
index 94446ca..a5bd2da 100644
--- a/wicked/helpers/rational.cc
+++ b/wicked/helpers/rational.cc
@@ -1,3 +1,4 @@
+#include <limits>
 #include <numeric>
 #include <regex>
 #include <stdexcept>
@@ -218,6 +219,22 @@ void rational::reduce() {
 
 #include <iostream>
 
+/// convert a string of decimal digits to an integer
+static rational_t integer_from_str(const std::string &digits) {
+#if USE_BOOST_1024_INT
+  rational_t result = 0;
+  for (const char c : digits) {
+    if (result > (std::numeric_limits<rational_t>::max)() / 10 - 1) {
+      throw std::out_of_range("\nThe number " + digits + " is too large");
+    }
+    result = result * 10 + (c - '0');
+  }
+  return result;
+#else
+  return std::stoll(digits);
+#endif
+}
+
 rational make_rational_from_str(const std::string &s) {
   std::smatch sm;
   auto factor_re = std::regex("^\\s*([+-])?(\\d*)?(\\/)?(\\d*)?\\s*");
@@ -230,7 +247,7 @@ rational make_rational_from_str(const std::string &s) {
   std::string numerator_str = sm[2];
   std::string division = sm[3];
   std::string denominator_str = sm[4];
-  int numerator = 1, denominator = 1;
+  rational_t numerator = 1, denominator = 1;
   if (sign == "-") {
     numerator *= -1;
   }
@@ -242,10 +259,10 @@ rational make_rational_from_str(const std::string &s) {
                                " to a rational object");
   }
   if (numerator_str.size() > 0) {
-    numerator *= std::stoi(numerator_str);
+    numerator *= integer_from_str(numerator_str);
   }
   if ((division == "/") and (denominator_str.size() > 0)) {
-    denominator *= std::stoi(denominator_str);
+    denominator *= integer_from_str(denominator_str);
   }
   return rational(numerator, denominator);
 }
-- 
2.43.0


From ceed4aa5166323ff764c470da06e9d36f899523a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:16 +0000
Subject: [PATCH 18/29] fix: generated code rounded the coefficients to 6-9
 decimals

Small coefficients lost most of their digits or became zero (for example those
of amplitudes with many equivalent indices).
---
 wicked/algebra/equation.cc | 9 +++++++--
 wicked/helpers/rational.cc | 7 +++++--
 wicked/utils.py            | 7 ++++++-
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/wicked/algebra/equation.cc b/wicked/algebra/equation.cc
index 2348139..2be4385 100644
--- a/wicked/algebra/equation.cc
+++ b/wicked/algebra/equation.cc
@@ -118,8 +118,13 @@ std::string Equation::compile(const std::string &format) const {
       lhs_tensor_label += orbital_subspaces->label(l.space());
     }
 
-    str_vec.push_back(lhs_tensor_label +
-                      " += " + std::format("{:.9f}", rhs_factor().to_double()) +
+    // use more digits when nine decimals do not represent the factor exactly
+    const double factor = rhs_factor().to_double();
+    std::string factor_str = std::format("{:.9f}", factor);
+    if (std::stod(factor_str) != factor) {
+      factor_str = std::format("{:.17g}", factor);
+    }
+    str_vec.push_back(lhs_tensor_label + " += " + factor_str +
                       " * np.einsum(");
 
     std::map<std::string, std::string> index_map;
diff --git a/wicked/helpers/rational.cc b/wicked/helpers/rational.cc
index a5bd2da..984ab9a 100644
--- a/wicked/helpers/rational.cc
+++ b/wicked/helpers/rational.cc
@@ -1,3 +1,4 @@
+#include <format>
 #include <limits>
 #include <numeric>
 #include <regex>
@@ -158,8 +159,10 @@ std::string rational::latex(bool first) const {
 }
 
 std::string rational::compile(const std::string &format) const {
-  return std::to_string(static_cast<double>(numerator_) /
-                        static_cast<double>(denominator_));
+  const double value = to_double();
+  const std::string s = std::to_string(value);
+  // use more digits when six decimals do not represent the value exactly
+  return std::stod(s) == value ? s : std::format("{:.17g}", value);
 }
 
 rational operator+(rational lhs, const rational &rhs) {
diff --git a/wicked/utils.py b/wicked/utils.py
index c12b851..92f47f4 100644
--- a/wicked/utils.py
+++ b/wicked/utils.py
@@ -102,9 +102,14 @@ def compile_einsum(equation):
     else: # If it's scalar, just return the label.
         left = lhs.tensors()[0].label()
 
+    # use more digits when eight decimals do not represent the factor exactly
+    factor_string = f"{float(factor):+.8f}"
+    if float(factor_string) != float(factor):
+        factor_string = f"{float(factor):+.17g}"
+
     einsum_string = left \
         + ' ' \
-        + f"+= {float(factor):+.8f} * np.einsum('"\
+        + f"+= {factor_string} * np.einsum('"\
         + index_string \
         + "', " \
         + tensor_label_string
-- 
2.43.0


From 66e61d32287ac4f469c390a3dd8d3df7e0bc11d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:19 +0000
Subject: [PATCH 19/29] fix: report equations that cannot be written as an
 einsum

Equation::compile read past the end of the list of unused letters when there
are more than 52 indices, and of the tensors of an empty left-hand side.
---
 wicked/algebra/equation.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/wicked/algebra/equation.cc b/wicked/algebra/equation.cc
index 2be4385..24f033b 100644
--- a/wicked/algebra/equation.cc
+++ b/wicked/algebra/equation.cc
@@ -63,6 +63,10 @@ std::string get_unique_index(const std::string &s,
   // is this index (something like "i" or "o2") in the map? If not, figure out
   // what it corresponds to.
   if (index_map.count(s) == 0) {
+    if (unused_indices.empty()) {
+      throw std::runtime_error("Equation::compile() - einsum expressions cannot "
+                               "have more than 52 distinct indices");
+    }
     // a character
     if (s.size() == 1) {
       if (std::find(unused_indices.begin(), unused_indices.end(), s) !=
@@ -108,6 +112,10 @@ std::string Equation::compile(const std::string &format) const {
 
   if (format == "einsum") {
     std::vector<std::string> str_vec;
+    if (lhs().tensors().empty()) {
+      throw std::runtime_error(
+          "Equation::compile() - there is no tensor on the left-hand side");
+    }
     const auto &lhs_tensor = lhs().tensors()[0];
 
     std::string lhs_tensor_label = lhs_tensor.label();
-- 
2.43.0


From 4f7373033727d9a114d9d6c0c77089861f11e0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:00 +0000
Subject: [PATCH 20/29] fix: integer_partitions(1, 0) returned a partition with
 one part

---
 wicked/helpers/combinatorics.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wicked/helpers/combinatorics.cc b/wicked/helpers/combinatorics.cc
index c6c8740..1e2951c 100644
--- a/wicked/helpers/combinatorics.cc
+++ b/wicked/helpers/combinatorics.cc
@@ -83,7 +83,7 @@ std::vector<std::vector<int>> integer_partitions(int n, int maxlen) {
   } else if (n == 0) {
     // Special case not handled by ZS2
     partitions.push_back({});
-  } else if (n == 1) {
+  } else if (n == 1 and maxlen >= 1) {
     // Special case not handled by ZS2
     partitions.push_back({1});
   }
-- 
2.43.0


From 4450a11dc0117f2b64de50d67c3d0600779981fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:40 +0000
Subject: [PATCH 21/29] fix: concurrent output of threaded contractions

---
 wicked/diagrams/wick_theorem_process_contractions.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/wicked/diagrams/wick_theorem_process_contractions.cc b/wicked/diagrams/wick_theorem_process_contractions.cc
index 213cdd2..5e2e675 100644
--- a/wicked/diagrams/wick_theorem_process_contractions.cc
+++ b/wicked/diagrams/wick_theorem_process_contractions.cc
@@ -120,10 +120,15 @@ Expression WickTheorem::process_contractions_threads(scalar_t factor,
   std::vector<std::future<Expression>> futures;
   int ops_rank = ops.num_ops();
 
+  // when printing, process the contractions one at a time because concurrent
+  // formatted output to std::cout is a data race and would be interleaved
+  const auto policy = (print_ > PrintLevel::None) ? std::launch::deferred
+                                                  : std::launch::async;
+
   // Launch async tasks for each contraction
   for (const auto &contraction_vec : contractions_) {
     futures.push_back(
-        std::async(std::launch::async, [this, &ops, &contraction_vec, factor,
+        std::async(policy, [this, &ops, &contraction_vec, factor,
                                         minrank, maxrank, ops_rank] {
           return process_single_contraction(ops, contraction_vec, minrank,
                                             maxrank, factor, ops_rank);
-- 
2.43.0


From 46986934808f5201abb2ac2af9ae79d0e365b4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:44 +0000
Subject: [PATCH 22/29] fix: no sign change when bosonic operators of a product
 are reordered

---
 wicked/diagrams/operator_product.cc | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/wicked/diagrams/operator_product.cc b/wicked/diagrams/operator_product.cc
index a8a603e..84d2110 100644
--- a/wicked/diagrams/operator_product.cc
+++ b/wicked/diagrams/operator_product.cc
@@ -1,3 +1,5 @@
+#include "helpers/orbital_space.h"
+
 #include "operator_product.h"
 
 using namespace std;
@@ -10,6 +12,17 @@ int OperatorProduct::num_ops() const {
   return r;
 }
 
+/// the number of fermionic second quantized operators
+static int num_fermionic_ops(const Operator &op) {
+  int r = 0;
+  for (int s = 0; s < orbital_subspaces->num_spaces(); s++) {
+    if (orbital_subspaces->field_type(s) == FieldType::Fermion) {
+      r += op.cre(s) + op.ann(s);
+    }
+  }
+  return r;
+}
+
 scalar_t OperatorProduct::canonicalize() {
   int nperm = 0;
   int n = elements_.size();
@@ -17,7 +30,9 @@ scalar_t OperatorProduct::canonicalize() {
     // Last i elements are already in place
     for (int j = 0; j < n - i - 1; j++) {
       if (operator_noncommuting_less(elements_[j + 1], elements_[j])) {
-        nperm += elements_[j].num_ops() * elements_[j + 1].num_ops();
+        // only the exchange of fermionic operators leads to a sign
+        nperm += num_fermionic_ops(elements_[j]) *
+                 num_fermionic_ops(elements_[j + 1]);
         swap(elements_[j], elements_[j + 1]);
       }
     }
-- 
2.43.0


From bb89d973718cf7282289da82292a03c5697e9d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:19 +0000
Subject: [PATCH 23/29] fix: einsum code of equations without tensors or that
 einsum cannot express

---
 wicked/algebra/equation.cc | 28 +++++++++++++++++++++++++++-
 wicked/utils.py            | 16 ++++++++++++++++
 2 files changed, 43 insertions(+), 1 deletion(-)

diff --git a/wicked/algebra/equation.cc b/wicked/algebra/equation.cc
index 24f033b..593a9cf 100644
--- a/wicked/algebra/equation.cc
+++ b/wicked/algebra/equation.cc
@@ -106,7 +106,9 @@ std::string Equation::compile(const std::string &format) const {
   if (format == "ambit") {
     std::vector<std::string> str_vec;
     str_vec.push_back(lhs_.compile(format) + " += " + factor_.compile(format));
-    str_vec.push_back(rhs_.compile(format));
+    if (not rhs().tensors().empty()) {
+      str_vec.push_back(rhs_.compile(format));
+    }
     return (join(str_vec, " * ") + ";");
   }
 
@@ -132,6 +134,30 @@ std::string Equation::compile(const std::string &format) const {
     if (std::stod(factor_str) != factor) {
       factor_str = std::format("{:.17g}", factor);
     }
+
+    // each index of the left-hand side must appear there only once and must
+    // label a tensor on the right-hand side
+    std::vector<Index> rhs_indices;
+    for (const auto &t : rhs().tensors()) {
+      const auto t_indices = t.indices();
+      rhs_indices.insert(rhs_indices.end(), t_indices.begin(), t_indices.end());
+    }
+    const auto lhs_indices = lhs_tensor.indices();
+    bool valid =
+        lhs_indices.size() == lhs_tensor.upper().size() + lhs_tensor.lower().size();
+    for (const auto &l : lhs_indices) {
+      valid = valid and (std::find(rhs_indices.begin(), rhs_indices.end(), l) !=
+                         rhs_indices.end());
+    }
+    if (not valid) {
+      throw std::runtime_error("Equation::compile() - the equation " + str() +
+                               " cannot be written as an einsum expression");
+    }
+
+    if (rhs().tensors().empty()) {
+      return lhs_tensor_label + " += " + factor_str;
+    }
+
     str_vec.push_back(lhs_tensor_label + " += " + factor_str +
                       " * np.einsum(");
 
diff --git a/wicked/utils.py b/wicked/utils.py
index 92f47f4..bcf11b8 100644
--- a/wicked/utils.py
+++ b/wicked/utils.py
@@ -70,6 +70,10 @@ def compile_einsum(equation):
                 indstr += index_dict[i]
             else:
                 index = unused_indices[i[0]].pop(0)
+                if not (len(index) == 1 and index.isascii() and index.isalpha()):
+                    raise ValueError(
+                        f"compile_einsum: the index {index} is not a single letter"
+                    )
                 index_dict[i] = index
                 indstr += index
         
@@ -83,6 +87,15 @@ def compile_einsum(equation):
     rhs = equation.rhs()
     factor = equation.rhs_factor()
 
+    # each index of the left-hand side must appear there only once and must
+    # label a tensor on the right-hand side
+    lhs_indices = [str(i) for t in lhs.tensors()[:1] for i in t.upper() + t.lower()]
+    rhs_indices = [str(i) for t in rhs.tensors() for i in t.upper() + t.lower()]
+    if len(set(lhs_indices)) != len(lhs_indices) or not set(lhs_indices) <= set(rhs_indices):
+        raise ValueError(
+            f"compile_einsum: the equation {equation} cannot be written as an einsum expression"
+        )
+
     index_string = ''  # holds the expression part of the einsum contraction, e.g., iuvw,xyzr,wr,vz->iuxy 
     tensor_label_string = '' # holds the tensor label part of the einsum contraction, e.g., T2['caaa'], V['aaaa'], eta1, eta1, optimize='optimal')
 
@@ -107,6 +120,9 @@ def compile_einsum(equation):
     if float(factor_string) != float(factor):
         factor_string = f"{float(factor):+.17g}"
 
+    if not rhs.tensors():
+        return left + f" += {factor_string}"
+
     einsum_string = left \
         + ' ' \
         + f"+= {factor_string} * np.einsum('"\
-- 
2.43.0


From a254390b9d19489eaeaa8bd886d2916a9f6ce1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:51 +0000
Subject: [PATCH 24/29] fix: operator_expr ignored its coefficient

---
 wicked/algebra/expression.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wicked/algebra/expression.cc b/wicked/algebra/expression.cc
index 3488869..655cbe1 100644
--- a/wicked/algebra/expression.cc
+++ b/wicked/algebra/expression.cc
@@ -250,7 +250,7 @@ Expression make_operator_expr(const std::string &label,
     std::reverse(std::begin(ann), std::end(ann));
     Tensor tensor(label, cre, ann, symmetry);
     term.add(tensor);
-    result.add(term);
+    result.add(term, coefficient);
   }
   return result;
 }
-- 
2.43.0


From e4305bc153413cc81c99d359ad40856312870f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:33 +0000
Subject: [PATCH 25/29] fix: LaTeX form of strings with bosonic operators

---
 wicked/algebra/symbolic_term.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/wicked/algebra/symbolic_term.cc b/wicked/algebra/symbolic_term.cc
index 0da9258..d2041c1 100644
--- a/wicked/algebra/symbolic_term.cc
+++ b/wicked/algebra/symbolic_term.cc
@@ -414,7 +414,12 @@ std::string SymbolicTerm::latex() const {
   if (nops()) {
     if (normal_ordered())
       str_vec.push_back("\\{");
-    if (is_creation_then_annihilation()) {
+    // fermionic and bosonic operators are not written with the same symbol
+    std::set<std::string> symbols;
+    for (const auto &op : operators_) {
+      symbols.insert(op.op_symbol());
+    }
+    if (is_creation_then_annihilation() and symbols.size() == 1) {
       std::vector<std::string> str_vec_cre;
       std::vector<std::string> str_vec_ann;
       for (const auto &op : operators_) {
@@ -426,7 +431,8 @@ std::string SymbolicTerm::latex() const {
       }
       // reverse the order of the annihilation operators
       std::reverse(str_vec_ann.begin(), str_vec_ann.end());
-      std::string op_str = "\\hat{a}^{" + join(str_vec_cre, " ") + "}_{" +
+      std::string op_str = "\\hat{" + *symbols.begin() + "}^{" +
+                           join(str_vec_cre, " ") + "}_{" +
                            join(str_vec_ann, " ") + "}";
       str_vec.push_back(op_str);
     } else {
-- 
2.43.0


From 105fc990555ccf2ea621b5090cbfd5aab658dce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:11 +0000
Subject: [PATCH 26/29] fix: iterating over an expression handed out references
 into it

The terms were references to the keys of the map of the expression: adding
an operator to one of them changed the expression, and removing the term
while it was in use was a use after free.
---
 wicked/api/expression_api.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/wicked/api/expression_api.cc b/wicked/api/expression_api.cc
index 04f42e4..e13c4d0 100644
--- a/wicked/api/expression_api.cc
+++ b/wicked/api/expression_api.cc
@@ -57,10 +57,16 @@ void export_Expression(py::module &m) {
             return lhs;
           },
           py::is_operator()) // Bind in-place addition with Term
-      .def(
-          "__iter__",
-          [](Expression &e) { return py::make_iterator(e.begin(), e.end()); },
-          py::keep_alive<0, 1>())
+      .def("__iter__",
+           [](const Expression &e) {
+             // iterate over copies of the terms, so that the terms stay valid
+             // and the expression unchanged whatever is done with either
+             py::list terms;
+             for (const auto &[term, coefficient] : e) {
+               terms.append(py::make_tuple(term, coefficient));
+             }
+             return py::iter(terms);
+           })
       .def("dot", &Expression::dot, "rhs"_a)
       .def("norm", &Expression::norm)
       .def("latex", &Expression::latex, "sep"_a = " \\\\ \n")
-- 
2.43.0


From 94e6b03efd526b5c022a11aee8c7e396d4e59592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:24 +0000
Subject: [PATCH 27/29] fix: reading long strings overflowed the stack

libstdc++ matches regular expressions by recursing for each character, so that
a tensor, index, number or label of some ten thousand characters ended the
process instead of raising an exception.
---
 wicked/algebra/expression.cc           | 8 ++++----
 wicked/algebra/index.cc                | 2 +-
 wicked/algebra/tensor.cc               | 4 ++--
 wicked/diagrams/operator_expression.cc | 2 +-
 wicked/helpers/helpers.cc              | 9 +++++++++
 wicked/helpers/helpers.h               | 5 +++++
 wicked/helpers/rational.cc             | 3 ++-
 7 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/wicked/algebra/expression.cc b/wicked/algebra/expression.cc
index 655cbe1..02b52a7 100644
--- a/wicked/algebra/expression.cc
+++ b/wicked/algebra/expression.cc
@@ -267,10 +267,10 @@ Expression make_expression(const std::string &s, SymmetryType symmetry) {
 
   std::regex factor_re, operator_re, normal_ordered_re, tensor_re;
   if (syntax == TensorSyntax::Wicked) {
-    tensor_re = std::regex(R"((\w+\^\{[\w,\s]*\}_\{[\w,\s]*\}))");
-    operator_re = std::regex(R"([ab]([+-]{1,1})\(([\w\d]*)\))");
-    factor_re = std::regex(R"(^\s*([+-]?\d*\/?\d*)\s*)");
-    normal_ordered_re = std::regex(R"((?:\{(?:\s*[ab][+-]\([\w\d]+\))+\s*\}))");
+    tensor_re = make_regex(R"((\w+\^\{[\w,\s]*\}_\{[\w,\s]*\}))");
+    operator_re = make_regex(R"([ab]([+-]{1,1})\(([\w\d]*)\))");
+    factor_re = make_regex(R"(^\s*([+-]?\d*\/?\d*)\s*)");
+    normal_ordered_re = make_regex(R"((?:\{(?:\s*[ab][+-]\([\w\d]+\))+\s*\}))");
   }
 
   auto tensors = findall(s, tensor_re);
diff --git a/wicked/algebra/index.cc b/wicked/algebra/index.cc
index 285d35f..e00a944 100644
--- a/wicked/algebra/index.cc
+++ b/wicked/algebra/index.cc
@@ -55,7 +55,7 @@ scalar_t canonicalize_indices(std::vector<Index> &indices, bool reversed) {
 
 Index make_index_from_str(const std::string &s) {
   std::smatch sm;
-  auto m = std::regex_match(s, sm, std::regex("([a-zA-Z])[_]?(\\d+)"));
+  auto m = std::regex_match(s, sm, make_regex("([a-zA-Z])[_]?(\\d+)"));
   if (not m) {
     throw std::runtime_error("\nCould not convert the string " + s +
                              " to an Index object");
diff --git a/wicked/algebra/tensor.cc b/wicked/algebra/tensor.cc
index 1f99aa4..5b8803c 100644
--- a/wicked/algebra/tensor.cc
+++ b/wicked/algebra/tensor.cc
@@ -123,7 +123,7 @@ std::string Tensor::latex() const {
   // read the label. Here we try to separate the name (e.g., lambda) from the
   // subscript (eg. 1). For greek letters we omit the subscript.
   std::smatch sm;
-  auto m = std::regex_match(label_, sm, std::regex("([a-zA-Z]+)[_]?(\\d+)?"));
+  auto m = std::regex_match(label_, sm, make_regex("([a-zA-Z]+)[_]?(\\d+)?"));
   if (not m) {
     throw std::runtime_error("\nCould not parse tensor label " + label_);
   }
@@ -181,7 +181,7 @@ Tensor make_tensor(const std::string &label,
 Tensor make_tensor_from_str(const std::string &s, SymmetryType symmetry) {
   std::smatch sm;
   auto const tensor_re =
-      std::regex("(\\w+)\\^\\{([\\w,\\s]*)\\}_\\{([\\w,\\s]*)\\}");
+      make_regex("(\\w+)\\^\\{([\\w,\\s]*)\\}_\\{([\\w,\\s]*)\\}");
   auto m = std::regex_match(s, sm, tensor_re);
   if (not m) {
     throw std::runtime_error("\nCould not convert the string " + s +
diff --git a/wicked/diagrams/operator_expression.cc b/wicked/diagrams/operator_expression.cc
index 3031266..9a88296 100644
--- a/wicked/diagrams/operator_expression.cc
+++ b/wicked/diagrams/operator_expression.cc
@@ -75,7 +75,7 @@ make_diag_operator_expression(const std::string &label,
   OperatorExpression result;
 
   for (const std::string &s : components) {
-    auto s_vec = findall(s, std::regex(R"(([a-zA-Z][+^]?))"));
+    auto s_vec = findall(s, make_regex(R"(([a-zA-Z][+^]?))"));
     std::vector<int> cre(orbital_subspaces->num_spaces());
     std::vector<int> ann(orbital_subspaces->num_spaces());
 
diff --git a/wicked/helpers/helpers.cc b/wicked/helpers/helpers.cc
index 1c827a0..1ef0ee7 100644
--- a/wicked/helpers/helpers.cc
+++ b/wicked/helpers/helpers.cc
@@ -53,6 +53,15 @@ std::vector<std::string> split(const std::string &s, regex re) {
   return result;
 }
 
+std::regex make_regex(const std::string &pattern) {
+#ifdef __GLIBCXX__
+  return std::regex(pattern,
+                    std::regex::ECMAScript | std::regex_constants::__polynomial);
+#else
+  return std::regex(pattern);
+#endif
+}
+
 std::vector<std::string> findall(const string &s, const std::regex &regex) {
   std::vector<std::string> result;
   try {
diff --git a/wicked/helpers/helpers.h b/wicked/helpers/helpers.h
index 8adeb21..2b59e6d 100644
--- a/wicked/helpers/helpers.h
+++ b/wicked/helpers/helpers.h
@@ -19,6 +19,11 @@ std::vector<std::string> split(const std::string &s,
                                std::regex re = std::regex("[\\s,]+"));
 
 /// Find all occurences of a pattern
+/// Make a regular expression that can be matched with strings of any length.
+/// By default libstdc++ recurses for each character of the string and runs out
+/// of stack when strings are long
+std::regex make_regex(const std::string &pattern);
+
 std::vector<std::string> findall(const std::string &s, const std::regex &regex);
 
 /// Split indices
diff --git a/wicked/helpers/rational.cc b/wicked/helpers/rational.cc
index 984ab9a..b57ab79 100644
--- a/wicked/helpers/rational.cc
+++ b/wicked/helpers/rational.cc
@@ -8,6 +8,7 @@
 #include "boost/lexical_cast.hpp"
 #endif
 
+#include "helpers.h"
 #include "rational.h"
 
 rational::rational() : numerator_(0), denominator_(1) {}
@@ -240,7 +241,7 @@ static rational_t integer_from_str(const std::string &digits) {
 
 rational make_rational_from_str(const std::string &s) {
   std::smatch sm;
-  auto factor_re = std::regex("^\\s*([+-])?(\\d*)?(\\/)?(\\d*)?\\s*");
+  auto factor_re = make_regex("^\\s*([+-])?(\\d*)?(\\/)?(\\d*)?\\s*");
   auto m = std::regex_match(s, sm, factor_re);
   if (not m) {
     throw std::runtime_error("\nCould not convert the string " + s +
-- 
2.43.0


From 302af2fb54b6dc196f377a733fc06ded7db21ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:04 +0000
Subject: [PATCH 28/29] fix: heap overflow with more than 100 elementary
 contractions

The backtracking search kept the list of elementary contractions in a vector
of 100 elements, but a product of two operators with n legs has up to n
elementary contractions.
---
 wicked/diagrams/wick_theorem_composite_contractions.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wicked/diagrams/wick_theorem_composite_contractions.cc b/wicked/diagrams/wick_theorem_composite_contractions.cc
index 8e0159f..1566498 100644
--- a/wicked/diagrams/wick_theorem_composite_contractions.cc
+++ b/wicked/diagrams/wick_theorem_composite_contractions.cc
@@ -24,8 +24,8 @@ void WickTheorem::generate_composite_contractions(const OperatorProduct &ops,
                   << std::endl;)
 
   // this vector is used in the backtracking algorithm to hold the list of
-  // elementary contractions
-  std::vector<int> a(100, -1);
+  // elementary contractions (each one contracts at least two operators)
+  std::vector<int> a(ops.num_ops() / 2 + 1, -1);
   // create a vector that keeps track of the free (uncontracted graph matrices)
   std::vector<GraphMatrix> free_graph_matrix_vec;
   for (const auto &op : ops) {
-- 
2.43.0


From 7797dacfa44ab2f5404129f551d92d795b14314b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:54 +0000
Subject: [PATCH 29/29] fix: out of bounds access to operators in more than
 eight orbital spaces

Operators store the counts of eight spaces, but spaces can be added after an
operator was made, and printing or contracting it then read past the end.
---
 wicked/diagrams/graph_matrix.cc | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/wicked/diagrams/graph_matrix.cc b/wicked/diagrams/graph_matrix.cc
index 9b681a0..69d208f 100644
--- a/wicked/diagrams/graph_matrix.cc
+++ b/wicked/diagrams/graph_matrix.cc
@@ -27,19 +27,22 @@ const GraphMatrix::graph_matrix_t &GraphMatrix::elements() const {
 }
 
 const std::pair<int, int> &GraphMatrix::elements(int space) const {
-  return elements_[space];
+  // spaces added after this object was created might be beyond the last one
+  // that can be stored, in which case there are no operators in them
+  static const std::pair<int, int> no_ops(0, 0);
+  return space < max_spaces_ ? elements_[space] : no_ops;
 }
 
-int GraphMatrix::cre(int space) const { return elements_[space].first; }
+int GraphMatrix::cre(int space) const { return elements(space).first; }
 
-int GraphMatrix::ann(int space) const { return elements_[space].second; }
+int GraphMatrix::ann(int space) const { return elements(space).second; }
 
 void GraphMatrix::set_cre(int space, int value) {
-  elements_[space].first = value;
+  elements_.at(space).first = value;
 }
 
 void GraphMatrix::set_ann(int space, int value) {
-  elements_[space].second = value;
+  elements_.at(space).second = value;
 }
 
 int GraphMatrix::num_ops(int space) const { return cre(space) + ann(space); }
@@ -65,7 +68,7 @@ bool GraphMatrix::operator!=(GraphMatrix const &other) const {
 }
 
 GraphMatrix &GraphMatrix::operator+=(const GraphMatrix &rhs) {
-  for (int s = 0; s < orbital_subspaces->num_spaces(); ++s) {
+  for (int s = 0; s < max_spaces_; ++s) {
     elements_[s].first += rhs.elements_[s].first;
     elements_[s].second += rhs.elements_[s].second;
   }
@@ -73,7 +76,7 @@ GraphMatrix &GraphMatrix::operator+=(const GraphMatrix &rhs) {
 }
 
 GraphMatrix &GraphMatrix::operator-=(const GraphMatrix &rhs) {
-  for (int s = 0; s < orbital_subspaces->num_spaces(); ++s) {
+  for (int s = 0; s < max_spaces_; ++s) {
     elements_[s].first -= rhs.elements_[s].first;
     elements_[s].second -= rhs.elements_[s].second;
   }
-- 
2.43.0

