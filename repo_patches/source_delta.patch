From ab7655b0a93c00b3de001314b8f2a86bba72b60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:36 +0000
Subject: [PATCH 01/43] fix: divide by k! when k identical elementary
 contractions appear

combinatorial_factor divided by k instead of k! for an elementary contraction
of multiplicity k, so every term with three or more identical contractions
(e.g. A{o+ o+ o+ v v v} B{v+ v+ v+ o o o}) had a wrong prefactor.
---
 wicked/diagrams/wick_theorem_process_contractions.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wicked/diagrams/wick_theorem_process_contractions.cc b/wicked/diagrams/wick_theorem_process_contractions.cc
index cf8e7d9..f08d07b 100644
--- a/wicked/diagrams/wick_theorem_process_contractions.cc
+++ b/wicked/diagrams/wick_theorem_process_contractions.cc
@@ -548,7 +548,7 @@ WickTheorem::combinatorial_factor(const OperatorProduct &ops,
     contraction_count[contraction] += 1;
   }
   for (const auto &kv : contraction_count) {
-    factor /= binomial(kv.second, 1);
+    factor /= factorial(kv.second);
   }
   return factor;
 }
-- 
2.43.0


From bcaf9ded350c200081e2123a729de5f9a24579d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:42 +0000
Subject: [PATCH 02/43] fix: protect the timers updated by concurrent worker
 threads

---
 .../diagrams/wick_theorem_process_contractions.cc  | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/wicked/diagrams/wick_theorem_process_contractions.cc b/wicked/diagrams/wick_theorem_process_contractions.cc
index f08d07b..719240c 100644
--- a/wicked/diagrams/wick_theorem_process_contractions.cc
+++ b/wicked/diagrams/wick_theorem_process_contractions.cc
@@ -3,6 +3,7 @@
 #include <future>
 #include <iomanip>
 #include <iostream>
+#include <mutex>
 
 #include "helpers/combinatorics.h"
 #include "helpers/helpers.h"
@@ -45,6 +46,9 @@ std::string contraction_signature(const OperatorProduct &ops,
 
 using namespace std;
 
+/// Protects the timers, which are updated concurrently by the worker threads
+static std::mutex timers_mutex;
+
 Expression WickTheorem::process_contractions(scalar_t factor,
                                              const OperatorProduct &ops,
                                              const int minrank,
@@ -169,12 +173,18 @@ Expression WickTheorem::process_single_contraction(
         do_canonicalize_graph_
             ? canonicalize_contraction_graph(ops, contraction)
             : std::make_tuple(ops, contraction, scalar_t(1));
-    timers_["canonicalize_contraction_graph"] += tc.get();
+    const double canonicalize_time = tc.get();
 
     timer te;
     std::pair<SymbolicTerm, scalar_t> term_factor =
         evaluate_contraction(best_ops, best_contractions, factor * sign);
-    timers_["evaluate_contraction"] += te.get();
+    const double evaluate_time = te.get();
+
+    {
+      std::lock_guard<std::mutex> lock(timers_mutex);
+      timers_["canonicalize_contraction_graph"] += canonicalize_time;
+      timers_["evaluate_contraction"] += evaluate_time;
+    }
 
     SymbolicTerm &term = term_factor.first;
     scalar_t canonicalize_factor = term.canonicalize();
-- 
2.43.0


From 606724d162fe050e69e8ad6a6f64bcc8cf0024da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:42 +0000
Subject: [PATCH 03/43] fix: rational division by a negative number, by itself,
 and by zero

---
 wicked/helpers/rational.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/wicked/helpers/rational.cc b/wicked/helpers/rational.cc
index 4bb564d..031136e 100644
--- a/wicked/helpers/rational.cc
+++ b/wicked/helpers/rational.cc
@@ -20,6 +20,9 @@ rational::rational(rational_t numerator) {
 }
 
 rational::rational(rational_t numerator, rational_t denominator) {
+  if (denominator == 0) {
+    throw std::runtime_error("rational: division by zero");
+  }
   // enforce a positive denominator
   numerator_ = denominator < 0 ? -numerator : numerator;
   denominator_ = denominator < 0 ? -denominator : denominator;
@@ -63,9 +66,10 @@ rational &rational::operator*=(const rational &rhs) {
 }
 
 rational &rational::operator/=(const rational &rhs) {
-  numerator_ *= rhs.denominator();
-  denominator_ *= rhs.numerator();
-  reduce();
+  // the constructor enforces a positive denominator and lowest terms; forming
+  // both products first also makes x /= x safe
+  *this = rational(rational_t(numerator_ * rhs.denominator_),
+                   rational_t(denominator_ * rhs.numerator_));
   return *this;
 }
 
-- 
2.43.0


From 063b5c131eb83ef735ebdaa3e76968193746c96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:42 +0000
Subject: [PATCH 04/43] fix: multiplying by zero leaves no zero terms behind

---
 wicked/helpers/algebra.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/wicked/helpers/algebra.hpp b/wicked/helpers/algebra.hpp
index 4c137cf..aeb3a9b 100644
--- a/wicked/helpers/algebra.hpp
+++ b/wicked/helpers/algebra.hpp
@@ -124,6 +124,11 @@ public:
   /// @brief Scalar multiplication assignment operator
   /// @param rhs the scalar to multiply by
   Algebra &operator*=(scalar_t factor) {
+    // zero terms are never stored
+    if (factor == scalar_t(0, 1)) {
+      terms_.clear();
+      return *this;
+    }
     for (auto &[e, c] : terms()) {
       c *= factor;
     }
-- 
2.43.0


From 14c37fefc04f4e61af030c8f2e4afc3e738078bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:42 +0000
Subject: [PATCH 05/43] fix: a rejected orbital space leaves the registry
 unchanged

---
 wicked/helpers/orbital_space.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/wicked/helpers/orbital_space.cc b/wicked/helpers/orbital_space.cc
index 10a4cfa..fd37358 100644
--- a/wicked/helpers/orbital_space.cc
+++ b/wicked/helpers/orbital_space.cc
@@ -82,20 +82,21 @@ void OrbitalSpaceInfo::add_space(char label, FieldType field_type,
   }
 
   size_t pos = space_info_.size();
-  label_to_pos_[label] = pos;
+  // validate all arguments before changing the state of this object
+  std::map<std::string, int> new_indices_to_pos = indices_to_pos_;
   for (auto &index : indices) {
-    if (indices_to_pos_.count(index)) {
+    if (not new_indices_to_pos.insert({index, pos}).second) {
       throw std::runtime_error(
           "add_space: Index \"" + index +
           "\" is already assigned to another space. Use another index.");
-    } else {
-      indices_to_pos_[index] = pos;
     }
   }
   std::vector<int> elementary_spaces_int;
   for (char e : elementary_spaces) {
     elementary_spaces_int.push_back(label_to_space(e));
   }
+  label_to_pos_[label] = pos;
+  indices_to_pos_ = new_indices_to_pos;
   space_info_.push_back(OrbitalSpace(label, field_type, space_type, indices,
                                      elementary_spaces_int));
 }
-- 
2.43.0


From 08d4c9650861e59291b3a8c792d38d9241f79ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:42 +0000
Subject: [PATCH 06/43] fix: reject space numbers outside the registry instead
 of reading out of bounds

---
 wicked/algebra/index.cc         | 2 +-
 wicked/algebra/symbolic_term.cc | 2 +-
 wicked/algebra/tensor.cc        | 4 ++--
 wicked/helpers/orbital_space.cc | 8 ++++----
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/wicked/algebra/index.cc b/wicked/algebra/index.cc
index 5b1f31e..285d35f 100644
--- a/wicked/algebra/index.cc
+++ b/wicked/algebra/index.cc
@@ -106,7 +106,7 @@ index_map_t remap(const std::vector<Index> &idx_vec1,
 std::vector<int> num_indices_per_space(const std::vector<Index> &indices) {
   std::vector<int> counter(orbital_subspaces->num_spaces());
   for (const auto &index : indices) {
-    counter[index.space()] += 1;
+    counter.at(index.space()) += 1;
   }
   return counter;
 }
diff --git a/wicked/algebra/symbolic_term.cc b/wicked/algebra/symbolic_term.cc
index 5d7addd..ff51cc5 100644
--- a/wicked/algebra/symbolic_term.cc
+++ b/wicked/algebra/symbolic_term.cc
@@ -183,7 +183,7 @@ scalar_t SymbolicTerm::canonicalize() {
 
   // a. Assign indices to free operators
   for (const auto &sqop : operators_) {
-    tens_index_count[sqop.index().space()] += 1;
+    tens_index_count.at(sqop.index().space()) += 1;
     is_operator_index[sqop.index()] = true;
   }
 
diff --git a/wicked/algebra/tensor.cc b/wicked/algebra/tensor.cc
index 29f83f9..14e4470 100644
--- a/wicked/algebra/tensor.cc
+++ b/wicked/algebra/tensor.cc
@@ -16,10 +16,10 @@ std::vector<std::pair<int, int>> Tensor::signature() const {
   std::vector<std::pair<int, int>> result(orbital_subspaces->num_spaces(),
                                           std::pair(0, 0));
   for (const Index &idx : upper_) {
-    result[idx.space()].first += 1;
+    result.at(idx.space()).first += 1;
   }
   for (const Index &idx : lower_) {
-    result[idx.space()].second += 1;
+    result.at(idx.space()).second += 1;
   }
   return result;
 }
diff --git a/wicked/helpers/orbital_space.cc b/wicked/helpers/orbital_space.cc
index fd37358..f85c802 100644
--- a/wicked/helpers/orbital_space.cc
+++ b/wicked/helpers/orbital_space.cc
@@ -120,7 +120,7 @@ std::map<std::string, std::vector<std::string>> OrbitalSpaceInfo::to_dict() cons
   return d;
 }
 
-char OrbitalSpaceInfo::label(int pos) const { return space_info_[pos].label(); }
+char OrbitalSpaceInfo::label(int pos) const { return space_info_.at(pos).label(); }
 
 const std::string OrbitalSpaceInfo::index_label(int pos, int idx) const {
   const std::vector<std::string> &index_labels = indices(pos);
@@ -131,11 +131,11 @@ const std::string OrbitalSpaceInfo::index_label(int pos, int idx) const {
 }
 
 SpaceType OrbitalSpaceInfo::space_type(int pos) const {
-  return space_info_[pos].space_type();
+  return space_info_.at(pos).space_type();
 }
 
 FieldType OrbitalSpaceInfo::field_type(int pos) const {
-  return space_info_[pos].field_type();
+  return space_info_.at(pos).field_type();
 }
 
 const std::string &OrbitalSpaceInfo::op_symbol(int pos) const {
@@ -143,7 +143,7 @@ const std::string &OrbitalSpaceInfo::op_symbol(int pos) const {
 }
 
 const std::vector<std::string> &OrbitalSpaceInfo::indices(int pos) const {
-  return space_info_[pos].indices();
+  return space_info_.at(pos).indices();
 }
 
 int OrbitalSpaceInfo::label_to_space(char label) const {
-- 
2.43.0


From 7e626b8499a821e054fd8d24feac81d02e2bd997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:42 +0000
Subject: [PATCH 07/43] fix: reject operators that do not match the number of
 orbital spaces

---
 wicked/diagrams/graph_matrix.cc | 36 ++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/wicked/diagrams/graph_matrix.cc b/wicked/diagrams/graph_matrix.cc
index 3a15a96..f3c8deb 100644
--- a/wicked/diagrams/graph_matrix.cc
+++ b/wicked/diagrams/graph_matrix.cc
@@ -1,5 +1,6 @@
 #include <cassert>
 #include <numeric>
+#include <stdexcept>
 
 #include "graph_matrix.h"
 #include "helpers/helpers.h"
@@ -11,7 +12,22 @@ GraphMatrix::GraphMatrix() {}
 
 GraphMatrix::GraphMatrix(const std::vector<int> &cre,
                          const std::vector<int> &ann) {
-  for (int i = 0; i < orbital_subspaces->num_spaces(); i++) {
+  const size_t num_spaces = orbital_subspaces->num_spaces();
+  if (num_spaces > max_spaces_) {
+    throw std::runtime_error("GraphMatrix: at most " +
+                             std::to_string(max_spaces_) +
+                             " orbital spaces are supported");
+  }
+  if ((cre.size() != num_spaces) or (ann.size() != num_spaces)) {
+    throw std::runtime_error("GraphMatrix: the number of creation and "
+                             "annihilation operators must be given for each "
+                             "orbital space");
+  }
+  for (size_t i = 0; i < num_spaces; i++) {
+    if ((cre[i] < 0) or (ann[i] < 0)) {
+      throw std::runtime_error("GraphMatrix: the number of creation and "
+                               "annihilation operators cannot be negative");
+    }
     elements_[i] = std::make_pair(cre[i], ann[i]);
   }
 }
@@ -21,19 +37,19 @@ const GraphMatrix::graph_matrix_t &GraphMatrix::elements() const {
 }
 
 const std::pair<int, int> &GraphMatrix::elements(int space) const {
-  return elements_[space];
+  return elements_.at(space);
 }
 
-int GraphMatrix::cre(int space) const { return elements_[space].first; }
+int GraphMatrix::cre(int space) const { return elements_.at(space).first; }
 
-int GraphMatrix::ann(int space) const { return elements_[space].second; }
+int GraphMatrix::ann(int space) const { return elements_.at(space).second; }
 
 void GraphMatrix::set_cre(int space, int value) {
-  elements_[space].first = value;
+  elements_.at(space).first = value;
 }
 
 void GraphMatrix::set_ann(int space, int value) {
-  elements_[space].second = value;
+  elements_.at(space).second = value;
 }
 
 int GraphMatrix::num_ops(int space) const { return cre(space) + ann(space); }
@@ -60,16 +76,16 @@ bool GraphMatrix::operator!=(GraphMatrix const &other) const {
 
 GraphMatrix &GraphMatrix::operator+=(const GraphMatrix &rhs) {
   for (int s = 0; s < orbital_subspaces->num_spaces(); ++s) {
-    elements_[s].first += rhs.elements_[s].first;
-    elements_[s].second += rhs.elements_[s].second;
+    elements_.at(s).first += rhs.elements_.at(s).first;
+    elements_.at(s).second += rhs.elements_.at(s).second;
   }
   return *this;
 }
 
 GraphMatrix &GraphMatrix::operator-=(const GraphMatrix &rhs) {
   for (int s = 0; s < orbital_subspaces->num_spaces(); ++s) {
-    elements_[s].first -= rhs.elements_[s].first;
-    elements_[s].second -= rhs.elements_[s].second;
+    elements_.at(s).first -= rhs.elements_.at(s).first;
+    elements_.at(s).second -= rhs.elements_.at(s).second;
   }
   return *this;
 }
-- 
2.43.0


From 0a3ab44222d075a3a2323e9f3a4ed4a5e33fd438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:42 +0000
Subject: [PATCH 08/43] fix: sorting bosonic operators does not change the sign
 of a term

---
 wicked/algebra/sqoperator.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wicked/algebra/sqoperator.cc b/wicked/algebra/sqoperator.cc
index d4de1fd..bfdd477 100644
--- a/wicked/algebra/sqoperator.cc
+++ b/wicked/algebra/sqoperator.cc
@@ -141,11 +141,14 @@ scalar_t canonicalize_sqops(Product<SQOperator> &sqops, bool reversed) {
   } else {
     std::sort(sqop_pos.begin(), sqop_pos.end());
   }
+  // only exchanges of fermionic operators contribute to the sign
   std::vector<int> perm;
   sqops.clear();
   for (const auto &[sqop, pos] : sqop_pos) {
     sqops.push_back(sqop);
-    perm.push_back(pos);
+    if (sqop.field_type() == FieldType::Fermion) {
+      perm.push_back(pos);
+    }
   }
   return permutation_sign(perm);
 }
-- 
2.43.0


From 67380856a605b77dc5b9895f009292e4ccf06285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:42 +0000
Subject: [PATCH 09/43] fix: do not merge normal-ordered and plain products of
 operators

---
 wicked/algebra/symbolic_term.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/wicked/algebra/symbolic_term.cc b/wicked/algebra/symbolic_term.cc
index ff51cc5..b972985 100644
--- a/wicked/algebra/symbolic_term.cc
+++ b/wicked/algebra/symbolic_term.cc
@@ -363,11 +363,19 @@ bool SymbolicTerm::operator<(const SymbolicTerm &other) const {
   if (tensors_ < other.tensors_) {
     return true;
   }
-  return operators_ < other.operators_;
+  if (operators_ < other.operators_) {
+    return true;
+  }
+  if (other.operators_ < operators_) {
+    return false;
+  }
+  // a product of operators differs from the same product in normal order
+  return (nops() > 0) and (normal_ordered_ < other.normal_ordered_);
 }
 
 bool SymbolicTerm::operator==(const SymbolicTerm &other) const {
-  return (tensors_ == other.tensors_) and (operators_ == other.operators_);
+  return (tensors_ == other.tensors_) and (operators_ == other.operators_) and
+         ((nops() == 0) or (normal_ordered_ == other.normal_ordered_));
 }
 
 std::string SymbolicTerm::str() const {
-- 
2.43.0


From c56d558309f7ff9e2c965f880605e400745425c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:42 +0000
Subject: [PATCH 10/43] fix: canonicalization never assigns the name of an
 index found only on operators

---
 wicked/algebra/symbolic_term.cc | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/wicked/algebra/symbolic_term.cc b/wicked/algebra/symbolic_term.cc
index b972985..93c0f8b 100644
--- a/wicked/algebra/symbolic_term.cc
+++ b/wicked/algebra/symbolic_term.cc
@@ -187,6 +187,21 @@ scalar_t SymbolicTerm::canonicalize() {
     is_operator_index[sqop.index()] = true;
   }
 
+  // operator indices that do not appear on a tensor keep their name, so this
+  // name cannot be assigned to another index
+  std::map<Index, bool> is_reserved_index = is_operator_index;
+  for (const auto &tensor : tensors_) {
+    for (const auto &idx : tensor.indices()) {
+      is_reserved_index.erase(idx);
+    }
+  }
+  auto next_index = [&is_reserved_index](int s, std::vector<int> &count) {
+    while (is_reserved_index.count(Index(s, count[s])) != 0) {
+      count[s] += 1;
+    }
+    return Index(s, count[s]++);
+  };
+
   // b. Assign indices to tensors operators
   for (const auto &tensor : tensors_) {
     // lower indices
@@ -194,16 +209,12 @@ scalar_t SymbolicTerm::canonicalize() {
       if (is_operator_index.count(l) == 0) {
         // this index is not shared with an operator
         if (index_map.count(l) == 0) {
-          int s = l.space();
-          index_map[l] = Index(s, tens_index_count[s]);
-          tens_index_count[s] += 1;
+          index_map[l] = next_index(l.space(), tens_index_count);
         }
       } else {
         // this index is shared with an operator
         if (index_map.count(l) == 0) {
-          int s = l.space();
-          index_map[l] = Index(s, sqop_index_count[s]);
-          sqop_index_count[s] += 1;
+          index_map[l] = next_index(l.space(), sqop_index_count);
         }
       }
     }
@@ -211,15 +222,11 @@ scalar_t SymbolicTerm::canonicalize() {
     for (const auto &u : tensor.upper()) {
       if (is_operator_index.count(u) == 0) {
         if (index_map.count(u) == 0) {
-          int s = u.space();
-          index_map[u] = Index(s, tens_index_count[s]);
-          tens_index_count[s] += 1;
+          index_map[u] = next_index(u.space(), tens_index_count);
         }
       } else {
         if (index_map.count(u) == 0) {
-          int s = u.space();
-          index_map[u] = Index(s, sqop_index_count[s]);
-          sqop_index_count[s] += 1;
+          index_map[u] = next_index(u.space(), sqop_index_count);
         }
       }
     }
-- 
2.43.0


From 802e25d7e1ff93bbded28737cbd03f93159ae5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:50 +0000
Subject: [PATCH 11/43] fix: print the coefficient of pure scalar terms equal
 to 1 or -1

---
 wicked/algebra/expression.cc | 9 ++++++++-
 wicked/algebra/term.cc       | 9 +++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/wicked/algebra/expression.cc b/wicked/algebra/expression.cc
index 71d8316..9ff14f1 100644
--- a/wicked/algebra/expression.cc
+++ b/wicked/algebra/expression.cc
@@ -146,7 +146,14 @@ std::string Expression::latex(const std::string &sep) const {
   std::vector<std::string> str_vec;
   bool first = true;
   for (const auto &[term, factor] : terms_) {
-    str_vec.push_back(factor.latex(first) + ' ' + term.latex());
+    std::string factor_str = factor.latex(first);
+    const std::string term_str = term.latex();
+    // rational(1,1).latex() returns "+" and rational(-1,1).latex() returns "-",
+    // so we need to handle the case of a pure scalar term
+    if ((term_str.size() == 0) and ((factor_str == "+") or (factor_str == "-"))) {
+      factor_str += "1";
+    }
+    str_vec.push_back(factor_str + ' ' + term_str);
     first = false;
   }
   return join(str_vec, sep);
diff --git a/wicked/algebra/term.cc b/wicked/algebra/term.cc
index c301a47..a322d34 100644
--- a/wicked/algebra/term.cc
+++ b/wicked/algebra/term.cc
@@ -33,7 +33,7 @@ std::string Term::str() const {
   if ((term_str == "") and (coeff_str == "")) {
     return "1";
   } else if ((term_str == "") and (coeff_str != "")) {
-    return coeff_str;
+    return (coeff_str == "-") ? "-1" : coeff_str;
   } else if ((term_str != "") and (coeff_str == "")) {
     return term_str;
   }
@@ -41,7 +41,12 @@ std::string Term::str() const {
 }
 
 std::string Term::latex() const {
-  return coefficient_.latex(true) + " " + SymbolicTerm::latex();
+  std::string coeff_str = coefficient_.latex(true);
+  const std::string term_str = SymbolicTerm::latex();
+  if ((term_str == "") and ((coeff_str == "+") or (coeff_str == "-"))) {
+    coeff_str += "1";
+  }
+  return coeff_str + " " + term_str;
 }
 
 std::ostream &operator<<(std::ostream &os, const Term &term) {
-- 
2.43.0


From 6828c5609a8cdbdbcbb5f8c1e367b8f1ab208ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:50 +0000
Subject: [PATCH 12/43] fix: LaTeX of bosonic operators uses the bosonic symbol

---
 wicked/algebra/symbolic_term.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/wicked/algebra/symbolic_term.cc b/wicked/algebra/symbolic_term.cc
index 93c0f8b..55cfef9 100644
--- a/wicked/algebra/symbolic_term.cc
+++ b/wicked/algebra/symbolic_term.cc
@@ -411,7 +411,12 @@ std::string SymbolicTerm::latex() const {
   if (nops()) {
     if (normal_ordered())
       str_vec.push_back("\\{");
-    if (is_creation_then_annihilation()) {
+    // the compact notation is used only if all operators have the same symbol
+    const bool same_symbol = std::all_of(
+        operators_.begin(), operators_.end(), [this](const SQOperator &op) {
+          return op.field_type() == operators_[0].field_type();
+        });
+    if (is_creation_then_annihilation() and same_symbol) {
       std::vector<std::string> str_vec_cre;
       std::vector<std::string> str_vec_ann;
       for (const auto &op : operators_) {
@@ -423,7 +428,8 @@ std::string SymbolicTerm::latex() const {
       }
       // reverse the order of the annihilation operators
       std::reverse(str_vec_ann.begin(), str_vec_ann.end());
-      std::string op_str = "\\hat{a}^{" + join(str_vec_cre, " ") + "}_{" +
+      std::string op_str = "\\hat{" + operators_[0].op_symbol() + "}^{" +
+                           join(str_vec_cre, " ") + "}_{" +
                            join(str_vec_ann, " ") + "}";
       str_vec.push_back(op_str);
     } else {
-- 
2.43.0


From c5c0bcdfd7cc0a3e3e419df597a0c90f775b843c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:50 +0000
Subject: [PATCH 13/43] fix: do not write past a fixed-size bit mask for
 indices beyond 63

---
 wicked/algebra/symbolic_term.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/wicked/algebra/symbolic_term.cc b/wicked/algebra/symbolic_term.cc
index 55cfef9..bf96274 100644
--- a/wicked/algebra/symbolic_term.cc
+++ b/wicked/algebra/symbolic_term.cc
@@ -1,4 +1,5 @@
 #include <algorithm>
+#include <set>
 
 #include "helpers/combinatorics.h"
 #include "helpers/helpers.h"
@@ -257,15 +258,15 @@ scalar_t SymbolicTerm::simplify() {
     WPRINT(cout << "\nSpace " << orbital_subspaces->label(s) << endl;);
 
     std::vector<std::vector<Index>> equivalent_classes;
-    std::vector<std::pair<std::bitset<64>, std::bitset<64>>> ul_bit_masks;
+    std::vector<std::pair<std::set<int>, std::set<int>>> ul_bit_masks;
     for (const auto &tensor : tensors_) {
-      std::bitset<64> upper_bits, lower_bits;
+      std::set<int> upper_bits, lower_bits;
       {
         std::vector<Index> equivalent;
         for (const auto &u : tensor.upper()) {
           if (u.space() == s) {
             equivalent.push_back(u);
-            upper_bits[u.pos()] = true;
+            upper_bits.insert(u.pos());
           }
         }
         if (equivalent.size() > 0)
@@ -276,7 +277,7 @@ scalar_t SymbolicTerm::simplify() {
         for (const auto &l : tensor.lower()) {
           if (l.space() == s) {
             equivalent.push_back(l);
-            lower_bits[l.pos()] = true;
+            lower_bits.insert(l.pos());
           }
         }
         if (equivalent.size() > 0)
@@ -291,8 +292,9 @@ scalar_t SymbolicTerm::simplify() {
           cout << endl;
         } for (const auto &[ub, lb]
                : ul_bit_masks) {
-          cout << ub << endl;
-          cout << lb << endl;
+          PRINT_ELEMENTS(ub);
+          PRINT_ELEMENTS(lb);
+          cout << endl;
         });
   }
 
-- 
2.43.0


From 5e96fd48b3c9d2fe86aa8adbad05559f4ba4a42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:03 +0000
Subject: [PATCH 14/43] fix: compile_einsum uses the left-hand-side tensor and
 rejects unusable index names

---
 wicked/utils.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/wicked/utils.py b/wicked/utils.py
index b60b9ac..8a1b127 100644
--- a/wicked/utils.py
+++ b/wicked/utils.py
@@ -68,7 +68,11 @@ def compile_einsum(equation):
             if index_dict.get(i):
                 indstr += index_dict[i]
             else:
+                if not unused_indices[i[0]]:
+                    raise ValueError("compile_einsum: not enough indices registered for space " + i[0])
                 index = unused_indices[i[0]].pop(0)
+                if not (len(index) == 1 and index.isascii() and index.isalpha()):
+                    raise ValueError("compile_einsum: index " + index + " is not a single letter")
                 index_dict[i] = index
                 indstr += index
         
@@ -94,9 +98,9 @@ def compile_einsum(equation):
     tensor_label_string += "optimize='optimal')"
 
     if (lhs.tensors()[0].upper() != [] or lhs.tensors()[0].lower() != []): # If the lhs is not a scalar
-        left = rhs.tensors()[0].label()
-        left += ''.join([osi.label(_.space()) for _ in lhs.tensors()[0].upper()]) + ''.join([osi.label(_.space()) for _ in lhs.tensors()[0].lower()])
-        res_indx = _get_unique_tensor_indices(rhs.tensors(), unused_indices, index_dict)
+        left = lhs.tensors()[0].label()
+        left += ''.join([str(_)[0] for _ in lhs.tensors()[0].upper()]) + ''.join([str(_)[0] for _ in lhs.tensors()[0].lower()])
+        res_indx = _get_unique_tensor_indices(lhs.tensors()[0], unused_indices, index_dict)
         index_string += res_indx
     else: # If it's scalar, just return the label.
         left = lhs.tensors()[0].label()
-- 
2.43.0


From c76c330a5caa538854df7431d0826267ae88a6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:03 +0000
Subject: [PATCH 15/43] fix: equations that einsum cannot express are rejected

---
 wicked/algebra/equation.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/wicked/algebra/equation.cc b/wicked/algebra/equation.cc
index b1f2d4f..f3bc564 100644
--- a/wicked/algebra/equation.cc
+++ b/wicked/algebra/equation.cc
@@ -64,9 +64,17 @@ std::string get_unique_index(const std::string &s,
         index_map[s] = s;
       } else {
         // if it is used, grab the first available index
+        if (unused_indices.empty()) {
+          throw std::runtime_error("Equation::compile() - einsum supports at "
+                                   "most 52 distinct indices");
+        }
         index_map[s] = unused_indices.back();
       }
     } else {
+      if (unused_indices.empty()) {
+        throw std::runtime_error("Equation::compile() - einsum supports at "
+                                 "most 52 distinct indices");
+      }
       index_map[s] = unused_indices.back();
     }
     // erase this character from the available characters to avoid reusing
@@ -101,6 +109,11 @@ std::string Equation::compile(const std::string &format) const {
 
   if (format == "einsum") {
     std::vector<std::string> str_vec;
+    if ((lhs().tensors().size() != 1) or (rhs().tensors().size() == 0)) {
+      throw std::runtime_error(
+          "Equation::compile() - einsum requires one tensor on the left-hand "
+          "side and at least one on the right-hand side");
+    }
     const auto &lhs_tensor = lhs().tensors()[0];
 
     std::string lhs_tensor_label = lhs_tensor.label();
-- 
2.43.0


From 12566ac475e846c41afb58d66e1b8247ae4a4f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:03 +0000
Subject: [PATCH 16/43] fix: read back one-digit coefficients and
 normal-ordered bosonic operators

---
 wicked/algebra/expression.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/wicked/algebra/expression.cc b/wicked/algebra/expression.cc
index 9ff14f1..231a652 100644
--- a/wicked/algebra/expression.cc
+++ b/wicked/algebra/expression.cc
@@ -265,10 +265,11 @@ Expression make_expression(const std::string &s, SymmetryType symmetry) {
 
   std::regex factor_re, operator_re, normal_ordered_re, tensor_re;
   if (syntax == TensorSyntax::Wicked) {
-    tensor_re = std::regex(R"(([a-zA-Z0-9]+\^\{[\w,\d]*\}_\{[\w,\d]*\}))");
+    tensor_re =
+        std::regex(R"(([a-zA-Z][a-zA-Z0-9]*\^\{[\w,\d]*\}_\{[\w,\d]*\}))");
     operator_re = std::regex(R"([ab]([+-]{1,1})\(([\w\d]*)\))");
     factor_re = std::regex(R"(^\s*([+-]?\d*\/?\d*)\s*)");
-    normal_ordered_re = std::regex(R"((?:\{(?:\s*a[+-]\([\w\d]+\))+\s*\}))");
+    normal_ordered_re = std::regex(R"((?:\{(?:\s*[ab][+-]\([\w\d]+\))+\s*\}))");
   }
 
   auto tensors = findall(s, tensor_re);
-- 
2.43.0


From e1d700d882f951f8b42d44b386e6b6f8ffdacaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:03 +0000
Subject: [PATCH 17/43] fix: read rational numbers beyond 32 bits

---
 wicked/helpers/rational.cc | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/wicked/helpers/rational.cc b/wicked/helpers/rational.cc
index 031136e..9627cc2 100644
--- a/wicked/helpers/rational.cc
+++ b/wicked/helpers/rational.cc
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <numeric>
 #include <regex>
 
@@ -208,6 +209,17 @@ void rational::reduce() {
 
 #include <iostream>
 
+/// convert a string of digits to an integer
+static rational_t string_to_integer(const std::string &s) {
+#if USE_BOOST_1024_INT
+  // skip leading zeros (boost reads them as the prefix of an octal number)
+  const size_t pos = std::min(s.find_first_not_of('0'), s.size() - 1);
+  return rational_t(s.substr(pos));
+#else
+  return std::stoll(s);
+#endif
+}
+
 rational make_rational_from_str(const std::string &s) {
   std::smatch sm;
   auto factor_re = std::regex("^\\s*([+-])?(\\d*)?(\\/)?(\\d*)?\\s*");
@@ -220,7 +232,7 @@ rational make_rational_from_str(const std::string &s) {
   std::string numerator_str = sm[2];
   std::string division = sm[3];
   std::string denominator_str = sm[4];
-  int numerator = 1, denominator = 1;
+  rational_t numerator = 1, denominator = 1;
   if (sign == "-") {
     numerator *= -1;
   }
@@ -232,10 +244,10 @@ rational make_rational_from_str(const std::string &s) {
                                " to a rational object");
   }
   if (numerator_str.size() > 0) {
-    numerator *= std::stoi(numerator_str);
+    numerator *= string_to_integer(numerator_str);
   }
   if ((division == "/") and (denominator_str.size() > 0)) {
-    denominator *= std::stoi(denominator_str);
+    denominator *= string_to_integer(denominator_str);
   }
   return rational(numerator, denominator);
 }
-- 
2.43.0


From 9c4084246e4e472dc031826a7afbf8ee8345a19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:03 +0000
Subject: [PATCH 18/43] fix: there is no partition of one into zero parts

---
 wicked/helpers/combinatorics.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wicked/helpers/combinatorics.cc b/wicked/helpers/combinatorics.cc
index c6c8740..fb36034 100644
--- a/wicked/helpers/combinatorics.cc
+++ b/wicked/helpers/combinatorics.cc
@@ -83,7 +83,7 @@ std::vector<std::vector<int>> integer_partitions(int n, int maxlen) {
   } else if (n == 0) {
     // Special case not handled by ZS2
     partitions.push_back({});
-  } else if (n == 1) {
+  } else if ((n == 1) and (maxlen > 0)) {
     // Special case not handled by ZS2
     partitions.push_back({1});
   }
-- 
2.43.0


From 0ed0dec7c3dd2ea8d90e2ca117d75009a63059ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:47 +0000
Subject: [PATCH 19/43] fix: gen_op excludes all diagonal components when
 diagonal=False

---
 wicked/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wicked/utils.py b/wicked/utils.py
index 8a1b127..9abcaee 100644
--- a/wicked/utils.py
+++ b/wicked/utils.py
@@ -45,7 +45,7 @@ def gen_op(label, rank, cre_spaces, ann_spaces, diagonal=True):
                 is_re_sorted = all(m[re[i]] >= m[re[i + 1]] for i in range(len(re) - 1))
                 if is_re_sorted:
                     if not diagonal:
-                        if le != re:
+                        if sorted(le) != sorted(re):
                             terms.append(
                                 " ".join([s + "+" for s in le]) + " " + " ".join(re)
                             )
-- 
2.43.0


From 378a9b60266588a2e30fc3d4202f8f77d8bb4ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:47 +0000
Subject: [PATCH 20/43] fix: reject expressions and operator components that
 cannot be parsed

---
 wicked/algebra/expression.cc | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/wicked/algebra/expression.cc b/wicked/algebra/expression.cc
index 231a652..d40282d 100644
--- a/wicked/algebra/expression.cc
+++ b/wicked/algebra/expression.cc
@@ -216,6 +216,12 @@ Expression make_operator_expr(const std::string &label,
     std::vector<int> cre_count(orbital_subspaces->num_spaces(), 0);
     std::vector<int> ann_count(orbital_subspaces->num_spaces(), 0);
     for (const auto &s : s_vec) {
+      const bool is_creation =
+          (s.size() == 2) and ((s[1] == '+') or (s[1] == '^'));
+      if ((s.size() != 1) and (not is_creation)) {
+        throw std::runtime_error("\nCould not convert the string " + s +
+                                 " to an operator");
+      }
       int space = orbital_subspaces->label_to_space(s[0]);
       ann_count[space] += 1;
     }
@@ -275,7 +281,9 @@ Expression make_expression(const std::string &s, SymmetryType symmetry) {
   auto tensors = findall(s, tensor_re);
 
   // use the normal_ordered_re to check if the string is already normal ordered
-  auto is_normal_ordered = std::regex_search(s, normal_ordered_re);
+  std::smatch normal_ordered_match;
+  auto is_normal_ordered =
+      std::regex_search(s, normal_ordered_match, normal_ordered_re);
 
   SymbolicTerm term;
   term.set_normal_ordered(is_normal_ordered);
@@ -285,6 +293,23 @@ Expression make_expression(const std::string &s, SymmetryType symmetry) {
 
   auto operators = findall(s, operator_re);
 
+  // check that no part of the string other than spaces and quotation marks is
+  // left out
+  const auto first_only = std::regex_constants::format_first_only;
+  std::string rest = std::regex_replace(s, factor_re, "", first_only);
+  rest = std::regex_replace(rest, tensor_re, "");
+  rest = std::regex_replace(rest, operator_re, "");
+  rest = std::regex_replace(rest, std::regex(R"([\s"']+)"), "");
+  bool is_valid = rest == (is_normal_ordered ? "{}" : "");
+  if (is_normal_ordered) {
+    const auto ordered = findall(normal_ordered_match.str(), operator_re);
+    is_valid = is_valid and (ordered.size() == operators.size());
+  }
+  if (not is_valid) {
+    throw std::runtime_error("\nCould not convert the string " + s +
+                             " to an Expression object");
+  }
+
   for (size_t n = 0; n < operators.size(); n += 2) {
     SQOperatorType type = operators[n] == "+" ? SQOperatorType::Creation
                                               : SQOperatorType::Annihilation;
-- 
2.43.0


From 1d25c499d98c1833ab8f891ac97cb1528a516a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:47 +0000
Subject: [PATCH 21/43] fix: reject operator strings that cannot be parsed

---
 wicked/diagrams/operator_expression.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/wicked/diagrams/operator_expression.cc b/wicked/diagrams/operator_expression.cc
index 62996fa..985bfa8 100644
--- a/wicked/diagrams/operator_expression.cc
+++ b/wicked/diagrams/operator_expression.cc
@@ -73,7 +73,14 @@ make_diag_operator_expression(const std::string &label,
   OperatorExpression result;
 
   for (const std::string &s : components) {
-    auto s_vec = findall(s, std::regex(R"(([a-zA-Z][+^]?))"));
+    const std::regex operator_re(R"(([a-zA-Z][+^]?))");
+    auto s_vec = findall(s, operator_re);
+    // check that no part of the string is left out
+    const auto rest = std::regex_replace(s, operator_re, "");
+    if (rest.find_first_not_of(" \t\n") != std::string::npos) {
+      throw std::runtime_error("\nCould not convert the string " + s +
+                               " to an operator");
+    }
     std::vector<int> cre(orbital_subspaces->num_spaces());
     std::vector<int> ann(orbital_subspaces->num_spaces());
 
-- 
2.43.0


From 008317210f80b8dcec882b6ad40c1ddb4c2db3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:47 +0000
Subject: [PATCH 22/43] fix: numerator and denominator of rational numbers are
 not truncated

---
 wicked/api/rational_api.cc | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/wicked/api/rational_api.cc b/wicked/api/rational_api.cc
index e440a39..94821a5 100644
--- a/wicked/api/rational_api.cc
+++ b/wicked/api/rational_api.cc
@@ -1,3 +1,5 @@
+#include <sstream>
+
 #include <pybind11/pybind11.h>
 
 #include "diagrams/operator.h"
@@ -7,6 +9,13 @@
 namespace py = pybind11;
 using namespace pybind11::literals;
 
+/// Convert to a Python integer, which can hold a number of any size
+static py::int_ to_python_int(const rational_t &value) {
+  std::ostringstream ss;
+  ss << value;
+  return py::int_(py::str(ss.str()));
+}
+
 void export_rational(py::module &m) {
 
   py::class_<rational, std::shared_ptr<rational>>(m, "rational")
@@ -16,13 +25,9 @@ void export_rational(py::module &m) {
       .def("latex", &rational::latex)
       .def("compile", &rational::compile)
       .def("numerator",
-           [](const rational &r) {
-             return static_cast<long long int>(r.numerator());
-           })
+           [](const rational &r) { return to_python_int(r.numerator()); })
       .def("denominator",
-           [](const rational &r) {
-             return static_cast<long long int>(r.denominator());
-           })
+           [](const rational &r) { return to_python_int(r.denominator()); })
       .def("__float__", &rational::to_double)
       .def("__eq__",
            [](const rational &lhs, const rational &rhs) { return lhs == rhs; })
-- 
2.43.0


From 4c41f3ef127c008d6c80f46fc5f6d798e2b453c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:47 +0000
Subject: [PATCH 23/43] fix: prefactor of operators with more than 20
 equivalent lines

---
 wicked/diagrams/operator.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/wicked/diagrams/operator.cc b/wicked/diagrams/operator.cc
index b22e1a1..235fd21 100644
--- a/wicked/diagrams/operator.cc
+++ b/wicked/diagrams/operator.cc
@@ -19,11 +19,15 @@ GraphMatrix Operator::graph_matrix() const { return graph_matrix_; }
 
 scalar_t Operator::factor() const {
   scalar_t result = 1;
+  // divide by cre! and ann! one factor at a time: the factorial of a large
+  // number does not fit an integer
   for (int s = 0; s < orbital_subspaces->num_spaces(); ++s) {
-    result /= static_cast<scalar_t>(factorial(cre(s)));
-  }
-  for (int s = 0; s < orbital_subspaces->num_spaces(); ++s) {
-    result /= static_cast<scalar_t>(factorial(ann(s)));
+    for (int i = 2; i <= cre(s); ++i) {
+      result /= scalar_t(i);
+    }
+    for (int i = 2; i <= ann(s); ++i) {
+      result /= scalar_t(i);
+    }
   }
   return result;
 }
-- 
2.43.0


From 10d55da5b19978cdc812a230e59110034a13c178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:16 +0000
Subject: [PATCH 24/43] fix: backtracking does not write past one hundred
 contractions

---
 wicked/diagrams/wick_theorem_composite_contractions.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wicked/diagrams/wick_theorem_composite_contractions.cc b/wicked/diagrams/wick_theorem_composite_contractions.cc
index 8e0159f..d0dd98b 100644
--- a/wicked/diagrams/wick_theorem_composite_contractions.cc
+++ b/wicked/diagrams/wick_theorem_composite_contractions.cc
@@ -24,8 +24,8 @@ void WickTheorem::generate_composite_contractions(const OperatorProduct &ops,
                   << std::endl;)
 
   // this vector is used in the backtracking algorithm to hold the list of
-  // elementary contractions
-  std::vector<int> a(100, -1);
+  // elementary contractions (each one takes at least two operators)
+  std::vector<int> a(ops.num_ops() / 2 + 1, -1);
   // create a vector that keeps track of the free (uncontracted graph matrices)
   std::vector<GraphMatrix> free_graph_matrix_vec;
   for (const auto &op : ops) {
-- 
2.43.0


From 9b3678202e7b69bc94d273b86cd9e8b82773a964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:16 +0000
Subject: [PATCH 25/43] fix: combinatorial factors beyond 32 bits

---
 .../wick_theorem_process_contractions.cc         | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/wicked/diagrams/wick_theorem_process_contractions.cc b/wicked/diagrams/wick_theorem_process_contractions.cc
index 719240c..5fc47f9 100644
--- a/wicked/diagrams/wick_theorem_process_contractions.cc
+++ b/wicked/diagrams/wick_theorem_process_contractions.cc
@@ -544,8 +544,16 @@ WickTheorem::combinatorial_factor(const OperatorProduct &ops,
       for (int s = 0; s < orbital_subspaces->num_spaces(); s++) {
         const auto &[kcre, kann] = graph_matrix.elements(s);
         const auto &[ncre, nann] = free_graph_matrix[v].elements(s);
-        factor *= binomial(ncre, kcre);
-        factor *= binomial(nann, kann);
+        // accumulate the binomial coefficients one factor at a time: they do
+        // not fit an integer when there are many equivalent lines
+        for (int i = 0; i < kcre; i++) {
+          factor *= scalar_t(ncre - i);
+          factor /= scalar_t(i + 1);
+        }
+        for (int i = 0; i < kann; i++) {
+          factor *= scalar_t(nann - i);
+          factor /= scalar_t(i + 1);
+        }
       }
       free_graph_matrix[v] -= graph_matrix;
     }
@@ -558,7 +566,9 @@ WickTheorem::combinatorial_factor(const OperatorProduct &ops,
     contraction_count[contraction] += 1;
   }
   for (const auto &kv : contraction_count) {
-    factor /= factorial(kv.second);
+    for (int i = 2; i <= kv.second; i++) {
+      factor /= scalar_t(i);
+    }
   }
   return factor;
 }
-- 
2.43.0


From ee50469c8f29b7f48b9b3e334835add74a69e411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:57 +0000
Subject: [PATCH 26/43] fix: subtracting an expression from itself in place

---
 wicked/diagrams/operator_expression.cc | 4 +++-
 wicked/helpers/algebra.hpp             | 4 ++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/wicked/diagrams/operator_expression.cc b/wicked/diagrams/operator_expression.cc
index 985bfa8..e82203f 100644
--- a/wicked/diagrams/operator_expression.cc
+++ b/wicked/diagrams/operator_expression.cc
@@ -15,7 +15,9 @@ OperatorExpression::OperatorExpression(
 }
 
 void OperatorExpression::add2(const OperatorExpression &expr, scalar_t factor) {
-  for (const auto &vec_dop_factor : expr.terms()) {
+  // copy the terms, since expr may be this object
+  const auto expr_terms = expr.terms();
+  for (const auto &vec_dop_factor : expr_terms) {
     add(vec_dop_factor.first, factor * vec_dop_factor.second);
   }
 }
diff --git a/wicked/helpers/algebra.hpp b/wicked/helpers/algebra.hpp
index aeb3a9b..605b76f 100644
--- a/wicked/helpers/algebra.hpp
+++ b/wicked/helpers/algebra.hpp
@@ -102,6 +102,10 @@ public:
   /// @brief Subtraction assignment operator
   /// @param rhs the term to subtract
   Algebra &operator-=(const Algebra &rhs) {
+    if (this == &rhs) {
+      terms_.clear();
+      return *this;
+    }
     for (const auto &[e, c] : rhs.terms()) {
       add(e, -c);
     }
-- 
2.43.0


From 601cebcddcbf67810c304bd3dfff32a324f04fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:38 +0000
Subject: [PATCH 27/43] fix: operators acting on removed orbital spaces are
 rejected, not truncated

---
 wicked/diagrams/graph_matrix.cc | 10 ++++------
 wicked/diagrams/wick_theorem.cc | 13 +++++++++++++
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/wicked/diagrams/graph_matrix.cc b/wicked/diagrams/graph_matrix.cc
index f3c8deb..0a56d59 100644
--- a/wicked/diagrams/graph_matrix.cc
+++ b/wicked/diagrams/graph_matrix.cc
@@ -91,13 +91,11 @@ GraphMatrix &GraphMatrix::operator-=(const GraphMatrix &rhs) {
 }
 
 GraphMatrix GraphMatrix::adjoint() const {
-  std::vector<int> cre_v(orbital_subspaces->num_spaces(), 0);
-  std::vector<int> ann_v(orbital_subspaces->num_spaces(), 0);
-  for (int s = 0; s < orbital_subspaces->num_spaces(); ++s) {
-    cre_v[s] = ann(s);
-    ann_v[s] = cre(s);
+  GraphMatrix result;
+  for (int s = 0; s < max_spaces_; ++s) {
+    result.elements_[s] = std::make_pair(ann(s), cre(s));
   }
-  return GraphMatrix(cre_v, ann_v);
+  return result;
 }
 
 std::string GraphMatrix::str() const {
diff --git a/wicked/diagrams/wick_theorem.cc b/wicked/diagrams/wick_theorem.cc
index 34ddaee..8341f09 100644
--- a/wicked/diagrams/wick_theorem.cc
+++ b/wicked/diagrams/wick_theorem.cc
@@ -32,6 +32,19 @@ const std::map<std::string, double> &WickTheorem::timers() const {
 
 Expression WickTheorem::contract(scalar_t factor, const OperatorProduct &ops,
                                  const int minrank, const int maxrank) {
+  // operators defined before the orbital spaces were changed may act on spaces
+  // that no longer exist
+  for (const auto &op : ops) {
+    int num_ops = 0;
+    for (int s = 0; s < orbital_subspaces->num_spaces(); s++) {
+      num_ops += op.cre(s) + op.ann(s);
+    }
+    if (num_ops != op.num_ops()) {
+      throw std::runtime_error("WickTheorem::contract: operator " + op.label() +
+                               " acts on undefined orbital spaces");
+    }
+  }
+
   ncontractions_ = 0;
   contractions_.clear();
   elementary_contractions_.clear();
-- 
2.43.0


From 1bc232ccf69de6b5b87ed50c95a3d2744ac4d3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:26 +0000
Subject: [PATCH 28/43] fix: canonicalizing a canonical term again changes
 nothing

---
 wicked/algebra/symbolic_term.cc | 24 +++++++++++++++++++++++-
 wicked/algebra/symbolic_term.h  |  3 +++
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/wicked/algebra/symbolic_term.cc b/wicked/algebra/symbolic_term.cc
index bf96274..42994e4 100644
--- a/wicked/algebra/symbolic_term.cc
+++ b/wicked/algebra/symbolic_term.cc
@@ -103,8 +103,30 @@ void SymbolicTerm::reindex(index_map_t &idx_map) {
   }
 }
 
-#define NEW_CANONICALIZATION 1
 scalar_t SymbolicTerm::canonicalize() {
+  scalar_t factor = canonicalize_pass();
+
+  // Tensors with the same score are sorted by the names of their indices, but
+  // these depend on the order of the tensors. If this can happen, repeat the
+  // procedure until the order of the tensors is settled.
+  if (std::adjacent_find(tensors_.begin(), tensors_.end(),
+                         [](const Tensor &a, const Tensor &b) {
+                           return a.label() == b.label();
+                         }) == tensors_.end())
+    return factor;
+  while (true) {
+    SymbolicTerm next(*this);
+    const scalar_t next_factor = next.canonicalize_pass();
+    if (not(next < *this))
+      break;
+    *this = next;
+    factor *= next_factor;
+  }
+  return factor;
+}
+
+#define NEW_CANONICALIZATION 1
+scalar_t SymbolicTerm::canonicalize_pass() {
   scalar_t factor(1);
 
 //
diff --git a/wicked/algebra/symbolic_term.h b/wicked/algebra/symbolic_term.h
index 6cf23c0..22fe1d2 100644
--- a/wicked/algebra/symbolic_term.h
+++ b/wicked/algebra/symbolic_term.h
@@ -78,6 +78,9 @@ public:
   /// Canonicalize this term and return the overall phase factor
   // bool is_connected();
 
+  /// Perform one pass of the canonicalization procedure
+  scalar_t canonicalize_pass();
+
   scalar_t simplify();
 
   /// Comparison operator used for sorting
-- 
2.43.0


From 4744aee3917da38e4618a511e88596011620aa4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:18 +0000
Subject: [PATCH 29/43] fix: no sign for exchanging bosonic operators in
 operator products

Canonicalizing an operator product counted the bosonic operators when it
determined the sign of an exchange.
---
 wicked/diagrams/operator_product.cc | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/wicked/diagrams/operator_product.cc b/wicked/diagrams/operator_product.cc
index a8a603e..47665f9 100644
--- a/wicked/diagrams/operator_product.cc
+++ b/wicked/diagrams/operator_product.cc
@@ -1,3 +1,5 @@
+#include "helpers/orbital_space.h"
+
 #include "operator_product.h"
 
 using namespace std;
@@ -10,6 +12,17 @@ int OperatorProduct::num_ops() const {
   return r;
 }
 
+/// The number of fermionic creation and annihilation operators of an operator
+static int num_fermionic_ops(const Operator &op) {
+  int r = 0;
+  for (int s = 0; s < orbital_subspaces->num_spaces(); ++s) {
+    if (orbital_subspaces->field_type(s) == FieldType::Fermion) {
+      r += op.cre(s) + op.ann(s);
+    }
+  }
+  return r;
+}
+
 scalar_t OperatorProduct::canonicalize() {
   int nperm = 0;
   int n = elements_.size();
@@ -17,7 +30,9 @@ scalar_t OperatorProduct::canonicalize() {
     // Last i elements are already in place
     for (int j = 0; j < n - i - 1; j++) {
       if (operator_noncommuting_less(elements_[j + 1], elements_[j])) {
-        nperm += elements_[j].num_ops() * elements_[j + 1].num_ops();
+        // only exchanging fermionic operators changes the sign
+        nperm += num_fermionic_ops(elements_[j]) *
+                 num_fermionic_ops(elements_[j + 1]);
         swap(elements_[j], elements_[j + 1]);
       }
     }
-- 
2.43.0


From c7e8cad566c46fcb046c334ae5a3c301d178bc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:46 +0000
Subject: [PATCH 30/43] fix: sign of many-body equations for operators that are
 not in creation-then-annihilation order

Equations of a normal-ordered product with annihilation operators to the left
of creation operators lost the sign of the rearrangement.
---
 wicked/algebra/expression.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/wicked/algebra/expression.cc b/wicked/algebra/expression.cc
index d40282d..d159239 100644
--- a/wicked/algebra/expression.cc
+++ b/wicked/algebra/expression.cc
@@ -167,12 +167,20 @@ Expression::to_manybody_equation(const std::string &label) const {
     std::vector<Index> upper;
     const SymbolicTerm &term = term_factor.first;
     scalar_t factor = term_factor.second;
+    int nfermion_ann = 0;
     for (const auto &op : term.ops()) {
+      const bool is_fermion = op.field_type() == FieldType::Fermion;
       if (op.type() == SQOperatorType::Creation) {
         lower.push_back(op.index());
+        // moving this operator to the left of the annihilation operators
+        // changes the sign
+        if (is_fermion and (nfermion_ann % 2 == 1)) {
+          factor *= scalar_t(-1);
+        }
       } else {
         // upper indices are read in reverse order
         upper.insert(upper.begin(), op.index());
+        nfermion_ann += is_fermion;
       }
     }
     SymbolicTerm lhs;
-- 
2.43.0


From 3ffc9af1d0cd6e371fafc5491ba311fa8289cb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:35 +0000
Subject: [PATCH 31/43] fix: refuse to compile equations with operators or
 without left-hand side, valid ambit code for scalars

---
 wicked/algebra/equation.cc | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/wicked/algebra/equation.cc b/wicked/algebra/equation.cc
index f3bc564..1f382c2 100644
--- a/wicked/algebra/equation.cc
+++ b/wicked/algebra/equation.cc
@@ -100,10 +100,24 @@ get_unique_tensor_indices(const Tensor &t,
 }
 
 std::string Equation::compile(const std::string &format) const {
+  if ((lhs().nops() != 0) or (rhs().nops() != 0)) {
+    throw std::runtime_error(
+        "Equation::compile() - cannot compile an equation with operators");
+  }
+
   if (format == "ambit") {
+    if (lhs().tensors().size() != 1) {
+      throw std::runtime_error("Equation::compile() - ambit requires one "
+                               "tensor on the left-hand side");
+    }
     std::vector<std::string> str_vec;
     str_vec.push_back(lhs_.compile(format) + " += " + factor_.compile(format));
-    str_vec.push_back(rhs_.compile(format));
+    if (rhs().tensors().size() != 0) {
+      str_vec.push_back(rhs_.compile(format));
+    } else if (lhs().tensors()[0].rank() != 0) {
+      throw std::runtime_error("Equation::compile() - cannot compile an "
+                               "equation with a scalar right-hand side");
+    }
     return (join(str_vec, " * ") + ";");
   }
 
-- 
2.43.0


From 75e4ac4bdbd195a0480102e16eea906fda68e8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:13 +0000
Subject: [PATCH 32/43] fix: einsum letters of indices that share a LaTeX name

---
 wicked/algebra/equation.cc | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/wicked/algebra/equation.cc b/wicked/algebra/equation.cc
index 1f382c2..cf41bfe 100644
--- a/wicked/algebra/equation.cc
+++ b/wicked/algebra/equation.cc
@@ -41,60 +41,62 @@ std::string Equation::str() const {
 
 std::string Equation::latex() const { return str(); }
 
-std::string get_unique_index(const std::string &s,
-                             std::map<std::string, std::string> &index_map,
+std::string get_unique_index(const Index &index,
+                             std::map<Index, std::string> &index_map,
                              std::vector<char> &unused_indices);
 
 std::string
 get_unique_tensor_indices(const Tensor &t,
-                          std::map<std::string, std::string> &index_map,
+                          std::map<Index, std::string> &index_map,
                           std::vector<char> &unused_indices);
 
-std::string get_unique_index(const std::string &s,
-                             std::map<std::string, std::string> &index_map,
+std::string get_unique_index(const Index &index,
+                             std::map<Index, std::string> &index_map,
                              std::vector<std::string> &unused_indices) {
   // is this index (something like "i" or "o2") in the map? If not, figure out
-  // what it corresponds to.
-  if (index_map.count(s) == 0) {
+  // what it corresponds to. Two indices may have the same LaTeX form, so this
+  // is not used to identify them.
+  if (index_map.count(index) == 0) {
+    const std::string s = index.latex();
     // a character
     if (s.size() == 1) {
       if (std::find(unused_indices.begin(), unused_indices.end(), s) !=
           unused_indices.end()) {
         // if this character is unused, use it
-        index_map[s] = s;
+        index_map[index] = s;
       } else {
         // if it is used, grab the first available index
         if (unused_indices.empty()) {
           throw std::runtime_error("Equation::compile() - einsum supports at "
                                    "most 52 distinct indices");
         }
-        index_map[s] = unused_indices.back();
+        index_map[index] = unused_indices.back();
       }
     } else {
       if (unused_indices.empty()) {
         throw std::runtime_error("Equation::compile() - einsum supports at "
                                  "most 52 distinct indices");
       }
-      index_map[s] = unused_indices.back();
+      index_map[index] = unused_indices.back();
     }
     // erase this character from the available characters to avoid reusing
     unused_indices.erase(
-        std::remove(unused_indices.begin(), unused_indices.end(), index_map[s]),
+        std::remove(unused_indices.begin(), unused_indices.end(), index_map[index]),
         unused_indices.end());
   }
-  return index_map[s];
+  return index_map[index];
 }
 
 std::string
 get_unique_tensor_indices(const Tensor &t,
-                          std::map<std::string, std::string> &index_map,
+                          std::map<Index, std::string> &index_map,
                           std::vector<std::string> &unused_indices) {
   std::string indices;
   for (const auto &l : t.upper()) {
-    indices += get_unique_index(l.latex(), index_map, unused_indices);
+    indices += get_unique_index(l, index_map, unused_indices);
   }
   for (const auto &l : t.lower()) {
-    indices += get_unique_index(l.latex(), index_map, unused_indices);
+    indices += get_unique_index(l, index_map, unused_indices);
   }
   return indices;
 }
@@ -142,7 +144,7 @@ std::string Equation::compile(const std::string &format) const {
                       " += " + std::format("{:.9f}", rhs_factor().to_double()) +
                       " * np.einsum(");
 
-    std::map<std::string, std::string> index_map;
+    std::map<Index, std::string> index_map;
     std::vector<std::string> unused_indices = {
         "Z", "Y", "X", "W", "V", "U", "T", "S", "R", "Q", "P", "O", "N",
         "M", "L", "K", "J", "I", "H", "G", "F", "E", "D", "C", "B", "A",
-- 
2.43.0


From 3f1dd1401e1c90ecce293875d5ee649d02f89be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:29 +0000
Subject: [PATCH 33/43] fix: text of equations with right-hand side 1 or -1

---
 wicked/algebra/equation.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/wicked/algebra/equation.cc b/wicked/algebra/equation.cc
index cf41bfe..5ef4b36 100644
--- a/wicked/algebra/equation.cc
+++ b/wicked/algebra/equation.cc
@@ -34,8 +34,15 @@ std::string Equation::str() const {
   std::vector<std::string> str_vec;
   str_vec.push_back(lhs_.str());
   str_vec.push_back("+=");
-  str_vec.push_back(factor_.str());
-  str_vec.push_back(rhs_.str());
+  std::string factor_str = factor_.str();
+  const std::string rhs_str = rhs_.str();
+  // rational(1,1).str() returns "" and rational(-1,1).str() returns "-", so we
+  // need to handle the case of a pure scalar
+  if ((rhs_str.size() == 0) and ((factor_str == "") or (factor_str == "-"))) {
+    factor_str += "1";
+  }
+  str_vec.push_back(factor_str);
+  str_vec.push_back(rhs_str);
   return (join(str_vec, " "));
 }
 
-- 
2.43.0


From ce016e4ef0deca081a933930a307d854b9328282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:33 +0000
Subject: [PATCH 34/43] fix: compile_einsum refuses equations with operators or
 without tensors

---
 wicked/utils.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/wicked/utils.py b/wicked/utils.py
index 9abcaee..cd1e647 100644
--- a/wicked/utils.py
+++ b/wicked/utils.py
@@ -86,6 +86,13 @@ def compile_einsum(equation):
     rhs = equation.rhs()
     factor = equation.rhs_factor()
 
+    if lhs.ops() or rhs.ops():
+        raise ValueError("compile_einsum: cannot compile an equation with operators")
+    if len(lhs.tensors()) != 1:
+        raise ValueError("compile_einsum: the left-hand side must be one tensor")
+    if not rhs.tensors():
+        raise ValueError("compile_einsum: the right-hand side has no tensors")
+
     index_string = ''  # holds the expression part of the einsum contraction, e.g., iuvw,xyzr,wr,vz->iuxy 
     tensor_label_string = '' # holds the tensor label part of the einsum contraction, e.g., T2['caaa'], V['aaaa'], eta1, eta1, optimize='optimal')
 
-- 
2.43.0


From 4b21dcb4224570c07f5eff59678652c64c07398c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:21 +0000
Subject: [PATCH 35/43] fix: operator_expr applies the coefficient

---
 wicked/algebra/expression.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wicked/algebra/expression.cc b/wicked/algebra/expression.cc
index d159239..82ce8c9 100644
--- a/wicked/algebra/expression.cc
+++ b/wicked/algebra/expression.cc
@@ -262,7 +262,7 @@ Expression make_operator_expr(const std::string &label,
     std::reverse(std::begin(ann), std::end(ann));
     Tensor tensor(label, cre, ann, symmetry);
     term.add(tensor);
-    result.add(term);
+    result.add(term, coefficient);
   }
   return result;
 }
-- 
2.43.0


From 88d75d8ff61daee544662a6b43f1e450d79d6636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:29 +0000
Subject: [PATCH 36/43] fix: limit the number of pending tasks of a
 multi-threaded contraction

---
 .../wick_theorem_process_contractions.cc         | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/wicked/diagrams/wick_theorem_process_contractions.cc b/wicked/diagrams/wick_theorem_process_contractions.cc
index 5fc47f9..03fc64b 100644
--- a/wicked/diagrams/wick_theorem_process_contractions.cc
+++ b/wicked/diagrams/wick_theorem_process_contractions.cc
@@ -123,8 +123,21 @@ Expression WickTheorem::process_contractions_threads(scalar_t factor,
   std::vector<std::future<Expression>> futures;
   int ops_rank = ops.num_ops();
 
+  // Combine the results of all futures into a single Expression
+  Expression result;
+
+  // the number of tasks that are pending at the same time is limited: each one
+  // holds on to its thread until the result is retrieved
+  const size_t max_pending = 256;
+
   // Launch async tasks for each contraction
   for (const auto &contraction_vec : contractions_) {
+    if (futures.size() == max_pending) {
+      for (auto &fut : futures) {
+        result += fut.get();
+      }
+      futures.clear();
+    }
     futures.push_back(
         std::async(std::launch::async, [this, &ops, &contraction_vec, factor,
                                         minrank, maxrank, ops_rank] {
@@ -133,9 +146,6 @@ Expression WickTheorem::process_contractions_threads(scalar_t factor,
         }));
   }
 
-  // Combine the results of all futures into a single Expression
-  Expression result;
-
   // Use std::accumulate to sum all the results
   for (auto &fut : futures) {
     result += fut.get(); // Get the result from the future and add to the result
-- 
2.43.0


From 8f1b4155a0510e935063624184e1d629837e9a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:51 +0000
Subject: [PATCH 37/43] fix: the normal-ordered label has no meaning for a term
 without operators

---
 wicked/algebra/symbolic_term.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/wicked/algebra/symbolic_term.cc b/wicked/algebra/symbolic_term.cc
index 42994e4..0d48a16 100644
--- a/wicked/algebra/symbolic_term.cc
+++ b/wicked/algebra/symbolic_term.cc
@@ -20,7 +20,10 @@ SymbolicTerm::SymbolicTerm(bool normal_ordered,
 
 void SymbolicTerm::set_normal_ordered(bool val) { normal_ordered_ = val; }
 
-bool SymbolicTerm::is_labeled_normal_ordered() const { return normal_ordered_; }
+bool SymbolicTerm::is_labeled_normal_ordered() const {
+  // the label has no meaning for a term without operators
+  return normal_ordered_ and (nops() > 0);
+}
 
 bool SymbolicTerm::is_vacuum_normal_ordered() const {
   return std::is_sorted(operators_.begin(), operators_.end(),
@@ -74,6 +77,7 @@ SymbolicTerm &SymbolicTerm::operator*=(const SymbolicTerm &rhs) {
     add(tensor);
   }
   operators_ = ops;
+  normal_ordered_ = normal_ordered;
   return *this;
 }
 
-- 
2.43.0


From 18467297c82ffb597db0428a721043227b8961e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:37 +0000
Subject: [PATCH 38/43] fix: a rational number that does not fit 1024 bits is
 an error

---
 wicked/helpers/rational.cc | 17 ++++++++---------
 wicked/helpers/rational.h  |  3 ++-
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/wicked/helpers/rational.cc b/wicked/helpers/rational.cc
index 9627cc2..9821535 100644
--- a/wicked/helpers/rational.cc
+++ b/wicked/helpers/rational.cc
@@ -46,23 +46,22 @@ rational operator-(rational rhs) {
 }
 
 rational &rational::operator+=(const rational &rhs) {
-  numerator_ = rhs.denominator_ * numerator_ + rhs.numerator_ * denominator_;
-  denominator_ = rhs.denominator_ * denominator_;
-  reduce();
+  *this = rational(rational_t(rhs.denominator_ * numerator_ +
+                              rhs.numerator_ * denominator_),
+                   rational_t(rhs.denominator_ * denominator_));
   return *this;
 }
 
 rational &rational::operator-=(const rational &rhs) {
-  numerator_ = rhs.denominator_ * numerator_ - rhs.numerator_ * denominator_;
-  denominator_ = rhs.denominator_ * denominator_;
-  reduce();
+  *this = rational(rational_t(rhs.denominator_ * numerator_ -
+                              rhs.numerator_ * denominator_),
+                   rational_t(rhs.denominator_ * denominator_));
   return *this;
 }
 
 rational &rational::operator*=(const rational &rhs) {
-  numerator_ *= rhs.numerator();
-  denominator_ *= rhs.denominator();
-  reduce();
+  *this = rational(rational_t(numerator_ * rhs.numerator_),
+                   rational_t(denominator_ * rhs.denominator_));
   return *this;
 }
 
diff --git a/wicked/helpers/rational.h b/wicked/helpers/rational.h
index 4141b1b..b927245 100644
--- a/wicked/helpers/rational.h
+++ b/wicked/helpers/rational.h
@@ -10,7 +10,8 @@
 #if USE_BOOST_1024_INT
 #include <boost/multiprecision/cpp_int.hpp>
 #include <boost/rational.hpp>
-using rational_t = boost::multiprecision::int1024_t;
+/// the checked type throws when a result does not fit, instead of wrapping
+using rational_t = boost::multiprecision::checked_int1024_t;
 #else
 using rational_t = long long int;
 #endif
-- 
2.43.0


From baf7dae69cfb03e267cbc310106c9a43c47418fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:13 +0000
Subject: [PATCH 39/43] fix: operators that act on removed spaces cannot be
 printed or reordered

---
 wicked/diagrams/operator.cc | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/wicked/diagrams/operator.cc b/wicked/diagrams/operator.cc
index 235fd21..f9ed092 100644
--- a/wicked/diagrams/operator.cc
+++ b/wicked/diagrams/operator.cc
@@ -1,3 +1,5 @@
+#include <stdexcept>
+
 #include "helpers/combinatorics.h"
 #include "helpers/helpers.h"
 #include "helpers/orbital_space.h"
@@ -13,11 +15,25 @@ Operator::Operator(const std::string &label, const std::vector<int> &cre,
 Operator::Operator(const std::string &label, const GraphMatrix &graph_matrix)
     : label_(label), graph_matrix_(graph_matrix) {}
 
+/// An operator defined before the orbital spaces were changed may act on spaces
+/// that no longer exist
+static void check_spaces(const Operator &op) {
+  int num_ops = 0;
+  for (int s = 0; s < orbital_subspaces->num_spaces(); ++s) {
+    num_ops += op.cre(s) + op.ann(s);
+  }
+  if (num_ops != op.num_ops()) {
+    throw std::runtime_error("Operator: operator " + op.label() +
+                             " acts on undefined orbital spaces");
+  }
+}
+
 const std::string &Operator::label() const { return label_; }
 
 GraphMatrix Operator::graph_matrix() const { return graph_matrix_; }
 
 scalar_t Operator::factor() const {
+  check_spaces(*this);
   scalar_t result = 1;
   // divide by cre! and ann! one factor at a time: the factorial of a large
   // number does not fit an integer
@@ -61,6 +77,7 @@ bool Operator::operator!=(Operator const &other) const {
 }
 
 std::string Operator::str() const {
+  check_spaces(*this);
   std::vector<std::string> s;
   if (factor() != scalar_t(1)) {
     s.push_back(factor().str(false));
@@ -90,6 +107,8 @@ std::ostream &operator<<(std::ostream &os, const Operator &op) {
 }
 
 bool do_operators_commute(const Operator &a, const Operator &b) {
+  check_spaces(a);
+  check_spaces(b);
   int noncommuting = 0;
   for (int s = 0; s < orbital_subspaces->num_spaces(); s++) {
     noncommuting += a.ann(s) * b.cre(s) + a.cre(s) * b.ann(s);
-- 
2.43.0


From ac937b52f3f34341ac0d8e81ccc4d387919088d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:19 +0000
Subject: [PATCH 40/43] fix: a blank line is not the term 1

---
 wicked/algebra/expression.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wicked/algebra/expression.cc b/wicked/algebra/expression.cc
index 82ce8c9..8e94546 100644
--- a/wicked/algebra/expression.cc
+++ b/wicked/algebra/expression.cc
@@ -272,9 +272,9 @@ Expression make_expression(const std::string &s, SymmetryType symmetry) {
   TensorSyntax syntax = TensorSyntax::Wicked;
   Expression sum;
 
-  // if we have an empty string, do not parse it (the code below would interpret
-  // it as the term 1)
-  if (s.size() == 0)
+  // if we have an empty (or blank) string, do not parse it (the code below would
+  // interpret it as the term 1)
+  if (s.find_first_not_of(" \t\n\v\f\r") == std::string::npos)
     return sum;
 
   std::regex factor_re, operator_re, normal_ordered_re, tensor_re;
-- 
2.43.0


From 3a6323f01113b2d3b65a2333778bc22b80457406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:10 +0000
Subject: [PATCH 41/43] fix: canonicalize contraction graphs without going
 through all permutations of the contractions

---
 .../wick_theorem_canonicalize_graph.cc        | 34 +++++++++++--------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/wicked/diagrams/wick_theorem_canonicalize_graph.cc b/wicked/diagrams/wick_theorem_canonicalize_graph.cc
index 88ae602..a6a13d0 100644
--- a/wicked/diagrams/wick_theorem_canonicalize_graph.cc
+++ b/wicked/diagrams/wick_theorem_canonicalize_graph.cc
@@ -209,27 +209,33 @@ WickTheorem::canonicalize_contraction_graph(
                                    << " valid operator permutations\n"
                                    << endl;);
 
+  // 2. Order the contractions. For a given order of the operators, the best order
+  // of the contractions is obtained by sorting them, so there is no need to go
+  // through all the permutations of the contractions
   std::vector<std::vector<int>> con_perms;
-  {
-    // Loop over all permutations of contractions
+  for (const auto &ops_perm : ops_perms) {
     std::vector<int> con_perm(contractions.size());
     std::iota(con_perm.begin(), con_perm.end(), 0);
-    do {
-      PRINT(PrintLevel::Detailed, cout << "  Contraction permutation: ";
-            PRINT_ELEMENTS(con_perm); cout << endl;);
-      con_perms.push_back(con_perm);
-    } while (std::next_permutation(con_perm.begin(), con_perm.end()));
+    std::stable_sort(con_perm.begin(), con_perm.end(), [&](int l, int r) {
+      for (int o : ops_perm) {
+        if (contractions[r][o] < contractions[l][o]) {
+          return true;
+        }
+        if (contractions[l][o] < contractions[r][o]) {
+          return false;
+        }
+      }
+      return false;
+    });
+    PRINT(PrintLevel::Detailed, cout << "  Contraction permutation: ";
+          PRINT_ELEMENTS(con_perm); cout << endl;);
+    con_perms.push_back(con_perm);
   }
-  PRINT(PrintLevel::Detailed, cout << "\n  Found " << con_perms.size()
-                                   << " valid contraction permutations\n"
-                                   << endl;);
 
   // store all the possible graphs
   std::vector<std::pair<int, int>> graphs;
-  for (const auto &[o, ops_perm] : enumerate(ops_perms)) {
-    for (const auto &[c, con_perm] : enumerate(con_perms)) {
-      graphs.push_back(std::pair(o, c));
-    }
+  for (size_t o = 0; o < ops_perms.size(); o++) {
+    graphs.push_back(std::pair(o, o));
   }
 
   PRINT(PrintLevel::Detailed,
-- 
2.43.0


From 550b19635af08bff253f0260f05629f5de43cfd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:10 +0000
Subject: [PATCH 42/43] fix: iterate over copies of the terms of an expression

---
 wicked/api/expression_api.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/wicked/api/expression_api.cc b/wicked/api/expression_api.cc
index 04f42e4..7704c17 100644
--- a/wicked/api/expression_api.cc
+++ b/wicked/api/expression_api.cc
@@ -59,8 +59,15 @@ void export_Expression(py::module &m) {
           py::is_operator()) // Bind in-place addition with Term
       .def(
           "__iter__",
-          [](Expression &e) { return py::make_iterator(e.begin(), e.end()); },
-          py::keep_alive<0, 1>())
+          [](const Expression &e) {
+            // go through copies of the terms, so that changing them (or this
+            // expression) while iterating is safe
+            py::list terms;
+            for (const auto &[term, factor] : e) {
+              terms.append(py::make_tuple(term, factor));
+            }
+            return py::iter(terms);
+          })
       .def("dot", &Expression::dot, "rhs"_a)
       .def("norm", &Expression::norm)
       .def("latex", &Expression::latex, "sep"_a = " \\\\ \n")
-- 
2.43.0


From 1ff43d7ef7ff106e7e88540303a0ead2f9594567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:21 +0000
Subject: [PATCH 43/43] fix: normal ordering does not recurse once per swap of
 operators

A string of 150 operators in the opposite order needs 11175 swaps, and one
level of recursion for each of them overflows the stack.
---
 wicked/algebra/symbolic_term_normal_order.cc | 73 +++++++++++---------
 1 file changed, 39 insertions(+), 34 deletions(-)

diff --git a/wicked/algebra/symbolic_term_normal_order.cc b/wicked/algebra/symbolic_term_normal_order.cc
index a2485a2..a4ae3a5 100644
--- a/wicked/algebra/symbolic_term_normal_order.cc
+++ b/wicked/algebra/symbolic_term_normal_order.cc
@@ -15,50 +15,44 @@ auto is_fermionic_operator_pair = [](SQOperator const &a, SQOperator const &b) {
 };
 
 void recursive_vacuum_normal_order(
-    const SymbolicTerm &term, scalar_t c,
+    SymbolicTerm term, scalar_t c,
     vector<pair<SymbolicTerm, scalar_t>> &new_terms,
     bool only_same_index_contractions) {
-  const auto &ops = term.ops();
-  const int n = static_cast<int>(ops.size());
-  // if there are no operators, we are done
-  if (n == 0) {
-    new_terms.push_back({term, c});
-    return;
-  }
+  // the operators are swapped in a loop, since the number of swaps (and with a
+  // recursion the size of the stack) grows quadratically with the number of
+  // operators
+  while (true) {
+    const auto ops = term.ops();
+    const int n = static_cast<int>(ops.size());
+    // if there are no operators, we are done
+    if (n == 0) {
+      new_terms.push_back({term, c});
+      return;
+    }
 
-  // check that the term is valid (no adjacent identical fermionic operators)
-  bool valid = has_no_adjacent_identical_terms<SQOperator>(
-      ops, is_fermionic_operator_pair);
+    // check that the term is valid (no adjacent identical fermionic operators)
+    bool valid = has_no_adjacent_identical_terms<SQOperator>(
+        ops, is_fermionic_operator_pair);
 
-  if (not valid)
-    return;
+    if (not valid)
+      return;
 
-  // find the first pair of operators that are not in normal order
-  auto it = std::adjacent_find(
-      ops.begin(), ops.end(),
-      [](SQOperator const &a, SQOperator const &b) { return b < a; });
-  const bool is_normal_ordered = (it == ops.end());
+    // find the first pair of operators that are not in normal order
+    auto it = std::adjacent_find(
+        ops.begin(), ops.end(),
+        [](SQOperator const &a, SQOperator const &b) { return b < a; });
+    const bool is_normal_ordered = (it == ops.end());
+
+    if (is_normal_ordered) {
+      new_terms.push_back({term, c});
+      return;
+    }
 
-  if (is_normal_ordered) {
-    new_terms.push_back({term, c});
-  } else {
     const size_t pos = std::distance(ops.begin(), it);
     const auto a = ops[pos];
     const auto b = ops[pos + 1];
 
-    // 1. swap the operators at position pos and pos+1
-
-    // compute the sign of the commutator
-    const scalar_t sign = a.commutator_factor(b);
-    // create a new term with the operators swapped
-    auto swap_ops = ops;
-    std::swap(swap_ops[pos], swap_ops[pos + 1]);
-    auto swap_term = SymbolicTerm(false, swap_ops, term.tensors());
-    // normal order the new term
-    recursive_vacuum_normal_order(swap_term, c * sign, new_terms,
-                                  only_same_index_contractions);
-
-    // 2. contract the operators at position pos and pos+1
+    // 1. contract the operators at position pos and pos+1
 
     // Insert a delta if we swap a creation and annihilation of the same space
     if ((a.is_creation() != b.is_creation()) and (a.space() == b.space())) {
@@ -85,6 +79,17 @@ void recursive_vacuum_normal_order(
                                       only_same_index_contractions);
       }
     }
+
+    // 2. swap the operators at position pos and pos+1
+
+    // compute the sign of the commutator
+    const scalar_t sign = a.commutator_factor(b);
+    // create a new term with the operators swapped
+    auto swap_ops = ops;
+    std::swap(swap_ops[pos], swap_ops[pos + 1]);
+    // normal order the new term
+    term = SymbolicTerm(false, swap_ops, term.tensors());
+    c *= sign;
   }
 }
 
-- 
2.43.0

