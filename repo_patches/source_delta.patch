From 9691c5e574460a6d0a74d20132e4293a2d0dcfbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:48 +0000
Subject: [PATCH 01/62] fix: BetaBernoulli truncated fractional observation
 weights

---
 cxx/distributions/beta_bernoulli.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/distributions/beta_bernoulli.hh b/cxx/distributions/beta_bernoulli.hh
index 1dfe007..bf340db 100644
--- a/cxx/distributions/beta_bernoulli.hh
+++ b/cxx/distributions/beta_bernoulli.hh
@@ -11,7 +11,7 @@ class BetaBernoulli : public Distribution<bool> {
  public:
   double alpha = 1;  // hyperparameter
   double beta = 1;   // hyperparameter
-  int s = 0;         // sum of observed values
+  double s = 0;      // (weighted) sum of observed values
 
   std::vector<double> alpha_grid;
   std::vector<double> beta_grid;
-- 
2.43.0


From c600439d6e54f7406827a819ae1aac89a1283695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:48 +0000
Subject: [PATCH 02/62] fix: DirichletCategorical::sample truncated fractional
 counts

---
 cxx/distributions/dirichlet_categorical.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/distributions/dirichlet_categorical.cc b/cxx/distributions/dirichlet_categorical.cc
index 7cb683b..8fb61e3 100644
--- a/cxx/distributions/dirichlet_categorical.cc
+++ b/cxx/distributions/dirichlet_categorical.cc
@@ -35,7 +35,7 @@ double DirichletCategorical::logp_score() const {
 int DirichletCategorical::sample(std::mt19937* prng) {
   std::vector<double> weights(counts.size());
   std::transform(counts.begin(), counts.end(), weights.begin(),
-                 [&](size_t y) -> double { return y + alpha; });
+                 [&](double y) -> double { return y + alpha; });
   return choice(weights, prng);
 }
 
-- 
2.43.0


From 0e1ff9b52cd3ca6dde2250af30dbd3214a81a0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:48 +0000
Subject: [PATCH 03/62] fix: Bigram::sample corrupted the counts when
 truncating at max_length

---
 cxx/distributions/bigram.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cxx/distributions/bigram.cc b/cxx/distributions/bigram.cc
index f506cd7..ced202b 100644
--- a/cxx/distributions/bigram.cc
+++ b/cxx/distributions/bigram.cc
@@ -89,6 +89,9 @@ std::string Bigram::sample(std::mt19937* prng) {
   while (current_ind != num_chars) {
     sampled_string += index_to_char(current_ind);
     if (sampled_string.length() == max_length) {
+      // Incorporate the (forced) stop, so that unincorporate below undoes
+      // exactly what was incorporated here.
+      transition_dists[current_ind].incorporate(num_chars);
       break;
     }
     next_ind = transition_dists[current_ind].sample(prng);
-- 
2.43.0


From d0aa9e2fb6c3034f5f0c755b0e5d646778d64f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:48 +0000
Subject: [PATCH 04/62] fix: NonconjugateDistribution kept removed values,
 making the score nan

---
 cxx/distributions/nonconjugate.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cxx/distributions/nonconjugate.hh b/cxx/distributions/nonconjugate.hh
index 614e21b..06ea1f7 100644
--- a/cxx/distributions/nonconjugate.hh
+++ b/cxx/distributions/nonconjugate.hh
@@ -31,6 +31,10 @@ class NonconjugateDistribution : public Distribution<T> {
 
   void incorporate(const T& x, double weight = 1.0) {
     seen[x] += weight;
+    if (seen[x] == 0.0) {
+      // Otherwise a value of zero probability would contribute 0 * -inf.
+      seen.erase(x);
+    }
     this->N += weight;
   };
 
-- 
2.43.0


From c1542f13c218fecd3ab1481ffc609b1ac75b4ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:16 +0000
Subject: [PATCH 05/62] fix: evaluating Normal::logp perturbed the sufficient
 statistics

---
 cxx/distributions/normal.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cxx/distributions/normal.cc b/cxx/distributions/normal.cc
index 17a454c..e9b4a32 100644
--- a/cxx/distributions/normal.cc
+++ b/cxx/distributions/normal.cc
@@ -40,10 +40,16 @@ double Normal::logp(const double& x) const {
   double unused_mprime, sprime;
   posterior_hypers(&unused_mprime, &sprime);
 
+  // Restore the statistics from saved copies; unincorporating x would leave
+  // them perturbed by rounding (badly so when x is far from the data).
+  const double saved_N = N, saved_mean = mean, saved_var = var;
+  Normal* self = const_cast<Normal*>(this);
   double sprime2;
-  const_cast<Normal*>(this)->incorporate(x);
+  self->incorporate(x);
   posterior_hypers(&unused_mprime, &sprime2);
-  const_cast<Normal*>(this)->unincorporate(x);
+  self->N = saved_N;
+  self->mean = saved_mean;
+  self->var = saved_var;
 
   return -0.5 * log(M_2PI) + logZ(r + N + 1, v + N + 1, sprime2) -
          logZ(r + N, v + N, sprime);
-- 
2.43.0


From 258636f0ed5e05c32bd4e87c506af7752d63e17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:22 +0000
Subject: [PATCH 06/62] fix: CRP table probabilities did not sum to one when
 empty and alpha != 1

---
 cxx/distributions/crp.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/distributions/crp.cc b/cxx/distributions/crp.cc
index 200c423..97a32a9 100644
--- a/cxx/distributions/crp.cc
+++ b/cxx/distributions/crp.cc
@@ -79,7 +79,7 @@ int CRP::max_table() const {
 std::map<int, double> CRP::tables_weights() const {
   std::map<int, double> dist;
   if (N == 0) {
-    dist[0] = 1;
+    dist[0] = alpha;
     return dist;
   }
   for (const auto& [table, customers] : tables) {
-- 
2.43.0


From bfd3924200966bbf7658058fef63fa9725c26060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:22 +0000
Subject: [PATCH 07/62] fix: linspace of a single point with endpoint returned
 nan

---
 cxx/util_math.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cxx/util_math.cc b/cxx/util_math.cc
index ea8dd54..166cd9d 100644
--- a/cxx/util_math.cc
+++ b/cxx/util_math.cc
@@ -14,7 +14,8 @@ double lbeta(double z, double w) {
 
 std::vector<double> linspace(double start, double stop, int num,
                              bool endpoint) {
-  double step = (stop - start) / (num - endpoint);
+  // A single point is just start (and avoids dividing by zero).
+  double step = num > 1 ? (stop - start) / (num - endpoint) : 0.0;
   std::vector<double> v;
   for (int i = 0; i < num; i++) {
     v.push_back(start + step * i);
-- 
2.43.0


From 9e5cc5a68471b8f0951792323c22f359e740c9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:22 +0000
Subject: [PATCH 08/62] fix: product of no lists read past the end of an empty
 vector

---
 cxx/util_math.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cxx/util_math.cc b/cxx/util_math.cc
index 166cd9d..26a08c5 100644
--- a/cxx/util_math.cc
+++ b/cxx/util_math.cc
@@ -82,10 +82,9 @@ std::vector<std::vector<int>> product(
       return result;
     }
   }
-  for (const int& e : lists[0]) {
-    result.push_back({e});
-  }
-  for (size_t i = 1; i < lists.size(); ++i) {
+  // Start from the product of no lists: a single empty tuple.
+  result.push_back({});
+  for (size_t i = 0; i < lists.size(); ++i) {
     std::vector<std::vector<int>> temp;
     for (std::vector<int>& e : result) {
       for (int f : lists[i]) {
-- 
2.43.0


From a5aa9f36826a9266679f2c0c1ea5ad53648b2769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:43 +0000
Subject: [PATCH 09/62] fix: SimpleStringEmission could emit a character
 outside its alphabet

---
 cxx/emissions/simple_string.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/emissions/simple_string.hh b/cxx/emissions/simple_string.hh
index 26f9554..db75cd0 100644
--- a/cxx/emissions/simple_string.hh
+++ b/cxx/emissions/simple_string.hh
@@ -129,7 +129,7 @@ class SimpleStringEmission : public Emission<std::string> {
   }
 
   char random_character(std::mt19937* prng) {
-    std::uniform_int_distribution<char> uid(lowest_char, highest_char + 1);
+    std::uniform_int_distribution<char> uid(lowest_char, highest_char);
     return uid(*prng);
   }
 
-- 
2.43.0


From 5b34d97548018484193831e793c0995a9b409768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:43 +0000
Subject: [PATCH 10/62] fix: SimpleStringEmission forgot the final
 non-insertion of a pair

---
 cxx/emissions/simple_string.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cxx/emissions/simple_string.hh b/cxx/emissions/simple_string.hh
index db75cd0..74df3cf 100644
--- a/cxx/emissions/simple_string.hh
+++ b/cxx/emissions/simple_string.hh
@@ -42,6 +42,8 @@ class SimpleStringEmission : public Emission<std::string> {
     if (clean.empty()) {
       // All of dirty must be insertions.
       insertions.incorporate(1, weight * dirty.length());
+      // After the last of them there wasn't another insertion.
+      insertions.incorporate(0, weight);
       return;
     }
 
@@ -49,7 +51,7 @@ class SimpleStringEmission : public Emission<std::string> {
       // All of clean must have be deleted.
       deletions.incorporate(1, weight * clean.length());
       // This is also evidence that clean.length()+1 insertions didn't happen.
-      insertions.incorporate(0, weight * clean.length());
+      insertions.incorporate(0, weight * (clean.length() + 1));
       return;
     }
 
-- 
2.43.0


From 09c2b31365a5069366dc36f92d4a690b005ec350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:43 +0000
Subject: [PATCH 11/62] fix: BigramStringEmission dropped the weight of the
 unpaired string in votes

---
 cxx/emissions/bigram_string.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/emissions/bigram_string.cc b/cxx/emissions/bigram_string.cc
index 85d92df..1309fd1 100644
--- a/cxx/emissions/bigram_string.cc
+++ b/cxx/emissions/bigram_string.cc
@@ -321,7 +321,7 @@ std::string BigramStringEmission::propose_clean_with_weights(
   }
   if (corrupted.size() % 2 == 1) {
     winners.push_back(corrupted.back());
-    new_weights.push_back(1.0);
+    new_weights.push_back(weights.back());
   }
   return propose_clean_with_weights(winners, new_weights);
 }
-- 
2.43.0


From 2a0c87c0328b47a08c5dbef8b667cdc986fcfd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:43 +0000
Subject: [PATCH 12/62] fix: BigramStringEmission weighted alignments by their
 inverse probability

---
 cxx/emissions/bigram_string.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cxx/emissions/bigram_string.cc b/cxx/emissions/bigram_string.cc
index 1309fd1..05ff924 100644
--- a/cxx/emissions/bigram_string.cc
+++ b/cxx/emissions/bigram_string.cc
@@ -128,9 +128,12 @@ void BigramStringEmission::incorporate(
                   },
                   &alignments);
 
+  const double min_cost = alignments.front().cost;
   double total_prob = 0.0;
   for (auto& a : alignments) {
-    a.cost = exp(a.cost);  // Turn all costs into non-log probabilities
+    // Turn all costs (negative log probabilities) into probabilities, scaled
+    // so that the best alignment's is one.
+    a.cost = exp(min_cost - a.cost);
     total_prob += a.cost;
   }
 
-- 
2.43.0


From 20c9a426623c4a455f54e81f4108dc3498f74206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:43 +0000
Subject: [PATCH 13/62] fix: BigramStringEmission priced every alignment step
 in the context of the first clean character

---
 cxx/emissions/bigram_string.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cxx/emissions/bigram_string.cc b/cxx/emissions/bigram_string.cc
index 05ff924..a955720 100644
--- a/cxx/emissions/bigram_string.cc
+++ b/cxx/emissions/bigram_string.cc
@@ -57,16 +57,17 @@ std::string BigramStringEmission::category_to_char(int category) {
 
 double BigramStringEmission::log_prob_distance(const StrAlignment& alignment, double old_cost) {
   assert(!alignment.align_pieces.empty());
+  // The insertion context is the last clean character before the final piece.
   std::string insertion_context = "";
-  for (auto it = alignment.align_pieces.rbegin();
-       it != alignment.align_pieces.rend();
+  for (auto it = alignment.align_pieces.rbegin() + 1;
+       it != alignment.align_pieces.rend() && insertion_context.empty();
        ++it) {
     switch (it->index()) {
       case 0: // Deletion
         insertion_context = std::get<Deletion>(*it).deleted_char;
         break;
       case 1: // Insertion
-        continue;
+        break;
       case 2: // Substitution
         insertion_context = std::get<Substitution>(*it).original;
         break;
-- 
2.43.0


From ff920b8c8310c963cf057792cedd693a4383181f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:59 +0000
Subject: [PATCH 14/62] fix: StringNat::nearest could return a string longer
 than max_length

---
 cxx/distributions/string_nat.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cxx/distributions/string_nat.hh b/cxx/distributions/string_nat.hh
index 5acd2d9..ca75dce 100644
--- a/cxx/distributions/string_nat.hh
+++ b/cxx/distributions/string_nat.hh
@@ -18,7 +18,10 @@ class StringNat : public Bigram {
   std::string nearest(const std::string& x) const {
     std::string s;
     for (const char& c : x) {
-      if (std::isdigit(c)) {
+      if ((max_length > 0) && (s.length() == max_length)) {
+        break;
+      }
+      if (std::isdigit(static_cast<unsigned char>(c))) {
         s += c;
       }
     }
-- 
2.43.0


From b7bf334c488425f6de290384c9af3246c54dd72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:59 +0000
Subject: [PATCH 15/62] fix: Bigram::nearest returned strings the distribution
 does not support

---
 cxx/distributions/bigram.cc | 13 +++++++++++++
 cxx/distributions/bigram.hh |  2 ++
 2 files changed, 15 insertions(+)

diff --git a/cxx/distributions/bigram.cc b/cxx/distributions/bigram.cc
index ced202b..7a79cf5 100644
--- a/cxx/distributions/bigram.cc
+++ b/cxx/distributions/bigram.cc
@@ -70,6 +70,19 @@ double Bigram::logp_score() const {
   return logp;
 }
 
+std::string Bigram::nearest(const std::string& x) const {
+  std::string s;
+  for (const char& c : x) {
+    if ((max_length > 0) && (s.length() == max_length)) {
+      break;
+    }
+    if (c >= min_char && c <= max_char) {
+      s += c;
+    }
+  }
+  return s;
+}
+
 std::string Bigram::sample(std::mt19937* prng) {
   std::string sampled_string;
   if (max_length > 0) {
diff --git a/cxx/distributions/bigram.hh b/cxx/distributions/bigram.hh
index 7245012..89cc403 100644
--- a/cxx/distributions/bigram.hh
+++ b/cxx/distributions/bigram.hh
@@ -42,6 +42,8 @@ class Bigram : public Distribution<std::string> {
 
   double logp_score() const;
 
+  std::string nearest(const std::string& x) const;
+
   std::string sample(std::mt19937* prng);
 
   void set_alpha(double alphat);
-- 
2.43.0


From 9b3b10789182f07904d52e232ad81001ac0de1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:59 +0000
Subject: [PATCH 16/62] fix: DistributionAdapter::to_string lost precision of
 real values

---
 cxx/distributions/adapter.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cxx/distributions/adapter.hh b/cxx/distributions/adapter.hh
index cb9594f..9b93532 100644
--- a/cxx/distributions/adapter.hh
+++ b/cxx/distributions/adapter.hh
@@ -6,6 +6,7 @@
 
 #pragma once
 #include <iostream>
+#include <limits>
 #include <sstream>
 #include <string>
 
@@ -28,6 +29,7 @@ class DistributionAdapter : public Distribution<std::string> {
 
   std::string to_string(const S& s) const {
     std::ostringstream os;
+    os.precision(std::numeric_limits<S>::max_digits10);
     os << s;
     return os.str();
   }
-- 
2.43.0


From ca052d44a7afdedf0f438fc156ba71467d3d98c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:22 +0000
Subject: [PATCH 17/62] fix: NoisyRelation::update_value stores (base value,
 noisy value) in that order

---
 cxx/noisy_relation.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/noisy_relation.hh b/cxx/noisy_relation.hh
index 408a5eb..55ba3cb 100644
--- a/cxx/noisy_relation.hh
+++ b/cxx/noisy_relation.hh
@@ -172,7 +172,7 @@ class NoisyRelation : public Relation<T> {
     assert(data.contains(items));
     data.at(items) = value;
     const ValueType& base_value = get_base_value(items);
-    emission_relation.update_value(items, std::make_pair(value, base_value));
+    emission_relation.update_value(items, std::make_pair(base_value, value));
   }
 
   const std::vector<Domain*>& get_domains() const { return domains; }
-- 
2.43.0


From 845d805cebe5de3db2eb213c3b31147c126c76ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:22 +0000
Subject: [PATCH 18/62] fix: transition_latent_value scores each candidate with
 the noisy values paired to it

---
 cxx/noisy_relation.hh          |  2 ++
 cxx/transition_latent_value.hh | 27 +++++++++++----------------
 2 files changed, 13 insertions(+), 16 deletions(-)

diff --git a/cxx/noisy_relation.hh b/cxx/noisy_relation.hh
index 55ba3cb..799ab62 100644
--- a/cxx/noisy_relation.hh
+++ b/cxx/noisy_relation.hh
@@ -91,6 +91,8 @@ class NoisyRelation : public Relation<T> {
     const ValueType& base_val = get_base_value(items);
     emission_relation.incorporate_to_cluster(items,
                                              std::make_pair(base_val, value));
+    // The base value may have changed since `items` was unincorporated.
+    emission_relation.data.at(items) = std::make_pair(base_val, value);
   }
 
   void cleanup_base_to_noisy(const T_items& items) {
diff --git a/cxx/transition_latent_value.hh b/cxx/transition_latent_value.hh
index 7e7338e..8e036c8 100644
--- a/cxx/transition_latent_value.hh
+++ b/cxx/transition_latent_value.hh
@@ -72,15 +72,14 @@ void transition_latent_value(
                                noisy_relations);
 }
 
-// This function leaves base_relation and noisy_relations in an invalid state,
-// since values are unincorporated directly from their clusters.
+// This function leaves noisy_relations in an invalid state, since values are
+// unincorporated directly from their clusters. The base relation keeps its
+// current value.
 template <typename ValueType>
 T_noisy_observations<ValueType> unincorporate_and_store_values(
     T_items base_items, Relation<ValueType>* base_relation,
     std::unordered_map<std::string, NoisyRelation<ValueType>*>
         noisy_relations) {
-  base_relation->unincorporate_from_cluster(base_items);
-
   // Unincorporate all noisy observations from clusters and store the noisy
   // values.
   T_noisy_observations<ValueType> noisy_observations;
@@ -95,10 +94,10 @@ T_noisy_observations<ValueType> unincorporate_and_store_values(
   return noisy_observations;
 }
 
-// This function assumes that the latent/noisy observations corresponding to
-// base_items have been removed from their clusters in
-// base_relation/noisy_relations (and returns base_relation/noisy_relations in
-// this state as well).
+// This function assumes that the noisy observations corresponding to
+// base_items have been removed from their clusters in noisy_relations (and
+// returns noisy_relations in this state as well). The base relation is left
+// with the last latent value.
 template <typename ValueType>
 std::vector<double> latent_values_incremental_logp(
     T_items base_items, std::vector<ValueType> latent_values,
@@ -116,7 +115,7 @@ std::vector<double> latent_values_incremental_logp(
   std::vector<double> logpx;
   for (const ValueType& v : latent_values) {
     // Incorporate the latent/noisy values for this candidate.
-    base_relation->incorporate_to_cluster(base_items, v);
+    base_relation->update_value(base_items, v);
     for (auto& [name, rel] : noisy_relations) {
       for (const T_items& items : rel->base_to_noisy_items.at(base_items)) {
         rel->incorporate_to_cluster(items,
@@ -137,14 +136,13 @@ std::vector<double> latent_values_incremental_logp(
         rel->unincorporate_from_cluster(items);
       }
     }
-    base_relation->unincorporate_from_cluster(base_items);
   }
   return logpx;
 }
 
-// This function assumes observations corresponding to base_items have been
-// removed from their clusters in base_relation/noisy_relations. The function
-// incorporates new values to these clusters, restoring
+// This function assumes noisy observations corresponding to base_items have
+// been removed from their clusters in noisy_relations. The function
+// incorporates them given the new latent value, restoring
 // base_relation/noisy_relations to a valid state.
 template <typename ValueType>
 void choose_and_incorporate_value(
@@ -158,9 +156,6 @@ void choose_and_incorporate_value(
   ValueType new_latent_value = latent_value_candidates[log_choice(logpx, prng)];
 
   // Incorporate the new estimate of the latent value.
-  base_relation->incorporate_to_cluster(base_items, new_latent_value);
-  // Base relation needs to be updated manually since incorporate_to_cluster
-  // operates only on the underlying clusters.
   base_relation->update_value(base_items, new_latent_value);
   for (auto& [name, rel] : noisy_relations) {
     for (const T_items& items : rel->base_to_noisy_items.at(base_items)) {
-- 
2.43.0


From 3d7a9352b2ceb4bff8262d76af77cf4bbf9fbd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:22 +0000
Subject: [PATCH 19/62] fix: transition_latent_value leaves a latent value
 without noisy observations alone

---
 cxx/transition_latent_value.hh | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cxx/transition_latent_value.hh b/cxx/transition_latent_value.hh
index 8e036c8..4d471e8 100644
--- a/cxx/transition_latent_value.hh
+++ b/cxx/transition_latent_value.hh
@@ -44,6 +44,12 @@ void transition_latent_value(
     }
   }
 
+  // Without noisy observations there is nothing to propose from (and nothing
+  // was unincorporated).
+  if (all_noisy_observations.empty()) {
+    return;
+  }
+
   // Candidates for the next latent value are the clean proposals from each
   // cluster in each noisy relation.
   // TODO(emilyaf): Discuss/consider alternatives to generating proposals for
-- 
2.43.0


From 1c0a9561d547ddc77f911ce0ce67e5921ea26b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:22 +0000
Subject: [PATCH 20/62] fix: exact Gibbs scores of relations that use a domain
 more than once

---
 cxx/clean_relation.hh | 105 +++++++++++++-----------------------------
 1 file changed, 33 insertions(+), 72 deletions(-)

diff --git a/cxx/clean_relation.hh b/cxx/clean_relation.hh
index 0131c6f..4830727 100644
--- a/cxx/clean_relation.hh
+++ b/cxx/clean_relation.hh
@@ -301,89 +301,50 @@ class CleanRelation : public Relation<T> {
 
   // Implementation of exact Gibbs data probabilities.
 
-  std::unordered_map<std::vector<int> const, std::vector<T_items>,
-                     VectorIntHash>
-  get_cluster_to_items_list(Domain const& domain, const T_item& item) {
-    std::unordered_map<const std::vector<int>, std::vector<T_items>,
-                       VectorIntHash>
-        m;
-    for (const T_items& items : data_r.at(domain.name).at(item)) {
-      T_items z = get_cluster_assignment(items);
-      m[z].push_back(items);
-    }
-    return m;
-  }
-
-  double logp_gibbs_exact_current(const std::vector<T_items>& items_list) {
-    assert(!items_list.empty());
-    T_items z = get_cluster_assignment(items_list[0]);
-    auto cluster = clusters.at(z);
-    double logp0 = cluster->logp_score();
-    for (const T_items& items : items_list) {
-      ValueType x = data.at(items);
-      // assert(z == get_cluster_assignment(items));
-      cluster->unincorporate(x);
-    }
-    double logp1 = cluster->logp_score();
-    for (const T_items& items : items_list) {
-      ValueType x = data.at(items);
-      cluster->incorporate(x);
-    }
-    // Approximate floating point equality.
-    assert(abs(cluster->logp_score() - logp0) <=
-           std::numeric_limits<double>::epsilon() * abs(logp0));
-    return logp0 - logp1;
-  }
-
-  double logp_gibbs_exact_variant(const Domain& domain, const T_item& item,
-                                  int table,
-                                  const std::vector<T_items>& items_list,
-                                  std::mt19937* prng) {
-    assert(!items_list.empty());
-    T_items z =
-        get_cluster_assignment_gibbs(items_list[0], domain, item, table);
-
-    Distribution<ValueType>* prior = make_new_distribution(prng);
-    Distribution<ValueType>* cluster =
-        clusters.contains(z) ? clusters.at(z) : prior;
-    double logp0 = cluster->logp_score();
-    for (const T_items& items : items_list) {
-      // assert(z == get_cluster_assignment_gibbs(items, domain, item, table));
-      ValueType x = data.at(items);
-      cluster->incorporate(x);
-    }
-    const double logp1 = cluster->logp_score();
-    for (const T_items& items : items_list) {
-      ValueType x = data.at(items);
-      cluster->unincorporate(x);
-    }
-
-    // Approximate floating point equality.
-    assert(abs(cluster->logp_score() - logp0) <=
-           std::numeric_limits<double>::epsilon() * abs(logp0));
-    delete prior;
-    return logp1 - logp0;
-  }
-
+  // The item's observations are scored together, as a block: observations that
+  // are in different clusters now may share a cluster when the item is moved
+  // (if the domain occurs more than once), and none of them counts as part of
+  // the rest of the data.
   std::vector<double> logp_gibbs_exact(const Domain& domain, const T_item& item,
                                        std::vector<int> tables,
                                        std::mt19937* prng) {
-    auto cluster_to_items_list = get_cluster_to_items_list(domain, item);
-    int table_current = domain.get_cluster_assignment(item);
+    const auto& items_set = data_r.at(domain.name).at(item);
+    for (const T_items& items : items_set) {
+      clusters.at(get_cluster_assignment(items))->unincorporate(data.at(items));
+    }
     std::vector<double> logps;
     logps.reserve(tables.size());
-    double lp_cluster;
     for (const int& table : tables) {
+      std::unordered_map<const std::vector<int>, std::vector<T_items>,
+                         VectorIntHash>
+          cluster_to_items_list;
+      for (const T_items& items : items_set) {
+        T_items z = get_cluster_assignment_gibbs(items, domain, item, table);
+        cluster_to_items_list[z].push_back(items);
+      }
       double lp_table = 0;
       for (const auto& [z, items_list] : cluster_to_items_list) {
-        lp_cluster = (table == table_current)
-                         ? logp_gibbs_exact_current(items_list)
-                         : logp_gibbs_exact_variant(domain, item, table,
-                                                    items_list, prng);
-        lp_table += lp_cluster;
+        Distribution<ValueType>* prior = nullptr;
+        if (!clusters.contains(z)) {
+          prior = make_new_distribution(prng);
+        }
+        Distribution<ValueType>* cluster =
+            prior == nullptr ? clusters.at(z) : prior;
+        double logp0 = cluster->logp_score();
+        for (const T_items& items : items_list) {
+          cluster->incorporate(data.at(items));
+        }
+        lp_table += cluster->logp_score() - logp0;
+        for (const T_items& items : items_list) {
+          cluster->unincorporate(data.at(items));
+        }
+        delete prior;
       }
       logps.push_back(lp_table);
     }
+    for (const T_items& items : items_set) {
+      clusters.at(get_cluster_assignment(items))->incorporate(data.at(items));
+    }
     return logps;
   }
 
-- 
2.43.0


From 9f5b0eed3ac3a4e03467d594260b228bce7b4183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:01 +0000
Subject: [PATCH 21/62] fix: IRM accepts schemas that name a noisy relation
 before its base

---
 cxx/irm.cc | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/cxx/irm.cc b/cxx/irm.cc
index 56401d0..079a787 100644
--- a/cxx/irm.cc
+++ b/cxx/irm.cc
@@ -31,8 +31,25 @@ RelationVariant clean_relation_from_spec(const std::string& name,
 
 IRM::IRM(const T_schema& init_schema) {
   assert(schema.empty());
-  for (const auto& [name, relation] : init_schema) {
-    std::visit([&](auto trel) { this->add_relation(name, trel); }, relation);
+  while (schema.size() < init_schema.size()) {
+    bool added_a_relation = false;
+    for (const auto& [name, relation] : init_schema) {
+      if (schema.contains(name)) {
+        continue;
+      }
+      // A noisy relation is added after its base relation.
+      if (const auto* trel = std::get_if<T_noisy_relation>(&relation)) {
+        if (!schema.contains(trel->base_relation)) {
+          continue;
+        }
+      }
+      std::visit([&](auto trel) { this->add_relation(name, trel); }, relation);
+      added_a_relation = true;
+    }
+    if (!added_a_relation) {
+      printf("Detected loop in schema\n");
+      std::exit(1);
+    }
   }
   assert(schema.size() == relations.size());
 }
-- 
2.43.0


From 4598c8a822d7bcaa1e8c27625c81adb59a901c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:01 +0000
Subject: [PATCH 22/62] fix: IRM::remove_relation forgets the removed noisy
 relation

---
 cxx/irm.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cxx/irm.cc b/cxx/irm.cc
index 079a787..50e9701 100644
--- a/cxx/irm.cc
+++ b/cxx/irm.cc
@@ -411,6 +411,15 @@ void IRM::remove_relation(const std::string& name) {
       domains.erase(d);
     }
   }
+  if (const auto* trel = std::get_if<T_noisy_relation>(&schema.at(name))) {
+    auto it = base_to_noisy_relations.find(trel->base_relation);
+    if (it != base_to_noisy_relations.end()) {
+      std::erase(it->second, name);
+      if (it->second.empty()) {
+        base_to_noisy_relations.erase(it);
+      }
+    }
+  }
   std::visit([](auto r) { delete r; }, relations.at(name));
   relations.erase(name);
   schema.erase(name);
-- 
2.43.0


From 0fbdecbfd44f9eafeed911cf2dadc21b7c8ed8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:01 +0000
Subject: [PATCH 23/62] fix: IRM::remove_relation unincorporates entities that
 only the removed relation had

---
 cxx/irm.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cxx/irm.cc b/cxx/irm.cc
index 50e9701..ea9f57b 100644
--- a/cxx/irm.cc
+++ b/cxx/irm.cc
@@ -404,11 +404,19 @@ void IRM::remove_relation(const std::string& name) {
   }
   for (const auto& d : ds) {
     domain_to_relations.at(d).erase(name);
-    // TODO: Remove r from domains.at(d)->items
     if (domain_to_relations.at(d).empty()) {
       domain_to_relations.erase(d);
       delete domains.at(d);
       domains.erase(d);
+      continue;
+    }
+    // Entities that no other relation has observations of leave the domain.
+    const auto data_r = std::visit(
+        [](auto r) { return r->get_data_r(); }, relations.at(name));
+    for (const auto& [item, unused_items] : data_r.at(d)) {
+      if (!has_observation(d, item)) {
+        domains.at(d)->unincorporate(item);
+      }
     }
   }
   if (const auto* trel = std::get_if<T_noisy_relation>(&schema.at(name))) {
-- 
2.43.0


From 6af82b2f03cfa46a6fa42572b2d2fdb2048d3ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:55 +0000
Subject: [PATCH 24/62] fix: HIRM::remove_relation forgets the removed noisy
 relation

---
 cxx/hirm.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cxx/hirm.cc b/cxx/hirm.cc
index 71c1da7..17d9e0d 100644
--- a/cxx/hirm.cc
+++ b/cxx/hirm.cc
@@ -272,6 +272,15 @@ void HIRM::add_relation(std::mt19937* prng, const std::string& name,
 // have the removed relation as a base. The NoisyRelations will be in an invalid
 // state after their base relation is removed.
 void HIRM::remove_relation(const std::string& name) {
+  if (const auto* trel = std::get_if<T_noisy_relation>(&schema.at(name))) {
+    auto it = base_to_noisy_relations.find(trel->base_relation);
+    if (it != base_to_noisy_relations.end()) {
+      std::erase(it->second, name);
+      if (it->second.empty()) {
+        base_to_noisy_relations.erase(it);
+      }
+    }
+  }
   schema.erase(name);
   int rc = relation_to_code.at(name);
   int table = crp.assignments.at(rc);
-- 
2.43.0


From acff93a3aa64d0529ac61828c197c2183d0a70c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:43 +0000
Subject: [PATCH 25/62] fix: load_schema read past the end of lines that stop
 early

---
 cxx/util_io.cc | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/cxx/util_io.cc b/cxx/util_io.cc
index 1bfa190..0e76824 100644
--- a/cxx/util_io.cc
+++ b/cxx/util_io.cc
@@ -36,12 +36,15 @@ void verify_noisy_relation_domains(const T_schema& schema) {
   }
 }
 
-#define TYPE_CHECK(i, expected_type)                                        \
+#define LENGTH_CHECK(i)                                                     \
   if (i >= tokens.size()) {                                                 \
     printf("Error parsing schema line %s: expected at least %ld tokens\n",  \
            line.c_str(), i + 1);                                            \
     assert(false);                                                          \
-  }                                                                         \
+  }
+
+#define TYPE_CHECK(i, expected_type)                                        \
+  LENGTH_CHECK(i)                                                           \
   if (tokens[i].type != TokenType::expected_type) {                         \
     printf(                                                                 \
         "Error parsing schema line %s:  expected expected_type for %ld-th " \
@@ -53,11 +56,7 @@ void verify_noisy_relation_domains(const T_schema& schema) {
   }
 
 #define VAL_CHECK(i, expected_val)                                          \
-  if (i >= tokens.size()) {                                                 \
-    printf("Error parsing schema line %s: expected at least %ld tokens\n",  \
-           line.c_str(), i + 1);                                            \
-    assert(false);                                                          \
-  }                                                                         \
+  LENGTH_CHECK(i)                                                           \
   if (tokens[i].val != expected_val) {                                      \
     printf("Error parsing schema line %s:  expected %s for %ld-th token\n", \
            line.c_str(), expected_val, i + 1);                              \
@@ -82,6 +81,11 @@ T_schema load_schema(const std::string& path) {
       continue;
     }
 
+    // Whether the line has a j-th token and it reads `val`.
+    auto token_is = [&](size_t j, const std::string& val) {
+      return j < tokens.size() && tokens[j].val == val;
+    };
+
     size_t i = 0;
     TYPE_CHECK(i, identifier);
     std::string relname = tokens[i].val;
@@ -95,7 +99,7 @@ T_schema load_schema(const std::string& path) {
 
     i = 3;
     std::map<std::string, std::string> params;
-    if (tokens[i].val == "[") {  // Handle parameters
+    if (token_is(i, "[")) {  // Handle parameters
       do {
         ++i;
         TYPE_CHECK(i, identifier);
@@ -104,8 +108,10 @@ T_schema load_schema(const std::string& path) {
         VAL_CHECK(i, "=");
         ++i;
 
+        LENGTH_CHECK(i);
         params[param_name] = tokens[i++].val;
 
+        LENGTH_CHECK(i);
         if ((tokens[i].val != ",") && (tokens[i].val != "]")) {
           printf(
               "Error parsing schema line %s: expected ',' or ']' after "
@@ -129,14 +135,16 @@ T_schema load_schema(const std::string& path) {
 
     TYPE_CHECK(i, identifier);
 
-    if (tokens[i + 1].val == ";") {  // We have an emission!
+    if (token_is(i + 1, ";")) {  // We have an emission!
       base_relation = tokens[i].val;
       i += 2;
     }
 
     do {
+      TYPE_CHECK(i, identifier);
       domains.push_back(tokens[i++].val);
 
+      LENGTH_CHECK(i);
       if ((tokens[i].val != ",") && (tokens[i].val != ")")) {
         printf(
             "Error parsing schema line %s: expected ',' or ')' after domain\n",
-- 
2.43.0


From 259c1a152001be79430dace6847c7d70893e9b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:43 +0000
Subject: [PATCH 26/62] fix: load_schema read past the domains of a noisy
 relation with fewer domains than its base

---
 cxx/util_io.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cxx/util_io.cc b/cxx/util_io.cc
index 0e76824..2ce8475 100644
--- a/cxx/util_io.cc
+++ b/cxx/util_io.cc
@@ -25,6 +25,9 @@ void verify_noisy_relation_domains(const T_schema& schema) {
             std::vector<std::string> base_domains =
                 std::visit([&](const auto& brel) { return brel.domains; },
                            schema.at(trel.base_relation));
+            assert(base_domains.size() <= trel.domains.size() &&
+                   "A noisy relation must have the domains of its base "
+                   "relation.");
             for (size_t i = 0; i != base_domains.size(); ++i) {
               assert(base_domains[i] == trel.domains[i] &&
                      "The first domains of a noisy relation must be the same "
-- 
2.43.0


From 9a2970c045c4f023008b93d90c87dac3ba5c088a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:34 +0000
Subject: [PATCH 27/62] fix: observations of a base relation were incorporated
 once per noisy relation

---
 cxx/util_io.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/cxx/util_io.cc b/cxx/util_io.cc
index 2ce8475..74df14b 100644
--- a/cxx/util_io.cc
+++ b/cxx/util_io.cc
@@ -361,9 +361,14 @@ void incorporate_observations_relation(
           },
           rel_var);
     }
-    incorporate_observations_relation(prng, base_name, h_irm, observations,
-                                      noisy_to_base, relation_items,
-                                      completed_relations);
+    // The observations of a base relation are incorporated once, however many
+    // noisy relations it has.
+    if (!observations.contains(base_name) ||
+        !completed_relations.contains(base_name)) {
+      incorporate_observations_relation(prng, base_name, h_irm, observations,
+                                        noisy_to_base, relation_items,
+                                        completed_relations);
+    }
   }
 
   ObservationVariant ov;
-- 
2.43.0


From 9070d45b0938e24295bd8f4b979d5a1b3288428e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:34 +0000
Subject: [PATCH 28/62] fix: load_observations accepted rows with too few
 entities

---
 cxx/util_io.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cxx/util_io.cc b/cxx/util_io.cc
index 74df14b..41de229 100644
--- a/cxx/util_io.cc
+++ b/cxx/util_io.cc
@@ -215,6 +215,14 @@ T_observations load_observations(const std::string& path, T_schema& schema) {
       items.push_back(word);
     }
     assert((items.size() > 0) && "No Domain values specified.");
+    size_t num_domains = std::visit(
+        [](const auto& trel) { return trel.domains.size(); },
+        schema.at(relname));
+    if (items.size() != num_domains) {
+      printf("Error parsing observation %s: expected %ld entities, got %ld\n",
+             line.c_str(), num_domains, items.size());
+      std::exit(1);
+    }
     auto entry = std::make_tuple(items, value_str);
     observations[relname].push_back(entry);
   }
-- 
2.43.0


From 6d1e12ac8bcb953f1a0d78dddfa406a874375ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:34 +0000
Subject: [PATCH 29/62] fix: from_txt accepts schemas that name a noisy
 relation before its base

---
 cxx/util_io.cc | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/cxx/util_io.cc b/cxx/util_io.cc
index 41de229..a6c8ee2 100644
--- a/cxx/util_io.cc
+++ b/cxx/util_io.cc
@@ -657,6 +657,29 @@ load_clusters_hirm(const std::string& path) {
   return std::make_pair(relations, irms);
 }
 
+// Returns the relations of the schema, each base relation before the noisy
+// relations that use it.
+static std::vector<std::string> base_relations_first(const T_schema& schema) {
+  std::vector<std::string> order;
+  std::unordered_set<std::string> done;
+  while (order.size() < schema.size()) {
+    size_t num_done = order.size();
+    for (const auto& [r, relation] : schema) {
+      const auto* trel = std::get_if<T_noisy_relation>(&relation);
+      if (!done.contains(r) &&
+          (trel == nullptr || done.contains(trel->base_relation))) {
+        order.push_back(r);
+        done.insert(r);
+      }
+    }
+    if (order.size() == num_done) {
+      printf("Detected loop in schema\n");
+      std::exit(1);
+    }
+  }
+  return order;
+}
+
 void from_txt(std::mt19937* prng, IRM* const irm,
               const std::string& path_schema, const std::string& path_obs,
               const std::string& path_clusters) {
@@ -670,8 +693,9 @@ void from_txt(std::mt19937* prng, IRM* const irm,
   assert(irm->domains.empty());
   assert(irm->relations.empty());
   assert(irm->domain_to_relations.empty());
-  for (const auto& [r, ds] : schema) {
-    std::visit([&](const auto& trel) { irm->add_relation(r, trel); }, ds);
+  for (const std::string& r : base_relations_first(schema)) {
+    std::visit([&](const auto& trel) { irm->add_relation(r, trel); },
+               schema.at(r));
   }
   // Add the domain entities with fixed clustering.
   T_encoding_f item_to_code = std::get<0>(encoding);
@@ -701,8 +725,8 @@ void from_txt(std::mt19937* prng, HIRM* const hirm,
   assert(hirm->irms.empty());
   assert(hirm->relation_to_code.empty());
   assert(hirm->code_to_relation.empty());
-  for (const auto& [r, ds] : schema) {
-    hirm->add_relation(prng, r, ds);
+  for (const std::string& r : base_relations_first(schema)) {
+    hirm->add_relation(prng, r, schema.at(r));
     assert(hirm->irms.size() == hirm->crp.tables.size());
     hirm->set_cluster_assignment_gibbs(prng, r, -1);
   }
-- 
2.43.0


From c8d4f24d294fcec1bf27eaf64605c458bad6251b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:22 +0000
Subject: [PATCH 30/62] fix: CSV rows with empty fields or a wrong number of
 fields

An empty field was read past its beginning, a row with too many fields was
written past the end of the columns, an empty last field of the header or of
the first row was dropped, and the first row was not checked when the column
names are given.
---
 cxx/pclean/csv.cc | 64 +++++++++++++++++++++++++++++------------------
 1 file changed, 39 insertions(+), 25 deletions(-)

diff --git a/cxx/pclean/csv.cc b/cxx/pclean/csv.cc
index e9f527f..cedd949 100644
--- a/cxx/pclean/csv.cc
+++ b/cxx/pclean/csv.cc
@@ -5,6 +5,30 @@
 #include <fstream>
 #include <sstream>
 
+namespace {
+
+// Splits a line into its comma-separated fields, which may be empty, and erases
+// white space from the end of each.
+std::vector<std::string> split_fields(const std::string& line) {
+  std::vector<std::string> fields;
+  std::stringstream ss(line);
+  std::string part;
+  // TODO(thomaswc): Handle quoted fields
+  while (std::getline(ss, part, ',')) {
+    while (!part.empty() && isspace((unsigned char)part.back())) {
+      part.pop_back();
+    }
+    fields.push_back(part);
+  }
+  if (line.back() == ',') {
+    // std::getline is broken and won't let the last field be empty.
+    fields.push_back("");
+  }
+  return fields;
+}
+
+}  // namespace
+
 DataFrame DataFrame::from_csv(
     const std::string& filename, const std::vector<std::string>& column_names) {
   std::ifstream f(filename);
@@ -39,35 +63,25 @@ DataFrame DataFrame::from_csv(
       continue;
     }
 
-    std::stringstream ss(line);
-    std::string part;
-    size_t i = 0;
-    // TODO(thomaswc): Handle quoted fields
-    while (std::getline(ss, part, ',')) {
-      // Erase white space from end of part
-      while (isspace(part.back())) {
-        part.pop_back();
-      }
-      if (first_line && column_names.empty()) {
-        df.columns.push_back(part);
-        df.data[part] = {};
-        continue;
+    std::vector<std::string> fields = split_fields(line);
+    if (first_line && column_names.empty()) {
+      df.columns = fields;
+      for (const auto& c : fields) {
+        df.data[c] = {};
       }
+      first_line = false;
+      continue;
+    }
+    first_line = false;
 
-      df.data[df.columns[i++]].push_back(part);
+    if (fields.size() != df.columns.size()) {
+      printf("Found %ld fields but expected %ld columns in line\n%s\n",
+             fields.size(), df.columns.size(), line.c_str());
+      assert(false);
     }
-    if (!first_line) {
-      if (line.back() == ',') {
-        // std::getline is broken and won't let the last field be empty.
-        df.data[df.columns[i++]].push_back("");
-      }
-      if (i != df.columns.size()) {
-        printf("Only found %ld out of %ld expected columns in line\n%s\n",
-               i, df.columns.size(), line.c_str());
-        assert(false);
-      }
+    for (size_t i = 0; i < fields.size(); ++i) {
+      df.data[df.columns[i]].push_back(fields[i]);
     }
-    first_line = false;
   }
 
   return df;
-- 
2.43.0


From f4b0be121b9dd23c7a43c3512da65f3d6908ca98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:11 +0000
Subject: [PATCH 31/62] fix: malformed lines of entity-model schemas

Parameter lists without parentheses or without their last tokens were read past
their end or silently dropped, and query lines without `as`, or with a path that
ends in a dot, were accepted.
---
 cxx/pclean/io.cc | 60 +++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 49 insertions(+), 11 deletions(-)

diff --git a/cxx/pclean/io.cc b/cxx/pclean/io.cc
index c4e0325..61b1a0e 100644
--- a/cxx/pclean/io.cc
+++ b/cxx/pclean/io.cc
@@ -25,6 +25,14 @@ bool read_schema_file(const std::string& path, PCleanSchema* schema) {
 
 bool resolve_variable_definition(const std::vector<Token> &tokens,
                                  PCleanVariable* pcv) {
+  auto is_symbol = [&](size_t i, const char* s) {
+    return i < tokens.size() && tokens[i].type == TokenType::symbol &&
+           tokens[i].val == s;
+  };
+  if (tokens[2].type != TokenType::identifier) {
+    printf("Error parsing variable %s -- expected a class or distribution name but got %s\n", tokens[0].val.c_str(), tokens[2].val.c_str());
+    return false;
+  }
   if ((tokens.size() == 3) && (std::isupper(tokens[2].val[0]))) {
     // Class variable
     ClassVar cv;
@@ -35,19 +43,28 @@ bool resolve_variable_definition(const std::vector<Token> &tokens,
 
   ScalarVar dv;
   dv.joint_name = tokens[2].val;
-  for (size_t i = 4; i < tokens.size() - 1; i += 4) {
-    if (i + 3 > tokens.size()) {
+  if (tokens.size() > 3 &&
+      (!is_symbol(3, "(") || !is_symbol(tokens.size() - 1, ")"))) {
+    printf("Error parsing scalar variable %s -- expected its parameters between '(' and ')'\n", tokens[0].val.c_str());
+    return false;
+  }
+  // An empty list of parameters is allowed.
+  for (size_t i = 4; tokens.size() > 5 && i < tokens.size(); i += 4) {
+    if (i + 3 >= tokens.size()) {
       printf("Error parsing parameters of scalar variable %s -- too few tokens\n", tokens[0].val.c_str());
       printf("At token %ld of %ld\n", i, tokens.size());
       return false;
     }
-    if (tokens[i+1].val != "=") {
+    if (tokens[i].type != TokenType::identifier) {
+      printf("Error parsing parameters of scalar variable %s -- expected a name but got %s\n", tokens[0].val.c_str(), tokens[i].val.c_str());
+      return false;
+    }
+    if (!is_symbol(i+1, "=")) {
       printf("Error parsing parameters of scalar variable %s -- expected '=' but got %s\n", tokens[0].val.c_str(), tokens[i+1].val.c_str());
       return false;
     }
-    std::string s = tokens[i+3].val;
-    if ((s != ",") && (s != ")")) {
-      printf("Error parsing parameters of scalar variable %s -- expected ',' or '] but got %s'\n", tokens[0].val.c_str(), s.c_str());
+    if (!is_symbol(i+3, (i + 4 == tokens.size()) ? ")" : ",")) {
+      printf("Error parsing parameters of scalar variable %s -- expected ',' or ') but got %s'\n", tokens[0].val.c_str(), tokens[i+3].val.c_str());
       return false;
     }
     dv.params[tokens[i].val] = tokens[i+2].val;
@@ -84,7 +101,12 @@ bool read_class(std::istream& is, PCleanClass* pclass) {
       return false;
     }
 
-    if (tokens[1].val != "~") {
+    if (tokens[0].type != TokenType::identifier) {
+      printf("Error parsing class variable line %s:  expected first token to be a name.\n", line.c_str());
+      return false;
+    }
+
+    if (tokens[1].type != TokenType::symbol || tokens[1].val != "~") {
       printf("Error parsing class variable line %s:  expected second token to be '~'.\n", line.c_str());
       return false;
     }
@@ -128,8 +150,8 @@ bool read_query(std::istream& is, PCleanQuery* query) {
       continue;
     }
 
-    if (tokens[0].val == "from") {
-      if (tokens.size() != 2) {
+    if (tokens[0].type == TokenType::identifier && tokens[0].val == "from") {
+      if (tokens.size() != 2 || tokens[1].type != TokenType::identifier) {
         printf("Expected exactly two tokens on query from line %s", line.c_str());
         return false;
       }
@@ -146,13 +168,29 @@ bool read_query(std::istream& is, PCleanQuery* query) {
       return false;
     }
 
+    // The tokens are a path of names separated by dots, "as" and the name of
+    // the field.
+    const Token& as = tokens[tokens.size() - 2];
+    bool has_name = (tokens.back().type == TokenType::identifier ||
+                     tokens.back().type == TokenType::string) &&
+                    !tokens.back().val.empty();
+    if (tokens.size() % 2 == 0 || !has_name ||
+        as.type != TokenType::identifier || as.val != "as") {
+      printf("Expected a path, `as` and a name on query line %s\n", line.c_str());
+      return false;
+    }
+
     QueryField qf;
     qf.name = tokens.back().val;
     for (size_t i = 0; i < tokens.size() - 2; ++i) {
       if (i % 2 == 0) {
+        if (tokens[i].type != TokenType::identifier) {
+          printf("Expected a name at token %ld on query line %s\n", i, line.c_str());
+          return false;
+        }
         qf.class_path.push_back(tokens[i].val);
       } else {
-        if (tokens[i].val != ".") {
+        if (tokens[i].type != TokenType::symbol || tokens[i].val != ".") {
           printf("Expected . at token %ld on query line %s\n", i, line.c_str());
           return false;
         }
@@ -191,7 +229,7 @@ bool read_schema(std::istream& is, PCleanSchema* schema) {
         return false;
       }
       PCleanClass pcc;
-      if (tokens[0].type != TokenType::identifier) {
+      if (tokens[1].type != TokenType::identifier) {
         printf("Error parsing line %s:  second token of a class line must be an identifier\n",
                line.c_str());
         return false;
-- 
2.43.0


From 5f05334949cd977f0107e91d04d16d0146fd1217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:58 +0000
Subject: [PATCH 32/62] fix: queried attributes of a clean record class have
 reference indices

Their relation has the domains of all classes the record refers to but no
reference indices, so the entities of a row were not looked up and resampling a
reference of the record class failed (map::at).
---
 cxx/gendb.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cxx/gendb.cc b/cxx/gendb.cc
index 8bfc2e0..9a53dd1 100644
--- a/cxx/gendb.cc
+++ b/cxx/gendb.cc
@@ -1000,6 +1000,11 @@ void GenDB::make_relations_for_queryfield(const QueryField& f,
       cr.is_observed = true;
       (*tschema)[f.name] = cr;
       tschema->erase(base_relation_name);
+      // The renamed relation keeps its reference indices.
+      if (class_reference_indices.contains(record_class.name)) {
+        relation_reference_indices[f.name] =
+            class_reference_indices.at(record_class.name);
+      }
     } else {
       T_noisy_relation tnr =
           get_emission_relation(std::get<ScalarVar>(last_var.spec),
-- 
2.43.0


From 75941f45b2d5cecd8d6d97af4716279c696d4737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:05 +0000
Subject: [PATCH 33/62] fix: reference indices of a class two references away

The reference fields of one ancestor class were also listed for the ancestors
after it, which do not have them.
---
 cxx/gendb.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cxx/gendb.cc b/cxx/gendb.cc
index 9a53dd1..840dc7c 100644
--- a/cxx/gendb.cc
+++ b/cxx/gendb.cc
@@ -945,11 +945,10 @@ void GenDB::compute_reference_indices_for(const std::string& name) {
       const int offset = total_offset;
       total_offset += domains.at(cv->class_name).size();
       class_ref_indices[v.first] = total_offset - 1;
-      std::map<std::string, int> child_class_indices;
       if (class_reference_indices.contains(cv->class_name)) {
         for (const auto& [ind, ref] :
              class_reference_indices.at(cv->class_name)) {
-          std::map<std::string, int> class_ref_indices;
+          std::map<std::string, int> child_class_indices;
           for (const auto& [field_name, ref_ind] : ref) {
             child_class_indices[field_name] = ref_ind + offset;
           }
-- 
2.43.0


From d86fb13314cc5d046012994ca75779bc0f452d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:20 +0000
Subject: [PATCH 34/62] fix: reference indices of queried paths with
 only_final_emissions

The indices of the base relation replaced those of the path from the record
class, so the entities of a row were not looked up.
---
 cxx/gendb.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cxx/gendb.cc b/cxx/gendb.cc
index 840dc7c..73eb72e 100644
--- a/cxx/gendb.cc
+++ b/cxx/gendb.cc
@@ -1023,6 +1023,12 @@ void GenDB::make_relations_for_queryfield(const QueryField& f,
   // Handle only_final_emissions == true.
   if (only_final_emissions) {
     std::vector<std::string> noisy_domains = domains[class_names.back()];
+    // The base relation only has reference indices if its class has reference
+    // fields.
+    if (relation_reference_indices.contains(base_relation_name)) {
+      relation_reference_indices[f.name] =
+          relation_reference_indices.at(base_relation_name);
+    }
     for (int i = class_names.size() - 2; i >= 0; --i) {
       noisy_domains.push_back(class_names[i]);
       relation_reference_indices[f.name][noisy_domains.size() - 1]
@@ -1032,12 +1038,6 @@ void GenDB::make_relations_for_queryfield(const QueryField& f,
         std::get<ScalarVar>(last_var.spec), noisy_domains, base_relation_name);
     tnr.is_observed = true;
     (*tschema)[f.name] = tnr;
-    // If the record class is the only class in the schema, there will be
-    // no entries in `relation_reference_indices`.
-    if (relation_reference_indices.contains(base_relation_name)) {
-      relation_reference_indices[f.name] =
-          relation_reference_indices.at(base_relation_name);
-    }
     return;
   }
 
-- 
2.43.0


From c969ecb1eab4b235046b766eef83234820bbb304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:19 +0000
Subject: [PATCH 35/62] fix: incorporating attributes of a record class that is
 not clean

The base of such an attribute belongs to the record class itself, so sampling
the values of that class sampled its query relations, whose base belongs to the
record class, and so on until the stack overflowed.
---
 cxx/gendb.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cxx/gendb.cc b/cxx/gendb.cc
index 73eb72e..6b38be2 100644
--- a/cxx/gendb.cc
+++ b/cxx/gendb.cc
@@ -202,6 +202,10 @@ void GenDB::sample_and_incorporate_for_class(std::mt19937* prng,
                                              const std::string& class_name,
                                              const T_item& item) {
   for (const std::string& rel_name : class_to_relations.at(class_name)) {
+    // The values of query relations are observed, not sampled.
+    if (schema.query.fields.contains(rel_name)) {
+      continue;
+    }
     sample_class_ancestors(prng, class_name, item);
     const std::vector<std::string>& domains = std::visit(
         [&](auto tr) { return tr.domains; }, hirm->schema.at(rel_name));
-- 
2.43.0


From e4afa841a9b38e818c5af9255a6b5c7de96c3773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:19 +0000
Subject: [PATCH 36/62] fix: new_rows_have_unique_entities for references that
 are not queried

With the option, the references on the path of a value got new entities, but the
other references of the entities on that path were sampled from their CRP, so
rows shared entities (and a row could use one entity in two places).
---
 cxx/gendb.cc | 23 +++++++++++++++++++++++
 cxx/gendb.hh |  5 +++++
 2 files changed, 28 insertions(+)

diff --git a/cxx/gendb.cc b/cxx/gendb.cc
index 6b38be2..9d0f921 100644
--- a/cxx/gendb.cc
+++ b/cxx/gendb.cc
@@ -68,6 +68,11 @@ void GenDB::incorporate(
           [&](auto tr) { return tr.domains; }, hirm->schema.at(query_rel));
       items.resize(domains.size());
       get_unique_entities_relation(query_rel, items.size() - 1, id, items);
+      // All other references of the entities on the path are populated as well
+      // when the value is incorporated.
+      for (size_t i = 0; i + 1 < items.size(); ++i) {
+        get_unique_class_ancestors(domains[i], items[i]);
+      }
     } else {
       items =
           sample_entities_relation(prng, schema.query.record_class,
@@ -105,6 +110,24 @@ void GenDB::get_unique_entities_relation(const std::string& rel_name,
   }
 }
 
+void GenDB::get_unique_class_ancestors(const std::string& class_name,
+                                       const int class_item) {
+  for (const auto& [name, var] : schema.classes.at(class_name).vars) {
+    if (const ClassVar* cv = std::get_if<ClassVar>(&(var.spec))) {
+      std::pair<std::string, int> ref_key = {name, class_item};
+      if (!reference_values.at(class_name).contains(ref_key)) {
+        CRP& crp = entity_crps.at(cv->class_name);
+        int new_val = crp.max_table() + 1;
+        reference_values.at(class_name)[ref_key] = new_val;
+        crp.incorporate(get_reference_id(class_name, name, class_item),
+                        new_val);
+      }
+      get_unique_class_ancestors(cv->class_name,
+                                 reference_values.at(class_name).at(ref_key));
+    }
+  }
+}
+
 // This function walks the class_path of the query, populates the global
 // reference_values table if necessary, and returns a sampled set of items
 // for the query relation that corresponds to the class path. class_path_start
diff --git a/cxx/gendb.hh b/cxx/gendb.hh
index 9485974..9c6eeb1 100644
--- a/cxx/gendb.hh
+++ b/cxx/gendb.hh
@@ -48,6 +48,11 @@ class GenDB {
   void get_unique_entities_relation(const std::string& rel_name, const int ind,
                                     const int class_item, T_items& items);
 
+  // Populates the unset reference fields of class_item and its ancestors with
+  // new entities.
+  void get_unique_class_ancestors(const std::string& class_name,
+                                  const int class_item);
+
   // Samples a set of entities in the domains of the relation corresponding to
   // class_path.
   T_items sample_entities_relation(
-- 
2.43.0


From 5a2a238586c5616fb4dc8165bd74f8d4f5c50666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:20 +0000
Subject: [PATCH 37/62] fix: identifiers of references do not collide

---
 cxx/gendb.cc | 9 ++++-----
 cxx/gendb.hh | 5 +++++
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/cxx/gendb.cc b/cxx/gendb.cc
index 9d0f921..2190cab 100644
--- a/cxx/gendb.cc
+++ b/cxx/gendb.cc
@@ -167,15 +167,14 @@ T_items GenDB::sample_entities_relation(
   return items;
 }
 
-// Makes a unique hash for a reference (to be incorporated as an item into the
+// Returns a unique ID for a reference (to be incorporated as an item into the
 // entity crp), based on the reference's class, field, and row id.
 int GenDB::get_reference_id(const std::string& class_name,
                             const std::string& ref_field,
                             const int class_item) {
-  std::stringstream new_id_str;
-  std::string sep = " ";  // Spaces are disallowed in class/variable names.
-  new_id_str << class_name << sep << class_item << sep << ref_field;
-  return std::hash<std::string>{}(new_id_str.str());
+  int new_id = reference_ids.size();
+  return reference_ids.try_emplace({class_name, ref_field, class_item}, new_id)
+      .first->second;
 }
 
 // Takes a sample from ref_class's entity CRP, incorporates it into the CRP,
diff --git a/cxx/gendb.hh b/cxx/gendb.hh
index 9c6eeb1..07b0ef2 100644
--- a/cxx/gendb.hh
+++ b/cxx/gendb.hh
@@ -5,6 +5,7 @@
 #include <map>
 #include <random>
 #include <string>
+#include <tuple>
 
 #include "distributions/crp.hh"
 #include "hirm.hh"
@@ -241,6 +242,10 @@ class GenDB {
   std::map<std::string, std::map<std::pair<std::string, int>, int>>
       reference_values;
 
+  // Maps a reference (class name, reference field name, class primary key) to
+  // its unique identifier (a "customer" of entity_crps).
+  std::map<std::tuple<std::string, std::string, int>, int> reference_ids;
+
   HIRM* hirm;  // Owned by the GenDB instance.
 
   // Map keys are class names. Values are CRPs for latent entities, where the
-- 
2.43.0


From 84e22f7eca642a9c1695998bf78ffe2c0d5723b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 38/62] fix: re-linking unincorporates every fact that depends
 on the reference, noisy values before their bases

---
 cxx/gendb.cc | 52 +++++++++++++++++++++++++++++-----------------------
 cxx/gendb.hh |  4 ++--
 2 files changed, 31 insertions(+), 25 deletions(-)

diff --git a/cxx/gendb.cc b/cxx/gendb.cc
index 2190cab..9544e69 100644
--- a/cxx/gendb.cc
+++ b/cxx/gendb.cc
@@ -315,16 +315,20 @@ void GenDB::get_relation_items(const std::string& rel_name, const int ind,
 std::map<std::string, std::vector<size_t>> GenDB::get_domain_inds(
     const std::string& class_name, const std::string& ref_field) {
   std::map<std::string, std::vector<size_t>> domain_inds;
-  for (const auto& [rel_name, query_field] : schema.query.fields) {
+  for (const auto& [rel_name, trel] : hirm->schema) {
+    if (!relation_reference_indices.contains(rel_name)) {
+      continue;
+    }
+    const auto& ref_indices = relation_reference_indices.at(rel_name);
     // Find relations that involve both the class and its reference field
     // (exclude relations that include the class only because it's a node in
     // a noisy observation path of something otherwise unrelated to the
     // observed attribute.)
-    std::vector<std::string> domains = std::visit(
-        [&](auto& trel) { return trel.domains; }, hirm->schema.at(rel_name));
+    const std::vector<std::string>& domains =
+        std::visit([&](auto tr) { return tr.domains; }, trel);
     for (size_t i = 0; i < domains.size(); ++i) {
-      if (domains[i] == class_name &&
-          relation_reference_indices.at(rel_name).at(i).contains(ref_field)) {
+      if (domains[i] == class_name && ref_indices.contains(i) &&
+          ref_indices.at(i).contains(ref_field)) {
         domain_inds[rel_name].push_back(i);
       }
     }
@@ -364,7 +368,7 @@ double GenDB::unincorporate_reference(
           if (item[ind] == class_item) {
             auto f = [&](auto rel) {
               logp_relations += unincorporate_reference_relation(
-                  rel, rel_name, item, ind, stored_value_map);
+                  rel, rel_name, item, stored_value_map);
             };
             std::visit(f, r);
           }
@@ -388,40 +392,42 @@ double GenDB::unincorporate_reference(
   return logp_relations + logp_domain_cluster;
 }
 
-// Recursively unincorporates from base relations and stores values.
+// Recursively unincorporates from noisy relations (whose scores depend on the
+// value to be unincorporated) and stores values.
 template <typename T>
 double GenDB::unincorporate_reference_relation(
     Relation<T>* rel, const std::string& rel_name, const T_items& items,
-    const size_t ind,
     std::map<std::string,
              std::unordered_map<T_items, ObservationVariant, H_items>>&
         stored_value_map) {
-  // We can stop unincorporating from base relations if the index of
-  // the domain of interest is greater than or equal to the number of domains.
-  if (!rel->get_data().contains(items) || ind >= items.size()) {
+  if (!rel->get_data().contains(items)) {
     return 0.;
   }
 
+  double logp_rel = 0.;
+  if (hirm->base_to_noisy_relations.contains(rel_name)) {
+    for (const std::string& name : hirm->base_to_noisy_relations.at(rel_name)) {
+      auto noisy_rel = reinterpret_cast<NoisyRelation<T>*>(
+          std::get<Relation<T>*>(hirm->get_relation(name)));
+      if (noisy_rel->base_to_noisy_items.contains(items)) {
+        const auto noisy_items_set = noisy_rel->base_to_noisy_items.at(items);
+        for (const T_items& noisy_items : noisy_items_set) {
+          logp_rel += unincorporate_reference_relation<T>(
+              noisy_rel, name, noisy_items, stored_value_map);
+        }
+      }
+    }
+  }
+
   // Store the items/value and unincorporate them.
   T value = rel->get_value(items);
   stored_value_map[rel_name][items] = value;
 
   rel->unincorporate_from_cluster(items);
   std::mt19937* prng = nullptr;  // unused
-  double logp_rel = rel->cluster_or_prior_logp_from_items(prng, items, value);
+  logp_rel += rel->cluster_or_prior_logp_from_items(prng, items, value);
   // Clean up data but leave empty clusters in case they are re-populated later.
   rel->cleanup_data(items);
-
-  // Recursively unincorporate from base relations.
-  if (const T_noisy_relation* t_rel =
-          std::get_if<T_noisy_relation>(&hirm->schema.at(rel_name))) {
-    auto noisy_rel = reinterpret_cast<NoisyRelation<T>*>(rel);
-    T_items base_items = noisy_rel->get_base_items(items);
-    RelationVariant base_rel = hirm->get_relation(t_rel->base_relation);
-    Relation<T>* base_rel_t = std::get<Relation<T>*>(base_rel);
-    logp_rel += unincorporate_reference_relation(
-        base_rel_t, t_rel->base_relation, base_items, ind, stored_value_map);
-  }
   return logp_rel;
 }
 
diff --git a/cxx/gendb.hh b/cxx/gendb.hh
index 07b0ef2..c4f69e3 100644
--- a/cxx/gendb.hh
+++ b/cxx/gendb.hh
@@ -94,11 +94,11 @@ class GenDB {
       std::map<std::tuple<int, std::string, T_item>, int>&
           unincorporated_from_domains);
 
-  // Unincorporates and stores items/values from a relation.
+  // Unincorporates and stores items/values from a relation and, recursively,
+  // from its noisy relations. Returns the logp of the unincorporated values.
   template <typename T>
   double unincorporate_reference_relation(
       Relation<T>* rel, const std::string& rel_name, const T_items& items,
-      const size_t ind,
       std::map<std::string,
                std::unordered_map<T_items, ObservationVariant, H_items>>&
           stored_value_map);
-- 
2.43.0


From 06a059b60bf6a48696c071bc42276395b945ca9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 39/62] fix: entities that nothing refers to any more are
 removed with their references, values and domain seats

---
 cxx/gendb.cc | 136 +++++++++++++++++++++++----------------------------
 cxx/gendb.hh |   9 ----
 2 files changed, 60 insertions(+), 85 deletions(-)

diff --git a/cxx/gendb.cc b/cxx/gendb.cc
index 9544e69..f45f94f 100644
--- a/cxx/gendb.cc
+++ b/cxx/gendb.cc
@@ -5,6 +5,7 @@
 
 #include <map>
 #include <random>
+#include <set>
 #include <string>
 #include <variant>
 
@@ -521,27 +522,26 @@ double GenDB::unincorporate_from_domain_cluster_relation(
   const std::string& ref_class = domains.at(ind);
   Domain* domain = irm->domains.at(ref_class);
 
-  // Return if:
+  // Do not unincorporate the entity if:
   //   - we have already unincorporated this entity from the IRM domain cluster
   //   - we shouldn't unincorporate it because it still exists in the data.
   //   - we can't because it wasn't ever in the data and is therefore not in the
   //   cluster.
-  if (unincorporated.contains({irm_code, ref_class, item}) ||
-      irm->has_observation(ref_class, item) || !domain->items.contains(item)) {
-    return logp_adj;
-  }
-
-  CRP& crp = domain->crp;
-  int cluster_id = crp.assignments.at(item);
-  domain->unincorporate(item);
-  if (crp.tables.contains(cluster_id)) {
-    logp_adj += crp.logp(cluster_id);
-  } else {
-    logp_adj += crp.logp_new_table();
+  if (!unincorporated.contains({irm_code, ref_class, item}) &&
+      !irm->has_observation(ref_class, item) && domain->items.contains(item)) {
+    CRP& crp = domain->crp;
+    int cluster_id = crp.assignments.at(item);
+    domain->unincorporate(item);
+    if (crp.tables.contains(cluster_id)) {
+      logp_adj += crp.logp(cluster_id);
+    } else {
+      logp_adj += crp.logp_new_table();
+    }
+    unincorporated[{irm_code, ref_class, item}] = cluster_id;
   }
-  unincorporated[{irm_code, ref_class, item}] = cluster_id;
 
-  // Recursively check and unincorporate the entity's ancestors.
+  // Recursively check and unincorporate the entity's ancestors (the entity may
+  // still exist in data that do not involve the ancestors).
   if (relation_reference_indices.contains(r) &&
       relation_reference_indices.at(r).contains(ind)) {
     for (auto [name, r_ind] : relation_reference_indices.at(r).at(ind)) {
@@ -586,9 +586,14 @@ double GenDB::unincorporate_from_entity_cluster(
     if (is_ancestor_reference) {
       logp_adj += crp.logp(ref_item);
     }
+  } else {
+    if (is_ancestor_reference) {
+      logp_adj += crp.logp_new_table();
+    }
 
     for (const auto& [name, var] : schema.classes.at(ref_class).vars) {
-      if (std::holds_alternative<ClassVar>(var.spec)) {
+      if (std::holds_alternative<ClassVar>(var.spec) &&
+          reference_values.at(ref_class).contains({name, ref_item})) {
         // If this reference value was the only one in its entity_crp table,
         // then the entity is removed from its class and we need to
         // recursively unincorporate *its* reference values.
@@ -596,54 +601,10 @@ double GenDB::unincorporate_from_entity_cluster(
                                                       unincorporated);
       }
     }
-  } else {
-    if (is_ancestor_reference) {
-      logp_adj += crp.logp_new_table();
-    }
   }
   return logp_adj;
 }
 
-// Recursively unincorporates from base relations and stores values.
-template <typename T>
-double GenDB::unincorporate_reference_relation_singleton(
-    Relation<T>* rel, const std::string& rel_name, const T_items& items,
-    std::map<std::string,
-             std::unordered_map<T_items, ObservationVariant, H_items>>&
-        stored_value_map) {
-  // We can stop unincorporating from base relations if the index of
-  // the domain of interest is greater than the number of domains.
-  const std::vector<std::string>& domains = std::visit(
-      [&](auto tr) { return tr.domains; }, hirm->schema.at(rel_name));
-  if (!rel->get_data().contains(items) ||
-      entity_crps.at(domains.back()).tables.contains(items.back())) {
-    return 0.;
-  }
-
-  // Store the items/value and unincorporate them.
-  T value = rel->get_value(items);
-  stored_value_map[rel_name][items] = value;
-
-  rel->unincorporate_from_cluster(items);
-  // Unused prng, since the cluster should exist.
-  std::mt19937* prng = nullptr;
-  double logp_rel = rel->cluster_or_prior_logp_from_items(prng, items, value);
-  // Clean up data but leave empty clusters in case they are re-populated later.
-  rel->cleanup_data(items);
-
-  // Recursively unincorporate from base relations.
-  if (const T_noisy_relation* t_rel =
-          std::get_if<T_noisy_relation>(&hirm->schema.at(rel_name))) {
-    auto noisy_rel = reinterpret_cast<NoisyRelation<T>*>(rel);
-    T_items base_items = noisy_rel->get_base_items(items);
-    RelationVariant base_rel = hirm->get_relation(t_rel->base_relation);
-    Relation<T>* base_rel_t = std::get<Relation<T>*>(base_rel);
-    logp_rel += unincorporate_reference_relation_singleton(
-        base_rel_t, t_rel->base_relation, base_items, stored_value_map);
-  }
-  return logp_rel;
-}
-
 // When unincorporating the only reference to a given entity, we additionally
 // need to unincorporate data from relations corresponding to attributes of the
 // entity's class (or noisy observations of ancestor attributes by the entity's
@@ -665,26 +626,49 @@ double GenDB::unincorporate_singleton(
       unincorporate_from_entity_cluster(class_name, ref_field, class_item,
                                         unincorporated_from_entity_crps, false);
 
-  for (auto& rel : class_to_relations.at(ref_class)) {
-    const std::vector<std::string>& domains =
-        std::visit([&](auto tr) { return tr.domains; }, hirm->schema.at(rel));
-    T_items base_items(domains.size());
-    get_relation_items(rel, base_items.size() - 1, ref_val, base_items);
-    logp_refclass += std::visit(
-        [&](auto r) {
-          return unincorporate_reference_relation_singleton(r, rel, base_items,
-                                                            stored_value_map);
-        },
-        hirm->get_relation(rel));
+  // Find the entities that are no longer referred to (the reference value and,
+  // recursively, its ancestors).
+  std::set<std::pair<std::string, int>> removed_entities;
+  if (!entity_crps.at(ref_class).tables.contains(ref_val)) {
+    removed_entities.insert({ref_class, ref_val});
+  }
+  for (const auto& [ref, ancestor] : unincorporated_from_entity_crps) {
+    const auto& [c, field, item] = ref;
+    const std::string& ancestor_class =
+        std::get<ClassVar>(schema.classes.at(c).vars.at(field).spec).class_name;
+    if (!entity_crps.at(ancestor_class).tables.contains(ancestor)) {
+      removed_entities.insert({ancestor_class, ancestor});
+    }
+  }
+
+  std::vector<std::pair<std::string, int>> removed_from_relations;
+  for (const auto& [c, entity] : removed_entities) {
+    for (const std::string& rel : class_to_relations[c]) {
+      logp_refclass += std::visit(
+          [&](auto r) {
+            using T = typename std::remove_pointer_t<decltype(r)>::ValueType;
+            double logp_rel = 0.;
+            const auto& data_r = r->get_data_r().at(c);
+            if (data_r.contains(entity)) {
+              const auto items_set = data_r.at(entity);
+              for (const T_items& items : items_set) {
+                if (items.back() == entity) {
+                  logp_rel += unincorporate_reference_relation<T>(
+                      r, rel, items, stored_value_map);
+                }
+              }
+            }
+            return logp_rel;
+          },
+          hirm->get_relation(rel));
+      removed_from_relations.push_back({rel, entity});
+    }
   }
-  for (auto& rel : class_to_relations.at(ref_class)) {
+  for (const auto& [rel, entity] : removed_from_relations) {
     const std::vector<std::string>& domains =
         std::visit([&](auto tr) { return tr.domains; }, hirm->schema.at(rel));
-    T_items base_items(domains.size());
-    get_relation_items(rel, base_items.size() - 1, ref_val, base_items);
     logp_refclass += unincorporate_from_domain_cluster_relation(
-        rel, base_items.back(), base_items.size() - 1,
-        unincorporated_from_domains);
+        rel, entity, domains.size() - 1, unincorporated_from_domains);
   }
   return logp_refclass;
 }
diff --git a/cxx/gendb.hh b/cxx/gendb.hh
index c4f69e3..9f1f7db 100644
--- a/cxx/gendb.hh
+++ b/cxx/gendb.hh
@@ -103,15 +103,6 @@ class GenDB {
                std::unordered_map<T_items, ObservationVariant, H_items>>&
           stored_value_map);
 
-  // Recursively unincorporates from base relations and stores values. Returns
-  // the logp of the unincorporated values.
-  template <typename T>
-  double unincorporate_reference_relation_singleton(
-      Relation<T>* rel, const std::string& rel_name, const T_items& items,
-      std::map<std::string,
-               std::unordered_map<T_items, ObservationVariant, H_items>>&
-          stored_value_map);
-
   // Returns a copy of stored_values, with the items updated to associate
   // class_name.ref_field at index class_item with new_ref_val. This update is
   // recursive, such that the reference fields of the class corresponding to
-- 
2.43.0


From b14512ac117ba14aaa66cd486a78f1d27663a5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:33 +0000
Subject: [PATCH 40/62] fix: candidates for re-linking need references and base
 values

---
 cxx/gendb.cc | 42 +++++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/cxx/gendb.cc b/cxx/gendb.cc
index f45f94f..eae3c42 100644
--- a/cxx/gendb.cc
+++ b/cxx/gendb.cc
@@ -224,7 +224,7 @@ void GenDB::incorporate_query_relation(std::mt19937* prng,
 void GenDB::sample_and_incorporate_for_class(std::mt19937* prng,
                                              const std::string& class_name,
                                              const T_item& item) {
-  for (const std::string& rel_name : class_to_relations.at(class_name)) {
+  for (const std::string& rel_name : class_to_relations[class_name]) {
     // The values of query relations are observed, not sampled.
     if (schema.query.fields.contains(rel_name)) {
       continue;
@@ -500,6 +500,19 @@ void GenDB::incorporate_reference_relation(
     // A base relation may have already been reincorporated by a different noisy
     // relation.
     if (!rel->get_data().contains(items)) {
+      if (const T_noisy_relation* trel =
+              std::get_if<T_noisy_relation>(&hirm->schema.at(rel_name))) {
+        NoisyRelation<T>* noisy_rel = reinterpret_cast<NoisyRelation<T>*>(rel);
+        T_items base_items = noisy_rel->get_base_items(items);
+        // The entity that is now referred to may not have values yet.
+        if (!noisy_rel->base_relation->get_data().contains(base_items)) {
+          const std::vector<std::string>& base_domains =
+              std::visit([&](auto tr) { return tr.domains; },
+                         hirm->schema.at(trel->base_relation));
+          sample_and_incorporate_for_class(prng, base_domains.back(),
+                                           base_items.back());
+        }
+      }
       rel->incorporate(prng, items, std::get<T>(value));
     }
   }
@@ -689,6 +702,13 @@ void GenDB::transition_reference(std::mt19937* prng,
     return;
   }
 
+  // All candidates' own references are needed to link data to them.
+  for (const auto& [table, n_customers] : crp_dist) {
+    if (entity_crps.at(ref_class).tables.contains(table)) {
+      sample_class_ancestors(prng, ref_class, table);
+    }
+  }
+
   // For each relation, get the indices (in the items vector) of the reference
   // value being transitioned.
   std::map<std::string, std::vector<size_t>> domain_inds =
@@ -759,26 +779,14 @@ void GenDB::transition_reference(std::mt19937* prng,
     // Handle the singleton entity, if it was not init_refval (i.e. it is
     // previously unseen).
     if (table == singleton_entity) {
-      // Sample and incorporate a new row into the ref_class table. Update
-      // reference_values and entity_crps.
-      T_items unused_base_items =
-          sample_class_ancestors(prng, ref_class, table);
+      // Sample and incorporate a new row into the ref_class table (and the
+      // tables of its ancestors). Update reference_values and entity_crps.
+      sample_class_ancestors(prng, ref_class, table);
 
       // Sample and incorporate values into the relations corresponding to
       // the reference class. This may also incorporate new values into the IRM
       // domain clusters.
-      for (auto& rel : class_to_relations.at(ref_class)) {
-        const std::vector<std::string>& domains = std::visit(
-            [&](auto tr) { return tr.domains; }, hirm->schema.at(rel));
-        T_items base_items(domains.size());
-        get_relation_items(rel, base_items.size() - 1, table, base_items);
-        bool c = std::visit(
-            [&](auto r) { return r->get_data().contains(base_items); },
-            hirm->get_relation(rel));
-        if (!c) {
-          hirm->sample_and_incorporate_relation(prng, rel, base_items);
-        }
-      }
+      sample_and_incorporate_for_class(prng, ref_class, table);
     }
 
     // Get items and values with new entity linkages.
-- 
2.43.0


From 82e6fb0d0c0242869c8523ed9597f031fd4f933e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:18 +0000
Subject: [PATCH 41/62] fix: re-linking keeps entities that the data contain by
 way of other references seated

---
 cxx/gendb.cc | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/cxx/gendb.cc b/cxx/gendb.cc
index eae3c42..c36069a 100644
--- a/cxx/gendb.cc
+++ b/cxx/gendb.cc
@@ -3,6 +3,7 @@
 
 #include "gendb.hh"
 
+#include <algorithm>
 #include <map>
 #include <random>
 #include <set>
@@ -378,6 +379,41 @@ double GenDB::unincorporate_reference(
     }
   }
 
+  // Entities that the unincorporated items do not contain by way of this
+  // reference are part of the data whatever its value, so they remain in their
+  // IRM domain clusters.
+  for (const auto& [rel_name, data] : stored_value_map) {
+    int irm_code = hirm->relation_to_table(rel_name);
+    const std::vector<std::string>& domains = std::visit(
+        [&](auto tr) { return tr.domains; }, hirm->schema.at(rel_name));
+    for (const auto& [items, val] : data) {
+      T_items linked_inds;
+      for (const size_t ind : domain_inds.at(rel_name)) {
+        if (items[ind] == class_item) {
+          linked_inds.push_back(
+              relation_reference_indices.at(rel_name).at(ind).at(ref_field));
+        }
+      }
+      for (size_t i = 0; i < linked_inds.size(); ++i) {
+        const auto& ref_indices = relation_reference_indices.at(rel_name);
+        if (ref_indices.contains(linked_inds[i])) {
+          for (const auto& [name, r_ind] : ref_indices.at(linked_inds[i])) {
+            linked_inds.push_back(r_ind);
+          }
+        }
+      }
+      for (size_t i = 0; i < items.size(); ++i) {
+        CRP& crp = hirm->irms.at(irm_code)->domains.at(domains[i])->crp;
+        if (std::find(linked_inds.begin(), linked_inds.end(), i) ==
+                linked_inds.end() &&
+            crp.assignments.contains(items[i])) {
+          unincorporated_from_domains.insert(
+              {{irm_code, domains[i], items[i]}, crp.assignments.at(items[i])});
+        }
+      }
+    }
+  }
+
   // Check if any entities need to be removed from IRM domain clusters (after
   // they've been unincorporated from relations) and compute the change in logp.
   double logp_domain_cluster = 0.;
-- 
2.43.0


From cb858cb0b189aea02ee5f004f2218ed3f072586c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:04 +0000
Subject: [PATCH 42/62] fix: removing a pair from the bigram string emission
 takes away no more than is there

---
 cxx/emissions/bigram_string.cc | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/cxx/emissions/bigram_string.cc b/cxx/emissions/bigram_string.cc
index a955720..a9881c1 100644
--- a/cxx/emissions/bigram_string.cc
+++ b/cxx/emissions/bigram_string.cc
@@ -116,6 +116,14 @@ double BigramStringEmission::log_prob_distance(const StrAlignment& alignment, do
   return old_cost - log_prob;
 }
 
+// Adds a weight to a category.  When an observation is removed, its alignments'
+// probabilities may differ from those it was added with, so no more is removed
+// than what is there.
+static void add_weight(DirichletCategorical& dist, size_t category,
+                       double weight) {
+  dist.incorporate(category, std::max(weight, -dist.counts[category]));
+}
+
 void BigramStringEmission::incorporate(
     const std::pair<std::string, std::string>& x, double weight) {
   N += weight;
@@ -150,15 +158,15 @@ void BigramStringEmission::incorporate(
           // which is actually no insertion, then a deletion.
           {
             char deleted_char = std::get<Deletion>(*it).deleted_char;
-            insertions[icontext].incorporate(0, w);
-            substitutions[get_index(deleted_char)].incorporate(0, w);
+            add_weight(insertions[icontext], 0, w);
+            add_weight(substitutions[get_index(deleted_char)], 0, w);
             insertion_context = std::string() + deleted_char;
           }
           break;
         case 1:  // Insertion
           {
             char inserted_char = std::get<Insertion>(*it).inserted_char;
-            insertions[icontext].incorporate(get_index(inserted_char), w);
+            add_weight(insertions[icontext], get_index(inserted_char), w);
           }
           break;
         case 2:  // Substitution
@@ -166,8 +174,8 @@ void BigramStringEmission::incorporate(
           {
             char original_char = std::get<Substitution>(*it).original;
             char replacement_char = std::get<Substitution>(*it).replacement;
-            insertions[icontext].incorporate(0, w);
-            substitutions[get_index(original_char)].incorporate(get_index(replacement_char), w);
+            add_weight(insertions[icontext], 0, w);
+            add_weight(substitutions[get_index(original_char)], get_index(replacement_char), w);
             insertion_context = std::string() + original_char;
           }
           break;
@@ -175,8 +183,8 @@ void BigramStringEmission::incorporate(
           // which is actually no insertion, then a match.
           {
             char c = std::get<Match>(*it).c;
-            insertions[icontext].incorporate(0, w);
-            substitutions[get_index(c)].incorporate(get_index(c), w);
+            add_weight(insertions[icontext], 0, w);
+            add_weight(substitutions[get_index(c)], get_index(c), w);
             insertion_context = std::string() + c;
           }
           break;
-- 
2.43.0


From ee4f3f9d94ff153b6f067a59d0508a6b63e92f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:49 +0000
Subject: [PATCH 43/62] fix: entities of the record class have names in the
 cluster file of pclean

---
 cxx/pclean/pclean_lib.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cxx/pclean/pclean_lib.cc b/cxx/pclean/pclean_lib.cc
index 25dcbbe..c2c1434 100644
--- a/cxx/pclean/pclean_lib.cc
+++ b/cxx/pclean/pclean_lib.cc
@@ -95,6 +95,15 @@ T_encoding make_dummy_encoding_from_gendb(const GenDB& gendb) {
       code_to_item[domain][i] = domain + ":" + std::to_string(i);
     }
   }
+  // Entities of the record class are not referred to, so they have no entity
+  // crp: name the ones the relations contain.
+  for (const auto& [table, irm] : gendb.hirm->irms) {
+    for (const auto& [name, domain] : irm->domains) {
+      for (const T_item& item : domain->items) {
+        code_to_item[name][item] = name + ":" + std::to_string(item);
+      }
+    }
+  }
 
   return std::make_pair(item_to_code, code_to_item);
 }
-- 
2.43.0


From 10536e7bb91b1b5757e61b1d1a29b9f12f1f6556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:05 +0000
Subject: [PATCH 44/62] fix: held-out rows of pclean are added after the
 observed rows, not onto them

---
 cxx/pclean/pclean.cc     | 6 ++++--
 cxx/pclean/pclean_lib.cc | 5 +++--
 cxx/pclean/pclean_lib.hh | 6 ++++--
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/cxx/pclean/pclean.cc b/cxx/pclean/pclean.cc
index 0284376..f9efa20 100644
--- a/cxx/pclean/pclean.cc
+++ b/cxx/pclean/pclean.cc
@@ -93,6 +93,7 @@ int main(int argc, char** argv) {
   // Incorporate observations.
   std::cout << "Incorporating observations ...\n";
   incorporate_observations(&prng, &gendb, df);
+  int num_rows = df.data.begin()->second.size();
 
   // Run inference
   std::cout << "Running inference ...\n";
@@ -121,7 +122,8 @@ int main(int argc, char** argv) {
     DataFrame heldout_df = DataFrame::from_csv(heldout_fn);
     std::cout << "Incorporating held out observations ...\n";
     double lp1 = gendb.logp_score();
-    incorporate_observations(&prng, &gendb, heldout_df);
+    incorporate_observations(&prng, &gendb, heldout_df, num_rows);
+    num_rows += heldout_df.data.begin()->second.size();
     double lp2 = gendb.logp_score();
     std::cout << "Log likelihood of held out data is " << (lp2 - lp1) << std::endl;
   }
@@ -131,7 +133,7 @@ int main(int argc, char** argv) {
     std::string samples_out = result["output"].as<std::string>() + ".samples";
     std::cout << "Generating " << num_samples << " samples\n";
     DataFrame samples_df = make_pclean_samples(
-        num_samples, df.data.begin()->second.size(), &gendb, &prng);
+        num_samples, num_rows, &gendb, &prng);
     std::cout << "Writing samples to " << samples_out << " ...\n";
     samples_df.to_csv(samples_out);
   }
diff --git a/cxx/pclean/pclean_lib.cc b/cxx/pclean/pclean_lib.cc
index c2c1434..ddfca1f 100644
--- a/cxx/pclean/pclean_lib.cc
+++ b/cxx/pclean/pclean_lib.cc
@@ -11,7 +11,8 @@
 
 void incorporate_observations(std::mt19937* prng,
                               GenDB *gendb,
-                              const DataFrame& df) {
+                              const DataFrame& df,
+                              int start_row) {
   int num_rows = df.data.begin()->second.size();
   for (int i = 0; i < num_rows; i++) {
     std::map<std::string, ObservationVariant> row_values;
@@ -50,7 +51,7 @@ void incorporate_observations(std::mt19937* prng,
     // TODO(emilyaf): Consider using new_rows_have_unique_entities=false
     // after entity transitions are allowed and numeric stability issues
     // are addressed.
-    gendb->incorporate(prng, std::make_pair(i, row_values), true);
+    gendb->incorporate(prng, std::make_pair(start_row + i, row_values), true);
   }
 }
 
diff --git a/cxx/pclean/pclean_lib.hh b/cxx/pclean/pclean_lib.hh
index a763294..742ec7d 100644
--- a/cxx/pclean/pclean_lib.hh
+++ b/cxx/pclean/pclean_lib.hh
@@ -13,10 +13,12 @@
 // For each non-missing value in the DataFrame df, create an
 // observation and incorporate it into the GenDB.  The column name of the value
 // is used as the relation name, and each entity in each domain is given
-// its own unique value.
+// its own unique value.  The rows get the ids start_row, start_row + 1, ...,
+// which must not be those of existing rows of the GenDB.
 void incorporate_observations(std::mt19937* prng,
                               GenDB *gendb,
-                              const DataFrame& df);
+                              const DataFrame& df,
+                              int start_row = 0);
 
 // Return a dataframe of num_samples samples from the GenDB.
 // All existing rows added to gendb should have ids < start_row.
-- 
2.43.0


From 78e6c31dbee7c5c2e0840073136c79b3ae215083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:05 +0000
Subject: [PATCH 45/62] fix: DataFrames of synthetic rows list their columns

---
 cxx/pclean/pclean_lib.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cxx/pclean/pclean_lib.cc b/cxx/pclean/pclean_lib.cc
index ddfca1f..db60f33 100644
--- a/cxx/pclean/pclean_lib.cc
+++ b/cxx/pclean/pclean_lib.cc
@@ -74,6 +74,9 @@ void make_pclean_sample(
 DataFrame make_pclean_samples(int num_samples, int start_row, GenDB *gendb,
                               std::mt19937* prng) {
   DataFrame df;
+  for (const auto& [name, query_field] : gendb->schema.query.fields) {
+     df.columns.push_back(query_field.name);
+  }
   for (int i = 0; i < num_samples; i++) {
      std::map<std::string, std::string> query_values;
      make_pclean_sample(prng, gendb, start_row + i, &query_values);
-- 
2.43.0


From 8c857b20d1fe2335e72f5531ea2bbce3c45c2d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:05 +0000
Subject: [PATCH 46/62] fix: pclean refuses missing arguments and unreadable
 schemas with a failure

---
 cxx/pclean/pclean.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cxx/pclean/pclean.cc b/cxx/pclean/pclean.cc
index f9efa20..ee23108 100644
--- a/cxx/pclean/pclean.cc
+++ b/cxx/pclean/pclean.cc
@@ -60,7 +60,12 @@ int main(int argc, char** argv) {
 
   if ((result.count("schema") < 1) || (result.count("obs") < 1)) {
     std::cout << "Must specify --schema and --obs\n";
-    return 0;
+    return 1;
+  }
+
+  if ((result["samples"].as<int>() > 0) && (result.count("output") < 1)) {
+    std::cout << "Must specify --output to write --samples\n";
+    return 1;
   }
 
   int seed = result["seed"].as<int>();
@@ -74,6 +79,7 @@ int main(int argc, char** argv) {
   std::cout << "Reading schema file from " << schema_fn << "\n";
   if (!read_schema_file(schema_fn, &pclean_schema)) {
     std::cout << "Error reading schema file" << schema_fn << "\n";
+    return 1;
   }
 
   // Make GenDB
-- 
2.43.0


From f5e5e5ec54a3111fcc8b414ac0523c65f2cdd0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:05 +0000
Subject: [PATCH 47/62] fix: hirm --load numbers entities as in the held-out
 observations it will score

---
 cxx/hirm_main.cc |  6 ++++--
 cxx/util_io.cc   | 14 ++++++++++----
 cxx/util_io.hh   |  8 ++++++--
 3 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/cxx/hirm_main.cc b/cxx/hirm_main.cc
index 0d03dcd..ff44e2b 100644
--- a/cxx/hirm_main.cc
+++ b/cxx/hirm_main.cc
@@ -99,7 +99,8 @@ int main(int argc, char** argv) {
     } else {
       irm = new IRM({});
       std::cout << "loading clusters from " << path_clusters << std::endl;
-      from_txt(&prng, irm, path_schema, path_obs, path_clusters);
+      from_txt(&prng, irm, path_schema, path_obs, path_clusters,
+               &encoding);
     }
     // Infer
     std::cout << "inferring " << iters << " iters; timeout " << timeout
@@ -135,7 +136,8 @@ int main(int argc, char** argv) {
     } else {
       hirm = new HIRM({}, &prng);
       std::cout << "loading clusters from " << path_clusters << std::endl;
-      from_txt(&prng, hirm, path_schema, path_obs, path_clusters);
+      from_txt(&prng, hirm, path_schema, path_obs, path_clusters,
+               &encoding);
     }
     // Infer
     std::cout << "inferring " << iters << " iters; timeout " << timeout
diff --git a/cxx/util_io.cc b/cxx/util_io.cc
index a6c8ee2..581d137 100644
--- a/cxx/util_io.cc
+++ b/cxx/util_io.cc
@@ -682,11 +682,14 @@ static std::vector<std::string> base_relations_first(const T_schema& schema) {
 
 void from_txt(std::mt19937* prng, IRM* const irm,
               const std::string& path_schema, const std::string& path_obs,
-              const std::string& path_clusters) {
+              const std::string& path_clusters,
+              const T_encoding* encoding_of_items) {
   // Load the data.
   T_schema schema = load_schema(path_schema);
   T_observations observations = load_observations(path_obs, schema);
-  T_encoding encoding = calculate_encoding(schema, observations);
+  T_encoding encoding = encoding_of_items
+                            ? *encoding_of_items
+                            : calculate_encoding(schema, observations);
   auto clusters = load_clusters_irm(path_clusters);
   // Add the relations.
   assert(irm->schema.empty());
@@ -715,10 +718,13 @@ void from_txt(std::mt19937* prng, IRM* const irm,
 
 void from_txt(std::mt19937* prng, HIRM* const hirm,
               const std::string& path_schema, const std::string& path_obs,
-              const std::string& path_clusters) {
+              const std::string& path_clusters,
+              const T_encoding* encoding_of_items) {
   T_schema schema = load_schema(path_schema);
   T_observations observations = load_observations(path_obs, schema);
-  T_encoding encoding = calculate_encoding(schema, observations);
+  T_encoding encoding = encoding_of_items
+                            ? *encoding_of_items
+                            : calculate_encoding(schema, observations);
   auto [relations, irms] = load_clusters_hirm(path_clusters);
   // Add the relations.
   assert(hirm->schema.empty());
diff --git a/cxx/util_io.hh b/cxx/util_io.hh
index a6d8779..e09280a 100644
--- a/cxx/util_io.hh
+++ b/cxx/util_io.hh
@@ -66,12 +66,16 @@ std::tuple<std::map<int, std::vector<std::string>>,  // x[table] = {relation
            >
 load_clusters_hirm(const std::string& path);
 
+// Entities are numbered as in encoding_of_items, which by default is
+// calculated from the observations.
 void from_txt(std::mt19937* prng, IRM* const irm,
               const std::string& path_schema, const std::string& path_obs,
-              const std::string& path_clusters);
+              const std::string& path_clusters,
+              const T_encoding* encoding_of_items = nullptr);
 void from_txt(std::mt19937* prng, HIRM* const irm,
               const std::string& path_schema, const std::string& path_obs,
-              const std::string& path_clusters);
+              const std::string& path_clusters,
+              const T_encoding* encoding_of_items = nullptr);
 
 T_observations merge_observations(const T_observations& obs1,
                                   const T_observations& obs2);
-- 
2.43.0


From 720ed489b9ea98350b509262510a1240977086ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:05 +0000
Subject: [PATCH 48/62] fix: sometimes emissions remember how each possibly
 clean pair was attributed

---
 cxx/emissions/sometimes.hh | 47 ++++++++++++++++++++++++++++++++++----
 1 file changed, 43 insertions(+), 4 deletions(-)

diff --git a/cxx/emissions/sometimes.hh b/cxx/emissions/sometimes.hh
index 5e6603b..3fe9acd 100644
--- a/cxx/emissions/sometimes.hh
+++ b/cxx/emissions/sometimes.hh
@@ -1,6 +1,9 @@
 #pragma once
 
+#include <algorithm>
 #include <unordered_map>
+#include <utility>
+#include <vector>
 
 #include "distributions/beta_bernoulli.hh"
 #include "emissions/base.hh"
@@ -38,10 +41,10 @@ class Sometimes : public Emission<SampleType> {
     }
 
     if (dirty_can_equal_clean) {
-      double p_came_from_be = exp(bb.logp(true) + be->logp(x));
-      bb.incorporate(true, p_came_from_be * weight);
-      be->incorporate(x, p_came_from_be * weight);
-      bb.incorporate(false, (1.0 - p_came_from_be) * weight);
+      double from_be = weight_from_be(x, weight);
+      bb.incorporate(true, from_be);
+      be->incorporate(x, from_be);
+      bb.incorporate(false, weight - from_be);
       return;
     }
     bb.incorporate(false, weight);
@@ -89,4 +92,40 @@ class Sometimes : public Emission<SampleType> {
     }
     return mode;
   }
+
+ private:
+  // For each value observed as both clean and dirty, the weight of every such
+  // observation and the part of it that was attributed to be, so that removing
+  // one takes back exactly what was added for it.
+  std::unordered_map<SampleType, std::vector<std::pair<double, double>>>
+      attributed;
+
+  // The part of an observation with dirty == clean to add to (or, if weight is
+  // negative, to remove from) be.
+  double weight_from_be(const std::pair<SampleType, SampleType>& x,
+                        double weight) {
+    if (weight >= 0.0) {
+      double from_be = weight * exp(bb.logp(true) + be->logp(x));
+      attributed[x.first].push_back({weight, from_be});
+      return from_be;
+    }
+    double from_be = 0.0;
+    auto it = attributed.find(x.first);
+    while (weight < 0.0 && it != attributed.end()) {
+      auto& [w, b] = it->second.back();
+      double fraction = std::min(1.0, -weight / w);
+      from_be -= fraction * b;
+      weight += fraction * w;
+      b -= fraction * b;
+      w -= fraction * w;
+      if (fraction == 1.0) {
+        it->second.pop_back();
+      }
+      if (it->second.empty()) {
+        attributed.erase(it);
+        it = attributed.end();
+      }
+    }
+    return from_be;
+  }
 };
-- 
2.43.0


From 5a4bf2e9f6fee8d1066c71b7ed5a3cdc89553ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:05 +0000
Subject: [PATCH 49/62] fix: Skellam probabilities do not underflow for large
 rates

---
 cxx/distributions/skellam.cc | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/cxx/distributions/skellam.cc b/cxx/distributions/skellam.cc
index ee3f795..bdce1af 100644
--- a/cxx/distributions/skellam.cc
+++ b/cxx/distributions/skellam.cc
@@ -10,10 +10,36 @@ double lognormal_logp(double x, double mean, double stddev) {
       - std::log(x * stddev) - 0.5 * std::log(2.0 * std::numbers::pi);
 }
 
+// The logarithm of exp(-y) I_n(y), where I_n is the modified Bessel function of
+// the first kind.
+static double log_scaled_cyl_bessel_i(double n, double y) {
+  if (y > 100.0) {
+    // The uniform asymptotic expansion, NIST DLMF 10.41(ii).
+    const double w = std::hypot(n, y);
+    const double p2 = (n / w) * (n / w);
+    const double u1 = (3.0 - 5.0 * p2) / 24.0;
+    const double u2 = (81.0 - p2 * (462.0 - p2 * 385.0)) / 1152.0;
+    const double u3 =
+        (30375.0 - p2 * (369603.0 - p2 * (765765.0 - p2 * 425425.0))) / 414720.0;
+    return n * n / (w + y) - n * std::asinh(n / y)
+        - 0.5 * std::log(2.0 * std::numbers::pi * w)
+        + std::log1p((u1 + (u2 + u3 / w) / w) / w);
+  }
+  // The power series, in units of its first term.
+  double sum = 1.0;
+  double term = 1.0;
+  for (double k = 1.0; term > 1e-17 * sum; ++k) {
+    term *= y * y / (4.0 * k * (k + n));
+    sum += term;
+  }
+  return n * std::log(y / 2.0) - lgamma(n + 1.0) + std::log(sum) - y;
+}
+
 double Skellam::logp(const int&x) const {
-  return -mu1 - mu2 + (x / 2.0) * std::log(mu1 / mu2)
-      // TODO(thomaswc): Replace this with something more numerically stable.
-      + std::log(std::cyl_bessel_i(std::abs(x), 2.0 * std::sqrt(mu1 * mu2)));
+  const double s1 = std::sqrt(mu1);
+  const double s2 = std::sqrt(mu2);
+  return -(s1 - s2) * (s1 - s2) + x * std::log(s1 / s2)
+      + log_scaled_cyl_bessel_i(std::abs(x), 2.0 * s1 * s2);
 }
 
 int Skellam::sample(std::mt19937* prng) {
-- 
2.43.0


From f10daf04a8186b2dd0360ee5d91fcfde6162aec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:05 +0000
Subject: [PATCH 50/62] fix: the score of the bigram string emission does not
 count its initial counts as evidence

---
 cxx/emissions/bigram_string.cc | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/cxx/emissions/bigram_string.cc b/cxx/emissions/bigram_string.cc
index a9881c1..7c8950b 100644
--- a/cxx/emissions/bigram_string.cc
+++ b/cxx/emissions/bigram_string.cc
@@ -1,5 +1,6 @@
 #include <algorithm>
 #include <cassert>
+#include <cmath>
 #include <iterator>
 
 #include "emissions/bigram_string.hh"
@@ -13,6 +14,21 @@
 // so trying 2 for now.
 int NUMBER_OF_STRING_ALIGNMENTS_TO_CONSIDER_WHEN_INCORPORATING = 2;
 
+// The weight of the initial bias given to the categorical distributions over
+// num_contexts categories.
+static double get_initial_bias(int num_contexts) {
+  return (double) num_contexts * num_contexts;
+}
+
+// The log probability of what was incorporated in dist after its initial bias,
+// which is not data.
+static double logp_score_of_data(const DirichletCategorical& dist) {
+  const double bias = get_initial_bias(dist.counts.size());
+  const double a = dist.alpha * dist.counts.size();
+  return dist.logp_score() - (lgamma(a) - lgamma(a + bias)
+      + lgamma(dist.alpha + bias) - lgamma(dist.alpha));
+}
+
 BigramStringEmission::BigramStringEmission() {
   // We need a context for [lowest_char, highest_char] inclusive, plus one
   // for the empty context at the start of a string.
@@ -28,7 +44,7 @@ BigramStringEmission::BigramStringEmission() {
   // substitutions models, because by default they insert too much (i.e.,
   // no evidence of insertions being rare) and treat substitutions as just
   // as likely as matches.
-  double initial_bias = (double) num_contexts * num_contexts;
+  const double initial_bias = get_initial_bias(num_contexts);
   for (int i = 0; i < num_contexts; ++i) {
     insertions[i].incorporate(0, initial_bias);
     substitutions[i].incorporate(i, initial_bias);
@@ -207,10 +223,10 @@ double BigramStringEmission::logp(
 double BigramStringEmission::logp_score() const {
   double lp = 0.0;
   for (const auto &i : insertions) {
-    lp += i.logp_score();
+    lp += logp_score_of_data(i);
   }
   for (const auto &s : substitutions) {
-    lp += s.logp_score();
+    lp += logp_score_of_data(s);
   }
   return lp;
 }
-- 
2.43.0


From f60d89e45c04dd2c8170df6f9b120cbcf9e0d4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:05 +0000
Subject: [PATCH 51/62] fix: malformed observation values are refused

---
 cxx/relation.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cxx/relation.hh b/cxx/relation.hh
index f3f090d..ff29a26 100644
--- a/cxx/relation.hh
+++ b/cxx/relation.hh
@@ -128,6 +128,10 @@ class Relation {
     ValueType t;
     std::stringstream ss(s);
     ss >> t;
+    if (ss.fail() || !(ss >> std::ws).eof()) {
+      printf("Error: `%s` is not a legal value of the relation.\n", s.c_str());
+      assert(false);
+    }
     return t;
   };
 
-- 
2.43.0


From 06ac194ceaf38155617f759bca66e80c4d2099f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:05 +0000
Subject: [PATCH 52/62] fix: viewer: schema lines as the C++ tools read them

---
 py/hirm_io.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/py/hirm_io.py b/py/hirm_io.py
index e683f17..8a54245 100644
--- a/py/hirm_io.py
+++ b/py/hirm_io.py
@@ -21,8 +21,13 @@ DomainCluster = collections.namedtuple(
 def load_schema(path):
   """Load the schema from path, and return it as a dict of Relations."""
   relations = {}
-  comment_line_re = re.compile(r'\s*#.*')
-  line_re = re.compile(r'\s*(\w+)\s*~\s*(\w+)\s*(\[[^\]]*\])?\(\s*([^\)]+)\s*\)\s*(#.*)?')
+  comment_line_re = re.compile(r'\s*(#.*)?$')
+  # A parameter's value may be a quoted string containing any other character.
+  value = r'"[^"]*"' + r"|'[^']*'"
+  line_re = re.compile(
+      r'\s*(\w+)\s*~\s*(\w+)\s*(\[(?:' + value + r'|[^\]])*\])?\s*'
+      r'\(\s*([^\)]+?)\s*\)\s*(#.*)?')
+  parameter_re = re.compile(r'(\w+)\s*=\s*(' + value + r'|[^\s,]+)')
   with open(path, 'r') as f:
     for line in f:
       if comment_line_re.match(line):
@@ -34,12 +39,8 @@ def load_schema(path):
       name = m.group(1)
       parameters = {}
       if m.group(3):
-        param_string = m.group(3)[1:-1]
-        ps = re.split(r'\s*,\s*', param_string)
-        for p in ps:
-          kv = re.split(r'\s*=\s*', p)
-          assert len(kv) == 2
-          parameters[kv[0]] = kv[1]
+        for p in parameter_re.finditer(m.group(3)[1:-1]):
+          parameters[p.group(1)] = p.group(2)
       domains = re.split(r'\s*,\s*', m.group(4))
       relations[name] = Relation(name=name,
                                  distribution=m.group(2),
-- 
2.43.0


From 0006be0e41d945e1591bbb2229cdf46a648ef06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:06 +0000
Subject: [PATCH 53/62] fix: viewer: plots of noisy relations

---
 py/hirm_io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py/hirm_io.py b/py/hirm_io.py
index 8a54245..5d821e7 100644
--- a/py/hirm_io.py
+++ b/py/hirm_io.py
@@ -41,7 +41,8 @@ def load_schema(path):
       if m.group(3):
         for p in parameter_re.finditer(m.group(3)[1:-1]):
           parameters[p.group(1)] = p.group(2)
-      domains = re.split(r'\s*,\s*', m.group(4))
+      # The domains of a noisy relation are preceded by "base_relation;".
+      domains = re.split(r'\s*,\s*', re.sub(r'^\w+\s*;\s*', '', m.group(4)))
       relations[name] = Relation(name=name,
                                  distribution=m.group(2),
                                  parameters=parameters,
-- 
2.43.0


From 1fce8dbb8f4b8bf2e2e7ef00e53c5aefe9d40546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:06 +0000
Subject: [PATCH 54/62] fix: viewer: cluster files of the C++ tools

---
 py/visualize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py/visualize.py b/py/visualize.py
index 4308909..9a612a5 100644
--- a/py/visualize.py
+++ b/py/visualize.py
@@ -182,7 +182,8 @@ def collate_observations(obs):
 def html_for_cluster(cluster, schema, obs, clusters):
   """Return the html for visualizing a single cluster."""
   html = ''
-  unary_obs, binary_obs = collate_observations(obs)
+  cluster_obs = [ob for ob in obs if ob.relation in cluster.relations]
+  unary_obs, binary_obs = collate_observations(cluster_obs)
   if unary_obs:
     print(f"For irm #{cluster.cluster_id}, building unary matrix based on {len(unary_obs)} observations")
     fig = unary_matrix_plot(schema, cluster, unary_obs, clusters)
-- 
2.43.0


From 95cf7a12150ea9bd743bfbc3a5b1e4da6addb670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:06 +0000
Subject: [PATCH 55/62] fix: viewer: matrix rows by entity

---
 py/visualize.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/py/visualize.py b/py/visualize.py
index 9a612a5..e00f7a9 100644
--- a/py/visualize.py
+++ b/py/visualize.py
@@ -106,8 +106,19 @@ def unary_matrix_plot(schema, cluster, obs, clusters):
                 rotation=90, fontsize=fontsize)
   ax.set_yticks(np.arange(num_rows), labels=all_entities, fontsize=fontsize)
 
-  # Matrix of data
-  m = make_unary_matrix(obs, all_entities, relations)
+  # Matrix of data, domain by domain because two domains may each have an
+  # entity of the same name.
+  if schema:
+    blocks = []
+    for domain in sorted({dc.domain for dc in cluster.domain_clusters}):
+      domain_entities, _ = get_all_entities_for_domain(cluster, domain)
+      domain_obs = [
+          ob for ob in obs
+          if ob.relation in schema and schema[ob.relation].domains == [domain]]
+      blocks.append(make_unary_matrix(domain_obs, domain_entities, relations))
+    m = np.concatenate(blocks)
+  else:
+    m = make_unary_matrix(obs, all_entities, relations)
   cmap = copy.copy(plt.get_cmap())
   cmap.set_bad(color='white')
   ax.imshow(m, cmap=cmap)
-- 
2.43.0


From 461c45924c2a31d7eb36223651001a9c282ebac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:06 +0000
Subject: [PATCH 56/62] fix: BetaBernoulli.sample draws 1 with the probability
 of 1

---
 src/hirm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hirm.py b/src/hirm.py
index d719a48..6a90fc3 100644
--- a/src/hirm.py
+++ b/src/hirm.py
@@ -45,7 +45,7 @@ class BetaBernoulli:
         return n - d
     def sample(self):
         p = math.exp(self.logp(1))
-        return self.prng.choices([0, 1], [p, 1-p])[0]
+        return self.prng.choices([0, 1], [1-p, p])[0]
     def __repr__(self):
         return 'BetaBernoulli(alpha=%f, beta=%f, N=%d, s=%d)' \
             % (self.alpha, self.beta, self.N, self.s)
-- 
2.43.0


From ab9df73946efff235d82edd6f3f84b95d5b82b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:06 +0000
Subject: [PATCH 57/62] fix: weights of the tables of an empty CRP

---
 src/hirm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hirm.py b/src/hirm.py
index 6a90fc3..68e7c0e 100644
--- a/src/hirm.py
+++ b/src/hirm.py
@@ -94,7 +94,7 @@ class CRP:
             - gammaln(self.N + self.alpha)
     def tables_weights(self):
         if self.N == 0:
-            return {0: 1}
+            return {0: self.alpha}
         crp_dist = {t : len(self.tables[t]) for t in self.tables}
         crp_dist[max(self.tables) + 1] = self.alpha
         return crp_dist
-- 
2.43.0


From a7369238a31eaa58c699ad504b863582bd71da8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:06 +0000
Subject: [PATCH 58/62] fix: transition_alpha of a CRP without customers

---
 src/hirm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hirm.py b/src/hirm.py
index 68e7c0e..2d4f267 100644
--- a/src/hirm.py
+++ b/src/hirm.py
@@ -107,6 +107,8 @@ class CRP:
             del crp_dist[max(crp_dist)]
         return crp_dist
     def transition_alpha(self):
+        if self.N == 0:
+            return
         grid = log_linspace(1/self.N, self.N+1, 30)
         log_weights = []
         for g in grid:
-- 
2.43.0


From 1a438e7e06bf78dd24234adb09295feba3b3cbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:06 +0000
Subject: [PATCH 59/62] fix: sweeps visit entities in the shuffled order

---
 src/hirm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hirm.py b/src/hirm.py
index 2d4f267..c932c6d 100644
--- a/src/hirm.py
+++ b/src/hirm.py
@@ -398,7 +398,7 @@ class IRM:
         for d in domains:
             items = list(self.domains[d].items)
             self.prng.shuffle(items)
-            for item in self.domains[d].items:
+            for item in items:
                 self.transition_cluster_assignment_item(d, item)
     def transition_cluster_assignment_item(self, d, item):
         domain = self.domains[d]
-- 
2.43.0


From f77bcd100c39024ba680adec2f6162aba74b802f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:06 +0000
Subject: [PATCH 60/62] fix: from_dict_Domain keeps the generator

---
 src/util_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util_io.py b/src/util_io.py
index f74fe0e..add2bc1 100644
--- a/src/util_io.py
+++ b/src/util_io.py
@@ -130,7 +130,7 @@ def to_dict_Domain(x):
 def from_dict_Domain(d, prng=None):
     x = hirm.Domain(d['name'], prng=prng)
     x.items = set(d['items'])
-    x.crp = from_dict_CRP(d['crp'])
+    x.crp = from_dict_CRP(d['crp'], prng=prng)
     return x
 
 def to_dict_Relation(x):
-- 
2.43.0


From 586acf4d3c0f8a0e11d9f4b97dc19675b6b2ebd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:06 +0000
Subject: [PATCH 61/62] fix: IRM.remove_relation drops entities that only that
 relation has

---
 src/hirm.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/hirm.py b/src/hirm.py
index c932c6d..81fdba3 100644
--- a/src/hirm.py
+++ b/src/hirm.py
@@ -137,12 +137,9 @@ class Domain:
             t = self.crp.sample() if table is None else table
             self.crp.incorporate(item, t)
     def unincorporate(self, item):
-        raise NotImplementedError()
-        # assert item in self.items
-        # self.items[item].remove(relation)
-        # if not self.items[item]:
-        #     self.crp.unincorporate(item)
-        #     del self.items[item]
+        assert item in self.items
+        self.items.remove(item)
+        self.crp.unincorporate(item)
     def get_cluster_assignment(self, item):
         assert item in self.items
         return self.crp.assignments[item]
@@ -449,7 +446,11 @@ class IRM:
         domains = {d.name for d in self.relations[r].domains}
         for d in domains:
             self.domain_to_relations[d].discard(r)
-            # TODO: Remove r from self.domains[d].items
+            # Remove the items that only r has observations of.
+            others = [self.relations[o] for o in self.domain_to_relations[d]]
+            for item in self.relations[r].data_r[d]:
+                if not any(o.has_observation(self.domains[d], item) for o in others):
+                    self.domains[d].unincorporate(item)
             if len(self.domain_to_relations[d]) == 0:
                 del self.domain_to_relations[d]
                 del self.domains[d]
-- 
2.43.0


From 2f8a7fce6129b31a08e726b8186dbfdaab0581e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:06 +0000
Subject: [PATCH 62/62] fix: exact Gibbs scores of relations with repeated
 domains

---
 src/hirm.py | 77 ++++++++++++++++++++---------------------------------
 1 file changed, 29 insertions(+), 48 deletions(-)

diff --git a/src/hirm.py b/src/hirm.py
index 81fdba3..0b44739 100644
--- a/src/hirm.py
+++ b/src/hirm.py
@@ -248,63 +248,44 @@ class Relation:
         return logp
 
     # Implementation of exact Gibbs data probabilities.
-    def get_cluster_to_items_list(self, domain, item):
-        """Return mapping from cluster to all items in that cluster
-        that have domain.item in at least one dimension."""
+    def get_cluster_to_items_list(self, domain, item, table):
+        """Return mapping from cluster to all items that are in that cluster
+        when domain.item is at table and that have domain.item in at least
+        one dimension."""
         cluster_to_items_list = {}
         for items in self.data_r[domain.name][item]:
-            cluster = self.get_cluster_assignment(items)
+            cluster = self.get_cluster_assignment_gibbs(items, domain, item, table)
             if cluster not in cluster_to_items_list:
                 cluster_to_items_list[cluster] = []
             cluster_to_items_list[cluster].append(items)
         return cluster_to_items_list
-    def logp_gibbs_exact_current(self, items_list):
-        """Return exact proposal proposal probability for current table."""
-        z = self.get_cluster_assignment(items_list[0])
-        cluster = self.clusters[z]
-        logp0 = cluster.logp_score()
-        for items in items_list:
-            x = self.data[items]
-            # assert z == self.get_cluster_assignment(items)
-            cluster.unincorporate(x)
-        logp1 = cluster.logp_score()
-        for items in items_list:
-            x = self.data[items]
-            cluster.incorporate(x)
-        assert cluster.logp_score() == logp0
-        return logp0 - logp1
-    def logp_gibbs_exact_variant(self, domain, item, table, items_list):
-        """Return exact proposal proposal probability for non-current table."""
-        z = self.get_cluster_assignment_gibbs(items_list[0], domain, item, table)
-        cluster = self.clusters.get(z, self.aux())
-        logp0 = cluster.logp_score()
-        for items in items_list:
-            # assert z == self.get_cluster_assignment_gibbs(items, domain, item, table)
-            x = self.data[items]
-            cluster.incorporate(x)
-        logp1 = cluster.logp_score()
-        for items in items_list:
-            # TODO: Skip this loop in case of cluster aux.
-            x = self.data[items]
-            cluster.unincorporate(x)
-        assert cluster.logp_score() == logp0
-        return logp1 - logp0
+    def logp_gibbs_exact_table(self, domain, item, table):
+        """Return exact proposal probability of domain.item at table, whose
+        observations are not in any cluster."""
+        logp = 0
+        cluster_to_items_list = self.get_cluster_to_items_list(domain, item, table)
+        for z, items_list in cluster_to_items_list.items():
+            cluster = self.clusters.get(z, self.aux())
+            logp0 = cluster.logp_score()
+            for items in items_list:
+                cluster.incorporate(self.data[items])
+            logp += cluster.logp_score() - logp0
+            for items in items_list:
+                cluster.unincorporate(self.data[items])
+        return logp
     def logp_gibbs_exact(self, domain, item, tables):
         """Return exact proposal probability of domain.item at tables."""
         # assert tables crp_dist = domain.tables_weights_gibbs(item)
-        cluster_to_items_list = self.get_cluster_to_items_list(domain, item)
-        table_current = domain.get_cluster_assignment(item)
-        logps = []
-        for table in tables:
-            lp = 0
-            for items_list in cluster_to_items_list.values():
-                if table == table_current:
-                    lp_cluster = self.logp_gibbs_exact_current(items_list)
-                else:
-                    lp_cluster = self.logp_gibbs_exact_variant(
-                        domain, item, table, items_list)
-                lp += lp_cluster
-            logps.append(lp)
+        # Observations may have domain.item in several dimensions, so that
+        # one table groups them differently than another: remove all of them.
+        items_all = self.data_r[domain.name][item]
+        for items in items_all:
+            z = self.get_cluster_assignment(items)
+            self.clusters[z].unincorporate(self.data[items])
+        logps = [self.logp_gibbs_exact_table(domain, item, table) for table in tables]
+        for items in items_all:
+            z = self.get_cluster_assignment(items)
+            self.clusters[z].incorporate(self.data[items])
         return logps
 
     def logp(self, items, value):
-- 
2.43.0

