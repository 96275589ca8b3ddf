From 4c732d48cb8b62eafc7ad2c4639193dd67906bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:06 +0000
Subject: [PATCH 01/29] fix: refresh every element when a combination iterator
 re-enters the bounds

---
 include/symbolic/utils/combination_generator.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/symbolic/utils/combination_generator.h b/include/symbolic/utils/combination_generator.h
index 94d0f99..4f52ace 100644
--- a/include/symbolic/utils/combination_generator.h
+++ b/include/symbolic/utils/combination_generator.h
@@ -333,6 +333,14 @@ class CombinationGenerator<ContainerT>::Iterator {
       return;
     }
 
+    // If the current index is outside the bounds, the stored combination does
+    // not correspond to it, so set all the elements
+    if (idx_ >= gen_->size() || idx_ < 0) {
+      idx_ = idx_new;
+      UpdateCombination();
+      return;
+    }
+
     // Preallocate combination if it hasn't been already
     const size_t num_options = gen_->options_.size();
     if (combination_.empty()) combination_.resize(num_options);
-- 
2.43.0


From c6a1fbc44b90aabeabb05950da47cb573671b6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:06 +0000
Subject: [PATCH 02/29] fix: make ReverseIterator::operator-(n) compile

---
 include/symbolic/utils/combination_generator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/symbolic/utils/combination_generator.h b/include/symbolic/utils/combination_generator.h
index 4f52ace..12694e2 100644
--- a/include/symbolic/utils/combination_generator.h
+++ b/include/symbolic/utils/combination_generator.h
@@ -445,7 +445,7 @@ class CombinationGenerator<ContainerT>::ReverseIterator {
   ReverseIterator& operator-=(difference_type n) { return operator+=(-n); }
 
   ReverseIterator operator-(difference_type n) const {
-    Iterator temp = *this;
+    ReverseIterator temp = *this;
     return temp -= n;
   }
 
-- 
2.43.0


From 645490a888d7f0ce69fce9bbd2ec4a797409e763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:26 +0000
Subject: [PATCH 03/29] fix: keep the domain handle in parameter generators,
 predicates and derived predicates

---
 src/derived_predicate.cc         | 1 +
 src/predicate.cc                 | 4 +++-
 src/utils/parameter_generator.cc | 6 +++---
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/derived_predicate.cc b/src/derived_predicate.cc
index 116ab62..73939f9 100644
--- a/src/derived_predicate.cc
+++ b/src/derived_predicate.cc
@@ -18,6 +18,7 @@ namespace symbolic {
 DerivedPredicate::DerivedPredicate(const Pddl& pddl,
                                    const VAL::derivation_rule* symbol)
     : symbol_(symbol) {
+  pddl_ = &pddl;
   name_ = symbol_->get_head()->head->getName();
   parameters_ = Object::CreateList(pddl, symbol_->get_head()->args);
   param_gen_ = ParameterGenerator(pddl, parameters_);
diff --git a/src/predicate.cc b/src/predicate.cc
index fbf589e..6911c92 100644
--- a/src/predicate.cc
+++ b/src/predicate.cc
@@ -21,7 +21,9 @@ Predicate::Predicate(const Pddl& pddl, const VAL::pred_decl* symbol)
     : symbol_(symbol),
       name_(symbol_->getPred()->getName()),
       parameters_(Object::CreateList(pddl, symbol_->getArgs())),
-      param_gen_(ParameterGenerator(pddl, parameters_)) {}
+      param_gen_(ParameterGenerator(pddl, parameters_)) {
+  pddl_ = &pddl;
+}
 
 std::string Predicate::to_string() const {
   std::stringstream ss;
diff --git a/src/utils/parameter_generator.cc b/src/utils/parameter_generator.cc
index 2972bb1..653cccf 100644
--- a/src/utils/parameter_generator.cc
+++ b/src/utils/parameter_generator.cc
@@ -57,18 +57,18 @@ namespace symbolic {
 
 ParameterGenerator::ParameterGenerator(const Pddl& pddl,
                                        const std::vector<Object>& params)
-    : param_types_(ParamTypes(pddl.object_map(), params)) {
+    : pddl_(&pddl), param_types_(ParamTypes(pddl.object_map(), params)) {
   Base::operator=(Base(Options(param_types_)));
 }
 
 // NOLINTNEXTLINE(bugprone-copy-constructor-init)
 ParameterGenerator::ParameterGenerator(const ParameterGenerator& other)
-    : param_types_(other.param_types_) {
+    : pddl_(other.pddl_), param_types_(other.param_types_) {
   Base::operator=(Base(Options(param_types_)));
 }
 
 ParameterGenerator::ParameterGenerator(ParameterGenerator&& other) noexcept
-    : param_types_(std::move(other.param_types_)) {
+    : pddl_(other.pddl_), param_types_(std::move(other.param_types_)) {
   Base::operator=(Base(Options(param_types_)));
 }
 
-- 
2.43.0


From afd58d5bf6b49911427362a9af4057b59052a5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:25 +0000
Subject: [PATCH 04/29] fix: yield the last path of depth-first and A* search

---
 include/symbolic/planning/a_star.h             | 8 ++++++--
 include/symbolic/planning/depth_first_search.h | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/symbolic/planning/a_star.h b/include/symbolic/planning/a_star.h
index 2c62ab7..363b7c2 100644
--- a/include/symbolic/planning/a_star.h
+++ b/include/symbolic/planning/a_star.h
@@ -67,12 +67,15 @@ class AStar<NodeT, Compare>::iterator {
 
   iterator& operator++();
   bool operator==(const iterator& other) const {
-    return queue_.empty() && other.queue_.empty();
+    return IsFinished() && other.IsFinished();
   }
   bool operator!=(const iterator& other) const { return !(*this == other); }
   reference operator*() const { return ancestors_; }
 
  private:
+  // The last path may be found while emptying the queue.
+  bool IsFinished() const { return queue_.empty() && ancestors_.empty(); }
+
   const size_t kMaxDepth = 0;
 
   std::priority_queue<SearchNode<NodeT>, std::vector<SearchNode<NodeT>>,
@@ -94,7 +97,7 @@ AStar<NodeT, Compare>::iterator::operator++() {
 
     // Return if node evaluates to true
     const NodeT& node = ancestors_.back();
-    if (node) break;
+    if (node) return *this;
 
     // Skip children if max depth has been reached
     if (ancestors_.size() > kMaxDepth) continue;
@@ -104,6 +107,7 @@ AStar<NodeT, Compare>::iterator::operator++() {
       queue_.emplace(child, ancestors_);
     }
   }
+  ancestors_.clear();
   return *this;
 }
 
diff --git a/include/symbolic/planning/depth_first_search.h b/include/symbolic/planning/depth_first_search.h
index 711b1f2..059d6a0 100644
--- a/include/symbolic/planning/depth_first_search.h
+++ b/include/symbolic/planning/depth_first_search.h
@@ -54,12 +54,15 @@ class DepthFirstSearch<NodeT>::iterator {
       : stack_({{root, std::vector<NodeT>()}}), kMaxDepth(max_depth) {}
 
   iterator& operator++();
-  bool operator==(const iterator& other) const { return stack_.empty() && other.stack_.empty(); }
+  bool operator==(const iterator& other) const { return IsFinished() && other.IsFinished(); }
   bool operator!=(const iterator& other) const { return !(*this == other); }
   reference operator*() const { return ancestors_; }
 
  private:
 
+  // The last path may be found while emptying the stack.
+  bool IsFinished() const { return stack_.empty() && ancestors_.empty(); }
+
   const size_t kMaxDepth = 0;
 
   std::stack<std::pair<NodeT, std::vector<NodeT>>> stack_;
@@ -79,7 +82,7 @@ typename DepthFirstSearch<NodeT>::iterator& DepthFirstSearch<NodeT>::iterator::o
 
     // Return if node evaluates to true
     const NodeT& node = ancestors_.back();
-    if (node) break;
+    if (node) return *this;
 
     // Skip children if max depth has been reached
     if (ancestors_.size() > kMaxDepth) continue;
@@ -90,6 +93,7 @@ typename DepthFirstSearch<NodeT>::iterator& DepthFirstSearch<NodeT>::iterator::o
       stack_.emplace(child, ancestors_);
     }
   }
+  ancestors_.clear();
   return *this;
 }
 
-- 
2.43.0


From 5cb06d6d7c207136cba7681ddbe7a97acf17fa33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:23 +0000
Subject: [PATCH 05/29] fix: print the quantified variables of forall and
 exists

---
 src/formula.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/formula.cc b/src/formula.cc
index 6299073..88abcbd 100644
--- a/src/formula.cc
+++ b/src/formula.cc
@@ -249,9 +249,11 @@ NamedFormulaFunction<T> CreateForall(const Pddl& pddl,
     return true;
   };
 
-  std::stringstream ss("(forall (");
+  std::stringstream ss;
+  ss << "(forall (";
   std::string delim;
-  for (const Object& param : parameters) {
+  for (size_t i = parameters.size(); i < forall_params.size(); i++) {
+    const Object& param = forall_params[i];
     ss << delim << "?" << param << " - " << param.type().name();
     if (delim.empty()) delim = " ";
   }
@@ -288,9 +290,11 @@ NamedFormulaFunction<T> CreateExists(const Pddl& pddl,
     return false;
   };
 
-  std::stringstream ss("(exists (");
+  std::stringstream ss;
+  ss << "(exists (";
   std::string delim;
-  for (const Object& param : parameters) {
+  for (size_t i = parameters.size(); i < exists_params.size(); i++) {
+    const Object& param = exists_params[i];
     ss << delim << "?" << param << " - " << param.type().name();
     if (delim.empty()) delim = " ";
   }
-- 
2.43.0


From 4a2da8a3c3b9f22d3cce5260d1fcc855116320d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:25 +0000
Subject: [PATCH 06/29] fix: report changes made by triggered axioms

CreateAdd and CreateDel dropped the status returned by the axioms they
trigger, so on a partial state a proposition negated through a nested chain
of axioms was not reported as a contradiction.
---
 src/action.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/action.cc b/src/action.cc
index 68d42b5..47e0ed1 100644
--- a/src/action.cc
+++ b/src/action.cc
@@ -157,7 +157,8 @@ EffectsFunction<T> CreateAdd(const Pddl& pddl, const VAL::simple_effect* effect,
 
       // std::cout << "+" << *name_predicate << ": " << *axiom_args <<
       // std::endl; std::cout << "[" << *state << std::endl;
-      axiom.Action::Apply(*axiom_args, state);
+      status =
+          std::max<int>(status, axiom.Action::Apply(*axiom_args, state));
       // std::cout << "]" << *state << std::endl << std::endl;
     }
     return status;
@@ -246,7 +247,8 @@ EffectsFunction<T> CreateDel(const Pddl& pddl, const VAL::simple_effect* effect,
 
       // std::cout << "-" << *name_predicate << ": " << *axiom_args <<
       // std::endl; std::cout << "[" << *state << std::endl;
-      axiom.Action::Apply(*axiom_args, state);
+      status =
+          std::max<int>(status, axiom.Action::Apply(*axiom_args, state));
       // std::cout << "]" << *state << std::endl << std::endl;
     }
     return status;
-- 
2.43.0


From 4d1fc1d525251758ebe52dfa1ca8dfdb07503e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:08 +0000
Subject: [PATCH 07/29] fix: print impossible axiom formulas as false

StringifyFormula dereferenced an empty optional when an axiom's context or
implication simplifies to false, which is undefined behaviour.
---
 src/axiom.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/axiom.cc b/src/axiom.cc
index 60b511d..e291790 100644
--- a/src/axiom.cc
+++ b/src/axiom.cc
@@ -52,15 +52,17 @@ std::string StringifyFormula(const Pddl& pddl, const Formula& preconditions,
                              const std::vector<Object>& parameters) {
   std::stringstream ss;
   try {
-    ss << *DisjunctiveFormula::Create(pddl, preconditions, parameters,
-                                      parameters);
+    ss << DisjunctiveFormula::Create(pddl, preconditions, parameters,
+                                     parameters)
+              .value();
   } catch (...) {
     ss << "false";
   }
   ss << " => ";
   try {
-    ss << *DisjunctiveFormula::Create(pddl, postconditions, parameters,
-                                      parameters);
+    ss << DisjunctiveFormula::Create(pddl, postconditions, parameters,
+                                     parameters)
+              .value();
   } catch (...) {
     ss << "false";
   }
-- 
2.43.0


From 3fe7c4dee3ece14cb87b1e4e873c8290fb3a6d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:27 +0000
Subject: [PATCH 08/29] fix: fire axioms only for arguments that match their
 context

Axiom::CreateApplicationFunction ignored repeated variables in the context,
letting the last argument win, and the declared types of the axiom's
variables.
---
 src/axiom.cc | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/axiom.cc b/src/axiom.cc
index e291790..e0dddc1 100644
--- a/src/axiom.cc
+++ b/src/axiom.cc
@@ -246,6 +246,7 @@ std::optional<AxiomApplicationFunction> Axiom::CreateApplicationFunction(
   // Check unmatched axiom prop param equal action param.
   std::vector<std::pair<size_t, size_t>> idx_params;
   auto axiom_args = std::make_shared<std::vector<Object>>(axiom_params);
+  std::vector<std::pair<size_t, Object>> constant_args;
   std::vector<std::pair<size_t, Object>> future_action_args;
   for (size_t idx_prop = 0; idx_prop < num_prop_params; idx_prop++) {
     // Check if axiom prop param has corresponding axiom param.
@@ -273,6 +274,7 @@ std::optional<AxiomApplicationFunction> Axiom::CreateApplicationFunction(
     } else if (is_action_prop_arg) {
       // Instantiate axiom prop param with action prop arg.
       (*axiom_args)[i] = action_prop_param;
+      constant_args.emplace_back(i, action_prop_param);
     } else {
       // Match axiom prop param and action prop param.
       idx_params.emplace_back(i, j);
@@ -281,7 +283,8 @@ std::optional<AxiomApplicationFunction> Axiom::CreateApplicationFunction(
 
   // TODO(tmigimatsu): shared_ptr makes this not thread-safe.
   return [ptr_axiom_args = std::move(axiom_args),
-          idx_params = std::move(idx_params),
+          axiom_params, idx_params = std::move(idx_params),
+          constant_args = std::move(constant_args),
           future_action_args = std::move(future_action_args)](
              const std::vector<Object>& action_args)
              -> const std::vector<Object>* {
@@ -299,6 +302,22 @@ std::optional<AxiomApplicationFunction> Axiom::CreateApplicationFunction(
       const size_t idx_action = idx_axiom_action.second;
       axiom_args[idx_axiom] = action_args[idx_action];
     }
+
+    // Check that repeated axiom params were assigned the same arg.
+    for (const std::pair<size_t, size_t>& idx_axiom_action : idx_params) {
+      const Object& action_arg = action_args[idx_axiom_action.second];
+      if (axiom_args[idx_axiom_action.first] != action_arg) return nullptr;
+    }
+    for (const std::pair<size_t, Object>& idx_constant : constant_args) {
+      if (axiom_args[idx_constant.first] != idx_constant.second) return nullptr;
+    }
+
+    // Check that axiom args match the axiom param types.
+    for (size_t i = 0; i < axiom_params.size(); i++) {
+      if (!axiom_args[i].type().IsSubtype(axiom_params[i].type())) {
+        return nullptr;
+      }
+    }
     return &axiom_args;
   };
 }
-- 
2.43.0


From 9a6bb014b5da0d3efc8f57c4343ca4a9cff78a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:21 +0000
Subject: [PATCH 09/29] fix: keep axiom arguments when an axiom triggers itself

The arguments of a triggered axiom live in a buffer shared by all calls of
its application function, so an axiom whose effects trigger it again for
other objects applied its remaining effects to the wrong objects.
---
 src/action.cc | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/action.cc b/src/action.cc
index 47e0ed1..edca017 100644
--- a/src/action.cc
+++ b/src/action.cc
@@ -150,15 +150,17 @@ EffectsFunction<T> CreateAdd(const Pddl& pddl, const VAL::simple_effect* effect,
     for (const auto& axiom_apply : axioms) {
       const Axiom& axiom = *axiom_apply.first.lock();
       const AxiomApplicationFunction& AxiomApply = axiom_apply.second;
-      const std::vector<Object>* axiom_args = AxiomApply(arguments);
+      const std::vector<Object>* ptr_axiom_args = AxiomApply(arguments);
 
       // std::cout << axiom << std::endl;
-      if (axiom_args == nullptr) continue;
+      if (ptr_axiom_args == nullptr) continue;
+
+      // Copy the args, since the axiom may be triggered again by its effects.
+      const std::vector<Object> axiom_args = *ptr_axiom_args;
 
       // std::cout << "+" << *name_predicate << ": " << *axiom_args <<
       // std::endl; std::cout << "[" << *state << std::endl;
-      status =
-          std::max<int>(status, axiom.Action::Apply(*axiom_args, state));
+      status = std::max<int>(status, axiom.Action::Apply(axiom_args, state));
       // std::cout << "]" << *state << std::endl << std::endl;
     }
     return status;
@@ -240,15 +242,17 @@ EffectsFunction<T> CreateDel(const Pddl& pddl, const VAL::simple_effect* effect,
     for (const auto& axiom_apply : axioms) {
       const Axiom& axiom = *axiom_apply.first.lock();
       const AxiomApplicationFunction& AxiomApply = axiom_apply.second;
-      const std::vector<Object>* axiom_args = AxiomApply(arguments);
+      const std::vector<Object>* ptr_axiom_args = AxiomApply(arguments);
 
       // std::cout << axiom << std::endl;
-      if (axiom_args == nullptr) continue;
+      if (ptr_axiom_args == nullptr) continue;
+
+      // Copy the args, since the axiom may be triggered again by its effects.
+      const std::vector<Object> axiom_args = *ptr_axiom_args;
 
       // std::cout << "-" << *name_predicate << ": " << *axiom_args <<
       // std::endl; std::cout << "[" << *state << std::endl;
-      status =
-          std::max<int>(status, axiom.Action::Apply(*axiom_args, state));
+      status = std::max<int>(status, axiom.Action::Apply(axiom_args, state));
       // std::cout << "]" << *state << std::endl << std::endl;
     }
     return status;
-- 
2.43.0


From 85cd3dd3be37f0191694f972906d8da63712c30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:50 +0000
Subject: [PATCH 10/29] fix: keep true and false apart when disjoining and
 negating normal forms

Disjoin dropped true terms (empty formulas) and turned a disjunction without
satisfiable terms into true; the negation of true was true.
---
 src/normal_form.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/normal_form.cc b/src/normal_form.cc
index f178b0c..72c276c 100644
--- a/src/normal_form.cc
+++ b/src/normal_form.cc
@@ -191,10 +191,17 @@ std::optional<DisjunctiveFormula> Disjoin(
     bool apply_axioms) {
   DisjunctiveFormula disj;
   for (DisjunctiveFormula& dnf : dnfs) {
+    // Term is true: short-circuit disjunction and return empty formula
+    if (dnf.empty()) return DisjunctiveFormula();
+
     disj.conjunctions.insert(disj.conjunctions.end(),
                              std::make_move_iterator(dnf.conjunctions.begin()),
                              std::make_move_iterator(dnf.conjunctions.end()));
   }
+
+  // If there are no terms, the disjunction is false: return null
+  if (disj.empty()) return {};
+
   return Simplify(pddl, std::move(disj), apply_axioms);
 }
 
@@ -261,6 +268,9 @@ std::optional<DisjunctiveFormula> DisjunctiveFormula::Create(
 
 std::optional<DisjunctiveFormula> Negate(const Pddl& pddl,
                                          DisjunctiveFormula&& dnf) {
+  // Formula is true, so its negation is false: return null
+  if (dnf.empty()) return {};
+
   // !((a & b) | (c & d) | (e & f))
 
   // ((!a & !b) | (!c & !d) | (!e & !f))
-- 
2.43.0


From 6bbbe6eff7941e73279031f9202621a8de47f6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:50 +0000
Subject: [PATCH 11/29] fix: keep conditional effects whose condition is always
 true in the normal form

Only conditions simplified to the empty formula were recognised as always
true; effects of other tautological conditions were dropped.
---
 src/normal_form.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/normal_form.cc b/src/normal_form.cc
index 72c276c..43a25be 100644
--- a/src/normal_form.cc
+++ b/src/normal_form.cc
@@ -454,7 +454,8 @@ std::optional<DisjunctiveFormula> DisjunctiveFormula::Create(
     std::optional<DisjunctiveFormula> result =
         Create(pddl, effect->getEffects(), parameters, arguments);
 
-    if (condition->empty()) {
+    condition = Negate(pddl, std::move(*condition));
+    if (!condition.has_value()) {
       // Condition always true
       if (!result.has_value()) {
         // Result always false
@@ -466,9 +467,6 @@ std::optional<DisjunctiveFormula> DisjunctiveFormula::Create(
       continue;
     }
 
-    condition = Negate(pddl, std::move(*condition));
-    if (!condition.has_value()) continue;  // Axiom violated
-
     if (!result.has_value()) {
       // Result always false, so return neg condition
       dnfs.push_back(std::move(*condition));
-- 
2.43.0


From 40a3c355f32cb53c19617f101de312fccdbacddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:23 +0000
Subject: [PATCH 12/29] fix: step planner node iterators back over actions
 without instances

operator-- decremented the past-the-end iterator of empty parameter
generators.
---
 src/planning/planner.cc | 32 +++++++-------------------------
 1 file changed, 7 insertions(+), 25 deletions(-)

diff --git a/src/planning/planner.cc b/src/planning/planner.cc
index 9cc9e63..d2ca57e 100644
--- a/src/planning/planner.cc
+++ b/src/planning/planner.cc
@@ -183,36 +183,18 @@ Planner::Node::iterator& Planner::Node::iterator::operator++() {
 }
 
 Planner::Node::iterator& Planner::Node::iterator::operator--() {
-  if (it_action_ == pddl_.actions().end()) {
-    --it_action_;
-    const Action& action = *it_action_;
-    it_param_ = it_action_->parameter_generator().end();
-    --it_param_;
-
-    // Check action preconditions
-    const std::vector<Object>& arguments = *it_param_;
-    if (action.IsValid(parent_.state(), arguments)) {
-      // Set action and apply postconditions to child
-      State state = action.Apply(parent_.state(), arguments);
-      DerivedPredicate::Apply(pddl_.derived_predicates(), &state);
-      child_ =
-          Node(parent_, child_, std::move(state), action.to_string(arguments));
-
-      // Return if state hasn't been previously visited
-      const std::shared_ptr<const Planner::Node::NodeImpl::Cache> ancestors =
-          child_->ancestors_;
-      if (ancestors->count(child_) == 0) return *this;
-    }
-  }
-
-  while (it_action_ != pddl_.actions().begin() ||
-         it_param_ != it_action_->parameter_generator().begin()) {
-    if (it_param_ == it_action_->parameter_generator().begin()) {
+  const std::vector<Action>& actions = pddl_.actions();
+  while (it_action_ != actions.begin() ||
+         (it_action_ != actions.end() &&
+          it_param_ != it_action_->parameter_generator().begin())) {
+    if (it_action_ == actions.end() ||
+        it_param_ == it_action_->parameter_generator().begin()) {
       // Move onto next action
       --it_action_;
 
       // Generate new parameters
       it_param_ = it_action_->parameter_generator().end();
+      if (it_param_ == it_action_->parameter_generator().begin()) continue;
       --it_param_;
     } else {
       // Move onto next parameters
-- 
2.43.0


From c2da4922e568470a75e03d4971e634db6c9fa1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:44 +0000
Subject: [PATCH 13/29] fix: expand planner nodes of a domain without actions

The node iterator dereferenced the first action of an empty list.
---
 src/planning/planner.cc | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/planning/planner.cc b/src/planning/planner.cc
index d2ca57e..8db6b6a 100644
--- a/src/planning/planner.cc
+++ b/src/planning/planner.cc
@@ -17,6 +17,23 @@
 #include <unordered_set>  // std::unordered_set
 #endif                    // SYMBOLIC_PLANNER_USE_ORDERED_CACHE
 
+namespace {
+
+using ::symbolic::Action;
+using ::symbolic::ParameterGenerator;
+
+/**
+ * First parameters of the first action, or no parameters without actions.
+ */
+ParameterGenerator::const_iterator FirstParameters(
+    const std::vector<Action>& actions) {
+  static const ParameterGenerator kNoParameters;
+  return actions.empty() ? kNoParameters.begin()
+                         : actions.front().parameter_generator().begin();
+}
+
+}  // namespace
+
 namespace symbolic {
 
 struct Planner::Node::NodeImpl {
@@ -143,7 +160,7 @@ Planner::Node::iterator::iterator(const Node& parent)
     : pddl_(parent->pddl_),
       parent_(parent),
       it_action_(pddl_.actions().begin()),
-      it_param_(it_action_->parameter_generator().begin()) {}
+      it_param_(FirstParameters(pddl_.actions())) {}
 
 Planner::Node::iterator& Planner::Node::iterator::operator++() {
   while (it_action_ != pddl_.actions().end()) {
-- 
2.43.0


From d9c300bbc9a4040f2b7f67cf95f95b17b549ef47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:12 +0000
Subject: [PATCH 14/29] fix: list the constants of a domain loaded without a
 problem

---
 src/pddl.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pddl.cc b/src/pddl.cc
index 9c220bf..806e149 100644
--- a/src/pddl.cc
+++ b/src/pddl.cc
@@ -282,6 +282,7 @@ Pddl::Pddl(const std::string& domain_pddl, const std::string& problem_pddl,
 Pddl::Pddl(const std::string& domain_pddl)
     : analysis_(ParsePddl(domain_pddl, "")),
       domain_pddl_(domain_pddl),
+      constants_(GetObjects(*analysis_->the_domain)),
       objects_(GetObjects(*analysis_->the_domain)),
       object_map_(CreateObjectTypeMap(objects_)),
       axioms_(GetAxioms(*this, *analysis_->the_domain)),
-- 
2.43.0


From 3a2fe773d8f62863e28701a3b958cf8af3ba3e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:12 +0000
Subject: [PATCH 15/29] fix: load the domain alone when the problem string is
 empty

---
 src/pddl.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/pddl.cc b/src/pddl.cc
index 806e149..363ff13 100644
--- a/src/pddl.cc
+++ b/src/pddl.cc
@@ -259,9 +259,13 @@ Pddl::Pddl(const std::string& domain_pddl, const std::string& problem_pddl,
       predicates_(GetPredicates(*this, *analysis_->the_domain)),
       derived_predicates_(GetDerivedPredicates(*this, *analysis_->the_domain)),
       state_index_(predicates_),
-      initial_state_(
-          GetInitialState(*analysis_->the_domain, *analysis_->the_problem)),
-      goal_(*this, analysis_->the_problem->the_goal) {
+      initial_state_(analysis_->the_problem == nullptr
+                         ? State()
+                         : GetInitialState(*analysis_->the_domain,
+                                           *analysis_->the_problem)),
+      goal_(analysis_->the_problem == nullptr
+                ? Formula()
+                : Formula(*this, analysis_->the_problem->the_goal)) {
   // Create axiom map after initialization list to avoid conflicts with
   // GetAxioms(), which accesses the axiom map during the construction of DNFs.
   axiom_map_ = CreateAxiomContextMap(axioms());
@@ -274,7 +278,7 @@ Pddl::Pddl(const std::string& domain_pddl, const std::string& problem_pddl,
   // Create actions after all axioms have settled.
   actions_ = GetActions(*this, *analysis_->the_domain);
 
-  if (apply_axioms) {
+  if (apply_axioms && analysis_->the_problem != nullptr) {
     initial_state_ = ConsistentState(initial_state_);
   }
 }
-- 
2.43.0


From 6706485bd3372b58772941649b48547c5dea3607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:45 +0000
Subject: [PATCH 16/29] fix: add objects to domains without types

---
 src/pddl.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pddl.cc b/src/pddl.cc
index 363ff13..b62045a 100644
--- a/src/pddl.cc
+++ b/src/pddl.cc
@@ -520,10 +520,12 @@ std::vector<std::string> Pddl::ListValidActions(
 
 void Pddl::AddObject(const std::string& name, const std::string& type) {
   VAL::const_symbol* symbol = new VAL::const_symbol(name);
-  for (VAL::pddl_type* type_symbol : *analysis_->the_domain->types) {
-    if (type_symbol->getName() != type) continue;
-    symbol->type = type_symbol;
-    break;
+  if (analysis_->the_domain->types != nullptr) {
+    for (VAL::pddl_type* type_symbol : *analysis_->the_domain->types) {
+      if (type_symbol->getName() != type) continue;
+      symbol->type = type_symbol;
+      break;
+    }
   }
   analysis_->the_problem->objects->push_back(symbol);
   objects_.emplace_back(*this, symbol);
-- 
2.43.0


From 24b5948056b81c2d0c176ade17448cc426bcc517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:56 +0000
Subject: [PATCH 17/29] fix: drop removed constants from the domain

---
 src/pddl.cc | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/pddl.cc b/src/pddl.cc
index b62045a..80dd028 100644
--- a/src/pddl.cc
+++ b/src/pddl.cc
@@ -537,10 +537,19 @@ void Pddl::RemoveObject(const std::string& name) {
     const VAL::pddl_typed_symbol* symbol = it->symbol();
     objects_.erase(it);
 
-    VAL::const_symbol_list* objects = analysis_->the_problem->objects;
-    for (auto itt = objects->begin(); itt != objects->end(); ++itt) {
-      if ((*itt)->getNameRef() != name) continue;
-      objects->erase(itt);
+    // The object may be a constant, declared in the domain.
+    for (VAL::const_symbol_list* symbols :
+         {analysis_->the_problem->objects, analysis_->the_domain->constants}) {
+      if (symbols == nullptr) continue;
+      for (auto itt = symbols->begin(); itt != symbols->end(); ++itt) {
+        if (*itt != symbol) continue;
+        symbols->erase(itt);
+        break;
+      }
+    }
+    for (auto itt = constants_.begin(); itt != constants_.end(); ++itt) {
+      if (itt->symbol() != symbol) continue;
+      constants_.erase(itt);
       break;
     }
 
-- 
2.43.0


From e4872edbca73e64df7c64e957064033363e3a58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:12 +0000
Subject: [PATCH 18/29] fix: keep objects listed by type when adding and
 removing objects

---
 src/pddl.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pddl.cc b/src/pddl.cc
index 80dd028..b0834a0 100644
--- a/src/pddl.cc
+++ b/src/pddl.cc
@@ -529,6 +529,7 @@ void Pddl::AddObject(const std::string& name, const std::string& type) {
   }
   analysis_->the_problem->objects->push_back(symbol);
   objects_.emplace_back(*this, symbol);
+  object_map_ = CreateObjectTypeMap(objects_);
 }
 
 void Pddl::RemoveObject(const std::string& name) {
@@ -536,6 +537,7 @@ void Pddl::RemoveObject(const std::string& name) {
     if (it->name() != name) continue;
     const VAL::pddl_typed_symbol* symbol = it->symbol();
     objects_.erase(it);
+    object_map_ = CreateObjectTypeMap(objects_);
 
     // The object may be a constant, declared in the domain.
     for (VAL::const_symbol_list* symbols :
-- 
2.43.0


From 448edbbd643d5197a103873e56f60a51682810bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:05 +0000
Subject: [PATCH 19/29] fix: parse propositions without arguments as having
 none

---
 symbolic/problem.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/symbolic/problem.py b/symbolic/problem.py
index 518dee6..e91e74b 100644
--- a/symbolic/problem.py
+++ b/symbolic/problem.py
@@ -64,8 +64,8 @@ def parse_proposition(str_prop: str) -> Tuple[str, List[str]]:
     if matches is None:
         raise ValueError(f"Unable to parse proposition from '{str_prop}'.")
     name_pred = matches.group(1)
-    str_args = matches.group(2).replace(" ", "").split(",")
-    return name_pred, str_args
+    str_args = matches.group(2).replace(" ", "")
+    return name_pred, str_args.split(",") if str_args else []
 
 
 def parse_head(str_prop: str) -> str:
@@ -86,8 +86,8 @@ def parse_args(str_prop: str) -> List[str]:
     matches = re.match(r"[^\(]*\(([^\)]*)", str_prop)
     if matches is None:
         raise ValueError(f"Unable to parse objects from '{str_prop}'.")
-    str_args = matches.group(1).replace(" ", "").split(",")
-    return str_args
+    str_args = matches.group(1).replace(" ", "")
+    return str_args.split(",") if str_args else []
 
 
 def pprint_formula(strings: Union[str, List], indent: int = 0) -> str:
-- 
2.43.0


From ea47ca2118f7fe6a85c5a6f5c194096351125e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:54 +0000
Subject: [PATCH 20/29] fix: print quantified variables of Python formulas in
 parentheses

---
 symbolic/problem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symbolic/problem.py b/symbolic/problem.py
index e91e74b..2164e82 100644
--- a/symbolic/problem.py
+++ b/symbolic/problem.py
@@ -41,12 +41,12 @@ def _not(formulas: Formula):
 
 def _forall(var: str, var_type: str, formula: Formula):
     var_obj = Object(f"?{var}", var_type)
-    return create_group(f"forall {var_obj}", formula)
+    return create_group(f"forall ({var_obj})", formula)
 
 
 def _exists(var: str, var_type: str, formula: Formula):
     var_obj = Object(f"?{var}", var_type)
-    return create_group(f"exists {var_obj}", formula)
+    return create_group(f"exists ({var_obj})", formula)
 
 
 def _when(condition: Formula, implies: Formula):
-- 
2.43.0


From 61514e9358715cf0a510a44049aaf2a9543ac348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:55 +0000
Subject: [PATCH 21/29] fix: keep untyped objects of a Python problem untyped

---
 symbolic/problem.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/symbolic/problem.py b/symbolic/problem.py
index 2164e82..bbe258e 100644
--- a/symbolic/problem.py
+++ b/symbolic/problem.py
@@ -131,7 +131,15 @@ class Problem:
 
     @property
     def objects(self) -> List[Union[str, Sequence[str]]]:
-        return create_group(":objects", list(map(str, self._objects)))
+        # An untyped object would take the type of the next typed one.
+        is_typed = any(obj.type for obj in self._objects)
+        return create_group(
+            ":objects",
+            [
+                f"{obj} - object" if is_typed and not obj.type else str(obj)
+                for obj in self._objects
+            ],
+        )
 
     @property
     def initial_state(self) -> List[Union[str, Sequence[str]]]:
-- 
2.43.0


From 99839d1d636f757aeb4ec98971fcdff42d2dcae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:57 +0000
Subject: [PATCH 22/29] fix: do not take a constant for the parameter with its
 name

---
 src/axiom.cc   | 23 +++++++++++++++--------
 src/formula.cc |  5 +++++
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/axiom.cc b/src/axiom.cc
index e0dddc1..c79fc9a 100644
--- a/src/axiom.cc
+++ b/src/axiom.cc
@@ -11,6 +11,7 @@
 
 #include <VAL/ptree.h>
 
+#include <algorithm>  // std::find
 #include <exception>  // std::domain_error
 #include <sstream>    // std::stringstream
 
@@ -104,6 +105,18 @@ SignedProposition ExtractContextPredicate(const Pddl& pddl,
   return SignedProposition(name_predicate, std::move(args), is_pos);
 }
 
+/**
+ * Finds the parameter with the name of the proposition's argument. A constant
+ * is not a parameter, even if it has the same name.
+ */
+size_t FindParameter(const std::vector<Object>& params,
+                     const Object& prop_param) {
+  if (dynamic_cast<const VAL::const_symbol*>(prop_param.symbol()) != nullptr) {
+    return params.size();
+  }
+  return std::find(params.begin(), params.end(), prop_param) - params.begin();
+}
+
 }  // namespace
 
 namespace symbolic {
@@ -251,18 +264,12 @@ std::optional<AxiomApplicationFunction> Axiom::CreateApplicationFunction(
   for (size_t idx_prop = 0; idx_prop < num_prop_params; idx_prop++) {
     // Check if axiom prop param has corresponding axiom param.
     const Object& axiom_prop_param = axiom_prop_params[idx_prop];
-    size_t i = 0;
-    for (; i < axiom_params.size(); i++) {
-      if (axiom_params[i] == axiom_prop_param) break;
-    }
+    const size_t i = FindParameter(axiom_params, axiom_prop_param);
     const bool is_axiom_prop_arg = i == axiom_params.size();
 
     // Check if action prop param has corresponding action param.
     const Object& action_prop_param = action_prop_params[idx_prop];
-    size_t j = 0;
-    for (; j < action_params.size(); j++) {
-      if (action_params[j] == action_prop_param) break;
-    }
+    const size_t j = FindParameter(action_params, action_prop_param);
     const bool is_action_prop_arg = j == action_params.size();
 
     if (is_axiom_prop_arg && is_action_prop_arg) {
diff --git a/src/formula.cc b/src/formula.cc
index 88abcbd..76e4a78 100644
--- a/src/formula.cc
+++ b/src/formula.cc
@@ -388,6 +388,11 @@ ApplicationFunction Formula::CreateApplicationFunction(
   // List of (prop parameter index, action parameter index) pairs.
   std::vector<std::pair<size_t, size_t>> idx_params;
   for (size_t i = 0; i < prop_params.size(); i++) {
+    // A constant is not a parameter, even if it has the same name.
+    if (dynamic_cast<const VAL::const_symbol*>(prop_params[i].symbol()) !=
+        nullptr) {
+      continue;
+    }
     for (size_t j = 0; j < action_params.size(); j++) {
       if (prop_params[i] == action_params[j]) {
         idx_params.emplace_back(i, j);
-- 
2.43.0


From b028eb7965cb8cfbd984cb7deec7268881f83d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:31 +0000
Subject: [PATCH 23/29] fix: tasks without objects or without a problem can be
 queried and extended

---
 src/object.cc |  5 ++---
 src/pddl.cc   | 13 +++++++++++--
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/object.cc b/src/object.cc
index 69091a1..dafaf88 100644
--- a/src/object.cc
+++ b/src/object.cc
@@ -12,7 +12,6 @@
 #include <VAL/ptree.h>
 
 #include <algorithm>  // std::min, std::replace
-#include <cassert>    // assert
 #include <sstream>    // std::stringstream
 
 #include "symbolic/pddl.h"
@@ -43,8 +42,8 @@ const VAL::const_symbol* GetSymbol(const Pddl& pddl,
       if (obj->getName() == name_object) return obj;
     }
   }
-  if (pddl.symbol()->the_problem != nullptr) {
-    assert(pddl.symbol()->the_problem->objects != nullptr);
+  if (pddl.symbol()->the_problem != nullptr &&
+      pddl.symbol()->the_problem->objects != nullptr) {
     for (const VAL::const_symbol* obj : *pddl.symbol()->the_problem->objects) {
       if (obj == nullptr) continue;
       if (obj->getName() == name_object) return obj;
diff --git a/src/pddl.cc b/src/pddl.cc
index b0834a0..a6b17a3 100644
--- a/src/pddl.cc
+++ b/src/pddl.cc
@@ -527,7 +527,14 @@ void Pddl::AddObject(const std::string& name, const std::string& type) {
       break;
     }
   }
-  analysis_->the_problem->objects->push_back(symbol);
+  // The problem may declare no objects, and a domain alone has only constants.
+  const bool is_constant = analysis_->the_problem == nullptr;
+  VAL::const_symbol_list*& symbols = is_constant
+                                         ? analysis_->the_domain->constants
+                                         : analysis_->the_problem->objects;
+  if (symbols == nullptr) symbols = new VAL::const_symbol_list();
+  symbols->push_back(symbol);
+  if (is_constant) constants_.emplace_back(*this, symbol);
   objects_.emplace_back(*this, symbol);
   object_map_ = CreateObjectTypeMap(objects_);
 }
@@ -541,7 +548,9 @@ void Pddl::RemoveObject(const std::string& name) {
 
     // The object may be a constant, declared in the domain.
     for (VAL::const_symbol_list* symbols :
-         {analysis_->the_problem->objects, analysis_->the_domain->constants}) {
+         {analysis_->the_problem == nullptr ? nullptr
+                                            : analysis_->the_problem->objects,
+          analysis_->the_domain->constants}) {
       if (symbols == nullptr) continue;
       for (auto itt = symbols->begin(); itt != symbols->end(); ++itt) {
         if (*itt != symbol) continue;
-- 
2.43.0


From acc8533674dfc1589c945a9ae6968dc495b53212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:34 +0000
Subject: [PATCH 24/29] fix: trigger axioms by the innermost parameter of a
 name

---
 src/axiom.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/axiom.cc b/src/axiom.cc
index c79fc9a..b86459e 100644
--- a/src/axiom.cc
+++ b/src/axiom.cc
@@ -106,15 +106,18 @@ SignedProposition ExtractContextPredicate(const Pddl& pddl,
 }
 
 /**
- * Finds the parameter with the name of the proposition's argument. A constant
- * is not a parameter, even if it has the same name.
+ * Finds the innermost parameter with the name of the proposition's argument. A
+ * constant is not a parameter, even if it has the same name.
  */
 size_t FindParameter(const std::vector<Object>& params,
                      const Object& prop_param) {
   if (dynamic_cast<const VAL::const_symbol*>(prop_param.symbol()) != nullptr) {
     return params.size();
   }
-  return std::find(params.begin(), params.end(), prop_param) - params.begin();
+  // Parameters of inner quantifiers come after those of outer ones.
+  const auto it = std::find(params.rbegin(), params.rend(), prop_param);
+  if (it == params.rend()) return params.size();
+  return params.rend() - it - 1;
 }
 
 }  // namespace
-- 
2.43.0


From 2e22f4200b9ad7afb1cdda1cd1bd4186fc06d536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:02 +0000
Subject: [PATCH 25/29] fix: combination generators over more than INT_MAX
 combinations

Indices of combinations were kept in int, so that with 2^32 combinations begin()
equalled end() and e.g. a forall over such a product held vacuously.
---
 .../symbolic/utils/combination_generator.h    | 25 ++++++++++---------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/include/symbolic/utils/combination_generator.h b/include/symbolic/utils/combination_generator.h
index 12694e2..d032f26 100644
--- a/include/symbolic/utils/combination_generator.h
+++ b/include/symbolic/utils/combination_generator.h
@@ -112,7 +112,7 @@ class CombinationGenerator {
   /**
    * Access specified element with wrapping and bounds checking.
    */
-  typename iterator::value_type at(int i) const {
+  typename iterator::value_type at(ptrdiff_t i) const {
     // Wrap around negative indices
     if (i < 0) i += size();
 
@@ -128,14 +128,14 @@ class CombinationGenerator {
   /**
    * Access specified element without bounds checking.
    */
-  typename iterator::value_type operator[](int i) const {
+  typename iterator::value_type operator[](ptrdiff_t i) const {
     return *(begin() + i);
   }
 
   /**
    * Get index of given combination.
    */
-  int find(const typename iterator::value_type& combination) const {
+  ptrdiff_t find(const typename iterator::value_type& combination) const {
     assert(combination.size() == options_.size());
     size_t idx = 0;
 
@@ -220,7 +220,8 @@ class CombinationGenerator<ContainerT>::Iterator {
   using reference = const value_type&;
 
   // Constructor
-  Iterator(const CombinationGenerator* gen, int idx) : gen_(gen), idx_(idx) {
+  Iterator(const CombinationGenerator* gen, difference_type idx)
+      : gen_(gen), idx_(idx) {
     UpdateCombination();
   }
 
@@ -306,10 +307,10 @@ class CombinationGenerator<ContainerT>::Iterator {
     const size_t num_options = gen_->options_.size();
     if (combination_.empty()) combination_.resize(num_options);
 
-    int remaining = idx_;
+    difference_type remaining = idx_;
     for (size_t i = 0; i < num_options; i++) {
       // Compute the index for the current bin
-      int idx_i = remaining / gen_->size_groups_[i];
+      difference_type idx_i = remaining / gen_->size_groups_[i];
       remaining -= idx_i * gen_->size_groups_[i];
 
       // Set the value
@@ -323,7 +324,7 @@ class CombinationGenerator<ContainerT>::Iterator {
    *
    * Sets values only for elements where idx_ differs from idx_new.
    */
-  void UpdateCombination(int idx_new) {
+  void UpdateCombination(difference_type idx_new) {
     // Do nothing if the index is unchanged
     if (idx_ == idx_new) return;
 
@@ -345,12 +346,12 @@ class CombinationGenerator<ContainerT>::Iterator {
     const size_t num_options = gen_->options_.size();
     if (combination_.empty()) combination_.resize(num_options);
 
-    int remaining = idx_;
-    int remaining_new = idx_new;
+    difference_type remaining = idx_;
+    difference_type remaining_new = idx_new;
     for (size_t i = 0; i < num_options; i++) {
       // Compute the index for the current bin
-      int idx_i = remaining / gen_->size_groups_[i];
-      int idx_i_new = remaining_new / gen_->size_groups_[i];
+      difference_type idx_i = remaining / gen_->size_groups_[i];
+      difference_type idx_i_new = remaining_new / gen_->size_groups_[i];
       remaining -= idx_i * gen_->size_groups_[i];
       remaining_new -= idx_i_new * gen_->size_groups_[i];
 
@@ -366,7 +367,7 @@ class CombinationGenerator<ContainerT>::Iterator {
 
   const CombinationGenerator* gen_ = nullptr;
   std::vector<ValueT> combination_;
-  int idx_;
+  difference_type idx_;
 
   friend class CombinationGenerator;
 };
-- 
2.43.0


From 7b635ce9c80a032eac42132361f94ef747c5d07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:37 +0000
Subject: [PATCH 26/29] fix: Python lists of axioms took over the shared axioms

Pddl.axioms returns shared pointers, so Axiom must be registered with a shared
holder.
---
 src/python/symbolic.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/symbolic.cc b/src/python/symbolic.cc
index b248614..f4e638f 100644
--- a/src/python/symbolic.cc
+++ b/src/python/symbolic.cc
@@ -405,7 +405,7 @@ PYBIND11_MODULE(pysymbolic, m) {
        )pbdoc");
 
   // Axiom
-  py::class_<Axiom>(m, "Axiom")
+  py::class_<Axiom, std::shared_ptr<Axiom>>(m, "Axiom")
       .def("is_consistent",
            static_cast<bool (Axiom::*)(const State&) const>(
                &Axiom::IsConsistent),
-- 
2.43.0


From 2f14bd95a6bb21fa83e319180eaeb2f8197e0a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:37 +0000
Subject: [PATCH 27/29] fix: DerivedPredicate.__repr__ in Python accepted only
 axioms

---
 src/python/symbolic.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/symbolic.cc b/src/python/symbolic.cc
index f4e638f..116ed28 100644
--- a/src/python/symbolic.cc
+++ b/src/python/symbolic.cc
@@ -459,9 +459,9 @@ PYBIND11_MODULE(pysymbolic, m) {
                   [](const DerivedPredicate& pred) {
                     // TODO
                   })
-      .def("__repr__", [](const Axiom& axiom) {
+      .def("__repr__", [](const DerivedPredicate& pred) {
         std::stringstream ss;
-        ss << axiom;
+        ss << pred;
         return ss.str();
       });
 
-- 
2.43.0


From a68c326df4547121f53ac5e8cc5c0152eb962165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:37 +0000
Subject: [PATCH 28/29] fix: truth value of ParameterGenerator in Python was
 inverted

---
 src/python/symbolic.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/python/symbolic.cc b/src/python/symbolic.cc
index 116ed28..bcd86ab 100644
--- a/src/python/symbolic.cc
+++ b/src/python/symbolic.cc
@@ -474,7 +474,10 @@ PYBIND11_MODULE(pysymbolic, m) {
   py::class_<ParameterGenerator>(m, "ParameterGenerator")
       .def("__getitem__", &ParameterGenerator::at)
       .def("__len__", &ParameterGenerator::size)
-      .def("__nonzero__", &ParameterGenerator::empty)
+      .def("__bool__",
+           [](const ParameterGenerator& param_gen) {
+             return !param_gen.empty();
+           })
       .def(
           "__iter__",
           [](ParameterGenerator& param_gen) {
-- 
2.43.0


From 2ab989fd439758bef33d1cd0286ae65a748a6ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:37 +0000
Subject: [PATCH 29/29] fix: unpickled Pddl referred to a destroyed temporary
 and lost its edits

The restored Pddl was moved out of a temporary that its propositions, actions
etc. kept pointing to; objects and the initial state changed since parsing and
apply_axioms=False were lost.
---
 src/python/symbolic.cc | 47 +++++++++++++++++++++++++++++++++++++-----
 1 file changed, 42 insertions(+), 5 deletions(-)

diff --git a/src/python/symbolic.cc b/src/python/symbolic.cc
index bcd86ab..3dea1a2 100644
--- a/src/python/symbolic.cc
+++ b/src/python/symbolic.cc
@@ -14,8 +14,11 @@
 #include <pybind11/pybind11.h>
 #include <pybind11/stl.h>
 
+#include <algorithm>  // std::find
 #include <exception>  // std::out_of_range
+#include <memory>     // std::make_unique, std::shared_ptr
 #include <sstream>    // std::stringstream
+#include <utility>    // std::pair
 
 #include "symbolic/normal_form.h"
 #include "symbolic/pddl.h"
@@ -31,6 +34,7 @@ using ::symbolic::State;
 
 using StringSet = std::set<std::string>;
 using StringVector = std::vector<std::string>;
+using ObjectTypeVector = std::vector<std::pair<std::string, std::string>>;
 
 State ParseState(const Pddl& pddl, const StringSet& str_state) {
   State state;
@@ -51,6 +55,31 @@ std::vector<Object> ParseObjects(const Pddl& pddl,
   return objects;
 }
 
+ObjectTypeVector ObjectTypes(const Pddl& pddl) {
+  ObjectTypeVector object_types;
+  object_types.reserve(pddl.objects().size());
+  for (const Object& object : pddl.objects()) {
+    object_types.emplace_back(object.name(), object.type().name());
+  }
+  return object_types;
+}
+
+void RestoreObjects(const ObjectTypeVector& object_types, Pddl* pddl) {
+  const ObjectTypeVector parsed_object_types = ObjectTypes(*pddl);
+  const auto contains = [](const ObjectTypeVector& v,
+                           const ObjectTypeVector::value_type& val) {
+    return std::find(v.begin(), v.end(), val) != v.end();
+  };
+  for (const auto& name_type : parsed_object_types) {
+    if (contains(object_types, name_type)) continue;
+    pddl->RemoveObject(name_type.first);
+  }
+  for (const auto& name_type : object_types) {
+    if (contains(parsed_object_types, name_type)) continue;
+    pddl->AddObject(name_type.first, name_type.second);
+  }
+}
+
 struct BreadthFirstSearch {
   BreadthFirstSearch(const Planner::Node& root, size_t max_depth, bool verbose,
                      double timeout)
@@ -323,12 +352,20 @@ PYBIND11_MODULE(pysymbolic, m) {
            })
       .def(py::pickle(
           [](const Pddl& pddl) {
-            return py::make_tuple(pddl.domain_pddl(), pddl.problem_pddl());
+            // The objects and initial state may differ from the parsed ones.
+            return py::make_tuple(pddl.domain_pddl(), pddl.problem_pddl(),
+                                  ObjectTypes(pddl),
+                                  Stringify(pddl.initial_state()));
           },
-          [](const py::tuple& domain_problem) {
-            const auto domain = domain_problem[0].cast<std::string>();
-            const auto problem = domain_problem[1].cast<std::string>();
-            return Pddl(domain, problem);
+          [](const py::tuple& t) {
+            // Propositions, actions, etc. refer to their Pddl, so it must not
+            // be moved after construction.
+            auto pddl = std::make_unique<Pddl>(t[0].cast<std::string>(),
+                                               t[1].cast<std::string>(), false);
+            RestoreObjects(t[2].cast<ObjectTypeVector>(), pddl.get());
+            pddl->set_initial_state(
+                ParseState(*pddl, t[3].cast<StringSet>()));
+            return pddl;
           }));
 
   // Object::Type
-- 
2.43.0

