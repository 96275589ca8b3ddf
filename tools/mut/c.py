BF="include/symbolic/planning/breadth_first_search.h"
DF="include/symbolic/planning/depth_first_search.h"
AS="include/symbolic/planning/a_star.h"
CG="include/symbolic/utils/combination_generator.h"
HS="include/symbolic/utils/hash_set.h"
UV="include/symbolic/utils/unique_vector.h"
SH="include/symbolic/state.h"; PH="include/symbolic/proposition.h"; OH="include/symbolic/object.h"; AH="include/symbolic/action.h"
FC="src/formula.cc"; AC="src/action.cc"; AX="src/axiom.cc"; PC="src/pddl.cc"; NF="src/normal_form.cc"; PL="src/planning/planner.cc"
OC="src/object.cc"; SC="src/state.cc"; DP="src/derived_predicate.cc"; PG="src/utils/parameter_generator.cc"; PR="src/proposition.cc"; PY="symbolic/problem.py"
M=[
("bfs-clock-second","P32",[(BF,"  while (!queue_.empty()) {\n    // Abort","  size_t steps = 0;\n  while (!queue_.empty()) {\n    // Abort"),(BF,"if (bfs_->timeout_.count() > 0 &&\n        std::chrono","if (bfs_->timeout_.count() > 0 && ++steps % 2 == 0 &&\n        std::chrono")]),
("state-insert-last","P06 P07",[(SH,"is_changed |= insert(*it);","is_changed = insert(*it);")]),
("uv-init-back","P05",[(UV,"  Base::erase(last, Base::end());\n  assert","  if (last != Base::end()) Base::pop_back();\n  assert")]),
("uv-erase-last","P05",[(UV,"  Base::erase(it);\n  return true;","  if (it + 1 == Base::end()) { Base::pop_back(); return Base::empty() || true; }\n  std::swap(*it, Base::back()); Base::pop_back(); std::sort(it, Base::end() - (Base::size() > 5 ? 1 : 0));\n  return true;")]),
("hs-grow-late","P06",[(HS,"if (size() > buckets_.size()) Rehash(UpperBound());\n    }\n    return inserted;\n  }\n\n  bool insert(T&&","if (size() > buckets_.size()) Rehash(size() == 8 ? UpperBound() + 1 : UpperBound());\n    }\n    return inserted;\n  }\n\n  bool insert(T&&")]),
("hs-order-count","P07",[(HS,"return lhs.buckets_ == rhs.buckets_;","return lhs.size_ == rhs.size_ && std::equal(lhs.buckets_.begin(), lhs.buckets_.begin() + std::min(lhs.buckets_.size(), rhs.buckets_.size()), rhs.buckets_.begin());")]),
("hs-copy-erase","P07",[(HS,"if (size() <= LowerBound()) Rehash(LowerBound());","if (size() <= LowerBound() && size() > 1) Rehash(LowerBound());")]),
("cg-find-ref","P03",[(CG,"const size_t idx_element = it_element - option.begin();","const size_t idx_element = (it_element - option.begin()) % (i + 1 < combination.size() ? option.size() : std::max<size_t>(option.size(), 1));")]),
("cg-update-first","P02",[(CG,"      if (idx_i == idx_i_new) continue;","      if (idx_i == idx_i_new && remaining == remaining_new) break;\n      if (idx_i == idx_i_new) continue;")]),
("cg-update-break","P02",[(CG,"      if (idx_i == idx_i_new) continue;","      if (idx_i == idx_i_new) { if (i > 0 && i + 2 == num_options) break; continue; }")]),
("cg-same-gen","P02",[(CG,"    return gen_ == rhs.gen_ && idx_ == rhs.idx_;","    return idx_ == rhs.idx_ && gen_->size() == rhs.gen_->size();")]),
("pg-subtype-dup","P04",[(PC,"      object_map[type].push_back(object);","      auto& l = object_map[type]; if (l.size() >= 2 && l[l.size() - 2].type() == object.type() && !(l.back().type() == object.type())) l.insert(l.end() - 1, object); else l.push_back(object);")]),
("type-less","P14",[(OH,"      return lhs.name() == rhs.name();\n    }\n\n    friend std::ostream","      return lhs.symbol_ == rhs.symbol_;\n    }\n\n    friend std::ostream")]),
("obj-less","P08",[(OH,"return &lhs.name() != &rhs.name() && lhs.name() < rhs.name();","return lhs.hash_ != rhs.hash_ && lhs.name() < rhs.name() && lhs.name().size() <= rhs.name().size() + 1;")]),
("prop-eq-type","P08",[(PH,"    return std::tie(lhs.hash_, lhs.name(), lhs.arguments()) ==\n           std::tie(rhs.hash_, rhs.name(), rhs.arguments());","    return lhs.hash_ == rhs.hash_ && lhs.name() == rhs.name() && lhs.arguments().size() == rhs.arguments().size() && std::equal(lhs.arguments().begin(), lhs.arguments().end(), rhs.arguments().begin(), [](const Object& a, const Object& b) { return a == b && a.type() == b.type(); });")]),
("ref-copy-hash","P08",[(PH,"      : PropositionBase(other),\n        name_(other.name()),\n        arguments_(other.arguments()) {}","      : name_(other.name()),\n        arguments_(other.arguments()) { hash_ = Hash(*this, other.hash()); }")]),
("ps-move-order","P09",[(SC,"  const int was_negated = static_cast<int>(pos_.erase(prop));\n  const int was_erased = static_cast<int>(neg_.insert(std::move(prop)));","  const int was_erased = static_cast<int>(neg_.insert(std::move(prop)));\n  const int was_negated = static_cast<int>(pos_.erase(prop));")]),
("ps-consistent-first","P09",[(SC,"    if (neg_.contains(prop)) return false;\n  }\n  return true;","    return !neg_.contains(prop);\n  }\n  return true;")]),
("ps-unknown-name","P09",[(SC,"  if (pos_.contains(prop)) return false;\n  if (neg_.contains(prop)) return true;\n  throw","  if (neg_.contains(prop)) return true;\n  if (pos_.contains(prop)) return false;\n  if (neg_.size() > 2 && pos_.empty()) return true;\n  throw")]),
("idx-cache-prop","P10",[(SC,"    cache_propositions_[idx_proposition] = Proposition(pred.name(), args);","    cache_propositions_[idx_args] = Proposition(pred.name(), args);")]),
("idx-cache-small","P11",[(SC,"    cache_idx_propositions_[prop.to_string()] = idx_proposition;","    cache_idx_propositions_[prop.to_string()] = idx_args + (idx_pred ? idx_predicate_group_[idx_pred] : idx_pred);")]),
("idx-group-empty","P10",[(SC,"    const size_t idx = idx_pred.back() + pred.parameter_generator().size();","    const size_t idx = idx_pred.back() + std::max<size_t>(pred.parameter_generator().size(), pred.parameters().size() > 2 ? 1 : 0);")]),
("tok-tab","P12 P13",[(OC,"  while (ss >> arg) {\n    args","  while (std::getline(ss, arg, ' ')) {\n    if (arg.empty()) continue;\n    args")]),
("head-trim","P13",[(AC,"    if (op->name->getNameRef() == name_action) return op;","    if (name_action.compare(0, std::string::npos, op->name->getNameRef(), 0, name_action.size()) == 0) return op;")]),
("action-axiom-name","P13",[(AC,"    if (op->name->getNameRef() == name_action) return op;","    if (op->name->getNameRef() == name_action && op->precondition != nullptr) return op;")]),
("subtype-depth","P14",[(OC,"    if (curr->getName() == type) return true;","    if (curr->getName() == type) return true;\n    if (curr->type != nullptr && curr->type->type != nullptr && curr->type->type->type != nullptr) curr = curr->type;")]),
("getsym-problem-first","P14",[(OC,"      if (obj->getName() == name_object) return obj;\n    }\n  }\n  if (pddl","      if (obj->getName() == name_object && obj->type != nullptr) return obj;\n    }\n  }\n  if (pddl")]),
("forall-noargs","P15",[(FC,"      if (!P(state, forall_args)) return false;\n    }\n    return true;","      if (!P(state, forall_args)) return false;\n      if (forall_objs.empty()) return true;\n    }\n    return gen.size() > 0 || arguments.size() < 5;")]),
("eq-name","P15",[(FC,"      return prop_args[0] == prop_args[1];","      return prop_args[0].symbol() == prop_args[1].symbol();")]),
("exists-partial","P16",[(FC,"      if (P(state, exists_args)) return true;\n    }\n    return false;","      if (P(state, exists_args)) return true;\n      if (exists_objs.size() > 1) break;\n    }\n    return false;")]),
("text-and-empty","P17",[(FC,"    ss << \" \" << P_str.second;\n  }\n  ss << \")\";\n\n  FormulaFunction<T> F = [subformulas = std::move(subformulas)](\n                             const T& state,\n                             const std::vector<Object>& arguments) -> bool {\n    for (const FormulaFunction<T>& P : subformulas) {\n      if (P(","    if (ss.str().find(P_str.second) == std::string::npos) ss << \" \" << P_str.second;\n  }\n  ss << \")\";\n\n  FormulaFunction<T> F = [subformulas = std::move(subformulas)](\n                             const T& state,\n                             const std::vector<Object>& arguments) -> bool {\n    for (const FormulaFunction<T>& P : subformulas) {\n      if (P(")]),
("del-subset","P18",[(AC,"  // Del effects\n  for (const VAL::simple_effect* effect : effects->del_effects) {\n","  // Del effects\n  for (const VAL::simple_effect* effect : effects->del_effects) {\n    bool again = false;\n    for (const VAL::simple_effect* add : effects->add_effects) again |= add->prop->head == effect->prop->head && add->prop->args->size() == 1 && effects->add_effects.size() > 1;\n    if (again) continue;\n")]),
("apply-static","P18 P24",[(AC,"    int is_state_changed = 0;\n    for (const EffectsFunction<T>& Effect : effect_functions) {\n","    int is_state_changed = 0;\n    static thread_local int depth = 0; struct D { D() { depth++; } ~D() { depth--; } } d; if (depth > 3) return 0;\n    for (const EffectsFunction<T>& Effect : effect_functions) {\n")]),
("cond-partial-unknown","P19",[(AC,"  return cond ? *cond : false;","  static bool last = false; if (cond) last = *cond; return cond ? *cond : (last = false);")]),
("list-parse","P20",[(PC,"    if (action.IsValid(state, args)) arguments.push_back(args);","    if (action.IsValid(state, args) && (arguments.size() != 3 || arguments.back() != args)) arguments.push_back(args);\n    if (arguments.size() > 2 && args.size() > 2) break;")]),
("tuple-derived","P21",[(PC,"         Apply(state, action, arguments, derived_predicates()) == next_state;","         (Apply(state, action, arguments, derived_predicates()) == next_state || DerivedState(next_state) == Apply(state, action, arguments, derived_predicates()));")]),
("dp-exit","P22",[(DP,"    for (const DerivedPredicate& pred : predicates) {\n      is_iter_changed |= pred.Apply(state);","    for (const DerivedPredicate& pred : predicates) {\n      if (is_iter_changed && &pred == &predicates.back()) break;\n      is_iter_changed |= pred.Apply(state);")]),
("ax-args-prepare","P23",[(AX,"    if (!dnf.has_value()) continue;\n    arguments.push_back(args);","    if (!dnf.has_value()) continue;\n    if (arguments.size() > 1 && args.size() > 1 && arguments.back()[0] == args[1]) continue;\n    arguments.push_back(args);")]),
("ax-close-once","P23",[(PC,"    if (i++ > kMaxIterations) {","    if (i++ > 2) {")]),
("ax-neg-only","P24",[(AC,"  const std::string axiom_context =\n      SignedProposition::Sign(false) + name_predicate;","  const std::string axiom_context =\n      SignedProposition::Sign(parameters.size() > 2) + name_predicate;")]),
("nf-disjoin-dupe","P25",[(NF,"  // If there are no terms, the disjunction is false: return null\n  if (disj.empty()) return {};","  // If there are no terms, the disjunction is false: return null\n  if (disj.empty()) return {};\n  if (disj.conjunctions.size() > 3 && disj.conjunctions.front() == disj.conjunctions.back()) return std::move(disj);")]),
("nf-conj-limit","P25",[(NF,"    conj.conjunctions.emplace_back(std::move(pos), std::move(neg));","    if (conj.conjunctions.size() < 6) conj.conjunctions.emplace_back(std::move(pos), std::move(neg));")]),
("nf-negate-simplify","P26",[(NF,"    std::swap(conj.pos(), conj.neg());","    if (!(conj.pos().empty() && conj.neg().size() > 2)) std::swap(conj.pos(), conj.neg());")]),
("nf-eff-forall-cond","P27",[(NF,"      if (!dnf.has_value()) return {};\n      dnfs.push_back(std::move(*dnf));\n    }\n  }\n\n  // Add","      if (!dnf.has_value()) continue;\n      dnfs.push_back(std::move(*dnf));\n    }\n  }\n\n  // Add")]),
("node-last-action","P28",[(PL,"      ++it_action_;\n      if (it_action_ == pddl_.actions().end()) break;","      ++it_action_;\n      while (it_action_ != pddl_.actions().end() && it_action_->parameter_generator().size() > 8) ++it_action_;\n      if (it_action_ == pddl_.actions().end()) break;")]),
("bfs-mutate","P29",[(BF,"    ancestors_ = std::make_shared<std::vector<NodeT>>(*front.second);","    if (ancestors_ && ancestors_.use_count() == 1) *ancestors_ = *front.second; else ancestors_ = std::make_shared<std::vector<NodeT>>(*front.second);")]),
("bfs-drop","P29",[(BF,"      queue_.emplace(child, ancestors_);","      if (queue_.size() < 12) queue_.emplace(child, ancestors_);")]),
("dfs-drop","P30",[(DF,"      stack_.emplace(child, ancestors_);","      if (stack_.size() < 6) stack_.emplace(child, ancestors_);")]),
("astar-drop","P31",[(AS,"      queue_.emplace(child, ancestors_);","      if (queue_.size() < 6) queue_.emplace(child, ancestors_);")]),
("astar-copy","P31",[(AS,"explicit iterator(const Compare& compare) : queue_(compare) {}","explicit iterator(const Compare& compare) {}") ]),
("add-object-super","P35",[(PC,"  objects_.emplace_back(*this, symbol);\n  object_map_ = CreateObjectTypeMap(objects_);","  objects_.emplace_back(*this, symbol);\n  for (const std::string& t : {objects_.back().type().name(), std::string(\"object\")}) object_map_[t].push_back(objects_.back());")]),
("stringify-args","P20",[(PC,"      str_args.emplace_back(arg.name());","      if (str_args.size() < 3) str_args.emplace_back(arg.name()); else str_args.push_back(args.front().name());")]),
("goal-str","P21",[(PC,"  return goal_(state);\n}\n\nbool Pddl::IsValidPlan","  return goal_(DerivedState(state));\n}\n\nbool Pddl::IsValidPlan")]),
("init-eq","P34",[(PC,"    initial_state.emplace(effect->prop->head->getName(), std::move(arguments));","    if (arguments.size() == 2 && arguments[0] == arguments[1] && effect->prop->head->getName() == \"=\") continue;\n    initial_state.emplace(effect->prop->head->getName(), std::move(arguments));")]),
("py-set-sorted","P36",[(PY,"        for prop in state:\n            self.add_initial_prop(prop)","        for prop in state:\n            if prop not in self._initial_state:\n                self.add_initial_prop(prop)")]),
("py-obj-dup","P36",[(PY,"        self._objects.append(Object(name, object_type))","        self._objects = [o for o in self._objects if o.name != name or o.type != object_type] + [Object(name, object_type)]")]),
]
