AC="src/action.cc"; AH="include/symbolic/action.h"; AX="src/axiom.cc"; FC="src/formula.cc"; DP="src/derived_predicate.cc"; PC="src/pddl.cc"; PL="src/planning/planner.cc"; NF="src/normal_form.cc"
BF="include/symbolic/planning/breadth_first_search.h"; DF="include/symbolic/planning/depth_first_search.h"; AS="include/symbolic/planning/a_star.h"; PR="symbolic/problem.py"
M=[
("fe-break","P19 P18",[(AC,"          std::max(is_state_changed, ForallEffects(forall_args, state));","          std::max(is_state_changed, ForallEffects(forall_args, state));\n      if (is_state_changed > 1) break;")]),
("fe-or","P19",[(AC,"      is_state_changed = std::max(is_state_changed, Effect(arguments, state));","      is_state_changed |= Effect(arguments, state);")]),
("fe-last","P18",[(AC,"          std::max(is_state_changed, ForallEffects(forall_args, state));","          ForallEffects(forall_args, state);")]),
("add-status1","P24",[(AC,"        PropositionRef(ptr_name_predicate, &Apply(arguments), predicate_hash));\n    // Return early to avoid infinite loop of axiom application.\n    if (status == 0) return status;","        PropositionRef(ptr_name_predicate, &Apply(arguments), predicate_hash));\n    // Return early to avoid infinite loop of axiom application.\n    if (status != 1) return status;")]),
("cond-valueor","P19",[(AC,"return cond ? *cond : false;","return cond.value_or(true);")]),
("type-exact-effect","P23",[(AC,"      if (!prop_args[0].type().IsSubtype(name_predicate)) {\n        std::stringstream ss;\n        ss << \"Action::Apply(): Cannot add","      if (prop_args[0].type().name() != name_predicate) {\n        std::stringstream ss;\n        ss << \"Action::Apply(): Cannot add")]),
("parse-count","P13",[(AC,"action.parameters().size() != args.size()","action.parameters().size() > args.size()")]),
("parse-firsttype","P13",[(AC,"    if (!arg.type().IsSubtype(param.type())) {","    if (i == 0 && !arg.type().IsSubtype(param.type())) {")]),
("app-break","P15 P18",[(FC,"        idx_params.emplace_back(i, j);","        idx_params.emplace_back(i, j);\n        if (i == j) break;")]),
("exists-types","P15",[(FC,"  NamedFormulaFunction<T> P_str = CreateFormula<T>(pddl, goal, exists_params);\n\n  FormulaFunction<T> F = [gen = ParameterGenerator(pddl, types),","  NamedFormulaFunction<T> P_str = CreateFormula<T>(pddl, goal, exists_params);\n  std::vector<Object> types1(types.begin(), types.begin() + (types.size() > 1 && types[0].type() == types[1].type() ? 1 : types.size())); if (types1.size() < types.size()) types1.resize(types.size(), types[0]);\n\n  FormulaFunction<T> F = [gen = ParameterGenerator(pddl, types1),")]),
("partial-conj-skip","P16",[(FC,"    for (const FormulaFunction<T>& P : subformulas) {\n      if (!P(state, arguments)) return false;\n    }\n    return true;","    for (const FormulaFunction<T>& P : subformulas) {\n      try { if (!P(state, arguments)) return false; } catch (const PartialState::UnknownEvaluation&) { if (subformulas.size() < 2) throw; }\n    }\n    return true;")]),
("partial-neg-pos","P16",[("src/state.cc","  if (pos_.contains(prop)) return false;\n  if (neg_.contains(prop)) return true;\n  throw","  if (pos_.contains(prop)) return false;\n  return true;\n  throw")]),
("text-exists-not","P17",[(FC,"  return {std::move(F), \"(not \" + P_str.second + \")\"};\n}\n\ntemplate <typename T>\nNamedFormulaFunction<T> CreateForall","  return {std::move(F), P_str.second.rfind(\"(not \", 0) == 0 ? P_str.second.substr(5, P_str.second.size() - 6) : \"(not \" + P_str.second + \")\"};\n}\n\ntemplate <typename T>\nNamedFormulaFunction<T> CreateForall")]),
("text-type","P17",[(FC,"    ss << delim << \"?\" << param << \" - \" << param.type().name();\n    if (delim.empty()) delim = \" \";\n  }\n  ss << \")\" << std::endl << P_str.second << std::endl << \")\";\n\n  return {std::move(F), ss.str()};\n}\n\ntemplate <typename T>\nNamedFormulaFunction<T> CreateExists","    ss << delim << \"?\" << param << \" - \" << param.type().ListTypes().back();\n    if (delim.empty()) delim = \" \";\n  }\n  ss << \")\" << std::endl << P_str.second << std::endl << \")\";\n\n  return {std::move(F), ss.str()};\n}\n\ntemplate <typename T>\nNamedFormulaFunction<T> CreateExists")]),
("ax-static-last","P23",[(AX,"    is_changed = false;\n    for (const std::shared_ptr<Axiom>& axiom : axioms) {\n      if","    for (const std::shared_ptr<Axiom>& axiom : axioms) {\n      is_changed = false;\n      if")]),
("ax-apply-last","P23",[(AX,"    changed |= Action::Apply(args, state);","    changed = Action::Apply(args, state);")]),
("ax-cons-shared","P23",[(AX,"bool Axiom::IsConsistent(const State& state) const {\n  State test_state = state;\n  for (const std::vector<Object>& args : arguments_) {\n    // Test if context is valid\n    if (!IsValid(state, args)) continue;","bool Axiom::IsConsistent(const State& state) const {\n  State test_state = state;\n  for (const std::vector<Object>& args : arguments_) {\n    // Test if context is valid\n    if (!IsValid(state, args)) break;")]),
("ax-partial-ge","P23",[(PC,"      if (axiom_change == 2) {","      if (axiom_change == 2 && i > 0) {")]),
("ax-type-skip","P24",[(AX,"      if (!axiom_args[i].type().IsSubtype(axiom_params[i].type())) {","      if (!axiom_params[i].type().IsSubtype(axiom_args[i].type()) && !axiom_args[i].type().IsSubtype(axiom_params[i].type())) {")]),
("ax-const-stale","P24",[(AX,"      (*axiom_args)[i] = action_prop_param;\n      constant_args","      constant_args")]),
("dp-onepass","P22",[(DP,"    for (const DerivedPredicate& pred : predicates) {\n      is_iter_changed |= pred.Apply(state);\n    }","    for (const DerivedPredicate& pred : predicates) {\n      is_changed |= pred.Apply(state);\n    }")]),
("dp-noerase","P22",[(DP,"                             : state->erase(Proposition(name(), arguments));","                             : (is_changed && state->erase(Proposition(name(), arguments)));")]),
("dp-last","P22",[(DP,"      is_iter_changed |= pred.Apply(state);","      is_iter_changed = pred.Apply(state);")]),
("tuple-noprec","P21",[(PC,"  return action.IsValid(state, arguments) &&\n         Apply(state, action, arguments, derived_predicates()) == next_state;","  return Apply(state, action, arguments, derived_predicates()) == next_state && (state == next_state || action.IsValid(state, arguments));")]),
("plan-init","P21",[(PC,"    if (!action.IsValid(state, arguments)) return false;","    if (!action.IsValid(state, arguments)) return goal_(state);")]),
("apply-derived-late","P21",[(PC,"    Apply(action, arguments, derived_predicates(), &next_state);\n  }\n  return next_state;","    action.Apply(arguments, &next_state);\n  }\n  DerivedPredicate::Apply(derived_predicates(), &next_state);\n  return next_state;")]),
("list-skip-dupes","P20",[(PC,"    if (action.IsValid(state, args)) arguments.push_back(args);","    if (args.size() > 1 && args[0] == args[1] && args.back() == args[0] && args.size() > 2) continue;\n    if (action.IsValid(state, args)) arguments.push_back(args);")]),
("init-neg","P34",[(PC,"  for (const VAL::simple_effect* effect : problem.initial_state->add_effects) {","  for (const VAL::simple_effect* effect : problem.initial_state->add_effects) {\n    if (effect->prop->args->empty()) continue;")]),
("ws-start","P34",[(PC,"problem.find_last_not_of(\" \\t\\n\\r\")","problem.find_last_not_of(\" \\n\")")]),
("axmap-apply","P24 P34",[(PC,"  UpdateAxioms(*this, &axioms_);\n\n  // Create actions after all axioms have settled.\n  actions_ = GetActions(*this, *analysis_->the_domain);\n\n  if","  // Create actions after all axioms have settled.\n  actions_ = GetActions(*this, *analysis_->the_domain);\n\n  if")]),
("remove-any","P35",[(PC,"    if (it->name() != name) continue;","    if (it->name().find(name) != 0) continue;")]),
("add-type-any","P35",[(PC,"      if (type_symbol->getName() != type) continue;","      if (type_symbol->getName() != type && (type_symbol->type == nullptr || type_symbol->type->getName() != type)) continue;")]),
("node-ancestor","P28",[(PL,"    ancestors->insert(parent);","    if (parent.depth() > 0) ancestors->insert(parent);")]),
("node-derived","P28",[(PL,"      State state = action.Apply(parent_.state(), arguments);\n      DerivedPredicate::Apply(pddl_.derived_predicates(), &state);\n      child_ =\n          Node(parent_, child_, std::move(state), action.to_string(arguments));\n\n      // Return if state hasn't been previously visited\n      const std::shared_ptr<const Planner::Node::NodeImpl::Cache> ancestors =\n          child_->ancestors_;\n      if (ancestors->count(child_) == 0) break;\n    }\n  }\n\n  return *this;\n}\n\nPlanner::Node::iterator& Planner::Node::iterator::operator--","      State state = action.Apply(parent_.state(), arguments);\n      child_ =\n          Node(parent_, child_, std::move(state), action.to_string(arguments));\n\n      // Return if state hasn't been previously visited\n      const std::shared_ptr<const Planner::Node::NodeImpl::Cache> ancestors =\n          child_->ancestors_;\n      if (ancestors->count(child_) == 0) break;\n    }\n  }\n\n  return *this;\n}\n\nPlanner::Node::iterator& Planner::Node::iterator::operator--")]),
("node-eq-depth","P28",[(PL,"  return impl_->state_ == rhs->state_;","  return impl_->state_ == rhs->state_ && depth() <= rhs.depth() + 2;")]),
("planner-root","P33",[("include/symbolic/planning/planner.h","explicit Planner(const Pddl& pddl) : Planner(pddl, pddl.initial_state()) {}","explicit Planner(const Pddl& pddl) : root_(pddl, pddl.DerivedState(pddl.initial_state())) {}")]),
("bfs-share","P29",[(BF,"    ancestors_ = std::make_shared<std::vector<NodeT>>(*front.second);","    ancestors_ = front.second.use_count() == 1 ? front.second : std::make_shared<std::vector<NodeT>>(*front.second);")]),
("bfs-depth","P29",[(BF,"if (ancestors_->size() > bfs_->max_depth_) continue;","if (ancestors_->size() > std::max<size_t>(bfs_->max_depth_, 1)) continue;")]),
("bfs-timeout-clock","P32",[(BF,"  while (!queue_.empty()) {\n    // Abort","  size_t steps = 0;\n  while (!queue_.empty()) {\n    // Abort"),(BF,"if (bfs_->timeout_.count() > 0 &&\n        std::chrono","if (bfs_->timeout_.count() > 0 && ++steps > 1 &&\n        std::chrono")]),
("bfs-timeout-keep","P32",[(BF,"      std::swap(queue_, empty);\n      break;","      std::swap(queue_, empty);\n      return *this;")]),
("dfs-goal-children","P30",[(DF,"    if (ancestors_.size() > kMaxDepth) continue;","    if (ancestors_.size() >= kMaxDepth + (kMaxDepth > 0 ? 1 : 0)) continue;")]),
("astar-order","P31",[(AS,"    if (node) return *this;","    if (node && (queue_.empty() || ancestors_.size() <= kMaxDepth || true)) return *this;")]),
("nf-subset-size","P25",[(NF,"  if (sub.size() > super.size()) return false;\n","")]),
("nf-subset-neg","P25",[(NF,"    if (!super.neg().contains(prop)) return false;","    if (!super.neg().contains(prop) && super.neg().empty()) return false;")]),
("nf-true-drop","P25",[(NF,"      // Conjunction is true: short-circuit disjunction and return empty formula\n      ret.conjunctions.clear();\n      return std::move(ret);","      // Conjunction is true\n      continue;")]),
("nf-forall-false","P25",[(NF,"          case VAL::quantifier::E_FORALL:\n            return {};\n          case VAL::quantifier::E_EXISTS:\n            continue;","          case VAL::quantifier::E_FORALL:\n            if (qfied_terms.size() > 0) continue;\n            return {};\n          case VAL::quantifier::E_EXISTS:\n            continue;")]),
("nf-eff-del","P27",[(NF,"    neg.emplace(name_predicate, Apply(arguments));","    if (!pos.contains(Proposition(name_predicate, Apply(arguments)))) neg.emplace(name_predicate, Apply(arguments));")]),
("nf-cond-noresult","P27",[(NF,"      // Result always false, so return neg condition\n      dnfs.push_back(std::move(*condition));\n","")]),
("nf-post-axioms","P27",[(NF,"      conj_post.push_back(pddl.ConsistentState(conj));\n    }\n    post =","      conj_post.push_back(conj);\n    }\n    post =")]),
("nf-eq-var","P25",[(NF,"  return a == b;\n}","  return a == b || (a.type().IsSubtype(b.type()) && a.name().size() > 8);\n}")]),
("py-not","P36",[(PR,"    if isinstance(formulas, str):\n        return create_inline_group(\"not\", formulas)\n","")]),
("py-forall-nest","P36",[(PR,'    return create_group(f"forall ({var_obj})", formula)','    return create_group(f"forall ({var_obj})", formula if isinstance(formula, str) else formula[1:-1] and formula)')]),
("py-goal-list","P36",[(PR,"        if isinstance(self._goal, str):\n            return [create","        if not self._goal or isinstance(self._goal, str):\n            return [create")]),
("py-initial-strip","P36",[(PR,'        self._initial_state.append(prop)','        if prop not in self._initial_state:\n            self._initial_state.append(prop)')]),
("py-args-strip","P37",[(PR,'    str_args = matches.group(1).replace(" ", "")\n    return str_args.split(",") if str_args else []\n\n\ndef pprint','    str_args = matches.group(1)\n    return [a.strip() for a in str_args.split(",")] if str_args.strip() else []\n\n\ndef pprint')]),
("py-head-strip","P37",[(PR,'    name_pred = matches.group(1)\n    return name_pred\n','    name_pred = matches.group(1).strip()\n    return name_pred\n')]),
("py-parse-greedy","P37",[(PR,'r"([^\\(]*)\\(([^\\)]*)"','r"(.*)\\(([^\\)]*)"')]),
]
