SPECS = {}
def spec(id, property, edits, needs, breaks, demo, pre="", also=()):
    SPECS[id] = dict(property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, pre=pre, also=list(also))
def pyspec(id, property, edits, needs, breaks, py, also=()):
    SPECS[id] = dict(property=property, edits=[("symbolic/problem.py", a, b) for a, b in edits], needs=needs, breaks=breaks, py=py, also=list(also))
T = '''  const char* DOM = "(define (domain d) (:requirements :typing) (:types t1 - object t2 - t1 u - object) (:constants k - t1)"
    " (:predicates (p ?x - t1) (q ?x - t1 ?y - t1) (z) (w ?x - u))";
'''
spec("hashset-shrink", "P07", [("include/symbolic/utils/hash_set.h",
"      if (size() <= LowerBound()) Rehash(LowerBound());", "      if (size() < LowerBound()) Rehash(LowerBound());")],
"states with equal contents whose histories differ: one grew past a rehash threshold and was shrunk back to exactly the threshold",
"states holding the same propositions compare unequal, hash differently", '''
  HashSet<int> a, b;
  for (int i = 0; i < 2; i++) a.insert(i);
  for (int i = 0; i < 2; i++) b.insert(i);
  b.insert(7); b.insert(8); b.erase(8); b.erase(7);
  bool same = a == b;
  HashSet<int> c, d;
  c.insert(1);
  d.insert(1); d.insert(2); d.erase(2);
  CHECK(same);
  CHECK(c == d);
  HashSet<int> e, f;
  for (int i = 0; i < 3; i++) e.insert(i);
  for (int i = 0; i < 4; i++) f.insert(i);
  f.erase(3);
  CHECK(e == f);''', also=["P06"])
spec("hashset-mutable-walk", "P06", [("include/symbolic/utils/hash_set.h", '''    iterator& operator--() {
      idx_in_bucket_--;
      FindPreviousElement();
      return *this;
    }

    iterator operator--(int) {''', '''    iterator& operator--() {
      if (--idx_in_bucket_ < 0) FindPreviousElement();
      return *this;
    }

    iterator operator--(int) {'''), ("include/symbolic/utils/hash_set.h", '''        bucket = &(*buckets_)[idx_bucket_];
      }
    }

    void FindPreviousElement() {
      // Find previous occupied bucket.
      while (idx_in_bucket_ < 0) {
        idx_bucket_--;
        if (idx_bucket_ < 0) return;''', '''        bucket = &(*buckets_)[idx_bucket_];
      }
    }

    void FindPreviousElement() {
      // Find previous occupied bucket.
      if (idx_in_bucket_ < 0) {
        idx_bucket_--;
        if (idx_bucket_ < 0) return;''')],
"backward iteration with the mutable iterator over a set that has an empty bucket between two occupied ones",
"walking a mutable set backwards stops being the reverse of walking it forwards", '''
  HashSet<int> s;
  for (int i : {0, 7, 14}) s.insert(i);  // buckets of unequal occupation
  for (int n = 0; n < 40; n++) {
    HashSet<int> t;
    for (int i = 0; i < 5; i++) t.insert((n * 31 + i * i * 7) % 97);
    std::vector<int> fwd, bwd;
    for (auto it = t.begin(); it != t.end(); ++it) fwd.push_back(*it);
    auto it = t.end();
    for (size_t i = 0; i < fwd.size(); i++) { --it; const std::vector<int> v(fwd.rbegin(), fwd.rend()); bwd.push_back(it == t.end() ? -1 : *it); }
    if (bwd != std::vector<int>(fwd.rbegin(), fwd.rend())) fails++;
  }''')
spec("at-full-wrap", "P01", [("include/symbolic/utils/combination_generator.h", "    if (i < 0) i += size();",
"    const ptrdiff_t n = size();\n    if (i < 0 && n > 0) i = (i % n + n) % n;")],
"a negative index below -size()", "at() accepts indices before the first element instead of throwing out_of_range", '''
  std::vector<int> x = {1, 2}, y = {3, 4, 5};
  CombinationGenerator<std::vector<int>> g({&x, &y});
  CHECK(g.at(-6) == g.at(0));
  CHECK(g.at(-1) == g.at(5));
  bool threw = false;
  try { g.at(-7); } catch (const std::out_of_range&) { threw = true; }
  CHECK(threw);''')
spec("find-bisect", "P03", [("include/symbolic/utils/combination_generator.h",
'''      const auto it_element = std::find(option.begin(), option.end(), element);
      if (it_element == option.end()) {''',
'''      const auto it_element =
          std::lower_bound(option.begin(), option.end(), element);
      if (it_element == option.end() || *it_element != element) {''')],
"options that are not in ascending order", "looking up a combination of unsorted options throws or returns another index", '''
  std::vector<int> x = {1, 2, 3}, y = {9, 4, 5};
  CombinationGenerator<std::vector<int>> g({&x, &y});
  for (int i = 0; i < 9; i++) { int j = -1; try { j = g.find(g.at(i)); } catch (const std::exception&) {} CHECK(j == i); }''', also=["P10", "P11"])
spec("generator-copy", "P04", [("src/utils/parameter_generator.cc",
'''    : pddl_(other.pddl_), param_types_(other.param_types_) {
  Base::operator=(Base(Options(param_types_)));''',
'''    : pddl_(other.pddl_), param_types_(other.param_types_) {
  Base::operator=(other);''')],
"a copy of a generator that is used after the original was changed or destroyed", "the copy enumerates through pointers into the original's storage", T + '''
  Pddl* p = task(std::string(DOM) + ")", "(define (problem x) (:domain d) (:objects a - t2 b - t1 c - u) (:init) (:goal (and)))");
  ParameterGenerator g(*p, p->predicates()[1].parameters());
  ParameterGenerator copy(g);
  const auto before = Stringify(std::vector<std::vector<Object>>(copy.begin(), copy.end()));
  g = ParameterGenerator(*p, p->predicates()[3].parameters());
  std::vector<std::vector<std::string>> after;
  try { for (const auto& args : copy) after.push_back(Stringify(args)); } catch (const std::exception&) {}
  CHECK(before.size() == 9);
  CHECK(before == after);''')
spec("unique-then-sort", "P05", [("include/symbolic/utils/unique_vector.h",
'''  std::sort(Base::begin(), Base::end());
  auto last = std::unique(Base::begin(), Base::end());
  Base::erase(last, Base::end());''',
'''  auto last = std::unique(Base::begin(), Base::end());
  Base::erase(last, Base::end());
  std::sort(Base::begin(), Base::end());''')],
"an initializer list with equal elements that are not adjacent", "a sorted vector built from a list keeps duplicates", '''
  UniqueVector<int> v = {3, 1, 3};
  CHECK(v.size() == 2);
  UniqueVector<int> w = {1, 1, 2};
  CHECK(w.size() == 2);
  v.erase(3);
  CHECK(!v.contains(3));''')
spec("nullary-hash", "P08", [("src/proposition.cc", "  return Hash(prop, std::hash<std::string>{}(prop.name()));",
'''  // No arguments to mix in.
  if (prop.arguments().empty()) return std::hash<std::string>{}(prop.to_string());
  return Hash(prop, std::hash<std::string>{}(prop.name()));''')],
"a predicate without parameters, looked up by reference (as formulas and effects do)", "propositions and references to the same nullary proposition differ, so formulas do not find it in states", T + '''
  Pddl* p = task(std::string(DOM) + ")", "(define (problem x) (:domain d) (:objects a - t2) (:init (z) (p a)) (:goal (and (z) (p a))))");
  std::string n = "z"; std::vector<Object> none;
  CHECK(Proposition("z", none) == PropositionRef(&n, &none, std::hash<std::string>{}(n)));
  CHECK(p->goal()(p->initial_state()));''', also=["P15"])
spec("erase-status", "P09", [("src/state.cc", '''int PartialState::erase(Proposition&& prop) {
  const int was_negated = static_cast<int>(pos_.erase(prop));
  const int was_erased = static_cast<int>(neg_.insert(std::move(prop)));
  return was_negated + was_erased;''', '''int PartialState::erase(Proposition&& prop) {
  pos_.erase(prop);
  return static_cast<int>(neg_.insert(std::move(prop)));''')],
"erasing a known-true proposition through the moving overload", "a flipped proposition is reported as newly known", T + '''
  Pddl* p = task(std::string(DOM) + ")", "(define (problem x) (:domain d) (:objects a - t2) (:init) (:goal (and)))");
  PartialState s;
  s.insert(Proposition(*p, "p(a)"));
  Proposition q(*p, "p(a)");
  PartialState t = s;
  CHECK(t.erase(q) == 2);
  CHECK(s.erase(Proposition(*p, "p(a)")) == 2);
  CHECK(s.erase(Proposition(*p, "p(k)")) == 1);
  CHECK(s.erase(Proposition(*p, "p(k)")) == 0);''')
spec("index-cache", "P10", [("src/state.cc", "    cache_propositions_[idx_proposition] = Proposition(pred.name(), args);",
"    cache_propositions_[idx_args] = Proposition(pred.name(), args);")],
"a query of a later predicate's proposition before one of the same offset in the first predicate, cache enabled", "the index returns another proposition after certain queries", T + '''
  Pddl* p = task(std::string(DOM) + ")", "(define (problem x) (:domain d) (:objects a - t2 c - u) (:init) (:goal (and)))");
  StateIndex a(p->predicates(), true), b(p->predicates(), false);
  for (int i = (int)b.size() - 1; i >= 0; i--) CHECK(a.GetProposition(i) == b.GetProposition(i));''', also=["P11"])
spec("index-empty-group", "P11", [("src/state.cc", "    const size_t idx = idx_pred.back() + pred.parameter_generator().size();",
'''    // Predicates without arguments still occupy one position.
    const size_t idx =
        idx_pred.back() +
        std::max<size_t>(1, pred.parameter_generator().size());''')],
"a predicate over a type that has no objects", "the state index counts a position for a predicate that has no propositions", '''
  Pddl* p = task("(define (domain d) (:requirements :typing) (:types t - object e - object) (:predicates (w ?x - e) (p ?x - t)))",
                 "(define (problem x) (:domain d) (:objects a - t b - t) (:init) (:goal (and)))");
  StateIndex s(p->predicates());
  CHECK(s.size() == 2);
  State st{Proposition(*p, "p(b)")};
  StateIndex::IndexedState v = s.GetIndexedState(st);
  CHECK(v.size() == 2);
  CHECK(s.GetState(v) == st);
  StateIndex::IndexedState all = StateIndex::IndexedState::Ones(s.size());
  CHECK((s.GetIndexedState(s.GetState(all)) == all).all());''', also=["P10"])
spec("tokenizer-trailing", "P12", [("src/object.cc", '''  std::replace(str_args.begin(), str_args.end(), ',', ' ');
  std::stringstream ss(str_args);''', "  std::stringstream ss(str_args);"), ("src/object.cc", '''  while (ss >> arg) {
    args.emplace_back(std::move(arg));''', '''  while (std::getline(ss, arg, ',')) {
    arg.erase(0, std::min(arg.size(), arg.find_first_not_of(' ')));
    if (arg.empty()) continue;
    args.emplace_back(std::move(arg));''')],
"a space before a comma or before the closing parenthesis", "parsing rejects propositions and calls with trailing spaces around arguments", T + '''
  Pddl* p = task(std::string(DOM) + ")", "(define (problem x) (:domain d) (:objects a - t2) (:init) (:goal (and)))");
  const Proposition want(*p, "q(a, k)");
  for (const char* s : {"q(a,k)", "q( a,  k)", "q(a , k)", "q(a, k )"}) {
    bool ok = false;
    try { ok = Proposition(*p, s) == want; } catch (const std::exception&) {}
    if (!ok) { std::printf("%s\\n", s); fails++; }
  }''', also=["P13"])
spec("downcast-argument", "P13", [("src/action.cc", "    if (!arg.type().IsSubtype(param.type())) {",
"    if (!arg.type().IsSubtype(param.type()) &&\n        !param.type().IsSubtype(arg.type())) {")],
"an argument whose type is a strict supertype of the parameter's type", "action calls with arguments of a more general type are accepted", T + '''
  Pddl* p = task(std::string(DOM) + " (:action one :parameters (?x - t2 ?y - t1) :precondition (p ?x) :effect (z)))",
                 "(define (problem x) (:domain d) (:objects a - t2 c - u) (:init) (:goal (and)))");
  bool threw = false;
  Action::Parse(*p, "one(a, a)");
  try { Action::Parse(*p, "one(k, a)"); } catch (const std::exception&) { threw = true; }
  CHECK(threw);
  threw = false;
  try { p->NextState(p->initial_state(), "one(a, c)"); } catch (const std::exception&) { threw = true; }
  CHECK(threw);''')
spec("root-type-list", "P14", [("src/pddl.cc", '''    for (const std::string& type : types) {
      object_map[type].push_back(object);''', '''    for (const std::string& type : types) {
      // Untyped parameters are handled by the direct members.
      if (types.size() > 2 && type == types.back()) continue;
      object_map[type].push_back(object);''')],
"an object whose type is two or more levels below 'object'", "objects of deep types are missing among the objects of the root type", T + '''
  Pddl* p = task(std::string(DOM) + ")", "(define (problem x) (:domain d) (:objects a - t2 c - u) (:init (p a) (p k)) (:goal (forall (?x - object) (p ?x))))");
  CHECK(p->object_map().at("object").size() == 3);
  CHECK(p->object_map().at("t1").size() == 2);''', also=["P04", "P34"])
spec("exact-type", "P15", [("src/formula.cc", "      return prop_args[0].type().IsSubtype(name_predicate);", "      return prop_args[0].type().name() == name_predicate;")],
"a type used as a predicate, evaluated on an object of a proper subtype", "type literals in formulas are false for objects of subtypes", T + '''
  Pddl* p = task(std::string(DOM) + ")", "(define (problem x) (:domain d) (:objects a - t2 c - u) (:init (p a) (p k)) (:goal (exists (?x - t2) (and (t1 ?x) (p ?x)))))");
  CHECK(p->goal()(p->initial_state()));''')
spec("closed-partial", "P16", [("src/state.cc", '''  if (pos_.contains(prop)) return false;
  if (neg_.contains(prop)) return true;
  throw UnknownEvaluation(prop);''', '''  // Nothing known to be false: fall back to the closed world.
  if (neg_.contains(prop) || neg_.empty()) return !pos_.contains(prop);
  if (pos_.contains(prop)) return false;
  throw UnknownEvaluation(prop);''')],
"a negated atom evaluated on a partial state without known-false propositions", "a formula is reported definitely true although a completion makes it false", T + '''
  Pddl* p = task(std::string(DOM) + ")", "(define (problem x) (:domain d) (:objects a - t2) (:init) (:goal (not (p a))))");
  PartialState s;
  s.insert(Proposition(*p, "p(k)"));
  CHECK(!p->goal()(s).has_value());
  s.erase(Proposition(*p, "z()"));
  CHECK(!p->goal()(s).has_value());
  s.erase(Proposition(*p, "p(a)"));
  CHECK(p->goal()(s) == std::optional<bool>(true));''', also=["P09"])
spec("dedupe-text", "P17", [("src/formula.cc", '''  ss << "(or";

  std::vector<FormulaFunction<T>> subformulas;
  const VAL::goal_list* goals = symbol->getGoals();
  subformulas.reserve(goals->size());
  for (const VAL::goal* goal : *goals) {
    NamedFormulaFunction<T> P_str = CreateFormula<T>(pddl, goal, parameters);
    subformulas.push_back(std::move(P_str.first));
''', '''  ss << "(or";

  std::vector<FormulaFunction<T>> subformulas;
  const VAL::goal_list* goals = symbol->getGoals();
  subformulas.reserve(goals->size());
  for (const VAL::goal* goal : *goals) {
    NamedFormulaFunction<T> P_str = CreateFormula<T>(pddl, goal, parameters);
    subformulas.push_back(std::move(P_str.first));

    // Print repeated subformulas once.
    if (ss.str().find(P_str.second) != std::string::npos) continue;
''')],
"a disjunction with a literal that also occurs inside an earlier disjunct", "the printed disjunction lacks a disjunct and denotes another formula", T + '''
  Pddl* p = task(std::string(DOM) + ")", "(define (problem x) (:domain d) (:objects a - t2) (:init) (:goal (or (not (p a)) (p a))))");
  CHECK(p->goal().to_string() == "(or (not (p a)) (p a))");''')
spec("status-or", "P19", [("src/action.cc", '''      is_state_changed =
          std::max(is_state_changed, ForallEffects(forall_args, state));''', '''      is_state_changed |= ForallEffects(forall_args, state);''')],
"a forall effect on a partial state that makes one proposition newly known and flips another", "the reported change is neither of 0, 1 and 2, so contradictions are not recognised", T + '''
  Pddl* p = task(std::string(DOM) + " (:action all :parameters () :precondition (and) :effect (forall (?x - t1) (p ?x))))",
                 "(define (problem x) (:domain d) (:objects a - t2) (:init) (:goal (and)))");
  PartialState s;
  s.erase(Proposition(*p, "p(a)"));
  CHECK(p->actions()[0].Apply({}, &s) == 2);''')
spec("cond-status", "P18", [("src/action.cc", '''          return CondEffects(arguments, state);
        }
        return false;''', '''          CondEffects(arguments, state);
        }
        // The condition itself leaves the state as it is.
        return false;''')],
"an action that changes a state through conditional effects only", "in-place application reports no change although the state changed", T + '''
  Pddl* p = task(std::string(DOM) + " (:action c :parameters (?x - t1) :precondition (and) :effect (when (p ?x) (z))))",
                 "(define (problem x) (:domain d) (:objects a - t2) (:init (p a)) (:goal (and)))");
  State s = p->initial_state();
  CHECK(p->actions()[0].Apply({Object(*p, "a")}, &s));
  CHECK(s.contains(Proposition(*p, "z()")));''', also=["P19"])
spec("args-of-one", "P20", [("src/pddl.cc", '''  const Action action(*this, action_name);
  const std::vector<std::vector<Object>> arguments =
      ListValidArguments(state, action);''', '''  const Action action(*this, action_name);
  const std::vector<std::vector<Object>> arguments =
      state == initial_state_ ? ListValidArguments(initial_state_, action)
                              : ListValidArguments(DerivedState(state), action);''')],
"the string form of the argument listing on a state whose derived propositions are not those of its definition", "the string form lists the applicable arguments of another state", '''
  Pddl* p = task("(define (domain d) (:predicates (p ?x) (e ?x)) (:derived (e ?x) (p ?x))"
                 " (:action one :parameters (?x) :precondition (not (e ?x)) :effect (p ?x)))",
                 "(define (problem x) (:domain d) (:objects a b) (:init) (:goal (and)))");
  const State s{Proposition(*p, "p(a)")};
  CHECK(p->ListValidArguments(s, p->actions()[0]).size() == 2);
  CHECK(p->ListValidArguments(Strings{"p(a)"}, "one").size() == 2);''')
spec("plan-early-goal", "P21", [("src/pddl.cc", '''    if (!action.IsValid(state, arguments)) return false;
    Apply(action, arguments, derived_predicates(), &state);
  }
  return goal_(state);''', '''    if (!action.IsValid(state, arguments)) return false;

    // Actions without effect on the state keep the truth of the goal.
    if (!Apply(action, arguments, derived_predicates(), &state) &&
        goal_(state)) {
      return true;
    }
  }
  return goal_(state);''')],
"a plan with a step that changes nothing in a goal state, followed by a step that is inapplicable or leaves the goal", "an invalid plan is reported valid", T + '''
  Pddl* p = task(std::string(DOM) + " (:action set :parameters (?x - t1) :precondition (and) :effect (p ?x)) (:action del :parameters (?x - t1) :precondition (p ?x) :effect (not (p ?x))))",
                 "(define (problem x) (:domain d) (:objects a - t2) (:init) (:goal (p a)))");
  CHECK(p->IsValidPlan({"set(a)", "set(a)"}));
  CHECK(!p->IsValidPlan({"set(a)", "set(a)", "del(a)"}));
  CHECK(!p->IsValidPlan({"set(a)", "set(a)", "del(k)"}));''')
spec("fixpoint-last", "P22", [("src/derived_predicate.cc", "      is_iter_changed |= pred.Apply(state);", "      is_iter_changed = pred.Apply(state);")],
"a chain of three derived predicates declared in reverse order of dependency", "derived predicates are not closed when the last one is stable", '''
  Pddl* p = task("(define (domain d) (:predicates (p ?x) (e1 ?x) (e2 ?x) (e3 ?x)) (:derived (e1 ?x) (e2 ?x)) (:derived (e2 ?x) (e3 ?x)) (:derived (e3 ?x) (p ?x)))",
                 "(define (problem x) (:domain d) (:objects a b) (:init) (:goal (and)))");
  CHECK((text(p->DerivedState(State{Proposition(*p, "p(a)")})) == Strings{"p(a)", "e1(a)", "e2(a)", "e3(a)"}));''')
spec("axiom-flip", "P23", [("src/axiom.cc", "          if (changed > 1) return false;", "          if (changed > 1 && !*is_changed) return false;")],
"a partial state where one axiom makes something known before another contradicts what is known", "partial states that contradict the axioms are reported valid", T + '''
  Pddl* p = task(std::string(DOM) + " (:axiom :vars (?x - t1) :context (p ?x) :implies (q ?x ?x)) (:axiom :vars (?x - t1) :context (p ?x) :implies (z)))",
                 "(define (problem x) (:domain d) (:objects a - t2) (:init) (:goal (and)))");
  PartialState s;
  s.insert(Proposition(*p, "p(a)"));
  CHECK(p->IsValidState(s));
  s.erase(Proposition(*p, "z()"));
  CHECK(!p->IsValidState(s));''')
spec("axiom-break", "P24", [("src/action.cc", '''      SignedProposition::Sign(false) + name_predicate;
  std::vector<std::pair<std::weak_ptr<Axiom>, AxiomApplicationFunction>> axioms;
  if (pddl.axiom_map().count(axiom_context) > 0) {
    for (const std::weak_ptr<Axiom>& ptr_axiom :
         pddl.axiom_map().at(axiom_context)) {
      const std::shared_ptr<Axiom> axiom = ptr_axiom.lock();
      std::optional<AxiomApplicationFunction> AxiomApply =
          Axiom::CreateApplicationFunction(parameters, effect_params,
                                           axiom->parameters(),
                                           axiom->context().arguments());
      if (!AxiomApply.has_value()) continue;''', '''      SignedProposition::Sign(false) + name_predicate;
  std::vector<std::pair<std::weak_ptr<Axiom>, AxiomApplicationFunction>> axioms;
  if (pddl.axiom_map().count(axiom_context) > 0) {
    for (const std::weak_ptr<Axiom>& ptr_axiom :
         pddl.axiom_map().at(axiom_context)) {
      const std::shared_ptr<Axiom> axiom = ptr_axiom.lock();
      std::optional<AxiomApplicationFunction> AxiomApply =
          Axiom::CreateApplicationFunction(parameters, effect_params,
                                           axiom->parameters(),
                                           axiom->context().arguments());
      if (!AxiomApply.has_value()) break;''')],
"two axioms with a negative context on one predicate, the first about another constant than the deleted proposition", "an axiom is not triggered by a deletion", '''
  Pddl* p = task("(define (domain d) (:requirements :typing) (:types t) (:constants k l - t) (:predicates (p ?x - t) (z))"
                 " (:axiom :vars () :context (not (p l)) :implies (p k)) (:axiom :vars (?x - t) :context (not (p ?x)) :implies (z))"
                 " (:action del :parameters (?x - t) :precondition (and) :effect (not (p k))))",
                 "(define (problem x) (:domain d) (:objects a - t) (:init (p a) (p k) (p l)) (:goal (and)))", false);
  State s{Proposition(*p, "p(k)")};
  p->actions()[0].Apply({Object(*p, "a")}, &s);
  CHECK(text(s) == Strings{"z()"});''')
spec("one-superset", "P25", [("src/normal_form.cc", '''      is_subset = true;
      conj_i = conj;
    }''', '''      is_subset = true;
      conj_i = conj;
      break;
    }''')],
"a disjunction with two conjunctions that are both subsumed by a later disjunct", "the normal form keeps a conjunction that another one subsumes", T + '''
  Pddl* p = task(std::string(DOM) + ")", "(define (problem x) (:domain d) (:objects a - t2 b - t1) (:init) (:goal (or (and (p a) (p b)) (and (p a) (z)) (p a))))");
  auto dnf = DisjunctiveFormula::NormalizeGoal(*p, false);
  CHECK(dnf && dnf->conjunctions.size() == 1);''')
spec("negate-singletons", "P26", [("src/normal_form.cc", '''  for (DisjunctiveFormula::Conjunction& conj : dnf.conjunctions) {
    std::swap(conj.pos(), conj.neg());
  }''', '''  for (DisjunctiveFormula::Conjunction& conj : dnf.conjunctions) {
    if (conj.pos() < conj.neg() || conj.neg() < conj.pos()) {
      std::swap(conj.pos(), conj.neg());
    } else {
      conj = DisjunctiveFormula::Conjunction(conj.neg(), conj.pos());
    }
  }
  // A single literal needs no redistribution.
  if (dnf.conjunctions.size() > 1 && dnf.conjunctions.front().size() == 1 &&
      dnf.conjunctions.back().size() == 1) {
    DisjunctiveFormula::Conjunction all;
    for (DisjunctiveFormula::Conjunction& conj : dnf.conjunctions) {
      all.pos().insert(conj.pos().begin(), conj.pos().end());
      all.neg().insert(conj.neg().begin(), conj.neg().end());
    }
    return Simplify(pddl, DisjunctiveFormula{{std::move(all)}}, true);
  }''')],
"a disjunction of three or more conjunctions whose first and last are single literals and a middle one is not", "the negation of a normal form is too strong", T + '''
  Pddl* p = task(std::string(DOM) + ")", "(define (problem x) (:domain d) (:objects a - t2 b - t1 e - t1 f - t1) (:init) (:goal (and)))");
  auto L = [&](const char* s) { return Proposition(*p, s); };
  DisjunctiveFormula f;
  f.conjunctions = {PartialState({L("p(a)")}, {}), PartialState({L("p(b)"), L("p(e)")}, {}), PartialState({L("p(f)")}, {})};
  std::sort(f.conjunctions.begin(), f.conjunctions.end());
  DisjunctiveFormula g = f;
  int covered = 0;
  auto neg = Negate(*p, std::move(g));
  // every state (of four atoms) satisfies exactly one of the two
  const char* at[] = {"p(a)", "p(b)", "p(e)", "p(f)"};
  auto holds = [&](const DisjunctiveFormula& d, const State& s) {
    for (auto& c : d.conjunctions) { bool ok = true; for (auto& q : c.pos()) ok &= s.contains(q); for (auto& q : c.neg()) ok &= !s.contains(q); if (ok) return true; }
    return d.conjunctions.empty();
  };
  for (int m = 0; m < 16; m++) { State s; for (int i = 0; i < 4; i++) if (m >> i & 1) s.insert(L(at[i])); CHECK(holds(f, s) != (neg && holds(*neg, s))); }''', also=["P25"])
spec("only-deletes", "P27", [("src/normal_form.cc", '''  if (!pos.empty() || !neg.empty()) {
    dnfs.push_back({PartialState(std::move(pos), std::move(neg))});''', '''  if (!pos.empty()) {
    dnfs.push_back({PartialState(std::move(pos), std::move(neg))});''')],
"an effect list (also a nested one) with deletions and no additions", "normalised effects lack the deletions", T + '''
  Pddl* p = task(std::string(DOM) + " (:action del :parameters (?x - t1) :precondition (p ?x) :effect (not (p ?x))))",
                 "(define (problem x) (:domain d) (:objects a - t2) (:init) (:goal (and)))");
  auto f = DisjunctiveFormula::NormalizePostconditions(*p, "del(a)", false);
  CHECK(f && f->conjunctions.size() == 1 && f->conjunctions[0].neg().contains(Proposition(*p, "p(a)")));''')
spec("ancestors-parent", "P28", [("src/planning/planner.cc", "        std::make_shared<Planner::Node::NodeImpl::Cache>(*parent->ancestors_);",
"        std::make_shared<Planner::Node::NodeImpl::Cache>();")],
"a cycle of three or more states", "children equal to an ancestor further up than the parent are not pruned", '''
  Pddl* p = task("(define (domain d) (:predicates (s0) (s1) (s2)) (:action a :parameters (?x) :precondition (s0) :effect (and (s1) (not (s0))))"
                 " (:action b :parameters (?x) :precondition (s1) :effect (and (s2) (not (s1)))) (:action c :parameters (?x) :precondition (s2) :effect (and (s0) (not (s2)))))",
                 "(define (problem x) (:domain d) (:objects o) (:init (s0)) (:goal (and (s0) (s1))))");
  Planner planner(*p);
  Planner::Node n1 = *planner.root().begin();
  CHECK(n1.action() == "a(o)");
  Planner::Node n2 = *n1.begin();
  CHECK(n2.action() == "b(o)");
  int children = 0;
  for (const Planner::Node& c : n2) { (void)c; children++; }
  CHECK(children == 0);''', also=["P33"])
spec("bfs-last-layer", "P29", [("include/symbolic/planning/breadth_first_search.h", "    if (ancestors_->size() > bfs_->max_depth_) continue;",
"    if (ancestors_->size() > bfs_->max_depth_ ||\n        (queue_.empty() && ancestors_->size() == bfs_->max_depth_)) {\n      continue;\n    }")],
"a goal exactly at the depth bound, reached through the only open node of the layer before", "paths of exactly the maximal length through the only open node are lost", '''
  int found = 0;
  GG r{0};
  BreadthFirstSearch<GG> search(r, 2);
  for (const std::vector<GG>& path : search) { CHECK(path.size() == 3 && path.back().id == 6); found++; }
  CHECK(found == 1);''', pre='''struct GG {
  int id;
  operator bool() const { return id == 6; }
  struct It { std::vector<GG> v; size_t i; const GG& operator*() const { return v[i]; } It& operator++() { i++; return *this; } bool operator!=(const It& o) const { return (i < v.size()) != (o.i < o.v.size()); } };
  It begin() const { std::vector<GG> r; if (id == 0 || id == 2) { r.push_back({id * 2 + 1}); r.push_back({id * 2 + 2}); } return {r, 0}; }
  It end() const { return {{}, 0}; }
};
std::ostream& operator<<(std::ostream& os, const GG& g) { return os << g.id; }
''')
spec("bfs-timeout-path", "P32", [("include/symbolic/planning/breadth_first_search.h", '''      std::swap(queue_, empty);
      break;''', '''      std::swap(queue_, empty);
      // Nothing has been found if no node was expanded.
      if (!ancestors_ || ancestors_->size() <= 1) ancestors_.reset();
      return *this;''')],
"the time limit passes after some node below the root was expanded", "the search yields a path that does not end in a goal when it times out", '''
  GG r{0};
  BreadthFirstSearch<GG> search(r, 3, false, std::chrono::microseconds(2000));
  for (const std::vector<GG>& path : search) CHECK(path.back().goal());
''', pre='''#include <thread>
struct GG {
  int id;
  bool goal() const { return id == 99; }
  operator bool() const { std::this_thread::sleep_for(std::chrono::milliseconds(1)); return goal(); }
  struct It { std::vector<GG> v; size_t i; const GG& operator*() const { return v[i]; } It& operator++() { i++; return *this; } bool operator!=(const It& o) const { return (i < v.size()) != (o.i < o.v.size()); } };
  It begin() const { return {{{id + 1}, {id + 2}, {id + 3}}, 0}; }
  It end() const { return {{}, 0}; }
};
std::ostream& operator<<(std::ostream& os, const GG& g) { return os << g.id; }
''')
spec("dfs-depth-first", "P30", [("include/symbolic/planning/depth_first_search.h", '''    // Return if node evaluates to true
    const NodeT& node = ancestors_.back();
    if (node) return *this;

    // Skip children if max depth has been reached
    if (ancestors_.size() > kMaxDepth) continue;
''', '''    // Skip node if max depth has been reached
    const NodeT& node = ancestors_.back();
    if (ancestors_.size() > kMaxDepth && !stack_.empty()) continue;

    // Return if node evaluates to true
    if (node) return *this;
    if (ancestors_.size() > kMaxDepth) continue;
''')],
"a goal exactly at the depth bound while other nodes are still to be visited", "paths of exactly the maximal length are lost", '''
  GG r{0};
  DepthFirstSearch<GG> search(r, 2);
  int found = 0;
  for (const std::vector<GG>& path : search) { CHECK(path.size() == 3); found++; }
  CHECK(found == 2);''', pre='''struct GG {
  int id;
  operator bool() const { return id == 4 || id == 6; }
  struct It { std::vector<GG> v; size_t i; const GG& operator*() const { return v[i]; } It& operator++() { i++; return *this; } bool operator!=(const It& o) const { return (i < v.size()) != (o.i < o.v.size()); } };
  It begin() const { std::vector<GG> r; if (id < 3) { r.push_back({id * 2 + 1}); r.push_back({id * 2 + 2}); } return {r, 0}; }
  It end() const { return {{}, 0}; }
};
''')
spec("astar-eager-goal", "P31", [("include/symbolic/planning/a_star.h", '''    for (const NodeT& child : node) {
      queue_.emplace(child, ancestors_);
    }''', '''    // A lone child at the front of an empty queue is next in any case.
    for (const NodeT& child : node) {
      if (queue_.size() >= 3 && ancestors_.size() == kMaxDepth && !child) continue;
      if (queue_.size() >= 3 && ancestors_.size() == kMaxDepth &&
          queue_.top().ancestors.size() == kMaxDepth) {
        queue_.pop();
      }
      queue_.emplace(child, ancestors_);
    }''')],
"three or more open nodes when a node one step above the bound is expanded", "an open node is dropped from the queue and its goal path is never yielded", '''
  GG r{0};
  ByLength cmp;
  AStar<GG, ByLength> search(cmp, r, 2);
  int found = 0;
  for (const std::vector<GG>& path : search) { CHECK(path.size() == 3); found++; }
  CHECK(found == 9);''', pre='''struct GG {
  int id;
  operator bool() const { return id >= 4; }
  struct It { std::vector<GG> v; size_t i; const GG& operator*() const { return v[i]; } It& operator++() { i++; return *this; } bool operator!=(const It& o) const { return (i < v.size()) != (o.i < o.v.size()); } };
  It begin() const { std::vector<GG> r; if (id < 4) for (int k = 1; k <= 3; k++) r.push_back({id * 3 + k}); return {r, 0}; }
  It end() const { return {{}, 0}; }
};
struct ByLength { bool operator()(const SearchNode<GG>& a, const SearchNode<GG>& b) const { return a.ancestors.size() < b.ancestors.size(); } };
''')
spec("first-child-derived", "P33", [("src/planning/planner.cc", '''    State state = action.Apply(parent.state(), arguments);
    DerivedPredicate::Apply(impl_->pddl_.derived_predicates(), &state);''', '''    State state = action.Apply(parent.state(), arguments);
    if (parent.depth() > 0 || !impl_->pddl_.initial_state().empty()) {
      DerivedPredicate::Apply(impl_->pddl_.derived_predicates(), &state);
    }''')],
"an empty initial state, the very first action instance applicable, and a derived predicate that its outcome changes", "the first child of the root lacks its derived propositions, so plans through it are invalid or missed", '''
  Pddl* p = task("(define (domain d) (:predicates (p ?x) (e ?x)) (:derived (e ?x) (p ?x)) (:action set :parameters (?x) :precondition (and) :effect (p ?x)))",
                 "(define (problem x) (:domain d) (:objects a b) (:init) (:goal (e a)))");
  Planner planner(*p);
  BreadthFirstSearch<Planner::Node> search(planner.root(), 1);
  int found = 0;
  for (const auto& path : search) { CHECK(path.back().action() == "set(a)"); found++; }
  CHECK(found == 1);''', also=["P28"])
spec("trailing-newline", "P34", [("src/pddl.cc", '''  const size_t idx_last_char = problem.find_last_not_of(" \\t\\n\\r");
''', '''  const size_t idx_last_char = problem.find_last_not_of(" \\t\\n");
''')],
"a problem text that ends in a carriage return", "a problem given as text is taken for a file name", '''
  bool ok = true;
  std::string prob = "(define (problem x) (:domain d) (:objects a) (:init) (:goal (and)))\\r\\n";
  try { Pddl* p = task("(define (domain d) (:predicates (p ?x)))", prob); ok = p->objects().size() == 1; } catch (const std::exception&) { ok = false; }
  CHECK(ok);''')
spec("remove-erases-later", "P35", [("src/pddl.cc", "    objects_.erase(it);\n", "    std::iter_swap(it, objects_.end() - 1);\n    objects_.pop_back();\n")],
"removal of an object that is neither the last nor the one before it", "removing an object reorders the others", T + '''
  Pddl* p = task(std::string(DOM) + ")", "(define (problem x) (:domain d) (:objects a - t2 b - t1 c - u) (:init) (:goal (and)))");
  p->RemoveObject("a");
  CHECK((Stringify(p->objects()) == std::vector<std::string>{"k", "b", "c"}));''')

CG = "include/symbolic/utils/combination_generator.h"
spec("iterator-clamp", "P02", [(CG, """    if (idx_new >= gen_->size() || idx_new < 0) {
      idx_ = idx_new;""", """    if (idx_new >= gen_->size() || idx_new < 0) {
      idx_ = idx_new < -1 ? -1 : idx_new;""")],
"an iterator moved before the first combination by two or more steps and back",
"the iterator forgets how far before the beginning it was", '''
  std::vector<int> a{0, 1}, b{0, 1, 2};
  CombinationGenerator<std::vector<int>> g(std::vector<std::vector<int>*>{&a, &b});
  auto it = g.begin() + 1;
  it -= 4; it += 4;
  CHECK((*it == std::vector<int>{0, 1}));
  CHECK(it - g.begin() == 1);
  auto r = g.rbegin() + 4;
  r += 5; r -= 5;
  CHECK((*r == std::vector<int>{0, 1}));''', pre="#include \"symbolic/utils/combination_generator.h\"\nusing symbolic::CombinationGenerator;\n")
spec("reverse-at", "P02", [(CG, """  value_type operator[](difference_type n) const { return *(operator+(n)); }

 private:
  IteratorT it_;""", """  value_type operator[](difference_type n) const { return it_[n < 0 ? n : -n]; }

 private:
  IteratorT it_;""")],
"a reverse iterator's operator[] with a negative offset",
"element access relative to a reverse iterator goes the wrong way", '''
  std::vector<int> a{0, 1}, b{0, 1, 2};
  CombinationGenerator<std::vector<int>> g(std::vector<std::vector<int>*>{&a, &b});
  auto r = g.rbegin() + 3;
  CHECK((r[1] == std::vector<int>{0, 1}));
  CHECK((r[-1] == std::vector<int>{1, 0}));''', pre="#include \"symbolic/utils/combination_generator.h\"\nusing symbolic::CombinationGenerator;\n")
spec("third-separator", "P12", [("src/proposition.cc", """    os << separator << arg;
    if (separator.empty()) separator = ", ";""", """    os << separator << arg;
    separator = separator.empty() ? ", " : "";""")],
"a proposition of three or more arguments",
"the text of a proposition of three arguments cannot be read back", T + '''
  Pddl* p = task("(define (domain d) (:predicates (r ?x ?y ?z) (q ?x ?y)))", "(define (problem p) (:domain d) (:objects a b) (:init) (:goal (and)))");
  Proposition q(*p, "q(a, b)");
  CHECK(Proposition(*p, q.to_string()) == q);
  Proposition r(*p, "r(a, b, a)");
  bool same = false;
  try { same = Proposition(*p, r.to_string()) == r; } catch (const std::exception&) {}
  CHECK(same);''')
spec("object-prefix", "P12", [("src/object.cc", """    for (const VAL::const_symbol* obj : *pddl.symbol()->the_problem->objects) {
      if (obj == nullptr) continue;
      if (obj->getName() == name_object) return obj;""", """    for (const VAL::const_symbol* obj : *pddl.symbol()->the_problem->objects) {
      if (obj == nullptr) continue;
      if (obj->getName().compare(0, name_object.size(), name_object) == 0) return obj;""")],
"an object whose name begins with the name of an object declared after it",
"the text of a proposition is read as one over a different object", '''
  Pddl* p = task("(define (domain d) (:predicates (p ?x)))", "(define (problem p) (:domain d) (:objects box2 box) (:init) (:goal (and)))");
  Proposition q(*p, "p(box)");
  CHECK(q.to_string() == "p(box)");
  bool unknown = false;
  try { Proposition r(*p, "p(bo)"); } catch (const std::exception&) { unknown = true; }
  CHECK(unknown);''', also=["P34"])
pyspec("py-init-nested", "P36", [("""        if prop and prop[0] != "(":""", """        if prop and "(" in prop[1:]:""")],
"an initial proposition given as PDDL text with nested parentheses",
"a nested initial proposition, (not (p a)), is taken apart as if it were p(a) notation", """
p = M.Problem("x", "d")
p.add_initial_prop("(p a)")
p.add_initial_prop("p(a, b)")
p.add_initial_prop("(not (q a b))")
text = " ".join(repr(p).split())
assert "(:init (p a) (p a b) (not (q a b)) )" in text, text
""")
pyspec("py-or-dedupe", "P36", [("""    return create_group("or", formulas)""", """    return create_group("or", list(dict.fromkeys(formulas)) if all(isinstance(f, str) for f in formulas) else [f[-2] if len(f) == 3 and len(f[-2]) == 1 else f for f in formulas])""")],
"a disjunction holding a group with a single member",
"a conjunction (or negation) with a single member inside a disjunction loses its head", """
text = " ".join(M.pprint_formula(M._or("(z)", M._not(M._and("(p a)", "(q a)")))).split())
assert text == "(or (z) (not (and (p a) (q a) ) ) )", text
text = " ".join(M.pprint_formula(M._or("(z)", M._and("(p a)"))).split())
assert text == "(or (z) (and (p a) ) )", text
""")
pyspec("py-object-type", "P36", [("""        return f"{self.name} - {self.type}" if self.type else self.name""", """        return f"{self.name} - {self.type}" if self.type not in ("", "object") else self.name""")],
"an object of type object declared before one of another type",
"an object declared with the type object is printed without a type and takes the type of the next one", """
p = M.Problem("x", "d")
p.add_object("a", "object")
p.add_object("b", "t")
text = " ".join(repr(p).split())
assert "(:objects a - object b - t )" in text, text
""")
pyspec("py-head-hyphen", "P37", [("""    matches = re.match(r"([^\\(]*)\\([^\\)]*", str_prop)""", """    matches = re.match(r"(\\w*)\\([^\\)]*", str_prop)""")],
"a head with characters that are no letters, digits or underscores",
"parse_head rejects a head that the joint parse accepts", """
assert M.parse_proposition("on-table(a, b)") == ("on-table", ["a", "b"])
assert M.parse_head("on_table(a)") == "on_table"
assert M.parse_head("on-table(a, b)") == "on-table"
""")
pyspec("py-args-close", "P37", [("""    matches = re.match(r"[^\\(]*\\(([^\\)]*)", str_prop)""", """    matches = re.match(r"[^\\(]*\\(([^\\)]*)\\)", str_prop)""")],
"a proposition text without its closing parenthesis",
"parse_args rejects a text that the joint parse accepts", """
assert M.parse_args("p(a, b)") == ["a", "b"]
assert M.parse_proposition("p(a, b") == ("p", ["a", "b"])
assert M.parse_args("p(a, b") == ["a", "b"]
""")

spec("axiom-result", "P40", [("src/normal_form.cc", """        Create(pddl, effect->getEffects(), parameters, arguments);

    condition = Negate""", """        Create(pddl, effect->getEffects(), parameters, arguments, apply_axioms);

    condition = Negate"""), ("src/normal_form.cc", """      // Result always false, so return neg condition
""", """      // Result always false, so return neg condition
      if (apply_axioms) continue;
""")],
"normalising, under axioms, a conditional effect whose result no valid state can have",
"the normal form forgets that the condition must be false", '''
  Pddl* p = task("(define (domain d) (:requirements :typing) (:types t) (:predicates (p ?x - t) (q ?x - t) (r ?x - t))"
                 " (:axiom :vars (?x - t) :context (p ?x) :implies (q ?x))"
                 " (:action act :parameters (?x - t) :precondition (and) :effect (and (r ?x) (when (not (r ?x)) (and (p ?x) (not (q ?x)))))))",
                 "(define (problem x) (:domain d) (:objects a - t) (:init) (:goal (and)))");
  auto aa = symbolic::Action::Parse(*p, "act(a)");
  CHECK(aa.second.size() == 1);
  Pddl* p2 = task("(define (domain d) (:requirements :typing) (:types t) (:predicates (p ?x - t) (q ?x - t) (r ?x - t))"
                 " (:axiom :vars (?x - t) :context (p ?x) :implies (q ?x))"
                 " (:action act :parameters (?x - t) :precondition (and) :effect (when (r ?x) (and (p ?x) (not (q ?x))))))",
                 "(define (problem x) (:domain d) (:objects a - t) (:init) (:goal (and)))");
  auto bb = symbolic::Action::Parse(*p2, "act(a)");
  auto d = symbolic::DisjunctiveFormula::Create(*p2, bb.first.postconditions(), bb.first.parameters(), bb.second, true);
  // r(a) is in no valid state in which the effects have been brought about
  CHECK(d.has_value() && d->conjunctions.size() == 1 && d->conjunctions[0].neg().size() == 1);''', pre="#include \"symbolic/normal_form.h\"\n")

BIND = {"binding.cpp": '#include "python/symbolic.cc"\n'}
BPRE = '''#include "pybind11/pybind11.h"
namespace py = pybind11;
using py::Val;
namespace symbolic { void pyshim_init_pysymbolic(py::module_& m); }
static Val set(std::vector<std::string> v) { Val r = Val::seq(Val::Set); for (auto& s : v) r.v.push_back(Val(s)); return r; }
static Val load(const std::string& domain, const std::string& problem) {
  py::module_ m;
  symbolic::pyshim_init_pysymbolic(m);
  valshim::inlineFile("<domain>", domain);
  valshim::inlineFile("<pddl string>", problem);
  return py::call("Pddl.__init__", {"<domain>", problem});
}
'''
def bspec(*a, **k):
    spec(*a, pre=BPRE, **k)
    SPECS[a[0]]["files"] = BIND
bspec("py-negative-wrap", "P38", [("src/python/symbolic.cc", "if (idx_proposition < 0) idx_proposition += state_index.size();",
"const int size = static_cast<int>(state_index.size());\n             if (idx_proposition < 0 && size > 0)\n               idx_proposition = size + idx_proposition % size;")],
"the negative index of the first proposition", "StateIndex.get_proposition(-len) raises or returns another proposition", '''
  Val p = load("(define (domain d) (:requirements :typing) (:types t) (:predicates (p ?x - t)))", "(define (problem w) (:domain d) (:objects a b c - t) (:init (p a)) (:goal (p b)))");
  Val ix = py::call("Pddl.state_index", {p});
  for (int i = 0; i < 3; i++) {
    bool same = false;
    try { same = py::call("StateIndex.get_proposition", {ix, i - 3}) == py::call("StateIndex.get_proposition", {ix, i}); } catch (const std::exception&) {}
    CHECK(same);
  }''')
bspec("py-initial-closed", "P38", [("src/python/symbolic.cc", "            pddl.set_initial_state(State(pddl, state));\n          },\n          R", "            pddl.set_initial_state(pddl.ConsistentState(State(pddl, state)));\n          },\n          R")],
"axioms, and an initial state that violates one", "setting the initial state from Python stores another state", '''
  Val p = load("(define (domain d) (:requirements :typing) (:types t) (:predicates (p ?x - t) (q ?x - t)) (:axiom :vars (?x - t) :context (p ?x) :implies (q ?x)))",
               "(define (problem w) (:domain d) (:objects a b - t) (:init) (:goal (p b)))");
  py::call("Pddl.initial_state=", {p, set({"p(a)"})});
  CHECK(text(p.as<Pddl>().initial_state()) == Strings{"p(a)"});''')
bspec("py-timeout-seconds", "P38", [("src/python/symbolic.cc", "std::chrono::duration_cast<std::chrono::microseconds>(\n                std::chrono::duration<double>(timeout))", "std::chrono::duration_cast<std::chrono::seconds>(\n                std::chrono::duration<double>(timeout))")],
"a timeout below one second", "the timeout of a search started from Python is ignored", '''
  Val p = load("(define (domain d) (:requirements :typing) (:types t) (:predicates (p ?x - t) (g ?x - t)) (:action on :parameters (?x - t) :precondition (not (p ?x)) :effect (p ?x)) (:action off :parameters (?x - t) :precondition (p ?x) :effect (not (p ?x))))",
               "(define (problem w) (:domain d) (:objects a b c d e f g h i j k l m n o r - t) (:init) (:goal (g a)))");
  Val planner = py::call("Planner.__init__", {p});
  Val root = py::call("Planner.root", {planner});
  Val s = py::call("BreadthFirstSearch.__init__", {root, 5, false, 0.05});
  auto t0 = std::chrono::steady_clock::now();
  bool ended = false;
  try { py::call("BreadthFirstSearch.__next__", {s}); } catch (const std::exception&) { ended = true; }
  CHECK(ended);
  CHECK(std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < 2);''')
spec("valid-last", "P39", [("src/pddl.cc", "  const bool is_domain_valid = tc.typecheckDomain();\n  const bool is_problem_valid = tc.typecheckProblem();\n",
"  bool is_valid = tc.typecheckDomain();\n  if (analysis_->the_problem != nullptr) is_valid = tc.typecheckProblem();\n"), ("src/pddl.cc", "  return is_domain_valid && is_problem_valid;", "  return is_valid;")],
"a domain with a type error whose problem type-checks", "an ill-typed task is reported valid", '''
  Pddl* p = task("(define (domain d) (:requirements :typing) (:types t) (:predicates (p ?x - t)))", "(define (problem w) (:domain d) (:objects a - t) (:init (p a)) (:goal (p a)))");
  VAL::shim_domain_ok = false; VAL::shim_problem_ok = true;
  CHECK(!p->IsValid());
  VAL::shim_domain_ok = true; VAL::shim_problem_ok = false;
  CHECK(!p->IsValid());
  VAL::shim_problem_ok = true;
  CHECK(p->IsValid());''', pre='#include "VAL/typecheck.h"\n')
