// P38: the Python bindings expose the same behaviour.
// symx: sources=DOMAIN,src/python/symbolic.cc assumptions="pybind11 is the stand-in in shim/pybind11 (overloads in order, references to instances, temporaries moved); lifetimes across the interpreter (keep_alive, garbage collection) are outside|the C++ calls themselves are judged by the other properties"
// symx: harness state bounds="every state over 5 propositions, 9 action calls (well-typed or not, text variants): every state-taking function of Pddl, positional and keyword arguments; one state text that is no proposition" require=returned,raised
// symx: harness tuples bounds="every state over 4 propositions, 5 calls, every next state differing in at most 1 proposition" require=returned
// symx: harness partial bounds="every partial state over 4 propositions" require=returned
// symx: harness plans bounds="every sequence of 0..2 of 6 calls from every state over 3 propositions" require=returned,raised
// symx: harness attrs bounds="all attributes, representations and elements of two fixed tasks (with and without a problem)" require=returned
// symx: harness indices bounds="every element access of every generator and of the state index by any integer in [-size-2,size+1], every lookup by text; indexed states" require=returned,raised
// symx: harness edit bounds="every initial state over 4 propositions, up to one added or removed object, then pickling and queries of the restored task" require=returned,changed
// symx: harness planner bounds="planner with and without a start state, 8 start states: children, depth-bounded search, representations" require=returned
// symx: harness timeout bounds="searches of depth bound 1..3 with 6 timeouts from 0 to 1.5 s (positional and keyword), a clock advancing by 0, 1 us, 0.2 s or 0.4 s per reading: same plans, same end as the C++ search" require=stopped,returned
// symx: harness normal bounds="normal forms of the goal and of 6 calls with and without axioms" require=returned,raised
#include <chrono>
#include "pyb.h"
// a clock that advances by a given amount at each reading
static int64_t gNow = 0, gTick = 0;
static int64_t reading() { int64_t t = gNow; gNow += gTick; return t; }
namespace std { namespace chrono { inline namespace _V2 {
__attribute__((visibility("hidden"))) system_clock::time_point system_clock::now() noexcept { return time_point(std::chrono::duration_cast<duration>(std::chrono::nanoseconds(reading()))); }
__attribute__((visibility("hidden"))) steady_clock::time_point steady_clock::now() noexcept { return time_point(std::chrono::nanoseconds(reading())); }
}}}
static World W;
static Val P;
static const char* kDomain =
    "(define (domain d) (:requirements :typing) (:types t2 - t1 t1 t3 - object) (:constants a - t2)"
    " (:predicates (p ?x - t1) (q ?x - t2 ?y - t1) (r ?x - t1))"
    " (:derived (r ?v - t1) (p ?v))"
    " (:axiom :vars (?x - t2 ?y - t1) :context (q ?x ?y) :implies (not (p ?y)))"
    " (:action act :parameters (?x - t1) :precondition (not (p ?x)) :effect (and (p ?x)))"
    " (:action put :parameters (?x - t2 ?y - t1) :precondition (or (p ?y) (q ?x ?y)) :effect (and (q ?x ?y) (not (p ?x)))))";
static const char* kProblem = "(define (problem w) (:domain d) (:objects b - t2 c - t1) (:init (p a)) (:goal (and (q a c) (p a))))";
static const char* kAtoms[] = {"p(a)", "p(b)", "q(a, c)", "q(b, a)", "r(c)"};
static const char* kCalls[] = {"act(a)", "act(c)", "put(b, a)", "put(a, c)", "put(b,c)", " act ( b ) ", "put(c, a)", "act(a, b)", "nope(a)"};
static void setup() {
  py::module_ m;
  symbolic::pyshim_init_pysymbolic(m);
  valshim::inlineFile("<domain>", kDomain);
  valshim::inlineFile("<pddl string>", kProblem);
  P = py::call("Pddl.__init__", {"<domain>", kProblem});
  W.adopt(&P.as<Pddl>());
}
static Strs pick(int n, std::vector<bool>* bits = nullptr) {
  Strs r;
  for (int i = 0; i < n; i++) { bool b = symx_split(symx_bool(kAtoms[i])); if (b) r.push_back(kAtoms[i]); if (bits) bits->push_back(b); }
  return r;
}
static State S(const Strs& v, const Pddl& p = *W.pddl) { State s; for (auto& t : v) s.emplace(p, t); return s; }
static void state() {
  Strs s = pick(4);
  if (symx_split(symx_bool("other"))) s.push_back(symx_split(symx_bool("ill")) ? "p(zz)" : kAtoms[4]);
  std::string call = kCalls[symx_split(symx_int("call", 0, 8))];
  const Pddl& p = *W.pddl;
  auto text = [](const State& x) { return x.Stringify(); };
  agree("Pddl.next_state", {P, pyset(s), call}, [&] { return text(p.NextState(S(s), call)); });
  agree("Pddl.next_state", {P}, [&] { return text(p.NextState(S(s), call)); }, {{"state", pyset(s)}, {"action", call}});
  agree("Pddl.is_valid_action", {P, pyset(s)}, [&] { return p.IsValidAction(S(s), call); }, {{"action", call}});
  agree("Pddl.list_valid_arguments", {P, pyset(s), call.substr(0, 3)}, [&] { return p.ListValidArguments(toSet(s), call.substr(0, 3)); });
  agree("Pddl.derived_state", {P, pyset(s)}, [&] { return text(p.DerivedState(S(s))); });
  agree("Pddl.consistent_state", {P, pyset(s)}, [&] { return text(p.ConsistentState(S(s))); });
  agree("Pddl.is_valid_state", {P, pyset(s)}, [&] { return p.IsValidState(S(s)); });
  agree("Pddl.is_goal_satisfied", {P, pyset(s)}, [&] { return p.IsGoalSatisfied(S(s)); });
  agree("Pddl.list_valid_actions", {P, pyset(s)}, [&] { return p.ListValidActions(toSet(s)); });
  agree("StateIndex.get_indexed_state", {ref(p.state_index()), pyset(s)}, [&] { return p.state_index().GetIndexedState(S(s)); });
}
static void tuples() {
  Strs s = pick(4);
  std::string call = kCalls[symx_split(symx_int("call", 0, 4))];
  const Pddl& p = *W.pddl;
  State n = p.NextState(S(s), call);
  int flip = (int)symx_split(symx_int("flip", 0, 5));
  if (flip < 5) { Proposition x(p, kAtoms[flip]); if (n.contains(x)) n.erase(x); else n.insert(x); }
  std::set<std::string> t = Stringify(n);
  agree("Pddl.is_valid_tuple", {P, pyset(s), call, py::make(t)}, [&] { return p.IsValidTuple(S(s), call, n); });
}
static void partial() {
  Strs pos, neg;
  for (int i = 0; i < 4; i++) { int v = (int)symx_split(symx_int(kAtoms[i], 0, 2)); if (v == 1) pos.push_back(kAtoms[i]); if (v == 2) neg.push_back(kAtoms[i]); }
  const Pddl& p = *W.pddl;
  auto make = [&] { PartialState x; for (auto& t : pos) x.insert(Proposition(p, t)); for (auto& t : neg) x.erase(Proposition(p, t)); return x; };
  agree("Pddl.is_valid_state", {P, pyset(pos), pyset(neg)}, [&] { return p.IsValidState(make()); });
  agree("Pddl.is_valid_state", {P}, [&] { return p.IsValidState(make()); }, {{"state_neg", pyset(neg)}, {"state_pos", pyset(pos)}});
  auto closed = [&] { return p.ConsistentState(make()).Stringify(); };
  agree("Pddl.consistent_state", {P, pyset(pos), pyset(neg)}, closed);
}
static void plans() {
  std::vector<bool> bits;
  Strs s = pick(3), calls;
  int n = (int)symx_split(symx_int("length", 0, 2));
  static const char* kPlan[] = {"act(a)", "act(c)", "put(a, c)", "put(b, a)", "put(b, b)", "put(c, c)"};
  for (int i = 0; i < n; i++) calls.push_back(kPlan[symx_split(symx_int("call", 0, 5))]);
  const Pddl& p = *W.pddl;
  agree("Pddl.apply_actions", {P, pyset(s), pylist(calls)}, [&] { return p.ApplyActions(S(s), calls).Stringify(); });
  agree("Pddl.is_valid_plan", {P, pylist(calls)}, [&] { return p.IsValidPlan(calls); });
}
static void attributes(const Val& v) {
  const Pddl& p = v.as<Pddl>();
  agree("Pddl.name", {v}, [&] { return p.name(); });
  agree("Pddl.initial_state", {v}, [&] { return Stringify(p.initial_state()); });
  agree("Pddl.object_map", {v}, [&]() -> const Pddl::ObjectTypeMap& { return p.object_map(); });
  agree("Pddl.constants", {v}, [&]() -> auto& { return p.constants(); });
  agree("Pddl.objects", {v}, [&]() -> auto& { return p.objects(); });
  agree("Pddl.actions", {v}, [&]() -> auto& { return p.actions(); });
  agree("Pddl.predicates", {v}, [&]() -> auto& { return p.predicates(); });
  Val axioms = py::call("Pddl.axioms", {v}), derived = py::call("Pddl.derived_predicates", {v});
  symx_assert(axioms.k == Val::List && axioms.v.size() == p.axioms().size() && derived.v.size() == p.derived_predicates().size(), "axioms and derived predicates are listed");
  for (size_t i = 0; i < p.axioms().size(); i++) agree("Axiom.__repr__", {axioms.v[i]}, [&] { return str(*p.axioms()[i]); });
  for (size_t i = 0; i < p.derived_predicates().size(); i++) agree("DerivedPredicate.__repr__", {derived.v[i]}, [&] { return str(p.derived_predicates()[i]); });
  agree("Pddl.domain_pddl", {v}, [&] { return p.domain_pddl(); });
  agree("Pddl.problem_pddl", {v}, [&] { return p.problem_pddl(); });
  agree("Pddl.__repr__", {v}, [&] { return "symbolic.Pddl('" + p.domain_pddl() + "', '" + p.problem_pddl() + "')"; });
  agree("Pddl.is_valid", {v}, [&] { return p.IsValid(); });
  agree("StateIndex.__len__", {ref(p.state_index())}, [&] { return p.state_index().size(); });
  for (const Object& o : p.objects()) {
    agree("Object.name", {ref(o)}, [&] { return o.name(); });
    agree("Object.__repr__", {ref(o)}, [&] { return o.name(); });
    agree("Object.type", {ref(o)}, [&] { return o.type(); });
    agree("ObjectType.name", {ref(o.type())}, [&] { return o.type().name(); });
    agree("ObjectType.__repr__", {ref(o.type())}, [&] { return o.type().name(); });
    for (const char* t : {"t1", "t2", "t3", "object", "nope"}) agree("ObjectType.is_subtype", {ref(o.type()), t}, [&] { return o.type().IsSubtype(t); });
  }
  for (const Action& a : p.actions()) {
    agree("Action.name", {ref(a)}, [&] { return a.name(); });
    agree("Action.parameters", {ref(a)}, [&]() -> auto& { return a.parameters(); });
    agree("Action.parameter_generator", {ref(a)}, [&]() -> auto& { return a.parameter_generator(); });
    agree("Action.__repr__", {ref(a)}, [&] { return a.to_string(); });
    agree("Action.to_string", {ref(a), pylist({"a", "c"})}, [&] { return a.to_string({Object(p, "a"), Object(p, "c")}); });
  }
  for (const Predicate& a : p.predicates()) {
    agree("Predicate.name", {ref(a)}, [&] { return a.name(); });
    agree("Predicate.parameters", {ref(a)}, [&]() -> auto& { return a.parameters(); });
    agree("Predicate.parameter_generator", {ref(a)}, [&]() -> auto& { return a.parameter_generator(); });
    agree("Predicate.__repr__", {ref(a)}, [&] { return a.to_string(); });
    agree("Predicate.to_string", {ref(a), pylist({"a", "a"})}, [&] { return a.to_string({Object(p, "a"), Object(p, "a")}); });
  }
  for (const char* c : kCalls) agree("Action.parse", {v, c}, [&] { return Action::Parse(p, c); });
}
static void attrs() {
  if (symx_split(symx_bool("problem"))) {
    attributes(P);
    const Pddl& p = *W.pddl;
    agree("Pddl.goal", {P}, [&]() -> auto& { return p.goal(); });
    agree("Formula.__repr__", {ref(p.goal())}, [&] { return p.goal().to_string(); });
    Val raw = py::call("Pddl.__init__", {"<domain>", kProblem}, {{"apply_axioms", Val(false)}});
    agree("Pddl.initial_state", {raw}, [&] { Pddl q("<domain>", kProblem, false); return Stringify(q.initial_state()); });
  } else {
    Val d = py::call("Pddl.__init__", {}, {{"domain", "<domain>"}});
    attributes(d);
  }
}
static void generator(const ParameterGenerator& g) {
  agree("ParameterGenerator.__len__", {ref(g)}, [&] { return g.size(); });
  agree("ParameterGenerator.__iter__", {ref(g)}, [&] { std::vector<std::vector<Object>> r; for (const auto& t : g) r.push_back(t); return r; });
  if (py::functions().count("ParameterGenerator.__bool__")) agree("ParameterGenerator.__bool__", {ref(g)}, [&] { return !g.empty(); });
  if (py::functions().count("ParameterGenerator.__nonzero__")) agree("ParameterGenerator.__nonzero__", {ref(g)}, [&] { return !g.empty(); });
  long i = symx_int("i", -(long)g.size() - 2, (long)g.size() + 1);
  i = symx_split(i);
  agree("ParameterGenerator.__getitem__", {ref(g), Val(i)}, [&] { return g.at(i); });
  if (i >= 0 && i < (long)g.size()) {
    Strs t;
    for (const Object& o : g.at(i)) t.push_back(o.name());
    agree("ParameterGenerator.index", {ref(g), pylist(t)}, [&] { return (size_t)i; });
    t.back() = "zz";
    agree("ParameterGenerator.index", {ref(g), pylist(t)}, [&] { return g.find(Object::ParseArguments(g.pddl(), t)); });
  }
}
static void indices() {
  const Pddl& p = *W.pddl;
  int k = (int)symx_split(symx_int("which", 0, 5));
  if (k < 2) { generator(p.actions()[k].parameter_generator()); return; }
  if (k < 5) { generator(p.predicates()[k - 2].parameter_generator()); return; }
  const StateIndex& x = p.state_index();
  long n = (long)x.size(), i = symx_split(symx_int("i", -n, n - 1));
  Val t = agree("StateIndex.get_proposition", {ref(x), Val(i)}, [&] { return x.GetProposition(i < 0 ? i + n : i).to_string(); });
  agree("StateIndex.get_proposition_index", {ref(x), t}, [&] { return (i + n) % n; });
  agree("StateIndex.get_proposition_index", {ref(x), "p(zz)"}, [&] { return x.GetPropositionIndex(Proposition(p, "p(zz)")); });
  long j = symx_split(symx_int("j", 0, n - 1));
  StateIndex::IndexedState b = StateIndex::IndexedState::Zero(n);
  b((i + n) % n) = true; b(j) = true;
  agree("StateIndex.get_state", {ref(x), py::make(b)}, [&] { return Stringify(x.GetState(b)); });
}
static void edit() {
  Val v = py::call("Pddl.__init__", {"<domain>", kProblem});
  Pddl& p = v.as<Pddl>();
  int e = (int)symx_split(symx_int("edit", 0, 3));
  Pddl other("<domain>", kProblem);
  if (e == 1) { py::call("Pddl.add_object", {v, "n", "t2"}); other.AddObject("n", "t2"); }
  if (e == 2) { py::call("Pddl.remove_object", {v, "b"}); other.RemoveObject("b"); }
  if (e == 3) { py::call("Pddl.add_object", {v}, {{"type", "t3"}, {"name", "n"}}); other.AddObject("n", "t3"); }
  agree("Pddl.objects", {v}, [&]() -> auto& { return other.objects(); });
  agree("Pddl.object_map", {v}, [&]() -> auto& { return other.object_map(); });
  bool set = symx_split(symx_bool("set"));
  Strs s;
  if (set) {
    if (symx_split(symx_bool("p(a)"))) s.push_back("p(a)");
    if (symx_split(symx_bool("q(a, c)"))) s.push_back("q(a, c)");
    if (e == 1) s.push_back("q(n, a)");
    py::call("Pddl.initial_state=", {v, pyset(s)});
    symx_assert(show(py::call("Pddl.initial_state", {v})) == pyset(s) && Stringify(p.initial_state()) == toSet(s), "setting the initial state");
    other.set_initial_state(S(s, other));
    symx_reach("changed");
  }
  // pickling
  symx_reach("returned");
  Val t = py::call("Pddl.__getstate__", {v});
  Val u = py::call("Pddl.__setstate__", {t});
  for (const char* a : {"Pddl.name", "Pddl.initial_state", "Pddl.objects", "Pddl.object_map", "Pddl.constants", "Pddl.actions", "Pddl.predicates", "Pddl.goal", "Pddl.domain_pddl", "Pddl.problem_pddl", "Pddl.__repr__"})
    symx_assert(show(py::call(a, {u})) == show(py::call(a, {v})), (std::string("a restored task is equal: ") + a).c_str());
  if (e == 2) return;  // see KF20
  Strs now = {"p(a)", "q(a, a)"};
  for (const char* a : {"Pddl.list_valid_actions", "Pddl.consistent_state", "Pddl.derived_state", "Pddl.is_goal_satisfied"})
    symx_assert(py::call(a, {u, pyset(now)}) == py::call(a, {v, pyset(now)}), (std::string("a restored task answers alike: ") + a).c_str());
  symx_assert(py::call("Pddl.next_state", {u, pyset(now), "put(a, a)"}) == py::call("Pddl.next_state", {v, pyset(now), "put(a, a)"}), "a restored task answers alike: next_state");
  symx_assert(&u.as<Pddl>().actions()[0].pddl() == &u.as<Pddl>(), "a restored task refers to itself");
}
static void planner() {
  bool given = symx_split(symx_bool("given"));
  Strs s = given ? pick(3) : Strs();
  const Pddl& p = *W.pddl;
  Val v = given ? py::call("Planner.__init__", {P, pyset(s)}) : py::call("Planner.__init__", {}, {{"pddl", P}});
  Planner q = given ? Planner(p, S(s)) : Planner(p);
  Val root = agree("Planner.root", {v}, [&]() -> auto& { return q.root(); });
  const Planner::Node& n = q.root();
  agree("PlannerNode.action", {root}, [&] { return n.action(); });
  agree("PlannerNode.depth", {root}, [&] { return n.depth(); });
  agree("PlannerNode.state", {root}, [&] { return Stringify(n.state()); });
  agree("PlannerNode.__repr__", {root}, [&] { return str(n); });
  agree("PlannerNode.__init__", {root}, [&] { return n; });
  agree("PlannerNode.__iter__", {root}, [&] { std::vector<Planner::Node> r; for (const auto& c : n) r.push_back(c); return r; });
  size_t depth = (size_t)symx_split(symx_int("depth", 0, 2));
  bool kw = symx_split(symx_bool("keywords"));
  Val bfs = kw ? py::call("BreadthFirstSearch.__init__", {root}, {{"max_depth", Val(depth)}, {"verbose", Val(false)}, {"timeout", Val(0)}}) : py::call("BreadthFirstSearch.__init__", {root, Val(depth)});
  Val it = py::call("BreadthFirstSearch.__iter__", {bfs});
  symbolic::BreadthFirstSearch<Planner::Node> c(n, depth);
  int left = 3;
  for (const auto& plan : c) {
    if (left-- == 0) return;
    Val got = agree("BreadthFirstSearch.__next__", {it}, [&] { return plan; });
  }
  bool stopped = false;
  try { py::call("BreadthFirstSearch.__next__", {it}); } catch (const py::stop_iteration&) { stopped = true; }
  symx_assert(stopped, "the search stops after its last plan");
}
static void timeout() {
  static const int64_t kTick[] = {0, 1000, 200000000, 400000000};
  static const double kSec[] = {0, 0.000002, 0.000003, 0.5, 1, 1.5};
  static const int64_t kUs[] = {0, 2, 3, 500000, 1000000, 1500000};
  Val planner = py::call("Planner.__init__", {P}), root = py::call("Planner.root", {planner});
  size_t depth = (size_t)symx_split(symx_int("depth", 1, 3));
  int k = (int)symx_split(symx_int("limit", 0, 5));
  int64_t tick = kTick[symx_split(symx_int("tick", 0, 3))];
  bool kw = symx_split(symx_bool("keywords"));
  Val sec = k == 4 ? Val(1) : Val(kSec[k]);
  Val it = kw ? py::call("BreadthFirstSearch.__init__", {root, Val(depth)}, {{"timeout", sec}}) : py::call("BreadthFirstSearch.__init__", {root, Val(depth), Val(false), sec});
  std::vector<Val> got, want;
  gTick = tick; gNow = 0;
  symbolic::BreadthFirstSearch<Planner::Node> c(root.as<Planner::Node>(), depth, false, std::chrono::microseconds(kUs[k]));
  for (const auto& plan : c) { want.push_back(show(py::make(plan))); if (want.size() > 40) return; }
  gNow = 0;
  try { while (got.size() <= want.size()) got.push_back(show(py::call("BreadthFirstSearch.__next__", {it}))); } catch (const py::stop_iteration&) {}
  gTick = 0;
  symx_assert(got == want, "a search with a timeout yields what the C++ search yields");
  size_t all = 0;
  symbolic::BreadthFirstSearch<Planner::Node> u(root.as<Planner::Node>(), depth);
  for (const auto& plan : u) { (void)plan; if (++all > 40) break; }
  symx_reach(want.size() < all ? "stopped" : "returned");
}
static void normal() {
  const Pddl& p = *W.pddl;
  bool ax = symx_split(symx_bool("axioms")), kw = symx_split(symx_bool("keywords"));
  std::string call = kCalls[symx_split(symx_int("call", 0, 8))];
  std::vector<Val> g = {P}, c = {P, call};
  std::map<std::string, Val> k;
  if (ax && kw) k["apply_axioms"] = true;
  if (ax && !kw) { g.push_back(true); c.push_back(true); }
  agree("DisjunctiveFormula.normalize_goal", g, [&] { return DisjunctiveFormula::NormalizeGoal(p, ax); }, k);
  agree("DisjunctiveFormula.normalize_conditions", c, [&] { return DisjunctiveFormula::NormalizeConditions(p, call, ax); }, k);
  Val f = agree("DisjunctiveFormula.normalize_preconditions", c, [&] { return DisjunctiveFormula::NormalizePreconditions(p, call, ax); }, k);
  agree("DisjunctiveFormula.normalize_postconditions", c, [&] { return DisjunctiveFormula::NormalizePostconditions(p, call, ax); }, k);
  if (f.k != Val::Obj) return;
  const DisjunctiveFormula& d = f.as<DisjunctiveFormula>();
  agree("DisjunctiveFormula.__repr__", {f}, [&] { return str(d); });
  Val cs = agree("DisjunctiveFormula.conjunctions", {f}, [&]() -> auto& { return d.conjunctions; });
  for (size_t i = 0; i < d.conjunctions.size(); i++) {
    const PartialState& s = d.conjunctions[i];
    agree("PartialState.pos", {cs.v[i]}, [&] { return Stringify(s.pos()); });
    agree("PartialState.neg", {cs.v[i]}, [&] { return Stringify(s.neg()); });
    agree("PartialState.__repr__", {cs.v[i]}, [&] { return str(s); });
    for (const auto& axm : p.axioms()) agree("Axiom.is_consistent", {ref(*axm), cs.v[i]}, [&] { return axm->IsConsistent(s); });
  }
}
SYMX_HARNESS(state, setup, state, BOTH);
SYMX_HARNESS(tuples, setup, tuples, BOTH);
SYMX_HARNESS(partial, setup, partial, BOTH);
SYMX_HARNESS(plans, setup, plans, BOTH);
SYMX_HARNESS(attrs, setup, attrs, BOTH);
SYMX_HARNESS(indices, setup, indices, BOTH);
SYMX_HARNESS(edit, setup, edit, BOTH);
SYMX_HARNESS(planner, setup, planner, BOTH);
SYMX_HARNESS(timeout, setup, timeout, BOTH);
SYMX_HARNESS(normal, setup, normal, BOTH);
