// P35: adding and removing objects keeps the object list consistent.
// symx: sources=DOMAIN assumptions="parse trees come from the VAL stand-in in shim/|an object is added under a name that is not in use|removed objects are not mentioned by the initial state, the goal or the domain's formulas|actions, axioms and derived predicates created before the change keep ranging over the earlier objects (known finding KF20, harness generators)"
// symx: harness history bounds="6 tasks (constants and a 4-type hierarchy, no constants, no types, no :objects section, a domain alone with or without constants), all histories of up to 3 additions and removals over 6 names (a constant, problem objects, fresh and unknown names) and 5 types, checked after each" require=done,removed,added,unknown budget=200
// symx: harness history4 bounds="as history with up to 4 operations" require=done thorough_budget=3000
// symx: harness roundtrip bounds="adding then removing one of 4 names of any type, 1-3 times, against a task never changed, in the 6 tasks" require=done
// symx: harness listed bounds="valid actions after adding an object of any type, removing an object, or both, in the 6 tasks" require=done
// symx: harness generators bounds="as listed in 3 tasks, the parameter generator of an action" require=done
#include "world.h"
using symbolic::Formula;
typedef std::vector<std::pair<std::string, std::string>> Model;
static const char* kDom[] = {
  "(define (domain dom) (:requirements :typing) (:types t1 - object t2 - t1 t3 - t2 u - object) (:constants a - t2) (:predicates (p ?x - t1) (z))"
  " (:action one :parameters (?x - t1) :precondition (not (p ?x)) :effect (p ?x)))",
  "(define (domain dom) (:requirements :typing) (:types t1 - object t2 - t1 t3 - t2 u - object) (:predicates (p ?x - t1) (z))"
  " (:action one :parameters (?x - t1) :precondition (not (p ?x)) :effect (p ?x)))",
  "(define (domain dom) (:constants a) (:predicates (p ?x) (z))"
  " (:action one :parameters (?x) :precondition (not (p ?x)) :effect (p ?x)))"};
static const int kDomOf[] = {0, 1, 2, 0, 0, 1};
static const char* kProb[] = {
  "(define (problem x) (:domain dom) (:objects b - t2 c - u d - t1) (:init (p d)) (:goal (forall (?x - t1) (p ?x))))",
  "(define (problem x) (:domain dom) (:objects b - t2 c - u d - t1) (:init (p d)) (:goal (forall (?x - t1) (p ?x))))",
  "(define (problem x) (:domain dom) (:objects b c d) (:init (p d)) (:goal (forall (?x) (p ?x))))",
  "(define (problem x) (:domain dom) (:init) (:goal (forall (?x - t1) (p ?x))))", "", ""};
static const int kTasks = 5;  // last task
static bool alone(int dom) { return dom >= 4; }
static const Model kObjs[] = {{{"a", "t2"}, {"b", "t2"}, {"c", "u"}, {"d", "t1"}}, {{"b", "t2"}, {"c", "u"}, {"d", "t1"}}, {{"a", "object"}, {"b", "object"}, {"c", "object"}, {"d", "object"}}, {{"a", "t2"}}, {{"a", "t2"}}, {}};
static Pddl* make(int d) {
  valshim::inlineFile("<domain>", kDom[kDomOf[d]]);
  if (alone(d)) return new Pddl("<domain>");
  valshim::inlineFile("<pddl string>", kProb[d]);
  return new Pddl("<domain>", kProb[d]);
}
static bool isa(const std::string& t, const std::string& s) {
  if (s == "object" || t == s) return true;
  if (t == "t3") return s == "t2" || s == "t1";
  return t == "t2" && s == "t1";
}
static int find(const Model& m, const std::string& n) { for (size_t i = 0; i < m.size(); i++) if (m[i].first == n) return (int)i; return -1; }
static const char* kNames[] = {"a", "b", "c", "n", "m", "cc"};
static const char* kTypes[] = {"t1", "t2", "t3", "u", "object"};
static void check(Pddl& p, int dom, const Model& m, bool constant) {
  bool typed = dom != 2;
  symx_assert(p.objects().size() == m.size(), "number of objects");
  for (size_t i = 0; i < m.size(); i++) {
    symx_assert(p.objects()[i].name() == m[i].first, "objects in order: the others unaffected, an added one last");
    symx_assert(p.objects()[i].type().name() == m[i].second, "objects have the requested type");
    for (const char* t : kTypes) symx_assert(p.objects()[i].type().IsSubtype(t) == isa(m[i].second, t), "and are of its supertypes");
  }
  bool cons = constant;
  if (alone(dom)) symx_assert(symbolic::Stringify(p.constants()) == symbolic::Stringify(p.objects()), "objects of a domain alone are constants");
  else symx_assert(p.constants().size() == (cons ? 1u : 0u) && (!cons || p.constants()[0].name() == "a"), "constants");
  for (const char* n : kNames) {
    int i = find(m, n);
    bool known = true;
    try { Object o(p, n); symx_assert(i >= 0 && o == p.objects()[i] && o.type().name() == m[i].second && o.symbol() == p.objects()[i].symbol(), "an object is found by name"); } catch (const std::exception&) { known = false; }
    symx_assert(known == (i >= 0), "exactly the current objects are known by name");
    known = true;
    try { Proposition q(p, std::string("p(") + n + ")"); symx_assert(q.to_string() == std::string("p(") + n + ")", "propositions over the objects"); } catch (const std::exception&) { known = false; }
    symx_assert(known == (i >= 0), "propositions over exactly the current objects can be named");
  }
  for (const char* t : kTypes) {
    if (!typed && std::string(t) != "object") continue;
    std::vector<std::string> want;
    for (auto& o : m) if (isa(o.second, t)) want.push_back(o.first);
    auto it = p.object_map().find(t);
    if (it == p.object_map().end()) { symx_assert(want.empty(), "every type with objects is listed"); continue; }
    symx_assert(symbolic::Stringify(it->second) == want, "objects by type");
  }
  // calls over the objects
  for (auto& o : m) {
    if (typed && !isa(o.second, "t1")) continue;
    std::string call = "one(" + o.first + ")";
    symx_assert(p.IsValidAction(p.initial_state(), call) == (o.first != "d"), "actions can be called on the current objects");
    State s = p.NextState(p.initial_state(), call);
    symx_assert(s.size() == p.initial_state().size() + (o.first != "d" ? 1u : 0u) && s.contains(Proposition(p, "p(" + o.first + ")")), "with their effects");
  }
  if (alone(dom)) return;
  // formulas read now range over the current objects
  Formula all(p, p.symbol()->the_problem->the_goal);
  State s;
  int missing = -1;
  for (size_t i = 0; i < m.size(); i++) if (!typed || isa(m[i].second, "t1")) { symx_assert(missing < 0 || !all(s), "a quantifier needs every object"); s.emplace(p, "p(" + m[i].first + ")"); missing = (int)i; }
  symx_assert(all(s), "a quantifier ranges over no other objects");
}
static void history(int n) {
  int dom = (int)symx_split(symx_int("task", 0, kTasks));
  Pddl* p = make(dom);
  Model m = kObjs[dom];
  bool constant = kDomOf[dom] != 1;
  check(*p, dom, m, constant);
  int k = (int)symx_split(symx_int("operations", 1, n));
  for (int i = 0; i < k; i++) {
    std::string name = kNames[symx_split(symx_int("name", 0, 5))];
    int at = find(m, name);
    bool add = symx_split(symx_bool("add"));
    if (add) {
      if (at >= 0) return;
      std::string type = dom == 2 ? "object" : kTypes[symx_split(symx_int("type", 0, 4))];
      p->AddObject(name, type);
      m.push_back({name, type});
      symx_reach("added");
    } else {
      p->RemoveObject(name);
      if (name == "a") constant = false;
      if (at >= 0) { m.erase(m.begin() + at); symx_reach("removed"); } else symx_reach("unknown");
    }
    if (i + 1 == k) {
      check(*p, dom, m, constant);
    }
  }
  symx_reach("done");
}
static void history3() { history(3); }
static void history4() { history(4); }
static void roundtrip() {
  int dom = (int)symx_split(symx_int("task", 0, kTasks));
  Pddl* q = make(dom);
  Pddl* p = make(dom);
  int k = (int)symx_split(symx_int("times", 1, 3));
  for (int i = 0; i < k; i++) {
    std::string name = kNames[symx_split(symx_int("name", 3, 5))];
    std::string type = dom == 2 ? "object" : kTypes[symx_split(symx_int("type", 0, 4))];
    p->AddObject(name, type);
    p->RemoveObject(name);
  }
  symx_assert(symbolic::Stringify(p->objects()) == symbolic::Stringify(q->objects()), "same objects");
  symx_assert(symbolic::Stringify(p->constants()) == symbolic::Stringify(q->constants()), "same constants");
  for (auto& kv : q->object_map()) symx_assert(p->object_map().count(kv.first) && symbolic::Stringify(p->object_map().at(kv.first)) == symbolic::Stringify(kv.second), "same objects by type");
  symx_assert(symbolic::Stringify(p->initial_state()) == symbolic::Stringify(q->initial_state()), "same initial state");
  symx_assert(p->ListValidActions(p->initial_state()) == q->ListValidActions(q->initial_state()), "same valid actions");
  check(*p, dom, kObjs[dom], kDomOf[dom] != 1);
  symx_reach("done");
}
static std::vector<std::string> wanted(const Model& m, int dom) {
  std::vector<std::string> w;
  for (auto& o : m) if ((dom == 2 || isa(o.second, "t1")) && o.first != "d") w.push_back("one(" + o.first + ")");
  return w;
}
static Pddl* changed(int& dom, Model& m, int tasks = kTasks) {
  dom = (int)symx_split(symx_int("task", 0, tasks));
  Pddl* p = make(dom);
  m = kObjs[dom];
  bool add = symx_split(symx_bool("add"));
  if (add) {
    std::string type = dom == 2 ? "object" : kTypes[symx_split(symx_int("type", 0, 4))];
    p->AddObject("n", type);
    m.push_back({"n", type});
  }
  if (!add || symx_split(symx_bool("and remove"))) {
    std::string n = kNames[symx_split(symx_int("removed", 0, 2))];
    p->RemoveObject(n);
    if (find(m, n) >= 0) m.erase(m.begin() + find(m, n));
  }
  return p;
}
static void listed() {
  int dom;
  Model m;
  Pddl* p = changed(dom, m);
  symx_assert(p->ListValidActions(p->initial_state()) == wanted(m, dom), "valid actions range over the current objects");
  symx_reach("done");
}
static void generators() {
  int dom;
  Model m;
  Pddl* p = changed(dom, m, 2);
  symx_assert(p->actions()[0].parameter_generator().size() == wanted(m, dom).size() + 1, "generators created before the change do not follow it");
  symx_reach("done");
}
SYMX_HARNESS(history, nullptr, history3, QUICK);
SYMX_HARNESS(history4, nullptr, history4, THOROUGH);
SYMX_HARNESS(roundtrip, nullptr, roundtrip, BOTH);
SYMX_HARNESS(listed, nullptr, listed, BOTH);
SYMX_HARNESS(generators, nullptr, generators, BOTH);
