// P34: a loaded task reflects its definition exactly.
// symx: sources=DOMAIN assumptions="parse trees come from the VAL stand-in in shim/ (VAL's own parser is not in the repository)"
// symx: harness objects bounds="all subsets of 4 constants and 4 objects over a 4-type hierarchy (every declaration order of 3 of them); :constants and :objects sections empty or left out; problem given as text or as file" require=done
// symx: harness predicates bounds="all sub-lists of 5 predicates of 0-3 parameters (typed, untyped), non-empty" require=done
// symx: harness operators bounds="all sub-lists of 4 actions and 3 axioms, interleaved" require=done
// symx: harness derived bounds="all sub-lists of 3 derived predicates" require=done
// symx: harness state bounds="all initial states out of 6 propositions (one given twice or not, constants included), 5 goals, with and without axioms, text or file" require=done
// symx: harness domainonly bounds="domain alone, or with an empty problem string, against domain with problem: all subsets of 2 constants, 2 actions, an axiom, a derived predicate" require=done
// symx: harness whitespace bounds="a problem text followed (and preceded) by any white space of up to 3 characters" require=done
// symx: harness rejected bounds="9 kinds of missing or ill-formed domain or problem" require=done
#include <set>
#include "world.h"
using symbolic::Action;
typedef std::vector<std::string> Strs;
static bool yes(const char* n) { return symx_split(symx_bool(n)); }
static void checkParams(const std::vector<Object>& got, const Strs& names, const Strs& types, const char* what) {
  symx_assert(got.size() == names.size(), what);
  for (size_t i = 0; i < names.size(); i++) {
    symx_assert(got[i].name() == names[i], what);
    symx_assert(got[i].type().name() == types[i], what);
  }
}
static Pddl* make(const std::string& dom, const std::string& prob, bool axioms = true) {
  valshim::inlineFile("<domain>", dom);
  bool file = yes("problem from file");
  valshim::inlineFile(file ? "<file>" : "<pddl string>", prob);
  Pddl* p = new Pddl("<domain>", file ? "<file>" : prob, axioms);
  symx_assert(p->domain_pddl() == "<domain>" && p->problem_pddl() == (file ? "<file>" : prob), "sources are kept");
  return p;
}
static const char* kTypes = "(define (domain dom) (:requirements :typing) (:types t1 - object t2 - t1 t3 - t2 u - object)";
static const char* kPreds = " (:predicates (p ?x - t1) (z))";
static void objects() {
  static const char* kN[] = {"a", "k", "c", "m"};
  static const char* kT[] = {"t2", "t1", "u", "t3"};
  static const char* kM[] = {"b", "a2", "zz", "o"};
  static const char* kU[] = {"t1", "t3", "t2", "object"};
  std::string c, o;
  Strs names, types, cn, ct;
  static const int perms[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  const int* pm = perms[symx_split(symx_int("order", 0, 5))];
  for (int j = 0; j < 4; j++) { int i = j < 3 ? pm[j] : 3; if (!yes(kN[i])) continue; c += std::string(" ") + kN[i] + " - " + kT[i]; names.push_back(kN[i]); types.push_back(kT[i]); }
  cn = names; ct = types;
  for (int i = 0; i < 4; i++) { if (!yes(kM[i])) continue; o += std::string(" ") + kM[i] + " - " + kU[i]; names.push_back(kM[i]); types.push_back(kU[i]); }
  std::string cons = cn.empty() ? (yes("empty constants section") ? " (:constants)" : "") : " (:constants" + c + ")";
  std::string objs = o.empty() && !yes("empty objects section") ? "" : " (:objects" + o + ")";
  Pddl* p = make(std::string(kTypes) + cons + kPreds + ")", "(define (problem x) (:domain dom)" + objs + " (:init) (:goal (and)))");
  checkParams(p->constants(), cn, ct, "constants in order of declaration with their types");
  checkParams(p->objects(), names, types, "objects: constants, then the problem's, in order of declaration");
  symx_assert(p->name() == "dom", "domain name");
  // by type, in order
  static const char* kAll[] = {"t1", "t2", "t3", "u", "object"};
  static const char* kUp[][5] = {{"t1", "object"}, {"t2", "t1", "object"}, {"t3", "t2", "t1", "object"}, {"u", "object"}, {"object"}};
  for (const char* t : kAll) {
    Strs want;
    for (size_t i = 0; i < names.size(); i++)
      for (int k = 0; k < 5; k++) if (types[i] == kAll[k]) for (int j = 0; j < 5 && kUp[k][j]; j++) if (std::string(kUp[k][j]) == t) want.push_back(names[i]);
    auto it = p->object_map().find(t);
    if (it == p->object_map().end()) { symx_assert(want.empty(), "every type with objects is listed"); continue; }
    symx_assert(symbolic::Stringify(it->second) == want, "objects of a type, subtypes included, in order");
  }
  for (size_t i = 0; i < names.size(); i++) {
    Object o2(*p, names[i]);
    symx_assert(o2 == p->objects()[i] && o2.type().name() == types[i], "objects are found by name");
  }
  bool unknown = false;
  try { Object o3(*p, "nobody"); } catch (const std::exception&) { unknown = true; }
  symx_assert(unknown, "other names are not");
  symx_reach("done");
}
static void predicates() {
  static const char* kP[] = {"(p ?x - t1)", "(q ?x - t1 ?y - t2)", "(z)", "(w ?x ?y ?z - u)", "(un ?x)"};
  static const char* kNames[] = {"p", "q", "z", "w", "un"};
  static const Strs kPar[] = {{"x"}, {"x", "y"}, {}, {"x", "y", "z"}, {"x"}};
  static const Strs kTy[] = {{"t1"}, {"t1", "t2"}, {}, {"u", "u", "u"}, {"object"}};
  std::string body;
  std::vector<int> in;
  bool rev = yes("reversed");
  for (int j = 0; j < 5; j++) { int i = rev ? 4 - j : j; if (yes(kNames[i])) { in.push_back(i); body += std::string(" ") + kP[i]; } }
  if (in.empty()) return;
  Pddl* p = make(std::string(kTypes) + " (:predicates" + body + "))", "(define (problem x) (:domain dom) (:objects b - t2 v - u) (:init) (:goal (and)))");
  symx_assert(p->predicates().size() == in.size(), "number of predicates");
  for (size_t i = 0; i < in.size(); i++) {
    symx_assert(p->predicates()[i].name() == kNames[in[i]], "predicates in order of declaration");
    checkParams(p->predicates()[i].parameters(), kPar[in[i]], kTy[in[i]], "parameters of predicates");
  }
  symx_assert(p->initial_state().empty(), "nothing holds initially");
  symx_reach("done");
}
static const char* kA[] = {"(:action one :parameters (?x - t1) :precondition (p ?x) :effect (z))",
                           "(:action two :parameters (?u ?v - t2 ?w - u) :precondition (not (p ?u)) :effect (p ?v))",
                           "(:action nil :parameters () :precondition (z) :effect (not (z)))",
                           "(:action four :parameters (?x) :precondition (and) :effect (z))"};
static const char* kAN[] = {"one", "two", "nil", "four"};
static const Strs kAP[] = {{"x"}, {"u", "v", "w"}, {}, {"x"}};
static const Strs kAT[] = {{"t1"}, {"t2", "t2", "u"}, {}, {"object"}};
static const char* kX[] = {"(:axiom :vars (?x - t1) :context (p ?x) :implies (z))", "(:axiom :vars (?y - t2) :context (not (p ?y)) :implies (not (z)))",
                           "(:axiom :vars (?x - t3 ?k - u) :context (p ?x) :implies (z))"};
static const Strs kXP[] = {{"x"}, {"y"}, {"x", "k"}};
static const Strs kXT[] = {{"t1"}, {"t2"}, {"t3", "u"}};
static void operators() {
  std::string body;
  std::vector<int> as, xs;
  bool first = yes("axioms first");
  for (int i = 0; i < 4; i++) {
    if (first && i < 3 && yes("axiom")) { xs.push_back(i); body += std::string(" ") + kX[i]; }
    if (yes(kAN[i])) { as.push_back(i); body += std::string(" ") + kA[i]; }
    if (!first && i < 3 && yes("axiom")) { xs.push_back(i); body += std::string(" ") + kX[i]; }
  }
  Pddl* p = make(std::string(kTypes) + kPreds + body + ")", "(define (problem x) (:domain dom) (:objects b - t2 c - t3) (:init) (:goal (and)))", false);
  symx_assert(p->actions().size() == as.size(), "number of actions");
  Strs names;
  for (size_t i = 0; i < as.size(); i++) {
    const Action& a = p->actions()[i];
    symx_assert(a.name() == kAN[as[i]], "actions in order of declaration");
    names.push_back(a.name());
    checkParams(a.parameters(), kAP[as[i]], kAT[as[i]], "parameters of actions");
    Action again(*p, a.name() + "()");
    symx_assert(again.symbol() == a.symbol(), "an action is found by name");
  }
  symx_assert(symbolic::Stringify(p->actions()) == names, "action names");
  symx_assert(p->axioms().size() == xs.size(), "number of axioms");
  for (size_t i = 0; i < xs.size(); i++) {
    checkParams(p->axioms()[i]->parameters(), kXP[xs[i]], kXT[xs[i]], "axioms in order of declaration with their variables");
    auto& c = p->axioms()[i]->context();
    symx_assert(c.name() == "p" && c.is_pos() == (xs[i] != 1), "context of an axiom");
  }
  size_t filed = 0;
  for (auto& m : p->axiom_map()) for (auto& w : m.second) {
    auto ax = w.lock();
    symx_assert((bool)ax && m.first == symbolic::SignedProposition::Sign(ax->context().is_pos()) + ax->context().name(), "axioms are filed by context");
    filed++;
  }
  symx_assert(filed == xs.size(), "every axiom is filed by its context");
  symx_reach("done");
}
static void derived() {
  static const char* kD[] = {"(:derived (d ?x - t1) (p ?x))", "(:derived (e ?x - t2 ?y - t1) (and (p ?x) (p ?y)))", "(:derived (f) (z))"};
  static const char* kDN[] = {"d", "e", "f"};
  static const Strs kDP[] = {{"x"}, {"x", "y"}, {}};
  static const Strs kDT[] = {{"t1"}, {"t2", "t1"}, {}};
  std::string body;
  std::vector<int> in;
  bool rev = yes("reversed");
  for (int j = 0; j < 3; j++) { int i = rev ? 2 - j : j; if (yes(kDN[i])) { in.push_back(i); body += std::string(" ") + kD[i]; } }
  Pddl* p = make(std::string(kTypes) + " (:predicates (p ?x - t1) (z) (d ?x - t1) (e ?x - t2 ?y - t1) (f))" + body + ")",
                 "(define (problem x) (:domain dom) (:objects b - t2 c - t3) (:init (p b)) (:goal (and)))");
  symx_assert(p->derived_predicates().size() == in.size(), "number of derived predicates");
  for (size_t i = 0; i < in.size(); i++) {
    symx_assert(p->derived_predicates()[i].name() == kDN[in[i]], "derived predicates in order of declaration");
    checkParams(p->derived_predicates()[i].parameters(), kDP[in[i]], kDT[in[i]], "parameters of derived predicates");
  }
  symx_reach("done");
}
static void state() {
  static const char* kI[] = {"(p b)", "(p a)", "(q a b)", "(q b a)", "(z)", "(p c)"};
  static const char* kJ[] = {"p(b)", "p(a)", "q(a, b)", "q(b, a)", "z()", "p(c)"};
  static const char* kG[] = {"(and)", "(p a)", "(and (p b) (not (z)))", "(exists (?v - t2) (q ?v a))", "(forall (?v - t2) (or (p ?v) (z)))"};
  std::string init;
  std::set<std::string> want;
  for (int i = 0; i < 6; i++) if (yes(kJ[i])) { init += kI[i]; want.insert(kJ[i]); }
  if (!want.empty() && yes("given twice")) { init += "(z)"; want.insert("z()"); }
  int g = (int)symx_split(symx_int("goal", 0, 4));
  bool axioms = yes("apply axioms");
  Pddl* p = make(std::string(kTypes) + " (:constants a - t2) (:predicates (p ?x - t1) (q ?x ?y - t2) (z) (l))"
                 " (:axiom :vars (?x - t2 ?y - t2) :context (q ?x ?y) :implies (l)))",
                 "(define (problem x) (:domain dom) (:objects b - t2 c - t3) (:init " + init + ") (:goal " + kG[g] + "))", axioms);
  bool q = want.count("q(a, b)") || want.count("q(b, a)");
  if (axioms && q) want.insert("l()");
  symx_assert(symbolic::Stringify(p->initial_state()) == want, "the initial state is the declared one");
  // the goal, in that state
  auto has = [&](const char* t) { return want.count(t) > 0; };
  bool b = has("p(b)"), a = has("p(a)"), c = has("p(c)"), z = has("z()");
  bool truth[] = {true, a, b && !z, has("q(a, a)") || has("q(b, a)") || has("q(c, a)"), z || (a && b && c)};
  symx_assert(p->goal()(p->initial_state()) == truth[g], "the goal is the declared one");
  symx_assert(p->IsGoalSatisfied(want) == truth[g], "so when asked by name");
  symx_reach("done");
}
static void domainonly() {
  std::string body = kTypes, cons;
  if (yes("a")) cons += " a - t2";
  if (yes("k")) cons += " k - t1";
  if (!cons.empty()) body += " (:constants" + cons + ")";
  body += " (:predicates (p ?x - t1) (z) (d ?x - t1))";
  if (yes("one")) body += std::string(" ") + kA[0];
  if (yes("axiom")) body += std::string(" ") + kX[0];
  if (yes("two")) body += std::string(" ") + kA[1];
  if (yes("derived")) body += " (:derived (d ?x - t1) (p ?x))";
  Pddl* p = make(body + ")", "(define (problem x) (:domain dom) (:objects b - t2) (:init) (:goal (and)))");
  bool empty = yes("empty problem");
  Pddl* dp = empty ? new Pddl("<domain>", "", yes("apply axioms")) : new Pddl("<domain>");
  Pddl& d = *dp;
  symx_assert(d.name() == p->name(), "name");
  symx_assert(symbolic::Stringify(d.constants()) == symbolic::Stringify(p->constants()), "constants");
  symx_assert(symbolic::Stringify(d.objects()) == symbolic::Stringify(p->constants()), "the constants are the only objects of a domain alone");
  symx_assert(symbolic::Stringify(d.actions()) == symbolic::Stringify(p->actions()), "actions");
  symx_assert(d.predicates().size() == p->predicates().size() && d.axioms().size() == p->axioms().size() && d.derived_predicates().size() == p->derived_predicates().size(), "predicates, axioms and derived predicates");
  for (size_t i = 0; i < d.predicates().size(); i++) symx_assert(d.predicates()[i].name() == p->predicates()[i].name() && symbolic::Stringify(d.predicates()[i].parameters()) == symbolic::Stringify(p->predicates()[i].parameters()), "predicates");
  for (size_t i = 0; i < d.actions().size(); i++) symx_assert(symbolic::Stringify(d.actions()[i].parameters()) == symbolic::Stringify(p->actions()[i].parameters()), "action parameters");
  symx_assert(d.initial_state().empty(), "no initial state");
  // actions of the domain alone can be used on its constants
  for (auto& a : d.actions()) for (auto& args : a.parameter_generator()) { State s; a.Apply(args, &s); symx_assert(s.size() == 1, "actions work on the constants"); }
  symx_reach("done");
}
static void whitespace() {
  static const char kW[] = " \n\r\t";
  std::string before, after;
  for (int n = (int)symx_split(symx_int("before", 0, 2)); n-- > 0;) before += kW[symx_split(symx_int("space", 0, 3))];
  for (int n = (int)symx_split(symx_int("after", 0, 3)); n-- > 0;) after += kW[symx_split(symx_int("space", 0, 3))];
  valshim::inlineFile("<domain>", std::string(kTypes) + kPreds + ")");
  std::string prob = before + "(define (problem x) (:domain dom) (:objects b - t2) (:init (p b)) (:goal (z)))" + after;
  valshim::inlineFile("<pddl string>", prob);
  Pddl p("<domain>", prob);
  symx_assert(symbolic::Stringify(p.objects()) == Strs{"b"} && symbolic::Stringify(p.initial_state()) == std::set<std::string>{"p(b)"}, "white space around a problem text means nothing");
  symx_reach("done");
}
static void rejected() {
  const std::string dom = std::string(kTypes) + kPreds + ")", prob = "(define (problem x) (:domain dom) (:objects b - t2) (:init (p b)) (:goal (z)))";
  int k = (int)symx_split(symx_int("kind", 0, 8));
  std::string d = dom, p = prob, name = "<domain>";
  bool only = false;
  switch (k) {
    case 0: name = "/nowhere/domain.pddl"; break;
    case 1: d = dom.substr(0, dom.size() - 1); break;
    case 2: d = prob; break;
    case 3: p = "/nowhere/problem.pddl"; break;
    case 4: p = "(define (problem x) (:domain dom) (:objects b - t2) (:init (p nobody)) (:goal (z)))"; break;
    case 5: p = dom; break;
    case 6: name = "/nowhere/domain.pddl"; p = ""; break;
    case 7: name = "/nowhere/domain.pddl"; only = true; break;
    case 8: p = " \n"; break;
  }
  valshim::inlineFile("<domain>", d);
  valshim::inlineFile("<pddl string>", p);
  bool threw = false;
  try {
    if (only) new Pddl(name);
    else new Pddl(name, p);
  } catch (const std::exception&) { threw = true; }
  symx_assert(threw, "missing or ill-formed input is rejected");
  symx_reach("done");
}
SYMX_HARNESS(objects, nullptr, objects, BOTH);
SYMX_HARNESS(predicates, nullptr, predicates, BOTH);
SYMX_HARNESS(operators, nullptr, operators, BOTH);
SYMX_HARNESS(derived, nullptr, derived, BOTH);
SYMX_HARNESS(state, nullptr, state, BOTH);
SYMX_HARNESS(domainonly, nullptr, domainonly, BOTH);
SYMX_HARNESS(whitespace, nullptr, whitespace, BOTH);
SYMX_HARNESS(rejected, nullptr, rejected, BOTH);
