// P20: listed valid actions are exactly the applicable ones.
// symx: include=abs sources=DOMAIN assumptions="states are the abstract set of abs/ (contract decided by P06/P07 for the real one)|parse trees come from the VAL stand-in in shim/"
// symx: harness list bounds="6 actions of 1-3 parameters (one over a type without objects, quantified and disjunctive preconditions) over 4 objects; every state of 10 atoms: the listing of all actions and of each action's arguments" require=done,some,none
// symx: harness single bounds="every well-typed call of the 6 actions, every state of 10 atoms: single-call validity" require=done,valid,invalid
// symx: harness strings bounds="every state over 7 of the atoms: the string-based forms" require=done
// symx: harness nullary bounds="an action without parameters, both states" require=done
// symx: harness derived bounds="2 actions over a derived predicate, every state of 6 atoms, whether or not its derived propositions follow from the others: objects, strings and single calls" require=done,some,none
// symx: harness strings10 bounds="every state over all 10 atoms" require=done thorough_budget=2400
#include <algorithm>
#include <set>
#include "world.h"
static World W;
static std::vector<std::string> calls;
static std::vector<const VAL::operator_*> callOp;
static std::vector<std::vector<int>> callArgs;
static const char* kDomain =
    "(define (domain d) (:requirements :typing) (:types t1 - object t2 - t1 t3 - object) (:constants a - t2)"
    " (:predicates (p ?x - t1) (q ?x - t1 ?y - t2) (z))"
    " (:action one :parameters (?x - t2) :precondition (exists (?v - t1) (and (q ?v ?x) (not (= ?v ?x)))) :effect (p ?x))"
    " (:action two :parameters (?x - t1 ?y - t2) :precondition (and (p ?x) (not (q ?x ?y))) :effect (q ?x ?y))"
    " (:action none :parameters (?x - t2 ?y - t3) :precondition (and) :effect (p ?x))"
    " (:action any :parameters (?x) :precondition (or (t2 ?x) (z)) :effect (z))"
    " (:action three :parameters (?x ?y - t2 ?u - t1) :precondition (and (or (not (= ?x ?y)) (= ?u ?x)) (or (z) (p ?u))) :effect (not (z)))"
    " (:action all :parameters (?x - t1) :precondition (and (not (z)) (forall (?v - t2) (p ?v))) :effect (p ?x)))";
static const char* kProblem = "(define (problem x) (:domain d) (:objects b - t2 c - t1 o - object) (:init) (:goal (p a)))";
static void setup() {
  W.load(kDomain, kProblem);
  for (auto* op : *W.ast->the_domain->ops)
    for (auto& t : W.tuples(op->parameters)) {
      std::string c = op->name->getNameRef() + "(";
      for (size_t i = 0; i < t.size(); i++) c += (i ? ", " : "") + W.objs[t[i]];
      calls.push_back(c + ")"); callOp.push_back(op); callArgs.push_back(t);
    }
}
static bool applicable(int c, const Bits& s) { return holds(W, callOp[c]->precondition, bindv({}, callOp[c]->parameters, callArgs[c]), s); }
// the listed calls, each once, are exactly those applicable
static void compare(const std::vector<std::string>& got, const Bits& s, const char* what) {
  bool ok = true; size_t n = 0;
  std::vector<std::string> g = got;
  std::sort(g.begin(), g.end());
  for (size_t i = 1; i < g.size(); i++) ok &= g[i] != g[i - 1];
  for (size_t c = 0; c < calls.size(); c++) { bool in = std::binary_search(g.begin(), g.end(), calls[c]); ok &= in == applicable((int)c, s); n += in; }
  symx_assert(ok & (n == g.size()), what);
}
static std::vector<std::string> fromArgs(const symbolic::Action& a, const std::vector<std::vector<Object>>& l) {
  std::vector<std::string> r;
  for (auto& t : l) r.push_back(a.to_string(t));
  return r;
}
static void list() {
  Bits s = W.sym();
  State st = W.state(s), before = st;
  std::vector<std::string> acts = W.pddl->ListValidActions(st);
  compare(acts, s, "the listed actions are exactly the applicable ones, each once");
  std::vector<std::string> per;
  for (const auto& a : W.pddl->actions()) for (auto& c : fromArgs(a, W.pddl->ListValidArguments(st, a))) per.push_back(c);
  std::vector<std::string> x = acts, y = per;
  std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end());
  symx_assert(x == y, "the per-action argument listing agrees");
  symx_assert(W.same(st, s), "the state is left alone");
  symx_assert(W.pddl->ListValidActions(st) == acts, "same answer when asked again");
  symx_reach(acts.size() <= 3 ? "none" : "some");
  symx_reach("done");
}
static void single() {
  int c = (int)symx_split(symx_int("call", 0, (int)calls.size() - 1));
  Bits s = W.sym();
  State st = W.state(s);
  bool v = W.pddl->IsValidAction(st, calls[c]);
  symx_assert(v == applicable(c, s), "a single call is valid exactly when its precondition holds");
  symx_reach(symx_split(v) ? "valid" : "invalid");
  symx_reach("done");
}
static void stringsN(int skip) {
  Bits s = W.sym();
  std::set<std::string> str;
  for (int i = 0; i < W.n(); i++) {
    if (i < skip && i % 2) { symx_assume(!s[i]); s[i] = false; }
    s[i] = symx_split(s[i]);
    if (s[i]) str.insert(W.atoms[i].text);
  }
  compare(W.pddl->ListValidActions(str), s, "listing from strings agrees");
  std::vector<std::string> per;
  for (const auto& a : W.pddl->actions())
    for (auto& t : W.pddl->ListValidArguments(str, a.name())) {
      std::string c = a.name() + "(";
      for (size_t i = 0; i < t.size(); i++) c += (i ? ", " : "") + t[i];
      per.push_back(c + ")");
    }
  compare(per, s, "argument listing from strings agrees");
  symx_reach("done");
}
static void strings() { stringsN(6); }
static void strings10() { stringsN(0); }
static World N;
static void setupN() {
  N.load("(define (domain d) (:requirements :typing) (:types t) (:predicates (p ?x - t) (z))"
         " (:action nil :parameters () :precondition (z) :effect (not (z))))",
         "(define (problem x) (:domain d) (:objects a - t) (:init) (:goal (z)))");
}
static void nullary() {
  Bits s = N.sym();
  State st = N.state(s);
  bool v = N.pddl->IsValidAction(st, "nil()");
  symx_assert(v == s[N.atom("z()")], "validity of a call without arguments");
  auto l = N.pddl->ListValidActions(st);
  symx_assert(l.size() == (v ? 1 : 0), "applicable action without parameters is not listed");
  symx_reach("done");
}
static World V;
static std::vector<std::string> vcalls;
static std::vector<const VAL::operator_*> vop;
static std::vector<std::vector<int>> vargs;
static void setupV() {
  V.load("(define (domain d) (:requirements :typing :derived-predicates) (:types t) (:predicates (p ?x - t) (e ?x - t) (f ?x - t))"
         " (:derived (e ?x - t) (p ?x)) (:derived (f ?x - t) (exists (?y - t) (and (e ?y) (not (= ?x ?y)))))"
         " (:action one :parameters (?x - t) :precondition (not (e ?x)) :effect (p ?x))"
         " (:action two :parameters (?x - t) :precondition (and (f ?x) (p ?x)) :effect (not (p ?x))))",
         "(define (problem x) (:domain d) (:objects a b - t) (:init (p a)) (:goal (p b)))");
  for (auto* op : *V.ast->the_domain->ops)
    for (auto& t : V.tuples(op->parameters)) { vcalls.push_back(op->name->getNameRef() + "(" + V.objs[t[0]] + ")"); vop.push_back(op); vargs.push_back(t); }
}
static void derived() {
  Bits s = V.sym();
  std::set<std::string> str;
  for (int i = 0; i < V.n(); i++) { s[i] = symx_split(s[i]); if (s[i]) str.insert(V.atoms[i].text); }
  std::set<std::string> want, per, perStr;
  for (size_t c = 0; c < vcalls.size(); c++) if (holds(V, vop[c]->precondition, bindv({}, vop[c]->parameters, vargs[c]), s)) want.insert(vcalls[c]);
  State st = V.state(s);
  auto setOf = [](const std::vector<std::string>& l) { return std::set<std::string>(l.begin(), l.end()); };
  size_t n = 0, m = 0;
  for (const auto& a : V.pddl->actions()) {
    for (auto& c : fromArgs(a, V.pddl->ListValidArguments(st, a))) { per.insert(c); n++; }
    for (auto& t : V.pddl->ListValidArguments(str, a.name())) { perStr.insert(a.name() + "(" + t.at(0) + ")"); m++; }
  }
  auto l = V.pddl->ListValidActions(st), k = V.pddl->ListValidActions(str);
  symx_assert(setOf(l) == want && l.size() == want.size(), "derived: listing from a state");
  symx_assert(setOf(k) == want && k.size() == want.size(), "derived: listing from strings");
  symx_assert(per == want && n == want.size(), "derived: argument listing from a state");
  symx_assert(perStr == want && m == want.size(), "derived: argument listing from strings");
  for (size_t c = 0; c < vcalls.size(); c++) {
    symx_assert(V.pddl->IsValidAction(st, vcalls[c]) == (want.count(vcalls[c]) > 0), "derived: single call on a state");
  }
  symx_reach(want.empty() ? "none" : "some");
  symx_reach("done");
}
SYMX_HARNESS(derived, setupV, derived, BOTH);
SYMX_HARNESS(list, setup, list, BOTH);
SYMX_HARNESS(single, setup, single, BOTH);
SYMX_HARNESS(strings, setup, strings, QUICK);
SYMX_HARNESS(nullary, setupN, nullary, BOTH);
SYMX_HARNESS(strings10, setup, strings10, THOROUGH);
