// P21: plan execution, step validation and plan validation agree.
// symx: include=abs sources=DOMAIN assumptions="states are the abstract set of abs/ (contract decided by P06/P07 for the real one)|parse trees come from the VAL stand-in in shim/"
// symx: harness plans bounds="all plans of 0..3 calls out of 8, from every initial state over 7 atoms (one derived predicate): execution, validation" require=done,valid,invalid
// symx: harness tuples bounds="every call, every state and every next state over 7 atoms" require=done,valid,invalid
// symx: harness strings bounds="every call, every state, the true successor with one proposition flipped or not: string-based forms; goal test on every state" require=done,valid
// symx: harness plans3 bounds="plans of 0..4 calls" require=done thorough_budget=2400
#include <set>
#include "world.h"
static World W;
static std::vector<std::string> calls;
static std::vector<const VAL::operator_*> callOp;
static std::vector<std::vector<int>> callArgs;
static void setup() {
  W.load("(define (domain d) (:requirements :typing) (:types t) (:predicates (p ?x - t) (r ?x - t) (z) (d ?x - t))"
         " (:derived (d ?x - t) (and (p ?x) (not (r ?x))))"
         " (:action use :parameters (?x - t) :precondition (p ?x) :effect (and (not (p ?x)) (r ?x)))"
         " (:action link :parameters (?x ?y - t) :precondition (and (d ?x) (not (= ?x ?y))) :effect (and (p ?y) (when (r ?y) (z))))"
         " (:action reset :parameters (?x - t) :precondition (or (z) (r ?x)) :effect (and (not (r ?x)) (p ?x))))",
         "(define (problem x) (:domain d) (:objects a b - t) (:init) (:goal (and (or (z) (d a)) (forall (?v - t) (p ?v)))))");
  for (auto* op : *W.ast->the_domain->ops)
    for (auto& t : W.tuples(op->parameters)) {
      std::string c = op->name->getNameRef() + "(";
      for (size_t i = 0; i < t.size(); i++) c += (i ? ", " : "") + W.objs[t[i]];
      calls.push_back(c + ")"); callOp.push_back(op); callArgs.push_back(t);
    }
}
static bool applicable(int c, const Bits& s) { return holds(W, callOp[c]->precondition, bindv({}, callOp[c]->parameters, callArgs[c]), s); }
static Bits next(int c, const Bits& s) { Bits r = applyRef(W, callOp[c], callArgs[c], s); derive(W, r); return r; }
static void plansN(int maxn) {
  int n = (int)symx_split(symx_int("steps", 0, maxn));
  std::vector<int> p; std::vector<std::string> plan;
  for (int i = 0; i < n; i++) { p.push_back((int)symx_split(symx_int("call", 0, (int)calls.size() - 1))); plan.push_back(calls[p[i]]); }
  Bits s = W.sym(), x = s;
  State st = W.state(s), fold = st;
  bool ok = true;
  for (int c : p) { ok &= applicable(c, x); x = next(c, x); fold = W.pddl->NextState(fold, calls[c]); }
  State end = W.pddl->ApplyActions(st, plan);
  symx_assert(W.same(end, x), "execution leads to the state the effects say");
  symx_assert(end == fold, "execution is the folding of single steps");
  symx_assert(W.same(st, s), "the start state is left alone");
  bool goal = holds(W, W.ast->the_problem->the_goal, {}, x);
  symx_assert(W.pddl->IsGoalSatisfied(end) == goal, "goal test");
  W.pddl->set_initial_state(W.state(s));
  bool v = W.pddl->IsValidPlan(plan);
  symx_assert(v == (ok & goal), "a plan is valid exactly when each call is applicable in turn and the goal holds at the end");
  symx_assert(W.same(W.pddl->initial_state(), s), "validation leaves the initial state alone");
  symx_reach(symx_split(v) ? "valid" : "invalid");
  symx_reach("done");
}
static void plans() { plansN(3); }
static void plans3() { plansN(4); }
static void tuples() {
  int c = (int)symx_split(symx_int("call", 0, (int)calls.size() - 1));
  Bits s = W.sym(), t = W.sym();
  State st = W.state(s), tt = W.state(t);
  bool v = W.pddl->IsValidTuple(st, calls[c], tt);
  symx_assert(v == (applicable(c, s) & equal(W, next(c, s), t)), "a step is valid exactly when applicable and leading to that state");
  symx_assert(W.same(st, s) & W.same(tt, t), "the states are left alone");
  symx_reach(symx_split(v) ? "valid" : "invalid");
  symx_reach("done");
}
static void strings() {
  int c = (int)symx_split(symx_int("call", 0, (int)calls.size() - 1));
  Bits s = W.sym();
  for (int i = 0; i < W.n(); i++) s[i] = symx_split(s[i]);
  Bits t = next(c, s);
  int flip = (int)symx_split(symx_int("flip", 0, 4)) * 2;
  if (flip < W.n()) t[flip] = !t[flip];
  std::set<std::string> ss, ts;
  for (int i = 0; i < W.n(); i++) { if (s[i]) ss.insert(W.atoms[i].text); if (t[i]) ts.insert(W.atoms[i].text); }
  bool v = W.pddl->IsValidTuple(ss, calls[c], ts);
  symx_assert(v == W.pddl->IsValidTuple(W.state(s), calls[c], W.state(t)), "the string-based form agrees");
  symx_assert(v == (applicable(c, s) & equal(W, next(c, s), t)), "a step is valid exactly when applicable and leading to that state");
  symx_assert(W.pddl->IsGoalSatisfied(ss) == holds(W, W.ast->the_problem->the_goal, {}, s), "string-based goal test");
  if (v) symx_reach("valid");
  symx_reach("done");
}
SYMX_HARNESS(plans, setup, plans, BOTH);
SYMX_HARNESS(tuples, setup, tuples, BOTH);
SYMX_HARNESS(strings, setup, strings, BOTH);
SYMX_HARNESS(plans3, setup, plans3, THOROUGH);
