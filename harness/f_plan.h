// Small planning tasks: two actions of symbolic structure over 5 (or 6) propositions.
#pragma once
#include "world.h"
#include "symbolic/planning/planner.h"
static World W;
static const char* kPre[] = {"(p ?x)", "(and (not (p ?x)) (z))", "(or (r ?x) (not (z)))", "(exists (?v - t) (and (p ?v) (not (= ?v ?x))))", "(and)"};
static const char* kEff[] = {"(not (p ?x))", "(and (p ?x) (not (z)))", "(and (r ?x) (when (p ?x) (z)))", "(forall (?v - t) (when (r ?v) (p ?v)))", "(z)"};
static const char* kGoals[] = {"(forall (?v - t) (p ?v))", "(and (not (p a)) (r a))", "(or (z) (r b))", "(not (exists (?v - t) (or (p ?v) (r ?v))))",
                               "(exists (?v - t) (d ?v))", "(and (d a) (not (d b)))"};  // the last two for the task with a derived predicate
static std::string act(const char* name, int pre, int eff, const char* vars = "?x - t") {
  return std::string(" (:action ") + name + " :parameters (" + vars + ") :precondition " + kPre[pre] + " :effect " + kEff[eff] + ")";
}
static std::string task(const std::string& body) {
  return "(define (domain d) (:requirements :typing) (:types t u - object) (:constants a - t) (:predicates (p ?x - t) (r ?x - t) (z)" + body + ")";
}
static std::string problem(int goal, const std::string& init = "") { return "(define (problem x) (:domain d) (:objects b - t) (:init" + init + ") (:goal " + kGoals[goal] + "))"; }
// no parameters, empty parameter ranges, derived predicates, axioms
static const char* kBodies[] = {
    ") (:action one :parameters (?x - t) :precondition (p ?x) :effect (and (not (p ?x)) (r ?x)))"
    " (:action two :parameters (?x ?y - t) :precondition (and (r ?x) (not (= ?x ?y))) :effect (and (p ?y) (z) (not (r ?x))))",
    ") (:action never :parameters (?x - u) :precondition (and) :effect (z))"
    " (:action one :parameters (?x - t) :precondition (not (z)) :effect (and (z) (not (p ?x))))"
    " (:action never2 :parameters (?x - t ?y - u) :precondition (and) :effect (z))"
    " (:action two :parameters (?x - t) :precondition (z) :effect (and (not (z)) (when (p ?x) (r ?x))))"
    " (:action never3 :parameters (?y - u) :precondition (and) :effect (z))",
    " (d ?x - t)) (:derived (d ?x - t) (and (p ?x) (not (r ?x))))"
    " (:action one :parameters (?x - t) :precondition (d ?x) :effect (r ?x))"
    " (:action two :parameters (?x - t) :precondition (not (d ?x)) :effect (and (p ?x) (not (r ?x))))",
    ") (:axiom :vars (?x - t) :context (p ?x) :implies (r ?x)) (:axiom :vars (?x - t) :context (not (r ?x)) :implies (not (p ?x)))"
    " (:action one :parameters (?x - t) :precondition (z) :effect (p ?x))"
    " (:action two :parameters (?x - t) :precondition (and) :effect (not (r ?x)))"
    " (:action three :parameters (?x ?y - t) :precondition (r ?x) :effect (and (z) (not (p ?y))))",
    " (d ?x - t) (e ?x - t)) (:derived (d ?x - t) (or (p ?x) (r ?x))) (:derived (e ?x - t) (forall (?v - t) (or (d ?x) (p ?v))))"
    " (:action one :parameters (?x - t) :precondition (not (r ?x)) :effect (and (p ?x) (r ?x)))"
    " (:action two :parameters (?x - t) :precondition (and (d ?x) (not (e ?x))) :effect (and (not (r ?x)) (z)))",
    ")"};  // no actions at all
const int kNBodies = 5, kNone = 5;
struct Call { const symbolic::Action* a; const VAL::operator_* op; std::vector<int> t; std::string text; };
static std::vector<Call> calls() {
  std::vector<Call> r;
  for (const symbolic::Action& a : W.pddl->actions())
    for (auto& t : W.tuples(a.symbol()->parameters)) {
      if (t.empty()) continue;  // known finding of P20: actions without parameters are not enumerated
      std::string c = a.name() + "(";
      for (size_t i = 0; i < t.size(); i++) c += (i ? ", " : "") + W.objs[t[i]];
      r.push_back({&a, a.symbol(), t, c + ")"});
    }
  return r;
}
static bool gAxioms = false;
static Bits successor(const Call& c, const Bits& s) {
  if (!gAxioms) { Bits r = applyRef(W, c.op, c.t, s); derive(W, r); return r; }
  // with axioms: what applying the action does is decided by P24
  State st = W.state(s), n = c.a->Apply(st, W.args(c.t));
  Bits r;
  for (int i = 0; i < W.n(); i++) r[i] = n.contains(W.props[i]);
  derive(W, r);
  return r;
}
static bool applicable(const Call& c, const Bits& s) { return holds(W, c.op->precondition, bindv({}, c.op->parameters, c.t), s); }
static Bits splitState() { Bits s = W.sym(); for (int i = 0; i < W.n(); i++) s[i] = symx_split(s[i]); return s; }
