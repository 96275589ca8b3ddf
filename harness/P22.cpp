// P22: derived predicates hold exactly when their definition does.
// symx: include=abs sources=DOMAIN assumptions="states are the abstract set of abs/ (contract decided by P06/P07 for the real one)|parse trees come from the VAL stand-in in shim/"
// symx: harness orders bounds="three mutually layered rules (negation, quantifiers, equality) declared in any of 6 orders; every state over 10 basic and 7 derived atoms" require=done
// symx: harness chain bounds="a chain of four rules with one over a type without objects, declared in 3 orders, arbitrary states over 8 basic and 6 derived atoms; one at a time and all together; next states of an action" require=done
// symx: harness nullary bounds="a derived predicate without parameters" require=done
#include "world.h"
static World W;
static const char* kRules[] = {
    "(:derived (d1 ?x - t1) (and (p ?x) (not (z))))",
    "(:derived (d2 ?x - t2) (exists (?a - t1) (and (d1 ?a) (or (q ?a ?x) (q ?a a)))))",
    "(:derived (d3 ?x - t2 ?y - t2) (or (and (not (d2 ?y)) (not (= ?x ?y))) (and (d1 ?x) (d2 ?x))))"};
static const int kPerm[][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
static void checkAll() {
  Bits s = W.sym();
  Bits want = s;
  derive(W, want);
  State st = W.state(s);
  State r = W.pddl->DerivedState(st);
  symx_assert(W.same(r, want), "a derived proposition is in the state exactly when its definition holds there, all others unchanged");
  symx_assert(W.same(st, s), "the input is left alone");
  State again = W.pddl->DerivedState(r);
  symx_assert(again == r, "applying it again changes nothing");
  symbolic::DerivedPredicate::Apply(W.pddl->derived_predicates(), &st);
  symx_assert(st == r, "the in-place form agrees");
  symx_reach("done");
}
static void orders() {
  const int* o = kPerm[symx_split(symx_int("order", 0, 5))];
  std::string d = "(define (domain d) (:requirements :typing) (:types t1 - object t2 - t1) (:constants a - t2)"
                  " (:predicates (p ?x - t1) (q ?x - t1 ?y - t2) (z) (d1 ?x - t1) (d2 ?x - t2) (d3 ?x ?y - t2))";
  for (int i = 0; i < 3; i++) d += std::string(" ") + kRules[o[i]];
  W.load(d + ")", "(define (problem x) (:domain d) (:objects c - t1) (:init) (:goal (and)))");
  checkAll();
}
static const char* kChain[] = {
    "(:derived (e1 ?x - t) (forall (?v - t) (or (= ?v ?x) (q ?v ?x))))",
    "(:derived (e2 ?x - t) (and (not (e1 ?x)) (p ?x)))",
    "(:derived (e0 ?x - n) (p ?x))",
    "(:derived (e3 ?x - t) (exists (?v - t) (and (e2 ?v) (not (= ?v ?x)) (not (exists (?w - n) (e0 ?w))))))"};
static void chain() {
  static const int kO[][4] = {{0, 1, 2, 3}, {3, 2, 1, 0}, {1, 3, 0, 2}};
  const int* o = kO[symx_split(symx_int("order", 0, 2))];
  std::string d = "(define (domain d) (:requirements :typing) (:types t - object n - t)"
                  " (:predicates (p ?x - t) (q ?x ?y - t) (e1 ?x - t) (e2 ?x - t) (e0 ?x - n) (e3 ?x - t))"
                  " (:action put :parameters (?x ?y - t) :precondition (and) :effect (and (q ?x ?y) (not (p ?x))))";
  for (int i = 0; i < 4; i++) d += std::string(" ") + kChain[o[i]];
  W.load(d + ")", "(define (problem x) (:domain d) (:objects a b - t) (:init) (:goal (and)))");
  if (symx_split(symx_bool("action"))) {
    auto* op = W.ast->the_domain->ops->front();
    auto all = W.tuples(op->parameters);
    auto t = all[symx_split(symx_int("arguments", 0, 1)) ? 2 : 0];
    Bits s = W.sym(), want = applyRef(W, op, t, s);
    derive(W, want);
    std::string call = "put(" + W.objs[t[0]] + ", " + W.objs[t[1]] + ")";
    State st = W.state(s);
    symx_assert(W.same(W.pddl->NextState(st, call), want), "next states include the closure");
    symx_assert(W.same(W.pddl->ApplyActions(st, {call}), want), "executed states include the closure");
    symx_reach("done");
    return;
  }
  checkAll();
}
static void nullary() {
  W.load("(define (domain d) (:requirements :typing) (:types t) (:predicates (p ?x - t) (none)) (:derived (none) (not (exists (?v - t) (p ?v)))))",
         "(define (problem x) (:domain d) (:objects a b - t) (:init) (:goal (and)))");
  Bits s = W.sym();
  State st = W.state(s);
  State r = W.pddl->DerivedState(st);
  Bits want = s;
  derive(W, want);
  symx_assert(W.same(r, want), "derived predicate without parameters is not computed");
  symx_reach("done");
}
SYMX_HARNESS(orders, nullptr, orders, BOTH);
SYMX_HARNESS(chain, nullptr, chain, BOTH);
SYMX_HARNESS(nullary, nullptr, nullary, BOTH);
