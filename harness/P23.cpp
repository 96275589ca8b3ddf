// P23: axiom closure yields consistent states; validity is exact.
// symx: include=abs sources=DOMAIN assumptions="states are the abstract set of abs/ (contract decided by P06/P07 for the real one)|parse trees come from the VAL stand-in in shim/"
// symx: harness positive bounds="5 positive axioms (chain, cycle, constant in the context, variable outside the context, quantified effect), every state over 12 atoms" require=done,valid,invalid
// symx: harness mixed bounds="axioms with negative contexts, deletions and quantified effects, every state over 10 atoms" require=done,valid,invalid
// symx: harness impossible bounds="axioms asking for (in)equality, a type, a supertype or the root type; validity of every state over 9 atoms" require=done,valid,invalid
// symx: harness partial bounds="positive, mixed, contradicting and impossible axioms; every partial state over 6-8 atoms: validity, closure, rejection" require=done,rejected,grown
// symx: harness initial bounds="all initial states over 6 atoms, closed on request or left alone" require=done
#include "axioms.h"
#include "partial.h"
static World W;
static const char* kHead = "(define (domain d) (:requirements :typing) (:types t1 - object t2 - t1) (:constants a - t2)";
static const char* kProblem = "(define (problem x) (:domain d) (:objects b - t2 c - t1) (:init) (:goal (and)))";
static void load(const std::string& body) { W.load(kHead + body + ")", kProblem); }
static void checkFull(bool positive) {
  Bits s = W.sym();
  State st = W.state(s);
  bool v = W.pddl->IsValidState(st);
  symx_assert(v == validRef(W, s), "valid exactly when every axiom instance in context changes nothing and does not fail");
  symx_assert(W.same(st, s), "the state is left alone");
  symx_reach(symx_split(v) ? "valid" : "invalid");
  State c = W.pddl->ConsistentState(st);
  symx_assert(W.same(st, s), "the state is left alone");
  symx_assert(W.pddl->IsValidState(c), "the closure is valid");
  symx_assert((c == st) == v, "the closure changes nothing exactly on valid states");
  if (positive) {
    Bits fix = s;
    auto all = instances(W);
    for (int round = 0; round < 6; round++)
      for (auto& i : all) {
        std::vector<Lit> l; literals(W, i.ax->effects, envOf(i), l);
        bool on = holds(W, i.ax->precondition, envOf(i), fix);
        for (auto& x : l) fix[x.atom] |= on;
      }
    symx_assert(W.same(c, fix), "the closure is the least state containing the input that satisfies the axioms");
  }
  symx_reach("done");
}
static void setupPositive() {
  load(" (:predicates (p ?x - t1) (r ?x - t1) (s ?x - t2) (z) (q ?x - t2 ?y - t2))"
       " (:axiom :vars (?x ?y - t2) :context (q ?x ?y) :implies (p ?x))"
       " (:axiom :vars (?x - t1) :context (p ?x) :implies (r ?x))"
       " (:axiom :vars (?x - t1) :context (r ?x) :implies (p ?x))"
       " (:axiom :vars (?y - t2) :context (q a ?y) :implies (and (z) (forall (?v - t2) (s ?v))))"
       " (:axiom :vars (?x - t2 ?v - t2) :context (s ?x) :implies (q ?x ?x))");
}
static void positive() { checkFull(true); }
static void setupMixed() {
  load(" (:predicates (p ?x - t1) (s ?x - t2) (z) (q ?x - t2 ?y - t2))"
       " (:axiom :vars (?x - t2) :context (not (p ?x)) :implies (forall (?v - t2) (not (q ?x ?v))))"
       " (:axiom :vars (?x ?y - t2) :context (q ?x ?y) :implies (and (s ?y) (not (z))))"
       " (:axiom :vars (?x - t1) :context (z) :implies (not (p a)))");
}
static void mixed() { checkFull(false); }
static void setupImpossible() {
  W.load(std::string(kHead) + " (:predicates (p ?x - t1) (q ?x - t1 ?y - t2))"
       " (:axiom :vars (?x - t1 ?y - t2) :context (q ?x ?y) :implies (not (= ?x ?y)))"
       " (:axiom :vars (?x - t1) :context (p ?x) :implies (t2 ?x))"
       " (:axiom :vars (?x - t1 ?y - t2) :context (q ?x ?y) :implies (t1 ?y))"
       " (:axiom :vars (?x ?y - t2) :context (q ?x ?y) :implies (and (object ?x) (= ?y ?y)))"
       " (:axiom :vars (?x - t1) :context (not (p ?x)) :implies (not (= ?x a))))", kProblem, false);
}
static void impossible() {
  Bits s = W.sym();
  State st = W.state(s);
  bool v = W.pddl->IsValidState(st);
  symx_assert(v == validRef(W, s), "valid exactly when every axiom instance in context changes nothing and does not fail");
  symx_assert(W.same(st, s), "the state is left alone");
  if (symx_split(v)) {
    symx_assert(W.pddl->ConsistentState(st) == st, "the closure of a valid state is that state");
    symx_reach("valid");
  } else symx_reach("invalid");
  symx_reach("done");
}
static void partial() {
  int d = (int)symx_split(symx_int("axioms", 0, 3));
  static const char* kBody[] = {
      " (:predicates (p ?x - t1) (r ?x - t2) (z))"
      " (:axiom :vars (?x - t2) :context (p ?x) :implies (r ?x))"
      " (:axiom :vars (?x - t2) :context (r ?x) :implies (and (z) (p a)))",
      " (:predicates (p ?x - t2) (r ?x - t2) (s ?x - t2))"
      " (:axiom :vars (?x - t2) :context (p ?x) :implies (r ?x))"
      " (:axiom :vars (?x - t2) :context (r ?x) :implies (not (s ?x)))",
      " (:predicates (p ?x - t2) (r ?x - t2) (z))"
      " (:axiom :vars (?x - t2) :context (not (p ?x)) :implies (and (r ?x) (not (z))))"
      " (:axiom :vars (?x - t2) :context (not (z)) :implies (forall (?v - t2) (not (p ?v))))",
      " (:predicates (p ?x - t1) (q ?x - t2 ?y - t2))"
      " (:axiom :vars (?x ?y - t2) :context (q ?x ?y) :implies (not (= ?x ?y)))"
      " (:axiom :vars (?x - t1) :context (p ?x) :implies (t2 ?x))"
      " (:axiom :vars (?x - t2) :context (not (p ?x)) :implies (and (t1 ?x) (not (q ?x ?x))))"};
  load(kBody[d]);
  PBits p = symPartial(W);
  PartialState ps = partialState(W, p);
  bool v = W.pddl->IsValidState(ps);
  symx_assert(samePartial(W, ps, p), "the partial state is left alone");
  PartialState next; bool threw = false;
  try { next = W.pddl->ConsistentState(ps); } catch (const std::exception&) { threw = true; }
  symx_assert(samePartial(W, ps, p), "the partial state is left alone");
  // forward chaining
  Bits t, f; bool bad = false;
  for (int i = 0; i < W.n(); i++) { t[i] = p.known[i] & p.val[i]; f[i] = p.known[i] & !p.val[i]; }
  auto all = instances(W);
  for (int round = 0; round < 5; round++)
    for (auto& i : all) {
      const VAL::goal* g = i.ax->precondition; bool pos = true;
      if (auto* n = dynamic_cast<const VAL::neg_goal*>(g)) { pos = false; g = n->getGoal(); }
      auto* sg = dynamic_cast<const VAL::simple_goal*>(g);
      int at = W.atom(sg->getProp()->head->getNameRef(), ground(W, sg->getProp(), envOf(i)));
      bool on = pos ? t[at] : f[at];
      std::vector<Lit> l;
      bool fine = literals(W, i.ax->effects, envOf(i), l);
      bad |= on & !fine;
      for (auto& x : l) { t[x.atom] |= on & x.val; f[x.atom] |= on & !x.val; }
    }
  bool grown = false;
  for (int i = 0; i < W.n(); i++) { bad |= t[i] & f[i]; grown |= !p.known[i] & (t[i] | f[i]); }
  bad = symx_split(bad);
  symx_assert(v == !bad, "rejected exactly when forward chaining derives a contradiction");
  symx_assert(threw == bad, "closing fails exactly when forward chaining derives a contradiction");
  if (!bad && !threw) {
    PBits want;
    for (int i = 0; i < W.n(); i++) { want.known[i] = t[i] | f[i]; want.val[i] = t[i]; }
    symx_assert(samePartial(W, next, want), "the closure is what forward chaining derives");
    if (symx_split(grown)) symx_reach("grown");
  } else symx_reach("rejected");
  symx_reach("done");
}
static void initial() {
  std::string init;
  bool in[6];
  static const char* kT[] = {"(p a)", "(p c)", "(q b b)", "(z)", "(r c)", "(s a)"};
  static const char* kA[] = {"p(a)", "p(c)", "q(b, b)", "z()", "r(c)", "s(a)"};
  for (int i = 0; i < 6; i++) if ((in[i] = symx_split(symx_bool(kA[i])))) init += kT[i];
  bool close = symx_split(symx_bool("apply axioms"));
  std::string dom = std::string(kHead) +
      " (:predicates (p ?x - t1) (r ?x - t1) (s ?x - t2) (z) (q ?x - t2 ?y - t2))"
      " (:axiom :vars (?x ?y - t2) :context (q ?x ?y) :implies (p ?x))"
      " (:axiom :vars (?x - t1) :context (p ?x) :implies (r ?x))"
      " (:axiom :vars (?y - t2) :context (s ?y) :implies (not (z))))";
  W.load(dom, "(define (problem x) (:domain d) (:objects b - t2 c - t1) (:init " + init + ") (:goal (and)))", close);
  Bits s;
  for (int i = 0; i < 6; i++) s[W.atom(kA[i])] = in[i];
  State st = W.state(s);
  const State& got = W.pddl->initial_state();
  if (close) {
    symx_assert(got == W.pddl->ConsistentState(st), "the initial state is closed when requested");
    symx_assert(W.pddl->IsValidState(got), "the initial state is valid");
  } else symx_assert(W.same(got, s), "the initial state is the declared one otherwise");
  symx_reach("done");
}
SYMX_HARNESS(positive, setupPositive, positive, BOTH);
SYMX_HARNESS(mixed, setupMixed, mixed, BOTH);
SYMX_HARNESS(impossible, setupImpossible, impossible, BOTH);
SYMX_HARNESS(partial, nullptr, partial, BOTH);
SYMX_HARNESS(initial, nullptr, initial, BOTH);
