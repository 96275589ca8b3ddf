// P18: applying an action changes exactly what its effects say.
// symx: include=abs sources=DOMAIN assumptions="states are the abstract set of abs/ (contract decided by P06/P07 for the real one)|parse trees come from the VAL stand-in in shim/"
// symx: harness one bounds="each of 18 effects (add, delete, forall over 1-2 variables and an empty type, when, nested), every well-typed argument pair, every state of 10 atoms" require=done,changed
// symx: harness two bounds="all ordered pairs of 18 effects, every well-typed argument pair, every state of 10 atoms without conflicting triggered effects" require=done,changed
// symx: harness twice bounds="pairs out of 4 effects applied twice with two argument pairs, interleaved with other calls on the same action object and a copy of it" require=done
// symx: harness plain bounds="all ordered triples of the 5 effects without quantifier or condition, every well-typed argument pair, every state" require=done,changed
// symx: harness three bounds="all ordered triples of 18 effects" require=done thorough_budget=3000
#include "f_effects.h"
static void check(const symbolic::Action& a, const VAL::operator_* op, const std::vector<int>& t, const Bits& s) {
  State before = W.state(s), copy = before;
  Bits want = applyRef(W, op, t, s);
  State next = a.Apply(before, W.args(t));
  symx_assert(W.same(next, want), "the deleted propositions are gone, the added ones there, nothing else changed");
  symx_assert(before == copy, "the input state is left alone");
  State in = before;
  bool changed = a.Apply(W.args(t), &in);
  symx_assert(in == next, "the in-place form computes the same state");
  bool same = equal(W, want, s);
  symx_assert(changed == !same, "the return value says whether the state changed");
  if (changed) symx_reach("changed");
}
static void run(int k, int pool) {
  VAL::operator_* op = makeOp(pickItems(k, pool));
  auto t = pickArgs(op);
  if (!independent(op, t)) return;
  Bits s = W.sym();
  symx_assume(!conflicts(W, op, t, s));
  symbolic::Action a(*W.pddl, op);
  check(a, op, t, s);
  symx_reach("done");
}
static void one() { run(1, kAll); }
static void two() { run(2, kAll); }
static void plain() { run(3, 5); }
static void three() { run(3, kAll); }
static void twice() {
  static const int kP[] = {3, 5, 10, 13};
  VAL::operator_* op = makeOp({kP[symx_split(symx_int("effect", 0, 3))], kP[symx_split(symx_int("effect", 0, 3))]});
  auto t = pickArgs(op), u = pickArgs(op);
  if (!independent(op, t) || !independent(op, u)) return;
  Bits s = W.sym();
  symx_assume(!conflicts(W, op, t, s));
  symbolic::Action a(*W.pddl, op);
  symbolic::Action b = a;
  State st = W.state(s);
  State n1 = a.Apply(st, W.args(t));
  State n2 = b.Apply(st, W.args(u));
  State n3 = a.Apply(st, W.args(t));
  symx_assert(n1 == n3, "the same answer whatever was asked in between");
  Bits s2 = applyRef(W, op, t, s);
  symx_assume(!conflicts(W, op, u, s2));
  b.Apply(W.args(u), &n1);
  symx_assert(W.same(n1, applyRef(W, op, u, s2)), "applying twice");
  symx_reach("done");
}
SYMX_HARNESS(one, fworld, one, BOTH);
SYMX_HARNESS(two, fworld, two, BOTH);
SYMX_HARNESS(twice, fworld, twice, BOTH);
SYMX_HARNESS(plain, fworld, plain, QUICK);
SYMX_HARNESS(three, fworld, three, THOROUGH);
