// P11: indexed states and states convert losslessly.
// symx: sources=DOMAIN assumptions="parse trees come from the VAL stand-in in shim/"
// symx: harness vec bounds="all boolean vectors over 10 positions (4 predicates, one over a type without objects), through the task's index, a cached and an uncached one" require=done
// symx: harness state bounds="all states over 10 propositions, built in either order with a detour" require=done
// symx: harness big bounds="17 positions: arbitrary vector" require=done thorough_budget=2400
#include "world.h"
using symbolic::StateIndex;
static World W;
static const char* kDomain =
    "(define (domain d) (:requirements :typing) (:types t1 - object t2 - t1 t3 - object) (:constants a - t2)"
    " (:predicates (p ?x - t1) (e ?x - t3) (q ?x - t2 ?y - t2) (r ?x)))";
static void setup() { W.load(kDomain, "(define (problem p) (:domain d) (:objects b - t2 c - t1) (:init) (:goal (and)))"); }
static void setupBig() { W.load(kDomain, "(define (problem p) (:domain d) (:objects b - t2 c - t2 d - t1) (:init) (:goal (and)))"); }
static void vec() {
  int n = W.n();
  int which = (int)symx_split(symx_int("index", 0, 2));
  StateIndex own(W.pddl->predicates(), which == 1);
  const StateIndex& ix = which == 2 ? W.pddl->state_index() : own;
  StateIndex::IndexedState v(n);
  for (int i = 0; i < n; i++) v(i) = symx_bool("bit");
  State s = ix.GetState(v);
  size_t count = 0;
  for (int i = 0; i < n; i++) {
    symx_assert(s.contains(ix.GetProposition(i)) == v(i), "bit i is set exactly when proposition i is in the state");
    count += v(i);
  }
  symx_assert(s.size() == count, "nothing else is in the state");
  StateIndex::IndexedState u = ix.GetIndexedState(s);
  symx_assert((int)u.size() == n, "vector length");
  bool same = true;
  for (int i = 0; i < n; i++) same &= u(i) == v(i);
  symx_assert(same, "vector to state and back");
  symx_reach("done");
}
static void state() {
  Bits b = W.sym();
  bool back = symx_split(symx_bool("backwards"));
  State s;
  if (back) s.insert(W.props[0]), s.insert(W.props[5]), s.erase(W.props[0]), s.erase(W.props[5]);
  for (int i = 0; i < W.n(); i++) { int j = back ? W.n() - 1 - i : i; putIf(s, W.props[j], b[j]); }
  const StateIndex& ix = W.pddl->state_index();
  StateIndex::IndexedState v = ix.GetIndexedState(s);
  for (int i = 0; i < W.n(); i++) symx_assert(v(ix.GetPropositionIndex(W.props[i])) == b[i], "bit i is set exactly when proposition i is in the state");
  State t = ix.GetState(v);
  symx_assert((t == s) & W.same(t, b) & W.same(s, b), "state to vector and back");
  symx_reach("done");
}
SYMX_HARNESS(vec, setup, vec, BOTH);
SYMX_HARNESS(state, setup, state, BOTH);
SYMX_HARNESS(big, setupBig, vec, THOROUGH);
