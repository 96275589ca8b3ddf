// P10: the state index is a bijection between propositions and positions.
// symx: sources=DOMAIN assumptions="parse trees come from the VAL stand-in in shim/"
// symx: harness bij bounds="all domains of 1..3 predicates out of 7 signatures (1-3 parameters, subtypes, a type without objects) over 3 objects; cache on/off; one arbitrary query of either kind before; then every position and every well-typed proposition" require=done,emptytype
// symx: harness iter bounds="as bij with 2 predicates: iteration of the index forward, backward and by arbitrary jumps" require=done
// symx: harness hist bounds="one fixed domain of 15 propositions: any history of 2 queries of either kind, cache on/off, on the index, a copy taken in between, and the task's own index" require=done
// symx: harness nullary bounds="a predicate without parameters between two others"
// symx: harness hist4 bounds="as hist with 4 queries" require=done thorough_budget=2400
#include "world.h"
using symbolic::StateIndex;
static const char* kSig[] = {"?x - t1", "?x - t1 ?y - t2", "?x - t3", "?x", "?x - t2 ?y", "?x - t2 ?y - t3 ?z - t1", "?x - t2 ?y - t1 ?z - t2"};
static const char* kPre = "(define (domain d) (:requirements :typing) (:types t1 - object t2 - t1 t3 - object) (:constants a - t2) (:predicates ";
static const char* kProblem = "(define (problem p) (:domain d) (:objects b - t2 c - t1) (:init) (:goal (and)))";
// position of each of the world's atoms, found by asking
static void check(const World& w, const StateIndex& ix) {
  symx_assert((int)ix.size() == w.n(), "one position per well-typed proposition");
  bool seen[64] = {};
  for (int i = 0; i < w.n(); i++) {
    size_t k = ix.GetPropositionIndex(w.props[i]);
    symx_assert(k < (size_t)w.n() && !seen[k], "positions are 0..size-1, each used once");
    seen[k] = true;
    symx_assert(ix.GetProposition(k) == w.props[i], "looking a position up inverts finding it");
  }
}
static bool anyEmpty;
static void make(World& w, int maxp) {
  int n = (int)symx_split(symx_int("predicates", 1, maxp));
  std::string d = kPre;
  anyEmpty = false;
  for (int i = 0; i < n; i++) {
    int s = (int)symx_split(symx_int("signature", 0, maxp == 3 && i == 1 ? 4 : 6));
    d += "(p" + std::to_string(i) + " " + kSig[s] + ") ";
    anyEmpty |= s == 2 || s == 5;
  }
  w.load(d + "))", kProblem);
}
static void bij() {
  World w; make(w, 3);
  bool cache = symx_split(symx_bool("cache"));
  StateIndex ix(w.pddl->predicates(), cache);
  if (w.n() > 0) {
    int q = (int)symx_split(symx_int("first", 0, std::min(w.n(), 4) - 1)) * 5 % w.n();
    if (symx_split(symx_bool("by position"))) {
      Proposition p = ix.GetProposition(q);
      symx_assert((int)ix.GetPropositionIndex(p) == q, "finding a proposition inverts looking it up");
    } else ix.GetPropositionIndex(w.props[q]);
  }
  check(w, ix);
  check(w, ix);
  if (anyEmpty) symx_reach("emptytype");
  symx_reach("done");
}
static void iter() {
  World w; make(w, 2);
  StateIndex ix(w.pddl->predicates(), symx_split(symx_bool("cache")));
  int k = 0, n = w.n();
  for (auto it = ix.begin(); it != ix.end(); ++it, k++) {
    symx_assert(k < n && it->to_string() == ix.GetProposition(k).to_string() && *it == ix.GetProposition(k) && it->arguments() == ix.GetProposition(k).arguments(), "iteration lists the propositions in position order");
    if (k >= n) return;
  }
  symx_assert(k == n, "iteration ends after the last position");
  auto it = ix.end();
  while (k > 0) { it--; k--; symx_assert(it->to_string() == ix.GetProposition(k).to_string() && *it == ix.GetProposition(k), "backward iteration"); }
  symx_assert(it == ix.begin(), "backward iteration ends at the first position");
  if (n > 0) {
    int a = (int)symx_split(symx_int("a", 0, n - 1)), b = (int)symx_split(symx_int("b", 0, n - 1));
    auto x = ix.begin() + a, y = ix.end() - (n - b);
    symx_assert(y - x == b - a && (x < y) == (a < b) && (x == y) == (a == b) && (x >= y) == (a >= b), "iterators compare like positions");
    symx_assert(x[b - a] == ix.GetProposition(b), "element access relative to an iterator");
    x += b - a;
    symx_assert(x->to_string() == ix.GetProposition(b).to_string() && *x == ix.GetProposition(b), "jump");
    x -= b - a;
    symx_assert(*x == ix.GetProposition(a) && *x++ == ix.GetProposition(a), "jump back");
  }
  symx_reach("done");
}
static World W;
static std::vector<Proposition> order;
static void setup() {
  W.load(std::string(kPre) + "(p ?x - t1) (e ?x - t3) (q ?x - t1 ?y - t2) (r ?x) (s ?x - t2)))", kProblem);
  StateIndex ix(W.pddl->predicates(), false);
  for (size_t i = 0; i < ix.size(); i++) order.push_back(ix.GetProposition(i));
}
static void histN(int n) {
  int which = (int)symx_split(symx_int("index", 0, 2));
  StateIndex own(W.pddl->predicates(), which == 1);
  const StateIndex* ix = which == 2 ? &W.pddl->state_index() : &own;
  StateIndex copy(*ix);
  for (int k = 0; k < n; k++) {
    int i = (int)symx_split(symx_int("position", 0, W.n() - 1));
    if (symx_split(symx_bool("by position"))) symx_assert(ix->GetProposition(i) == order[i], "the answer does not depend on earlier queries");
    else symx_assert(ix->GetPropositionIndex(order[i]) == (size_t)i, "the answer does not depend on earlier queries");
    if (k == 0) { copy = *ix; ix = &copy; }
  }
  symx_reach("done");
}
static void hist() { histN(2); }
static void hist4() { histN(4); }
static void nullary() {
  World w;
  w.load(std::string(kPre) + "(p ?x - t1) (z) (r ?x - t2)))", kProblem);
  StateIndex ix(w.pddl->predicates(), symx_split(symx_bool("cache")));
  symx_assert((int)ix.size() == w.n(), "proposition without arguments is not numbered");
  check(w, ix);
}
SYMX_HARNESS(nullary, nullptr, nullary, BOTH);
SYMX_HARNESS(bij, nullptr, bij, BOTH);
SYMX_HARNESS(iter, nullptr, iter, BOTH);
SYMX_HARNESS(hist, setup, hist, BOTH);
SYMX_HARNESS(hist4, setup, hist4, THOROUGH);
