// P09: partial states are consistent three-valued assignments.
// symx: include=abs sources=DOMAIN assumptions="the two sets inside a partial state are the abstract set of abs/ (contract decided by P06/P07 for the real one)"
// symx: harness step bounds="from every partial state over 10 propositions: one insert or erase of an arbitrary one in each form (reference, value, moved value, from name and arguments); queries, return value, sizes" require=done,unknown
// symx: harness consistent bounds="IsConsistent on every pair of sets over 5 propositions" require=done
// symx: harness history bounds="histories of 4 arbitrary operations over 3 propositions from the empty partial state" require=done
// symx: harness history6 bounds="histories of 6 arbitrary operations over 3 propositions" require=done thorough_budget=1800
#include "f_world.h"
#include "partial.h"
using symbolic::PropositionRef;
static int apply(PartialState& ps, int x, bool ins, int form) {
  const Proposition& p = W.props[x];
  if (form == 0) return ins ? ps.insert(p) : ps.erase(p);
  if (form == 1) { Proposition c = p; return ins ? ps.insert(std::move(c)) : ps.erase(std::move(c)); }
  if (form == 2) { size_t h = std::hash<std::string>{}(p.name()); PropositionRef r(&p.name(), &p.arguments(), h); return ins ? ps.insert(r) : ps.erase(r); }
  return ins ? ps.emplace(p.name(), p.arguments()) : ps.erase(Proposition(p.name(), p.arguments()));
}
static void queries(const PartialState& ps, const PBits& p, int x) {
  int c = -1, d = -1;
  try { c = ps.contains(W.props[x]); } catch (const PartialState::UnknownEvaluation& e) { symx_assert(e.proposition() == W.props[x], "the unknown proposition is named"); }
  try { d = ps.does_not_contain(W.props[x]); } catch (const PartialState::UnknownEvaluation&) {}
  if (c < 0) symx_reach("unknown");
  symx_assert((c < 0) == !p.known[x], "unknown exactly when not assigned");
  symx_assert((c < 0) | ((c == 1) == p.val[x]), "contains is the assigned value");
  symx_assert((c < 0 && d < 0) || (c >= 0 && d >= 0 && c != d), "the two query directions are opposites");
}
static void step() {
  PBits p = symPartial(W);
  PartialState ps = partialState(W, p);
  int x = (int)symx_split(symx_int("x", 0, W.n() - 1));
  bool ins = symx_split(symx_bool("insert"));
  int form = (int)symx_split(symx_int("form", 0, 3));
  queries(ps, p, x);
  symx_assert(samePartial(W, ps, p), "queries change nothing");
  int r = apply(ps, x, ins, form);
  int want = !p.known[x] ? 1 : p.val[x] == ins ? 0 : 2;
  symx_assert(r == want, "0 already so, 1 was unknown, 2 was the opposite");
  p.known[x] = true; p.val[x] = ins;
  symx_assert(samePartial(W, ps, p), "exactly that proposition is set");
  bool over = false;
  for (int i = 0; i < W.n(); i++) over |= ps.pos().contains(W.props[i]) & ps.neg().contains(W.props[i]);
  symx_assert(!over, "never both true and false");
  size_t k = 0; for (int i = 0; i < W.n(); i++) k += p.known[i];
  symx_assert((ps.size() == k) & (ps.empty() == (k == 0)), "size counts the known propositions");
  int y = (int)symx_split(symx_int("y", 0, 1));
  queries(ps, p, y ? (x + 1) % W.n() : x);
  symx_reach("done");
}
static void consistent() {
  State pos, neg;
  bool over = false;
  for (int i = 0; i < 5; i++) {
    bool p = symx_bool("pos"), n = symx_bool("neg");
    putIf(pos, W.props[i], p); putIf(neg, W.props[i], n);
    over |= p & n;
  }
  PartialState ps(pos, neg);
  symx_assert(ps.IsConsistent() == !over, "inconsistent exactly when some proposition is both true and false");
  symx_reach("done");
}
static void historyN(int n) {
  PartialState ps;
  PBits p;
  for (int k = 0; k < n; k++) {
    int x = (int)symx_split(symx_int("x", 0, 2));
    bool ins = symx_split(symx_bool("insert"));
    int r = apply(ps, x, ins, k % 4);
    symx_assert(r == (!p.known[x] ? 1 : p.val[x] == ins ? 0 : 2), "0 already so, 1 was unknown, 2 was the opposite");
    p.known[x] = true; p.val[x] = ins;
    symx_assert(samePartial(W, ps, p) & ps.IsConsistent(), "exactly that proposition is set");
  }
  PartialState c = ps;
  for (int x = 0; x < 3; x++) queries(c, p, x);
  symx_reach("done");
}
static void history() { historyN(4); }
static void history6() { historyN(6); }
SYMX_HARNESS(step, fworld, step, BOTH);
SYMX_HARNESS(consistent, fworld, consistent, BOTH);
SYMX_HARNESS(history, fworld, history, QUICK);
SYMX_HARNESS(history6, fworld, history6, THOROUGH);
