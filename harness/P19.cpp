// P19: applying an action to a partial state tracks what is certain.
// symx: include=abs sources=DOMAIN assumptions="states are the abstract set of abs/ (contract decided by P06/P07 for the real one)|parse trees come from the VAL stand-in in shim/"
// symx: harness uncond bounds="each of 10 unconditional effects, and pairs of 7 of them followed by one of 5, every well-typed argument pair, every partial state over 10 atoms, every completion" require=done,flip
// symx: harness cond bounds="every conditional effect alone, and pairs of a conditional effect (6 of them, conditions conjunctions of literals, also quantified) with 3 others; every well-typed argument pair, every partial state" require=done
// symx: harness three bounds="ordered triples of 16 effects" require=done thorough_budget=3000
#include "f_effects.h"
#include "partial.h"
// a conjunction of literals is definitely true / false
struct Tri { bool t, f; };
static Tri tri(const VAL::goal* g, const Env& e, const PBits& p) {
  if (auto* x = dynamic_cast<const VAL::simple_goal*>(g)) {
    const std::string& h = x->getProp()->head->getNameRef();
    auto a = ground(W, x->getProp(), e);
    if (h == "=") return {a[0] == a[1], a[0] != a[1]};
    if (W.isType(h)) return {W.isa(a[0], h), !W.isa(a[0], h)};
    int i = W.atom(h, a);
    return {(bool)(p.known[i] & p.val[i]), (bool)(p.known[i] & !p.val[i])};
  }
  if (auto* x = dynamic_cast<const VAL::neg_goal*>(g)) { Tri r = tri(x->getGoal(), e, p); return {r.f, r.t}; }
  Tri r{true, false};
  auto conj = [&](Tri k) { r.t &= k.t; r.f |= k.f; };
  if (auto* x = dynamic_cast<const VAL::conj_goal*>(g)) { for (auto* k : *x->getGoals()) conj(tri(k, e, p)); }
  else { auto* q = dynamic_cast<const VAL::qfied_goal*>(g); for (auto& t : W.tuples(q->getVars())) conj(tri(q->getGoal(), bindv(e, q->getVars(), t), p)); }
  return r;
}
static void triggered(const VAL::effect_lists* l, const Env& e, const PBits& p, bool when, Bits& add, Bits& del) {
  for (auto* f : l->forall_effects) for (auto& t : W.tuples(f->getVarsList())) triggered(f->getEffects(), bindv(e, f->getVarsList(), t), p, when, add, del);
  for (auto* x : l->add_effects) add[W.atom(x->prop->head->getNameRef(), ground(W, x->prop, e))] |= when;
  for (auto* x : l->del_effects) del[W.atom(x->prop->head->getNameRef(), ground(W, x->prop, e))] |= when;
  for (auto* c : l->cond_effects) triggered(c->getEffects(), e, p, when & tri(c->getCondition(), e, p).t, add, del);
}
static void check(const std::vector<int>& items) {
  VAL::operator_* op = makeOp(items);
  bool uncond = true;
  for (int i : items) uncond &= i < kUncond;
  auto t = pickArgs(op);
  if (!independent(op, t)) return;
  PBits p = symPartial(W), want = p;
  Bits add, del;
  triggered(op->effects, bindv({}, op->parameters, t), p, true, add, del);
  int code = 0;
  bool clash = false;
  for (int i = 0; i < W.n(); i++) {
    clash |= add[i] & del[i];
    bool w = add[i] | del[i];
    bool flip = w & p.known[i] & (p.val[i] != add[i]), fresh = w & !p.known[i];
    code = flip ? 2 : fresh & (code < 1) ? 1 : code;
    want.known[i] = p.known[i] | w;
    want.val[i] = (w & add[i]) | (!w & p.val[i]);
  }
  symx_assume(!clash);
  symbolic::Action a(*W.pddl, op);
  PartialState ps = partialState(W, p), before = ps;
  PartialState next = a.Apply(ps, W.args(t));
  symx_assert(samePartial(W, next, want), "added known true, deleted known false, all others as they were");
  symx_assert(ps == before, "the input is left alone");
  int r = a.Apply(W.args(t), &ps);
  symx_assert(ps == next, "the in-place form computes the same partial state");
  symx_assert(r == code, "the return code is the largest change made");
  if (uncond) {
    Bits c = completion(W, p);
    Bits full = applyRef(W, op, t, c);
    bool sat = true;
    for (int i = 0; i < W.n(); i++) sat &= !want.known[i] | (full[i] == want.val[i]);
    symx_assert(sat, "satisfied by the successor of every completion");
    // the same through the library's own full-state application
    State fs = W.state(c);
    State fn = a.Apply(fs, W.args(t));
    bool ok = true;
    for (int i = 0; i < W.n(); i++) ok &= (!next.pos().contains(W.props[i]) | fn.contains(W.props[i])) & (!next.neg().contains(W.props[i]) | !fn.contains(W.props[i]));
    symx_assert(ok, "agrees with applying it to a completion");
  }
  if (r == 2) symx_reach("flip");
  symx_reach("done");
}
static void uncond() { 
  int i = (int)symx_split(symx_int("effect", 0, kUncond - 1));
  int j = i < 7 ? (int)symx_split(symx_int("effect", 0, 5)) : 5;
  if (j == 5) check({i}); else check({i, j});
 }
static void cond() {
  static const int kO[] = {1, 2, 4};
  int i = (int)symx_split(symx_int("effect", kUncond, kLit - 1));
  int k = i < kUncond ? 3 : (int)symx_split(symx_int("second", 0, 3));
  if (k == 3) return check({i});
  if (symx_split(symx_bool("first"))) return check({kO[k], i});
  check({i, kO[k]});
}
static void three() { check(pickItems(3, kLit)); }
SYMX_HARNESS(uncond, fworld, uncond, BOTH);
SYMX_HARNESS(cond, fworld, cond, BOTH);
SYMX_HARNESS(three, fworld, three, THOROUGH);
