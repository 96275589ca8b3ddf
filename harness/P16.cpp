// P16: partial-state evaluation is sound for every completion.
// symx: include=abs sources=DOMAIN assumptions="states are the abstract set of abs/ (contract decided by P06/P07 for the real one)|parse trees come from the VAL stand-in in shim/"
// symx: harness bin bounds="and/or of 0..2 atoms, negations, equalities and type tests over 2 parameters and a constant; every argument pair; every partial state over 10 atoms; every completion" require=done,unknown
// symx: harness quant bounds="forall/exists over one variable of 5 types, body a literal, or and/or of two atoms, optionally negated; every argument; every partial state; every completion" require=done,unknown
// symx: harness nest bounds="two nested quantifiers over 2 x 4 types, body a literal over both variables and a parameter; every argument; every partial state; every completion" require=done,unknown
// symx: harness deep bounds="14 fixed formulas of depth up to 6 (as formula and as precondition of an action), every argument pair, every partial state, every completion" require=done,unknown
// symx: harness bin3 bounds="as bin with 3 operands" require=done thorough_budget=2400
#include "f_forms.h"
#include "partial.h"
// every atom the formula can look at is a well-typed proposition
static bool wellTyped(const goal* g, const Env& e) {
  if (auto* x = dynamic_cast<const simple_goal*>(g)) {
    const std::string& p = x->getProp()->head->getNameRef();
    return p == "=" || W.isType(p) || W.atom(p, ground(W, x->getProp(), e)) >= 0;
  }
  if (auto* x = dynamic_cast<const conj_goal*>(g)) { for (auto* k : *x->getGoals()) if (!wellTyped(k, e)) return false; return true; }
  if (auto* x = dynamic_cast<const disj_goal*>(g)) { for (auto* k : *x->getGoals()) if (!wellTyped(k, e)) return false; return true; }
  if (auto* x = dynamic_cast<const neg_goal*>(g)) return wellTyped(x->getGoal(), e);
  auto* x = dynamic_cast<const qfied_goal*>(g);
  for (auto& t : W.tuples(x->getVars())) if (!wellTyped(x->getGoal(), bindv(e, x->getVars(), t))) return false;
  return true;
}
static void checkF(const symbolic::Formula& F, const symbolic::Action* a, goal* g, const std::vector<var_symbol*>& params) {
  PBits p = symPartial(W);
  PartialState ps = partialState(W, p);
  std::vector<int> t;
  for (size_t i = 0; i < params.size(); i++) t.push_back((int)symx_split(symx_int("argument", 0, (int)W.objs.size() - 1)));
  std::optional<bool> r;
  try {
    r = a ? a->IsValid(ps, W.args(t)) : params.empty() ? F(ps) : F(ps, W.args(t));
  } catch (const PartialState::UnknownEvaluation&) {
    symx_assert(false, "unknown is no value, not an exception");
    return;
  }
  // every full state extending the partial state
  Bits c = completion(W, p);
  bool full = holds(W, g, env(params, t), c);
  bool known = wellTyped(g, env(params, t));
  for (int i = 0; i < W.n(); i++) known &= p.known[i];
  if (r) { symx_assert(full == *r, "a definite answer is the answer of every completion"); }
  else { symx_assert(!known, "definite on a complete partial state"); symx_reach("unknown"); }
  symx_assert(samePartial(W, ps, p), "evaluation leaves the partial state alone");
  symx_reach("done");
}
static void use(goal* g, const std::vector<var_symbol*>& params) { checkF(symbolic::Formula(*W.pddl, g, paramObjects(params)), nullptr, g, params); }
static void deep() {
  Gen G(W);
  auto params = std::vector<var_symbol*>{G.var("x", G.type_("t1")), G.var("y", G.type_("t2"))};
  valshim::Scope sc{W.ast, params};
  goal* g = valshim::parseGoal(kDeep[G.pick("formula", kDeepAll)], sc);
  if (G.pick("use", 2) == 0) return use(g, params);
  auto* op = new action();
  op->name = new operator_symbol("act");
  op->parameters = new var_symbol_list();
  for (auto* p : params) op->parameters->push_back(p);
  op->precondition = g;
  op->effects = new effect_lists();
  symbolic::Action a(*W.pddl, op);
  checkF(a.preconditions(), &a, g, params);
}
SYMX_HARNESS(bin, fworld, bin, BOTH);
SYMX_HARNESS(quant, fworld, quant, BOTH);
SYMX_HARNESS(nest, fworld, nest, BOTH);
SYMX_HARNESS(deep, fworld, deep, BOTH);
SYMX_HARNESS(bin3, fworld, bin3, THOROUGH);
