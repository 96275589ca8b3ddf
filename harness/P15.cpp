// P15: formula evaluation equals first-order semantics under the closed world.
// symx: include=abs sources=DOMAIN assumptions="states are the abstract set of abs/ (contract decided by P06/P07 for the real one)|parse trees come from the VAL stand-in in shim/"
// symx: harness bin bounds="and/or of 0..2 atoms, negations, equalities and type tests over 2 parameters and a constant; every argument pair; every state of 10 atoms" require=done
// symx: harness quant bounds="forall/exists over one variable of 5 types, body a literal, or and/or of two atoms, optionally negated; every argument; every state" require=done
// symx: harness nest bounds="two nested quantifiers over 2 x 4 types, body a literal over both variables and a parameter; every argument; every state" require=done
// symx: harness deep bounds="14 fixed formulas of depth up to 6 (also as preconditions of actions and as goal); every argument pair; every state" require=done
// symx: harness bin3 bounds="as bin with 3 operands" require=done thorough_budget=2400
#include "f_forms.h"
static void checkF(const symbolic::Formula& F, goal* g, const std::vector<var_symbol*>& params) {
  Bits s = W.sym();
  State st = W.state(s), before = st;
  std::vector<int> t;
  for (size_t i = 0; i < params.size(); i++) t.push_back((int)symx_split(symx_int("argument", 0, (int)W.objs.size() - 1)));
  bool r = F(st, W.args(t));
  symx_assert(r == holds(W, g, env(params, t), s), "truth value");
  symx_assert(st == before, "evaluation leaves the state alone");
  if (params.size() > 1) {
    std::vector<int> u(t.rbegin(), t.rend());
    bool r2 = F(st, W.args(u));
    symx_assert(r2 == holds(W, g, env(params, u), s), "truth value for other arguments");
  }
  symx_assert(F(st, W.args(t)) == r, "same answer when asked again");
  symx_reach("done");
}
static void use(goal* g, const std::vector<var_symbol*>& params) { checkF(symbolic::Formula(*W.pddl, g, paramObjects(params)), g, params); }
static void deep() {
  Gen G(W);
  auto params = std::vector<var_symbol*>{G.var("x", G.type_("t1")), G.var("y", G.type_("t2"))};
  int k = G.pick("formula", kDeepAll);
  valshim::Scope sc{W.ast, params};
  goal* g = valshim::parseGoal(kDeep[k], sc);
  switch (G.pick("use", 3)) {
    case 0: return use(g, params);
    case 1: {  // as the precondition of an action
      auto* op = new action();
      op->name = new operator_symbol("act");
      op->parameters = new var_symbol_list();
      for (auto* p : params) op->parameters->push_back(p);
      op->precondition = g;
      op->effects = new effect_lists();
      symbolic::Action a(*W.pddl, op);
      Bits s = W.sym();
      std::vector<int> t = {(int)symx_split(symx_int("argument", 0, 2)), (int)symx_split(symx_int("argument", 0, 2))};
      State st = W.state(s);
      symx_assert(a.IsValid(st, W.args(t)) == holds(W, g, env(params, t), s), "applicability is the truth of the precondition");
      symx_assert(a.preconditions()(st, W.args(t)) == holds(W, g, env(params, t), s), "precondition formula");
      return;
    }
    default: {  // closed, as a goal
      auto* l = new var_symbol_list();
      for (auto* p : params) l->push_back(p);
      goal* q = new qfied_goal(E_EXISTS, l, g);
      symbolic::Formula F(*W.pddl, q);
      Bits s = W.sym();
      symx_assert(F(W.state(s)) == holds(W, q, {}, s), "goal truth");
      symx_reach("done");
    }
  }
}
SYMX_HARNESS(bin, fworld, bin, BOTH);
SYMX_HARNESS(quant, fworld, quant, BOTH);
SYMX_HARNESS(nest, fworld, nest, BOTH);
SYMX_HARNESS(deep, fworld, deep, BOTH);
SYMX_HARNESS(bin3, fworld, bin3, THOROUGH);
