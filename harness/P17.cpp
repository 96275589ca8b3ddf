// P17: a formula's text denotes the same formula.
// symx: include=abs sources=DOMAIN assumptions="the text is read back by the PDDL reader of the VAL stand-in (variables of the scope also without their '?')|states are the abstract set of abs/"
// symx: harness bin bounds="and/or of 0..2 atoms, negations, equalities and type tests over 2 parameters and a constant; every argument pair; every state of 10 atoms" require=done
// symx: harness quant bounds="forall/exists over one variable of 5 types, body a literal, or and/or of two atoms, optionally negated; every argument; every state" require=done
// symx: harness nest bounds="two nested quantifiers over 2 x 4 types, body a literal over both variables and a parameter; every argument; every state" require=done
// symx: harness deep bounds="12 fixed formulas of depth up to 6, open and closed; every argument pair; every state" require=done
// symx: harness bin3 bounds="as bin with 3 operands" require=done thorough_budget=2400
#define FORM_Y "y"  // the printed text does not mark variables
#include "f_forms.h"
static void same(const symbolic::Formula& F, goal* g, const std::vector<var_symbol*>& params) {
  std::ostringstream os;
  os << F;
  symx_assert(os.str() == F.to_string(), "both text forms agree");
  valshim::Scope sc{W.ast, params, true};
  goal* r = valshim::parseGoal(F.to_string(), sc);
  symx_assert(r != nullptr, "well-formed PDDL");
  if (!r) return;
  Bits s = W.sym();
  bool ok = true, lib = true;
  auto* l = new var_symbol_list();
  for (auto* p : params) l->push_back(p);
  symbolic::Formula F2(*W.pddl, r, paramObjects(params));
  State st = W.state(s);
  for (auto& t : W.tuples(l)) ok &= holds(W, r, env(params, t), s) == holds(W, g, env(params, t), s);
  symx_assert(ok, "the text has the meaning of the original for every argument list");
  auto ts = W.tuples(l);
  auto t = ts[symx_split(symx_int("arguments", 0, (int)ts.size() - 1))];
  lib = F2(st, W.args(t)) == holds(W, r, env(params, t), s);
  symx_assert(lib, "reading it back evaluates like the original");
  symx_assert(F2.to_string() == F.to_string(), "printing again gives the same text");
  symx_reach("done");
}
static void use(goal* g, const std::vector<var_symbol*>& params) { same(symbolic::Formula(*W.pddl, g, paramObjects(params)), g, params); }
static void deep() {
  Gen G(W);
  auto params = std::vector<var_symbol*>{G.var("x", G.type_("t1")), G.var("y", G.type_("t2"))};
  valshim::Scope sc{W.ast, params};
  goal* g = valshim::parseGoal(kDeep[G.pick("formula", kDeepUnmarked)], sc);
  if (G.pick("closed", 2) == 0) return use(g, params);
  auto* l = new var_symbol_list();
  for (auto* p : params) l->push_back(p);
  goal* q = new qfied_goal(G.pick("quantifier", 2) ? E_EXISTS : E_FORALL, l, g);
  same(symbolic::Formula(*W.pddl, q), q, {});
}
SYMX_HARNESS(bin, fworld, bin, BOTH);
SYMX_HARNESS(quant, fworld, quant, BOTH);
SYMX_HARNESS(nest, fworld, nest, BOTH);
SYMX_HARNESS(deep, fworld, deep, BOTH);
SYMX_HARNESS(bin3, fworld, bin3, THOROUGH);
