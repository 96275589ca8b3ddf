// P26: negating a normal form complements it.
// symx: sources=DOMAIN assumptions="parse trees come from the VAL stand-in in shim/|equality and type literals left in a conjunction are read as the static facts they denote"
// symx: harness two bounds="all normal forms of up to 2 conjunctions of up to 3 literals over 3 propositions (one an equality); every state" require=done,true,false
// symx: harness three bounds="all normal forms of 3 conjunctions of up to 2 literals over 2 propositions; every state" require=done,false
// symx: harness formulas bounds="normal forms of the negated formulas of 4 deep and 48 quantified formulas and of their negations; every argument; every state" require=done
// symx: harness quantified bounds="the same for all quantified formulas of P25" require=done thorough_budget=1500
// symx: harness wide bounds="all normal forms of 3 conjunctions of up to 3 literals over 3 propositions; every state" require=done thorough_budget=600
#include "f_forms.h"
#include "dnf.h"
static void check(const DisjunctiveFormula& d) {
  Bits s = W.sym();
  bool was = dnfTrue(W, d, s);
  DisjunctiveFormula in = d;
  Dnf n = symbolic::Negate(*W.pddl, std::move(in));
  wellFormed(n);
  if (!n.has_value()) symx_reach("false");
  else if (n->conjunctions.empty()) symx_reach("true");
  symx_assert(dnfTrue(W, n, s) == !was, "the negation is true where the original is false");
  if (n.has_value()) {
    DisjunctiveFormula in2 = *n;
    Dnf nn = symbolic::Negate(*W.pddl, std::move(in2));
    wellFormed(nn);
    symx_assert(dnfTrue(W, nn, s) == was, "double negation is equivalent to the original");
  }
  symx_reach("done");
}
static void build(int conjs, const std::vector<Proposition>& ps) {
  DisjunctiveFormula d;
  for (int i = 0; i < conjs; i++) {
    State pos, neg;
    for (auto& p : ps) {
      int k = (int)symx_split(symx_int("literal", 0, 2));
      if (k == 1) pos.insert(p);
      if (k == 2) neg.insert(p);
    }
    if (pos.size() + neg.size() == 0) continue;
    d.conjunctions.push_back(PartialState(std::move(pos), std::move(neg)));
  }
  check(d);
}
static Proposition eq(const char* a, const char* b) { return Proposition("=", {W.O[W.obj(a)], W.O[W.obj(b)]}); }
static void two() { build((int)symx_split(symx_int("conjunctions", 0, 2)), {W.props[0], symx_split(symx_bool("equality")) ? eq("a", "b") : W.props[4], W.props[5]}); }
static void three() { build(3, {W.props[1], W.props[9]}); }
static void wide() { build(3, {W.props[0], W.props[4], W.props[9]}); }
static void use(goal* g, const std::vector<var_symbol*>& params) {
  std::vector<int> t;
  for (size_t i = 0; i < params.size(); i++) t.push_back((int)symx_split(symx_int("argument", 0, (int)W.objs.size() - 1)));
  Bits s = W.sym();
  Gen G(W);
  auto o = paramObjects(params);
  auto a = W.args(t);
  Dnf d = DisjunctiveFormula::Create(*W.pddl, g, o, a);
  Dnf n = DisjunctiveFormula::Create(*W.pddl, G.neg(g), o, a);
  wellFormed(n);
  bool v = holds(W, g, env(params, t), s);
  symx_assert(dnfTrue(W, n, s) == !v, "the negated formula's normal form is true where the formula is false");
  symx_assert(dnfTrue(W, DisjunctiveFormula::Create(*W.pddl, G.neg(G.neg(g)), o, a), s) == v, "so for the doubly negated formula");
  if (d.has_value()) check(*d);
}
static const int kPick[] = {0, 3, 4, 5};  // negations of the others are exponentially large
static void formulas() {
  Gen G(W);
  if (symx_split(symx_bool("quantified"))) {
    auto params = std::vector<var_symbol*>{G.var("x", G.type_("t1"))};
    auto* v = G.var("v", G.type_(G.pick("type", 2) ? "t3" : "t2"));
    G.terms = {v, params[0]};
    G.npred = 1; G.eq = false;
    goal* k = G.pick("body", 2) ? valshim::parseGoal("(or (not (p ?x)) (= ?x ?v))", {W.ast, {params[0], v}}) : valshim::parseGoal("(and (q ?x ?v) (not (z)))", {W.ast, {params[0], v}});
    if (G.pick("not", 2)) k = G.neg(k);
    goal* l = G.nary(G.pick("and/or", 2), {k, G.leaf()});
    return use(G.quant(G.pick("forall/exists", 2), {v}, G.pick("second", 2) ? l : k), params);
  }
  auto params = std::vector<var_symbol*>{G.var("x", G.type_("t1")), G.var("y", G.type_("t2"))};
  valshim::Scope sc{W.ast, params};
  use(valshim::parseGoal(kDeep[kPick[G.pick("formula", 4)]], sc), params);
}
SYMX_HARNESS(two, fworld, two, BOTH);
SYMX_HARNESS(three, fworld, three, BOTH);
SYMX_HARNESS(formulas, fworld, formulas, BOTH);
SYMX_HARNESS(quantified, fworld, quant, THOROUGH);
SYMX_HARNESS(wide, fworld, wide, THOROUGH);
