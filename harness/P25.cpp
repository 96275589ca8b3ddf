// P25: normalised formulas are logically equivalent to the original.
// symx: sources=DOMAIN assumptions="parse trees come from the VAL stand-in in shim/|equality and type literals left in a conjunction are read as the static facts they denote"
// symx: harness bin bounds="and/or of 0..2 atoms, negations, equalities and type tests over 2 parameters and a constant; every argument pair; every state of 10 atoms" require=done,true,false
// symx: harness quant bounds="forall/exists over one variable of 5 types (one without objects), body a literal, or and/or of two atoms, optionally negated; every argument; every state" require=done,true,false
// symx: harness nest bounds="two nested quantifiers over 2 x 4 types, body a literal over both variables and a parameter; every argument; every state" require=done budget=30
// symx: harness deep bounds="18 fixed formulas of depth up to 6, directly, as precondition and as goal; every argument pair; every state" require=done
// symx: harness bin3 bounds="as bin with 3 operands" require=done thorough_budget=2400
#include "f_forms.h"
#include "dnf.h"
static void check(const Dnf& d, goal* g, const Env& e) {
  wellFormed(d);
  if (d.has_value() && d->conjunctions.empty()) symx_reach("true");
  if (!d.has_value()) symx_reach("false");
  Bits s = W.sym();
  symx_assert(dnfTrue(W, d, s) == holds(W, g, e, s), "true in exactly the states in which the formula is true");
  symx_reach("done");
}
static void use(goal* g, const std::vector<var_symbol*>& params) {
  std::vector<int> t;
  for (size_t i = 0; i < params.size(); i++) t.push_back((int)symx_split(symx_int("argument", 0, (int)W.objs.size() - 1)));
  check(DisjunctiveFormula::Create(*W.pddl, g, paramObjects(params), W.args(t)), g, env(params, t));
}
static const char* kMore[] = {
    "(or (p ?x) (and (p ?x) (q ?x ?y)) (and (z) (p ?x)) (z))",
    "(and (or (p ?x) (z)) (or (p ?y) (not (z))) (or (q ?x ?y) (not (p ?x))))",
    "(exists (?v - t2) (or (= ?v ?x) (p ?v)))",
    "(or (not (or (p ?x) (not (p ?x)))) (z))"};
static std::string deepText(int k) { return k < kDeepAll ? kDeep[k] : kMore[k - kDeepAll]; }
static void deep() {
  int k = (int)symx_split(symx_int("formula", 0, kDeepAll + 3));
  int how = (int)symx_split(symx_int("use", 0, 2));
  const std::string f = deepText(k);
  if (how == 0) {
    fworld();
    Gen G(W);
    auto params = std::vector<var_symbol*>{G.var("x", G.type_("t1")), G.var("y", G.type_("t2"))};
    valshim::Scope sc{W.ast, params};
    use(valshim::parseGoal(f, sc), params);
    return;
  }
  std::string dom = kFDomain;
  dom.pop_back();
  dom += " (:constants a b - t2 c - t1)";
  dom = "(define (domain d) (:requirements :typing) (:types t1 - object t2 - t1 t3 - object) (:constants a - t2 b - t2 c - t1)"
        " (:predicates (p ?x - t1) (q ?x - t1 ?y - t2) (z))"
        " (:action act :parameters (?x - t1 ?y - t2) :precondition " + f + " :effect (z)))";
  std::string goal_ = how == 2 ? "(exists (?x - t1 ?y - t2) " + f + ")" : "(and)";
  W.load(dom, "(define (problem p) (:domain d) (:objects) (:init (p a)) (:goal " + goal_ + "))");
  if (how == 2) { check(DisjunctiveFormula::NormalizeGoal(*W.pddl), W.ast->the_problem->the_goal, {}); return; }
  const symbolic::Action& a = W.pddl->actions()[0];
  auto all = W.tuples(a.symbol()->parameters);
  std::vector<int> t = all[symx_split(symx_int("arguments", 0, (int)all.size() - 1))];
  std::string call = "act(" + W.objs[t[0]] + ", " + W.objs[t[1]] + ")";
  check(DisjunctiveFormula::NormalizePreconditions(*W.pddl, call), a.symbol()->precondition, bindv({}, a.symbol()->parameters, t));
}
SYMX_HARNESS(bin, fworld, bin, BOTH);
SYMX_HARNESS(quant, fworld, quant, BOTH);
SYMX_HARNESS(nest, fworld, nest, BOTH);
SYMX_HARNESS(deep, nullptr, deep, BOTH);
SYMX_HARNESS(bin3, fworld, bin3, THOROUGH);
