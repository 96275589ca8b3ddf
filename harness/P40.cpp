// P40: normal forms made under axioms mean the same in every state that satisfies the axioms.
// symx: sources=DOMAIN assumptions="parse trees come from the VAL stand-in in shim/|equality and type literals left in a conjunction are read as the static facts they denote"
// symx: harness bin bounds="and/or of 0..2 atoms, negations, equalities and type tests over 2 parameters and a constant; 2 sets of axioms; every argument pair; every valid state of 10 atoms" require=done,pruned,kept
// symx: harness deep bounds="14 fixed formulas of depth up to 6; 4 sets of axioms (positive, negative, deleting, contradictory, (in)equality); every argument pair; every valid state" require=done,pruned,kept,false
// symx: harness effects bounds="actions with 1-2 effects out of 18 (quantified, conditional); 4 sets of axioms; every argument; every valid state" require=done,threw
// symx: harness calls bounds="preconditions and postconditions of calls and the goal, closed under the axioms, in 4 tasks; every valid state" require=done,closed,rejected
#include "f_forms.h"
#include "f_effects.h"
#include "axioms.h"
#include "dnf.h"
static const char* kAx[] = {
    " (:axiom :vars (?x - t1 ?y - t2) :context (q ?x ?y) :implies (p ?x))"
    " (:axiom :vars (?x - t2) :context (p ?x) :implies (z))",
    " (:axiom :vars (?x - t1) :context (not (p ?x)) :implies (forall (?v - t2) (not (q ?x ?v))))"
    " (:axiom :vars (?y - t2) :context (q a ?y) :implies (and (p ?y) (not (z))))",
    " (:axiom :vars (?x - t1) :context (p ?x) :implies (t2 ?x))"
    " (:axiom :vars (?x - t1 ?y - t2) :context (q ?x ?y) :implies (not (= ?x ?y)))"
    " (:axiom :vars (?x - t2) :context (not (z)) :implies (p ?x))",
    " (:axiom :vars (?x - t1) :context (p ?x) :implies (z))"
    " (:axiom :vars (?x - t2) :context (z) :implies (not (p ?x)))"
    " (:axiom :vars (?x - t1 ?y - t2) :context (q ?x ?y) :implies (q ?y ?y))"};
static const char* kActs =
    " (:action one :parameters (?x - t1) :precondition (p ?x) :effect (not (z)))"
    " (:action two :parameters (?x - t1 ?a - t2) :precondition (or (q ?x ?a) (and (p ?a) (not (z)))) :effect (q ?x ?a))"
    " (:action three :parameters (?x - t2) :precondition (not (exists (?v - t2) (q ?v ?x))) :effect (and (p ?x) (not (q ?x a))))"
    " (:action four :parameters (?x - t1) :precondition (forall (?v - t2) (or (p ?v) (not (q ?x ?v)))) :effect (not (p ?x)))";
static void load() {
  int k = (int)symx_split(symx_int("axioms", 0, 3));
  std::string dom = kFDomain;
  dom.pop_back();
  W.load(dom + kAx[k] + kActs + ")", "(define (problem p) (:domain d) (:objects b - t2 c - t1) (:init) (:goal (or (and (q c a) (p b)) (and (z) (not (p a))))))", false);
}
static bool gSame;
static void compare(const Dnf& d, const Dnf& plain, bool truth, const Bits& s, const char* what) {
  symx_assert(!validRef(W, s) | (dnfTrue(W, d, s) == truth), what);
  gSame = d.has_value() == plain.has_value() && (!d.has_value() || *d == *plain);
  symx_reach(gSame ? "kept" : "pruned");
  if (!d.has_value() && plain.has_value()) symx_reach("false");
  symx_reach("done");
}
static void use(goal* g, const std::vector<var_symbol*>& params) {
  std::vector<int> t;
  for (size_t i = 0; i < params.size(); i++) {
    auto* l = new var_symbol_list();
    l->push_back(params[i]);
    auto all = W.tuples(l);
    t.push_back(all[symx_split(symx_int("argument", 0, (int)all.size() - 1))][0]);
  }
  auto ps = paramObjects(params);
  auto as = W.args(t);
  const Env e = env(params, t);
  Bits s = W.sym();
  Dnf d = DisjunctiveFormula::Create(*W.pddl, g, ps, as, true);
  wellFormed(d);
  compare(d, DisjunctiveFormula::Create(*W.pddl, g, ps, as), holds(W, g, e, s), s, "true in exactly the valid states in which the formula is true");
}
static void bin2() {
  int k = (int)symx_split(symx_int("axioms", 0, 1));
  std::string dom = kFDomain;
  dom.pop_back();
  W.load(dom + kAx[k] + ")", "(define (problem p) (:domain d) (:objects b - t2 c - t1) (:init) (:goal (and)))", false);
  binN(2);
}
static void deep() {
  load();
  Gen G(W);
  int k = (int)symx_split(symx_int("formula", 0, kDeepAll - 1));
  auto params = std::vector<var_symbol*>{G.var("x", G.type_("t1")), G.var("y", G.type_("t2"))};
  valshim::Scope sc{W.ast, params};
  use(valshim::parseGoal(kDeep[k], sc), params);
}
// each effect whose condition holds in s has been brought about in s
static bool broughtAbout(const VAL::effect_lists* l, const Env& e, const Bits& s) {
  bool r = true;
  for (auto* f : l->forall_effects) for (auto& t : W.tuples(f->getVarsList())) r &= broughtAbout(f->getEffects(), bindv(e, f->getVarsList(), t), s);
  for (auto* x : l->add_effects) { int i = W.atom(x->prop->head->getNameRef(), ground(W, x->prop, e)); r &= i < 0 ? false : s[i]; }
  for (auto* x : l->del_effects) { int i = W.atom(x->prop->head->getNameRef(), ground(W, x->prop, e)); r &= i < 0 ? true : !s[i]; }
  for (auto* c : l->cond_effects) r &= !holds(W, c->getCondition(), e, s) | broughtAbout(c->getEffects(), e, s);
  return r;
}
static void effects() {
  load();
  VAL::operator_* op = makeOp(pickItems(1 + (int)symx_split(symx_int("more", 0, 1)), kAll));
  std::vector<int> t = pickArgs(op);
  const Env e = bindv({}, op->parameters, t);
  Bits s = W.sym();
  bool truth = broughtAbout(op->effects, e, s);
  Dnf d;
  try {
    d = DisjunctiveFormula::Create(*W.pddl, op->effects, paramObjects({PX, PY}), W.args(t), true);
  } catch (const std::exception&) {
    symx_assert(!(truth & validRef(W, s)), "only effects that hold in no valid state are rejected");
    symx_reach("threw");
    return;
  }
  wellFormed(d);
  symx_assert(!validRef(W, s) | (dnfTrue(W, d, s) == truth), "true in exactly the valid states in which the effects have been brought about");
  symx_reach("done");
}
template <class F>
static void closed(F make, bool truth, const Bits& s) {
  Dnf d, plain = make(false);
  try { d = make(true); } catch (const std::exception&) {
    // one of the conjunctions holds in no valid state
    bool none = false;
    if (plain.has_value()) for (auto& c : plain->conjunctions) none |= !W.pddl->IsValidState(c);
    symx_assert(none, "rejected only for a conjunction the axioms contradict");
    symx_reach("rejected");
    return;
  }
  symx_assert(!validRef(W, s) | (dnfTrue(W, d, s) == truth), "the closed form is true in exactly the valid states in which the formula is true");
  if (d.has_value() && !(*d == *plain)) symx_reach("closed");
  if (d.has_value()) for (auto& c : d->conjunctions) symx_assert(W.pddl->ConsistentState(c) == c, "every conjunction is closed");
  symx_reach("done");
}
static void calls() {
  load();
  Bits s = W.sym();
  int k = (int)symx_split(symx_int("action", 0, (int)W.pddl->actions().size()));
  if (k == (int)W.pddl->actions().size()) {
    closed([](bool x) { return DisjunctiveFormula::NormalizeGoal(*W.pddl, x); }, holds(W, W.ast->the_problem->the_goal, {}, s), s);
    return;
  }
  const symbolic::Action& a = W.pddl->actions()[k];
  auto all = W.tuples(a.symbol()->parameters);
  std::vector<int> t = all[symx_split(symx_int("arguments", 0, (int)all.size() - 1))];
  std::string call = a.to_string(W.args(t));
  const Env e = bindv({}, a.symbol()->parameters, t);
  if (symx_split(symx_bool("pre"))) closed([&](bool x) { return DisjunctiveFormula::NormalizePreconditions(*W.pddl, call, x); }, holds(W, a.symbol()->precondition, e, s), s);
  else closed([&](bool x) { return DisjunctiveFormula::NormalizePostconditions(*W.pddl, call, x); }, broughtAbout(a.symbol()->effects, e, s), s);
}
SYMX_HARNESS(bin, nullptr, bin2, BOTH);
SYMX_HARNESS(deep, nullptr, deep, BOTH);
SYMX_HARNESS(effects, nullptr, effects, BOTH);
SYMX_HARNESS(calls, nullptr, calls, BOTH);
