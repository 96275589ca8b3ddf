// P27: normalised effects describe the action's outcome.
// symx: sources=DOMAIN assumptions="parse trees come from the VAL stand-in in shim/|the outcome of an action is that of the reference semantics (decided against Action::Apply by P18)|equality and type literals left in a conjunction are read as the static facts they denote"
// symx: harness plain bounds="actions with 1-2 unconditional effects out of 10 (adds, deletes, nested quantified ones), every argument; every state" require=done
// symx: harness cond bounds="actions with 1 unconditional or conditional effect and up to 1 more out of 23; every argument; every state" require=done
// symx: harness agree bounds="6 actions over a task with 4 axioms, every well-typed call: pair and single forms, with and without axioms" require=done,closed,rejected
// symx: harness cond3 bounds="actions with 3 effects out of 23; every argument; every state" require=done thorough_budget=600
#include "f_effects.h"
#include "dnf.h"
static const char* kTrivial[] = {"(when (or (p ?x) (not (p ?x))) (z))", "(when (and (p ?x) (not (p ?x))) (z))",
                                 "(when (= ?x ?a) (not (p ?x)))",
                                 "(when (p ?a) (and (q ?x ?a) (not (q ?x ?a))))",
                                 "(forall (?v - t2) (and (q ?x ?v) (not (q ?x a))))"};
static VAL::operator_* make(const std::vector<int>& items) {
  Gen G(W);
  PX = G.var("x", G.type_("t1"));
  PY = G.var("a", G.type_("t2"));
  valshim::Scope sc{W.ast, {PX, PY}};
  std::string t = "(and";
  for (int i : items) t += std::string(" ") + (i < kAll ? kItems[i] : kTrivial[i - kAll]);
  auto* op = new VAL::action();
  op->name = new VAL::operator_symbol("act");
  op->parameters = new VAL::var_symbol_list();
  op->parameters->push_back(PX);
  op->parameters->push_back(PY);
  op->precondition = valshim::parseGoal("(and)", sc);
  op->effects = valshim::parseEffects(t + ")", sc);
  if (!op->effects) __builtin_trap();
  return op;
}
// each effect whose condition holds in s has been brought about in s
static bool broughtAbout(const VAL::effect_lists* l, const Env& e, const Bits& s) {
  bool r = true;
  for (auto* f : l->forall_effects) for (auto& t : W.tuples(f->getVarsList())) r &= broughtAbout(f->getEffects(), bindv(e, f->getVarsList(), t), s);
  for (auto* x : l->add_effects) { int i = W.atom(x->prop->head->getNameRef(), ground(W, x->prop, e)); r &= i < 0 ? false : s[i]; }
  for (auto* x : l->del_effects) { int i = W.atom(x->prop->head->getNameRef(), ground(W, x->prop, e)); r &= i < 0 ? true : !s[i]; }
  for (auto* c : l->cond_effects) r &= !holds(W, c->getCondition(), e, s) | broughtAbout(c->getEffects(), e, s);
  return r;
}
static void checkE(const std::vector<int>& items, bool cond) {
  VAL::operator_* op = make(items);
  std::vector<int> t = pickArgs(op);
  const Env e = bindv({}, op->parameters, t);
  Bits s = W.sym();
  Dnf d;
  try {
    d = DisjunctiveFormula::Create(*W.pddl, op->effects, paramObjects({PX, PY}), W.args(t));
  } catch (const std::exception&) {
    symx_assert(!broughtAbout(op->effects, e, s), "only effects nothing can bring about are rejected");
    symx_reach("done");
    return;
  }
  wellFormed(d);
  symx_assert(dnfTrue(W, d, s) == broughtAbout(op->effects, e, s), "true exactly where every effect whose condition holds has been brought about");
  if (independent(op, t)) {
    symx_assert(conflicts(W, op, t, s) | dnfTrue(W, d, applyRef(W, op, t, s)), "the outcome satisfies the normal form");
    symx_reach("done");
  }
  if (!cond) {
    Bits add, del;
    effects(W, op->effects, e, s, true, add, del);
    size_t n = 0;
    bool clash = false;
    for (int i = 0; i < W.n(); i++) { n += add[i] | del[i]; clash |= add[i] & del[i]; }
    symx_assert(d.has_value() == !clash, "no value exactly for contradictory effects");
    if (clash) return;
    symx_assert(d->conjunctions.size() == (n ? 1u : 0u), "one conjunction");
    if (n) {
      auto& c = d->conjunctions[0];
      size_t k = 0;
      for (auto& p : c.pos()) { (void)p; k++; }
      for (auto& p : c.neg()) { (void)p; k++; }
      symx_assert(k == n, "nothing but added and deleted propositions");
      for (int i = 0; i < W.n(); i++) {
        symx_assert(has(c.pos(), W.props[i]) == add[i], "added propositions are positive");
        symx_assert(has(c.neg(), W.props[i]) == del[i], "deleted propositions are negative");
      }
    }
  }
}
static void plain() {
  int k = 1 + (int)symx_split(symx_int("more", 0, 1));
  checkE(pickItems(k, kUncond), false);
}
static void condK(int k) { checkE(pickItems(k, kAll + 5), true); }
static void cond() { condK(1 + (int)symx_split(symx_int("more", 0, 1))); }
static void cond3() { condK(3); }
static void setupAgree() {
  W.load("(define (domain d) (:requirements :typing) (:types t1 - object t2 - t1) (:constants a - t2)"
         " (:predicates (p ?x - t1) (r ?x - t1) (q ?x - t1 ?y - t2) (z))"
         " (:axiom :vars (?x - t1) :context (p ?x) :implies (r ?x))"
         " (:axiom :vars (?x - t1 ?y - t2) :context (q ?x ?y) :implies (p ?x))"
         " (:axiom :vars (?x - t1) :context (not (r ?x)) :implies (not (p ?x)))"
         " (:axiom :vars (?x - t1) :context (not (p ?x)) :implies (forall (?v - t2) (not (q ?x ?v))))"
         " (:action one :parameters (?x - t1) :precondition (p ?x) :effect (not (r ?x)))"
         " (:action two :parameters (?x - t1 ?y - t2) :precondition (or (q ?x ?y) (and (p ?y) (not (z)))) :effect (q ?x ?y))"
         " (:action three :parameters (?x - t2) :precondition (not (exists (?v - t2) (q ?v ?x))) :effect (forall (?v - t2) (when (p ?v) (q ?x ?v))))"
         " (:action four :parameters (?x - t1) :precondition (and (p ?x) (not (p ?x))) :effect (z))"
         " (:action five :parameters (?x - t1) :precondition (z) :effect (and (r ?x) (not (r ?x))))"
         " (:action six :parameters () :precondition (forall (?v - t1) (p ?v)) :effect (not (z))))",
         "(define (problem p) (:domain d) (:objects b - t2 c - t1) (:init) (:goal (exists (?v - t2) (or (q ?v ?v) (p ?v)))))", false);
}
// the closed form is the conjunctions' closures; fails exactly when one has none
template <class F>
static bool closure(const Dnf& plain, F make) {
  bool none = false, threw = false;
  if (plain.has_value())
    for (auto& c : plain->conjunctions) { try { W.pddl->ConsistentState(c); } catch (const std::exception&) { none = true; } }
  Dnf closed;
  try { closed = make(); } catch (const std::exception&) { threw = true; }
  if (none || threw) { if (none) symx_reach("rejected"); return none == threw; }
  if (!plain.has_value()) return !closed.has_value();
  if (!closed.has_value() || closed->conjunctions.size() != plain->conjunctions.size()) return false;
  bool changed = false;
  for (size_t i = 0; i < plain->conjunctions.size(); i++) {
    PartialState c = W.pddl->ConsistentState(plain->conjunctions[i]);
    changed |= !(c == plain->conjunctions[i]);
    if (!(c == closed->conjunctions[i])) return false;
  }
  if (changed) symx_reach("closed");
  return true;
}
static void agree() {
  int n = (int)W.pddl->actions().size();
  int k = (int)symx_split(symx_int("action", 0, n));
  if (k == n) {
    symx_assert(closure(DisjunctiveFormula::NormalizeGoal(*W.pddl), [] { return DisjunctiveFormula::NormalizeGoal(*W.pddl, true); }), "closed goal");
    return;
  }
  const symbolic::Action& a = W.pddl->actions()[k];
  auto all = W.tuples(a.symbol()->parameters);
  std::vector<int> t = all[symx_split(symx_int("arguments", 0, (int)all.size() - 1))];
  std::string call = a.to_string(W.args(t));
  const Pddl& p = *W.pddl;
  Dnf pre = DisjunctiveFormula::NormalizePreconditions(p, call), post = DisjunctiveFormula::NormalizePostconditions(p, call);
  auto same = [](const Dnf& x, const Dnf& y) { return x.has_value() == y.has_value() && (!x.has_value() || *x == *y); };
  symx_assert(same(pre, DisjunctiveFormula::Create(p, a.symbol()->precondition, a.parameters(), W.args(t))), "preconditions");
  symx_assert(same(post, DisjunctiveFormula::Create(p, a.symbol()->effects, a.parameters(), W.args(t))), "postconditions");
  auto both = DisjunctiveFormula::NormalizeConditions(p, call);
  symx_assert(both.has_value() == (pre.has_value() && post.has_value()), "the pair exists exactly when both do");
  if (both.has_value()) symx_assert(both->first == *pre && both->second == *post, "the pair agrees");
  Dnf cpre, cpost;
  auto fpre = [&] { return cpre = DisjunctiveFormula::NormalizePreconditions(p, call, true); };
  auto fpost = [&] { return cpost = DisjunctiveFormula::NormalizePostconditions(p, call, true); };
  symx_assert(closure(pre, fpre), "closed preconditions");
  symx_assert(closure(post, fpost), "closed postconditions");
  try { fpre(); fpost(); } catch (const std::exception&) { symx_reach("done"); return; }
  auto cboth = DisjunctiveFormula::NormalizeConditions(p, call, true);
  symx_assert(cboth.has_value() == both.has_value(), "the closed pair exists exactly when the pair does");
  if (cboth.has_value()) symx_assert(cboth->first == *cpre && cboth->second == *cpost, "the closed pair agrees");
  symx_reach("done");
}
SYMX_HARNESS(plain, fworld, plain, BOTH);
SYMX_HARNESS(cond, fworld, cond, BOTH);
SYMX_HARNESS(agree, setupAgree, agree, BOTH);
SYMX_HARNESS(cond3, fworld, cond3, THOROUGH);
