// P24: axioms fire when an action makes their context true.
// symx: include=abs sources=DOMAIN assumptions="states are the abstract set of abs/ (contract decided by P06/P07 for the real one)|parse trees come from the VAL stand-in in shim/"
// symx: harness chain bounds="4 axioms (chain, constant in the context, negative context with quantified deletion), 8 actions, every well-typed call, every state over 13 atoms" require=done,fired
// symx: harness cycle bounds="axiom cycles: equivalence of two predicates in both signs, symmetry of a relation; every call of 4 actions, every state over 10 atoms" require=done,fired
// symx: harness repeated bounds="context with a repeated variable" require=done,fired
// symx: harness typed bounds="axiom variable of a narrower type than the action's argument" require=done,fired
// symx: harness reenter bounds="an axiom whose effects trigger itself for other objects" require=done,fired
// symx: harness unbound bounds="an axiom with a variable that does not occur in its context" require=done
// symx: harness shared bounds="several axioms on one predicate in each sign, of which a proposition matches some: narrower types, constants and repeated variables before and after plain ones; every call of 5 actions, every state over 16 atoms" require=done,fired
// symx: harness constants bounds="two constants in contexts and in effects of both signs, matching some of the axioms on a predicate and not others; every call of 8 actions, every state over 16 atoms" require=done,fired
// symx: harness partial bounds="the tasks of cycle, shared, constants, typed and reenter: every call, every partial state over up to 16 atoms" require=done,fired,flipped budget=300
// symx: harness partialchain bounds="the task of chain: every call without quantified effects of its own, every partial state over 13 atoms" require=done,fired,flipped budget=200
// symx: harness partialall bounds="the task of chain: every call, every partial state over 13 atoms" require=done,fired,flipped thorough_budget=2400
// symx: harness off bounds="propositions that are already so, or do not match, trigger nothing: every action, every state closed under the axioms" require=done
#include "axioms.h"
#include "partial.h"
static World W;
static const char* kHead = "(define (domain d) (:requirements :typing) (:types t1 - object t2 - t1) (:constants a - t2)";
static const char* kProblem = "(define (problem x) (:domain d) (:objects b - t2 c - t1) (:init) (:goal (and)))";
static void load(const std::string& body) { W.load(kHead + body + ")", kProblem); }
static bool clash, fired;
static void apply(const VAL::effect_lists* l, const Env& e, Bits& s);
static void put(int atom, bool v, Bits& s) {
  if (symx_split(s[atom] == v)) return;
  s[atom] = v;
  const Atom& at = W.atoms[atom];
  for (auto* ax : axiomsOf(W)) {
    const VAL::goal* g = ax->precondition; bool pos = true;
    if (auto* n = dynamic_cast<const VAL::neg_goal*>(g)) { pos = false; g = n->getGoal(); }
    const VAL::proposition* c = dynamic_cast<const VAL::simple_goal*>(g)->getProp();
    if (pos != v || c->head->getNameRef() != at.pred) continue;
    for (auto& t : W.tuples(ax->parameters))
      if (ground(W, c, bindv({}, ax->parameters, t)) == at.args) { fired = true; apply(ax->effects, bindv({}, ax->parameters, t), s); }
  }
}
static void apply(const VAL::effect_lists* l, const Env& e, Bits& s) {
  for (auto* f : l->forall_effects) for (auto& t : W.tuples(f->getVarsList())) apply(f->getEffects(), bindv(e, f->getVarsList(), t), s);
  for (auto* x : l->add_effects) put(W.atom(x->prop->head->getNameRef(), ground(W, x->prop, e)), true, s);
  for (auto* x : l->del_effects) put(W.atom(x->prop->head->getNameRef(), ground(W, x->prop, e)), false, s);
  for (auto* c : l->cond_effects) if (symx_split(holds(W, c->getCondition(), e, s))) apply(c->getEffects(), e, s);
}
static void run(bool closed) {
  int n = (int)W.pddl->actions().size();
  const symbolic::Action& a = W.pddl->actions()[symx_split(symx_int("action", 0, n - 1))];
  auto all = W.tuples(a.symbol()->parameters);
  std::vector<int> t = all[symx_split(symx_int("arguments", 0, (int)all.size() - 1))];
  Bits s = W.sym();
  if (closed) symx_assume(validRef(W, s));
  State st = W.state(s);
  State next = a.Apply(st, W.args(t));
  Bits want = s;
  fired = false;
  apply(a.symbol()->effects, bindv({}, a.symbol()->parameters, t), want);
  symx_assert(W.same(next, want), "the action's effects and those of the triggered axioms, nothing else");
  symx_assert(W.same(st, s), "the state is left alone");
  bool ch = a.Apply(W.args(t), &st);
  symx_assert(st == next, "the in-place form agrees");
  symx_assert(ch == !equal(W, s, want), "change is reported");
  if (fired) symx_reach("fired");
  if (closed && !fired) {
    Bits plain = applyRef(W, a.symbol(), t, s);
    symx_assert(W.same(next, plain), "nothing is triggered");
  }
  symx_reach("done");
}
static const char* kChainD =
    " (:predicates (p ?x - t1) (r ?x - t1) (q ?x - t1 ?y - t2) (z))"
    " (:axiom :vars (?x - t1 ?y - t2) :context (q ?x ?y) :implies (p ?x))"
    " (:axiom :vars (?x - t1) :context (p ?x) :implies (r ?x))"
    " (:axiom :vars (?a - t1) :context (q ?a a) :implies (z))"
    " (:axiom :vars (?x - t1) :context (not (p ?x)) :implies (and (not (r ?x)) (forall (?v - t2) (not (q ?x ?v)))))"
    " (:action link :parameters (?y - t2 ?x - t1) :precondition (and) :effect (q ?x ?y))"
    " (:action linka :parameters (?x - t1) :precondition (and) :effect (q ?x a))"
    " (:action drop :parameters (?x - t1) :precondition (and) :effect (not (p ?x)))"
    " (:action all :parameters (?y - t2) :precondition (and) :effect (forall (?v - t1) (q ?v ?y)))"
    " (:action cond :parameters (?x - t1 ?y - t2) :precondition (and) :effect (when (not (z)) (q ?x ?y)))"
    " (:action froma :parameters (?a - t2) :precondition (and) :effect (q a ?a))"
    " (:action self :parameters (?x - t2) :precondition (and) :effect (and (q ?x ?x) (r a)))"
    " (:action cut :parameters (?x - t1 ?y - t2) :precondition (and) :effect (not (q ?x ?y)))";
static void setupChain() { load(kChainD); }
static void chain() { run(false); }
static void off() { run(true); }
static void setupCycle() {
  load(" (:predicates (p ?x - t2) (r ?x - t2) (q ?x ?y - t2) (z))"
       " (:axiom :vars (?x - t2) :context (p ?x) :implies (r ?x))"
       " (:axiom :vars (?x - t2) :context (r ?x) :implies (p ?x))"
       " (:axiom :vars (?x - t2) :context (not (p ?x)) :implies (not (r ?x)))"
       " (:axiom :vars (?x - t2) :context (not (r ?x)) :implies (not (p ?x)))"
       " (:axiom :vars (?x ?y - t2) :context (q ?x ?y) :implies (q ?y ?x))"
       " (:axiom :vars (?u ?v - t2) :context (not (q ?u ?v)) :implies (not (q ?v ?u)))"
       " (:action on :parameters (?x - t2) :precondition (and) :effect (p ?x))"
       " (:action off :parameters (?x - t2) :precondition (and) :effect (not (r ?x)))"
       " (:action link :parameters (?x ?y - t2) :precondition (and) :effect (and (q ?x ?y) (z)))"
       " (:action cut :parameters (?x ?y - t2) :precondition (and) :effect (not (q ?x ?y)))");
}
static void plain() { run(false); }
static void setupRepeated() {
  load(" (:predicates (s ?x - t2) (q ?x ?y - t2) (z))"
       " (:axiom :vars (?x - t2) :context (q ?x ?x) :implies (s ?x))"
       " (:action link :parameters (?x ?y - t2) :precondition (and) :effect (q ?x ?y))"
       " (:action linka :parameters (?x - t2) :precondition (and) :effect (q ?x a))"
       " (:action twice :parameters (?x - t2) :precondition (and) :effect (q ?x ?x))");
}
static void setupTyped() {
  load(" (:predicates (p ?x - t1) (s ?x - t2))"
       " (:axiom :vars (?x - t2) :context (p ?x) :implies (s ?x))"
       " (:action set :parameters (?x - t1) :precondition (and) :effect (p ?x))"
       " (:action all :parameters (?x - t1) :precondition (and) :effect (forall (?x - t1) (p ?x)))");
}
static void setupReenter() {
  load(" (:predicates (m ?x - t1) (r ?x - t1))"
       " (:axiom :vars (?x - t1) :context (m ?x) :implies (and (forall (?v - t1) (m ?v)) (r ?x)))"
       " (:action set :parameters (?x - t1) :precondition (and) :effect (m ?x))");
}
static void setupUnbound() {
  load(" (:predicates (p ?x - t1) (q ?x - t1 ?y - t2))"
       " (:axiom :vars (?x - t1 ?v - t2) :context (p ?x) :implies (q ?x ?v))"
       " (:action set :parameters (?x - t1) :precondition (and) :effect (p ?x))");
}
static void unbound() {
  const symbolic::Action& a = W.pddl->actions()[0];
  int x = (int)symx_split(symx_int("argument", 0, 2));
  Bits s, want;
  want[W.atom("p", {x})] = true;
  for (int y = 0; y < 2; y++) want[W.atom("q", {x, y})] = true;
  State next = a.Apply(W.state(s), W.args({x}));
  symx_assert(W.same(next, want), "axiom variable outside the context is not instantiated");
  symx_reach("done");
}
static void setupShared() {
  load(" (:predicates (p ?x - t1) (s ?x - t2) (q ?x ?y - t2) (u ?x - t2) (v ?x - t2) (y) (z) (w))"
       " (:axiom :vars (?x - t2) :context (p ?x) :implies (s ?x))"
       " (:axiom :vars (?x - t1) :context (p ?x) :implies (z))"
       " (:axiom :vars (?x - t2) :context (not (p ?x)) :implies (not (s ?x)))"
       " (:axiom :vars (?x - t1) :context (not (p ?x)) :implies (y))"
       " (:axiom :vars (?x - t2) :context (q ?x ?x) :implies (w))"
       " (:axiom :vars (?x - t2) :context (q a ?x) :implies (u ?x))"
       " (:axiom :vars (?x ?y - t2) :context (q ?x ?y) :implies (v ?y))"
       " (:axiom :vars (?x - t2) :context (q ?x a) :implies (u ?x))"
       " (:axiom :vars (?x - t2) :context (not (q ?x ?x)) :implies (not (w)))"
       " (:axiom :vars (?x - t2) :context (not (q ?x a)) :implies (not (u ?x)))"
       " (:axiom :vars (?x ?y - t2) :context (not (q ?y ?x)) :implies (not (v ?x)))"
       " (:action on :parameters (?x - t1) :precondition (and) :effect (p ?x))"
       " (:action off :parameters (?x - t1) :precondition (and) :effect (not (p ?x)))"
       " (:action all :parameters () :precondition (and) :effect (forall (?x - t1) (not (p ?x))))"
       " (:action link :parameters (?x ?y - t2) :precondition (and) :effect (q ?x ?y))"
       " (:action cut :parameters (?x ?y - t2) :precondition (and) :effect (not (q ?x ?y)))");
}
static void setupConstants() {
  W.load("(define (domain d) (:requirements :typing) (:types t1 - object t2 - t1) (:constants a k - t2)"
         " (:predicates (p ?x - t2) (q ?x ?y - t2) (u ?x - t2) (y) (z))"
         " (:axiom :vars (?x - t2) :context (p k) :implies (y))"
         " (:axiom :vars (?x - t2) :context (p ?x) :implies (u ?x))"
         " (:axiom :vars (?x - t2) :context (p a) :implies (z))"
         " (:axiom :vars (?x - t2) :context (not (p k)) :implies (not (z)))"
         " (:axiom :vars (?x - t2) :context (not (p ?x)) :implies (not (u ?x)))"
         " (:axiom :vars (?x - t2) :context (not (p a)) :implies (not (y)))"
         " (:axiom :vars (?x - t2) :context (q k ?x) :implies (p ?x))"
         " (:axiom :vars (?x - t2) :context (q a ?x) :implies (not (z)))"
         " (:axiom :vars (?x - t2) :context (q ?x k) :implies (u k))"
         " (:axiom :vars (?x - t2) :context (not (q ?x a)) :implies (not (u ?x)))"
         " (:axiom :vars (?x - t2) :context (not (q a ?x)) :implies (y))"
         " (:action pk :parameters (?x - t2) :precondition (and) :effect (p k))"
         " (:action pa :parameters (?x - t2) :precondition (and) :effect (p a))"
         " (:action dk :parameters (?x - t2) :precondition (and) :effect (not (p k)))"
         " (:action da :parameters (?x - t2) :precondition (and) :effect (not (p a)))"
         " (:action qa :parameters (?x - t2) :precondition (and) :effect (q a ?x))"
         " (:action qk :parameters (?x - t2) :precondition (and) :effect (q ?x k))"
         " (:action nk :parameters (?x - t2) :precondition (and) :effect (not (q k ?x)))"
         " (:action na :parameters (?x - t2) :precondition (and) :effect (not (q a a))))",
         "(define (problem x) (:domain d) (:objects b - t2 c - t1) (:init) (:goal (and)))", false);
}
// The same in partial states: a proposition that was unknown or had the opposite value becomes known.
static int change;
static void applyPartial(const VAL::effect_lists* l, const Env& e, PBits& s);
static void putPartial(int atom, bool v, PBits& s) {
  if (symx_split(s.known[atom] & (s.val[atom] == v))) return;
  bool flip = symx_split(s.known[atom]);
  if (flip) symx_reach("flipped");
  change = std::max(change, flip ? 2 : 1);
  s.known[atom] = true;
  s.val[atom] = v;
  const Atom& at = W.atoms[atom];
  for (auto* ax : axiomsOf(W)) {
    const VAL::goal* g = ax->precondition; bool pos = true;
    if (auto* n = dynamic_cast<const VAL::neg_goal*>(g)) { pos = false; g = n->getGoal(); }
    const VAL::proposition* c = dynamic_cast<const VAL::simple_goal*>(g)->getProp();
    if (pos != v || c->head->getNameRef() != at.pred) continue;
    for (auto& t : W.tuples(ax->parameters))
      if (ground(W, c, bindv({}, ax->parameters, t)) == at.args) { fired = true; applyPartial(ax->effects, bindv({}, ax->parameters, t), s); }
  }
}
static void applyPartial(const VAL::effect_lists* l, const Env& e, PBits& s) {
  for (auto* f : l->forall_effects) for (auto& t : W.tuples(f->getVarsList())) applyPartial(f->getEffects(), bindv(e, f->getVarsList(), t), s);
  for (auto* x : l->add_effects) putPartial(W.atom(x->prop->head->getNameRef(), ground(W, x->prop, e)), true, s);
  for (auto* x : l->del_effects) putPartial(W.atom(x->prop->head->getNameRef(), ground(W, x->prop, e)), false, s);
  for (auto* c : l->cond_effects) {
    const VAL::goal* g = c->getCondition(); bool pos = true;  // a literal
    if (auto* n = dynamic_cast<const VAL::neg_goal*>(g)) { pos = false; g = n->getGoal(); }
    auto* p = dynamic_cast<const VAL::simple_goal*>(g)->getProp();
    int i = W.atom(p->head->getNameRef(), ground(W, p, e));
    if (symx_split(s.known[i] & (s.val[i] == pos))) applyPartial(c->getEffects(), e, s);
  }
}
static void setupCycle();
static void setupShared();
static void setupTyped();
static void setupReenter();
static void setupConstants();
static void partialK(bool chain, bool quantified) {
  static void (*const kSetup[])() = {setupCycle, setupShared, setupTyped, setupReenter, setupConstants};
  if (chain) setupChain(); else kSetup[symx_split(symx_int("task", 0, 4))]();
  int n = (int)W.pddl->actions().size();
  const symbolic::Action& a = W.pddl->actions()[symx_split(symx_int("action", 0, n - 1))];
  if (chain && !quantified && !a.symbol()->effects->forall_effects.empty()) return;
  auto all = W.tuples(a.symbol()->parameters);
  std::vector<int> t = all[symx_split(symx_int("arguments", 0, (int)all.size() - 1))];
  PBits s = symPartial(W), want = s;
  PartialState st = partialState(W, s);
  PartialState next = a.Apply(st, W.args(t));
  fired = false; change = 0;
  applyPartial(a.symbol()->effects, bindv({}, a.symbol()->parameters, t), want);
  symx_assert(samePartial(W, next, want), "the action's effects and those of the triggered axioms, nothing else");
  symx_assert(samePartial(W, st, s), "the state is left alone");
  int ch = a.Apply(W.args(t), &st);
  symx_assert(st == next, "the in-place form agrees");
  symx_assert(ch == change, "the largest change is reported");
  if (fired) symx_reach("fired");
  symx_reach("done");
}
static void partial() { partialK(false, true); }
static void partialchain() { partialK(true, false); }
static void partialall() { partialK(true, true); }
SYMX_HARNESS(partial, nullptr, partial, BOTH);
SYMX_HARNESS(partialchain, nullptr, partialchain, BOTH);
SYMX_HARNESS(partialall, nullptr, partialall, THOROUGH);
SYMX_HARNESS(constants, setupConstants, plain, BOTH);
SYMX_HARNESS(shared, setupShared, plain, BOTH);
SYMX_HARNESS(chain, setupChain, chain, BOTH);
SYMX_HARNESS(off, setupChain, off, BOTH);
SYMX_HARNESS(cycle, setupCycle, plain, BOTH);
SYMX_HARNESS(repeated, setupRepeated, plain, BOTH);
SYMX_HARNESS(typed, setupTyped, plain, BOTH);
SYMX_HARNESS(reenter, setupReenter, plain, BOTH);
SYMX_HARNESS(unbound, setupUnbound, unbound, BOTH);
