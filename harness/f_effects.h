// Actions whose effects are chosen from a pool, over task W with parameters ?x - t1, ?a - t2 (a is also the name of a constant).
#pragma once
#include "gen.h"
#include "f_world.h"
static const char* kItems[] = {
    "(p ?x)",
    "(not (p ?a))",
    "(q ?x ?a)",
    "(not (q ?x a))",
    "(not (z))",
    "(forall (?v - t2) (q ?x ?v))",
    "(forall (?x - t1) (not (p ?x)))",
    "(forall (?v - t3) (z))",
    "(forall (?v - t2) (and (p ?v) (forall (?u - t2) (not (q ?v ?u)))))",
    "(forall (?v - t2 ?w - t1) (q ?w ?v))",
    // conditional effects; conditions are conjunctions of literals
    "(when (z) (p ?a))",
    "(when (not (p ?x)) (and (not (z)) (q ?a ?a)))",
    "(forall (?x - t1) (when (q ?x ?a) (not (p ?x))))",
    "(when (forall (?w - t1) (p ?w)) (not (q ?x ?a)))",
    "(forall (?v - t2 ?w - t1) (when (and (p ?w) (not (= ?v ?w))) (not (q ?w ?v))))",
    "(when (and (z) (t2 ?x)) (forall (?v - t2) (p ?v)))",
    // other conditions
    "(when (exists (?w - t2) (q ?x ?w)) (z))",
    "(when (or (p ?x) (not (z))) (not (q ?x b)))"};
const int kUncond = 10, kLit = 16, kAll = 18;
static VAL::var_symbol *PX, *PY;
static VAL::operator_* makeOp(const std::vector<int>& items, const std::string& pre = "(and)") {
  Gen G(W);
  PX = G.var("x", G.type_("t1"));
  PY = G.var("a", G.type_("t2"));
  valshim::Scope sc{W.ast, {PX, PY}};
  std::string t = "(and";
  for (int i : items) t += std::string(" ") + kItems[i];
  auto* op = new VAL::action();
  op->name = new VAL::operator_symbol("act");
  op->parameters = new VAL::var_symbol_list();
  op->parameters->push_back(PX);
  op->parameters->push_back(PY);
  op->precondition = valshim::parseGoal(pre, sc);
  op->effects = valshim::parseEffects(t + ")", sc);
  if (!op->precondition || !op->effects) __builtin_trap();
  return op;
}
// atoms a condition can look at
static void reads(const VAL::goal* g, const Env& e, Bits& r) {
  if (auto* x = dynamic_cast<const VAL::simple_goal*>(g)) {
    int i = W.atom(x->getProp()->head->getNameRef(), ground(W, x->getProp(), e));
    if (i >= 0) r[i] = true;
  } else if (auto* x = dynamic_cast<const VAL::conj_goal*>(g)) { for (auto* k : *x->getGoals()) reads(k, e, r); }
  else if (auto* x = dynamic_cast<const VAL::disj_goal*>(g)) { for (auto* k : *x->getGoals()) reads(k, e, r); }
  else if (auto* x = dynamic_cast<const VAL::neg_goal*>(g)) reads(x->getGoal(), e, r);
  else { auto* q = dynamic_cast<const VAL::qfied_goal*>(g); for (auto& t : W.tuples(q->getVars())) reads(q->getGoal(), bindv(e, q->getVars(), t), r); }
}
static void readsWrites(const VAL::effect_lists* l, const Env& e, Bits& r, Bits& w) {
  for (auto* f : l->forall_effects) for (auto& t : W.tuples(f->getVarsList())) readsWrites(f->getEffects(), bindv(e, f->getVarsList(), t), r, w);
  for (auto* x : l->add_effects) w[W.atom(x->prop->head->getNameRef(), ground(W, x->prop, e))] = true;
  for (auto* x : l->del_effects) w[W.atom(x->prop->head->getNameRef(), ground(W, x->prop, e))] = true;
  for (auto* c : l->cond_effects) { reads(c->getCondition(), e, r); readsWrites(c->getEffects(), e, r, w); }
}
// conditions look only at atoms the effects never write
static bool independent(const VAL::operator_* op, const std::vector<int>& t) {
  Bits r, w;
  readsWrites(op->effects, bindv({}, op->parameters, t), r, w);
  for (int i = 0; i < W.n(); i++) if (r[i] && w[i]) return false;
  return true;
}
static std::vector<int> pickItems(int k, int pool) {
  std::vector<int> r;
  for (int i = 0; i < k; i++) r.push_back((int)symx_split(symx_int("effect", 0, pool - 1)));
  return r;
}
static std::vector<int> pickArgs(const VAL::operator_* op) {
  auto all = W.tuples(op->parameters);
  return all[symx_split(symx_int("arguments", 0, (int)all.size() - 1))];
}
