// Formulas of symbolic structure: every choice is a solver-visible input.
#pragma once
#include "world.h"
using namespace VAL;
struct Gen {
  const World& w;
  // a leaf may use these terms (names of variables in scope and of objects)
  std::vector<parameter_symbol*> terms;
  int npred = 3;  // predicates usable in leaves
  bool eq = true, type = true;
  std::vector<pred_symbol*> preds;
  std::vector<int> arity;
  pred_symbol *peq, *ptype;
  std::vector<pred_symbol*> types;  // type tests to choose from (if ptype is set), instead of ptype alone
  explicit Gen(const World& w_) : w(w_) {
    for (auto* d : *w.ast->the_domain->predicates) { preds.push_back(new pred_symbol(d->getPred()->getNameRef())); arity.push_back((int)d->getArgs()->size()); }
    peq = new pred_symbol("=");
    ptype = nullptr;
  }
  int pick(const char* what, int n) const { return n <= 1 ? 0 : (int)symx_split(symx_int(what, 0, n - 1)); }
  parameter_symbol* term(const char* what) const { return terms[pick(what, (int)terms.size())]; }
  goal* leaf() const {
    int np = (int)preds.size();
    int k = pick("leaf", np + (eq ? 1 : 0) + (ptype ? 1 : 0));
    auto* a = new parameter_symbol_list();
    if (k < np) {
      for (int i = 0; i < arity[k]; i++) a->push_back(term("arg"));
      return new simple_goal(new proposition(preds[k], a));
    }
    if (eq && k == np) { a->push_back(term("eq")); a->push_back(term("eq")); return new simple_goal(new proposition(peq, a)); }
    a->push_back(term("arg"));
    return new simple_goal(new proposition(types.empty() ? ptype : types[pick("type test", (int)types.size())], a));
  }
  goal* neg(goal* g) const { return new neg_goal(g); }
  goal* lit() const { bool n = pick("not", 2); goal* g = leaf(); return n ? neg(g) : g; }
  goal* nary(bool conj, std::vector<goal*> k) const {
    auto* l = new goal_list();
    for (goal* g : k) l->push_back(g);
    if (conj) return new conj_goal(l);
    return new disj_goal(l);
  }
  var_symbol* var(const std::string& name, pddl_type* t) const { auto* v = new var_symbol(name); v->type = t; return v; }
  goal* quant(bool all, std::vector<var_symbol*> vs, goal* body) const {
    auto* l = new var_symbol_list();
    for (auto* v : vs) l->push_back(v);
    return new qfied_goal(all ? E_FORALL : E_EXISTS, l, body);
  }
  pddl_type* type_(const std::string& name) const {
    if (name.empty()) return nullptr;
    for (auto* t : *w.ast->the_domain->types) for (pddl_type* c = t; c; c = c->type) if (c->getNameRef() == name) return c;
    __builtin_trap();
  }
  parameter_symbol* object(const std::string& name) const { return const_cast<const_symbol*>(w.osym[w.obj(name)]); }
};
