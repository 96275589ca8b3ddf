// Axiom semantics over the parse tree, independent of /repo's code.
#pragma once
#include "world.h"
struct AxInst { const VAL::operator_* ax; std::vector<int> t; };
static std::vector<const VAL::operator_*> axiomsOf(const World& w) {
  std::vector<const VAL::operator_*> r;
  for (auto* op : *w.ast->the_domain->ops) if (dynamic_cast<const VAL::axiom*>(op)) r.push_back(op);
  return r;
}
// all well-typed instances
static std::vector<AxInst> instances(const World& w) {
  std::vector<AxInst> r;
  for (auto* ax : axiomsOf(w)) for (auto& t : w.tuples(ax->parameters)) r.push_back({ax, t});
  return r;
}
// literals an effect asks for (unconditional effects); false if it asks for something impossible
struct Lit { int atom; bool val; };
static bool literals(const World& w, const VAL::effect_lists* l, const Env& e, std::vector<Lit>& out) {
  bool ok = true;
  for (auto* f : l->forall_effects) for (auto& t : w.tuples(f->getVarsList())) ok &= literals(w, f->getEffects(), bindv(e, f->getVarsList(), t), out);
  auto one = [&](const VAL::simple_effect* x, bool v) {
    const std::string& p = x->prop->head->getNameRef();
    auto t = ground(w, x->prop, e);
    if (p == "=") { ok &= (t[0] == t[1]) == v; return; }
    if (w.isType(p)) { ok &= w.isa(t[0], p) == v; return; }
    out.push_back({w.atom(p, t), v});
  };
  for (auto* x : l->add_effects) one(x, true);
  for (auto* x : l->del_effects) one(x, false);
  return ok;
}
static Env envOf(const AxInst& i) { return bindv({}, i.ax->parameters, i.t); }
// every instance whose context holds changes nothing and does not fail
static bool validRef(const World& w, const Bits& s) {
  bool r = true;
  for (auto& i : instances(w)) {
    std::vector<Lit> l;
    bool fine = literals(w, i.ax->effects, envOf(i), l);
    for (auto& x : l) fine = fine & (s[x.atom] == x.val);
    r &= !holds(w, i.ax->precondition, envOf(i), s) | fine;
  }
  return r;
}
