// Shared by the checks over the domain model: a task with its ground atoms, states of symbolic
// contents, and reference semantics written over the parse tree, independent of /repo's code.
#pragma once
#include <cstring>
#include <string>
#include <utility>
#include <vector>
#include "symbolic/pddl.h"
#include "symx.h"
#include "valshim.h"
using symbolic::Object;
using symbolic::PartialState;
using symbolic::Pddl;
using symbolic::Proposition;
using symbolic::State;
#ifdef SYMX_ABSTRACT_SET
#include "symbolic/utils/hash_set.h"
inline bool putIf(State& s, const Proposition& p, bool b) { symx_insert_mask() = b; bool r = s.insert(p); symx_insert_mask() = 1; return r; }
#else
inline bool putIf(State& s, const Proposition& p, bool b) { return b ? s.insert(p) : false; }
#endif
const int MAXA = 48;
struct Bits {
  bool b[MAXA] = {};
  bool& operator[](int i) { return b[i]; }
  bool operator[](int i) const { return b[i]; }
};
struct Atom { std::string pred; std::vector<int> args; std::string text; std::string in; };
struct World {
  Pddl* pddl = nullptr;
  const VAL::analysis* ast = nullptr;
  std::vector<std::string> objs;                 // names, constants first
  std::vector<const VAL::const_symbol*> osym;
  std::vector<Object> O;
  std::vector<Atom> atoms;
  std::vector<Proposition> props;
  int n() const { return (int)atoms.size(); }

  static std::vector<std::string> chain(const VAL::pddl_type* t) {
    std::vector<std::string> r;
    for (; t; t = t->type) r.push_back(t->getNameRef());
    return r;
  }
  bool isa(int o, const std::string& type) const {
    if (type == "object") return true;
    for (const VAL::pddl_type* t = osym[o]->type; t; t = t->type) if (t->getNameRef() == type) return true;
    return false;
  }
  static std::string typeName(const VAL::pddl_typed_symbol* s) { return s->type ? s->type->getNameRef() : "object"; }
  int obj(const std::string& name) const { for (size_t i = 0; i < objs.size(); i++) if (objs[i] == name) return (int)i; return -1; }
  // all tuples of objects well-typed for the symbols, in lexicographic order
  template <class L>
  std::vector<std::vector<int>> tuples(const L* params) const {
    std::vector<std::vector<int>> r(1);
    if (params) for (const auto* p : *params) {
      std::vector<std::vector<int>> q;
      const std::string t = typeName(p);
      for (auto& x : r) for (int o = 0; o < (int)objs.size(); o++) if (isa(o, t)) { q.push_back(x); q.back().push_back(o); }
      r = q;
    }
    return r;
  }
  bool typeHasObject(const std::string& t) const { for (int o = 0; o < (int)objs.size(); o++) for (auto& c : chain(osym[o]->type)) if (c == t) return true; return t == "object" && !objs.empty(); }
  std::vector<Object> args(const std::vector<int>& t) const { std::vector<Object> r; for (int o : t) r.push_back(O[o]); return r; }
  bool wantAtoms = true;
  void adopt(Pddl* p) {
    pddl = p;
    ast = p->symbol();
    if (ast->the_domain->constants) for (auto* c : *ast->the_domain->constants) { objs.push_back(c->getNameRef()); osym.push_back(c); }
    if (ast->the_problem && ast->the_problem->objects) for (auto* c : *ast->the_problem->objects) { objs.push_back(c->getNameRef()); osym.push_back(c); }
    for (auto& o : objs) O.push_back(Object(*p, o));
    if (wantAtoms) for (auto* d : *ast->the_domain->predicates)
      for (auto& t : tuples(d->getArgs())) addAtom(d->getPred()->getNameRef(), t);
  }
  void addAtom(const std::string& pred, const std::vector<int>& t) {
    Atom a{pred, t, pred + "(", ""};
    for (size_t i = 0; i < t.size(); i++) a.text += (i ? ", " : "") + objs[t[i]];
    a.text += ")";
    a.in = a.text;
    atoms.push_back(a);
    props.push_back(Proposition(pred, args(t)));
    if (atoms.size() > MAXA) __builtin_trap();
  }
  void load(const std::string& domain, const std::string& problem, bool axioms = true) {
    valshim::inlineFile("<domain>", domain);
    valshim::inlineFile("<pddl string>", problem);
    adopt(new Pddl("<domain>", problem, axioms));
  }
  int atom(const std::string& pred, const std::vector<int>& t) const {
    for (int i = 0; i < n(); i++) if (atoms[i].args == t && atoms[i].pred == pred) return i;
    return -1;
  }
  int atom(const std::string& text) const { for (int i = 0; i < n(); i++) if (atoms[i].text == text) return i; return -1; }
  Bits sym() const { Bits s; for (int i = 0; i < n(); i++) s[i] = symx_bool(atoms[i].in.c_str()); return s; }
  State state(const Bits& b) const { State s; for (int i = 0; i < n(); i++) putIf(s, props[i], b[i]); return s; }
  // s holds exactly the atoms of b
  bool same(const State& s, const Bits& b) const {
    bool ok = true; size_t k = 0;
    for (int i = 0; i < n(); i++) { ok &= s.contains(props[i]) == b[i]; k += b[i]; }
    return ok & (s.size() == k);
  }
  bool isType(const std::string& name) const { return typeHasObject(name); }
};
typedef std::vector<std::pair<std::string, int>> Env;
inline int lookup(const World& w, const VAL::parameter_symbol* s, const Env& e) {
  if (dynamic_cast<const VAL::var_symbol*>(s)) { for (size_t i = e.size(); i-- > 0;) if (e[i].first == s->getNameRef()) return e[i].second; __builtin_trap(); }
  return w.obj(s->getNameRef());
}
inline std::vector<int> ground(const World& w, const VAL::proposition* p, const Env& e) {
  std::vector<int> t;
  for (auto* a : *p->args) t.push_back(lookup(w, a, e));
  return t;
}
template <class L>
Env bindv(const Env& e, const L* params, const std::vector<int>& t) {
  Env r = e;
  size_t i = 0;
  if (params) for (auto* p : *params) r.push_back({p->getNameRef(), t[i++]});
  return r;
}
// First-order truth under the closed world; branch-free in the state.
inline bool holds(const World& w, const VAL::goal* g, const Env& e, const Bits& s) {
  using namespace VAL;
  if (auto* x = dynamic_cast<const simple_goal*>(g)) {
    const std::string& p = x->getProp()->head->getNameRef();
    std::vector<int> t = ground(w, x->getProp(), e);
    if (p == "=") return t[0] == t[1];
    if (w.isType(p)) return w.isa(t[0], p);
    int i = w.atom(p, t);
    return i < 0 ? false : s[i];
  }
  if (auto* x = dynamic_cast<const conj_goal*>(g)) { bool r = true; for (auto* k : *x->getGoals()) r &= holds(w, k, e, s); return r; }
  if (auto* x = dynamic_cast<const disj_goal*>(g)) { bool r = false; for (auto* k : *x->getGoals()) r |= holds(w, k, e, s); return r; }
  if (auto* x = dynamic_cast<const neg_goal*>(g)) return !holds(w, x->getGoal(), e, s);
  if (auto* x = dynamic_cast<const qfied_goal*>(g)) {
    bool all = x->getQuantifier() == E_FORALL, r = all;
    for (auto& t : w.tuples(x->getVars())) { bool v = holds(w, x->getGoal(), bindv(e, x->getVars(), t), s); r = all ? (r & v) : (r | v); }
    return r;
  }
  __builtin_trap();
}
// Effects under the standard semantics: what is added and deleted given the state before.
inline void effects(const World& w, const VAL::effect_lists* l, const Env& e, const Bits& s, bool when, Bits& add, Bits& del) {
  for (auto* f : l->forall_effects) for (auto& t : w.tuples(f->getVarsList())) effects(w, f->getEffects(), bindv(e, f->getVarsList(), t), s, when, add, del);
  for (auto* x : l->add_effects) { int i = w.atom(x->prop->head->getNameRef(), ground(w, x->prop, e)); if (i >= 0) add[i] |= when; }
  for (auto* x : l->del_effects) { int i = w.atom(x->prop->head->getNameRef(), ground(w, x->prop, e)); if (i >= 0) del[i] |= when; }
  for (auto* c : l->cond_effects) effects(w, c->getEffects(), e, s, when & holds(w, c->getCondition(), e, s), add, del);
}
inline Bits applyRef(const World& w, const VAL::operator_* op, const std::vector<int>& t, const Bits& s) {
  Bits add, del, r;
  effects(w, op->effects, bindv({}, op->parameters, t), s, true, add, del);
  for (int i = 0; i < w.n(); i++) r[i] = (s[i] & !del[i]) | add[i];
  return r;
}
inline bool conflicts(const World& w, const VAL::operator_* op, const std::vector<int>& t, const Bits& s) {
  Bits add, del; bool c = false;
  effects(w, op->effects, bindv({}, op->parameters, t), s, true, add, del);
  for (int i = 0; i < w.n(); i++) c |= add[i] & del[i];
  return c;
}
inline bool equal(const World& w, const Bits& a, const Bits& b) { bool r = true; for (int i = 0; i < w.n(); i++) r &= a[i] == b[i]; return r; }
// one step of closing the state under derivation rules, rules in order of declaration
inline void derive(const World& w, Bits& s) {
  // non-recursive rules: iterate to the fixpoint (at most one round per rule)
  const size_t rounds = w.ast->the_domain->drvs ? w.ast->the_domain->drvs->size() : 0;
  for (size_t k = 0; k < rounds; k++)
    for (auto* d : *w.ast->the_domain->drvs)
      for (auto& t : w.tuples(d->get_head()->args)) {
        int i = w.atom(d->get_head()->head->getNameRef(), t);
        if (i >= 0) s[i] = holds(w, d->get_body(), bindv({}, d->get_head()->args, t), s);
      }
}
