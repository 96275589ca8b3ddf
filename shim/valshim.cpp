// A plain PDDL reader standing in for VAL's flex/bison parser.
#include "valshim.h"
#include <cctype>
#include <sstream>
#include <stdexcept>
#include "VAL/FlexLexer.h"
using namespace VAL;
int line_no = 1;
int yydebug = 0;
const char* current_filename = "";
namespace VAL {
extern analysis* current_analysis;
extern yyFlexLexer* yfl;
bool shim_domain_ok = true, shim_problem_ok = true;
}
namespace {
struct Bad {};
struct S {  // s-expression
  bool atom = false;
  std::string s;
  std::vector<S> k;
  const std::string& head() const { if (atom || k.empty() || !k[0].atom) throw Bad(); return k[0].s; }
};
struct Reader {
  const std::string& t;
  size_t i = 0;
  void ws() {
    while (i < t.size()) {
      if (isspace((unsigned char)t[i])) i++;
      else if (t[i] == ';') { while (i < t.size() && t[i] != '\n') i++; }
      else break;
    }
  }
  S read() {
    ws();
    if (i >= t.size()) throw Bad();
    S r;
    if (t[i] == '(') {
      i++;
      for (;;) { ws(); if (i >= t.size()) throw Bad(); if (t[i] == ')') { i++; return r; } r.k.push_back(read()); }
    }
    if (t[i] == ')') throw Bad();
    r.atom = true;
    while (i < t.size() && !isspace((unsigned char)t[i]) && t[i] != '(' && t[i] != ')' && t[i] != ';') r.s += t[i++];
    return r;
  }
};
S readOne(const std::string& t) { Reader r{t}; S s = r.read(); r.ws(); if (r.i != t.size()) throw Bad(); return s; }

std::map<std::string, std::string>& files() { static std::map<std::string, std::string> m; return m; }

struct Ctx {
  analysis* a;
  std::map<std::string, pddl_type*>* types;
  std::map<std::string, pred_symbol*>* preds;
};
// symbol tables are kept per analysis
std::map<const analysis*, std::pair<std::map<std::string, pddl_type*>, std::map<std::string, pred_symbol*>>>& tabs() {
  static std::map<const analysis*, std::pair<std::map<std::string, pddl_type*>, std::map<std::string, pred_symbol*>>> m;
  return m;
}
pddl_type* typeRef(const analysis* a, const std::string& n) {
  auto& m = tabs()[a].first;
  auto it = m.find(n);
  if (it != m.end()) return it->second;
  return m[n] = new pddl_type(n);
}
pred_symbol* predRef(const analysis* a, const std::string& n) {
  auto& m = tabs()[a].second;
  auto it = m.find(n);
  if (it != m.end()) return it->second;
  return m[n] = new pred_symbol(n);
}
// "a b - t c" from position i of s.k
template <class Sym, class Make>
typed_symbol_list<Sym>* typedList(const analysis* a, const S& s, size_t i, Make make) {
  auto* l = new typed_symbol_list<Sym>();
  std::vector<Sym*> open;
  for (; i < s.k.size(); i++) {
    if (!s.k[i].atom) throw Bad();
    if (s.k[i].s == "-") {
      if (++i >= s.k.size() || !s.k[i].atom || open.empty()) throw Bad();
      pddl_type* t = typeRef(a, s.k[i].s);
      for (Sym* o : open) o->type = t;
      open.clear();
      continue;
    }
    Sym* x = make(s.k[i].s);
    l->push_back(x);
    open.push_back(x);
  }
  return l;
}
std::string varName(const std::string& s) { if (s.size() < 2 || s[0] != '?') throw Bad(); return s.substr(1); }
var_symbol_list* varList(const analysis* a, const S& s, size_t i) {
  return typedList<var_symbol>(a, s, i, [](const std::string& n) { return new var_symbol(varName(n)); });
}
const_symbol* findConst(const analysis* a, const std::string& n) {
  if (a->the_domain && a->the_domain->constants) for (const_symbol* c : *a->the_domain->constants) if (c->getNameRef() == n) return c;
  if (a->the_problem && a->the_problem->objects) for (const_symbol* c : *a->the_problem->objects) if (c->getNameRef() == n) return c;
  return nullptr;
}
typedef std::vector<var_symbol*> Vars;
bool gUnmarked = false;
proposition* prop(const analysis* a, const S& s, const Vars& v) {
  auto* args = new parameter_symbol_list();
  for (size_t i = 1; i < s.k.size(); i++) {
    if (!s.k[i].atom) throw Bad();
    const std::string& n = s.k[i].s;
    parameter_symbol* p = nullptr;
    if (gUnmarked) for (size_t j = v.size(); j-- > 0 && !p;) if (v[j]->getNameRef() == n) p = v[j];
    if (p) { args->push_back(p); continue; }
    if (n[0] == '?') { for (size_t j = v.size(); j-- > 0 && !p;) if (v[j]->getNameRef() == n.substr(1)) p = v[j]; }
    else p = findConst(a, n);
    if (!p) throw Bad();
    args->push_back(p);
  }
  return new proposition(predRef(a, s.head()), args);
}
Vars extend(const Vars& v, var_symbol_list* l) { Vars r = v; for (var_symbol* x : *l) r.push_back(x); return r; }
goal* goalOf(const analysis* a, const S& s, const Vars& v) {
  if (s.atom) throw Bad();
  if (s.k.empty()) return new conj_goal(new goal_list());
  const std::string& h = s.head();
  if (h == "and" || h == "or") {
    auto* l = new goal_list();
    for (size_t i = 1; i < s.k.size(); i++) l->push_back(goalOf(a, s.k[i], v));
    if (h == "and") return new conj_goal(l);
    return new disj_goal(l);
  }
  if (h == "not") { if (s.k.size() != 2) throw Bad(); return new neg_goal(goalOf(a, s.k[1], v)); }
  if (h == "imply") { if (s.k.size() != 3) throw Bad(); return new imply_goal(goalOf(a, s.k[1], v), goalOf(a, s.k[2], v)); }
  if (h == "forall" || h == "exists") {
    if (s.k.size() != 3 || s.k[1].atom) throw Bad();
    var_symbol_list* l = varList(a, s.k[1], 0);
    return new qfied_goal(h == "forall" ? E_FORALL : E_EXISTS, l, goalOf(a, s.k[2], extend(v, l)));
  }
  return new simple_goal(prop(a, s, v), E_POS);
}
void effectsOf(const analysis* a, const S& s, const Vars& v, effect_lists* out) {
  if (s.atom) throw Bad();
  if (s.k.empty()) return;
  const std::string& h = s.head();
  if (h == "and") { for (size_t i = 1; i < s.k.size(); i++) effectsOf(a, s.k[i], v, out); return; }
  if (h == "not") { if (s.k.size() != 2 || s.k[1].atom) throw Bad(); out->del_effects.push_back(new simple_effect(prop(a, s.k[1], v))); return; }
  if (h == "forall") {
    if (s.k.size() != 3 || s.k[1].atom) throw Bad();
    var_symbol_list* l = varList(a, s.k[1], 0);
    auto* e = new effect_lists();
    effectsOf(a, s.k[2], extend(v, l), e);
    out->forall_effects.push_back(new forall_effect(e, l));
    return;
  }
  if (h == "when") {
    if (s.k.size() != 3) throw Bad();
    goal* g = goalOf(a, s.k[1], v);
    auto* e = new effect_lists();
    effectsOf(a, s.k[2], v, e);
    out->cond_effects.push_back(new cond_effect(g, e));
    return;
  }
  out->add_effects.push_back(new simple_effect(prop(a, s, v)));
}
operator_* opOf(const analysis* a, const S& s, operator_* op, size_t i, const char* kp, const char* kc, const char* ke) {
  op->parameters = new var_symbol_list();
  const S *pre = nullptr, *eff = nullptr;
  for (; i + 1 < s.k.size(); i += 2) {
    if (!s.k[i].atom) throw Bad();
    const std::string& key = s.k[i].s;
    if (key == kp) op->parameters = varList(a, s.k[i + 1], 0);
    else if (key == kc) pre = &s.k[i + 1];
    else if (key == ke) eff = &s.k[i + 1];
    else throw Bad();
  }
  if (i != s.k.size()) throw Bad();
  Vars v = extend({}, op->parameters);
  op->precondition = pre ? goalOf(a, *pre, v) : new conj_goal(new goal_list());
  op->effects = new effect_lists();
  if (eff) effectsOf(a, *eff, v, op->effects);
  return op;
}
domain* domainOf(analysis* a, const S& s) {
  auto* d = new domain();
  a->the_domain = d;
  d->ops = new operator_list();
  d->drvs = new derivations_list();
  d->predicates = new pred_decl_list();
  d->name = s.k.at(1).k.at(1).s;
  try {
    for (size_t i = 2; i < s.k.size(); i++) {
      const S& e = s.k[i];
      const std::string& h = e.head();
      if (h == ":requirements") continue;
      if (h == ":types") d->types = typedList<pddl_type>(a, e, 1, [&](const std::string& n) { return typeRef(a, n); });
      else if (h == ":constants") d->constants = typedList<const_symbol>(a, e, 1, [](const std::string& n) { return new const_symbol(n); });
      else if (h == ":predicates") { for (size_t j = 1; j < e.k.size(); j++) d->predicates->push_back(new pred_decl(predRef(a, e.k[j].head()), varList(a, e.k[j], 1))); }
      else if (h == ":action") { operator_* op = new action(); op->name = new operator_symbol(e.k.at(1).s); d->ops->push_back(opOf(a, e, op, 2, ":parameters", ":precondition", ":effect")); }
      else if (h == ":axiom") { operator_* op = new axiom(); op->name = new operator_symbol("axiom"); d->ops->push_back(opOf(a, e, op, 1, ":vars", ":context", ":implies")); }
      else if (h == ":derived") {
        if (e.k.size() != 3 || e.k[1].atom) throw Bad();
        var_symbol_list* l = varList(a, e.k[1], 1);
        auto* args = new parameter_symbol_list();
        for (var_symbol* x : *l) args->push_back(x);
        d->drvs->push_back(new derivation_rule(new proposition(predRef(a, e.k[1].head()), args), goalOf(a, e.k[2], extend({}, l))));
      } else throw Bad();
    }
  } catch (...) { a->the_domain = nullptr; throw; }
  return d;
}
problem* problemOf(analysis* a, const S& s) {
  auto* p = new problem();
  a->the_problem = p;
  p->initial_state = new effect_lists();
  try {
    p->name = s.k.at(1).k.at(1).s;
    for (size_t i = 2; i < s.k.size(); i++) {
      const S& e = s.k[i];
      const std::string& h = e.head();
      if (h == ":domain") p->domain_name = e.k.at(1).s;
      else if (h == ":requirements") continue;
      else if (h == ":objects") p->objects = typedList<const_symbol>(a, e, 1, [](const std::string& n) { return new const_symbol(n); });
      else if (h == ":init") { for (size_t j = 1; j < e.k.size(); j++) { if (e.k[j].atom) throw Bad(); p->initial_state->add_effects.push_back(new simple_effect(prop(a, e.k[j], {}))); } }
      else if (h == ":goal") { if (e.k.size() != 2) throw Bad(); p->the_goal = goalOf(a, e.k[1], {}); }
      else throw Bad();
    }
    if (!p->the_goal) throw Bad();
  } catch (...) { a->the_problem = nullptr; throw; }
  return p;
}
}  // namespace

int yyparse() {
  analysis* a = current_analysis;
  std::string text;
  auto it = files().find(current_filename);
  if (it != files().end()) text = it->second;
  else {
    std::istream& in = *yfl->in;
    char c;
    while (in.get(c)) text += c;
  }
  try {
    S s = readOne(text);
    if (s.head() != "define" || s.k.size() < 2) throw Bad();
    const std::string kind = s.k[1].head();
    if (kind == "domain") domainOf(a, s);
    else if (kind == "problem") problemOf(a, s);
    else throw Bad();
  } catch (const Bad&) {
    return 1;
  } catch (const std::out_of_range&) {
    return 1;
  }
  return 0;
}

namespace valshim {
void inlineFile(const std::string& name, const std::string& text) { files()[name] = text; }
goal* parseGoal(const std::string& text, const Scope& s) {
  gUnmarked = s.unmarked;
  goal* g = nullptr;
  try { g = goalOf(s.a, readOne(text), s.vars); } catch (const Bad&) {}
  gUnmarked = false;
  return g;
}
effect_lists* parseEffects(const std::string& text, const Scope& s) {
  try { auto* e = new effect_lists(); effectsOf(s.a, readOne(text), s.vars, e); return e; } catch (const Bad&) { return nullptr; }
}
}  // namespace valshim
