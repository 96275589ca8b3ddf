// P04: parameter generators enumerate exactly the well-typed argument tuples.
// symx: sources=DOMAIN include=abs assumptions="parse trees come from the VAL stand-in in shim/|the domain's constants and objects are fixed (5 objects, 6 types)|the empty parameter list is outside (see known findings)"
// symx: harness direct bounds="1..3 parameters of any of 7 types (subtypes, an empty type, object, untyped, a type nobody declared); two domains (root type named or not)" require=done
// symx: harness lifetime bounds="1..2 parameters of any of 5 types; copy, move, copy- and move-assignment over another generator, self-assignment, vector reallocation; source destroyed, overwritten or kept" require=done
// symx: harness owners bounds="generators of every action, predicate and derived predicate of a fixed domain, through copies of their owners" require=done
#include "symbolic/utils/parameter_generator.h"
#include "gen.h"
using symbolic::ParameterGenerator;
static World W2[2];
static const char* kDom[2] = {
    "(define (domain d) (:types t1 - object t2 - t1 t3 - object t4 - t2)"
    " (:constants a - t2) (:predicates (p ?x - t1) (q ?x - t2 ?y)  (r ?x - t3)) "
    " (:derived (r ?v - t2) (p ?v))"
    " (:action act :parameters (?x - t1 ?y - t2) :precondition (p ?x) :effect (not (p ?x))))",
    "(define (domain d) (:types t2 - t1 t4 - t2 t1 t3) (:constants a - t2) (:predicates (p ?x - t1)))"};
static const char* kProb = "(define (problem p) (:domain d) (:objects b - t2 c - t1 u - t4 v) (:init) (:goal (and)))";
static void setup() { for (int i = 0; i < 2; i++) W2[i].load(kDom[i], kProb); }
static void enumerate(const World& w, const ParameterGenerator& g, const var_symbol_list* ps, const char* what) {
  auto want = w.tuples(ps);
  std::vector<bool> seen(want.size());
  bool ok = g.size() == want.size();
  size_t n = 0;
  for (const std::vector<Object>& t : g) {
    std::vector<int> k;
    for (const Object& o : t) k.push_back(w.obj(o.name()));
    size_t i = 0;
    while (i < want.size() && want[i] != k) i++;
    ok &= i < want.size() && !seen[i];
    if (i < want.size()) seen[i] = true;
    if (++n > want.size()) break;
  }
  symx_assert(ok & (n == want.size()), what);
  symx_assert(&g.pddl() == w.pddl, "domain handle");
}
static pddl_type* ty(Gen& G, const std::string& n) {
  if (n != "ghost") return G.type_(n);
  return new pddl_type("ghost");
}
static const char* kTypes[] = {"t1", "t2", "t3", "", "t4", "object", "ghost"};
static var_symbol_list* params(Gen& G, int maxn, int nt) {
  auto* l = new var_symbol_list();
  int n = 1 + G.pick("n", maxn);
  for (int i = 0; i < n; i++) l->push_back(G.var(std::string("x") + char('0' + i), ty(G, kTypes[G.pick("type", nt)])));
  return l;
}
static void direct() {
  int d = (int)symx_split(symx_int("domain", 0, 1));
  World& w = W2[d];
  Gen G(w);
  if (d == 1) { kTypes[5] = "t1"; }
  auto* l = params(G, 3, 7);
  kTypes[5] = "object";
  ParameterGenerator g(*w.pddl, Object::CreateList(*w.pddl, l));
  enumerate(w, g, l, "exactly the well-typed tuples");
  symx_reach("done");
}
static void lifetime() {
  World& w = W2[0];
  Gen G(w);
  auto* l = params(G, 2, 4);
  auto* m = params(G, 2, 2);
  auto* src = new ParameterGenerator(*w.pddl, Object::CreateList(*w.pddl, l));
  auto* dst = new ParameterGenerator(*w.pddl, Object::CreateList(*w.pddl, m));
  int how = G.pick("how", 6);
  bool moved = false;
  switch (how) {
    case 0: delete dst; dst = new ParameterGenerator(*src); break;
    case 1: delete dst; dst = new ParameterGenerator(std::move(*src)); moved = true; break;
    case 2: *dst = *src; break;
    case 3: *dst = std::move(*src); moved = true; break;
    case 4: { *dst = *src; ParameterGenerator& r = *dst; *dst = r; break; }
    case 5: {
      std::vector<ParameterGenerator> v;
      v.push_back(*src); v.push_back(*src); v.emplace_back(*src);
      v.erase(v.begin());
      *dst = v[1];
      break;
    }
  }
  ParameterGenerator def;  // assignment to a default-constructed one, and a chain of copies
  def = *dst;
  switch (G.pick("then", 3)) {
    case 0: delete src; src = nullptr; break;
    case 1: *src = ParameterGenerator(*w.pddl, Object::CreateList(*w.pddl, m)); enumerate(w, *src, m, "overwritten source"); break;
    default: if (!moved) enumerate(w, *src, l, "source unchanged"); break;
  }
  enumerate(w, *dst, l, "copy enumerates the same tuples");
  delete dst;
  enumerate(w, def, l, "copy outlives its source");
  symx_reach("done");
}
static void owners() {
  World& w = W2[0];
  Gen G(w);
  int k = G.pick("owner", 3), copy = G.pick("copy", 2);
  const auto* dom = w.ast->the_domain;
  if (k == 0) {
    symbolic::Action a = w.pddl->actions().at(0);
    if (copy) { symbolic::Action b(*w.pddl, "act"); a = b; }
    enumerate(w, a.parameter_generator(), dom->ops->front()->parameters, "action arguments");
    symx_assert(&a.pddl() == w.pddl, "action's domain handle");
  } else if (k == 1) {
    auto ps = w.pddl->predicates();
    auto qs = ps;
    if (copy) { ps.clear(); ps.shrink_to_fit(); }
    size_t i = 0;
    for (auto* d : *dom->predicates) enumerate(w, qs.at(i++).parameter_generator(), d->getArgs(), "predicate arguments");
  } else {
    auto ds = w.pddl->derived_predicates();
    if (copy) { auto e = std::move(ds); ds = e; }
    auto* args = dom->drvs->front()->get_head()->args;
    auto* l = new var_symbol_list();
    for (auto* p : *args) l->push_back(G.var(p->getNameRef(), p->type));
    enumerate(w, ds.at(0).parameter_generator(), l, "derived predicate arguments");
  }
  symx_reach("done");
}
SYMX_HARNESS(direct, setup, direct, BOTH);
SYMX_HARNESS(lifetime, setup, lifetime, BOTH);
SYMX_HARNESS(owners, setup, owners, BOTH);
