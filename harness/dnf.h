// Reading of a normal form: truth in a state of symbolic contents, structure, equality of DNFs.
#pragma once
#include <optional>
#include "symbolic/normal_form.h"
#include "world.h"
using symbolic::DisjunctiveFormula;
typedef std::optional<DisjunctiveFormula> Dnf;
static int objIndex(const World& w, const Object& o) { return w.obj(o.name()); }
// equality and type literals are the static facts they denote
static bool litTrue(const World& w, const Proposition& p, const Bits& s) {
  std::vector<int> t;
  for (auto& o : p.arguments()) t.push_back(objIndex(w, o));
  if (p.name() == "=") return t.size() == 2 && t[0] == t[1];
  if (w.isType(p.name())) return t.size() == 1 && w.isa(t[0], p.name());
  int i = w.atom(p.name(), t);
  return i < 0 ? false : s[i];  // ill-typed: in no state
}
static bool conjTrue(const World& w, const PartialState& c, const Bits& s) {
  bool r = true;
  for (const Proposition& p : c.pos()) r &= litTrue(w, p, s);
  for (const Proposition& p : c.neg()) r &= !litTrue(w, p, s);
  return r;
}
// empty disjunction: true; no value: false
static bool dnfTrue(const World& w, const Dnf& d, const Bits& s) {
  if (!d.has_value()) return false;
  bool r = d->conjunctions.empty();
  for (auto& c : d->conjunctions) r |= conjTrue(w, c, s);
  return r;
}
static bool has(const State& s, const Proposition& p) { for (const Proposition& q : s) if (q == p) return true; return false; }
static bool subsumes(const PartialState& a, const PartialState& b) {  // a's literals among b's
  for (const Proposition& p : a.pos()) if (!has(b.pos(), p)) return false;
  for (const Proposition& p : a.neg()) if (!has(b.neg(), p)) return false;
  return true;
}
static void wellFormed(const Dnf& d) {
  if (!d.has_value()) return;
  auto& c = d->conjunctions;
  for (size_t i = 0; i < c.size(); i++) {
    for (const Proposition& p : c[i].pos()) symx_assert(!has(c[i].neg(), p), "a conjunction holds a proposition both ways");
    size_t k = 0;
    for (const Proposition& p : c[i].pos()) { (void)p; k++; }
    for (const Proposition& p : c[i].neg()) { (void)p; k++; }
    symx_assert(k > 0, "no conjunction is empty");
    for (size_t j = 0; j < c.size(); j++) if (i != j) symx_assert(!subsumes(c[i], c[j]), "a conjunction subsumes another");
  }
}
