// Partial states of symbolic contents.
#pragma once
#include "world.h"
struct PBits { Bits known, val; };
inline PBits symPartial(const World& w) {
  PBits p;
  for (int i = 0; i < w.n(); i++) { p.known[i] = symx_bool("known"); p.val[i] = symx_bool(w.atoms[i].in.c_str()); }
  return p;
}
inline PartialState partialState(const World& w, const PBits& p) {
  State pos, neg;
  for (int i = 0; i < w.n(); i++) { putIf(pos, w.props[i], p.known[i] & p.val[i]); putIf(neg, w.props[i], p.known[i] & !p.val[i]); }
  return PartialState(std::move(pos), std::move(neg));
}
// ps knows exactly what p says
inline bool samePartial(const World& w, const PartialState& ps, const PBits& p) {
  bool ok = true; size_t np = 0, nn = 0;
  for (int i = 0; i < w.n(); i++) {
    bool tp = p.known[i] & p.val[i], tn = p.known[i] & !p.val[i];
    ok &= (ps.pos().contains(w.props[i]) == tp) & (ps.neg().contains(w.props[i]) == tn);
    np += tp; nn += tn;
  }
  return ok & (ps.pos().size() == np) & (ps.neg().size() == nn);
}
inline Bits completion(const World& w, const PBits& p) {
  Bits c;
  for (int i = 0; i < w.n(); i++) { bool f = symx_bool("completion"); c[i] = (p.known[i] & p.val[i]) | (!p.known[i] & f); }
  return c;
}
