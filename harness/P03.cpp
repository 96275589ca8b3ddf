// P03: index lookup inverts combination access.
// symx: harness inv bounds="1..3 options of 1..3 distinct elements in [0,7] (any contents); any index; any tuple over [0,7]" require=found,missing
// symx: harness inv4 bounds="4 options of 1..3 distinct elements" require=found,missing
#include <stdexcept>
#include "combi.h"
template <class C>
static void inverse(int nmin, int nmax) {
  Opts<C> o;
  int n = (int)symx_split(symx_int("n", nmin, nmax));
  o.make(n, 1, 3, [](int, int) { return (int)symx_int("elem", 0, 7); });
  for (auto& l : o.lists) for (size_t a = 0; a < l.size(); a++) for (size_t b = 0; b < a; b++) symx_assume(l[a] != l[b]);
  symbolic::CombinationGenerator<C> g(o.ptrs);
  std::vector<int> t;
  bool all = true;
  for (int i = 0; i < n; i++) {
    t.push_back((int)symx_int("t", 0, 7));
    bool in = false;
    for (int e : o.lists[i]) in |= e == t[i];
    all &= in;
  }
  int idx = -1; bool thrown = false;
  try { idx = g.find(t); } catch (const std::out_of_range&) { thrown = true; }
  symx_assert(thrown == !all, "find throws exactly when some element is not among its options");
  if (!thrown) {
    symx_assert((idx >= 0) & (idx < o.size), "found index is in range");
    idx = (int)symx_split(idx);
    symx_assert(eqv(o.expect(idx), t), "the combination at the found index is the tuple");
    symx_assert(eqv(g.at(idx), t), "at(find(t)) == t");
    symx_reach("found");
  } else symx_reach("missing");
  int i = (int)symx_split(symx_int("i", 0, o.size - 1));
  symx_assert(g.find(g.at(i)) == i, "find(at(i)) == i");
}
static void inv() { inverse<const std::vector<int>>(1, 3); }
static void inv_mut() { inverse<std::vector<int>>(2, 2); }
static void inv4() { inverse<const std::vector<int>>(4, 4); }
SYMX_HARNESS(inv, nullptr, inv, BOTH);
SYMX_HARNESS(inv_mut, nullptr, inv_mut, BOTH);
SYMX_HARNESS(inv4, nullptr, inv4, THOROUGH);
