// P02: combination iterators stay correct under any sequence of moves.
// symx: harness moves2 bounds="shapes [2],[1,2],[2,1],[2,2],[2,1,2] with arbitrary contents; start at begin, end or the middle, 2 moves of any of 10 kinds with n in [-size-1,size+1]" require=in,outside
// symx: harness rmoves2 bounds="as moves2 for reverse iterators" require=in
// symx: harness moves3 bounds="11 shapes of 1..4 options of 1..3 elements; 3 moves" require=in
// symx: harness rmoves3 bounds="11 shapes of 1..4 options of 1..3 elements; 3 moves, reverse" require=in
// symx: harness far bounds="4 shapes of 1..4 options with 2^32..3*2^32 combinations; from any position to any other by += or -= and one step further, forward and reverse" require=fwd,rev
// symx: harness far2 bounds="9 shapes of 1..4 options with up to 2^60 combinations; as far" require=fwd,rev
#include "combi.h"
using Gen = symbolic::CombinationGenerator<const std::vector<int>>;
template <class It>
static It mv(It& it, int kind, int n, int& delta, bool& pre) {
  // performs one move; returns the iterator value of the expression; delta is the change of `it`
  delta = 0; pre = false;
  switch (kind) {
    case 0: delta = 1; return ++it;
    case 1: { delta = 1; pre = true; return it++; }
    case 2: delta = -1; return --it;
    case 3: { delta = -1; pre = true; return it--; }
    case 4: delta = n; return it += n;
    case 5: delta = -n; return it -= n;
    case 6: { it = it + n; delta = n; return it; }
    case 7: { it = n + it; delta = n; return it; }
    default: { it = it - n; delta = -n; return it; }
  }
}
template <class It>
static void moves(const Opts<const std::vector<int>>& o, It it, It other, int sgn, int k, int p, int q) {
  // `it` is at logical position p (0..size), `other` at q
  for (int s = 0; s < k; s++) {
    int kind = (int)symx_split(symx_int("kind", 0, 9));
    int n = 0;
    if (kind >= 4) n = (int)symx_int("n", -o.size - 1, o.size + 1);
    if (kind == 9) {
      int t = p + n;
      if ((t >= 0) & (t < o.size)) { symx_assert(eqv(it[n], o.expectSym(sgn > 0 ? t : o.size - 1 - t)), "operator[] is the element n further"); symx_reach("in"); }
      continue;
    }
    int delta; bool pre;
    It r = mv(it, kind, n, delta, pre);
    int before = p;
    p += delta;
    symx_assume((p >= -o.size - 2) & (p <= 2 * o.size + 2));
    int pp = p;
    if ((pp >= 0) & (pp < o.size)) {
      std::vector<int> e = o.expectSym(sgn > 0 ? pp : o.size - 1 - pp);
      symx_assert(eqv(*it, e), "dereference after moves is the element of the position");
      symx_assert(eqv(*it.operator->(), e), "arrow agrees with dereference");
      symx_reach("in");
    } else symx_reach("outside");
    int rp = pre ? before : pp;
    if (kind < 4) {
      int rpp = rp;
      if ((rpp >= 0) & (rpp < o.size)) symx_assert(eqv(*r, o.expectSym(sgn > 0 ? rpp : o.size - 1 - rpp)), "value of the move expression");
    }
    symx_assert((r - it) == rp - p, "value of the move expression has the right position");
    symx_assert(((it - other) == p - q) & ((other - it) == q - p), "difference of iterators is the difference of positions");
    symx_assert(((it == other) == (p == q)) & ((it != other) == (p != q)), "equality agrees with positions");
    symx_assert(((it < other) == (p < q)) & ((it > other) == (p > q)) & ((it <= other) == (p <= q)) & ((it >= other) == (p >= q)), "order agrees with positions");
  }
}
static const int kShapes[][4] = {{2, 0, 0, 0}, {1, 2, 0, 0}, {2, 1, 0, 0}, {2, 2, 0, 0}, {2, 1, 2, 0}, {3, 1, 0, 0}, {1, 3, 2, 0}, {1, 0, 0, 0}, {2, 3, 1, 2}, {3, 3, 0, 0}, {3, 2, 2, 0}};
static void shape(Opts<const std::vector<int>>& o, int nshapes) {
  int s = (int)symx_split(symx_int("shape", 0, nshapes - 1));
  int n = 0;
  while (n < 4 && kShapes[s][n]) n++;
  o.lists.resize(n); o.size = 1;
  for (int i = 0; i < n; i++) { for (int j = 0; j < kShapes[s][i]; j++) o.lists[i].push_back((int)symx_int("elem", 0, 255)); o.size *= kShapes[s][i]; }
  for (auto& l : o.lists) o.ptrs.push_back(&l);
}
static void fwd(int k, int ns) {
  Opts<const std::vector<int>> o;
  shape(o, ns);
  Gen g(o.ptrs);
  int start = (int)symx_split(symx_int("start", 0, 2));
  auto it = start == 0 ? g.begin() : start == 1 ? g.end() : g.begin() + o.size / 2;
  int p = start == 0 ? 0 : start == 1 ? o.size : o.size / 2;
  bool useEnd = symx_bool("otherEnd"); useEnd = symx_split(useEnd);
  auto other = useEnd ? g.end() : g.begin();
  moves(o, it, other, 1, k, p, useEnd ? o.size : 0);
}
static void rev(int k, int ns) {
  Opts<const std::vector<int>> o;
  shape(o, ns);
  Gen g(o.ptrs);
  int start = (int)symx_split(symx_int("start", 0, 1));
  auto it = start == 0 ? g.rbegin() : g.rend();
  bool useEnd = symx_bool("otherEnd"); useEnd = symx_split(useEnd);
  auto other = useEnd ? g.rend() : g.rbegin();
  moves(o, it, other, -1, k, start == 0 ? 0 : o.size, useEnd ? o.size : 0);
}
static void moves2() { fwd(2, 5); }
static void rmoves2() { rev(2, 5); }
static void moves3() { fwd(3, 11); }
static void rmoves3() { rev(3, 11); }
SYMX_HARNESS(moves2, nullptr, moves2, QUICK);
SYMX_HARNESS(rmoves2, nullptr, rmoves2, QUICK);
SYMX_HARNESS(moves3, nullptr, moves3, THOROUGH);
SYMX_HARNESS(rmoves3, nullptr, rmoves3, THOROUGH);
static void doFar(int shapes) {
  Huge h((int)symx_split(symx_int("shape", 0, shapes - 1)));
  symbolic::CombinationGenerator<const Range> g(h.ptrs);
  long p = symx_int("from", 0, h.size - 1), q = symx_int("to", 0, h.size - 1);
  bool plus = symx_split(symx_bool("plus"));
  bool last = symx_split(q + 1 == h.size);
  if (symx_split(symx_bool("reverse"))) {
    auto it = g.rbegin() + p;
    symx_assert(h.is(*it, h.size - 1 - p), "reverse iteration starts from the last combination");
    if (plus) it += q - p; else it -= p - q;
    symx_assert(h.is(*it, h.size - 1 - q), "dereference after a reverse move is the element of the position");
    symx_assert(it - g.rbegin() == q && it != g.rend(), "difference of reverse iterators is the difference of positions");
    auto before = it++;
    symx_assert((it == g.rend()) == last && before < it, "reverse iteration ends after size() combinations");
    symx_reach("rev");
    return;
  }
  auto it = g.begin() + p;
  symx_assert(h.is(*it, p), "dereference after a move is the element of the position");
  if (plus) it += q - p; else it -= p - q;
  symx_assert(h.is(*it, q), "dereference after a move is the element of the position");
  symx_assert(it - g.begin() == q && it != g.end(), "difference of iterators is the difference of positions");
  auto before = it++;
  symx_assert((it == g.end()) == last && before < it, "iteration ends after size() combinations");
  if (!last) symx_assert(h.is(*it, q + 1), "the next combination follows");
  symx_reach("fwd");
}
static void far() { doFar(4); }
static void far2() { doFar(9); }
SYMX_HARNESS(far, nullptr, far, QUICK);
SYMX_HARNESS(far2, nullptr, far2, THOROUGH);
