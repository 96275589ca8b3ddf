// P07: state comparison depends only on contents, not on history.
// symx: sources=DOMAIN assumptions="hash<string> as in libstdc++ for states of propositions; arbitrary hash values for the set underneath"
// symx: harness set bounds="hash set underneath: 3 arbitrary inserts/erases over elements of [0,3] with arbitrary hashes of [0,7], against the set built directly in both orders" require=done,nonempty
// symx: harness setorder bounds="three sets of 0..2 arbitrary elements of [0,4], hashes v>>1, built in arbitrary order: trichotomy, transitivity, equality exactly on equal contents" require=done
// symx: harness state bounds="states of 0, 1, 3 or 4 of 8 propositions (three table sizes), then 2 arbitrary inserts/erases by proposition, reference or moved value, against the state built directly forwards or backwards; hash, ==, !=, <" require=done
// symx: harness partial bounds="partial states over 4 propositions (all 81 contents), one arbitrary insert/erase after a detour, against direct construction; and a second arbitrary partial state" require=done,differ
// symx: harness order bounds="triples of states over 3 propositions: strict total order" require=done
// symx: harness set4 bounds="as set with 4 operations over [0,4]" require=done thorough_budget=3000
// symx: harness state3 bounds="as state with 3 operations" require=done thorough_budget=3000
#include "f_world.h"
#include "symbolic/utils/hash_set.h"
struct El {
  int v = 0;
  El() = default;
  explicit El(int v) : v(v) {}
  bool operator<(const El& o) const { return v < o.v; }
  bool operator==(const El& o) const { return v == o.v; }
  bool operator!=(const El& o) const { return v != o.v; }
};
static bool gTable = false;
static int gHash[8];
namespace std {
template <> struct hash<El> {
  size_t operator()(const El& e) const noexcept {
    if (!gTable) return (size_t)((unsigned)e.v >> 1);
    size_t r = 0;
    for (int i = 0; i < 8; i++) r |= (size_t)(gHash[i] & -(int)(e.v == i));
    return r;
  }
};
}
using Set = symbolic::HashSet<El>;
static void setN(int ops, int hi) {
  gTable = true;
  for (int i = 0; i <= hi; i++) gHash[i] = (int)symx_int("hash", 0, 7);
  Set u; bool in[8] = {};
  for (int k = 0; k < ops; k++) {
    bool ins = symx_split(symx_bool("insert"));
    int x = (int)symx_int("x", 0, hi);
    if (ins) u.insert(El(x)); else { const El c(x); u.erase(c); }
    for (int i = 0; i <= hi; i++) in[i] = (in[i] & !(x == i)) | (ins & (x == i));
  }
  Set up, down;
  bool any = false;
  for (int i = 0; i <= hi; i++) { in[i] = symx_split(in[i]); any |= in[i]; }
  for (int i = 0; i <= hi; i++) if (in[i]) up.insert(El(i));
  for (int i = hi; i >= 0; i--) if (in[i]) down.insert(El(i));
  symx_assert((u == up) & (up == u) & !(u != up), "same contents compare equal");
  symx_assert((u == down) & (down == up), "insertion order does not matter");
  symx_assert(!(u < up) & !(up < u) & !(u < down) & !(down < u), "neither is less");
  if (any) symx_reach("nonempty");
  symx_reach("done");
}
static void set() { setN(3, 3); }
static void set4() { setN(4, 4); }
static void setorder() {
  gTable = false;
  Set s[3]; int m[3] = {};
  for (int k = 0; k < 3; k++) {
    int n = (int)symx_split(symx_int("n", 0, 2));
    for (int i = 0; i < n; i++) { int x = (int)symx_int("x", 0, 4); s[k].insert(El(x)); m[k] |= 1 << x; }
  }
  auto eq = [&](int a, int b) { return m[a] == m[b]; };
  for (int a = 0; a < 2; a++) {
    bool lt = s[a] < s[a + 1], gt = s[a + 1] < s[a], same = s[a] == s[a + 1];
    symx_assert(same == eq(a, a + 1), "equal exactly on equal contents");
    symx_assert((int)lt + (int)gt + (int)same == 1, "exactly one of less, equal, greater");
  }
  if ((s[0] < s[1]) && (s[1] < s[2])) symx_assert(s[0] < s[2], "transitive");
  symx_reach("done");
}
static std::vector<Proposition> P;
static void props() {
  fworld();
  for (const char* t : {"p(a)", "q(a, b)", "z()", "p(b)", "q(b, a)", "q(c, b)", "p(c)", "q(c, a)"}) P.push_back(W.props[W.atom(t)]);
}
static size_t H(const State& s) { return std::hash<State>{}(s); }
static void stateN(int ops) {
  State s; bool in[8] = {};
  static const int kBase[] = {0, 1, 3, 4, 2, 5};
  int n = kBase[symx_split(symx_int("base", 0, ops == 2 ? 3 : 5))], x = 0;
  for (int i = 0; i < n; i++) { s.insert(P[i]); in[i] = true; }
  for (int k = 0; k < ops; k++) {
    int op = (int)symx_split(symx_int("op", 0, 3));
    x = (int)symx_split(symx_int("x", 0, 7));
    if (op == 0) s.insert(P[x]);
    else if (op == 1) { Proposition c = P[x]; s.insert(std::move(c)); }
    else if (op == 2) s.emplace(P[x].name(), P[x].arguments());
    else s.erase(P[x]);
    in[x] = op != 3;
  }
  State d;
  bool back = (n + x) % 2;
  for (int i = 0; i < 8; i++) { int j = back ? 7 - i : i; if (in[j]) d.insert(P[j]); }
  symx_assert((s == d) & (d == s) & !(s != d), "same contents compare equal");
  symx_assert(H(s) == H(d), "same contents, same hash");
  symx_assert(!(s < d) & !(d < s), "neither is less");
  // one proposition more or less
  int y = symx_split(symx_bool("same")) ? x : (x + 3) % 8;
  if (in[y]) d.erase(P[y]); else d.insert(P[y]);
  symx_assert(!(s == d) & (s != d) & ((s < d) != (d < s)), "different contents are unequal and ordered");
  symx_reach("done");
}
static void state() { stateN(2); }
static void state3() { stateN(3); }
static PartialState direct(const int* v, bool back) {
  PartialState r;
  for (int i = 0; i < 4; i++) { int j = back ? 3 - i : i; if (v[j] == 1) r.insert(P[j]); if (v[j] == 2) r.erase(P[j]); }
  return r;
}
static void partial() {
  int v[4], w[4];
  for (int i = 0; i < 4; i++) v[i] = (int)symx_split(symx_int("value", 0, 2));
  PartialState a = direct(v, false);
  int x = (int)symx_split(symx_int("x", 0, 3)), op = (int)symx_split(symx_int("op", 0, 3));
  if (op == 0) { a.insert(P[x]); v[x] = 1; }
  if (op == 1) { a.erase(P[x]); v[x] = 2; }
  if (op == 2) { a.erase(P[x]); a.insert(P[x]); v[x] = 1; }
  if (op == 3) { a.insert(P[x]); a.erase(P[x]); v[x] = 2; }
  PartialState b = direct(v, true);
  symx_assert((a == b) & !(a != b), "same contents compare equal");
  symx_assert(!(a < b) & !(b < a), "neither is less");
  bool same = true;
  for (int i = 0; i < 4; i++) { w[i] = i == x || i == (x + 1) % 4 ? (int)symx_split(symx_int("other", 0, 2)) : v[i]; same &= w[i] == v[i]; }
  PartialState c = direct(w, false);
  bool lt = a < c, gt = c < a, eq = a == c;
  symx_assert((eq == same) & ((a != c) == !same), "equal exactly on equal contents");
  symx_assert((int)lt + (int)gt + (int)eq == 1, "exactly one of less, equal, greater");
  if (!same) symx_reach("differ");
  symx_reach("done");
}
static void order() {
  State s[3]; int m[3];
  for (int k = 0; k < 3; k++) {
    m[k] = 0;
    for (int i = 0; i < 3; i++) if (symx_split(symx_bool("in"))) { m[k] |= 1 << i; s[k].insert(P[i]); }
  }
  symx_assert((s[0] == s[1]) == (m[0] == m[1]), "equal exactly on equal contents");
  symx_assert((int)(s[0] < s[1]) + (int)(s[1] < s[0]) + (int)(s[0] == s[1]) == 1, "exactly one of less, equal, greater");
  if ((s[0] < s[1]) && (s[1] < s[2])) symx_assert(s[0] < s[2], "transitive");
  symx_reach("done");
}
SYMX_HARNESS(set, nullptr, set, BOTH);
SYMX_HARNESS(setorder, nullptr, setorder, BOTH);
SYMX_HARNESS(state, props, state, BOTH);
SYMX_HARNESS(partial, props, partial, BOTH);
SYMX_HARNESS(order, props, order, BOTH);
SYMX_HARNESS(set4, nullptr, set4, THOROUGH);
SYMX_HARNESS(state3, props, state3, THOROUGH);
