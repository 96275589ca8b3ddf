// P06: the hash set behind states is a set under any history of operations.
// symx: harness hist2 bounds="from sets of 0,1,3,4 concrete elements (also shrunk from a larger table): 2 arbitrary insert/erase on elements of [0,15], hashes v>>1 (pairwise collisions; bucket counts 1,3,7 crossed), then iteration in all four directions" require=done
// symx: harness histq bounds="from sets of 0..4,7,8 concrete elements (also shrunk): one arbitrary insert/erase, then an arbitrary membership query" require=done
// symx: harness iter bounds="sets of 0..3 arbitrary elements of [0,7] built with an erase in between; forward, mutable and backward iteration" require=done
// symx: harness iter4 bounds="as iter, 0..4 elements of [0,15]" require=done
// symx: harness collide bounds="3 arbitrary inserts/erases of elements whose hashes are arbitrary values of [0,7] given per element" require=done
// symx: sources=DOMAIN assumptions="parse trees come from the VAL stand-in in shim/"
// symx: harness state bounds="the State class over 5 propositions: from any of 0..5 of them, inserted singly, from a list, from texts, or as a range with repetitions: one further insert by value, move, reference, emplace or range (of a vector, of another state), or an erase; reports, membership, size, iteration, copies and moves" require=done,changed,unchanged
// symx: harness hist3 bounds="as hist2 with 3 operations, iteration included" require=done thorough_budget=3000
// symx: harness collide4 bounds="as collide with 4 operations" require=done thorough_budget=3000
#include "symbolic/utils/hash_set.h"
#include "gen.h"
struct El {
  int v = 0;
  El() = default;
  explicit El(int v) : v(v) {}
  bool operator<(const El& o) const { return v < o.v; }
  bool operator==(const El& o) const { return v == o.v; }
  bool operator!=(const El& o) const { return v != o.v; }
};
static int gMode = 0;
static int gHash[8];
namespace std {
template <> struct hash<El> {
  size_t operator()(const El& e) const noexcept {
    if (gMode == 0) return (size_t)((unsigned)e.v >> 1);
    size_t r = 0;
    for (int i = 0; i < 8; i++) r |= (size_t)(gHash[i] & -(int)(e.v == i));
    return r;
  }
};
}
using Set = symbolic::HashSet<El>;
struct Ref {
  bool in[16] = {};
  bool has(int x) const { bool r = false; for (int i = 0; i < 16; i++) r |= (x == i) & in[i]; return r; }
  void set(int x, bool v) { for (int i = 0; i < 16; i++) { bool e = x == i; in[i] = (in[i] & !e) | (e & v); } }
  int size() const { int n = 0; for (int i = 0; i < 16; i++) n += in[i]; return n; }
};
static void step(Set& u, Ref& r, int hi) {
  const int op = (int)symx_split(symx_int("op", 0, 2));
  int x = (int)symx_int("x", 0, hi);
  bool had = r.has(x);
  if (op == 0) { const El c(x); symx_assert(u.insert(c) == !had, "insert reports change"); }
  else if (op == 1) { symx_assert(u.insert(El(x)) == !had, "insert(&&) reports change"); }
  else { const El c(x); symx_assert(u.erase(c) == had, "erase reports change"); }
  r.set(x, op != 2);
  symx_assert((int)u.size() == r.size(), "size is the cardinality");
  symx_assert(u.empty() == (r.size() == 0), "empty agrees with size");
}
static void all(Set& u, const Ref& r) {
  // forward iteration: every element once
  const Set& cu = u;
  int n = 0; int seq[16]; bool ok = true;
  for (const El& e : cu) { if (n >= 16) { ok = false; break; } ok &= r.has(e.v); for (int i = 0; i < n; i++) ok &= seq[i] != e.v; seq[n++] = e.v; }
  symx_assert(ok & (n == r.size()), "const iteration visits every element exactly once and ends");
  int m = 0; ok = true;
  for (El& e : u) { if (m >= n) { ok = false; break; } ok &= seq[m++] == e.v; }
  symx_assert(ok & (m == n), "mutable iteration agrees with const iteration");
  m = 0; ok = true;
  for (auto it = cu.begin(); it != cu.end(); it++) { if (m >= n) { ok = false; break; } ok &= it->v == seq[m++]; }
  symx_assert(ok & (m == n), "post-increment iteration");
  // backward
  auto it = cu.end(); ok = true;
  for (int k = n - 1; k >= 0; k--) { --it; ok &= (*it).v == seq[k]; }
  symx_assert(ok & (it == cu.begin()), "backward iteration visits the opposite order");
  auto jt = u.end(); ok = true;
  for (int k = n - 1; k >= 0; k--) { jt--; ok &= jt->v == seq[k]; }
  symx_assert(ok & (jt == u.begin()), "mutable backward iteration visits the opposite order");
}
static void hist(int k, int nb, bool query, bool iterate) {
  gMode = 0;
  static const int kBase[] = {0, 1, 3, 4, 7, 2, 8};
  int n = kBase[symx_split(symx_int("base", 0, nb - 1))];
  static const int el[] = {2, 9, 3, 12, 5, 0, 14, 7};
  Set u; Ref r;
  for (int i = 0; i < n; i++) { u.insert(El(el[i])); r.in[el[i]] = true; }
  if (n > 0 && symx_split(symx_bool("shrink"))) {
    // overshoot and come back
    u.insert(El(6)); u.insert(El(11)); u.insert(El(1)); u.erase(El(6)); u.erase(El(1)); u.erase(El(11));
  }
  for (int i = 0; i < k; i++) step(u, r, 15);
  if (query) {
    int q = (int)symx_int("q", 0, 15);
    symx_assert(u.contains(El(q)) == r.has(q), "contains reports membership");
  }
  if (iterate) all(u, r);
  symx_reach("done");
}
static void hist2() { hist(2, 4, false, true); }
static void histq() { hist(1, 7, true, false); }
static void hist3() { hist(3, 7, true, true); }
static void iterN(int maxn, int hi) {
  gMode = 0;
  int n = (int)symx_split(symx_int("n", 0, maxn));
  Set u; Ref r;
  int first = 0;
  for (int i = 0; i < n; i++) { int x = (int)symx_int("x", 0, hi); if (i == 0) first = x; u.insert(El(x)); r.set(x, true); }
  if (n == 3) { u.erase(El(first)); r.set(first, false); }
  all(u, r);
  Set c = u;
  bool same = c == u;
  symx_assert(same, "a copy is equal");
  symx_reach("done");
}
static void iter() { iterN(3, 7); }
static void iter4() { iterN(4, 15); }
static void coll(int k) {
  gMode = 1;
  for (int i = 0; i < 8; i++) gHash[i] = (int)symx_int("hash", 0, 7);
  Set u; Ref r;
  for (int i = 0; i < k; i++) step(u, r, 7);
  int q = (int)symx_int("q", 0, 7);
  symx_assert(u.contains(El(q)) == r.has(q), "contains reports membership");
  all(u, r);
  symx_reach("done");
}
static void collide() { coll(3); }
static void collide4() { coll(4); }
static void initlist() {
  gMode = 0;
  int a = (int)symx_int("a", 0, 15), b = (int)symx_int("b", 0, 15), c = (int)symx_int("c", 0, 15);
  Set u{El(a), El(b), El(c)}; Ref r;
  r.set(a, true); r.set(b, true); r.set(c, true);
  symx_assert((int)u.size() == r.size(), "size is the cardinality");
  all(u, r);
}
// the State class
static World W;
static std::vector<Proposition> P;
static void stateSetup() {
  W.load("(define (domain d) (:requirements :typing) (:types t) (:predicates (p ?x - t) (q ?x - t ?y - t)))",
         "(define (problem x) (:domain d) (:objects a b - t) (:init) (:goal (p a)))");
  for (const char* t : {"p(a)", "q(a, b)", "p(b)", "q(b, a)", "q(b, b)"}) P.push_back(W.props[W.atom(t)]);
}
static void state() {
  const int N = 5;
  bool in[N];
  for (bool& b : in) b = symx_split(symx_bool("in"));
  std::vector<Proposition> list;
  for (int i = 0; i < N; i++) if (in[i]) list.push_back(P[i]);
  State s;
  int how = (int)symx_split(symx_int("how", 0, 3));
  if (how == 0) for (auto& p : list) s.insert(p);
  if (how == 1) {
    std::unordered_set<std::string> text;
    for (auto& p : list) text.insert(p.to_string());
    s = State(*W.pddl, text);
  }
  if (how == 2) {
    std::vector<Proposition> twice(list);
    twice.insert(twice.end(), list.rbegin(), list.rend());
    symx_assert(s.insert(twice.begin(), twice.end()) == !list.empty(), "inserting a range reports change");
  }
  if (how == 3) { for (auto& p : P) s.insert(p); for (int i = 0; i < N; i++) if (!in[i]) symx_assert(s.erase(P[i]), "erase reports change"); }
  int op = (int)symx_split(symx_int("op", 0, 7)), x = (int)symx_split(symx_int("x", 0, N - 1)), y = (x + 2) % N;
  bool want = !in[x], got = false;
  const State before = s;
  if (op == 0) got = s.insert(P[x]);
  if (op == 1) { Proposition c = P[x]; got = s.insert(std::move(c)); }
  if (op == 2) got = s.emplace(P[x].name(), P[x].arguments());
  if (op == 3) { size_t h = std::hash<std::string>{}(P[x].name()); got = s.insert(symbolic::PropositionRef(&P[x].name(), &P[x].arguments(), h)); }
  if (op == 4) got = s.emplace(*W.pddl, P[x].to_string());
  if (op == 5) { std::vector<Proposition> r{P[x], P[y], P[x]}; got = s.insert(r.begin(), r.end()); want = !in[x] | !in[y]; in[y] = true; }
  if (op == 6) { State r; r.insert(P[y]); r.insert(P[x]); const State& c = r; got = s.insert(c.begin(), c.end()); want = !in[x] | !in[y]; in[y] = true; }
  if (op == 7) { got = s.erase(P[x]); want = in[x]; }
  in[x] = op != 7;
  symx_assert(got == want, "insert, emplace and erase report change");
  auto same = [&](const State& t) {
    int n = 0, m = 0; bool ok = true;
    for (int i = 0; i < N; i++) { n += in[i]; ok &= t.contains(P[i]) == in[i]; }
    for (const Proposition& p : t) { m++; ok &= t.contains(p); }
    auto r = t.end();
    for (int k = 0; k < n; k++) --r;
    return ok & (m == n) & ((int)t.size() == n) & (t.empty() == (n == 0)) & (r == t.begin());
  };
  symx_assert(same(s), "exactly the elements of the mathematical set");
  State c = s, m = std::move(c), a;
  a.insert(P[y]);
  a = m;
  symx_assert(same(m) & same(a) & same(s), "copies and moves hold the same elements");
  symx_assert((before == s) == !got, "changed exactly when reported");
  symx_reach(got ? "changed" : "unchanged");
  symx_reach("done");
}
SYMX_HARNESS(state, stateSetup, state, BOTH);
SYMX_HARNESS(hist2, nullptr, hist2, BOTH);
SYMX_HARNESS(histq, nullptr, histq, BOTH);
SYMX_HARNESS(iter, nullptr, iter, BOTH);
SYMX_HARNESS(iter4, nullptr, iter4, THOROUGH);
SYMX_HARNESS(collide, nullptr, collide, QUICK);
SYMX_HARNESS(initlist, nullptr, initlist, BOTH);
SYMX_HARNESS(hist3, nullptr, hist3, THOROUGH);
SYMX_HARNESS(collide4, nullptr, collide4, THOROUGH);
