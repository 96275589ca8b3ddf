// P05: the sorted vector is a set under any history of operations.
// symx: harness ops3 bounds="every history of 3 operations (insert const&/&&/other type, emplace, erase) on arbitrary elements of [0,7], then a query" require=done
// symx: harness init bounds="initializer list of 0..4 arbitrary elements of [0,7] (duplicates included), then 1 operation" require=done
// symx: harness ops4 bounds="every history of 4 operations on arbitrary elements of [0,7]" require=done
// symx: harness ops5 bounds="every history of 5 operations on arbitrary elements of [0,7]" require=done thorough_budget=3000
#include "symbolic/utils/unique_vector.h"
#include "symx.h"
using symbolic::UniqueVector;
// Reference: presence of 8 values, updated without branching.
struct Ref {
  bool in[8] = {false, false, false, false, false, false, false, false};
  bool has(int x) const { bool r = false; for (int i = 0; i < 8; i++) r |= (x == i) & in[i]; return r; }
  void set(int x, bool v) { for (int i = 0; i < 8; i++) { bool e = x == i; in[i] = (in[i] & !e) | (e & v); } }
  int size() const { int n = 0; for (int i = 0; i < 8; i++) n += in[i]; return n; }
};
// An element type without default order pitfalls: compared by key only, payload must be kept.
struct El {
  int k = 0;
  El() = default;
  El(int k) : k(k) {}
  bool operator<(const El& o) const { return k < o.k; }
  bool operator==(const El& o) const { return k == o.k; }
  bool operator!=(const El& o) const { return k != o.k; }
};
static void same(const UniqueVector<El>& u, const Ref& r) {
  symx_assert((int)u.size() == r.size(), "size is the cardinality");
  bool ok = true;
  for (size_t i = 0; i < u.size(); i++) {
    ok &= r.has(u[i].k);
    if (i) ok &= u[i - 1].k < u[i].k;
  }
  symx_assert(ok, "strictly increasing, only members");
}
static void step(UniqueVector<El>& u, Ref& r) {
  const int op = (int)symx_split(symx_int("op", 0, 4));
  int x = (int)symx_int("x", 0, 7);
  bool had = r.has(x);
  if (op == 0) { const El c(x); symx_assert(u.insert(c) == !had, "insert reports change"); }
  else if (op == 1) { symx_assert(u.insert(El(x)) == !had, "insert(&&) reports change"); }
  else if (op == 2) { symx_assert(u.emplace(x) == !had, "emplace reports change"); }
  else if (op == 3) { const El c(x); symx_assert(u.erase(c) == had, "erase reports change"); }
  else { El e(x); symx_assert(u.contains(e) == had, "contains reports membership"); }
  if (op < 3) r.set(x, true); else if (op == 3) r.set(x, false);
  same(u, r);
}
static void hist(int n) {
  UniqueVector<El> u; Ref r;
  for (int i = 0; i < n; i++) step(u, r);
  int q = (int)symx_int("q", 0, 7);
  symx_assert(u.contains(El(q)) == r.has(q), "contains reports membership");
  UniqueVector<El> v = u;
  symx_assert(v == u, "a copy is equal");
  int y = (int)symx_int("y", 0, 7);
  bool had = r.has(y);
  symx_assert(v.insert(El(y)) == !had, "insert into the copy");
  symx_assert(u.contains(El(y)) == had, "the original is unaffected by the copy");
  symx_reach("done");
}
static void ops3() { hist(3); }
static void ops4() { hist(4); }
static void ops5() { hist(5); }
static void init() {
  int n = (int)symx_split(symx_int("n", 0, 4));
  int e[4]; Ref r;
  for (int i = 0; i < n; i++) { e[i] = (int)symx_int("e", 0, 7); r.set(e[i], true); }
  UniqueVector<El> u;
  if (n == 0) u = UniqueVector<El>{};
  if (n == 1) u = UniqueVector<El>{El(e[0])};
  if (n == 2) u = UniqueVector<El>{El(e[0]), El(e[1])};
  if (n == 3) u = UniqueVector<El>{El(e[0]), El(e[1]), El(e[2])};
  if (n == 4) u = UniqueVector<El>{El(e[0]), El(e[1]), El(e[2]), El(e[3])};
  same(u, r);
  if (n < 4) step(u, r);
  symx_reach("done");
}
SYMX_HARNESS(ops3, nullptr, ops3, QUICK);
SYMX_HARNESS(init, nullptr, init, BOTH);
SYMX_HARNESS(ops4, nullptr, ops4, THOROUGH);
SYMX_HARNESS(ops5, nullptr, ops5, THOROUGH);
