// P32: breadth-first search honours its timeout and nothing else changes.
// symx: assumptions="the clocks of <chrono> are replaced by one returning an arbitrary value at each reading"
// symx: harness any3 bounds="every graph of 3 nodes without self loops, depth bound 1..2, timeout 1 us, every clock reading an arbitrary value in [0,4000] ns" require=done,timeout,nolimit budget=200
// symx: harness chain bounds="a path graph of 4 nodes with arbitrary goal flags, depth bound 5, timeout any of 1..3 us, arbitrary readings" require=done,timeout budget=200
// symx: harness zero bounds="every graph of 3 nodes, depth bound 1..3, no timeout, arbitrary readings" require=done
// symx: harness work bounds="every graph of 3 nodes without self loops, depth bound 1..3, timeout 1..2 us; looking at a node takes no time or 700 ns and the clock tells the time" require=done,timeout,nolimit budget=200
// symx: harness any3deep bounds="as any3, depth bound 3, self loops, readings in [0,4000] ns, timeout 0..3 us" require=done thorough_budget=2400
#include <chrono>
#include <iostream>
#include <iterator>
#include "graph.h"
#include "symbolic/planning/breadth_first_search.h"
static bool gSymClock = false, gWork = false, gFirst = false, gExceeded = false;
static int64_t gNow = 0, gStart = 0, gT0 = 0, gLimit = 0, gMax = 4000;
static int gEvalsAfter = 0;
static int64_t reading() {
  if (!gSymClock) return 0;
  int64_t t = gWork ? gNow : symx_int("clock", 0, gMax);
  if (gFirst) { gT0 = t; gFirst = false; }
  else gExceeded |= t - gT0 > gLimit;
  return t;
}
namespace std { namespace chrono { inline namespace _V2 {
__attribute__((visibility("hidden"))) system_clock::time_point system_clock::now() noexcept { return time_point(std::chrono::duration_cast<duration>(std::chrono::nanoseconds(reading()))); }
__attribute__((visibility("hidden"))) steady_clock::time_point steady_clock::now() noexcept { return time_point(std::chrono::nanoseconds(reading())); }
}}}
// nodes that notice being looked at after the limit has passed
struct TNode : Node {
  TNode() = default;
  explicit TNode(int i) : Node(i) {}
  explicit operator bool() const {
    gEvalsAfter += gExceeded;
    if (gSymClock && gWork) {  // time passes only here
      gEvalsAfter += gNow - gStart > gLimit;
      gNow += symx_split(symx_bool("slow")) ? 700 : 0;
    }
    return gG.goal[id];
  }
  struct It : NodeIter { using NodeIter::NodeIter; mutable TNode* t = nullptr; TNode operator*() const { return TNode(c); } };
  It begin() const { return It(id, 0); }
  It end() const { return It(id, gG.n); }
};
static Path tids(const std::vector<TNode>& v) { Path p; for (const TNode& n : v) p.push_back(n.id); return p; }
static void check(size_t d, int64_t us) {
  std::vector<Path> want;
  const TNode root(0);
  {
    gSymClock = false; gExceeded = false;
    symbolic::BreadthFirstSearch<TNode> s(root, d);
    for (const auto& p : s) want.push_back(tids(p));
  }
  gSymClock = true; gEvalsAfter = 0; gLimit = us * 1000;
  symbolic::BreadthFirstSearch<TNode> s(root, d, false, std::chrono::microseconds(us));
  gFirst = true; gExceeded = false; gStart = gNow;
  auto it = s.begin();
  size_t n = 0;
  for (;;) {
    const bool end = it == s.end();
    if (us > 0) {
      symx_assert(!gExceeded | end, "once a reading passes the limit the search reports the end");
      symx_assert(gEvalsAfter == 0, "no node is looked at after the limit has passed");
      if (end && n < want.size()) symx_assert(gExceeded, "only a passed limit cuts the search short");
      if (gExceeded) symx_reach("timeout");
    }
    if (end) break;
    symx_assert(n < want.size() && tids(*it) == want[n], "a prefix of the paths without timeout");
    n++;
    gFirst = true; gExceeded = false; gStart = gNow;
    ++it;
  }
  if (us == 0) symx_assert(n == want.size(), "without a timeout the clock has no influence");
  if (n == want.size()) symx_reach("nolimit");
  gFirst = true; gExceeded = false; gStart = gNow;
  ++it;
  symx_assert(it == s.end(), "stays at the end");
  symx_reach("done");
  gSymClock = false;
}
static void any3() { symGraph(3, true, false); check((size_t)symx_split(symx_int("depth", 1, 2)), 1); }
static void any3deep() { symGraph(3, true, true); check(3, symx_int("timeout", 0, 3)); }
static void work() { gWork = true; symGraph(3, true, false); check((size_t)symx_split(symx_int("depth", 1, 3)), symx_split(symx_int("timeout", 1, 2))); gWork = false; }
static void zero() { symGraph(3, true, true); check((size_t)symx_split(symx_int("depth", 1, 3)), 0); }
static void chain() {
  symGraph(4, false, false);
  for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) gG.edge[i][j] = j == i + 1;
  gG.edge[0][2] = true;
  check(5, symx_split(symx_int("timeout", 1, 3)));
}
SYMX_HARNESS(any3, nullptr, any3, BOTH);
SYMX_HARNESS(work, nullptr, work, BOTH);
SYMX_HARNESS(chain, nullptr, chain, BOTH);
SYMX_HARNESS(zero, nullptr, zero, BOTH);
SYMX_HARNESS(any3deep, nullptr, any3deep, THOROUGH);
