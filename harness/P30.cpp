// P30: depth-first search returns exactly the paths to goals.
// symx: assumptions="searched nodes come from a generic finite graph (edges, goal flags) given by the harness; the planner's own nodes are P28/P33"
// symx: harness g3 bounds="every graph of 3 nodes (all edge sets incl. self loops and cycles, all goal flags), depth bound 0..3" require=done
// symx: harness g4 bounds="every graph of 4 nodes without self loops (forward edges, one back edge to the root), all goal flags, depth bound 2..3" require=done
// symx: harness g4full bounds="every graph of 4 nodes (all edge sets), all goal flags, depth bound 0..3" require=done budget=200
// symx: harness g5 bounds="every graph of 5 nodes, depth bound 3" require=done thorough_budget=2400
// symx: harness deep bounds="every graph of 3 nodes, depth bound 4..5" require=done thorough_budget=2400
#include <iterator>
#include "graph.h"
#include "symbolic/planning/depth_first_search.h"
static void checkDfs(size_t d) {
  std::vector<Path> want = goalPaths(d), got;
  const Node root(0);
  symbolic::DepthFirstSearch<Node> s(root, d);
  auto it = s.begin();
  while (it != s.end()) {
    got.push_back(ids(*it));
    if (got.size() > want.size() + 1) break;
    ++it;
  }
  symx_assert(sameMultiset(got, want), "exactly the paths to goals, each once");
  // a second search over the same object, by range for
  size_t n = 0; bool ok = true;
  for (const auto& p : s) { ok &= n < got.size() && ids(p) == got[n]; n++; if (n > got.size()) break; }
  symx_assert(ok & (n == got.size()), "searching again yields the same");
  symx_reach("done");
}
static void g5() { symGraph(5, true, true); checkDfs(3); }
static void deep() { symGraph(3, true, true); checkDfs((size_t)symx_split(symx_int("depth", 4, 5))); }
static void g3() { symGraph(3, true, true); checkDfs((size_t)symx_split(symx_int("depth", 0, 3))); }
static void g4() {
  symGraph(4, false, false);
  gG.edge[3][0] = symx_bool("back");
  checkDfs((size_t)symx_split(symx_int("depth", 2, 4)));
}
static void g4full() { symGraph(4, true, true); checkDfs((size_t)symx_split(symx_int("depth", 0, 3))); }
SYMX_HARNESS(g3, nullptr, g3, BOTH);
SYMX_HARNESS(g4, nullptr, g4, BOTH);
SYMX_HARNESS(g5, nullptr, g5, THOROUGH);
SYMX_HARNESS(deep, nullptr, deep, THOROUGH);
SYMX_HARNESS(g4full, nullptr, g4full, BOTH);
