// P29: breadth-first search returns exactly the paths to goals, shortest first.
// symx: assumptions="searched nodes come from a generic finite graph (edges, goal flags) given by the harness; the planner's own nodes are P28/P33"
// symx: harness g3 bounds="every graph of 3 nodes (all edge sets incl. self loops and cycles, all goal flags), depth bound 0..4" require=done
// symx: harness g4 bounds="every graph of 4 nodes without self loops (forward edges, one back edge to the root), all goal flags, depth bound 2..4; iterators copied on the way" require=done
// symx: harness g4full bounds="every graph of 4 nodes (all edge sets), all goal flags, depth bound 3" require=done budget=200
// symx: harness g5 bounds="every graph of 5 nodes, depth bound 3" require=done thorough_budget=2400
// symx: harness deep bounds="every graph of 3 nodes, depth bound 5" require=done thorough_budget=2400
#include <iostream>
#include <iterator>
#include "graph.h"
#include "symbolic/planning/breadth_first_search.h"
static void mute() { std::cout.setstate(std::ios::failbit); }
static void checkBfs(size_t d, bool verbose, bool again) {
  std::vector<Path> want = goalPaths(d), got;
  const Node root(0);
  symbolic::BreadthFirstSearch<Node> s(root, d, verbose);
  auto it = s.begin();
  while (it != s.end()) {
    auto keep = it;
    got.push_back(ids(*it));
    if (got.size() > want.size() + 1) break;
    ++it;
    symx_assert(ids(*keep) == got.back(), "a copy of the iterator keeps its path");
  }
  symx_assert(sameMultiset(got, want), "exactly the paths to goals, each once");
  for (size_t i = 1; i < got.size(); i++) symx_assert(got[i - 1].size() <= got[i].size(), "in non-decreasing length");
  symx_assert(s.end() == it, "ends");
  if (again) {
    size_t n = 0; bool ok = true;
    for (const auto& p : s) { ok &= n < got.size() && ids(p) == got[n]; n++; if (n > got.size()) break; }
    symx_assert(ok & (n == got.size()), "searching again yields the same");
  }
  symx_reach("done");
}
static void g3() { symGraph(3, true, true); size_t d = (size_t)symx_split(symx_int("depth", 0, 4)); checkBfs(d, d < 3 && symx_split(symx_bool("verbose")), true); }
static void g4() {
  symGraph(4, false, false);
  gG.edge[3][0] = symx_bool("back");
  checkBfs((size_t)symx_split(symx_int("depth", 2, 4)), false, true);
}
static void g4full() { symGraph(4, true, true); checkBfs(3, false, false); }
static void g5() { symGraph(5, true, true); checkBfs(3, false, false); }
static void deep() { symGraph(3, true, true); checkBfs(5, false, false); }
SYMX_HARNESS(g3, mute, g3, BOTH);
SYMX_HARNESS(g4, mute, g4, BOTH);
SYMX_HARNESS(g4full, mute, g4full, BOTH);
SYMX_HARNESS(g5, mute, g5, THOROUGH);
SYMX_HARNESS(deep, mute, deep, THOROUGH);
