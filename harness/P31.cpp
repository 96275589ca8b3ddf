// P31: A* search returns exactly the paths to goals in priority order.
// symx: assumptions="searched nodes come from a generic finite graph (edges, goal flags, costs) given by the harness"
// symx: harness cost3 bounds="every graph of 3 nodes (all edge sets, all goal flags), depth bound 0..2, any node costs 0..7 added up along the path" require=done budget=200
// symx: harness key3 bounds="as cost3, nodes ordered by an arbitrary key of the node alone (not monotone), depth bound 0..3" require=done budget=200
// symx: harness cost4 bounds="every graph of 4 nodes without back edges, depth bound 3, any node costs 0..7" require=done budget=200
// symx: harness full4 bounds="every graph of 4 nodes (all edge sets), depth bound 2, any node costs 0..7" require=done thorough_budget=3000
// symx: harness deep3 bounds="every graph of 3 nodes, depth bound 3, any node costs 0..7" require=done thorough_budget=3000
#include <iterator>
#include "graph.h"
#include "symbolic/planning/a_star.h"
static int pathCost(const std::vector<int>& p) { int c = 0; for (int v : p) c += gG.cost[v]; return c; }
static const int kFlat[8] = {};
struct ByCost {  // true: a comes after b; the costs belong to the comparison object
  const int* cost = kFlat;
  int of(const symbolic::SearchNode<Node>& s) const { int c = cost[s.node.id]; for (const Node& n : s.ancestors) c += cost[n.id]; return c; }
  bool operator()(const symbolic::SearchNode<Node>& a, const symbolic::SearchNode<Node>& b) const { return of(a) > of(b); }
};
struct ByKey {
  const int* cost = kFlat;
  bool operator()(const symbolic::SearchNode<Node>& a, const symbolic::SearchNode<Node>& b) const { return cost[a.node.id] > cost[b.node.id]; }
};
template <class C>
static void check(size_t d, bool ordered, bool again) {
  std::vector<Path> want = goalPaths(d), got;
  const Node root(0);
  const C cmp{gG.cost};
  symbolic::AStar<Node, C> s(cmp, root, d);
  auto it = s.begin();
  while (it != s.end()) {
    got.push_back(ids(*it));
    if (got.size() > want.size() + 1) break;
    ++it;
  }
  symx_assert(sameMultiset(got, want), "exactly the paths to goals, each once");
  if (ordered) for (size_t i = 1; i < got.size(); i++) symx_assert(pathCost(got[i - 1]) <= pathCost(got[i]), "in non-decreasing cost");
  if (again) {
    size_t n = 0; bool ok = true;
    for (const auto& p : s) { ok &= n < got.size() && ids(p) == got[n]; n++; if (n > got.size()) break; }
    symx_assert(ok & (n == got.size()), "searching again yields the same");
  }
  symx_reach("done");
}
static void costs(int n) { for (int v = 0; v < n; v++) gG.cost[v] = (int)symx_int("cost", 0, 7); }
static void cost3() { symGraph(3, true, true); costs(3); check<ByCost>((size_t)symx_split(symx_int("depth", 0, 2)), true, true); }
static void key3() { symGraph(3, true, true); costs(3); check<ByKey>((size_t)symx_split(symx_int("depth", 0, 3)), false, false); }
static void cost4() { symGraph(4, false, false); costs(4); check<ByCost>(3, true, false); }
static void full4() { symGraph(4, true, true); costs(4); check<ByCost>(2, true, false); }
static void deep3() { symGraph(3, true, true); costs(3); check<ByCost>(3, true, false); }
SYMX_HARNESS(cost3, nullptr, cost3, BOTH);
SYMX_HARNESS(key3, nullptr, key3, BOTH);
SYMX_HARNESS(cost4, nullptr, cost4, BOTH);
SYMX_HARNESS(full4, nullptr, full4, THOROUGH);
SYMX_HARNESS(deep3, nullptr, deep3, THOROUGH);
