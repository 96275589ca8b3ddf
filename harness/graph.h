// Small search graphs with symbolic edges, goal flags and costs, and their goal paths.
#pragma once
#include <ostream>
#include <vector>
#include "symx.h"
const int MAXN = 5;
struct Graph {
  int n = 0;
  bool edge[MAXN][MAXN] = {};  // symbolic; looked at only when a node is expanded
  bool goal[MAXN] = {};
  int cost[MAXN] = {};
};
static Graph gG;
struct NodeIter;
struct Node {
  int id = -1;
  Node() = default;
  explicit Node(int i) : id(i) {}
  explicit operator bool() const { return gG.goal[id]; }
  inline NodeIter begin() const;
  inline NodeIter end() const;
};
struct NodeIter {
  int v, c;
  mutable Node tmp;
  NodeIter(int v_, int c_) : v(v_), c(c_) { skip(); }
  void skip() { while (c < gG.n && !gG.edge[v][c]) c++; }
  const Node& operator*() const { tmp = Node(c); return tmp; }
  NodeIter& operator++() { c++; skip(); return *this; }
  bool operator==(const NodeIter& o) const { return c == o.c; }
  bool operator!=(const NodeIter& o) const { return c != o.c; }
};
inline NodeIter Node::begin() const { return NodeIter(id, 0); }
inline NodeIter Node::end() const { return NodeIter(id, gG.n); }
inline std::ostream& operator<<(std::ostream& os, const Node& n) { return os << n.id; }
using Path = std::vector<int>;
// all paths from 0 to a goal with at most d steps and no earlier goal, depth first in child order
inline void goalPaths(Path& p, size_t d, std::vector<Path>& out) {
  int v = p.back();
  if (gG.goal[v]) { out.push_back(p); return; }
  if (p.size() > d) return;
  for (int c = 0; c < gG.n; c++) if (gG.edge[v][c]) { p.push_back(c); goalPaths(p, d, out); p.pop_back(); }
}
inline std::vector<Path> goalPaths(size_t d) { std::vector<Path> r; Path p{0}; goalPaths(p, d, r); return r; }
inline Path ids(const std::vector<Node>& v) { Path p; for (const Node& n : v) p.push_back(n.id); return p; }
// exactly the expected paths, each once per distinct child sequence
inline bool sameMultiset(std::vector<Path> a, std::vector<Path> b) {
  if (a.size() != b.size()) return false;
  for (auto& x : a) {
    size_t i = 0;
    while (i < b.size() && b[i] != x) i++;
    if (i == b.size()) return false;
    b.erase(b.begin() + i);
  }
  return true;
}
// every edge and goal flag symbolic; self loops and cycles as asked for
inline void symGraph(int n, bool backEdges, bool selfLoops) {
  gG = Graph();
  gG.n = n;
  for (int v = 0; v < n; v++) {
    gG.goal[v] = symx_bool("goal");
    for (int u = 0; u < n; u++) {
      if (u == v && !selfLoops) continue;
      if (u < v && !backEdges) continue;
      gG.edge[v][u] = symx_bool("edge");
    }
  }
}
