// P28: a planner node's children are exactly the new successor states.
// symx: sources=DOMAIN assumptions="parse trees come from the VAL stand-in in shim/|with axioms, an action's outcome is that of Action::Apply (decided by P24)"
// symx: harness fixed bounds="5 tasks (equality, empty parameter ranges before, between and after, derived predicate, axioms, no actions): root at every state over 5-7 atoms, then down every path of 2 steps" require=done,cut,leaf
// symx: harness free bounds="all pairs of actions out of 5 preconditions x 5 effects, every state over 5 atoms, children of the root and of one child" require=done,cut budget=30 thorough_budget=1500
// symx: harness deep bounds="as fixed with paths of 4 steps" require=done thorough_budget=900
#include "f_plan.h"
using symbolic::Planner;
struct Child { Bits s; std::string text; };
static std::vector<Child> childrenRef(const std::vector<Bits>& path) {
  std::vector<Child> r;
  for (auto& c : calls()) {
    if (!applicable(c, path.back())) continue;
    Bits n = successor(c, path.back());
    bool seen = false;
    for (auto& b : path) seen |= equal(W, b, n);
    if (seen) { symx_reach("cut"); continue; }
    r.push_back({n, c.text});
  }
  return r;
}
static void walk(const Planner::Node& node, std::vector<Bits> path, int depth) {
  auto want = childrenRef(path);
  symx_assert(node.depth() == path.size() - 1, "depth");
  symx_assert(W.same(node.state(), path.back()), "state of the node");
  symx_assert((bool)node == holds(W, W.ast->the_problem->the_goal, {}, path.back()), "goal test");
  size_t i = 0;
  std::vector<Planner::Node> kept;
  for (auto it = node.begin(); it != node.end(); ++it, ++i) {
    symx_assert(i < want.size(), "no child too many");
    auto copy = it;
    const Planner::Node& c = *it;
    symx_assert(c.action() == want[i].text, "action of the child");
    symx_assert(W.same(c.state(), want[i].s), "state of the child");
    symx_assert(c.depth() == path.size(), "depth of the child");
    kept.push_back(c);
    ++copy;
    symx_assert((*it).action() == want[i].text && W.same((*it).state(), want[i].s), "advancing a copy leaves the iterator alone");
    if (copy != node.end()) symx_assert(i + 1 < want.size() && (*copy).action() == want[i + 1].text, "the copy moves to the next child");
    else symx_assert(i + 1 == want.size(), "the copy reaches the end");
  }
  symx_assert(i == want.size(), "no child is missed");
  if (!kept.empty()) {
    auto it = node.end();
    for (size_t k = kept.size(); k-- > 0;) {
      --it;
      symx_assert((*it).action() == want[k].text && W.same((*it).state(), want[k].s), "stepping back returns to the previous child");
      symx_assert(it != node.end(), "stepping back leaves the end");
    }
    if (kept.size() > 1) {
      ++it;
      symx_assert((*it).action() == want[1].text && W.same((*it).state(), want[1].s), "stepping forward again moves to the next child");
    }
  }
  for (size_t k = 0; k < kept.size(); k++) symx_assert(kept[k].action() == want[k].text && W.same(kept[k].state(), want[k].s), "children outlive the iteration");
  symx_assert(W.same(node.state(), path.back()), "the node is left alone");
  if (kept.empty()) { symx_reach("leaf"); return; }
  if (depth == 0) return;
  int k = (int)symx_split(symx_int("child", 0, (int)kept.size() - 1));
  path.push_back(want[k].s);
  walk(kept[k], path, depth - 1);
}
static void start(int depth) {
  Bits s = splitState();
  State st = W.state(s);
  if (gAxioms) symx_assume(W.pddl->IsValidState(st));
  Planner pl(*W.pddl, st);
  symx_assert(W.same(st, s), "the start state is left alone");
  walk(pl.root(), {s}, depth);
  symx_reach("done");
}
static void fixedN(int depth) {
  int k = (int)symx_split(symx_int("task", 0, kNBodies));
  gAxioms = k == 3;
  W.load(task(kBodies[k]), problem(k % 4));
  start(depth);
}
static void fixed_() { fixedN(2); }
static void deep() { fixedN(4); }
static void free_() {
  int c[4];
  for (int& x : c) x = (int)symx_split(symx_int("piece", 0, 4));
  W.load(task(")" + act("one", c[0], c[1]) + act("two", c[2], c[3])), problem(0));
  start(1);
}
SYMX_HARNESS(fixed, nullptr, fixed_, BOTH);
SYMX_HARNESS(free, nullptr, free_, BOTH);
SYMX_HARNESS(deep, nullptr, deep, THOROUGH);
