// P33: planning solves the task: returned plans are valid, solvable tasks are solved.
// symx: sources=DOMAIN assumptions="parse trees come from the VAL stand-in in shim/|with axioms, an action's outcome is that of Action::Apply (decided by P24)|no timeout (P32 decides timeouts)"
// symx: harness fixed bounds="6 tasks (equality, empty parameter ranges, derived predicates, axioms, no actions) x 4 goals (6 with a derived predicate), every initial state over 5-9 atoms, depth bounds 0..3: all plans of breadth-first, depth-first and A* search" require=done,solved,unsolvable
// symx: harness free bounds="all pairs of actions out of 5 preconditions x 5 effects, every initial state over 5 atoms, one goal, depth bound 2, all plans of breadth-first search" require=done,solved,unsolvable budget=40
// symx: harness free4 bounds="as free with 4 goals" require=done thorough_budget=2400
// symx: harness deep bounds="as fixed with depth bounds 0..4" require=done thorough_budget=900
#include "f_plan.h"
#include "symbolic/planning/a_star.h"
#include "symbolic/planning/depth_first_search.h"
#include "symbolic/planning/breadth_first_search.h"
using symbolic::Planner;
static const VAL::goal* goalOf() { return W.ast->the_problem->the_goal; }
// lengths of the shortest solution, by breadth over sets of concrete states
static int shortest(const Bits& s0, int bound) {
  std::vector<Bits> level = {s0};
  auto cs = calls();
  for (int d = 0;; d++) {
    for (auto& s : level) if (holds(W, goalOf(), {}, s)) return d;
    if (d == bound) return -1;
    std::vector<Bits> next;
    for (auto& s : level) for (auto& c : cs) if (applicable(c, s)) {
      Bits n = successor(c, s);
      bool dup = false;
      for (auto& x : next) dup |= equal(W, x, n);
      if (!dup) next.push_back(n);
    }
    level = next;
  }
}
static std::string textOf(const std::vector<Planner::Node>& path) { std::string r; for (auto& n : path) r += n.action() + ";"; return r; }
static bool member(const std::vector<std::string>& l, const std::string& t) { for (auto& x : l) if (x == t) return true; return false; }
struct ByLength {
  bool operator()(const symbolic::SearchNode<Planner::Node>& a, const symbolic::SearchNode<Planner::Node>& b) const { return a.ancestors.size() > b.ancestors.size(); }
};
static void solve(int bound, bool all) {
  Bits s = splitState();
  State st = W.state(s);
  if (gAxioms) symx_assume(W.pddl->IsValidState(st));
  W.pddl->set_initial_state(W.state(s));
  int best = shortest(s, bound);
  Planner planner(*W.pddl);
  symbolic::BreadthFirstSearch<Planner::Node> bfs(planner.root(), bound);
  int plans = 0;
  size_t last = 0;
  std::vector<std::string> texts;
  for (const std::vector<Planner::Node>& path : bfs) {
    std::vector<std::string> plan;
    for (size_t i = 1; i < path.size(); i++) plan.push_back(path[i].action());
    symx_assert((int)plan.size() <= bound, "no plan is longer than the bound");
    symx_assert(W.pddl->IsValidPlan(plan), "a returned plan is valid");
    Bits x = s;
    for (auto& p : plan) {
      bool found = false;
      for (auto& c : calls()) if (c.text == p) { found = applicable(c, x); x = successor(c, x); break; }
      symx_assert(found, "each step is an applicable call");
    }
    symx_assert(holds(W, goalOf(), {}, x), "the plan reaches the goal");
    symx_assert(W.same(path.back().state(), x), "the last node is the state the plan leads to");
    symx_assert(plan.size() >= last, "plans are not returned before shorter ones");
    last = plan.size();
    if (plans++ == 0) symx_assert((int)plan.size() == best, "the first plan is a shortest one");
    texts.push_back(textOf(path));
    if (plans == 200) break;
  }
  for (size_t i = 0; i < texts.size(); i++) for (size_t j = 0; j < i; j++) symx_assert(texts[i] != texts[j], "no plan is returned twice");
  if (all) {
    symbolic::DepthFirstSearch<Planner::Node> dfs(planner.root(), bound);
    size_t n = 0;
    for (auto it = dfs.begin(); it != dfs.end() && n <= texts.size(); ++it, ++n) symx_assert(member(texts, textOf(*it)), "depth-first search returns the same plans");
    symx_assert(n == texts.size(), "depth-first search returns as many plans");
    ByLength cmp;
    symbolic::AStar<Planner::Node, ByLength> astar(cmp, planner.root(), bound);
    n = 0;
    size_t len = 0;
    for (auto it = astar.begin(); it != astar.end() && n <= texts.size(); ++it, ++n) {
      symx_assert(member(texts, textOf(*it)), "A* returns the same plans");
      symx_assert((*it).size() >= len, "A* returns plans in order of length");
      len = (*it).size();
    }
    symx_assert(n == texts.size(), "A* returns as many plans");
  }
  symx_assert((plans > 0) == (best >= 0), "a plan is returned exactly when the goal is in reach");
  symx_reach(best >= 0 ? "solved" : "unsolvable");
  symx_reach("done");
}
static void fixedN(int maxb) {
  int k = (int)symx_split(symx_int("task", 0, kNBodies));
  int g = (int)symx_split(symx_int("goal", 0, k == 2 || k == 4 ? 5 : 3));
  gAxioms = k == 3;
  W.load(task(kBodies[k]), problem(g));
  solve((int)symx_split(symx_int("bound", 0, maxb)), true);
}
static void fixed_() { fixedN(3); }
static void deep() { fixedN(4); }
static void freeN(int goals) {
  int c[4];
  for (int& x : c) x = (int)symx_split(symx_int("piece", 0, 4));
  W.load(task(")" + act("one", c[0], c[1]) + act("two", c[2], c[3])), problem((int)symx_split(symx_int("goal", 0, goals - 1))));
  solve(2, false);
}
static void free_() { freeN(1); }
static void free4() { freeN(4); }
SYMX_HARNESS(fixed, nullptr, fixed_, BOTH);
SYMX_HARNESS(free, nullptr, free_, BOTH);
SYMX_HARNESS(deep, nullptr, deep, THOROUGH);
SYMX_HARNESS(free4, nullptr, free4, THOROUGH);
