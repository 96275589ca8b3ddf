// P13: action calls are accepted exactly when well-typed.
// symx: sources=DOMAIN assumptions="parse trees come from the VAL stand-in in shim/"
// symx: harness calls bounds="7 action names (4 actions, one without a precondition, a prefix, an extension, an unknown name), 0..3 arguments out of 5 objects of 4 types and an unknown one, with and without spaces; every entry point taking a call" require=done,accepted,rejected
// symx: harness more bounds="as calls with 0..4 arguments" require=done,accepted,rejected thorough_budget=2400
#include <set>
#include "world.h"
static World W;
static const char* kSig[][4] = {{"go", "t1", "t2", 0}, {"g", "t2", 0, 0}, {"take3", "t1", "t3", "object"}, {"any", "object", 0, 0}};
static void setup() {
  W.load("(define (domain d) (:requirements :typing) (:types t1 - object t2 - t1 t3 - object) (:constants a - t2)"
         " (:predicates (p ?x))"
         " (:action go :parameters (?x - t1 ?y - t2) :precondition (and) :effect (p ?x))"
         " (:action g :parameters (?x - t2) :precondition (and) :effect (p ?x))"
         " (:action take3 :parameters (?x - t1 ?y - t3 ?z) :precondition (and) :effect (p ?x))"
         " (:action any :parameters (?x - object) :effect (p ?x)))",
         "(define (problem x) (:domain d) (:objects b - t2 c - t1 e - t3 o - object) (:init) (:goal (p a)))");
}
static void callsN(int maxArgs) {
  static const char* names[] = {"go", "g", "take3", "any", "goo", "take", "P"};
  std::string name = names[symx_split(symx_int("action", 0, 6))];
  int n = (int)symx_split(symx_int("arguments", 0, maxArgs));
  std::vector<int> a;
  bool known = true;
  std::string call = name + "(";
  bool spaces = n < 3 ? symx_split(symx_bool("spaces")) : false;
  for (int i = 0; i < n; i++) {
    int o = (int)symx_split(symx_int("argument", 0, 5));
    known &= o < 5;
    a.push_back(o);
    call += (i ? (spaces ? " ,  " : ",") : (spaces ? " " : "")) + (o < 5 ? W.objs[o] : std::string("nobody"));
  }
  call += spaces ? " )" : ")";
  bool ok = false;
  for (auto& s : kSig) if (name == s[0]) {
    int k = 0;
    ok = known;
    for (int i = 1; i < 4 && s[i]; i++, k++) if (known && k < n) ok &= W.isa(a[k], s[i]);
    ok &= k == n;
  }
  int accepted = 0, entries = 0;
  auto attempt = [&](auto f) { entries++; try { f(); accepted++; } catch (const std::exception&) {} };
  State st;
  st.insert(W.props[0]);
  std::vector<std::string> plan{call};
  attempt([&] {
    auto r = symbolic::Action::Parse(*W.pddl, call);
    symx_assert(ok, "ill-typed call accepted");
    symx_assert(r.first.name() == name, "the named action");
    symx_assert(r.second.size() == a.size(), "the named objects");
    for (size_t i = 0; i < a.size(); i++) symx_assert(r.second[i] == W.O[a[i]], "the named objects in order");
  });
  attempt([&] { W.pddl->NextState(st, call); });
  attempt([&] { W.pddl->ApplyActions(st, plan); });
  attempt([&] { W.pddl->IsValidAction(st, call); });
  attempt([&] { W.pddl->IsValidTuple(st, call, st); });
  attempt([&] { W.pddl->IsValidTuple(std::set<std::string>{"p(a)"}, call, std::set<std::string>{}); });
  attempt([&] { W.pddl->IsValidPlan(plan); });
  attempt([&] { W.pddl->IsValidPlan({"any(a)", "g(b)", call}); });
  attempt([&] { W.pddl->ApplyActions(st, {"any(o)", call}); });
  symx_assert(accepted == (ok ? entries : 0), "every entry point accepts exactly the well-typed calls");
  symx_reach(ok ? "accepted" : "rejected");
  symx_reach("done");
}
static void calls() { callsN(3); }
static void more() { callsN(4); }
SYMX_HARNESS(calls, setup, calls, QUICK);
SYMX_HARNESS(more, setup, more, THOROUGH);
