// The small task used for formulas of symbolic structure.
#pragma once
#include "world.h"
static World W;
static const char* kFDomain =
    "(define (domain d) (:requirements :typing)"
    " (:types t1 - object t2 - t1 t3 - object)"
    " (:constants a - t2)"
    " (:predicates (p ?x - t1) (q ?x - t1 ?y - t2) (z)))";
static const char* kFProblem =
    "(define (problem p) (:domain d) (:objects b - t2 c - t1) (:init (p a)) (:goal (p b)))";
static void fworld() { W.load(kFDomain, kFProblem); }
static std::vector<Object> paramObjects(const std::vector<VAL::var_symbol*>& ps) {
  std::vector<Object> r;
  for (auto* p : ps) r.push_back(Object(*W.pddl, p));
  return r;
}
static Env env(const std::vector<VAL::var_symbol*>& ps, const std::vector<int>& t) {
  Env e;
  for (size_t i = 0; i < ps.size(); i++) e.push_back({ps[i]->getNameRef(), t[i]});
  return e;
}
