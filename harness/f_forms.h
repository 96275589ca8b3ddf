// Formulas of symbolic structure over task W; each is handed to use().
#pragma once
#include "gen.h"
#include "f_world.h"
// Name of the second parameter; by default that of the constant, which is a different thing.
#ifndef FORM_Y
#define FORM_Y "a"
#endif
static void use(goal* g, const std::vector<var_symbol*>& params);
static void anyType(Gen& G) { for (const char* t : {"t2", "t1", "t3", "object"}) G.types.push_back(new pred_symbol(t)); }
static void binN(int n) {
  Gen G(W);
  auto params = std::vector<var_symbol*>{G.var("x", G.type_("t1")), G.var(FORM_Y, G.type_("t2"))};
  G.terms = {params[0], params[1], G.object("a")};
  G.ptype = new pred_symbol("t2");
  anyType(G);
  bool conj = G.pick("and/or", 2);
  int k = n == 3 ? 3 : G.pick("operands", 3);
  std::vector<goal*> ks;
  if (k > 0) ks.push_back(G.lit());
  G.terms = {params[1], G.object("a")};
  for (int i = 1; i < k; i++) { G.ptype = nullptr; ks.push_back(i == 1 ? G.leaf() : G.lit()); G.eq = false; }
  use(G.nary(conj, ks), params);
}
static void bin() { binN(2); }
static void bin3() { binN(3); }
static const char* kTypes[] = {"t1", "t2", "t3", "object", ""};
static void quant() {
  Gen G(W);
  auto params = std::vector<var_symbol*>{G.var("x", G.type_("t1"))};
  auto* v = G.var("v", G.type_(kTypes[G.pick("type", 5)]));
  G.terms = {v, params[0]};
  G.ptype = new pred_symbol("t2");
  goal* body;
  int k = G.pick("body", 3);
  if (k == 0) anyType(G);
  if (k == 0) body = G.lit();
  else {
    goal* l = G.leaf();
    G.terms = {v}; G.eq = false;
    body = G.nary(k == 1, {l, G.pick("not", 2) ? G.neg(G.leaf()) : G.leaf()});
  }
  goal* g = G.quant(G.pick("forall/exists", 2), {v}, body);
  if (k == 0 && G.pick("outer not", 2)) g = G.neg(g);
  use(g, params);
}
static void nest() {
  Gen G(W);
  auto params = std::vector<var_symbol*>{G.var("x", G.type_("t1"))};
  auto* v = G.var("v", G.type_(kTypes[G.pick("type", 2)]));
  auto* w = G.var("w", G.type_(kTypes[G.pick("type", 4)]));
  G.terms = {v, w, params[0]};
  goal* body = G.lit();
  int shape = G.pick("shape", 3);
  bool q1 = G.pick("q1", 2);
  goal* g;
  if (shape == 2) g = G.quant(q1, {v, w}, body);
  else {
    goal* in = G.quant(G.pick("q2", 2), {w}, body);
    g = G.quant(q1, {v}, shape == 1 ? G.neg(in) : in);
  }
  use(g, params);
}
static const char* kDeep[] = {
    "(and (or (p ?x) (and (q ?x ?y) (not (z)))) (not (and (p ?y) (or (z) (= ?x ?y)))))",
    "(forall (?v - t1) (or (= ?v ?x) (exists (?w - t2) (and (q ?v ?w) (not (= ?w ?y))))))",
    "(exists (?v - t2) (and (not (= ?v ?x)) (forall (?w - t2) (or (= ?v ?w) (not (q ?x ?w)) (p ?w)))))",
    "(or (and) (p ?x))",
    "(and (p ?x) (or))",
    "(forall (?v - t3) (and (p ?v) (or)))",
    "(exists (?v - object) (and (t2 ?v) (not (p ?v)) (not (exists (?w - t1) (q ?w ?v)))))",
    "(not (forall (?v - t1 ?w - t2) (or (not (q ?v ?w)) (exists (?u - t2) (and (p ?u) (not (= ?u ?w)))))))",
    "(and (q ?x ?y) (q ?y ?y) (q ?y a) (q c ?y) (or (q ?x a) (not (q c b))))",
    // a variable hides an outer one of its name
    "(exists (?x - t2) (and (q ?x ?y) (not (p ?x))))",
    "(and (p ?x) (forall (?x - t1) (or (p ?x) (exists (?y - t2 ?x - t2) (q ?x ?y)))))",
    "(not (exists (?v - t1) (and (not (p ?v)) (forall (?v - t2) (q ?x ?v)))))",
    // variables named like constants
    "(forall (?a - t1) (or (q ?a a) (not (p ?a)) (p a)))",
    "(exists (?b - t2) (and (q ?x b) (not (= ?b b)) (p ?b)))"};
const int kDeepUnmarked = 12, kDeepAll = 14;
