// P14: object typing follows the declared type hierarchy.
// symx: sources=DOMAIN assumptions="parse trees come from the VAL stand-in in shim/"
// symx: harness tree bounds="all hierarchies of 3 types (parent: object, none declared, or an earlier type), declared upwards or downwards; a constant and 2 objects of any type or none; every type name and an undeclared one" require=done,deep
// symx: harness tree4 bounds="as tree with 4 types" require=done,deep thorough_budget=2400
#include "world.h"
static void treeN(int nt) {
  int parent[5];  // -1 object, -2 not declared
  for (int i = 0; i < nt; i++) { int k = (int)symx_split(symx_int("parent", 0, i + 1)); parent[i] = k <= 1 ? -1 - k : k - 2; }
  bool down = symx_split(symx_bool("downwards"));
  auto tn = [](int i) { return i == -1 ? std::string("object") : "t" + std::to_string(i + 1); };
  std::string types, untyped;
  for (int k = 0; k < nt; k++) {
    int i = down ? nt - 1 - k : k;
    if (parent[i] == -2) untyped += " " + tn(i); else types += " " + tn(i) + " - " + tn(parent[i]);
  }
  int ot[3];
  for (int o = 0; o < 3; o++) ot[o] = (int)symx_split(symx_int("type", 0, nt + 1)) - 2;  // -2 none, -1 object
  auto decl = [&](const char* n, int t) { return t == -2 ? std::string(" ") + n : std::string(" ") + n + " - " + tn(t); };
  // an untyped object would be given the type of the next list entry, so it comes last
  if (ot[1] == -2 && ot[2] != -2) return;
  valshim::inlineFile("<domain>", "(define (domain d) (:requirements :typing) (:types" + types + untyped + ") (:constants" + decl("a", ot[0]) +
                                      ") (:predicates (p ?x)))");
  const std::string problem = "(define (problem p) (:domain d) (:objects" + decl("b", ot[1]) + decl("c", ot[2]) + ") (:init) (:goal (and)))";
  valshim::inlineFile("<pddl string>", problem);
  Pddl pddl("<domain>", problem);
  const char* names[] = {"a", "b", "c"};
  symx_assert(pddl.objects().size() == 3, "all objects");
  for (int o = 0; o < 3; o++) {
    bool is[5] = {}; int depth = 0;
    std::vector<std::string> chain;
    for (int t = ot[o]; t >= 0; t = parent[t]) { is[t] = true; chain.push_back(tn(t)); depth++; }
    chain.push_back("object");
    if (depth > 1) symx_reach("deep");
    Object obj(pddl, names[o]);
    symx_assert(obj == pddl.objects()[o] && obj.name() == names[o], "constants first, then objects, in order");
    for (const Object& x : {obj, pddl.objects()[o]}) {
      for (int t = 0; t < nt; t++) {
        symx_assert(x.type().IsSubtype(tn(t)) == is[t], "subtype exactly of the types on the parent chain");
        for (auto* s : *pddl.symbol()->the_domain->types)
          if (s->getNameRef() == tn(t)) symx_assert(x.type().IsSubtype(Object::Type(s)) == is[t], "subtype of a type object");
      }
      symx_assert(x.type().IsSubtype("object"), "every type is a subtype of object");
      symx_assert(!x.type().IsSubtype("t9") & !x.type().IsSubtype("") & !x.type().IsSubtype("t"), "no subtype of an undeclared type");
      symx_assert(x.type().ListTypes() == chain, "the listed types are the parent chain up to object, each once");
      symx_assert(x.type().name() == chain[0], "the type's name");
    }
  }
  // per-type lists
  const auto& m = pddl.object_map();
  for (int t = -1; t < nt; t++) {
    std::vector<std::string> want, got;
    for (int o = 0; o < 3; o++) { bool in = t == -1; for (int k = ot[o]; k >= 0; k = parent[k]) in |= k == t; if (in) want.push_back(names[o]); }
    auto it = m.find(tn(t));
    if (it != m.end()) for (const Object& x : it->second) got.push_back(x.name());
    symx_assert(got == want, "the per-type list has exactly the objects of the type, once, in declaration order");
  }
  for (auto& kv : m) { bool known = kv.first == "object"; for (int t = 0; t < nt; t++) known |= kv.first == tn(t); symx_assert(known, "lists only for declared types"); }
  symx_reach("done");
}
static void tree() { treeN(3); }
static void tree4() { treeN(4); }
SYMX_HARNESS(tree, nullptr, tree, BOTH);
SYMX_HARNESS(tree4, nullptr, tree4, THOROUGH);
