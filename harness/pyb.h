// Shared by the checks of the Python bindings: calling bound functions and comparing with the C++ calls.
#pragma once
#include <sstream>
#include "pybind11/pybind11.h"
#include "symbolic/normal_form.h"
#include "symbolic/planning/breadth_first_search.h"
#include "symbolic/planning/planner.h"
#include "world.h"
namespace py = pybind11;
using py::Val;
using symbolic::Action;
using symbolic::Axiom;
using symbolic::DerivedPredicate;
using symbolic::DisjunctiveFormula;
using symbolic::Formula;
using symbolic::ParameterGenerator;
using symbolic::Planner;
using symbolic::Predicate;
using symbolic::StateIndex;
void pyshim_init_pysymbolic(py::module_& m);
namespace symbolic { void pyshim_init_pysymbolic(py::module_& m); }
using Strs = std::vector<std::string>;
template <class T> std::string str(const T& x) { std::stringstream ss; ss << x; return ss.str(); }
// A value with the instances in it described by what they are.
inline Val show(const Val& x) {
  if (x.k != Val::Obj) { Val r = x; for (Val& e : r.v) e = show(e); return r; }
  auto list = [](std::vector<Val> v) { return Val::seq(Val::Tuple, std::move(v)); };
  auto objs = [](const auto& os) { Val r = Val::seq(Val::List); for (const auto& o : os) { r.v.push_back(o.name()); r.v.push_back(o.type().name()); } return r; };
  if (x.type == py::tid<Object>()) return list({"Object", x.as<Object>().name(), x.as<Object>().type().name()});
  if (x.type == py::tid<Object::Type>()) return list({"Type", x.as<Object::Type>().name()});
  if (x.type == py::tid<Action>()) return list({"Action", x.as<Action>().name(), objs(x.as<Action>().parameters())});
  if (x.type == py::tid<Predicate>()) return list({"Predicate", x.as<Predicate>().name(), objs(x.as<Predicate>().parameters())});
  if (x.type == py::tid<Axiom>()) return list({"Axiom", str(x.as<Axiom>())});
  if (x.type == py::tid<DerivedPredicate>()) return list({"Derived", x.as<DerivedPredicate>().name(), objs(x.as<DerivedPredicate>().parameters())});
  if (x.type == py::tid<Formula>()) return list({"Formula", x.as<Formula>().to_string()});
  if (x.type == py::tid<ParameterGenerator>()) { Val r = Val::seq(Val::List); for (const auto& t : x.as<ParameterGenerator>()) r.v.push_back(objs(t)); return list({"Generator", r}); }
  if (x.type == py::tid<Planner::Node>()) { const auto& n = x.as<Planner::Node>(); return list({"Node", n.action(), n.depth(), py::make(Stringify(n.state()))}); }
  if (x.type == py::tid<PartialState>()) { const auto& s = x.as<PartialState>(); return list({"Partial", py::make(Stringify(s.pos())), py::make(Stringify(s.neg()))}); }
  if (x.type == py::tid<DisjunctiveFormula>()) { Val r = Val::seq(Val::List); for (const auto& s : x.as<DisjunctiveFormula>().conjunctions) r.v.push_back(show(py::make(s))); return list({"Normal form", r}); }
  return x;
}
// calls the binding and the C++ function: same value, or both raise
template <class F>
Val agree(const char* name, std::vector<Val> args, F cpp, std::map<std::string, Val> kw = {}) {
  Val a, b;
  bool ta = false, tb = false;
  try { a = py::call(name, std::move(args), std::move(kw)); } catch (const std::exception&) { ta = true; }
  try { if constexpr (std::is_void<decltype(cpp())>::value) cpp(); else b = show(py::make(cpp())); } catch (const std::exception&) { tb = true; }
  symx_assert(ta == tb, (std::string(name) + ": raises exactly if the C++ call throws").c_str());
  if (!ta && !tb) { symx_assert(show(a) == b, (std::string(name) + ": returns what the C++ call returns").c_str()); symx_reach("returned"); }
  else symx_reach("raised");
  return a;
}
inline Val strs(Val::Kind k, const Strs& v) { Val r = Val::seq(k); for (auto& s : v) r.v.push_back(Val(s)); return r; }
inline Val pyset(const Strs& v) { return strs(Val::Set, v); }
inline Val pylist(const Strs& v) { return strs(Val::List, v); }
template <class T> Val ref(const T& x) { return py::make(const_cast<T&>(x)); }
inline std::set<std::string> toSet(const Strs& v) { return std::set<std::string>(v.begin(), v.end()); }
