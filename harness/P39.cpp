// P39: the validity check answers for both the domain and the problem.
// symx: sources=DOMAIN,src/python/symbolic.cc include=abs assumptions="VAL's type checker is replaced by one giving arbitrary verdicts on the domain and on the problem|pybind11 is the stand-in in shim/pybind11"
// symx: harness verdict bounds="arbitrary verdicts on domain and problem, verbose or not, default arguments or a given stream, two checks in a row with independent verdicts, one of two tasks; from C++ and from Python" require=done,valid,invalid
#include "pyb.h"
#include "VAL/typecheck.h"
static Pddl* T[2];
static void setup() {
  py::module_ m;
  symbolic::pyshim_init_pysymbolic(m);
  static const char* kD[] = {"(define (domain d) (:types t) (:predicates (p ?x - t)) (:action act :parameters (?x - t) :precondition (p ?x) :effect (not (p ?x))))",
                             "(define (domain e) (:predicates (p ?x)))"};
  static const char* kP[] = {"(define (problem w) (:domain d) (:objects a - t) (:init (p a)) (:goal (p a)))", "(define (problem v) (:domain e) (:objects a) (:init) (:goal (p a)))"};
  for (int i = 0; i < 2; i++) { valshim::inlineFile("<domain>", kD[i]); valshim::inlineFile("<pddl string>", kP[i]); T[i] = new Pddl("<domain>", kP[i]); }
}
static void verdict() {
  for (int round = 0; round < 2; round++) {
    const Pddl& p = *T[symx_split(symx_int("task", 0, 1))];
    bool d = symx_bool("domain ok"), q = symx_bool("problem ok");
    VAL::shim_domain_ok = d; VAL::shim_problem_ok = q;
    VAL::shim_asked = VAL::ShimAsked();
    int how = (int)symx_split(symx_int("how", 0, 3)), before = p.symbol()->error_list.reports;
    bool verbose = how > 1 && symx_split(symx_bool("verbose")), r;
    std::stringstream ss;
    if (how == 0) r = p.IsValid();
    else if (how == 1) r = py::call("Pddl.is_valid", {ref(p)}).i != 0;
    else if (how == 2) r = p.IsValid(verbose, ss);
    else r = py::call("Pddl.is_valid", {ref(p)}, {{"verbose", Val(verbose)}}).i != 0;
    symx_assert(r == (d & q), "valid exactly when both the domain and the problem type-check");
    symx_assert(VAL::shim_asked.what == p.symbol(), "the checker is asked about this task");
    symx_assert(VAL::shim_asked.verbose == verbose && (!verbose || VAL::shim_asked.report == (how == 2 ? (std::ostream*)&ss : &std::cout)), "diagnostics go where they were asked for");
    symx_assert((p.symbol()->error_list.reports > before) == verbose, "errors are listed only if asked for");
    if (symx_split(r)) symx_reach("valid"); else symx_reach("invalid");
  }
  symx_reach("done");
}
SYMX_HARNESS(verdict, setup, verdict, BOTH);
