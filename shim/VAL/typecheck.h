#ifndef VALSHIM_TYPECHECK_H_
#define VALSHIM_TYPECHECK_H_
#include "VAL/ptree.h"
namespace VAL {
extern bool Verbose;
extern std::ostream* report;
// Verdicts of the stand-in are chosen by the harness.
extern bool shim_domain_ok, shim_problem_ok;
// What it was asked about, and how it was to report when asked.
struct ShimAsked { analysis* what = nullptr; bool verbose = false; std::ostream* report = nullptr; int domain = 0, problem = 0; };
inline ShimAsked shim_asked;
class TypeChecker {
 public:
  explicit TypeChecker(analysis* a) { shim_asked.what = a; }
  bool typecheckDomain() { note(); shim_asked.domain++; return shim_domain_ok; }
  bool typecheckProblem() { note(); shim_asked.problem++; return shim_problem_ok; }
 private:
  void note() { shim_asked.verbose = Verbose; shim_asked.report = report; }
};
}  // namespace VAL
#endif
