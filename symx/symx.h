// Harness API of the symx engine (see DESIGN.md). Implemented symbolically by rt.cpp and
// concretely (values read from a file) by replay.cpp.
#ifndef SYMX_H_
#define SYMX_H_
#include <cstddef>
#include <cstdint>
extern "C" {
// Fresh symbolic input in [lo, hi] / {false,true}.
int64_t symx_int(const char* name, int64_t lo, int64_t hi);
bool symx_bool(const char* name);
// Restrict the inputs considered (part of the stated bounds).
void symx_assume(bool c);
// The property: the solver must show it for every input of the current path.
void symx_assert(bool c, const char* msg);
// Vacuity witness.
void symx_reach(const char* label);
// Case split on the value of v (all feasible values are explored).
int64_t symx_split(int64_t v);
// Free text printed when replaying a counterexample.
void symx_note(const char* text);
// True when running concretely (replay build).
bool symx_replaying(void);
}
// Harness registration. quick: run in the quick tier; thorough: run in the thorough tier.
struct SymxHarness {
  const char* name;
  void (*setup)();
  void (*run)();
  int tiers;  // 1 quick, 2 thorough, 3 both
  SymxHarness* next;
  SymxHarness(const char* n, void (*s)(), void (*r)(), int t);
};
#define SYMX_HARNESS(name, setup, run, tiers) \
  static SymxHarness symx_reg_##name(#name, setup, run, tiers)
enum { QUICK = 1, THOROUGH = 2, BOTH = 3 };
#endif
