// Concrete implementation of the harness API: runs a harness natively on given input values.
// usage: replay HARNESS v0,v1,...   exit 0 ok, 1 assertion failed, 3 input outside the assumptions
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <string>
#include <vector>
#include <unistd.h>
#include "symx.h"
static SymxHarness* gH = nullptr;
SymxHarness::SymxHarness(const char* n, void (*s)(), void (*r)(), int t) : name(n), setup(s), run(r), tiers(t), next(gH) { gH = this; }
static std::vector<uint64_t> gV; static size_t gI = 0; static bool gOn = false;
static uint64_t nextv(unsigned w) { uint64_t x = gI < gV.size() ? gV[gI] : 0; gI++; if (w < 64) x &= (1ull << w) - 1; return x; }
extern "C" {
int64_t symx_int(const char* name, int64_t lo, int64_t hi) {
  if (lo >= hi || !gOn) return lo;
  uint64_t range = (uint64_t)(hi - lo); unsigned w = 1; while (w < 64 && (range >> w)) w++;
  uint64_t x = nextv(w);
  if (x > range) { printf("OUTSIDE %s\n", name); fflush(stdout); _exit(3); }
  printf("INPUT %s = %lld\n", name, (long long)(lo + (int64_t)x));
  return lo + (int64_t)x;
}
bool symx_bool(const char* name) { if (!gOn) return false; bool b = nextv(1); printf("INPUT %s = %s\n", name, b ? "true" : "false"); return b; }
void symx_assume(bool c) { if (!c) { printf("OUTSIDE assumption\n"); fflush(stdout); _exit(3); } }
void symx_assert(bool c, const char* m) { if (!c) { printf("ASSERTION FAILED: %s\n", m); fflush(stdout); _exit(1); } }
void symx_reach(const char* l) { printf("REACHED %s\n", l); }
int64_t symx_split(int64_t v) { return v; }
void symx_note(const char* t) { printf("NOTE %s\n", t); }
bool symx_replaying(void) { return true; }
}
int main(int argc, char** argv) {
  if (argc < 2) { for (auto* h = gH; h; h = h->next) printf("%s %d\n", h->name, h->tiers); return 0; }
  const char* p = argc > 2 ? argv[2] : "";
  while (*p) { char* e; gV.push_back(strtoull(p, &e, 10)); p = *e ? e + 1 : e; }
  setvbuf(stdout, nullptr, _IOLBF, 0);
  for (auto* h = gH; h; h = h->next) if (!strcmp(h->name, argv[1])) {
    if (h->setup) h->setup();
    if (argc > 2 && !strcmp(argv[2], "setup")) { printf("OK\n"); fflush(stdout); _exit(0); }
    gOn = true;
    h->run();
    printf("OK\n"); fflush(stdout);
    _exit(0);
  }
  fprintf(stderr, "no harness %s\n", argv[1]);
  return 2;
}
