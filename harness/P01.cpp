// P01: combination enumeration is exactly the Cartesian product in order.
// symx: harness enum_const bounds="0..3 options of 0..3 elements, arbitrary contents; const and non-const containers" require=enumerated,empty_option
// symx: harness enum_mut bounds="0..3 options of 1..3 elements, arbitrary contents; mutable container" require=enumerated
// symx: harness access bounds="1..3 options of 1..3 elements, index in [-size-3,size+3]" require=in,out
// symx: harness enum_const4 bounds="4 options of 1..3 elements" require=enumerated
// symx: harness access4 bounds="4 options of 1..3 elements, index in [-size-3,size+3]" require=in,out
// symx: harness huge bounds="6 shapes of 1..4 options with 2^32..3*2^32 combinations (lists of numbers that take no memory); any index in [-size-3,size+3]" require=in,out,far
// symx: harness huge2 bounds="10 shapes of 1..4 options with up to 2^60 combinations; any index in [-size-3,size+3]" require=in,out,far
#include <stdexcept>
#include "combi.h"
using symbolic::CombinationGenerator;
template <class C>
static void enumerate(int nmin, int nmax, int minlen, int maxlen) {
  Opts<C> o;
  int n = (int)symx_split(symx_int("n", nmin, nmax));
  o.make(n, minlen, maxlen, symElem);
  bool threw = false;
  try {
    CombinationGenerator<C> g(o.ptrs);
    const CombinationGenerator<C>& cg = g;
    symx_assert(!o.anyEmpty(), "an empty option list is rejected");
    symx_assert((int)g.size() == o.size, "size() is the product of the option sizes");
    symx_assert(g.empty() == (o.size == 0), "empty() agrees with size()");
    int i = 0;
    for (const std::vector<int>& c : g) {
      symx_assert(i < o.size, "iteration ends after size() combinations");
      symx_assert(eqv(c, o.expect(i)), "iteration yields the tuples in lexicographic order");
      i++;
    }
    symx_assert(i == o.size, "iteration yields every tuple");
    i = 0;
    for (auto it = cg.begin(); it != cg.end(); it++) {
      symx_assert(i < o.size, "const iteration ends");
      symx_assert(eqv(*it, o.expect(i)) & ((int)it->size() == n), "const iteration yields the tuples in order");
      i++;
    }
    symx_assert(i == o.size, "const iteration yields every tuple");
    i = 0;
    for (auto it = g.cbegin(); it != g.cend(); ++it, ++i) symx_assert(i < o.size && eqv(*it, o.expect(i)), "cbegin/cend iteration");
    symx_assert(i == o.size, "cbegin/cend iteration yields every tuple");
    i = o.size;
    for (auto it = g.rbegin(); it != g.rend(); ++it) {
      i--;
      symx_assert(i >= 0, "reverse iteration ends");
      symx_assert(eqv(*it, o.expect(i)), "reverse iteration yields the tuples in opposite order");
    }
    symx_assert(i == 0, "reverse iteration yields every tuple");
    i = o.size;
    for (auto it = cg.rbegin(); it != cg.rend(); it++) { i--; symx_assert(i >= 0 && eqv(*it, o.expect(i)), "const reverse iteration"); }
    symx_assert(i == 0, "const reverse iteration yields every tuple");
    i = o.size;
    for (auto it = g.crbegin(); it != g.crend(); it++) { i--; symx_assert(i >= 0 && eqv(*it, o.expect(i)), "crbegin/crend iteration"); }
    symx_assert(i == 0, "crbegin/crend iteration yields every tuple");
    symx_reach("enumerated");
  } catch (const std::invalid_argument&) { threw = true; }
  symx_assert(threw == o.anyEmpty(), "exception exactly for an empty option list");
  if (threw) symx_reach("empty_option");
}
static void enum_const() { enumerate<const std::vector<int>>(0, 3, 0, 3); }
static void enum_mut() { enumerate<std::vector<int>>(0, 3, 1, 3); }
static void enum_const4() { enumerate<const std::vector<int>>(4, 4, 1, 3); }
static void doAccess(int nmin, int nmax) {
  Opts<const std::vector<int>> o;
  int n = (int)symx_split(symx_int("n", nmin, nmax));
  o.make(n, 1, 3, symElem);
  CombinationGenerator<const std::vector<int>> g(o.ptrs);
  int i = (int)symx_int("i", -o.size - 3, o.size + 3);
  bool thrown = false;
  std::vector<int> c;
  try { c = g.at(i); } catch (const std::out_of_range&) { thrown = true; }
  symx_assert(thrown == ((i < -o.size) | (i >= o.size)), "out_of_range exactly outside [-size,size)");
  i = (int)symx_split(i);
  if (!thrown) {
    int k = i < 0 ? i + o.size : i;
    symx_assert(eqv(c, o.expect(k)), "at() is the element of that index");
    symx_assert(eqv(g[k], o.expect(k)), "operator[] is the element of that index");
    symx_assert(eqv(*(g.begin() + k), o.expect(k)), "begin()+i is the element of that index");
    symx_reach("in");
  } else symx_reach("out");
}
static void access() { doAccess(1, 3); }
static void access4() { doAccess(4, 4); }
static void doHuge(int shapes) {
  Huge h((int)symx_split(symx_int("shape", 0, shapes - 1)));
  CombinationGenerator<const Range> g(h.ptrs);
  symx_assert((long)g.size() == h.size, "size() is the product of the option sizes");
  symx_assert(!g.empty() && g.begin() != g.end(), "a generator of many combinations is not empty");
  symx_assert(g.end() - g.begin() == h.size, "the end is size() steps after the beginning");
  long i = symx_int("i", -h.size - 3, h.size + 3);
  bool in = (i >= -h.size) & (i < h.size);
  in = symx_split(in);
  bool thrown = false;
  std::vector<long> c;
  try { c = g.at(i); } catch (const std::out_of_range&) { thrown = true; }
  symx_assert(thrown == !in, "out_of_range exactly outside [-size,size)");
  if (!in) { symx_reach("out"); return; }
  symx_reach("in");
  bool neg = symx_split(i < 0);
  long k = neg ? i + h.size : i;
  symx_assert(h.is(c, k), "at() is the element of that index");
  if (neg) return;
  symx_assert(h.is(g[k], k), "operator[] is the element of that index");
  auto it = g.begin() + k;
  symx_assert(h.is(*it, k), "begin()+i is the element of that index");
  symx_assert(it != g.end() && it - g.begin() == k, "the position is inside the range");
  ++it;
  bool last = symx_split(k + 1 == h.size);
  symx_assert((it == g.end()) == last, "iteration ends after size() combinations");
  if (!last) { symx_assert(h.is(*it, k + 1), "iteration goes on with the next combination"); symx_reach("far"); }
}
static void huge() { doHuge(6); }
static void huge2() { doHuge(10); }
static void empty_gen() {
  CombinationGenerator<const std::vector<int>> d;
  symx_assert(d.size() == 0 && d.empty() && d.begin() == d.end(), "a default generator is empty");
  int i = (int)symx_int("i", -3, 3);
  bool thrown = false;
  try { d.at(i); } catch (const std::out_of_range&) { thrown = true; }
  symx_assert(thrown, "at() of an empty generator always throws");
}
SYMX_HARNESS(empty_gen, nullptr, empty_gen, BOTH);
SYMX_HARNESS(enum_const, nullptr, enum_const, BOTH);
SYMX_HARNESS(enum_mut, nullptr, enum_mut, BOTH);
SYMX_HARNESS(access, nullptr, access, BOTH);
SYMX_HARNESS(enum_const4, nullptr, enum_const4, THOROUGH);
SYMX_HARNESS(access4, nullptr, access4, THOROUGH);
SYMX_HARNESS(huge, nullptr, huge, QUICK);
SYMX_HARNESS(huge2, nullptr, huge2, THOROUGH);
