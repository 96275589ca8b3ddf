// Shared by P01-P03: generators over option lists of symbolic contents.
#pragma once
#include <memory>
#include <vector>
#include "symbolic/utils/combination_generator.h"
#include "symx.h"
template <class C>
struct Opts {
  std::vector<std::vector<int>> lists;   // the options
  std::vector<C*> ptrs;
  int size = 0;
  // n option lists of 1..maxlen elements (minlen may be 0), contents produced by elem(slot, pos)
  template <class F>
  void make(int n, int minlen, int maxlen, F elem) {
    lists.resize(n);
    size = n ? 1 : 0;
    for (int i = 0; i < n; i++) {
      int len = (int)symx_split(symx_int("len", minlen, maxlen));
      for (int j = 0; j < len; j++) lists[i].push_back(elem(i, j));
      size *= len;
    }
    for (auto& l : lists) ptrs.push_back(&l);
  }
  bool anyEmpty() const { for (auto& l : lists) if (l.empty()) return true; return false; }
  // expected combination at a (concrete) index, computed from the right
  std::vector<int> expect(int idx) const {
    std::vector<int> r(lists.size());
    for (int i = (int)lists.size() - 1; i >= 0; i--) { int k = (int)lists[i].size(); r[i] = lists[i][idx % k]; idx /= k; }
    return r;
  }
  // the same for a symbolic index inside the range, without branching
  std::vector<int> expectSym(int idx) const {
    std::vector<int> r = expect(0);
    for (int k = 1; k < size; k++) { std::vector<int> e = expect(k); int m = -(int)(idx == k); for (size_t i = 0; i < r.size(); i++) r[i] = (r[i] & ~m) | (e[i] & m); }
    return r;
  }
};
inline int symElem(int, int) { return (int)symx_int("elem", 0, 255); }
inline bool eqv(const std::vector<int>& a, const std::vector<int>& b) {
  if (a.size() != b.size()) return false;
  bool r = true;
  for (size_t i = 0; i < a.size(); i++) r &= a[i] == b[i];
  return r;
}
// A container of n consecutive numbers that takes no memory, for option lists too long to store.
struct Range {
  using value_type = long;
  struct It {
    using iterator_category = std::random_access_iterator_tag;
    using value_type = long;
    using difference_type = ptrdiff_t;
    using pointer = const long*;
    using reference = long;
    long i;
    long operator*() const { return i; }
    It& operator++() { ++i; return *this; }
    It operator++(int) { It t = *this; ++i; return t; }
    It& operator--() { --i; return *this; }
    It& operator+=(ptrdiff_t n) { i += n; return *this; }
    It operator+(ptrdiff_t n) const { return It{i + n}; }
    ptrdiff_t operator-(const It& o) const { return i - o.i; }
    bool operator==(const It& o) const { return i == o.i; }
    bool operator!=(const It& o) const { return i != o.i; }
    bool operator<(const It& o) const { return i < o.i; }
  };
  using iterator = It;
  using const_iterator = It;
  size_t n = 0;
  It begin() const { return It{0}; }
  It end() const { return It{(long)n}; }
  size_t size() const { return n; }
  bool empty() const { return n == 0; }
  long front() const { return 0; }
  long operator[](size_t i) const { return (long)i; }
  long at(size_t i) const { symx_assert(i < n, "no option list is read outside its bounds"); return (long)i; }
};
struct Huge {
  std::vector<Range> lists;
  std::vector<const Range*> ptrs;
  long size = 1;
  explicit Huge(int shape) {
    static const long kSizes[][4] = {{65536, 65536, 0, 0}, {256, 256, 256, 256}, {3, 65536, 65536, 0}, {65536, 32768, 0, 0}, {2147483648L, 2, 0, 0},
                                     {4294967296L, 0, 0, 0}, {46341, 65536, 0, 0}, {1048576, 1048576, 1048576, 0}, {5, 1, 2147483648L, 4}, {98304, 7, 131072, 0}};
    for (int i = 0; i < 4 && kSizes[shape][i]; i++) { lists.push_back(Range{(size_t)kSizes[shape][i]}); size *= kSizes[shape][i]; }
    for (auto& l : lists) ptrs.push_back(&l);
  }
  // c is the combination of index k: its digits are in range and add up to k
  bool is(const std::vector<long>& c, long k) const {
    if (c.size() != lists.size()) return false;
    bool ok = true;
    long sum = 0;
    for (size_t i = 0; i < c.size(); i++) { ok = ok & (c[i] >= 0) & (c[i] < (long)lists[i].n); sum = sum * (long)lists[i].n + c[i]; }
    return ok & (sum == k);
  }
};
