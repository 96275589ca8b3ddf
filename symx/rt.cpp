// symx runtime: symbolic expressions, shadow memory, path exploration with z3.
#include <fcntl.h>
#include <malloc.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <z3.h>

#include <algorithm>
#include <ctime>
static double nowS();  // not <chrono>: a harness may replace those clocks
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <new>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

#include "symx.h"

typedef unsigned __int128 u128;
typedef uint64_t u64;

// ------------------------------------------------------------------ expressions
enum Kind : uint8_t { K_CONST, K_VAR, K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM, K_SHL, K_LSHR, K_ASHR,
  K_AND, K_OR, K_XOR, K_NOT, K_EQ, K_ULT, K_ULE, K_SLT, K_SLE, K_ITE, K_CONCAT, K_EXTRACT, K_ZEXT, K_SEXT };
enum { OP_ADD = 1, OP_SUB, OP_MUL, OP_UDIV, OP_SDIV, OP_UREM, OP_SREM, OP_SHL, OP_LSHR, OP_ASHR, OP_AND, OP_OR, OP_XOR,
  OP_UMAX, OP_UMIN, OP_SMAX, OP_SMIN, OP_UADDSAT, OP_USUBSAT };

struct Expr {
  uint8_t k; uint16_t w; uint32_t id; u64 hash;  // structural hash: identical in every run
  u128 c;            // const value / var index / extract low bit
  const Expr* a[3];
};
typedef const Expr* E;

static inline u128 mask(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }

struct Arena {
  char* cur = nullptr; char* end = nullptr;
  void* get(size_t n) {
    if (cur + n > end) {
      size_t sz = 1 << 20;
      cur = (char*)mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
      end = cur + sz;
    }
    void* p = cur; cur += (n + 15) & ~(size_t)15; return p;
  }
};
static Arena gArena;
static std::vector<Expr*>* gTable;
static size_t gCount = 0;

static E mk(uint8_t k, unsigned w, u128 c, E a = nullptr, E b = nullptr, E d = nullptr) {
  if (!gTable) gTable = new std::vector<Expr*>(1 << 12, nullptr);
  u64 h = k * 0x9E3779B97F4A7C15ull ^ w * 0xC2B2AE3D27D4EB4Full ^ (u64)c * 0x165667B19E3779F9ull ^ (u64)(c >> 64) * 31;
  h ^= (a ? a->hash + 1 : 0) * 0xff51afd7ed558ccdull; h = (h << 13) | (h >> 51);
  h ^= (b ? b->hash + 1 : 0) * 0xc4ceb9fe1a85ec53ull; h = (h << 17) | (h >> 47);
  h ^= (d ? d->hash + 1 : 0) * 0x94d049bb133111ebull; h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32;
  u64 hh = h;
  auto& t = *gTable;
  size_t m = t.size() - 1, i = hh & m;
  while (t[i]) {
    Expr* e = t[i];
    if (e->hash == hh && e->k == k && e->w == w && e->c == c && e->a[0] == a && e->a[1] == b && e->a[2] == d) return e;
    i = (i + 1) & m;
  }
  Expr* e = (Expr*)gArena.get(sizeof(Expr));
  e->k = k; e->w = w; e->id = (uint32_t)gCount++; e->hash = hh; e->c = c; e->a[0] = a; e->a[1] = b; e->a[2] = d;
  t[i] = e;
  if (gCount * 2 > t.size()) {
    std::vector<Expr*> n(t.size() * 2, nullptr);
    size_t mm = n.size() - 1;
    for (Expr* x : t) if (x) { size_t j = x->hash & mm; while (n[j]) j = (j + 1) & mm; n[j] = x; }
    t.swap(n);
  }
  return e;
}
static inline E C(unsigned w, u128 v) { return mk(K_CONST, w, v & mask(w)); }
static inline bool isC(E e) { return e->k == K_CONST; }
static inline bool isC(E e, u128 v) { return e->k == K_CONST && e->c == (v & mask(e->w)); }
static inline __int128 sx(u128 v, unsigned w) { if (w < 128 && (v >> (w - 1)) & 1) v |= ~mask(w); return (__int128)v; }
static E Var(unsigned idx, unsigned w) { return mk(K_VAR, w, idx); }
static E Not(E a);
static E And1(E a, E b);
static E Or1(E a, E b);
static E Ite(E c, E a, E b);
static E Eq(E a, E b);
static E Extract(E e, unsigned hi, unsigned lo);
static E Concat(E hi, E lo);
static E Zext(E e, unsigned w);
static E Sext(E e, unsigned w);
static E Bin(uint8_t k, E a, E b);
static E boolOf(E e);
static u128 ubOf(E e);
static E Lt(uint8_t k, E a, E b);

// ite-tree with constant leaves (bounded size)?
static int constLeaves(E e, int budget) {
  if (e->k == K_CONST) return 1;
  if (e->k != K_ITE) return 1000;
  int l = constLeaves(e->a[1], budget); if (l > budget) return 1000;
  int r = constLeaves(e->a[2], budget - l); return l + r;
}
static bool pushable(E e) { return e->k == K_ITE && constLeaves(e, 8) <= 8; }
template <class F> static E push(E e, F f) {
  if (e->k == K_CONST) return f(e);
  return Ite(e->a[0], push(e->a[1], f), push(e->a[2], f));
}

static E Not(E a) {
  if (isC(a)) return C(1, !a->c);
  if (a->k == K_NOT) return a->a[0];
  return mk(K_NOT, 1, 0, a);
}
static E And1(E a, E b) {
  if (isC(a)) return a->c ? b : a;
  if (isC(b)) return b->c ? a : b;
  if (a == b) return a;
  if (Not(a) == b) return C(1, 0);
  if (a->hash > b->hash) std::swap(a, b);
  // absorption
  if (b->k == K_AND && (b->a[0] == a || b->a[1] == a)) return b;
  if (a->k == K_AND && (a->a[0] == b || a->a[1] == b)) return a;
  if (b->k == K_OR && (b->a[0] == a || b->a[1] == a)) return a;
  if (a->k == K_OR && (a->a[0] == b || a->a[1] == b)) return b;
  return mk(K_AND, 1, 0, a, b);
}
static E Or1(E a, E b) {
  if (isC(a)) return a->c ? a : b;
  if (isC(b)) return b->c ? b : a;
  if (a == b) return a;
  if (Not(a) == b) return C(1, 1);
  if (a->hash > b->hash) std::swap(a, b);
  if (b->k == K_OR && (b->a[0] == a || b->a[1] == a)) return b;
  if (a->k == K_OR && (a->a[0] == b || a->a[1] == b)) return a;
  if (b->k == K_AND && (b->a[0] == a || b->a[1] == a)) return a;
  if (a->k == K_AND && (a->a[0] == b || a->a[1] == b)) return b;
  return mk(K_OR, 1, 0, a, b);
}
static E Ite(E c, E a, E b) {
  if (isC(c)) return c->c ? a : b;
  if (a == b) return a;
  if (c->k == K_NOT) return Ite(c->a[0], b, a);
  if (a->w == 1) {
    if (isC(a)) return a->c ? Or1(c, b) : And1(Not(c), b);
    if (isC(b)) return b->c ? Or1(Not(c), a) : And1(c, a);
    if (a == c) return Or1(c, b);
    if (b == c) return And1(c, a);
  }
  if (a->k == K_ITE && a->a[0] == c) a = a->a[1];
  if (b->k == K_ITE && b->a[0] == c) b = b->a[2];
  if (a == b) return a;
  return mk(K_ITE, a->w, 0, c, a, b);
}
static E Eq(E a, E b) {
  if (a == b) return C(1, 1);
  if (isC(a)) std::swap(a, b);
  if (isC(a)) return C(1, a->c == b->c);
  if (a->w == 1) {
    if (isC(b)) return b->c ? a : Not(a);
    if (Not(a) == b) return C(1, 0);
  }
  if (isC(b)) {
    if (a->k == K_ZEXT) {
      unsigned iw = a->a[0]->w;
      if (b->c & ~mask(iw)) return C(1, 0);
      return Eq(a->a[0], C(iw, b->c));
    }
    if (a->k == K_SEXT) {
      unsigned iw = a->a[0]->w;
      if (((u128)sx(b->c & mask(iw), iw) & mask(a->w)) != b->c) return C(1, 0);
      return Eq(a->a[0], C(iw, b->c));
    }
    if (a->k == K_ADD && isC(a->a[1])) return Eq(a->a[0], C(a->w, b->c - a->a[1]->c));
    if (a->k == K_SUB && isC(a->a[0])) return Eq(a->a[1], C(a->w, a->a[0]->c - b->c));
    if (a->k == K_XOR && isC(a->a[1])) return Eq(a->a[0], C(a->w, b->c ^ a->a[1]->c));
    if (a->k == K_CONCAT) {
      unsigned lw = a->a[1]->w;
      return And1(Eq(a->a[0], C(a->a[0]->w, b->c >> lw)), Eq(a->a[1], C(lw, b->c)));
    }
    if (pushable(a)) return push(a, [&](E x) { return Eq(x, b); });
  } else {
    if (a->k == K_ZEXT && b->k == K_ZEXT && a->a[0]->w == b->a[0]->w) return Eq(a->a[0], b->a[0]);
    if (a->k == K_SEXT && b->k == K_SEXT && a->a[0]->w == b->a[0]->w) return Eq(a->a[0], b->a[0]);
    if (pushable(a) && constLeaves(a, 4) <= 4) return push(a, [&](E x) { return Eq(b, x); });
    if (pushable(b) && constLeaves(b, 4) <= 4) return push(b, [&](E x) { return Eq(a, x); });
  }
  if (a->hash > b->hash && !isC(b)) std::swap(a, b);
  return mk(K_EQ, 1, 0, a, b);
}
static E Lt(uint8_t k, E a, E b) {  // K_ULT, K_ULE, K_SLT, K_SLE
  unsigned w = a->w;
  if (isC(a) && isC(b)) {
    bool r = k == K_ULT ? a->c < b->c : k == K_ULE ? a->c <= b->c : k == K_SLT ? sx(a->c, w) < sx(b->c, w) : sx(a->c, w) <= sx(b->c, w);
    return C(1, r);
  }
  if (a == b) return C(1, k == K_ULE || k == K_SLE);
  if (w == 1) {
    if (k == K_ULT || k == K_SLT) { E x = k == K_ULT ? a : b, y = k == K_ULT ? b : a; return And1(Not(x), y); }
    E x = k == K_ULE ? a : b, y = k == K_ULE ? b : a; return Or1(Not(x), y);
  }
  if (isC(b) && pushable(a)) return push(a, [&](E x) { return Lt(k, x, b); });
  if (isC(a) && pushable(b)) return push(b, [&](E x) { return Lt(k, a, x); });
  if (k == K_ULT && isC(b, 0)) return C(1, 0);
  if (k == K_ULE && isC(a, 0)) return C(1, 1);
  if (k == K_ULT && isC(b, 1)) return Eq(a, C(w, 0));
  auto nonneg = [](E e) { return (e->k == K_CONST && !((e->c >> (e->w - 1)) & 1)) || e->k == K_ZEXT; };
  if ((k == K_SLT || k == K_SLE) && nonneg(a) && nonneg(b)) return Lt(k == K_SLT ? K_ULT : K_ULE, a, b);
  if ((k == K_SLT || k == K_SLE) && nonneg(a) && isC(b)) return C(1, 0);  // b negative
  if ((k == K_SLT || k == K_SLE) && nonneg(b) && isC(a)) return C(1, 1);
  if (k == K_ULT || k == K_ULE) {
    if (a->k == K_ZEXT && isC(b)) {
      unsigned iw = a->a[0]->w;
      if (b->c > mask(iw)) return C(1, 1);
      return Lt(k, a->a[0], C(iw, b->c));
    }
    if (b->k == K_ZEXT && isC(a)) {
      unsigned iw = b->a[0]->w;
      if (a->c > mask(iw)) return C(1, 0);
      return Lt(k, C(iw, a->c), b->a[0]);
    }
    if (a->k == K_ZEXT && b->k == K_ZEXT && a->a[0]->w == b->a[0]->w) return Lt(k, a->a[0], b->a[0]);
  }
  return mk(k, 1, 0, a, b);
}
static E Extract(E e, unsigned hi, unsigned lo) {
  unsigned w = hi - lo + 1;
  if (w == e->w) return e;
  if (isC(e)) return C(w, e->c >> lo);
  switch (e->k) {
    case K_EXTRACT: return Extract(e->a[0], (unsigned)e->c + hi, (unsigned)e->c + lo);
    case K_CONCAT: {
      unsigned lw = e->a[1]->w;
      if (hi < lw) return Extract(e->a[1], hi, lo);
      if (lo >= lw) return Extract(e->a[0], hi - lw, lo - lw);
      return Concat(Extract(e->a[0], hi - lw, 0), Extract(e->a[1], lw - 1, lo));
    }
    case K_ZEXT: {
      unsigned iw = e->a[0]->w;
      if (hi < iw) return Extract(e->a[0], hi, lo);
      if (lo >= iw) return C(w, 0);
      return Zext(Extract(e->a[0], iw - 1, lo), w);
    }
    case K_SEXT: {
      unsigned iw = e->a[0]->w;
      if (hi < iw) return Extract(e->a[0], hi, lo);
      if (lo == 0) return Sext(e->a[0], w);
      break;
    }
    case K_AND: case K_OR: case K_XOR:
      if (isC(e->a[1])) return Bin(e->k, Extract(e->a[0], hi, lo), Extract(e->a[1], hi, lo));
      break;
    case K_ADD: case K_SUB: case K_MUL:
      if (lo == 0) return Bin(e->k, Extract(e->a[0], hi, 0), Extract(e->a[1], hi, 0));
      break;
    case K_ITE:
      if (pushable(e)) return push(e, [&](E x) { return Extract(x, hi, lo); });
      break;
    default: break;
  }
  return mk(K_EXTRACT, w, lo, e);
}
static E Concat(E hi, E lo) {
  unsigned w = hi->w + lo->w;
  if (isC(hi) && isC(lo)) return C(w, (hi->c << lo->w) | lo->c);
  if (hi->k == K_EXTRACT && lo->k == K_EXTRACT && hi->a[0] == lo->a[0] && (unsigned)hi->c == (unsigned)lo->c + lo->w)
    return Extract(hi->a[0], (unsigned)hi->c + hi->w - 1, (unsigned)lo->c);
  if (isC(hi, 0)) return Zext(lo, w);
  if (hi->k == K_EXTRACT && lo->k == K_CONCAT && lo->a[0]->k == K_EXTRACT && hi->a[0] == lo->a[0]->a[0] && (unsigned)hi->c == (unsigned)lo->a[0]->c + lo->a[0]->w)
    return Concat(Concat(hi, lo->a[0]), lo->a[1]);
  if (hi->k == K_ITE && isC(lo) && pushable(hi)) return push(hi, [&](E x) { return Concat(x, lo); });
  if (lo->k == K_ITE && isC(hi) && pushable(lo)) return push(lo, [&](E x) { return Concat(hi, x); });
  if (hi->k == K_ITE && lo->k == K_ITE && hi->a[0] == lo->a[0] && pushable(hi) && pushable(lo))
    return Ite(hi->a[0], Concat(hi->a[1], lo->a[1]), Concat(hi->a[2], lo->a[2]));
  // top bits of an expression whose high part is a zero extension were simplified to 0 already
  return mk(K_CONCAT, w, 0, hi, lo);
}
static E Zext(E e, unsigned w) {
  if (e->w == w) return e;
  if (isC(e)) return C(w, e->c);
  if (e->w == 1) return Ite(e, C(w, 1), C(w, 0));
  if (e->k == K_ZEXT) return Zext(e->a[0], w);
  if (pushable(e)) return push(e, [&](E x) { return Zext(x, w); });
  return mk(K_ZEXT, w, 0, e);
}
static E Sext(E e, unsigned w) {
  if (e->w == w) return e;
  if (isC(e)) return C(w, (u128)sx(e->c, e->w));
  if (e->w == 1) return Ite(e, C(w, ~(u128)0), C(w, 0));
  if (e->k == K_ZEXT) return Zext(e->a[0], w);
  if (e->k == K_SEXT) return Sext(e->a[0], w);
  if (pushable(e)) return push(e, [&](E x) { return Sext(x, w); });
  return mk(K_SEXT, w, 0, e);
}
// The 1-bit expression of a word that is 0 or 1 (an if-then-else tree over 0/1), or null.
static E boolOf(E e) {
  if (e->w == 1) return e;
  if (isC(e, 0)) return C(1, 0);
  if (isC(e, 1)) return C(1, 1);
  if (e->k != K_ITE || constLeaves(e, 8) > 8) return nullptr;
  E a = boolOf(e->a[1]); if (!a) return nullptr;
  E b = boolOf(e->a[2]); if (!b) return nullptr;
  return Ite(e->a[0], a, b);
}
// An upper bound of the unsigned value.
static u128 ubOf(E e) {
  switch (e->k) {
    case K_CONST: return e->c;
    case K_ZEXT: return ubOf(e->a[0]);
    case K_ITE: if (constLeaves(e, 8) <= 8) { u128 x = ubOf(e->a[1]), y = ubOf(e->a[2]); return x > y ? x : y; } return mask(e->w);
    default: return mask(e->w);
  }
}
static E Bin(uint8_t k, E a, E b) {
  unsigned w = a->w;
  if (w > 1 && (k == K_AND || k == K_OR || k == K_XOR) && !(isC(a) && isC(b))) {
    E x = boolOf(a); E y = x ? boolOf(b) : nullptr;
    if (x && y) return Zext(k == K_AND ? And1(x, y) : k == K_OR ? Or1(x, y) : Not(Eq(x, y)), w);
  }
  if (w > 4 && (k == K_ADD) && !isC(a) && !isC(b)) {
    u128 u = ubOf(a), v = ubOf(b);
    if (u < mask(w) / 2 && v < mask(w) / 2) {
      unsigned n = 1; while ((u + v) >> n) n++;
      if (n < w) return Zext(Bin(K_ADD, Extract(a, n - 1, 0), Extract(b, n - 1, 0)), w);
    }
  }
  if (w == 1) {
    if (k == K_AND || k == K_MUL) return And1(a, b);
    if (k == K_OR) return Or1(a, b);
    if (k == K_XOR || k == K_ADD || k == K_SUB) {
      if (isC(a)) return a->c ? Not(b) : b;
      if (isC(b)) return b->c ? Not(a) : a;
      return Not(Eq(a, b));
    }
  }
  if (isC(a) && isC(b)) {
    u128 x = a->c, y = b->c, r = 0;
    switch (k) {
      case K_ADD: r = x + y; break; case K_SUB: r = x - y; break; case K_MUL: r = x * y; break;
      case K_UDIV: r = y ? x / y : mask(w); break; case K_UREM: r = y ? x % y : x; break;
      case K_SDIV: { __int128 p = sx(x, w), q = sx(y, w); r = q == 0 ? (p < 0 ? 1 : mask(w)) : q == -1 ? (u128)(-(u128)p) : (u128)(p / q); break; }
      case K_SREM: { __int128 p = sx(x, w), q = sx(y, w); r = q == 0 ? (u128)p : q == -1 ? 0 : (u128)(p % q); break; }
      case K_SHL: r = y >= w ? 0 : x << (unsigned)y; break; case K_LSHR: r = y >= w ? 0 : x >> (unsigned)y; break;
      case K_ASHR: r = (u128)(sx(x, w) >> (y >= w ? w - 1 : (unsigned)y)); break;
      case K_AND: r = x & y; break; case K_OR: r = x | y; break; case K_XOR: r = x ^ y; break;
    }
    return C(w, r);
  }
  bool comm = k == K_ADD || k == K_MUL || k == K_AND || k == K_OR || k == K_XOR;
  if (comm && isC(a)) std::swap(a, b);
  if (isC(b)) {
    u128 y = b->c;
    switch (k) {
      case K_ADD: if (!y) return a; if (a->k == K_ADD && isC(a->a[1])) return Bin(K_ADD, a->a[0], C(w, a->a[1]->c + y));
        if (a->k == K_SUB && isC(a->a[0])) return Bin(K_SUB, C(w, a->a[0]->c + y), a->a[1]); break;
      case K_SUB: return Bin(K_ADD, a, C(w, -y));
      case K_MUL: if (!y) return b; if (y == 1) return a;
        if (!(y & (y - 1))) { unsigned s = 0; while (!((y >> s) & 1)) s++; if (s < w) return Bin(K_SHL, a, C(w, s)); } break;
      case K_UDIV: if (y == 1) return a; break;
      case K_SDIV: if (y == 1 && w > 1) return a; break;
      case K_UREM: if (y == 1) return C(w, 0);
        if (y && !(y & (y - 1))) return Bin(K_AND, a, C(w, y - 1)); break;
      case K_SHL: if (!y) return a; if (y >= w) return C(w, 0); 
        if (a->k == K_CONCAT || a->k == K_ZEXT) return Concat(Extract(a, w - 1 - (unsigned)y, 0), C((unsigned)y, 0)); break;
      case K_LSHR: if (!y) return a; if (y >= w) return C(w, 0); return Zext(Extract(a, w - 1, (unsigned)y), w);
      case K_ASHR: if (!y) return a; if (y < w) return Sext(Extract(a, w - 1, (unsigned)y), w); break;
      case K_AND: if (!y) return b; if (y == mask(w)) return a;
        if (a->k == K_AND && isC(a->a[1])) return Bin(K_AND, a->a[0], C(w, a->a[1]->c & y));
        { unsigned n = 0; while (n < w && ((y >> n) & 1)) n++;
          if (n > 0 && n < w && !(y >> n)) return Zext(Extract(a, n - 1, 0), w);
          if (a->k == K_ZEXT && (y & mask(a->a[0]->w)) == mask(a->a[0]->w)) return a; }
        break;
      case K_OR: if (!y) return a; if (y == mask(w)) return b; break;
      case K_XOR: if (!y) return a; if (a->k == K_XOR && isC(a->a[1])) return Bin(K_XOR, a->a[0], C(w, a->a[1]->c ^ y)); break;
    }
    if (pushable(a)) return push(a, [&](E x) { return Bin(k, x, b); });
  } else if (isC(a)) {
    if ((k == K_SHL || k == K_LSHR || k == K_UDIV || k == K_UREM) && a->c == 0 && (k == K_SHL || k == K_LSHR)) return a;
    if (pushable(b)) return push(b, [&](E x) { return Bin(k, a, x); });
  }
  if (a == b) {
    if (k == K_SUB || k == K_XOR) return C(w, 0);
    if (k == K_AND || k == K_OR) return a;
  }
  if (k == K_OR || k == K_ADD || k == K_XOR) {
    // zext(lo) | (x << lw)  -> concat
    auto tryc = [&](E lo, E hi) -> E {
      if (lo->k == K_ZEXT && hi->k == K_CONCAT && isC(hi->a[1], 0) && hi->a[1]->w >= lo->a[0]->w) return Concat(hi->a[0], Zext(lo->a[0], hi->a[1]->w));
      return nullptr;
    };
    if (E r = tryc(a, b)) return r;
    if (E r = tryc(b, a)) return r;
  }
  if (k == K_ADD && a->k == K_ADD && isC(a->a[1])) return Bin(K_ADD, Bin(K_ADD, a->a[0], b), a->a[1]);
  if (k == K_ADD && b->k == K_ADD && isC(b->a[1])) return Bin(K_ADD, Bin(K_ADD, a, b->a[0]), b->a[1]);
  if (k == K_SUB && a->k == K_ADD && isC(a->a[1])) return Bin(K_ADD, Bin(K_SUB, a->a[0], b), a->a[1]);
  if (k == K_SUB && b->k == K_ADD && isC(b->a[1])) return Bin(K_ADD, Bin(K_SUB, a, b->a[0]), C(w, -b->a[1]->c));
  if (comm && a->hash > b->hash) std::swap(a, b);
  return mk(k, w, 0, a, b);
}

// ------------------------------------------------------------------ shared statistics
struct Shared {
  volatile u64 paths, queries, sat, unsat, unknown, solver_us, branches, implied, concretizations, asserts_sym, asserts_conc,
      divergences, conc_sites_overflow, max_depth, staleShadow, extConc, assumeCut, maxbranchCut, cacheHits, solved, inconsistent;
  volatile u64 reach[64];
  volatile u64 fnhit[65536 / 64 + 1];
  volatile unsigned forkSites[1 << 16];
};
static Shared* gS;
static Shared gDummy;
static inline void inc(volatile u64& x, u64 n = 1) { __atomic_fetch_add(&x, n, __ATOMIC_RELAXED); }

// ------------------------------------------------------------------ run state
struct Item {
  u64 bound = 0;               // trace positions below bound are the fixed prefix
  u64 prefixHash = 0;
  std::vector<u64> excl;       // excluded values for the concretization at position `bound`
  std::vector<u64> vals;       // inputs
};
static bool gActive = false;   // inside a symbolic run
static Item gItem;
static std::vector<unsigned> gVarW;
static std::vector<u64>* gVals;
static u64 gTrace = 0, gHash = 1469598103934665603ull;
static u64 gMaxBranches = 20000;
static std::unordered_set<const Expr*>* gPC;
static int gPipe = -1;
static Z3_context gZ = nullptr;
static Z3_solver gSolver = nullptr, gSolver2 = nullptr;
static std::vector<Z3_ast>* gMemo;
static unsigned gQueryRlimit = 200000000;  // resource limit per query (deterministic; no timer threads)
static std::vector<std::string>* gReachNames;

extern "C" {
E __symx_args[64]; E __symx_ret[64]; void* __symx_byval[64]; void* __symx_callee; void* __symx_retfrom;
}

static void initZ3() {
  if (gZ) return;
  Z3_config cfg = Z3_mk_config();
  Z3_set_param_value(cfg, "model", "true");
  gZ = Z3_mk_context(cfg);
  Z3_del_config(cfg);
  const char* lg = getenv("SYMX_LOGIC");
  gSolver = lg && !strcmp(lg, "simple") ? Z3_mk_simple_solver(gZ) : Z3_mk_solver_for_logic(gZ, Z3_mk_string_symbol(gZ, lg ? lg : "QF_BV"));
  Z3_solver_inc_ref(gZ, gSolver);
  Z3_params p = Z3_mk_params(gZ); Z3_params_inc_ref(gZ, p);
  Z3_params_set_uint(gZ, p, Z3_mk_string_symbol(gZ, "rlimit"), gQueryRlimit);
  Z3_solver_set_params(gZ, gSolver, p);
  gSolver2 = lg && !strcmp(lg, "simple") ? Z3_mk_simple_solver(gZ) : Z3_mk_solver_for_logic(gZ, Z3_mk_string_symbol(gZ, lg ? lg : "QF_BV"));
  Z3_solver_inc_ref(gZ, gSolver2); Z3_solver_set_params(gZ, gSolver2, p);
  gMemo = new std::vector<Z3_ast>();
}
static Z3_ast toZ(E e);
static Z3_ast toBV(E e) {
  Z3_ast x = toZ(e);
  if (e->w != 1) return x;
  Z3_sort s = Z3_mk_bv_sort(gZ, 1);
  return Z3_mk_ite(gZ, x, Z3_mk_unsigned_int64(gZ, 1, s), Z3_mk_unsigned_int64(gZ, 0, s));
}
static Z3_ast toZ1(E e) {
  switch (e->k) {
    case K_CONST: {
      if (e->w == 1) return e->c ? Z3_mk_true(gZ) : Z3_mk_false(gZ);
      if (e->w <= 64) return Z3_mk_unsigned_int64(gZ, (u64)e->c, Z3_mk_bv_sort(gZ, e->w));
      return Z3_mk_concat(gZ, Z3_mk_unsigned_int64(gZ, (u64)(e->c >> 64), Z3_mk_bv_sort(gZ, e->w - 64)), Z3_mk_unsigned_int64(gZ, (u64)e->c, Z3_mk_bv_sort(gZ, 64)));
    }
    case K_VAR: {
      char n[32]; snprintf(n, sizeof n, "v%u", (unsigned)e->c);
      return Z3_mk_const(gZ, Z3_mk_string_symbol(gZ, n), e->w == 1 ? Z3_mk_bool_sort(gZ) : Z3_mk_bv_sort(gZ, e->w));
    }
    case K_NOT: return Z3_mk_not(gZ, toZ(e->a[0]));
    case K_EQ: return Z3_mk_eq(gZ, toZ(e->a[0]), toZ(e->a[1]));
    case K_ITE: return Z3_mk_ite(gZ, toZ(e->a[0]), toZ(e->a[1]), toZ(e->a[2]));
    case K_AND: if (e->w == 1) { Z3_ast x[2] = {toZ(e->a[0]), toZ(e->a[1])}; return Z3_mk_and(gZ, 2, x); } return Z3_mk_bvand(gZ, toZ(e->a[0]), toZ(e->a[1]));
    case K_OR: if (e->w == 1) { Z3_ast x[2] = {toZ(e->a[0]), toZ(e->a[1])}; return Z3_mk_or(gZ, 2, x); } return Z3_mk_bvor(gZ, toZ(e->a[0]), toZ(e->a[1]));
    case K_CONCAT: return Z3_mk_concat(gZ, toBV(e->a[0]), toBV(e->a[1]));
    case K_EXTRACT: {
      Z3_ast x = Z3_mk_extract(gZ, (unsigned)e->c + e->w - 1, (unsigned)e->c, toBV(e->a[0]));
      if (e->w == 1) return Z3_mk_eq(gZ, x, Z3_mk_unsigned_int64(gZ, 1, Z3_mk_bv_sort(gZ, 1)));
      return x;
    }
    case K_ZEXT: return Z3_mk_zero_ext(gZ, e->w - e->a[0]->w, toBV(e->a[0]));
    case K_SEXT: return Z3_mk_sign_ext(gZ, e->w - e->a[0]->w, toBV(e->a[0]));
    default: break;
  }
  Z3_ast a = toBV(e->a[0]), b = toBV(e->a[1]), r = nullptr;
  switch (e->k) {
    case K_ADD: r = Z3_mk_bvadd(gZ, a, b); break; case K_SUB: r = Z3_mk_bvsub(gZ, a, b); break; case K_MUL: r = Z3_mk_bvmul(gZ, a, b); break;
    case K_UDIV: r = Z3_mk_bvudiv(gZ, a, b); break; case K_SDIV: r = Z3_mk_bvsdiv(gZ, a, b); break; case K_UREM: r = Z3_mk_bvurem(gZ, a, b); break;
    case K_SREM: r = Z3_mk_bvsrem(gZ, a, b); break; case K_SHL: r = Z3_mk_bvshl(gZ, a, b); break; case K_LSHR: r = Z3_mk_bvlshr(gZ, a, b); break;
    case K_ASHR: r = Z3_mk_bvashr(gZ, a, b); break; case K_XOR: r = Z3_mk_bvxor(gZ, a, b); break;
    case K_ULT: return Z3_mk_bvult(gZ, a, b); case K_ULE: return Z3_mk_bvule(gZ, a, b); case K_SLT: return Z3_mk_bvslt(gZ, a, b); case K_SLE: return Z3_mk_bvsle(gZ, a, b);
    default: abort();
  }
  if (e->w == 1) return Z3_mk_eq(gZ, r, Z3_mk_unsigned_int64(gZ, 1, Z3_mk_bv_sort(gZ, 1)));
  return r;
}
static Z3_ast toZ(E e) {
  if (e->id < gMemo->size() && (*gMemo)[e->id]) return (*gMemo)[e->id];
  // avoid deep recursion problems: kids first, iteratively
  std::vector<std::pair<E, int>> st; st.push_back({e, 0});
  while (!st.empty()) {
    E x = st.back().first;
    if (x->id < gMemo->size() && (*gMemo)[x->id]) { st.pop_back(); continue; }
    int& i = st.back().second;
    if (i < 3 && x->a[i]) { E k = x->a[i]; i++; if (!(k->id < gMemo->size() && (*gMemo)[k->id])) st.push_back({k, 0}); continue; }
    if (i < 3) { i++; continue; }
    Z3_ast z = toZ1(x);
    Z3_inc_ref(gZ, z);
    if (gMemo->size() <= x->id) gMemo->resize(std::max<size_t>(x->id + 1, gMemo->size() * 2), nullptr);
    (*gMemo)[x->id] = z;
    st.pop_back();
  }
  return (*gMemo)[e->id];
}
// Lazily asserted path constraint
static std::vector<E>* gPending;
static std::vector<E>* gPCList;
static void addPC(E c) {
  if (isC(c)) return;
  if (!gPC->insert(c).second) return;
  if (c->k == K_AND) { gPC->insert(c->a[0]); gPC->insert(c->a[1]); }
  if (c->k == K_NOT && c->a[0]->k == K_OR) { gPC->insert(Not(c->a[0]->a[0])); gPC->insert(Not(c->a[0]->a[1])); }
  gPending->push_back(c); gPCList->push_back(c);
}
static void flushPC() {
  initZ3();
  for (E c : *gPending) Z3_solver_assert(gZ, gSolver, toZ(c));
  gPending->clear();
}
// ------------------------------------------------------------------ queries
static u128 evalE(E e, const std::vector<u64>& vals, std::unordered_map<E, u128>& memo) {
  if (e->k == K_CONST) return e->c;
  if (e->k == K_VAR) return (u64)e->c < vals.size() ? vals[(u64)e->c] & mask(e->w) : 0;
  auto it = memo.find(e); if (it != memo.end()) return it->second;
  u128 r = 0;
  if (e->k == K_ITE) r = evalE(e->a[0], vals, memo) ? evalE(e->a[1], vals, memo) : evalE(e->a[2], vals, memo);
  else if (e->k == K_AND && e->w == 1) r = evalE(e->a[0], vals, memo) && evalE(e->a[1], vals, memo);
  else if (e->k == K_OR && e->w == 1) r = evalE(e->a[0], vals, memo) || evalE(e->a[1], vals, memo);
  else if (e->k == K_NOT) r = !evalE(e->a[0], vals, memo);
  else {
    u128 x = evalE(e->a[0], vals, memo); unsigned w = e->a[0]->w;
    u128 y = e->a[1] ? evalE(e->a[1], vals, memo) : 0;
    switch (e->k) {
      case K_EXTRACT: r = (x >> (unsigned)e->c) & mask(e->w); break;
      case K_ZEXT: r = x; break;
      case K_SEXT: r = (u128)sx(x, w) & mask(e->w); break;
      case K_CONCAT: r = (x << e->a[1]->w) | y; break;
      case K_EQ: r = x == y; break;
      case K_ULT: r = x < y; break; case K_ULE: r = x <= y; break;
      case K_SLT: r = sx(x, w) < sx(y, w); break; case K_SLE: r = sx(x, w) <= sx(y, w); break;
      default: { E k = Bin(e->k, C(w, x), C(w, y)); r = k->c; }
    }
  }
  memo[e] = r; return r;
}
// Every expression that decides something is evaluated on the run's own inputs and compared with
// the concrete value, so an error in the instrumentation or the simplifier cannot go unnoticed.
static std::unordered_map<E, u128>* gSelf;
static bool selfOK(E e, u128 v, unsigned site) {
  if (!gSelf) gSelf = new std::unordered_map<E, u128>();
  if (evalE(e, *gVals, *gSelf) == (v & mask(e->w))) return true;
  inc(gS->inconsistent);
  if (getenv("SYMX_DEBUG")) fprintf(stderr, "symx: inconsistent at site %u (expr kind %d width %d)\n", site, e->k, e->w);
  return false;
}
// Only the constraints that share variables with the query (transitively) are given to the solver;
// answers are cached across processes under the structural hash of that set.
struct VS { u64 w[16]; };  // variables of an expression; more than 1024 variables: treated as "all"
static std::vector<VS*>* gVS;
static const VS* varsOf(E e) {
  if (!gVS) gVS = new std::vector<VS*>();
  if (e->id < gVS->size() && (*gVS)[e->id]) return (*gVS)[e->id];
  std::vector<std::pair<E, int>> st; st.push_back({e, 0});
  while (!st.empty()) {
    E x = st.back().first; int& i = st.back().second;
    if (x->id < gVS->size() && (*gVS)[x->id]) { st.pop_back(); continue; }
    if (i < 3) { E k = x->a[i]; i++; if (k && !(k->id < gVS->size() && (*gVS)[k->id])) st.push_back({k, 0}); continue; }
    VS* v = (VS*)gArena.get(sizeof(VS)); memset(v, 0, sizeof *v);
    if (x->k == K_VAR) v->w[(x->c >> 6) & 15] |= 1ull << (x->c & 63);
    for (int j = 0; j < 3; j++) if (x->a[j]) { VS* y = (*gVS)[x->a[j]->id]; for (int q = 0; q < 16; q++) v->w[q] |= y->w[q]; }
    if (gVS->size() <= x->id) gVS->resize(std::max<size_t>(x->id + 1, gVS->size() * 2), nullptr);
    (*gVS)[x->id] = v;
    st.pop_back();
  }
  return (*gVS)[e->id];
}
struct CacheEnt { volatile u64 key; volatile uint32_t res; volatile uint32_t off; };
static const u64 kCacheN = 1 << 20, kModelN = 1 << 24;
struct Cache { CacheEnt e[kCacheN]; volatile u64 modelOff; volatile u64 models[kModelN]; };
static Cache* gCache;
static CacheEnt* cacheFind(u64 key, bool claim) {
  for (u64 i = 0; i < 16; i++) {
    CacheEnt* c = &gCache->e[(key + i * i) & (kCacheN - 1)];
    u64 k = c->key;
    if (k == key) return c;
    if (k == 0) {
      if (!claim) return nullptr;
      if (__atomic_compare_exchange_n(&c->key, &k, key, false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) return c;
      if (k == key) return c;
    }
  }
  return nullptr;
}
// gPCList: everything assumed so far on this path
static bool gNoCache = false;
static int query(E extra, std::vector<u64>* model, const std::vector<E>* more = nullptr) {
  if (isC(extra, 0)) return 0;
  const double t0 = nowS();
  std::vector<E> q; q.push_back(extra); if (more) for (E m : *more) q.push_back(m);
  VS need; memset(&need, 0, sizeof need);
  u64 key = 0x1234567;
  for (E x : q) { const VS* v = varsOf(x); for (int j = 0; j < 16; j++) need.w[j] |= v->w[j]; key += x->hash * 0x9E3779B97F4A7C15ull; }
  key ^= key >> 31; key *= 0xbf58476d1ce4e5b9ull;
  std::vector<char> in(gPCList->size(), 0); size_t nin = 0;
  for (bool ch = true; ch;) {
    ch = false;
    for (size_t i = 0; i < in.size(); i++) if (!in[i]) {
      const VS* v = varsOf((*gPCList)[i]); bool hit = false;
      for (int j = 0; j < 16 && !hit; j++) hit = v->w[j] & need.w[j];
      if (hit) { in[i] = 1; nin++; ch = true; for (int j = 0; j < 16; j++) need.w[j] |= v->w[j]; }
    }
  }
  std::vector<E> slice;
  for (size_t i = 0; i < in.size(); i++) if (in[i]) { slice.push_back((*gPCList)[i]); key += (*gPCList)[i]->hash * 0xc2b2ae3d27d4eb4full; }
  if (!key) key = 1;
  inc(gS->queries);
  if (!gNoCache) if (CacheEnt* c = cacheFind(key, false)) {
    uint32_t r = __atomic_load_n(&c->res, __ATOMIC_ACQUIRE);
    if (r == 1) { inc(gS->unsat); inc(gS->cacheHits); return 0; }
    if (r == 2) {
      std::vector<u64> m = *gVals; m.resize(gVarW.size(), 0);
      u64 o = c->off, n = gCache->models[o];
      for (u64 i = 0; i < n; i++) { u64 ix = gCache->models[o + 1 + 2 * i]; if (ix < m.size()) m[ix] = gCache->models[o + 2 + 2 * i]; }
      std::unordered_map<E, u128> memo; bool ok = true;
      for (E x : q) ok = ok && evalE(x, m, memo);
      for (E x : slice) ok = ok && evalE(x, m, memo);
      if (ok) { inc(gS->sat); inc(gS->cacheHits); if (model) *model = m; return 1; }
    }
  }
  bool whole = nin * 10 >= in.size() * 6 && in.size() > 8;
  initZ3();
  Z3_solver S = whole ? gSolver : gSolver2;
  if (whole) flushPC();
  Z3_solver_push(gZ, S);
  if (!whole) for (E x : slice) Z3_solver_assert(gZ, S, toZ(x));
  for (E x : q) Z3_solver_assert(gZ, S, toZ(x));
  if (getenv("SYMX_DUMP")) fprintf(stderr, "%s\n(check-sat)\n", Z3_solver_to_string(gZ, S));
  Z3_lbool r = Z3_solver_check(gZ, S);
  std::vector<u64> m;
  if (r == Z3_L_TRUE) {
    inc(gS->sat);
    Z3_model zm = Z3_solver_get_model(gZ, S); Z3_model_inc_ref(gZ, zm);
    m = *gVals; m.resize(gVarW.size(), 0);
    std::vector<u64> rec;
    for (unsigned i = 0; i < gVarW.size(); i++) {
      if (!whole && !((need.w[(i >> 6) & 15] >> (i & 63)) & 1)) continue;
      Z3_ast v = toZ(Var(i, gVarW[i])), out = nullptr;
      if (!Z3_model_eval(gZ, zm, v, false, &out) || !out) continue;
      bool got = false;
      if (gVarW[i] == 1) {
        Z3_lbool b = Z3_get_bool_value(gZ, out);
        if (b == Z3_L_TRUE) m[i] = 1, got = true; else if (b == Z3_L_FALSE) m[i] = 0, got = true;
      } else {
        uint64_t u; if (Z3_get_ast_kind(gZ, out) == Z3_NUMERAL_AST && Z3_get_numeral_uint64(gZ, out, &u)) m[i] = u, got = true;
      }
      if (got && ((need.w[(i >> 6) & 15] >> (i & 63)) & 1)) { rec.push_back(i); rec.push_back(m[i]); }
    }
    Z3_model_dec_ref(gZ, zm);
    if (model) *model = m;
    u64 o = __atomic_fetch_add(&gCache->modelOff, rec.size() + 1, __ATOMIC_RELAXED);
    if (o + rec.size() + 1 < kModelN) {
      gCache->models[o] = rec.size() / 2;
      for (size_t i = 0; i < rec.size(); i++) gCache->models[o + 1 + i] = rec[i];
      if (CacheEnt* c = cacheFind(key, true)) { c->off = (uint32_t)o; __atomic_store_n(&c->res, 2, __ATOMIC_RELEASE); }
    }
  } else if (r == Z3_L_FALSE) {
    inc(gS->unsat);
    if (CacheEnt* c = cacheFind(key, true)) __atomic_store_n(&c->res, 1, __ATOMIC_RELEASE);
  } else inc(gS->unknown);
  Z3_solver_pop(gZ, S, 1);
  inc(gS->solved);
  inc(gS->solver_us, (unsigned long long)((nowS() - t0) * 1e6));
  return r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
}
static void putAll(const void* p, size_t n) { const char* c = (const char*)p; while (n) { ssize_t k = write(gPipe, c, n); if (k <= 0) _exit(9); c += k; n -= k; } }
static void msg(char type, const std::string& body) {
  uint32_t n = body.size(); std::string s; s += type; s.append((char*)&n, 4); s += body; putAll(s.data(), s.size());
}
static void app(std::string& s, u64 v) { s.append((char*)&v, 8); }
static void appv(std::string& s, const std::vector<u64>& v) { app(s, v.size()); for (u64 x : v) app(s, x); }
static void emitItem(u64 bound, u64 hash, const std::vector<u64>& excl, const std::vector<u64>& vals) {
  std::string s; app(s, bound); app(s, hash); appv(s, excl); appv(s, vals); msg('N', s);
}
static u64 hmix(u64 h, u64 x) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0x100000001b3ull; return h; }
static void flushAsserts();
static void finishRun() { flushAsserts(); gActive = false; if (gTrace > gS->max_depth) gS->max_depth = gTrace; inc(gS->paths); msg('E', ""); _exit(0); }
static bool gExploreAll = true;
static void step(unsigned site, u64 v) {
  gHash = hmix(gHash, ((u64)site << 1) ^ v * 0x9E3779B97F4A7C15ull);
  gTrace++;
  if (gTrace == gItem.bound && gHash != gItem.prefixHash) { inc(gS->divergences); gActive = false; msg('D', ""); _exit(0); }
  if (gTrace > gMaxBranches) { inc(gS->maxbranchCut); finishRun(); }
}
static u64 hpeek(unsigned site, u64 v) { return hmix(gHash, ((u64)site << 1) ^ v * 0x9E3779B97F4A7C15ull); }

// Assertions wait here and are decided together before anything narrows the path condition.
static std::vector<std::pair<E, const char*>>* gAsserts;
static void violation(const char* m, const std::vector<u64>& vals) {
  std::string s; appv(s, vals); s += m; msg('V', s);
}
static void flushAsserts() {
  if (!gAsserts || gAsserts->empty()) return;
  std::vector<std::pair<E, const char*>> as; as.swap(*gAsserts);
  E all = C(1, 1);
  for (auto& a : as) all = And1(all, a.first);
  if (!isC(all, 1)) {
    std::vector<u64> model;
    int r = query(Not(all), &model);
    if (r == 1) {
      // name the first assertion the model breaks
      const char* m = as[0].second;
      if (as.size() > 1) for (auto& a : as) { std::vector<u64> m2; if (query(Not(a.first), &m2) == 1) { m = a.second; model = m2; break; } }
      violation(m, model); gActive = false; inc(gS->paths); msg('E', ""); _exit(0);
    }
  }
}
static void branchOn(E c, bool v, unsigned site) {
  if (!c || !gActive) return;
  if (!selfOK(c, v, site)) return;
  E cond = v ? c : Not(c);
  if (isC(cond)) return;
  inc(gS->branches);
  if (gPC->count(cond)) { inc(gS->implied); return; }
  if (gTrace >= gItem.bound) {
    std::vector<u64> m;
    int r = query(Not(cond), &m);
    if (r == 1) { flushAsserts(); __atomic_fetch_add(&gS->forkSites[site & 0xffff], 1, __ATOMIC_RELAXED); emitItem(gTrace + 1, hpeek(site, !v), {}, m); }
  }
  step(site, v);
  addPC(cond);
}
static void concretize(E e, u64 v, unsigned site) {
  if (!e || !gActive) return;
  if (!selfOK(e, v, site)) return;
  E cond = Eq(e, C(e->w, v));
  if (isC(cond)) return;
  if (gPC->count(cond)) return;
  inc(gS->concretizations);
  if (gTrace >= gItem.bound) {
    std::vector<u64> ex;
    if (gTrace == gItem.bound) ex = gItem.excl;
    std::vector<E> more; for (u64 x : ex) more.push_back(Not(Eq(e, C(e->w, x))));
    std::vector<u64> m;
    int r = query(Not(cond), &m, &more);
    if (r == 1) { flushAsserts(); __atomic_fetch_add(&gS->forkSites[site & 0xffff], 1, __ATOMIC_RELAXED); ex.push_back(v); emitItem(gTrace, gHash, ex, m); }
  }
  step(site, v);
  addPC(cond);
}
// An item whose bound equals a concretization position carries the hash of the prefix up to it.

// ------------------------------------------------------------------ shadow memory
struct Page { E e[4096]; uint8_t v[4096]; unsigned n = 0; };
static std::unordered_map<u64, Page*>* gPages;
static uint8_t gBloom[1 << 16];
static u64 gLastPg = ~0ull; static Page* gLast = nullptr;
static inline Page* page(u64 pg, bool create) {
  if (!gBloom[pg & 0xffff] && !create) return nullptr;
  if (pg == gLastPg && gLast) return gLast;
  if (!gPages) gPages = new std::unordered_map<u64, Page*>();
  auto it = gPages->find(pg);
  if (it == gPages->end()) {
    if (!create) return nullptr;
    Page* p = (Page*)mmap(nullptr, sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    (*gPages)[pg] = p; gBloom[pg & 0xffff] = 1; gLastPg = pg; gLast = p; return p;
  }
  gLastPg = pg; gLast = it->second; return it->second;
}
static inline E getByte(u64 a) {
  Page* p = page(a >> 12, false);
  if (!p) return nullptr;
  E e = p->e[a & 4095];
  if (!e) return nullptr;
  if (*(volatile uint8_t*)a != p->v[a & 4095]) { inc(gS->staleShadow); p->e[a & 4095] = nullptr; return nullptr; }
  return e;
}
static inline void setByte(u64 a, E e) {
  if (e && isC(e)) e = nullptr;
  Page* p = page(a >> 12, e != nullptr);
  if (!p) return;
  p->e[a & 4095] = e;
  if (e) p->v[a & 4095] = *(volatile uint8_t*)a;
}

extern "C" {
void __symx_cover(unsigned n) {
  static uint8_t* m = nullptr;
  if (!m) {
    const char* f = getenv("SYMX_COVER");
    int fd = f ? open(f, O_RDWR | O_CREAT, 0644) : -1;
    if (fd < 0) return;
    if (ftruncate(fd, 1 << 20)) return;
    m = (uint8_t*)mmap(nullptr, 1 << 20, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  }
  if (n < 1 << 20) m[n] = 1;
}
bool __symx_enter(void* self, unsigned id) {
  if (gS && id < 65536) gS->fnhit[id / 64] |= 1ull << (id % 64);
  if (__symx_callee == self) { __symx_callee = nullptr; return true; }
  return false;
}
static inline E orC(E e, unsigned w, u128 v) { return e ? e : C(w, v); }
static E doBin(unsigned op, unsigned w, E a, E b) {
  switch (op) {
    case OP_ADD: return Bin(K_ADD, a, b); case OP_SUB: return Bin(K_SUB, a, b); case OP_MUL: return Bin(K_MUL, a, b);
    case OP_UDIV: return Bin(K_UDIV, a, b); case OP_SDIV: return Bin(K_SDIV, a, b); case OP_UREM: return Bin(K_UREM, a, b); case OP_SREM: return Bin(K_SREM, a, b);
    case OP_SHL: return Bin(K_SHL, a, b); case OP_LSHR: return Bin(K_LSHR, a, b); case OP_ASHR: return Bin(K_ASHR, a, b);
    case OP_AND: return Bin(K_AND, a, b); case OP_OR: return Bin(K_OR, a, b); case OP_XOR: return Bin(K_XOR, a, b);
    case OP_UMAX: return Ite(Lt(K_ULT, a, b), b, a); case OP_UMIN: return Ite(Lt(K_ULT, a, b), a, b);
    case OP_SMAX: return Ite(Lt(K_SLT, a, b), b, a); case OP_SMIN: return Ite(Lt(K_SLT, a, b), a, b);
    case OP_UADDSAT: { E s = Bin(K_ADD, a, b); return Ite(Lt(K_ULT, s, a), C(w, ~(u128)0), s); }
    case OP_USUBSAT: return Ite(Lt(K_ULT, a, b), C(w, 0), Bin(K_SUB, a, b));
  }
  abort();
}
static inline E nz(E e) { return e && isC(e) ? nullptr : e; }
E __symx_bin(unsigned op, unsigned w, E a, u64 va, E b, u64 vb) {
  if (!a && !b) return nullptr;
  return nz(doBin(op, w, orC(a, w, va), orC(b, w, vb)));
}
E __symx_binw(unsigned op, unsigned w, E a, u64 lo, u64 hi, E b, u64 blo, u64 bhi) {
  if (!a && !b) return nullptr;
  return nz(doBin(op, w, orC(a, w, ((u128)hi << 64) | lo), orC(b, w, ((u128)bhi << 64) | blo)));
}
static E doCmp(unsigned p, E a, E b) {
  switch (p) {  // llvm::CmpInst predicates
    case 32: return Eq(a, b); case 33: return Not(Eq(a, b));
    case 34: return Lt(K_ULT, b, a); case 35: return Lt(K_ULE, b, a); case 36: return Lt(K_ULT, a, b); case 37: return Lt(K_ULE, a, b);
    case 38: return Lt(K_SLT, b, a); case 39: return Lt(K_SLE, b, a); case 40: return Lt(K_SLT, a, b); case 41: return Lt(K_SLE, a, b);
  }
  abort();
}
E __symx_cmp(unsigned p, unsigned w, E a, u64 va, E b, u64 vb) {
  if (!a && !b) return nullptr;
  return nz(doCmp(p, orC(a, w, va), orC(b, w, vb)));
}
E __symx_cmpw(unsigned p, unsigned w, E a, u64 lo, u64 hi, E b, u64 blo, u64 bhi) {
  if (!a && !b) return nullptr;
  return nz(doCmp(p, orC(a, w, ((u128)hi << 64) | lo), orC(b, w, ((u128)bhi << 64) | blo)));
}
E __symx_cast(unsigned op, unsigned wf, unsigned wt, E a) {
  if (!a) return nullptr;
  return nz(op == 1 ? Extract(a, wt - 1, 0) : op == 2 ? Zext(a, wt) : Sext(a, wt));
}
E __symx_sel(E c, bool cv, unsigned w, E a, u64 va, E b, u64 vb) {
  if (!c) return cv ? a : b;
  return nz(Ite(c, orC(a, w, va), orC(b, w, vb)));
}
E __symx_selw(E c, bool cv, unsigned w, E a, u64 lo, u64 hi, E b, u64 blo, u64 bhi) {
  if (!c) return cv ? a : b;
  return nz(Ite(c, orC(a, w, ((u128)hi << 64) | lo), orC(b, w, ((u128)bhi << 64) | blo)));
}
E __symx_ovf(unsigned op, unsigned sg, unsigned w, E a, u64 va, E b, u64 vb) {
  if (!a && !b) return nullptr;
  unsigned ww = op == OP_MUL ? 2 * w : w + 1;
  E x = orC(a, w, va), y = orC(b, w, vb);
  E X = sg ? Sext(x, ww) : Zext(x, ww), Y = sg ? Sext(y, ww) : Zext(y, ww);
  E r = doBin(op, ww, X, Y);
  E n = Extract(r, w - 1, 0);
  return nz(Not(Eq(r, sg ? Sext(n, ww) : Zext(n, ww))));
}
E __symx_bswap(unsigned w, E a) {
  if (!a) return nullptr;
  E r = Extract(a, 7, 0);
  for (unsigned i = 8; i < w; i += 8) r = Concat(r, Extract(a, i + 7, i));
  return nz(r);
}
E __symx_abs(unsigned w, E a) { if (!a) return nullptr; return nz(Ite(Lt(K_SLT, a, C(w, 0)), Bin(K_SUB, C(w, 0), a), a)); }
void __symx_br(E c, bool v, unsigned site) { if (c) branchOn(c, v, site); }
void __symx_conc(E e, u64 v, unsigned site) { if (e) concretize(e, v, site); }
E __symx_load(void* p, u64 n) {
  u64 a = (u64)p;
  if (!gBloom[(a >> 12) & 0xffff] && !gBloom[((a + n - 1) >> 12) & 0xffff]) return nullptr;
  E b[16]; bool any = false;
  if (n > 16) return nullptr;
  for (u64 i = 0; i < n; i++) { b[i] = getByte(a + i); if (b[i]) any = true; }
  if (!any) return nullptr;
  E r = orC(b[0], 8, ((uint8_t*)p)[0]);
  for (u64 i = 1; i < n; i++) r = Concat(orC(b[i], 8, ((uint8_t*)p)[i]), r);
  return nz(r);
}
void __symx_clear(void* p, u64 n) {
  u64 a = (u64)p, end = a + n;
  while (a < end) {
    u64 pg = a >> 12, pe = std::min(end, (pg + 1) << 12);
    if (gBloom[pg & 0xffff]) if (Page* q = page(pg, false)) memset(&q->e[a & 4095], 0, (pe - a) * sizeof(E));
    a = pe;
  }
}
void __symx_store(void* p, E e, u64 n) {
  if (!e || isC(e)) { __symx_clear(p, n); return; }
  for (u64 i = 0; i < n; i++) setByte((u64)p + i, Extract(e, 8 * i + 7, 8 * i));
}
static bool anyShadow(u64 a, u64 n) {
  u64 end = a + n;
  for (u64 pg = a >> 12; pg <= (end - 1) >> 12; pg++) if (gBloom[pg & 0xffff] && page(pg, false)) return true;
  return false;
}
void __symx_memcpy(void* d, void* s, u64 n) {
  if (!n) return;
  if (!anyShadow((u64)s, n)) { __symx_clear(d, n); return; }
  std::vector<E> t(n);
  for (u64 i = 0; i < n; i++) t[i] = getByte((u64)s + i);
  // destination bytes will become the source bytes
  for (u64 i = 0; i < n; i++) {
    u64 a = (u64)d + i; E e = t[i];
    Page* p = page(a >> 12, e != nullptr);
    if (!p) continue;
    p->e[a & 4095] = e; if (e) p->v[a & 4095] = ((uint8_t*)s)[i];
  }
}
void __symx_memset(void* d, E v, u64 n) {
  if (!v) { __symx_clear(d, n); return; }
  for (u64 i = 0; i < n; i++) setByte((u64)d + i, v);
}
void __symx_copyshadow(void* d, void* s, u64 n) { if (s) __symx_memcpy(d, s, n); else __symx_clear(d, n); }
void __symx_concmem(void* p, u64 n, unsigned site) {
  if (!n || !anyShadow((u64)p, n)) return;
  for (u64 i = 0; i < n; i++) if (E e = getByte((u64)p + i)) concretize(e, ((uint8_t*)p)[i], site);
}
void __symx_extptr(void* p, unsigned site) {
  // pointer handed to code that is not instrumented: concretize what it may read nearby
  if ((u64)p < 65536) return;
  u64 n = 32;
  if (!anyShadow((u64)p, n)) return;
  for (u64 i = 0; i < n; i++) if (E e = getByte((u64)p + i)) { inc(gS->extConc); concretize(e, ((uint8_t*)p)[i], site); }
}

// ------------------------------------------------------------------ harness API
static E argE(int i) { return __symx_args[i]; }
static void retE(E e, void* fn) { __symx_ret[0] = nz(e); __symx_retfrom = fn; }
static u64 newVar(unsigned w, E* out) {
  unsigned idx = gVarW.size(); gVarW.push_back(w);
  if (gVals->size() <= idx) gVals->resize(idx + 1, 0);
  (*gVals)[idx] &= (u64)mask(w);
  *out = Var(idx, w);
  return (*gVals)[idx];
}
static void assumeE(E e, bool v);
int64_t symx_int(const char* name, int64_t lo, int64_t hi) {
  (void)name;
  if (lo >= hi || !gActive) { retE(nullptr, (void*)symx_int); return lo; }
  u64 range = (u64)(hi - lo); unsigned w = 1; while (w < 64 && (range >> w)) w++;
  E v; u64 x = newVar(w, &v);
  E e = Bin(K_ADD, Zext(v, 64), C(64, (u64)lo));
  if ((u128)range != mask(w)) assumeE(Lt(K_ULE, v, C(w, range)), x <= range);
  retE(e, (void*)symx_int);
  return lo + (int64_t)x;
}
bool symx_bool(const char* name) {
  (void)name;
  if (!gActive) { retE(nullptr, (void*)symx_bool); return false; }
  E v; u64 x = newVar(1, &v);
  retE(v, (void*)symx_bool);
  return x;
}
static void assumeE(E e, bool v) {
  if (!gActive) return;
  if (!e || isC(e)) { if (!v) { inc(gS->assumeCut); finishRun(); } return; }
  flushAsserts();
  if (v) { addPC(e); return; }
  if (gTrace >= gItem.bound || true) {
    std::vector<u64> m;
    // The current input is outside the assumption; look for one inside with the same prefix.
    if (query(e, &m) == 1) emitItem(gTrace, gHash, gTrace == gItem.bound ? gItem.excl : std::vector<u64>(), m);
  }
  gActive = false; inc(gS->assumeCut); msg('E', ""); _exit(0);
}
void symx_assume(bool c) { assumeE(argE(0), c); }
void symx_assert(bool c, const char* m) {
  if (!gActive) { if (!c) { fprintf(stderr, "symx: assertion failed in setup: %s\n", m); abort(); } return; }
  E e = argE(0);
  if (!e || isC(e)) {
    inc(gS->asserts_conc);
    if (!c) { violation(m, *gVals); finishRun(); }
    return;
  }
  inc(gS->asserts_sym);
  selfOK(e, c, 0xfffe);
  if (!c) { violation(m, *gVals); gAsserts->clear(); finishRun(); }
  if (gPC->count(e)) return;
  // Before the end of the inherited prefix the assertion was decided, under the same path
  // condition, by the run that produced this item.
  if (gTrace < gItem.bound) return;
  gAsserts->push_back({e, m});
  if (gAsserts->size() >= 64) flushAsserts();
}
void symx_reach(const char* label) {
  if (!gS) return;
  for (size_t i = 0; i < 64; i++) {
    if (gS->reach[i] == (u64)label) return;
    if (!gS->reach[i]) { gS->reach[i] = (u64)label; return; }
  }
}
int64_t symx_split(int64_t v) {
  E e = argE(0);
  if (e) concretize(e, (u64)v, 0xffff);
  retE(nullptr, (void*)symx_split);
  return v;
}
void symx_note(const char*) {}
bool symx_replaying(void) { retE(nullptr, (void*)symx_replaying); return false; }
}  // extern "C"

// Heap of the code under test: a bump arena at a fixed address, so that addresses are the same in
// every run whatever the solver allocates. Memory is filled with a pattern when allocated and when
// released and is never reused, so reads of uninitialised or dead objects show.
static char* const kArena = (char*)0x600000000000ull;
static const u64 kArenaSize = 8ull << 30;
static u64 gArenaOff = 0;
extern "C" void* __symx_new(size_t n) {
  if (!gArenaOff) {
    if (mmap(kArena, kArenaSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) != kArena) abort();
    gArenaOff = 64;
  }
  if (n > (1ull << 30) || gArenaOff + n + 64 > kArenaSize) throw std::bad_alloc();
  char* p = kArena + gArenaOff;
  u64 tot = ((n + 15) & ~15ull) + 48;  // header (size) and red zone
  gArenaOff += tot;
  *(u64*)p = n;
  memset(p + 16, 0xCD, tot - 16);
  return p + 16;
}
extern "C" void __symx_delete(void* p) {
  if (!p) return;
  if ((char*)p >= kArena && (char*)p < kArena + kArenaSize) {
    u64 n = *(u64*)((char*)p - 16);
    if (n == ~0ull) { fprintf(stderr, "symx: double free\n"); abort(); }
    *(u64*)((char*)p - 16) = ~0ull;
    memset(p, 0xDD, n); __symx_clear(p, n);
    return;
  }
  free(p);
}
extern "C" void __symx_delete2(void* p, size_t) { __symx_delete(p); }
// Allocations of code that is not instrumented (runtime, solver, libstdc++.so).
void* operator new(size_t n) {
  void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc();
  return p;
}
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { __symx_delete(p); }
void operator delete[](void* p) noexcept { __symx_delete(p); }
void operator delete(void* p, size_t) noexcept { __symx_delete(p); }
void operator delete[](void* p, size_t) noexcept { __symx_delete(p); }

// ------------------------------------------------------------------ exploration
static SymxHarness* gHarness = nullptr;
SymxHarness::SymxHarness(const char* n, void (*s)(), void (*r)(), int t) : name(n), setup(s), run(r), tiers(t), next(gHarness) { gHarness = this; }

struct Slot { pid_t pid = -1; int fd = -1; std::string buf; Item item; double t0 = 0; bool ended = false; bool diverged = false; };
static double nowS() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static std::vector<u64> rdv(const std::string& s, size_t& o) {
  u64 n; memcpy(&n, &s[o], 8); o += 8; std::vector<u64> v(n);
  for (u64 i = 0; i < n; i++) { memcpy(&v[i], &s[o], 8); o += 8; }
  return v;
}
static std::string jesc(const std::string& s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }

int main(int argc, char** argv) {
  std::string name, out = "/dev/stdout"; int jobs = 8; double budget = 60, pathTimeout = 20; bool list = false; size_t maxViol = 6; size_t keepSamples = 8;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--list") list = true; else if (a == "--run") name = nx(); else if (a == "--out") out = nx();
    else if (a == "--jobs") jobs = std::stoi(nx()); else if (a == "--budget") budget = std::stod(nx());
    else if (a == "--path-timeout") pathTimeout = std::stod(nx()); else if (a == "--max-branches") gMaxBranches = std::stoull(nx());
    else if (a == "--samples") keepSamples = std::stoull(nx());
  }
  if (list) { for (auto* h = gHarness; h; h = h->next) printf("%s %d\n", h->name, h->tiers); return 0; }
  SymxHarness* H = nullptr;
  for (auto* h = gHarness; h; h = h->next) if (name == h->name) H = h;
  if (!H) { fprintf(stderr, "no harness %s\n", name.c_str()); return 2; }
  gS = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  gVals = new std::vector<u64>(); gPC = new std::unordered_set<const Expr*>(); gPending = new std::vector<E>(); gPCList = new std::vector<E>();
  gCache = (Cache*)mmap(nullptr, sizeof(Cache), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); gAsserts = new std::vector<std::pair<E, const char*>>();
  initZ3();  // no query is made before forking
  alarm(90);
  if (H->setup) H->setup();
  alarm(0);
  double tStart = nowS();
  std::deque<Item> work; work.push_back(Item());
  std::vector<Slot> slots(jobs);
  struct Viol { std::string msg; std::vector<u64> vals; };
  std::vector<Viol> viols; std::vector<std::vector<u64>> samples; u64 nEnded = 0, crashes = 0, hangs = 0, divs = 0, peak = 0;
  bool stop = false; bool timedOut = false;
  while (true) {
    int running = 0;
    for (auto& s : slots) if (s.pid > 0) running++;
    if ((work.empty() || stop) && running == 0) break;
    if (nowS() - tStart > budget && !stop) { stop = true; timedOut = true; for (auto& s : slots) if (s.pid > 0) kill(s.pid, SIGKILL); }
    if (!stop) for (auto& s : slots) {
      if (s.pid > 0 || work.empty()) continue;
      if (work.size() > peak) peak = work.size();
      // mixed order: mostly newest first, sometimes oldest
      Item it;
      static unsigned rot = 0;
      if (rot++ % 4 == 0) { it = std::move(work.front()); work.pop_front(); } else { it = std::move(work.back()); work.pop_back(); }
      int fd[2]; if (pipe(fd)) { perror("pipe"); return 2; }
      fcntl(fd[0], F_SETPIPE_SZ, 1 << 20);
      fflush(stdout);
      pid_t p = fork();
      if (p == 0) {
        close(fd[0]); gPipe = fd[1];
        struct rlimit rl = {14ull << 30, 14ull << 30}; setrlimit(RLIMIT_AS, &rl);
        struct rlimit rc = {0, 0}; setrlimit(RLIMIT_CORE, &rc);
        gItem = it; *gVals = it.vals;
        if (gItem.bound == 0 && gItem.prefixHash == 0) gItem.prefixHash = gHash;
        gActive = true;
        H->run();
        finishRun();
      }
      close(fd[1]);
      s = Slot(); s.pid = p; s.fd = fd[0]; s.item = std::move(it); s.t0 = nowS();
      fcntl(s.fd, F_SETFL, O_NONBLOCK);
    }
    std::vector<struct pollfd> pf; std::vector<Slot*> ps;
    for (auto& s : slots) if (s.pid > 0) { pf.push_back({s.fd, POLLIN, 0}); ps.push_back(&s); }
    poll(pf.data(), pf.size(), 200);
    for (size_t i = 0; i < ps.size(); i++) {
      Slot& s = *ps[i];
      bool eof = false;
      if (pf[i].revents) {
        char tmp[65536]; ssize_t n;
        while ((n = read(s.fd, tmp, sizeof tmp)) > 0) s.buf.append(tmp, n);
        if (n == 0) eof = true;
        size_t o = 0;
        while (s.buf.size() - o >= 5) {
          char ty = s.buf[o]; uint32_t n; memcpy(&n, &s.buf[o + 1], 4);
          if (s.buf.size() - o - 5 < n) break;
          std::string b = s.buf.substr(o + 5, n); o += 5 + n;
          size_t q = 0;
          if (ty == 'N') { Item it; memcpy(&it.bound, &b[0], 8); memcpy(&it.prefixHash, &b[8], 8); q = 16; it.excl = rdv(b, q); it.vals = rdv(b, q); work.push_back(std::move(it)); }
          else if (ty == 'V') { auto v = rdv(b, q); viols.push_back({b.substr(q), v}); }
          else if (ty == 'E') s.ended = true;
          else if (ty == 'D') { s.diverged = true; divs++; }
        }
        s.buf.erase(0, o);
      }
      if (!eof && nowS() - s.t0 > pathTimeout) {
        kill(s.pid, SIGKILL); waitpid(s.pid, nullptr, 0); close(s.fd); s.pid = -1; hangs++;
        if (!timedOut) viols.push_back({"path does not finish (possible non-termination)", s.item.vals});
      } else if (eof) {
        int st; waitpid(s.pid, &st, 0); close(s.fd); s.pid = -1;
        if (s.ended) { nEnded++; if (samples.size() < keepSamples && (nEnded % 7 == 1)) samples.push_back(s.item.vals); }
        else if (!s.diverged && !timedOut && !stop) { crashes++; viols.push_back({"abnormal termination (status " + std::to_string(st) + ")", s.item.vals}); }
      }
    }
    if (viols.size() >= maxViol) { stop = true; for (auto& s : slots) if (s.pid > 0) kill(s.pid, SIGKILL); }
  }
  FILE* f = fopen(out.c_str(), "w");
  bool exhausted = work.empty() && !timedOut && !stop && gS->unknown == 0 && divs == 0 && gS->maxbranchCut == 0 && gS->inconsistent == 0;
  fprintf(f, "{\"harness\":\"%s\",\"exhausted\":%s,\"timed_out\":%s,\"paths\":%llu,\"pending\":%zu,\"peak_pending\":%llu,\"crashes\":%llu,\"hangs\":%llu,\"divergences\":%llu,\n",
          H->name, exhausted ? "true" : "false", timedOut ? "true" : "false", (unsigned long long)gS->paths, work.size(), (unsigned long long)peak, (unsigned long long)crashes, (unsigned long long)hangs, (unsigned long long)divs);
#define ST(x) fprintf(f, "\"%s\":%llu,", #x, (unsigned long long)gS->x);
  ST(queries) ST(sat) ST(unsat) ST(unknown) ST(branches) ST(implied) ST(concretizations) ST(asserts_sym) ST(asserts_conc) ST(max_depth) ST(staleShadow) ST(extConc) ST(assumeCut) ST(cacheHits) ST(inconsistent) ST(solved) ST(maxbranchCut)
  fprintf(f, "\"solver_s\":%.3f,\"wall_s\":%.3f,\n\"reach\":[", gS->solver_us / 1e6, nowS() - tStart);
  for (int i = 0; i < 64 && gS->reach[i]; i++) fprintf(f, "%s\"%s\"", i ? "," : "", jesc((const char*)gS->reach[i]).c_str());
  fprintf(f, "],\n\"fnhit\":[");
  bool first = true;
  for (int i = 0; i < 65536; i++) if (gS->fnhit[i / 64] >> (i % 64) & 1) { fprintf(f, "%s%d", first ? "" : ",", i); first = false; }
  fprintf(f, "],\n\"forksites\":[");
  { std::vector<std::pair<unsigned, int>> v; for (int i = 0; i < 65536; i++) if (gS->forkSites[i]) v.push_back({gS->forkSites[i], i}); std::sort(v.rbegin(), v.rend());
    for (size_t i = 0; i < v.size() && i < 20; i++) fprintf(f, "%s[%d,%u]", i ? "," : "", v[i].second, v[i].first); }
  fprintf(f, "],\n\"samples\":[");
  for (size_t i = 0; i < samples.size(); i++) { fprintf(f, "%s[", i ? "," : ""); for (size_t k = 0; k < samples[i].size(); k++) fprintf(f, "%s%llu", k ? "," : "", (unsigned long long)samples[i][k]); fprintf(f, "]"); }
  fprintf(f, "],\n\"violations\":[");
  for (size_t i = 0; i < viols.size(); i++) {
    fprintf(f, "%s{\"msg\":\"%s\",\"vals\":[", i ? "," : "", jesc(viols[i].msg).c_str());
    for (size_t k = 0; k < viols[i].vals.size(); k++) fprintf(f, "%s%llu", k ? "," : "", (unsigned long long)viols[i].vals[k]);
    fprintf(f, "]}");
  }
  fprintf(f, "]}\n"); fclose(f);
  return 0;
}
