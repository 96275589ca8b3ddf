// P08: proposition identity is predicate name plus argument list.
// symx: sources=DOMAIN assumptions="hash<string> as in libstdc++"
// symx: harness pairs bounds="all pairs of propositions with name in {p,q,pa,P}, 0..2 arguments out of {a, b, and a long name}; each as value, reference, signed, parsed text, copy, re-wrap" require=done,equal
// symx: harness triples bounds="triples over 2 names and 0..2 arguments of {a,b}: transitivity" require=done
// symx: harness names bounds="names of 1..2 arbitrary characters and argument names of one arbitrary character of [a-c]: equality, order and hash of two propositions with up to 1 argument" require=done,equal
// symx: harness names2 bounds="as names with argument names of 1..2 characters" require=done,equal thorough_budget=2400
#include "gen.h"
using symbolic::PropositionBase;
using symbolic::PropositionRef;
using symbolic::SignedProposition;
static World W;
static void setup() {
  W.load("(define (domain d) (:requirements :typing) (:types t)"
         " (:predicates (p ?x - t) (q ?x - t ?y - t)))",
         "(define (problem x) (:domain d) (:objects a b aabracadabra-long - t) (:init) (:goal (p a)))");
}
static const char* kN[] = {"p", "q", "pa", "P"};
struct Pr { std::string n; std::vector<int> a; };
static Pr choose(int nn, int no) {
  Pr r;
  r.n = kN[symx_split(symx_int("name", 0, nn - 1))];
  int k = (int)symx_split(symx_int("arity", 0, 2));
  for (int i = 0; i < k; i++) r.a.push_back((int)symx_split(symx_int("arg", 0, no - 1)));
  return r;
}
static int cmp(const std::string& a, const std::string& b) { return a < b ? -1 : a == b ? 0 : 1; }
static int cmp(const Pr& x, const Pr& y) {
  if (int c = cmp(x.n, y.n)) return c;
  for (size_t i = 0; i < x.a.size() && i < y.a.size(); i++) if (int c = cmp(W.objs[x.a[i]], W.objs[y.a[i]])) return c;
  return x.a.size() < y.a.size() ? -1 : x.a.size() > y.a.size() ? 1 : 0;
}
struct Reps {
  std::vector<Object> args;
  Proposition value, parsed, copy, rewrap;
  size_t nameHash;
  PropositionRef ref;
  SignedProposition sgn;
  std::vector<const PropositionBase*> all;
  Reps(const Pr& p, bool sign)
      : args(W.args(p.a)), value(p.n, args), parsed(*W.pddl, text(p)), copy(value), nameHash(std::hash<std::string>{}(p.n)),
        ref(&value.name(), &args, nameHash), sgn(p.n, std::vector<Object>(args), sign) {
    copy = parsed;
    rewrap = Proposition(static_cast<const PropositionBase&>(ref));
    all = {&value, &ref, &sgn, &parsed, &copy, &rewrap};
  }
  static std::string text(const Pr& p) {
    std::string s = p.n + "(";
    for (size_t i = 0; i < p.a.size(); i++) s += (i ? ", " : "") + W.objs[p.a[i]];
    return s + ")";
  }
};
static void pairs() {
  Pr x = choose(4, 3), y = choose(4, 3);
  Reps a(x, true), b(y, false);
  int c = cmp(x, y);
  bool ok = true, h = true, lt = true, gt = true, ne = true;
  for (auto* u : a.all) for (auto* v : b.all) {
    ok &= (*u == *v) == (c == 0);
    ne &= (*u != *v) == (c != 0);
    lt &= (*u < *v) == (c < 0);
    gt &= (*v < *u) == (c > 0);
    if (c == 0) h &= (u->hash() == v->hash()) & (std::hash<PropositionBase>{}(*u) == std::hash<PropositionBase>{}(*v));
  }
  symx_assert(ok, "equal exactly when name and arguments are equal");
  symx_assert(ne, "unequal is the opposite of equal");
  symx_assert(h, "equal propositions have equal hashes");
  symx_assert(lt & gt, "order by name, then arguments");
  for (auto* u : a.all) {
    symx_assert((u->name() == x.n) & (u->arguments().size() == x.a.size()), "representation keeps the name");
    for (size_t i = 0; i < x.a.size(); i++) symx_assert(u->arguments()[i].name() == W.objs[x.a[i]], "representation keeps the arguments");
    for (auto* v : a.all) symx_assert((*u == *v) & (u->hash() == v->hash()) & !(*u < *v), "re-wrapping keeps the identity");
  }
  symx_assert((std::hash<Proposition>{}(a.value) == std::hash<PropositionRef>{}(a.ref)) &
              (std::hash<Proposition>{}(a.value) == std::hash<PropositionBase>{}(a.sgn)), "hash functions agree");
  symx_assert(a.sgn.is_pos() & !b.sgn.is_pos() & (a.sgn.sign() == "+") & (b.sgn.sign() == "-"), "sign");
  if (c == 0) symx_reach("equal");
  symx_reach("done");
}
static void triples() {
  Pr x = choose(2, 2), y = choose(2, 2), z = choose(2, 2);
  Proposition a(x.n, W.args(x.a)), b(y.n, W.args(y.a)), c(z.n, W.args(z.a));
  if (a < b && b < c) symx_assert(a < c, "transitive");
  if (!(a < b) && !(b < a)) symx_assert(a == b, "incomparable means equal");
  symx_reach("done");
}
// names with arbitrary characters
static std::string word(const char* what, int max = 2) {
  int n = max == 1 ? 1 : (int)symx_split(symx_int("length", 1, 2));
  std::string s;
  for (int i = 0; i < n; i++) s += (char)symx_int(what, 'a', 'c');
  return s;
}
static bool eqs(const std::string& a, const std::string& b) {
  bool r = a.size() == b.size();
  for (size_t i = 0; i < a.size() && i < b.size(); i++) r &= a[i] == b[i];
  return r;
}
// a < b for words of length 1..2
static bool lts(const std::string& a, const std::string& b) {
  size_t n = std::min(a.size(), b.size());
  bool tail = a.size() < b.size();
  for (size_t i = n; i-- > 0;) tail = (a[i] < b[i]) | ((a[i] == b[i]) & tail);
  return tail;
}
static int W1 = 1;
static void names() {
  std::string n1 = word("char"), n2 = word("char");
  bool arg1 = symx_split(symx_bool("argument")), arg2 = symx_split(symx_bool("argument"));
  std::string o1, o2;
  std::vector<Object> a1, a2;
  if (arg1) { o1 = word("char", W1); a1.push_back(Object(*W.pddl, new VAL::const_symbol(o1))); }
  if (arg2) { o2 = word("char", W1); a2.push_back(Object(*W.pddl, new VAL::const_symbol(o2))); }
  Proposition p(n1, a1), q(n2, a2);
  bool same = eqs(n1, n2) & (arg1 == arg2) & (arg1 & arg2 ? eqs(o1, o2) : true);
  bool less = lts(n1, n2) | (eqs(n1, n2) & (!arg1 & arg2 | (arg1 & arg2 ? lts(o1, o2) : false)));
  bool e = p == q;
  symx_assert(e == same, "equal exactly when name and arguments are equal");
  symx_assert((p < q) == less, "order by name, then arguments");
  if (e) { symx_assert(p.hash() == q.hash(), "equal propositions have equal hashes"); symx_reach("equal"); }
  symx_reach("done");
}
SYMX_HARNESS(pairs, setup, pairs, BOTH);
SYMX_HARNESS(triples, setup, triples, BOTH);
static void names2() { W1 = 2; names(); }
SYMX_HARNESS(names, setup, names, QUICK);
SYMX_HARNESS(names2, setup, names2, THOROUGH);
