// P12: text forms of propositions and states round-trip.
// symx: sources=DOMAIN assumptions="parse trees come from the VAL stand-in in shim/|std::stringstream and std::string as in libstdc++, executed symbolically"
// symx: harness print bounds="all propositions of 5 predicates with 1..3 arguments out of 5 objects with overlapping names, as value, reference and parsed; pairs of them for distinctness of text" require=done
// symx: harness spaces bounds="0..2 spaces or tabs at each of up to 6 places around 1..3 arguments" require=done
// symx: harness words bounds="argument text of 5 arbitrary characters of {a,b,x,space}: which single object it names, if any" require=done,unknown,known
// symx: harness words2 bounds="two arguments of up to 2 arbitrary characters of {a,b,o} each: known and unknown object names" require=done,unknown,known
// symx: harness state bounds="all states over 10 propositions: to strings and back, through State, the task's helper and a partial state" require=done
// symx: harness words5 bounds="as words with 7 characters" require=done thorough_budget=2400
#include <set>
#include "f_world.h"
#include "partial.h"
using symbolic::PropositionRef;
static World D;
static void setup() {
  D.wantAtoms = false;
  D.load("(define (domain d) (:requirements :typing) (:types t)"
         " (:predicates (p ?x - t) (pp ?x - t) (p-q ?x - t ?y - t) (on ?x - t ?y - t) (r3 ?x - t ?y - t ?z - t)))",
         "(define (problem x) (:domain d) (:objects ab a a_1 ba b - t) (:init) (:goal (p a)))");
}
static const char* kP[] = {"p", "pp", "p-q", "on", "r3"};
static int kA[] = {1, 1, 2, 2, 3};
struct Pr { int p; std::vector<int> a; };
static Pr choose(int no) {
  Pr r;
  r.p = (int)symx_split(symx_int("predicate", 0, 4));
  for (int i = 0; i < kA[r.p]; i++) r.a.push_back((int)symx_split(symx_int("argument", 0, no - 1)));
  return r;
}
static std::string canon(const Pr& p) {
  std::string s = std::string(kP[p.p]) + "(";
  for (size_t i = 0; i < p.a.size(); i++) s += (i ? ", " : "") + D.objs[p.a[i]];
  return s + ")";
}
static void print() {
  Pr x = choose(5), y;
  y.p = symx_split(symx_bool("same predicate")) ? x.p : (x.p + 1) % 5;
  for (int i = 0; i < kA[y.p]; i++) y.a.push_back(i == 0 ? (int)symx_split(symx_int("argument", 0, 4)) : x.a[(i * 2) % x.a.size()]);
  Proposition p(kP[x.p], D.args(x.a)), q(kP[y.p], D.args(y.a));
  std::string t = p.to_string();
  std::vector<Object> args = D.args(x.a);
  std::string name = kP[x.p];
  PropositionRef ref(&name, &args, std::hash<std::string>{}(name));
  symx_assert(ref.to_string() == t, "every representation prints the same text");
  Proposition back(*D.pddl, t);
  symx_assert((back == p) & (p == back) & (back.hash() == p.hash()), "parsing the printed text yields an equal proposition");
  symx_assert(symbolic::PropositionBase::ParseHead(t) == name, "head of the text");
  symx_assert(back.to_string() == t, "printing again yields the same text");
  symx_assert((q.to_string() == t) == (p == q), "distinct propositions have distinct text");
  symx_assert((q.to_pddl() == p.to_pddl()) == (p == q), "distinct propositions have distinct PDDL text");
  symx_reach("done");
}
static void spaces() {
  Pr x;
  x.p = (int)symx_split(symx_int("predicate", 0, 2)) * 2;
  for (int i = 0; i < kA[x.p]; i++) x.a.push_back((3 * i + x.p) % 5);
  bool tab = symx_split(symx_bool("tab"));
  auto gap = [&]() { return std::string(symx_split(symx_int("spaces", 0, 2)), tab ? '\t' : ' '); };
  std::string s = std::string(kP[x.p]) + "(";
  for (size_t i = 0; i < x.a.size(); i++) {
    if (i) s += ",";
    s += gap() + D.objs[x.a[i]];
    s += gap();
  }
  s += ")";
  Proposition want(kP[x.p], D.args(x.a));
  symx_assert(Proposition(*D.pddl, s) == want, "extra spaces around arguments do not matter");
  std::vector<Object> args = Object::ParseArguments(*D.pddl, s);
  symx_assert(args == want.arguments(), "argument list");
  symx_assert(State(*D.pddl, {s}).contains(want), "state built from the text");
  symx_reach("done");
}
static bool is(const char* s, int n, const char* w) { bool r = (int)strlen(w) == n; for (int i = 0; i < n && w[i]; i++) r &= s[i] == w[i]; return r; }
static void wordsN(int n) {
  // p(....): spaces, then one name, then spaces
  std::string s = "p(";
  char c[8];
  static const char kC[] = {'a', 'b', 'x', ' '};
  for (int i = 0; i < n; i++) { c[i] = kC[symx_split(symx_int("char", 0, 3))]; s += c[i]; }
  s += ")";
  int i = 0, j = n;
  while (i < n && c[i] == ' ') i++;
  while (j > i && c[j - 1] == ' ') j--;
  for (int k = i; k < j; k++) if (c[k] == ' ') return;  // more than one name
  if (i == j) return;
  int want = -1;
  for (size_t o = 0; o < D.objs.size(); o++) if (is(c + i, j - i, D.objs[o].c_str())) want = (int)o;
  bool threw = false; std::string got;
  try { Proposition p(*D.pddl, s); got = p.to_string(); } catch (const std::exception&) { threw = true; }
  symx_assert(threw == (want < 0), "rejected exactly when the object is unknown");
  if (!threw) { symx_assert(got == "p(" + D.objs[want] + ")", "the named object"); symx_reach("known"); }
  else symx_reach("unknown");
  bool t2 = false;
  try { Object o(*D.pddl, s.substr(2 + i, j - i)); symx_assert(want >= 0 && o == D.O[want], "object by name"); } catch (const std::exception&) { t2 = true; }
  symx_assert(t2 == (want < 0), "unknown object name is rejected");
  symx_reach("done");
}
static void words() { wordsN(5); }
static void words5() { wordsN(7); }
static void words2() {
  std::string s = "on(", w[2];
  int want[2];
  for (int k = 0; k < 2; k++) {
    int n = (int)symx_split(symx_int("length", 1, 2));
    char c[2];
    static const char kC[] = {'a', 'b', 'o'};
    for (int i = 0; i < n; i++) { c[i] = kC[symx_split(symx_int("char", 0, 2))]; w[k] += c[i]; }
    want[k] = -1;
    for (size_t o = 0; o < D.objs.size(); o++) if (is(c, n, D.objs[o].c_str())) want[k] = (int)o;
    s += (k ? ", " : "") + w[k];
  }
  s += ")";
  bool ok = want[0] >= 0 && want[1] >= 0;
  int threw = 0;
  auto attempt = [&](auto f) { try { f(); } catch (const std::exception&) { threw++; } };
  attempt([&] { Proposition p(*D.pddl, s); symx_assert(ok && p == Proposition("on", D.args({want[0], want[1]})), "the named objects in order"); });
  attempt([&] { auto a = Object::ParseArguments(*D.pddl, s); symx_assert(ok && a == D.args({want[0], want[1]}), "the named objects in order"); });
  attempt([&] { auto a = Object::ParseArguments(*D.pddl, std::vector<std::string>{w[0], w[1]}); symx_assert(ok && a == D.args({want[0], want[1]}), "the named objects in order"); });
  attempt([&] { State t(*D.pddl, {s}); symx_assert(ok && t.size() == 1, "state from text"); });
  attempt([&] { PartialState t(*D.pddl, {}, {s}); symx_assert(ok && t.neg().size() == 1 && t.pos().empty(), "partial state from text"); });
  attempt([&] { D.pddl->IsGoalSatisfied(std::set<std::string>{s}); });
  symx_assert(threw == (ok ? 0 : 6), "every entry point rejects exactly the unknown objects");
  symx_reach(ok ? "known" : "unknown");
  symx_reach("done");
}

static void state() {
  Bits b = W.sym();
  int n = W.n();
  for (int i = 0; i < n; i++) b[i] = symx_split(b[i]);
  State s = W.state(b);
  std::unordered_set<std::string> t = s.Stringify();
  std::set<std::string> u = symbolic::Stringify(s);
  size_t k = 0;
  for (int i = 0; i < n; i++) { k += b[i]; symx_assert((t.count(W.atoms[i].text) == (size_t)b[i]) & (u.count(W.atoms[i].text) == (size_t)b[i]), "a text for each proposition"); }
  symx_assert((t.size() == k) & (u.size() == k), "no other text");
  State back(*W.pddl, t);
  symx_assert((back == s) & W.same(back, b), "to strings and back");
  State neg;
  for (int i = 0; i < n; i++) if (!b[i] && i % 2) neg.insert(W.props[i]);
  PartialState ps(s, neg);
  auto tt = ps.Stringify();
  auto uu = symbolic::Stringify(ps);
  symx_assert(PartialState(*W.pddl, tt.first, tt.second) == ps, "partial state to strings and back");
  symx_assert((uu.first == u) & (uu.second == symbolic::Stringify(neg)), "helper agrees");
  symx_reach("done");
}
SYMX_HARNESS(print, setup, print, BOTH);
SYMX_HARNESS(spaces, setup, spaces, BOTH);
SYMX_HARNESS(words, setup, words, QUICK);
SYMX_HARNESS(words2, setup, words2, BOTH);
SYMX_HARNESS(state, fworld, state, BOTH);
SYMX_HARNESS(words5, setup, words5, THOROUGH);
