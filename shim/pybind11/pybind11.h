// Stand-in for pybind11, which is not installed here: just enough to compile the repository's Python bindings
// and call every bound function the way Python would (see DESIGN.md, P38). Arguments and results are dynamic
// values; overloads are tried in order of registration; class instances are passed by reference; objects
// returned by value are moved to the heap as pybind11 does.
#pragma once
#include <cstdlib>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include <Eigen/Core>
namespace pybind11 {
struct stop_iteration : std::runtime_error { stop_iteration() : std::runtime_error("StopIteration") {} };
struct type_error : std::runtime_error { using std::runtime_error::runtime_error; };
template <class T> const void* tid() { static const char c = 0; return &c; }
struct ClassInfo { std::string name; bool shared = false; };
inline std::map<const void*, ClassInfo>& classes() { static std::map<const void*, ClassInfo> m; return m; }

// A Python value.
struct Val {
  enum Kind { None, Bool, Int, Float, Str, List, Tuple, Set, Dict, Obj } k = None;
  long i = 0;
  double d = 0;
  std::string s;
  std::vector<Val> v;  // elements; keys and values in turn
  const void* type = nullptr;
  void* p = nullptr;
  std::shared_ptr<void> own;
  Val() = default;
  Val(bool b) : k(Bool), i(b) {}
  Val(int n) : k(Int), i(n) {}
  Val(long n) : k(Int), i(n) {}
  Val(unsigned n) : k(Int), i((long)n) {}
  Val(unsigned long n) : k(Int), i((long)n) {}
  Val(double x) : k(Float), d(x) {}
  Val(const char* t) : k(Str), s(t) {}
  Val(std::string t) : k(Str), s(std::move(t)) {}
  static Val seq(Kind k, std::vector<Val> v = {}) { Val r; r.k = k; r.v = std::move(v); return r; }
  template <class T> T& as() const { if (k != Obj || type != tid<T>()) throw type_error("wrong class"); return *static_cast<T*>(p); }
  template <class T> T cast() const;
  // same value: sets and dictionaries in any order; instances only if the very same object
  friend bool operator==(const Val& a, const Val& b) {
    if (a.k != b.k) return false;
    switch (a.k) {
      case None: return true;
      case Bool: case Int: return a.i == b.i;
      case Float: return a.d == b.d;
      case Str: return a.s == b.s;
      case Obj: return a.p == b.p;
      case List: case Tuple: return a.v == b.v;
      default: break;
    }
    if (a.v.size() != b.v.size()) return false;
    size_t step = a.k == Dict ? 2 : 1;
    for (size_t x = 0; x < a.v.size(); x += step) {
      bool found = false;
      for (size_t y = 0; y < b.v.size() && !found; y += step) found = a.v[x] == b.v[y] && (step == 1 || a.v[x + 1] == b.v[y + 1]);
      if (!found) return false;
    }
    return true;
  }
  friend bool operator!=(const Val& a, const Val& b) { return !(a == b); }
};
struct iterator : Val {};
struct tuple : Val { tuple() = default; tuple(Val v) : Val(std::move(v)) {} Val operator[](size_t n) const { if (n >= v.size()) throw std::out_of_range("tuple"); return v[n]; } size_t size() const { return v.size(); } };
using object = Val;

// Conversion of values; the general case is an instance of a class.
template <class T, class = void> struct Caster { static constexpr bool is_class = true; };
#define PY_CASTER(T, LOAD, MAKE) \
  template <> struct Caster<T> { static constexpr bool is_class = false; static bool load(const Val& x, T& r) LOAD static Val make(const T& r) MAKE }
PY_CASTER(bool, { r = x.i != 0; return x.k == Val::Bool; }, { return Val((bool)r); });
PY_CASTER(std::string, { r = x.s; return x.k == Val::Str; }, { return Val(r); });
PY_CASTER(Val, { r = x; return true; }, { return r; });
PY_CASTER(iterator, { r.k = x.k; return false; }, { return r; });
PY_CASTER(tuple, { r = tuple(x); return x.k == Val::Tuple; }, { return r; });
#undef PY_CASTER
template <class T> struct Caster<T, std::enable_if_t<std::is_integral<T>::value && !std::is_same<T, bool>::value>> {
  static constexpr bool is_class = false;
  static bool load(const Val& x, T& r) { r = (T)x.i; return x.k == Val::Int && (long)r == x.i && (std::is_signed<T>::value || x.i >= 0); }
  static Val make(const T& r) { return Val((long)r); }
};
template <class T> struct Caster<T, std::enable_if_t<std::is_floating_point<T>::value>> {
  static constexpr bool is_class = false;
  static bool load(const Val& x, T& r) { r = x.k == Val::Int ? (T)x.i : (T)x.d; return x.k == Val::Float || x.k == Val::Int; }
  static Val make(const T& r) { return Val((double)r); }
};
template <class T> Val make(T&& r);
template <class T> bool loadValue(const Val& x, T& r) {
  if constexpr (Caster<T>::is_class) { if (x.k != Val::Obj || x.type != tid<T>()) return false; r = x.as<T>(); return true; }
  else return Caster<T>::load(x, r);
}
template <class C, Val::Kind K, bool KIND2> struct SeqCaster {
  static constexpr bool is_class = false;
  using E = typename C::value_type;
  static bool load(const Val& x, C& r) {
    if (x.k != K && !(KIND2 && x.k == Val::Tuple)) return false;
    for (const Val& e : x.v) { E t; if (!loadValue(e, t)) return false; r.insert(r.end(), std::move(t)); }
    return true;
  }
  static Val make(const C& r) { Val x = Val::seq(K); for (const auto& e : r) x.v.push_back(pybind11::make(e)); return x; }
  static Val make(C&& r) { Val x = Val::seq(K); for (auto& e : r) { E t(std::move(const_cast<E&>(static_cast<const E&>(e)))); x.v.push_back(pybind11::make(std::move(t))); } return x; }
};
template <class T> struct Caster<std::vector<T>> : SeqCaster<std::vector<T>, Val::List, true> {};
template <class T> struct Caster<std::set<T>> : SeqCaster<std::set<T>, Val::Set, false> {};
template <class T> struct Caster<std::unordered_set<T>> : SeqCaster<std::unordered_set<T>, Val::Set, false> {};
template <class C> struct MapCaster {
  static constexpr bool is_class = false;
  static bool load(const Val& x, C& r) {
    if (x.k != Val::Dict) return false;
    for (size_t i = 0; i < x.v.size(); i += 2) { typename C::key_type a; typename C::mapped_type b; if (!loadValue(x.v[i], a) || !loadValue(x.v[i + 1], b)) return false; r.emplace(std::move(a), std::move(b)); }
    return true;
  }
  static Val make(const C& r) { Val x = Val::seq(Val::Dict); for (const auto& e : r) { x.v.push_back(pybind11::make(e.first)); x.v.push_back(pybind11::make(e.second)); } return x; }
  static Val make(C&& r) { Val x = Val::seq(Val::Dict); for (auto& e : r) { x.v.push_back(pybind11::make(e.first)); x.v.push_back(pybind11::make(std::move(e.second))); } return x; }
};
template <class A, class B> struct Caster<std::map<A, B>> : MapCaster<std::map<A, B>> {};
template <class A, class B> struct Caster<std::unordered_map<A, B>> : MapCaster<std::unordered_map<A, B>> {};
template <class A, class B> struct Caster<std::pair<A, B>> {
  static constexpr bool is_class = false;
  static bool load(const Val& x, std::pair<A, B>& r) { return (x.k == Val::Tuple || x.k == Val::List) && x.v.size() == 2 && loadValue(x.v[0], r.first) && loadValue(x.v[1], r.second); }
  static Val make(const std::pair<A, B>& r) { return Val::seq(Val::Tuple, {pybind11::make(r.first), pybind11::make(r.second)}); }
  static Val make(std::pair<A, B>&& r) { return Val::seq(Val::Tuple, {pybind11::make(std::move(r.first)), pybind11::make(std::move(r.second))}); }
};
template <class T> struct Caster<std::optional<T>> {
  static constexpr bool is_class = false;
  static bool load(const Val& x, std::optional<T>& r) { if (x.k == Val::None) return true; T t; if (!loadValue(x, t)) return false; r = std::move(t); return true; }
  static Val make(const std::optional<T>& r) { return r ? pybind11::make(*r) : Val(); }
  static Val make(std::optional<T>&& r) { return r ? pybind11::make(std::move(*r)) : Val(); }
};
// Eigen vectors and arrays are numpy arrays: lists of numbers
template <class S, int R, int C, int O, int MR, int MC> struct Caster<Eigen::Array<S, R, C, O, MR, MC>> {
  using A = Eigen::Array<S, R, C, O, MR, MC>;
  static constexpr bool is_class = false;
  static bool load(const Val& x, A& r) { if (x.k != Val::List) return false; r.resize(x.v.size()); for (size_t i = 0; i < x.v.size(); i++) { S s; if (!Caster<S>::load(x.v[i], s)) return false; r(i) = s; } return true; }
  static Val make(const A& r) { Val x = Val::seq(Val::List); for (long i = 0; i < (long)r.size(); i++) x.v.push_back(Val((S)r(i))); return x; }
};
template <class S, int R, int C, int O, int MR, int MC> struct Caster<Eigen::Matrix<S, R, C, O, MR, MC>> {
  using A = Eigen::Matrix<S, R, C, O, MR, MC>;
  static constexpr bool is_class = false;
  static bool load(const Val& x, A& r) { if (x.k != Val::List) return false; r.resize(x.v.size()); for (size_t i = 0; i < x.v.size(); i++) { S s; if (!Caster<S>::load(x.v[i], s)) return false; r(i) = s; } return true; }
  static Val make(const A& r) { Val x = Val::seq(Val::List); for (long i = 0; i < (long)r.size(); i++) x.v.push_back(Val((S)r(i))); return x; }
};
// an instance: moved to the heap, or referred to
template <class T> Val newInstance(T* p, const ClassInfo& c) { (void)c; Val x; x.k = Val::Obj; x.type = tid<T>(); x.p = p; x.own = std::shared_ptr<void>(p, [](void* q) { delete static_cast<T*>(q); }); return x; }
template <class T> Val instance(T&& r) {
  using D = std::decay_t<T>;
  auto it = classes().find(tid<D>());
  if (it == classes().end()) throw type_error("result of an unregistered class");
  if constexpr (std::is_lvalue_reference<T>::value) { Val x; x.k = Val::Obj; x.type = tid<D>(); x.p = const_cast<D*>(&r); return x; }
  else return newInstance(new D(std::move(r)), it->second);
}
template <class T> struct Caster<std::shared_ptr<T>> {
  static constexpr bool is_class = false;
  static bool load(const Val&, std::shared_ptr<T>&) { return false; }
  static Val make(const std::shared_ptr<T>& r) {
    auto it = classes().find(tid<T>());
    if (it == classes().end()) throw type_error("result of an unregistered class");
    // a class registered with the default holder would take the shared object over and delete it
    if (!it->second.shared) throw type_error("shared pointer to a class whose instances are held by unique_ptr");
    Val x; x.k = Val::Obj; x.type = tid<T>(); x.p = const_cast<std::remove_const_t<T>*>(r.get()); x.own = std::const_pointer_cast<std::remove_const_t<T>>(r);
    return x;
  }
};
template <class T> Val make(T&& r) {
  using D = std::decay_t<T>;
  if constexpr (std::is_same<D, const char*>::value || std::is_same<D, char*>::value) return Val(std::string(r));
  else if constexpr (std::is_pointer<D>::value) { if (r == nullptr) return Val(); return make(*r); }
  else if constexpr (Caster<D>::is_class) return instance(std::forward<T>(r));
  else return Caster<D>::make(std::forward<T>(r));
}
template <class T> T Val::cast() const { T r; if (!loadValue(*this, r)) throw type_error("cast"); return r; }

// One argument of type A of a bound function.
template <class A> struct Arg {
  using D = std::remove_cv_t<std::remove_reference_t<A>>;
  using Ptr = std::remove_cv_t<std::remove_pointer_t<D>>;
  static constexpr bool isPtr = std::is_pointer<D>::value, isClass = Caster<Ptr>::is_class;
  struct Nothing {};
  std::conditional_t<isClass, Nothing, Ptr> value{};
  Ptr* ptr = nullptr;
  bool load(const Val& x) {
    if constexpr (isClass) { if (isPtr && x.k == Val::None) return true; if (x.k != Val::Obj || x.type != tid<Ptr>()) return false; ptr = static_cast<Ptr*>(x.p); return true; }
    else { ptr = &value; return Caster<Ptr>::load(x, value); }
  }
  decltype(auto) get() {
    if constexpr (isPtr) return static_cast<D>(ptr);
    else if constexpr (std::is_lvalue_reference<A>::value) return static_cast<A>(*ptr);
    else if constexpr (isClass) return D(*ptr);
    else return D(std::move(value));
  }
};
template <class S, int O, class St> struct Arg<Eigen::Ref<const S, O, St>> {
  S value;
  bool load(const Val& x) { return Caster<S>::load(x, value); }
  Eigen::Ref<const S, O, St> get() { return value; }
};
template <class S, int O, class St> struct Arg<const Eigen::Ref<const S, O, St>&> : Arg<Eigen::Ref<const S, O, St>> {};

struct arg_v { std::string name; Val value; };
struct arg {
  std::string name;
  explicit arg(const char* n) : name(n) {}
  template <class T> arg_v operator=(T&& x) const { return {name, make(std::forward<T>(x))}; }
};
namespace literals { inline arg operator""_a(const char* n, size_t) { return arg(n); } }
template <size_t A, size_t B> struct keep_alive {};
enum class return_value_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };

struct FnBase {
  std::vector<std::string> names;     // of the arguments, after self
  std::map<std::string, Val> defaults;
  bool self = false;
  virtual ~FnBase() = default;
  virtual size_t arity() const = 0;
  virtual bool call(const std::vector<Val>& args, Val& result) = 0;
};
template <class R, class... A> struct Fn : FnBase {
  std::function<R(A...)> f;
  size_t arity() const override { return sizeof...(A); }
  template <size_t... I> bool go(const std::vector<Val>& args, Val& result, std::index_sequence<I...>) {
    std::tuple<Arg<A>...> t;
    bool ok = true;
    ((ok = ok && std::get<I>(t).load(args[I])), ...);
    if (!ok) return false;
    if constexpr (std::is_void<R>::value) { f(std::get<I>(t).get()...); result = Val(); }
    else result = make(f(std::get<I>(t).get()...));
    return true;
  }
  bool call(const std::vector<Val>& args, Val& result) override { return go(args, result, std::index_sequence_for<A...>()); }
};
// Every bound function, by "Class.function"; properties as "Class.property" and "Class.property=".
inline std::map<std::string, std::vector<std::shared_ptr<FnBase>>>& functions() { static std::map<std::string, std::vector<std::shared_ptr<FnBase>>> m; return m; }
inline void option(FnBase& f, const arg& a) { f.names.push_back(a.name); }
inline void option(FnBase& f, const arg_v& a) { f.names.push_back(a.name); f.defaults[a.name] = a.value; }
template <class T> void option(FnBase&, const T&) {}

template <class F, class = void> struct Sig;
template <class R, class... A> struct Sig<R (*)(A...)> { template <class T> static auto fn() { return new Fn<R, A...>; } };
template <class C, class R, class... A> struct Sig<R (C::*)(A...)> {
  template <class T> static auto fn() { return new Fn<R, T&, A...>; }
  template <class F> static auto lambda() { return new Fn<R, A...>; }
};
template <class C, class R, class... A> struct Sig<R (C::*)(A...) const> {
  template <class T> static auto fn() { return new Fn<R, const T&, A...>; }
  template <class F> static auto lambda() { return new Fn<R, A...>; }
};
template <class C, class R, class... A> struct Sig<R (C::*)(A...) noexcept> : Sig<R (C::*)(A...)> {};
template <class C, class R, class... A> struct Sig<R (C::*)(A...) const noexcept> : Sig<R (C::*)(A...) const> {};
template <class T, class F> std::shared_ptr<FnBase> wrap(F f) {
  using D = std::decay_t<F>;
  if constexpr (std::is_member_function_pointer<D>::value || (std::is_pointer<D>::value && std::is_function<std::remove_pointer_t<D>>::value)) {
    auto* r = Sig<D>::template fn<T>(); r->f = f; return std::shared_ptr<FnBase>(r);
  } else { auto* r = Sig<decltype(&D::operator())>::template lambda<D>(); r->f = std::move(f); return std::shared_ptr<FnBase>(r); }
}
// The first overload that takes the arguments, given by position and by name.
inline Val call(const std::string& name, std::vector<Val> args, std::map<std::string, Val> kw = {}) {
  auto it = functions().find(name);
  if (it == functions().end()) throw type_error("no function " + name);
  for (auto& f : it->second) {
    std::vector<Val> a = args;
    bool ok = a.size() <= f->arity();
    size_t used = 0;
    while (ok && a.size() < f->arity()) {
      size_t n = a.size() - (f->self ? 1 : 0);
      if (n >= f->names.size()) { ok = false; break; }
      auto k = kw.find(f->names[n]);
      if (k != kw.end()) { a.push_back(k->second); used++; continue; }
      auto d = f->defaults.find(f->names[n]);
      if (d == f->defaults.end()) { ok = false; break; }
      a.push_back(d->second);
    }
    Val r;
    if (ok && used == kw.size() && f->call(a, r)) return r;
  }
  throw type_error(name + ": incompatible arguments");
}
template <class... A> struct init_t {};
template <class... A> init_t<A...> init() { return {}; }
template <class F> struct init_f { F f; };
template <class F> init_f<F> init(F f) { return {std::move(f)}; }
template <class G, class S> struct pickle_t { G get; S set; };
template <class G, class S> pickle_t<G, S> pickle(G g, S s) { return {std::move(g), std::move(s)}; }
template <class... A> tuple make_tuple(A&&... a) { return tuple(Val::seq(Val::Tuple, {make(std::forward<A>(a))...})); }
template <class It, class End> iterator make_iterator(It b, End e) {
  iterator r; r.k = Val::List;
  for (; b != e; ++b) { std::decay_t<decltype(*b)> copy = *b; r.v.push_back(make(std::move(copy))); }
  return r;
}
struct module_ {
  const char* doc_ = nullptr;
  const char*& doc() { return doc_; }
  template <class F, class... E> module_& def(const char* n, F f, const E&... e) {
    auto w = wrap<void>(std::move(f)); (option(*w, e), ...);
    functions()[n].push_back(w); return *this;
  }
};
using module = module_;
inline void add_ostream_redirect(module_&, const char* = "ostream_redirect") {}
// the result of a factory, as an instance of T: values are moved to the heap and the original is destroyed
template <class T> struct FactoryResult {
  static T* make(T* p) { return p; }
  static T* make(std::unique_ptr<T> p) { return p.release(); }
};
template <class T, class... O> class class_ {
  std::string name_;
  template <class F> class_& add(const std::string& n, F f, bool self) { auto w = std::shared_ptr<FnBase>(std::move(f)); w->self = self; functions()[name_ + "." + n].push_back(w); last_ = w; return *this; }
  std::shared_ptr<FnBase> last_;
  template <class R, class F, class Args> struct Factory;
  template <class F, class R, class... A> void factory(const char* n, F f, R (F::*)(A...) const) {
    auto* w = new Fn<Val, A...>;
    w->f = [f](A... a) {
      if constexpr (std::is_same<R, T>::value) {
        // as in pybind11: the temporary is moved into the instance and dies (its memory is then overwritten)
        void* raw = std::malloc(sizeof(T));
        T* tmp = new (raw) T(f(std::forward<A>(a)...));
        T* p = new T(std::move(*tmp));
        tmp->~T();
        for (size_t i = 0; i < sizeof(T); i++) static_cast<volatile unsigned char*>(raw)[i] = 0x11;
        return newInstance(p, classes()[tid<T>()]);
      } else if constexpr (std::is_same<R, std::shared_ptr<T>>::value) {
        if (!classes()[tid<T>()].shared) throw type_error("factory: holder of another kind");
        return Caster<R>::make(f(std::forward<A>(a)...));
      } else return newInstance(FactoryResult<T>::make(f(std::forward<A>(a)...)), classes()[tid<T>()]);
    };
    add(n, std::shared_ptr<FnBase>(w), false);
  }

 public:
  class_(module_&, const char* name) : name_(name) { ClassInfo c; c.name = name; c.shared = (std::is_same<O, std::shared_ptr<T>>::value || ...); classes()[tid<T>()] = c; }
  template <class F, class... E> class_& def(const char* n, F f, const E&... e) { add(n, wrap<T>(std::move(f)), true); (option(*last_, e), ...); return *this; }
  template <class F, class... E> class_& def_static(const char* n, F f, const E&... e) { add(n, wrap<T>(std::move(f)), false); (option(*last_, e), ...); return *this; }
  template <class... A, class... E> class_& def(const init_t<A...>&, const E&... e) {
    auto* w = new Fn<Val, A...>;
    w->f = [](A... a) { return newInstance(new T(std::forward<A>(a)...), classes()[tid<T>()]); };
    add("__init__", std::shared_ptr<FnBase>(w), false); (option(*last_, e), ...); return *this;
  }
  template <class F, class... E> class_& def(init_f<F> i, const E&... e) { factory("__init__", i.f, &F::operator()); (option(*last_, e), ...); return *this; }
  template <class G, class S> class_& def(pickle_t<G, S> p) { add("__getstate__", wrap<T>(p.get), true); factory("__setstate__", p.set, &S::operator()); return *this; }
  template <class F, class... E> class_& def_property_readonly(const char* n, F f, const E&...) { return add(n, wrap<T>(std::move(f)), true); }
  template <class F, class G, class... E> class_& def_property(const char* n, F f, G g, const E&...) { add(n, wrap<T>(std::move(f)), true); return add(std::string(n) + "=", wrap<T>(std::move(g)), true); }
  template <class M, class C, class... E> class_& def_readonly(const char* n, M C::*m, const E&...) { auto g = [m](const T& t) -> const M& { return t.*m; }; return add(n, wrap<T>(g), true); }
  template <class M, class C, class... E> class_& def_readwrite(const char* n, M C::*m, const E&... e) { def_readonly(n, m, e...); auto s = [m](T& t, const M& v) { t.*m = v; }; return add(std::string(n) + "=", wrap<T>(s), true); }
};
}  // namespace pybind11
#define PYBIND11_MODULE(name, m) \
  void pyshim_init_##name(::pybind11::module_& m)
