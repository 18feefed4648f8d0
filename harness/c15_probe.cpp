// C15: one deterministic program over (nearly) the whole public interface, small enough to be compiled in many configurations.
// It prints everything it observes as OBS lines; check.py compares the lines of all configurations with each other.
// Each line is also judged against the same expression on std::optional where that is possible (the S: lines).
#include "mon.h"
#include <tiny/optional.h>
#include <algorithm>
#include <cmath>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

#ifndef PART
  #define PART 0
#endif

#ifdef TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UB_TRICKS
  #define NO_BITS 1
  #define NO_MEM 1
#else
  #ifdef TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UNUSED_BITS
    #define NO_BITS 1
  #else
    #define NO_BITS 0
  #endif
  #ifdef TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_MEMBER
    #define NO_MEM 1
  #else
    #define NO_MEM 0
  #endif
#endif
#define NO_BIT_MEM (NO_BITS && !NO_MEM)

namespace
{
char const * flavour = "";
std::string show(bool b) { return b ? "true" : "false"; }
template <class T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>, int> = 0>
std::string show(T v)
{
  return std::to_string(static_cast<long long>(v));
}
std::string show(float const & f)
{
  uint32_t u;
  std::memcpy(&u, &f, sizeof u);
  return "f" + std::to_string(u);
}
std::string show(double const & f)
{
  uint64_t u;
  std::memcpy(&u, &f, sizeof u);
  return "d" + std::to_string(u);
}
int pool[8];
std::string show(int const * p) { return p ? "p" + std::to_string(p - pool) : std::string("null"); }
std::string show(std::string const & s) { return "'" + s + "'"; }
using Fn = int (*)(int);
int f1(int x) { return x + 1; }
int f2(int x) { return x + 2; }
std::string show(Fn f) { return f == nullptr ? "fnull" : f == &f1 ? "f1" : f == &f2 ? "f2" : "f?"; }
enum class En : short
{
  A,
  B,
  C,
  None = -1
};
std::string show(En e) { return "e" + std::to_string(static_cast<int>(e)); }
struct S
{
  double d;
  int * p;
  int i;
  bool b;
  float f;
  std::string s;
  explicit S(int x) : d(x * 0.5), p(x % 3 ? pool + x % 8 : nullptr), i(x), b(x % 2 != 0), f(static_cast<float>(x)), s(static_cast<size_t>(x % 30), 'q') { }
  friend bool operator==(S const & l, S const & r) { return l.i == r.i; }
  friend bool operator!=(S const & l, S const & r) { return l.i != r.i; }
  friend bool operator<(S const & l, S const & r) { return l.i < r.i; }
  friend bool operator<=(S const & l, S const & r) { return l.i <= r.i; }
  friend bool operator>(S const & l, S const & r) { return l.i > r.i; }
  friend bool operator>=(S const & l, S const & r) { return l.i >= r.i; }
};
std::string show(S const & s) { return "S" + show(s.d) + show(s.p) + show(s.i) + show(s.b) + show(s.f) + show(s.s); }
struct Cu // with a flag manipulator of its own
{
  int a, b;
  explicit Cu(int x) : a(x), b(x + 1) { }
  friend bool operator==(Cu const & l, Cu const & r) { return l.a == r.a; }
  friend bool operator!=(Cu const & l, Cu const & r) { return l.a != r.a; }
  friend bool operator<(Cu const & l, Cu const & r) { return l.a < r.a; }
  friend bool operator<=(Cu const & l, Cu const & r) { return l.a <= r.a; }
  friend bool operator>(Cu const & l, Cu const & r) { return l.a > r.a; }
  friend bool operator>=(Cu const & l, Cu const & r) { return l.a >= r.a; }
};
std::string show(Cu const & s) { return "C" + show(s.a) + "," + show(s.b); }
struct Thr // can be told to throw
{
  static inline int countdown = -1;
  static inline int live = 0;
  static void hit()
  {
    if (countdown >= 0 && countdown-- == 0) {
      throw 7;
    }
  }
  int v;
  explicit Thr(int x) : v(x) { hit(); ++live; }
  Thr(Thr const & o) : v(o.v) { hit(); ++live; }
  Thr(Thr && o) : v(o.v) { hit(); o.v = -o.v; ++live; }
  Thr & operator=(Thr const & o) { hit(); v = o.v; return *this; }
  Thr & operator=(Thr && o) { hit(); v = o.v; o.v = -o.v; return *this; }
  ~Thr() { --live; }
  friend bool operator==(Thr const & l, Thr const & r) { return l.v == r.v; }
  friend bool operator!=(Thr const & l, Thr const & r) { return l.v != r.v; }
  friend bool operator<(Thr const & l, Thr const & r) { return l.v < r.v; }
  friend bool operator<=(Thr const & l, Thr const & r) { return l.v <= r.v; }
  friend bool operator>(Thr const & l, Thr const & r) { return l.v > r.v; }
  friend bool operator>=(Thr const & l, Thr const & r) { return l.v >= r.v; }
};
std::string show(Thr const & s) { return "T" + show(s.v); }
struct InpManip
{
  static bool is_empty(int const & i) noexcept { return i == -99; }
  static void init_empty_flag(int & i) noexcept { ::new (static_cast<void *>(&i)) int(-99); }
  static void invalidate_empty_flag(int &) noexcept { }
};
struct ThrManip
{
  static bool is_empty(Thr const & t) noexcept { return t.v == -9999; }
  static void init_empty_flag(Thr & t) noexcept { ::new (static_cast<void *>(&t.v)) int(-9999); }
  static void invalidate_empty_flag(Thr &) noexcept { }
};
struct Sent7
{
  static constexpr int value = -7;
};
struct SentD
{
  static constexpr double value = -1.0;
};
template <class O>
std::enable_if_t<tiny::is_tiny_optional_v<O>, std::string> show(O const & o)
{
  return o.has_value() ? "[" + show(*o) + "]" : std::string("[]");
}
template <class T>
std::string show(std::optional<T> const & o)
{
  return o ? "[" + show(*o) + "]" : std::string("[]");
}

struct Log
{
  char const * section = "";
  std::map<std::string, int> next;
  void at(char const * s) { section = s; }
  template <class T>
  void operator()(T const & v)
  {
    std::string s = show(v);
    for (char & c : s) {
      if (c == ' ') c = '_';
    }
    int const n = next[std::string(flavour) + " " + section]++;
    std::printf("OBS probe:%s %s %d %s\n", flavour, section, n, s.c_str());
    uint64_t h = mon::mix(mon::str_hash(flavour), mon::str_hash(section));
    mon::eval();
    mon::seen(mon::mix(mon::mix(h, static_cast<uint64_t>(n)), mon::str_hash(s.c_str())));
  }
} lg;

template <class F>
std::string attempt(F && f)
{
  try {
    return f();
  }
  catch (std::bad_optional_access const &) {
    return "bad_optional_access";
  }
  catch (int i) {
    return "int" + std::to_string(i);
  }
  catch (...) {
    return "other";
  }
}
} // namespace

template <>
struct tiny::optional_flag_manipulator<Cu>
{
  static bool is_empty(Cu const & c) noexcept { return c.a == -77; }
  static void init_empty_flag(Cu & c) noexcept { ::new (static_cast<void *>(&c.a)) int(-77); }
  static void invalidate_empty_flag(Cu &) noexcept { }
};
namespace std
{
template <>
struct hash<S>
{
  size_t operator()(S const & s) const { return static_cast<size_t>(s.i) * 31; }
};
} // namespace std

namespace
{
template <class O, class O2>
void compare(O const & a, O2 const & b)
{
  lg(a == b);
  lg(a != b);
  lg(a < b);
  lg(a <= b);
  lg(a > b);
  lg(a >= b);
}

// containers and algorithms cost the most compile time; they run for these flavours only
template <class O>
constexpr bool heavy = false;
template <>
constexpr bool heavy<tiny::optional<int>> = true;
template <>
constexpr bool heavy<tiny::optional<bool>> = true;
template <>
constexpr bool heavy<tiny::optional<double>> = true;
template <>
constexpr bool heavy<tiny::optional<int *>> = true;
template <>
constexpr bool heavy<tiny::optional<std::string>> = true;
template <>
constexpr bool heavy<tiny::optional<S, &S::i, -1>> = true;
template <>
constexpr bool heavy<tiny::optional_inplace<int, InpManip>> = true;
template <>
constexpr bool heavy<tiny::optional<tiny::optional<bool>>> = true;

// vals must not contain values whose comparison is not specified with fast-math; raw may (they are only stored and read)
template <class O, bool Hash = true, bool Cmp = true>
void probe(char const * name, std::vector<std::remove_const_t<typename O::value_type>> const & vals,
           std::vector<std::remove_const_t<typename O::value_type>> const & raw = {})
{
  using T = typename O::value_type;
  using V = std::remove_const_t<T>;
  constexpr bool assignable = !std::is_const_v<T>;
  mon::context("C15 probe", name);
  flavour = name;
  auto all = vals;
  all.insert(all.end(), raw.begin(), raw.end());
  auto poisoned = [](auto && make) {
    // the state of a new optional must not depend on what was in its memory
    for (int fill : {0, 0xff, 0xfe, 0x7f}) {
      alignas(O) unsigned char mem[sizeof(O)];
      std::memset(mem, fill, sizeof mem);
      O * o = make(static_cast<void *>(mem));
      lg(*o);
      o->~O();
    }
  };
  lg.at("ctor-empty");
  poisoned([](void * m) { return ::new (m) O; });
  poisoned([](void * m) { return ::new (m) O(); });
  poisoned([](void * m) { return ::new (m) O{}; });
  poisoned([](void * m) { return ::new (m) O(std::nullopt); });
  lg.at("ctor-value");
  for (V const & v : all) {
    poisoned([&](void * m) { return ::new (m) O(v); });
    poisoned([&](void * m) { return ::new (m) O(V(v)); });
    poisoned([&](void * m) { return ::new (m) O(std::in_place, v); });
    O const src(v);
    poisoned([&](void * m) { return ::new (m) O(src); });
    poisoned([&](void * m) { return ::new (m) O(O(v)); });
  }
  lg.at("access");
  for (V const & v : all) {
    O o(v);
    O const c(v);
    lg(o.has_value());
    lg(static_cast<bool>(o));
    lg(*o);
    lg(*c);
    lg(*o.operator->());
    lg(*c.operator->());
    lg(o.value());
    lg(c.value());
    lg(*std::move(c));
    lg(std::move(c).value());
    lg(static_cast<void const *>(std::addressof(*o)) == static_cast<void const *>(std::addressof(o.value())));
    lg(o.value_or(vals.front()));
    lg(c.value_or(vals.back()));
    lg(O(v).value_or(vals.front()));
    lg(O().value_or(v));
    lg(o);
  }
  lg.at("access-empty");
  {
    O o;
    O const c;
    lg(attempt([&] { return show(o.value()); }));
    lg(attempt([&] { return show(c.value()); }));
    lg(attempt([&] { return show(std::move(o).value()); }));
    lg(attempt([&] { return show(std::move(c).value()); }));
    lg(o);
    lg(c);
  }
  std::vector<std::optional<V>> states{std::nullopt};
  for (V const & v : all) {
    states.emplace_back(v);
  }
  auto make = [](std::optional<V> const & s) { return s ? O(*s) : O(); };
  lg.at("modify");
  for (auto const & s : states) {
    {
      O o = make(s);
      o.reset();
      lg(o);
      for (V const & v : vals) {
        O p = make(s);
        lg(p.emplace(v));
        lg(p);
        p = std::nullopt;
        lg(p);
      }
    }
    if constexpr (assignable) {
      for (auto const & t : states) {
        O a = make(s), b = make(t);
        a = b;
        lg(a);
        lg(b);
        a = make(s);
        lg(a);
        a = std::move(b);
        lg(a);
        lg(b.has_value());
        b = make(t);
        a = make(s);
        a.swap(b);
        lg(a);
        lg(b);
        using std::swap;
        swap(a, b);
        lg(a);
        lg(b);
        if (t) {
          a = *t;
          lg(a);
          V tmp(*t);
          a = std::move(tmp);
          lg(a);
        }
        O & self = a;
        a = self;
        lg(a);
        a = {};
        lg(a);
      }
    }
  }
  lg.at("monadic");
  for (auto const & s : states) {
    O o = make(s);
    O const c = make(s);
    auto f = [](V const & v) { return show(v); };
    lg(o.transform(f));
    lg(c.transform(f));
    lg(std::move(c).transform(f));
    lg(make(s).transform(f));
    auto g = [](V const & v) { return O(v); };
    lg(o.and_then(g));
    lg(c.and_then(g));
    lg(std::move(c).and_then(g));
    lg(make(s).and_then(g));
    auto h = [](V const &) { return std::optional<int>(5); };
    lg(o.and_then(h));
#if defined(__cpp_concepts) && defined(__cpp_lib_concepts)
    lg.at("monadic20");
    O alt(vals.back());
    auto e = [&] { return alt; };
    lg(o.or_else(e));
    lg(c.or_else(e));
    lg(make(s).or_else(e));
    lg.at("monadic");
#endif
    lg(o);
  }
  if constexpr (Cmp) {
    lg.at("compare");
    std::vector<std::optional<V>> cs{std::nullopt};
    for (V const & v : vals) {
      cs.emplace_back(v);
    }
    for (auto const & s : cs) {
      for (auto const & t : cs) {
        O a = make(s), b = make(t);
        compare(a, b);
        compare(a, t);
        compare(t, a);
        if (t) {
          compare(a, *t);
          compare(*t, a);
        }
#if defined(__cpp_lib_three_way_comparison)
        lg.at("compare20");
        if constexpr (std::three_way_comparable<V>) {
          lg((a <=> b) < 0);
          lg((a <=> b) == 0);
          lg((a <=> t) < 0);
          lg((t <=> a) < 0);
        }
        lg((a <=> std::nullopt) == 0);
        lg.at("compare");
#endif
      }
      compare(make(s), std::nullopt);
      compare(std::nullopt, make(s));
    }
  }
  if constexpr (heavy<O>) {
    std::vector<std::optional<V>> cs = states;
    cs.resize(1 + vals.size());
    lg.at("algorithms");
    std::vector<O> v;
    for (size_t i = 0; i < 3 * cs.size(); ++i) {
      v.push_back(make(cs[(i * 7) % cs.size()]));
    }
    if constexpr (assignable) {
      std::sort(v.begin(), v.end());
      v.erase(v.begin());
      v.insert(v.begin() + static_cast<std::ptrdiff_t>(v.size()) / 2, O(vals.front()));
      std::rotate(v.begin(), v.begin() + 1, v.end());
    }
    for (auto const & o : v) {
      lg(o);
    }
    std::set<O> set(v.begin(), v.end());
    for (auto const & o : set) {
      lg(o);
    }
    lg(set.count(O()));
  }
  if constexpr (Hash) {
    lg.at("hash");
    lg(std::hash<O>{}(O()) == std::hash<tiny::optional<T>>{}(tiny::optional<T>()));
    for (V const & v : vals) {
      lg(std::hash<O>{}(O(v)) == std::hash<V>{}(v));
    }
#ifndef __FAST_MATH__
    lg.at("hashraw");
    for (V const & v : raw) {
      lg(std::hash<O>{}(O(v)) == std::hash<V>{}(v));
    }
    lg.at("hash");
#endif
    if constexpr (heavy<O>) {
      std::unordered_set<O> us;
      for (V const & v : vals) {
        us.insert(O(v));
        us.insert(O());
        us.insert(O(v));
      }
      lg(us.size());
      for (V const & v : vals) {
        lg(us.count(O(v)));
        us.erase(O(v));
      }
      lg(us.size());
      lg(us.count(O()));
    }
  }
  lg.at("traits");
  lg(std::is_copy_constructible_v<O>);
  lg(std::is_move_constructible_v<O>);
  lg(std::is_copy_assignable_v<O>);
  lg(std::is_move_assignable_v<O>);
  lg(std::is_nothrow_default_constructible_v<O>);
  lg(std::is_nothrow_move_constructible_v<O>);
  lg(std::is_nothrow_move_assignable_v<O>);
  lg(std::is_nothrow_destructible_v<O>);
  lg(std::is_nothrow_constructible_v<O, std::nullopt_t>);
  lg(std::is_nothrow_assignable_v<O &, std::nullopt_t>);
  lg(std::is_swappable_v<O>);
  lg(std::is_convertible_v<V, O>);
  lg(std::is_constructible_v<O, V &>);
  lg(noexcept(std::declval<O &>().reset()));
  lg(noexcept(std::declval<O &>().has_value()));
  lg(noexcept(*std::declval<O &>()));
  lg(noexcept(std::declval<O &>().value()));
  lg(std::is_same_v<decltype(*std::declval<O>()), T &&>);
  lg(std::is_same_v<decltype(std::declval<O const>().value()), T const &&>);
  lg(tiny::is_tiny_optional_v<O>);
  lg(O::is_tiny_optional);
}

template <class O>
void faults(char const * name)
{
  mon::context("C15 probe", name);
  flavour = name;
  lg.at("faults");
  for (int k = 0; k < 4; ++k) {
    for (int st = 0; st < 4; ++st) {
      auto with = [&](auto && op) {
        O a, b;
        if (st & 1) a.emplace(3);
        if (st & 2) b.emplace(4);
        Thr::countdown = k;
        std::string r = attempt([&] {
          op(a, b);
          return std::string("ok");
        });
        Thr::countdown = -1;
        lg(r);
        lg(a);
        lg(b);
        a.emplace(8);
        lg(a);
      };
      with([](O & a, O & b) { a = b; });
      with([](O & a, O & b) { a = std::move(b); });
      with([](O & a, O & b) { a.swap(b); });
      with([](O & a, O & b) { O c(b); a = std::move(c); });
      with([](O & a, O & b) { O c(std::move(b)); a = c; });
      with([](O & a, O &) { a.emplace(6); });
      with([](O & a, O &) { a = Thr(6); });
      with([](O & a, O & b) { b = a.transform([](Thr & t) { return Thr(t.v + 1); }) ? a : b; });
      with([](O & a, O &) { (void)a.value_or(Thr(1)); });
      with([](O & a, O &) { a.reset(); Thr::hit(); });
      with([](O & a, O & b) { std::vector<O> v; v.push_back(a); v.push_back(b); a = v[1]; });
    }
  }
  lg(Thr::live);
}

double dbits(uint64_t u)
{
  double d;
  std::memcpy(&d, &u, sizeof d);
  return d;
}
float fbits(uint32_t u)
{
  float f;
  std::memcpy(&f, &u, sizeof f);
  return f;
}

void run()
{
  [[maybe_unused]] std::vector<int> ints{0, 1, 5, 42, 100000, INT_MAX, INT_MIN + 1};
  [[maybe_unused]] std::vector<double> dbl{0.0, 1.0, -2.5, 1e300, -1e-300};
  [[maybe_unused]] std::vector<double> rawd{dbits(0x7ff8000000000000), dbits(0xfff8000000000000), dbits(0x7ff8fedcba987655), dbits(0x7ff0000000000000), dbits(0xfff0000000000000),
                           dbits(0x8000000000000000), dbits(1), dbits(0x7fffffffffffffff), dbits(0xfff8fedcba987654), dbits(0x7ff8fedcba987650)};
  [[maybe_unused]] std::vector<float> flt{0.0f, 1.0f, -2.5f, 1e30f};
  [[maybe_unused]] std::vector<float> rawf{fbits(0x7fc00000), fbits(0xffc00000), fbits(0x7f800000), fbits(0xff800000), fbits(0x80000000), fbits(1), fbits(0x7fedcba8), fbits(0xffedcba9), fbits(0x7fffffff)};
  [[maybe_unused]] std::vector<bool> boolsv{true, false};
#if PART == 0
  probe<tiny::optional<int>>("int", ints);
  probe<tiny::optional<int const>>("constint", ints);
  probe<tiny::optional<unsigned char>>("uchar", {0, 1, 127, 128, 254, 255});
  probe<tiny::optional<long long>>("llong", {0, -1, 0x7fffffffffffffffll, -0x7fffffffffffffffll - 1});
  probe<tiny::optional<bool>>("bool", boolsv);
  probe<tiny::optional<bool const>>("constbool", boolsv);
  probe<tiny::optional<double>>("double", dbl, rawd);
  probe<tiny::optional<double const>>("constdouble", dbl, rawd);
#elif PART == 1
  probe<tiny::optional<float>>("float", flt, rawf);
  probe<tiny::optional<int *>>("ptr", {pool, pool + 1, pool + 7}, {nullptr});
  probe<tiny::optional<int const *>>("cptr", {pool, pool + 1, pool + 7}, {nullptr});
  probe<tiny::optional<Fn>, true, false>("fn", {&f1, &f2, nullptr});
  probe<tiny::optional<En>>("enum", {En::A, En::B, En::C, En::None});
  probe<tiny::optional<std::string>>("string", {"", "a", "a long string that does not fit into the small buffer"});
  probe<tiny::optional<S>>("S", {S(1), S(2), S(17)});
  probe<tiny::optional<int, -1>>("int-1", ints);
  probe<tiny::optional<unsigned, 7>>("unsigned7", {0, 1, 6, 8, 0xffffffffu});
  probe<tiny::optional<signed char, -128>>("schar", {0, 127, -127, -1});
  probe<tiny::optional<En, En::None>>("enumNone", {En::A, En::B, En::C});
  probe<tiny::optional<bool, true>>("boolTrue", {false});
  probe<tiny::optional<int *, nullptr>>("ptrNull", {pool, pool + 7});
#elif PART == 2
  probe<tiny::optional<S, &S::i, -1>>("S.i", {S(1), S(2), S(17)});
#if !NO_BIT_MEM
  probe<tiny::optional<S, &S::d>>("S.d", {S(1), S(2), S(17)});
  probe<tiny::optional<S, &S::p>>("S.p", {S(1), S(2), S(17), S(3)});
  probe<tiny::optional<S, &S::b>>("S.b", {S(1), S(2), S(17)});
  probe<tiny::optional<S, &S::f>>("S.f", {S(1), S(2), S(17)});
#endif
  probe<tiny::optional<S, &S::b, false>>("S.b-false", {S(1), S(17)});
  probe<tiny::optional_sentinel_via_type<int, Sent7>>("via7", ints);
  probe<tiny::optional_sentinel_via_type<double, SentD>>("viaD", dbl);
  probe<tiny::optional_sentinel_via_type<S, SentD, &S::d>>("viaS.d", {S(1), S(2), S(17)});
#else
  probe<tiny::optional_inplace<int, InpManip>>("inplace", ints);
  probe<tiny::optional<Cu>, false>("custom", {Cu(1), Cu(2), Cu(30)});
  probe<tiny::optional_aip<int>>("aipint", ints);
  probe<tiny::optional_aip<unsigned long long>>("aipull", {0, 1, 0xfffffffffffffffeull, 0x7fffffffffffffffull});
  probe<tiny::optional_aip<unsigned short>>("aipushort", {0, 1, 0xfffe, 0x8000});
  probe<tiny::optional_aip<char, 'a'>>("aipchar", {'b', 'c', 'A', 0});
#if !NO_BITS
  probe<tiny::optional_aip<double>>("aipdouble", dbl, rawd);
  probe<tiny::optional_aip<bool>>("aipbool", boolsv);
#endif
  using OB = tiny::optional<bool>;
  probe<tiny::optional<OB>, true>("nested", {OB(), OB(true), OB(false)});
  using OS = tiny::optional<std::string>;
  probe<tiny::optional<OS>, true>("nestedstr", {OS(), OS("x"), OS("y")});
  probe<tiny::optional<Thr>, false>("Thr", {Thr(1), Thr(2)});
  faults<tiny::optional<Thr>>("Thr-sep");
  faults<tiny::optional<Thr, &Thr::v, -9999>>("Thr-mem");
  faults<tiny::optional_inplace<Thr, ThrManip>>("Thr-inp");

  flavour = "free";
  lg.at("make");
  lg(tiny::make_optional(5));
  lg(tiny::make_optional<std::string>(3u, 'x'));
  lg(tiny::make_optional<std::string>({'a', 'b'}));
  lg(tiny::make_optional<int, -1>(6));
  lg(tiny::make_optional<S, &S::i, -1>(6));
  lg(tiny::make_optional(2.5));
  lg(tiny::make_optional("text").has_value());
  tiny::optional ded(7.5);
  lg(ded);
  lg(std::is_same_v<decltype(ded), tiny::optional<double>>);
  lg.at("moveonly");
  tiny::optional<std::unique_ptr<int>> u(std::make_unique<int>(4)), w;
  w = std::move(u);
  lg(u.has_value());
  lg(*u == nullptr);
  lg(**w);
  w.swap(u);
  lg(*w == nullptr);
  lg(**u);
  u = nullptr;
  lg(u.has_value());
  u = std::nullopt;
  lg(u.has_value());
#endif
}
mon::Registrar reg("probe", &run);
} // namespace
