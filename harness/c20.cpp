// C20: every construction route. A spy payload logs which constructor ran, with which argument types, categories and
// identities, and where; the log must equal the one of std::optional for the same expression.
#include "mon.h"
#include "payloads.h"
#include <tiny/optional.h>

#include <algorithm>
#include <any>
#include <array>
#include <atomic>
#include <complex>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <string>
#include <tuple>
#include <type_traits>
#include <variant>
#include <vector>

namespace
{
struct Entry
{
  void const * self;
  std::string text;
};
std::vector<Entry> * sink = nullptr;
void note(void const * self, std::string text)
{
  if (sink) {
    sink->push_back(Entry{self, std::move(text)});
  }
}

// An argument: copies and moves of arguments are logged as well.
template <int N>
struct Tok
{
  Tok const * origin;
  Tok() : origin(this) { }
  Tok(Tok const & o) : origin(o.origin) { note(nullptr, "argument copied"); }
  Tok(Tok && o) : origin(o.origin) { note(nullptr, "argument moved"); }
  Tok & operator=(Tok const &) = delete;
  std::string where() const { return origin == this ? "original" : "other"; }
};
template <class T>
struct is_tok : std::false_type
{
};
template <int N>
struct is_tok<Tok<N>> : std::true_type
{
  static constexpr int n = N;
};
template <class A>
std::string describe(A const & a, bool lref, bool cst)
{
  return "Tok" + std::to_string(is_tok<A>::n) + (cst ? " const" : "") + (lref ? "&" : "&&") + " " + a.where();
}

struct Ctx
{
  Tok<0> a;
  Tok<1> b;
  Tok<2> c;
  Tok<3> d;
};

// Which special members are noexcept: 1 default construction, 2 construction from values, 4 copy and move construction,
// 8 assignment.
#ifndef SNX
  #define SNX 0
#endif
#define NXIF(bit) noexcept((SNX & (bit)) != 0)

// The payload. One, two, ... tokens: any categories. Tok<9> only explicitly.
template <int Tag>
struct SpyT
{
  int flag = 1;
  double dbl = 0.5;
  long sum = 0;

  SpyT() NXIF(1) { note(this, "default"); }
  template <
      class A,
      std::enable_if_t<is_tok<std::remove_cv_t<std::remove_reference_t<A>>>::value
                           && !std::is_same_v<std::remove_cv_t<std::remove_reference_t<A>>, Tok<9>>,
                       int> = 0>
  /*implicit*/ SpyT(A && x) NXIF(2)
  {
    note(this, "value(" + describe(x, std::is_lvalue_reference_v<A>, std::is_const_v<std::remove_reference_t<A>>) + ")");
  }
  template <class A, std::enable_if_t<std::is_same_v<std::remove_cv_t<std::remove_reference_t<A>>, Tok<9>>, char> = 0>
  explicit SpyT(A && x) NXIF(2)
  {
    note(this, "explicit(" + describe(x, std::is_lvalue_reference_v<A>, std::is_const_v<std::remove_reference_t<A>>) + ")");
  }
  template <
      class A,
      class B,
      class... R,
      std::enable_if_t<is_tok<std::remove_cv_t<std::remove_reference_t<A>>>::value, int> = 0>
  SpyT(A && x, B && y, R &&... r) NXIF(2)
  {
    std::string s = "values(";
    add(s, std::forward<A>(x));
    add(s, std::forward<B>(y));
    (add(s, std::forward<R>(r)), ...);
    note(this, s + ")");
  }
  template <class... R>
  SpyT(std::initializer_list<int> il, R &&... r) NXIF(2)
  {
    std::string s = "list(";
    for (int i : il) {
      s += std::to_string(i) + ",";
      sum += i;
    }
    (add(s, std::forward<R>(r)), ...);
    note(this, s + ")");
  }
  SpyT(SpyT const & o) NXIF(4) : flag(o.flag), dbl(o.dbl), sum(o.sum) { note(this, "copy"); }
  SpyT(SpyT && o) NXIF(4) : flag(o.flag), dbl(o.dbl), sum(o.sum) { note(this, "move"); }
  SpyT & operator=(SpyT const & o) NXIF(8)
  {
    sum = o.sum;
    note(this, "copy-assign");
    return *this;
  }
  SpyT & operator=(SpyT && o) NXIF(8)
  {
    sum = o.sum;
    note(this, "move-assign");
    return *this;
  }
  template <class A, std::enable_if_t<is_tok<std::remove_cv_t<std::remove_reference_t<A>>>::value, int> = 0>
  SpyT & operator=(A && x) NXIF(8)
  {
    note(this, "assign(" + describe(x, std::is_lvalue_reference_v<A>, std::is_const_v<std::remove_reference_t<A>>) + ")");
    return *this;
  }
  ~SpyT() { note(this, "destroy"); }

private:
  template <class A>
  static void add(std::string & s, A && x)
  {
    s += describe(x, std::is_lvalue_reference_v<A>, std::is_const_v<std::remove_reference_t<A>>) + ",";
  }
};
using Spy = SpyT<0>;
using SpyC = SpyT<1>; // has a manipulator
struct SpyManip
{
  static bool is_empty(Spy const & s) noexcept { return s.flag == -7; }
  static void init_empty_flag(Spy & s) noexcept { ::new (static_cast<void *>(&s.flag)) int(-7); }
  static void invalidate_empty_flag(Spy &) noexcept { }
};
struct SentM9
{
  static constexpr int value = -9;
};
} // namespace

template <>
struct tiny::optional_flag_manipulator<SpyC>
{
  static bool is_empty(SpyC const & s) noexcept { return s.flag == -7; }
  static void init_empty_flag(SpyC & s) noexcept { ::new (static_cast<void *>(&s.flag)) int(-7); }
  static void invalidate_empty_flag(SpyC &) noexcept { }
};

namespace
{
// make_optional of the namespace the optional is from.
template <class O>
struct Mk
{
  static constexpr bool exists = false;
};
template <class P>
struct Mk<std::optional<P>>
{
  static constexpr bool exists = true;
  template <class... A>
  static auto make(A &&... a) { return std::make_optional<P>(std::forward<A>(a)...); }
  template <class U, class... A>
  static auto make_il(std::initializer_list<U> il, A &&... a) { return std::make_optional<P>(il, std::forward<A>(a)...); }
  template <class A>
  static auto deduced(A && a) { return std::make_optional(std::forward<A>(a)); }
};
template <class P, auto s, auto i>
struct Mk<tiny::optional<P, s, i>>
{
  static constexpr bool exists = true;
  template <class... A>
  static auto make(A &&... a) { return tiny::make_optional<P, s, i>(std::forward<A>(a)...); }
  template <class U, class... A>
  static auto make_il(std::initializer_list<U> il, A &&... a) { return tiny::make_optional<P, s, i>(il, std::forward<A>(a)...); }
  template <class A>
  static auto deduced(A && a) { return tiny::make_optional(std::forward<A>(a)); }
};

template <class V>
struct Result
{
  std::vector<Entry> log;
  bool has = false;
  void const * final = nullptr;
  std::string text() const
  {
    std::string s;
    std::vector<void const *> others;
    for (auto const & e : log) {
      if (e.self) {
        if (e.self == final) {
          s += "[contained]";
        }
        else {
          size_t k = 0;
          while (k < others.size() && others[k] != e.self) {
            ++k;
          }
          if (k == others.size()) {
            others.push_back(e.self);
          }
          s += "[other" + std::to_string(k) + "]";
        }
      }
      s += e.text + "; ";
    }
    s += has ? "engaged" : "empty";
    return s;
  }
};

template <class V>
void judge(const char * name, const char * what, Result<V> const & t, Result<V> const & s)
{
  mon::eval();
  std::string const a = t.text(), b = s.text();
  mon::seen(mon::mix(mon::mix(mon::str_hash(name), mon::str_hash(what)), mon::str_hash(a.c_str())));
  mon::count("construction events observed", t.log.size());
  if (a != b) {
    mon::fail("%s: %s: observed '%s', std::optional '%s'", name, what, a.c_str(), b.c_str());
  }
}

// An expression that makes an optional.
template <class R, class O>
Result<void> observe_make()
{
  Result<void> res;
  Ctx ctx;
  Tok<9> x;
  {
    alignas(O) unsigned char mem[sizeof(O)];
    std::memset(mem, 0xa5, sizeof mem);
    sink = &res.log;
    O * o = new (mem) O(R::template go<O>(ctx, x));
    sink = nullptr;
    res.has = o->has_value();
    res.final = res.has ? static_cast<void const *>(std::addressof(**o)) : nullptr;
    o->~O();
  }
  return res;
}
// A statement that changes an optional.
template <class R, class O>
Result<void> observe_mut(bool engaged)
{
  Result<void> res;
  Ctx ctx;
  Tok<9> x;
  {
    O o;
    if (engaged) {
      o.emplace();
    }
    sink = &res.log;
    R::template go<O>(o, ctx, x);
    sink = nullptr;
    res.has = o.has_value();
    res.final = res.has ? static_cast<void const *>(std::addressof(*o)) : nullptr;
  }
  return res;
}

#define CTX                                                                                                            \
  [[maybe_unused]] Tok<0> & a = ctx.a;                                                                                 \
  [[maybe_unused]] Tok<1> & b = ctx.b;                                                                                 \
  [[maybe_unused]] Tok<2> & c = ctx.c;                                                                                 \
  [[maybe_unused]] Tok<3> & d = ctx.d;                                                                                 \
  using P [[maybe_unused]] = typename O::value_type;                                                                   \
  using std::as_const;                                                                                                 \
  using std::in_place;                                                                                                 \
  using std::move;
#define MAKE(ID, ...)                                                                                                  \
  struct ID                                                                                                            \
  {                                                                                                                    \
    static const char * name() { return #__VA_ARGS__; }                                                                \
    template <class O>                                                                                                 \
    static O go([[maybe_unused]] Ctx & ctx, [[maybe_unused]] Tok<9> & x)                                               \
    {                                                                                                                  \
      CTX return __VA_ARGS__;                                                                                          \
    }                                                                                                                  \
  };
#define STMT(ID, ...)                                                                                                  \
  struct ID                                                                                                            \
  {                                                                                                                    \
    static const char * name() { return #__VA_ARGS__; }                                                                \
    template <class O>                                                                                                 \
    static void go(O & o, [[maybe_unused]] Ctx & ctx, [[maybe_unused]] Tok<9> & x)                                     \
    {                                                                                                                  \
      CTX __VA_ARGS__;                                                                                                 \
    }                                                                                                                  \
  };

template <class O>
O through(O o) // parameter initialised from the argument
{
  return o;
}
template <class T>
T const & cr(T const & t)
{
  return t;
}

MAKE(M0, O())
MAKE(M1, O{})
MAKE(M2, {})
MAKE(M3, std::nullopt)
MAKE(M4, O(std::nullopt))
MAKE(M5, O(a))
MAKE(M6, O(move(a)))
MAKE(M7, O(as_const(a)))
MAKE(M8, O(move(as_const(a))))
MAKE(M9, O{b})
MAKE(M10, b)
MAKE(M11, move(b))
MAKE(M12, as_const(b))
MAKE(M13, {c})
MAKE(M14, O(x))
MAKE(M15, O(move(x)))
MAKE(M16, O{as_const(x)})
MAKE(M17, O(in_place))
MAKE(M18, O{in_place})
MAKE(M19, O(in_place, x))
MAKE(M20, O(in_place, {1, 2, 3}))
MAKE(M21, O(in_place, {4}, a, move(b), as_const(c)))
MAKE(M22, O{in_place, {5, 6}, move(d)})
MAKE(M23, O(P(a)))
MAKE(M24, O(P()))
MAKE(M25, P(b))
MAKE(M26, O({a, b}))
MAKE(M27, O({}))
MAKE(M28, through<O>({}))
MAKE(M29, through<O>(std::nullopt))
MAKE(M30, through<O>(a))
MAKE(M31, O(O(a)))
MAKE(M32, O(cr(O(a))))
MAKE(M33, O(in_place, P(a)))
MAKE(M34, O(in_place, cr(P(a))))
MAKE(M35, O(cr(P(a))))
MAKE(M36, static_cast<O>(a))
MAKE(M37, static_cast<O>(x))
MAKE(M38, O(O()))
MAKE(M39, O(in_place, a, b, c, d))

MAKE(K0, Mk<O>::make())
MAKE(K1, Mk<O>::make(a))
MAKE(K2, Mk<O>::make(move(x)))
MAKE(K3, Mk<O>::make(as_const(a), move(b), c))
MAKE(K4, Mk<O>::template make_il<int>({1, 2, 3}))
MAKE(K5, Mk<O>::template make_il<int>({1, 2, 3}, a, move(b), as_const(c), move(as_const(d))))
MAKE(K6, Mk<O>::make(P(a)))
MAKE(K7, Mk<O>::make(cr(P(a))))
MAKE(K8, Mk<O>::make({}))

STMT(S0, o.emplace())
STMT(S1, o.emplace(a))
STMT(S2, o.emplace(move(a)))
STMT(S3, o.emplace(as_const(a), move(b), c, move(as_const(d))))
STMT(S4, o.emplace({1, 2, 3}))
STMT(S5, o.emplace({1, 2, 3}, a, move(b)))
STMT(S6, o.emplace(x))
STMT(S7, o.emplace(P(a)))
STMT(S8, o.emplace(cr(P(a))))
STMT(S9, o = a)
STMT(S10, o = move(a))
STMT(S11, o = as_const(a))
STMT(S12, o = move(as_const(a)))
STMT(S13, o = x)
STMT(S14, o = move(x))
STMT(S15, o = P(a))
STMT(S16, o = cr(P(a)))
STMT(S17, o = {})
STMT(S18, o = std::nullopt)
STMT(S19, o = {a, b})
STMT(S20, o = O(a))
STMT(S21, o = cr(O(a)))
STMT(S22, o = O())
STMT(S23, o = cr(O()))
STMT(S24, o = O{})
STMT(S25, auto t = o; o = t)
STMT(S26, (o = a) = std::nullopt)
STMT(S27, (o = std::nullopt) = b)
STMT(S28, o.emplace(a) = b)
STMT(S29, o.reset(); o.reset(); o = c)
STMT(S30, o = o.emplace(a))
STMT(S31, (o = {}) = {a, b})

template <class... R>
struct List
{
};
using Makers = List<M0, M1, M2, M3, M4, M5, M6, M7, M8, M9, M10, M11, M12, M13, M14, M15, M16, M17, M18, M19, M20, M21, M22, M23, M24,
                    M25, M26, M27, M28, M29, M30, M31, M32, M33, M34, M35, M36, M37, M38, M39>;
using MkMakers = List<K0, K1, K2, K3, K4, K5, K6, K7>;
using Stmts = List<S0, S1, S2, S3, S4, S5, S6, S7, S8, S9, S10, S11, S12, S13, S14, S15, S16, S17, S18, S19, S20, S21, S22, S23, S24,
                   S25, S26, S27, S28, S29, S30, S31>;

template <class O, class... R>
void makers(const char * name, List<R...>)
{
  using St = std::optional<typename O::value_type>;
  (judge(name, R::name(), observe_make<R, O>(), observe_make<R, St>()), ...);
}
template <class O, class... R>
void stmts(const char * name, List<R...>)
{
  using St = std::optional<typename O::value_type>;
  (judge(name, R::name(), observe_mut<R, O>(false), observe_mut<R, St>(false)), ...);
  (judge(name, R::name(), observe_mut<R, O>(true), observe_mut<R, St>(true)), ...);
}

// All combinations of categories of N arguments through every variadic route.
template <int C, class T>
decltype(auto) as(T & t)
{
  if constexpr (C == 0) {
    return static_cast<T &>(t);
  }
  else if constexpr (C == 1) {
    return static_cast<T const &>(t);
  }
  else if constexpr (C == 2) {
    return static_cast<T &&>(t);
  }
  else {
    return static_cast<T const &&>(t);
  }
}
template <int Route, int A, int B, int C> // -1: no argument
struct Combo
{
  template <class O>
  static O go(Ctx & ctx, Tok<9> &)
  {
    if constexpr (B < 0) {
      return route<O>(as<A>(ctx.a));
    }
    else if constexpr (C < 0) {
      return route<O>(as<A>(ctx.a), as<B>(ctx.b));
    }
    else {
      return route<O>(as<A>(ctx.a), as<B>(ctx.b), as<C>(ctx.c));
    }
  }
  template <class O, class... X>
  static O route(X &&... x)
  {
    if constexpr (Route == 0) {
      return O(std::in_place, std::forward<X>(x)...);
    }
    else if constexpr (Route == 1) {
      return O(std::in_place, {7, 8}, std::forward<X>(x)...);
    }
    else if constexpr (Route == 2) {
      if constexpr (Mk<O>::exists) {
        return Mk<O>::make(std::forward<X>(x)...);
      }
      else {
        return O(std::in_place, std::forward<X>(x)...);
      }
    }
    else {
      if constexpr (Mk<O>::exists) {
        return Mk<O>::template make_il<int>({3}, std::forward<X>(x)...);
      }
      else {
        return O(std::in_place, {3}, std::forward<X>(x)...);
      }
    }
  }
};
template <int Route, int A, int B, int C>
struct ComboS
{
  template <class O>
  static void go(O & o, Ctx & ctx, Tok<9> &)
  {
    if constexpr (B < 0) {
      route<O>(o, as<A>(ctx.a));
    }
    else if constexpr (C < 0) {
      route<O>(o, as<A>(ctx.a), as<B>(ctx.b));
    }
    else {
      route<O>(o, as<A>(ctx.a), as<B>(ctx.b), as<C>(ctx.c));
    }
  }
  template <class O, class... X>
  static void route(O & o, X &&... x)
  {
    decltype(std::addressof(*o)) p;
    if constexpr (Route == 0) {
      p = std::addressof(o.emplace(std::forward<X>(x)...));
    }
    else {
      p = std::addressof(o.emplace({7, 8}, std::forward<X>(x)...));
    }
    if (p != std::addressof(*o)) {
      mon::fail("emplace gives another object");
    }
  }
};
template <class O, int A, int B, int C>
void combo(const char * name)
{
  using St = std::optional<typename O::value_type>;
  char buf[100];
  int route = 0;
  auto judge = [&](const char *, const char *, auto const & x, auto const & y) {
    std::snprintf(buf, sizeof buf, "variadic route %d, arguments with categories %d %d %d", route++, A, B, C);
    ::judge(name, buf, x, y);
  };
  judge(name, buf, observe_make<Combo<0, A, B, C>, O>(), observe_make<Combo<0, A, B, C>, St>());
  judge(name, buf, observe_make<Combo<1, A, B, C>, O>(), observe_make<Combo<1, A, B, C>, St>());
  judge(name, buf, observe_make<Combo<2, A, B, C>, O>(), observe_make<Combo<2, A, B, C>, St>());
  judge(name, buf, observe_make<Combo<3, A, B, C>, O>(), observe_make<Combo<3, A, B, C>, St>());
  for (bool engaged : {false, true}) {
    judge(name, buf, observe_mut<ComboS<0, A, B, C>, O>(engaged), observe_mut<ComboS<0, A, B, C>, St>(engaged));
    judge(name, buf, observe_mut<ComboS<1, A, B, C>, O>(engaged), observe_mut<ComboS<1, A, B, C>, St>(engaged));
  }
}
template <class O, int A, int B>
void combos2(const char * name)
{
  combo<O, A, B, -1>(name);
  combo<O, A, B, (A + B) % 4>(name);
  combo<O, A, B, (A + 3 * B + 1) % 4>(name);
}
template <class O, int A>
void combos1(const char * name)
{
  combo<O, A, -1, -1>(name);
  combos2<O, A, 0>(name);
  combos2<O, A, 1>(name);
  combos2<O, A, 2>(name);
  combos2<O, A, 3>(name);
}

template <class O>
void spy(const char * name)
{
  mon::context("construction", name);
  CHECK((std::is_convertible_v<Tok<1> &, O> && std::is_constructible_v<O, Tok<9>> && !std::is_convertible_v<Tok<9>, O>), "explicitness");
  CHECK((!std::is_constructible_v<O, Tok<1>, Tok<2>> && !std::is_convertible_v<std::in_place_t, O>), "in_place");
  makers<O>(name, Makers{});
  stmts<O>(name, Stmts{});
  if constexpr (Mk<O>::exists) {
    makers<O>(name, MkMakers{});
  }
  combos1<O, 0>(name);
  combos1<O, 1>(name);
  combos1<O, 2>(name);
  combos1<O, 3>(name);
  mon::sample("%s: %d construction and assignment expressions", name, 40 + 32 * 2 + 8 + 52 * 8);
}

#if PART == 0
SUITE(s0, "spy separate bool")
{
  spy<tiny::optional<Spy>>("optional<Spy>");
}
#elif PART == 3
SUITE(s3, "spy inplace")
{
  spy<tiny::optional_inplace<Spy, SpyManip>>("optional_inplace<Spy>");
}
#elif PART == 1
SUITE(s1, "spy member")
{
  spy<tiny::optional<Spy, &Spy::flag, -9>>("optional<Spy,&flag,-9>");
}
#elif PART == 4
SUITE(s4, "spy via type")
{
  spy<tiny::optional_sentinel_via_type<Spy, SentM9, &Spy::flag>>("optional_sentinel_via_type<Spy,-9,&flag>");
}
#elif PART == 2
SUITE(s2, "spy manipulator")
{
  spy<tiny::optional<SpyC>>("optional<SpyC>");
}
#elif PART == 5
SUITE(s5, "spy double member")
{
  spy<tiny::optional<Spy, &Spy::dbl>>("optional<Spy,&dbl>");
}
#else

// --------------------------------------------------------------------------------------- values of ordinary types
template <class A, class B>
void same(const char * what)
{
  mon::eval();
  mon::seen(mon::str_hash(what));
  if (!std::is_same_v<A, B>) {
    mon::fail("another type than documented: %s", what);
  }
}
#define SAME(T, ...) same<T, __VA_ARGS__>(#T " is " #__VA_ARGS__)

#define VAL(COND)                                                                                                      \
  do {                                                                                                                 \
    mon::seen(mon::mix(mon::str_hash(#COND), __LINE__));                                                               \
    CHECK(COND);                                                                                                       \
  } while (0)

// ------------------------------------------------------------------------- parentheses, not braces, in every route
// Every constructor says which one it was. NX: all of them are noexcept.
template <bool Triv>
struct ParenBase
{
};
template <>
struct ParenBase<false>
{
  ParenBase() = default;
  ParenBase(ParenBase const &) = default;
  ParenBase & operator=(ParenBase const &) = default;
  ~ParenBase() { ++destroyed; }
  static inline long destroyed = 0;
};
template <bool NX, bool TrivDtor = true>
struct Paren : ParenBase<TrivDtor>
{
  int flag = 1;
  std::string_view how;
  long v = 0;
  Paren() noexcept(NX) : how("default") { }
  /*implicit*/ Paren(int a) noexcept(NX) : how("int"), v(a) { }
  Paren(int a, int b) noexcept(NX) : how("int,int"), v(a * 10 + b) { }
  Paren(long a, double b, int c) noexcept(NX) : how("long,double,int"), v(a * 100 + static_cast<long>(b) * 10 + c) { }
  Paren(std::initializer_list<int> l) noexcept(NX) : how("list"), v(sum(l)) { }
  Paren(std::initializer_list<int> l, int b) noexcept(NX) : how("list,int"), v(sum(l) * 10 + b) { }
  Paren(std::initializer_list<int> l, int b, int c) noexcept(NX) : how("list,int,int"), v(sum(l) * 100 + b * 10 + c) { }
  Paren(Paren const & o) noexcept(NX) : ParenBase<TrivDtor>(), how(o.how), v(o.v) { }
  Paren & operator=(Paren const & o) noexcept(NX)
  {
    how = o.how;
    v = o.v;
    return *this;
  }
  static long sum(std::initializer_list<int> l)
  {
    long s = 1000;
    for (int i : l) {
      s = s * 3 + i;
    }
    return s;
  }
};
template <class O>
std::string paren_routes()
{
  std::string out;
  auto say = [&](const char * route, O const & o) {
    out += std::string(route) + ":" + (o ? std::string(o->how) + "=" + std::to_string(o->v) : "empty") + "; ";
    mon::eval();
  };
  {
    O a(std::in_place), b(std::in_place, 3), c(std::in_place, 3, 4), d(std::in_place, 3, 4, 5), e(std::in_place, {3, 4}),
        f(std::in_place, {3, 4}, 5), g(std::in_place, {3, 4}, 5, 6);
    say("in_place()", a);
    say("in_place(1)", b);
    say("in_place(2)", c);
    say("in_place(3)", d);
    say("in_place(il)", e);
    say("in_place(il,1)", f);
    say("in_place(il,2)", g);
  }
  for (int engaged = 0; engaged < 2; ++engaged) {
    O o;
    auto prep = [&] {
      o.reset();
      if (engaged) {
        o.emplace(77);
      }
    };
    prep(), o.emplace(), say("emplace()", o);
    prep(), o.emplace(3), say("emplace(1)", o);
    prep(), o.emplace(3, 4), say("emplace(2)", o);
    prep(), o.emplace(3, 4, 5), say("emplace(3)", o);
    prep(), o.emplace(3L, 4.0, 5), say("emplace(3)", o);
    prep(), o.emplace({3, 4}), say("emplace(il)", o);
    prep(), o.emplace({3, 4}, 5), say("emplace(il,1)", o);
    prep(), o.emplace({3, 4}, 5, 6), say("emplace(il,2)", o);
    prep(), o = 5, say("= int", o);
    short const sh = 6;
    prep(), o = sh, say("= short", o);
    O const other(std::in_place, 8, 9);
    prep(), o = other, say("= copy", o);
    prep(), o = O(std::in_place, 1, 2), say("= move", o);
    prep(), o = *other, say("= payload", o);
  }
  {
    O a(5), b = 6, c(O(std::in_place, 3, 4)), d(*c), e = *c;
    O f{5};
    O g{*c};
    say("(int)", a);
    say("= int", b);
    say("(optional)", c);
    say("(payload)", d);
    say("= payload", e);
    say("{int}", f);
    say("{payload}", g);
    auto const vo = O().value_or(9);
    out += "value_or:" + std::string(vo.how) + "=" + std::to_string(vo.v) + "; ";
    mon::eval();
    if constexpr (Mk<O>::exists) {
      say("make()", Mk<O>::make());
      say("make(1)", Mk<O>::make(3));
      say("make(2)", Mk<O>::make(3, 4));
      say("make(3)", Mk<O>::make(3, 4, 5));
      say("make(il)", Mk<O>::make_il({3, 4}));
      say("make(il,1)", Mk<O>::make_il({3, 4}, 5));
      say("make(il,2)", Mk<O>::make_il({3, 4}, 5, 6));
    }
  }
  return out;
}
template <class P>
struct ParenManip
{
  static bool is_empty(P const & s) noexcept { return s.flag == -7; }
  static void init_empty_flag(P & s) noexcept { ::new (static_cast<void *>(std::addressof(s.flag))) int(-7); }
  static void invalidate_empty_flag(P &) noexcept { }
};
template <class O>
void paren_one(const char * name, const char * flavour, std::string const & ref)
{
  mon::context(name, flavour);
  std::string const got = paren_routes<O>();
  // make_optional exists not for all
  std::string const want = Mk<O>::exists ? ref : ref.substr(0, ref.find("make()"));
  size_t from = 0;
  while (from < got.size() && from < want.size()) {
    size_t const a = got.find(';', from), b = want.find(';', from);
    mon::seen(mon::mix(mon::mix(mon::str_hash(name), mon::str_hash(flavour)), mon::str_hash(got.substr(from, a - from).c_str()) + from));
    if (a != b || got.compare(from, a - from, want, from, b - from) != 0) {
      mon::fail("%s: %s instead of %s", flavour, got.substr(from, a - from).c_str(), want.substr(from, b - from).c_str());
      return;
    }
    from = a + 2;
  }
  CHECK(got.size() == want.size(), "routes");
}
template <class P>
void parens(const char * name)
{
  std::string const ref = paren_routes<std::optional<P>>();
  mon::count("construction routes", static_cast<uint64_t>(std::count(ref.begin(), ref.end(), ';')) * 4);
  paren_one<tiny::optional<P>>(name, "optional<P>", ref);
  paren_one<tiny::optional<P, &P::flag, -9>>(name, "optional<P,&flag,-9>", ref);
  paren_one<tiny::optional_sentinel_via_type<P, SentM9, &P::flag>>(name, "optional_sentinel_via_type<P,-9,&flag>", ref);
  paren_one<tiny::optional_inplace<P, ParenManip<P>>>(name, "optional_inplace<P>", ref);
  mon::sample("%s: %zu characters of routes equal in 4 flavours", name, ref.size());
}
SUITE(paren, "parentheses")
{
  parens<Paren<false>>("Paren");
  parens<Paren<true>>("Paren noexcept");
  parens<Paren<false, false>>("Paren with destructor");
  parens<Paren<true, false>>("Paren noexcept with destructor");
}

struct Both // distinguishes () from {}
{
  int n;
  bool list = false;
  Both(int a, int b) : n(a * 10 + b) { }
  Both(std::initializer_list<int> l) : n(static_cast<int>(l.size())), list(true) { }
};
struct Agg
{
  int x;
  double y;
};
struct Base
{
  virtual ~Base() = default;
  virtual int id() const { return 1; }
};
struct Derived : Base
{
  int id() const override { return 2; }
};
enum class Col : unsigned char
{
  R,
  G,
  Max
};
struct Pt
{
  int x = 3;
  float f = 1.5f;
  Pt() = default;
  explicit Pt(int v) : x(v) { }
  Pt(int v, float w) : x(v), f(w) { }
  Pt(std::initializer_list<int> l, int extra = 0) : x(static_cast<int>(l.size()) + extra) { }
};

template <class T>
bool empty_when_braced(T const & o)
{
  return !o.has_value();
}

SUITE(guide, "deduction guide")
{
  int i = 4;
  int const ci = 5;
  int arr[3] = {1, 2, 3};
  tiny::optional a(i);
  SAME(decltype(a), tiny::optional<int>);
  VAL(*a == 4);
  tiny::optional b(ci);
  SAME(decltype(b), tiny::optional<int>);
  tiny::optional c(2.5);
  SAME(decltype(c), tiny::optional<double>);
  VAL(*c == 2.5);
  tiny::optional d("text");
  SAME(decltype(d), tiny::optional<const char *>);
  VAL(std::string(*d) == "text");
  tiny::optional e(arr);
  SAME(decltype(e), tiny::optional<int *>);
  VAL(*e == arr);
  tiny::optional f(std::string("abc"));
  SAME(decltype(f), tiny::optional<std::string>);
  VAL(*f == "abc");
  tiny::optional g(f);
  SAME(decltype(g), tiny::optional<std::string>);
  VAL(*g == "abc" && *f == "abc");
  tiny::optional h(std::make_unique<int>(7));
  SAME(decltype(h), tiny::optional<std::unique_ptr<int>>);
  VAL(**h == 7);
  tiny::optional k(std::move(h));
  SAME(decltype(k), tiny::optional<std::unique_ptr<int>>);
  VAL(**k == 7);
  tiny::optional l{true};
  SAME(decltype(l), tiny::optional<bool>);
  VAL(*l);
  tiny::optional m = Col::G;
  SAME(decltype(m), tiny::optional<Col>);
  tiny::optional<int, -1> withSentinel(3);
  tiny::optional n(withSentinel);
  using OS = tiny::optional<int, -1>;
  SAME(decltype(n), OS);
  VAL(*n == 3);
  tiny::optional p(std::optional<int>(3));
  SAME(decltype(p), tiny::optional<std::optional<int>>);
  VAL(**p == 3);
  tiny::optional q{std::vector<int>(3, 7)};
  SAME(decltype(q), tiny::optional<std::vector<int>>);
  VAL(q->size() == 3);
  auto lam = [](int z) { return z + 1; };
  tiny::optional r(lam);
  VAL((*r)(4) == 5);
  tiny::optional s(Pt(3));
  VAL(s->x == 3);
  tiny::optional t(&Pt::x);
  SAME(decltype(t), tiny::optional<int Pt::*>);
}

SUITE(makes, "make_optional")
{
  auto a = tiny::make_optional(5);
  SAME(decltype(a), tiny::optional<int>);
  VAL(*a == 5);
  int const ci = 6;
  auto b = tiny::make_optional(ci);
  SAME(decltype(b), tiny::optional<int>);
  VAL(*b == 6);
  auto c = tiny::make_optional("abc");
  SAME(decltype(c), tiny::optional<const char *>);
  VAL(std::string(*c) == "abc");
  auto d = tiny::make_optional<std::string>("abc");
  SAME(decltype(d), tiny::optional<std::string>);
  VAL(*d == "abc");
  auto e = tiny::make_optional<std::string>(3u, 'x');
  VAL(*e == "xxx");
  auto f = tiny::make_optional<std::string>({'a', 'b'});
  VAL(*f == "ab");
  auto g = tiny::make_optional<std::vector<int>>({1, 2, 3}, std::allocator<int>());
  VAL(g->size() == 3 && (*g)[2] == 3);
  auto h = tiny::make_optional<std::vector<int>>(3, 7);
  VAL(h->size() == 3 && (*h)[0] == 7);
  auto k = tiny::make_optional<int, -1>(5);
  using K = tiny::optional<int, -1>;
  SAME(decltype(k), K);
  VAL(*k == 5 && sizeof(k) == sizeof(int));
  auto k0 = tiny::make_optional<int, -1>();
  VAL(k0.has_value() && *k0 == 0);
  auto l = tiny::make_optional<Pt, &Pt::x, -1>(8, 2.5f);
  using L = tiny::optional<Pt, &Pt::x, -1>;
  SAME(decltype(l), L);
  VAL(l->x == 8 && l->f == 2.5f);
  auto m = tiny::make_optional<Pt, &Pt::f>(9);
  using M = tiny::optional<Pt, &Pt::f>;
  SAME(decltype(m), M);
  VAL(m->x == 9 && m->f == 1.5f);
  auto n = tiny::make_optional<Pt, &Pt::f>({1, 2, 3}, 10);
  SAME(decltype(n), M);
  VAL(n->x == 13);
  auto n2 = tiny::make_optional<Pt, &Pt::f>();
  VAL(n2.has_value() && n2->x == 3);
  auto p = tiny::make_optional(std::make_unique<int>(3));
  SAME(decltype(p), tiny::optional<std::unique_ptr<int>>);
  VAL(**p == 3);
  auto q = tiny::make_optional<std::unique_ptr<Base>>(std::make_unique<Derived>());
  VAL((*q)->id() == 2);
  auto r = tiny::make_optional<Both>(3, 4);
  VAL(r->n == 34 && !r->list);
  auto r2 = tiny::make_optional<Both>({3, 4});
  VAL(r2->n == 2 && r2->list);
  auto s = tiny::make_optional<bool>(true);
  VAL(s.has_value() && *s);
  auto s2 = tiny::make_optional<bool>();
  VAL(s2.has_value() && !*s2);
  auto t = tiny::make_optional<Col, Col::Max>(Col::G);
  using T = tiny::optional<Col, Col::Max>;
  SAME(decltype(t), T);
  VAL(*t == Col::G);
  auto u = tiny::make_optional<double>();
  VAL(u.has_value() && *u == 0.0);
  auto v = tiny::make_optional<int *>(nullptr);
  VAL(v.has_value() && *v == nullptr);
  auto w = tiny::make_optional(nullptr);
  SAME(decltype(w), tiny::optional<std::nullptr_t>);
  VAL(w.has_value());
  auto x = tiny::make_optional(tiny::optional<int>());
  SAME(decltype(x), tiny::optional<tiny::optional<int>>);
  VAL(x.has_value() && !x->has_value());
  Pt const cpt(44);
  auto y = tiny::make_optional(cpt);
  SAME(decltype(y), tiny::optional<Pt>);
  VAL(y->x == 44);
  auto z = tiny::make_optional<Pt, &Pt::x, -5>(Pt(45));
  using Z = tiny::optional<Pt, &Pt::x, -5>;
  SAME(decltype(z), Z);
  VAL(z->x == 45);
  auto z2 = tiny::make_optional<Pt, &Pt::x, -5>(cpt);
  SAME(decltype(z2), Z);
  VAL(z2->x == 44);
  auto const cz = tiny::make_optional<std::pair<int, std::string>>(3, "pair");
  VAL(cz->first == 3 && cz->second == "pair");
  auto pw = tiny::make_optional<std::pair<std::unique_ptr<int>, std::string>>(
      std::piecewise_construct, std::forward_as_tuple(new int(4)), std::forward_as_tuple(3u, 'c'));
  VAL(*pw->first == 4 && pw->second == "ccc");
}

// One set of expressions on ordinary types, run for tiny and std alike.
template <template <class> class Opt>
void ordinary(std::vector<std::string> & out)
{
  auto put = [&](bool b) { out.push_back(b ? "1" : "0"); };
  auto num = [&](double b) { out.push_back(std::to_string(b)); };
  {
    Opt<std::string> a("abc"), b(std::in_place, 3u, 'x'), c(std::in_place, {'a', 'b'}), d = std::string("d"), e{std::in_place};
    out.insert(out.end(), {*a, *b, *c, *d, *e});
    a.emplace(2u, 'y');
    b.emplace({'q'});
    c = "assigned";
    d = {};
    out.insert(out.end(), {*a, *b, *c});
    put(d.has_value());
    d = {'l', 'i'};
    out.push_back(*d);
    d = "zz";
    out.push_back(*d);
    d = {};
    put(d.has_value());
  }
  {
    Opt<std::vector<int>> a(std::in_place, 3, 7), b(std::in_place, {3, 7}), c({3, 7, 9});
    num(static_cast<double>(a->size()));
    num(static_cast<double>(b->size()));
    num(static_cast<double>(c->size()));
    a.emplace(5, 1);
    b.emplace({5, 1});
    num(static_cast<double>(a->size()));
    num(static_cast<double>(b->size()));
    a = {1, 2, 3, 4};
    num(static_cast<double>(a->size()));
    a = {};
    put(a.has_value());
  }
  {
    Opt<int> a(3.99), b(std::in_place, 2.5), c = 'x', d{true}, e(std::in_place);
    num(*a);
    num(*b);
    num(*c);
    num(*d);
    num(*e);
    a = 5.5;
    num(*a);
    a = {};
    put(a.has_value());
    a = {7};
    put(a.has_value());
    num(a.value_or(-1));
    a = 0;
    put(a.has_value());
    a.emplace('a');
    num(*a);
  }
  {
    Opt<double> a(1), b(std::in_place, 2), c(true);
    num(*a);
    num(*b);
    num(*c);
    a = 5;
    num(*a);
    a = {};
    put(a.has_value());
    a = 0;
    put(a.has_value());
    a.emplace();
    num(*a);
  }
  {
    int x = 3;
    Opt<int *> a(nullptr), b(&x), c(std::in_place), d(std::in_place, nullptr), e;
    put(a.has_value());
    put(*a == nullptr);
    put(*b == &x);
    put(c.has_value() && *c == nullptr);
    put(d.has_value());
    put(e.has_value());
    b = nullptr;
    put(b.has_value());
    b = {};
    put(b.has_value());
    b = &x;
    put(**b == 3);
  }
  {
    Opt<bool> a(false), b(std::in_place), c(1 > 2), d(nullptr != out.data());
    put(a.has_value());
    put(*a);
    put(*b);
    put(*c);
    put(*d);
    a = true;
    put(*a);
    a = false;
    put(a.has_value());
    a = {};
    put(a.has_value());
    a = {true};
    put(a.has_value() && *a);
  }
  {
    Opt<std::unique_ptr<Base>> a(std::make_unique<Derived>()), b(nullptr), c(std::in_place, new Derived), d(std::in_place);
    num((*a)->id());
    put(b.has_value());
    num((*c)->id());
    put(d.has_value() && !*d);
    b = std::make_unique<Derived>();
    num((*b)->id());
    b = nullptr;
    put(b.has_value() && *b == nullptr);
    b = {};
    put(b.has_value());
  }
  {
    Opt<std::function<int()>> a([] { return 5; }), b(std::in_place), c(nullptr);
    num((*a)());
    put(b.has_value() && !*b);
    put(c.has_value() && !*c);
    a = [] { return 6; };
    num((*a)());
    a = nullptr;
    put(a.has_value());
    a = std::nullopt;
    put(a.has_value());
  }
  {
    Opt<std::atomic<int>> a(std::in_place, 5), b(std::in_place);
    num(a->load());
    a.emplace(7);
    num(a->load());
    a.reset();
    put(a.has_value());
    put(b.has_value());
    Opt<std::mutex> m;
    put(m.has_value());
    m.emplace();
    put(m->try_lock());
    m->unlock();
    m = std::nullopt;
    put(m.has_value());
  }
  {
    Opt<std::any> a(5), b(std::nullopt), c(std::in_place), d(std::string("s"));
    put(a.has_value() && a->has_value());
    put(b.has_value());
    put(c.has_value() && !c->has_value());
    put(d->type() == typeid(std::string));
    Opt<std::any> e(d), f(std::move(a));
    put(e->type() == typeid(std::string));
    put(f->type() == typeid(int));
    e = 5.5;
    put(e->type() == typeid(double));
    e = std::nullopt;
    put(e.has_value());
    e = {};
    put(e.has_value());
    e = f;
    put(e->type() == typeid(int));
  }
  {
    using V = std::variant<std::monostate, int, std::string>;
    Opt<V> a(5), b(std::in_place), c("text"), d(std::in_place, std::in_place_index<1>, 7);
    num(static_cast<double>(a->index()));
    num(static_cast<double>(b->index()));
    num(static_cast<double>(c->index()));
    num(std::get<1>(*d));
    a = std::string("x");
    num(static_cast<double>(a->index()));
    a = {};
    put(a.has_value());
    a.emplace(std::in_place_type<std::string>, 3u, 'x');
    out.push_back(std::get<2>(*a));
  }
  {
    Opt<std::pair<int, std::string>> a(std::in_place, 1, "one"), b({2, "two"}), c(std::make_pair(3, "three")),
        d(std::in_place, std::piecewise_construct, std::forward_as_tuple(4), std::forward_as_tuple(3u, 'x'));
    out.insert(out.end(), {a->second, b->second, c->second, d->second});
    a = {5, "five"};
    out.push_back(a->second);
    a = {};
    put(a.has_value());
  }
  {
    Opt<std::tuple<int, double>> a(std::in_place, 1, 2.5), b(std::make_tuple(3, 4.5)), c({1, 2.5});
    num(std::get<1>(*a));
    num(std::get<1>(*b));
    num(std::get<1>(*c));
    Opt<std::array<int, 3>> r({1, 2, 3});
    num((*r)[2]);
    r = {4, 5, 6};
    num((*r)[2]);
    Opt<std::map<int, int>> m(std::in_place, {std::pair<int const, int>{1, 2}, std::pair<int const, int>{3, 4}});
    num(static_cast<double>(m->size()));
    Opt<std::complex<double>> z(std::in_place, 1.0, 2.0), y(1.5), x({1.0, 3.0});
    num(z->imag());
    num(y->imag());
    num(x->imag());
  }
  {
    Opt<Both> a(std::in_place, 3, 4), b(std::in_place, {3, 4, 5}), c({3, 4}), d;
    num(a->n);
    num(b->n);
    num(c->n);
    put(c->list);
    a.emplace(5, 6);
    num(a->n);
    put(a->list);
    a.emplace({5, 6});
    num(a->n);
    put(a->list);
    a = {7, 8};
    num(a->n);
    put(a->list);
    put(d.has_value());
  }
  {
    Opt<Agg> a(Agg{1, 2.5}), b({3, 4.5}), c;
    num(a->y);
    num(b->y);
    c = {5, 6.5};
    num(c->y);
    c = {};
    put(c.has_value());
    c = Agg{};
    put(c.has_value());
    if constexpr (std::is_constructible_v<Agg, int, double>) { // C++20
      Opt<Agg> d(std::in_place, 7, 8.5);
      num(d->y);
      d.emplace(9, 1.5);
      num(d->y);
    }
    Opt<Agg> e(std::in_place);
    num(e->x);
    num(e->y); // value-initialised
    e->x = 77;
    e.emplace();
    num(e->x);
  }
  {
    Opt<std::vector<bool>> a(std::in_place, 3u, true), b({true, false});
    num(static_cast<double>(a->size()));
    num(static_cast<double>(b->size()));
    Opt<std::shared_ptr<Base>> s(std::make_shared<Derived>()), t(std::make_unique<Derived>()), u(nullptr);
    num((*s)->id());
    num((*t)->id());
    put(u.has_value());
    Opt<std::shared_ptr<Base>> v(s);
    num(static_cast<double>(s->use_count()));
    v.reset();
    num(static_cast<double>(s->use_count()));
    Opt<char const *> p("abc");
    put(p.has_value() && (*p)[1] == 'b');
    Opt<long long> ll(3), lm(std::in_place, true);
    num(static_cast<double>(*ll + *lm));
    Opt<float> fl(1), fm(2.5);
    num(*fl + *fm);
  }
}
template <class T>
using TinyOpt = tiny::optional<T>;
template <class T>
using StdOpt = std::optional<T>;
SUITE(ord, "ordinary types")
{
  std::vector<std::string> a, b;
  ordinary<TinyOpt>(a);
  ordinary<StdOpt>(b);
  CHECK(a.size() == b.size());
  for (size_t i = 0; i < a.size() && i < b.size(); ++i) {
    mon::eval();
    mon::seen(mon::mix(i, 12345));
    if (a[i] != b[i]) {
      mon::fail("observation %zu of ordinary(): %s, with std::optional %s", i, a[i].c_str(), b[i].c_str());
    }
  }
  mon::count("ordinary observations", a.size());
}

// nullopt, {} and in_place for nested optionals
template <class Outer, class Inner>
void nested(const char * name)
{
  mon::context("nested", name);
  VAL(!Outer().has_value());
  VAL(!Outer(std::nullopt).has_value());
  VAL(!Outer{std::nullopt}.has_value());
  Outer a = std::nullopt, b = {}, c(std::in_place), d(std::in_place, std::nullopt);
  Outer e{Inner()}, f(Inner(5)), g = Inner(std::nullopt);
  VAL(!a.has_value() && !b.has_value());
  VAL(c.has_value() && !c->has_value());
  VAL(d.has_value() && !d->has_value());
  VAL(e.has_value() && !e->has_value());
  VAL(f.has_value() && f->has_value() && **f == 5);
  VAL(g.has_value() && !g->has_value());
  f = {};
  VAL(!f.has_value());
  f = Inner();
  VAL(f.has_value() && !f->has_value());
  f = std::nullopt;
  VAL(!f.has_value());
  f.emplace();
  VAL(f.has_value() && !f->has_value());
  f.emplace(7);
  VAL(f.has_value() && **f == 7);
  f.emplace(std::nullopt);
  VAL(f.has_value() && !f->has_value());
  *f = 8;
  VAL(**f == 8);
  *f = std::nullopt;
  VAL(f.has_value() && !f->has_value());
  Outer h(f);
  VAL(h.has_value() && !h->has_value());
  h = a;
  VAL(!h.has_value());
}
struct NestManip
{
};
SUITE(nest, "nested")
{
  using TI = tiny::optional<int>;
  using TS = tiny::optional<int, -1>;
  using TD = tiny::optional<double>;
  nested<std::optional<std::optional<int>>, std::optional<int>>("std (control)");
  nested<tiny::optional<TI>, TI>("optional<optional<int>>");
  nested<tiny::optional<TS>, TS>("optional<optional<int,-1>>");
  nested<tiny::optional<TD>, TD>("optional<optional<double>>");
  nested<tiny::optional<std::optional<int>>, std::optional<int>>("optional<std::optional<int>>");
  nested<std::optional<TI>, TI>("std::optional<optional<int>>");
}

// Flavours with scalar payloads: every route stores the given number.
template <class O>
void scalar(const char * name)
{
  mon::context("scalar", name);
  using P = typename O::value_type;
  for (int v : {0, 1, 2, 3, 42, 100, 126}) {
    P const p = static_cast<P>(v);
    O a(p), b(std::in_place, p), c = p, d{p}, e;
    e = p;
    O f;
    f.emplace(p);
    O g(std::in_place, v);
    O h(v);
    O k(static_cast<short>(v));
    O l;
    l = static_cast<short>(v);
    O m;
    m.emplace(static_cast<signed char>(v));
    VAL(*a == p && *b == p && *c == p && *d == p && *e == p && *f == p && *g == p && *h == p && *k == p && *l == p && *m == p);
    e = {};
    VAL(!e.has_value());
    e = {p};
    VAL(e.has_value() && *e == p);
    e = std::nullopt;
    VAL(!e.has_value());
  }
  O z(std::in_place), y{}, x = {}, w = std::nullopt;
  VAL(z.has_value() && *z == P());
  VAL(!y.has_value() && !x.has_value() && !w.has_value());
  z.emplace();
  VAL(*z == P());
}
struct SentFlt
{
  static constexpr float value = -1.0f;
};
struct SentI
{
  static constexpr int value = -1;
};
using SM = tiny::sentinel_flag_manipulator<int, -1>;
SUITE(scal, "scalar flavours")
{
#define SC(...) scalar<__VA_ARGS__>(#__VA_ARGS__)
  SC(std::optional<int>);
  SC(tiny::optional<int>);
  SC(tiny::optional<int, -1>);
  SC(tiny::optional<int, INT32_MIN>);
  SC(tiny::optional<unsigned char, 255>);
  SC(tiny::optional<signed char, -128>);
  SC(tiny::optional<short, -1>);
  SC(tiny::optional<long long, -1>);
  SC(tiny::optional<unsigned long long, ~0ull>);
  SC(tiny::optional<double>);
  SC(tiny::optional<float>);
  SC(tiny::optional<long double>);
  SC(tiny::optional_sentinel_via_type<int, SentI>);
  SC(tiny::optional_sentinel_via_type<float, SentFlt>);
  SC(tiny::optional_aip<int>);
  SC(tiny::optional_aip<unsigned short>);
  SC(tiny::optional_aip<short>);
  SC(tiny::optional_aip<unsigned long>);
  SC(tiny::optional_aip<double>);
  SC(tiny::optional_inplace<int, SM>);
  SC(tiny::optional<char, 'z'>);
}
#endif
} // namespace
