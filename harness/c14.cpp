// C14: what can be done with an optional, which types the expressions have and what is noexcept, read from the library for many
// payload types and flavours and compared with what std::optional gives for the same payload type.
#include "kinds.h"
#include <any>
#include <functional>

#ifndef PART
  #define PART 0
#endif

namespace
{
// ------------------------------------------------------------------------------------------------ one row of facts
struct Row
{
  static constexpr int kMax = 400;
  const char * name[kMax];
  long v[kMax];
  int n = 0;
  void add(const char * s, long x)
  {
    if (n < kMax) {
      name[n] = s;
      v[n] = x;
    }
    ++n;
  }
};

// The payload type as written by the user, not as reported by the optional itself (the aliases can only be asked).
template <class O>
struct payload_of
{
  using type = typename O::value_type;
};
template <class P, auto a, auto b>
struct payload_of<tiny::optional<P, a, b>>
{
  using type = P;
};
template <class O>
using payload_of_t = typename payload_of<O>::type;

// Encodes a type relative to the optional O and its payload.
template <class O, class T>
long enc()
{
  using R = std::remove_reference_t<T>;
  using B = std::remove_cv_t<R>;
  using P = payload_of_t<O>;
  long q = (std::is_const_v<R> ? 1 : 0) + (std::is_volatile_v<R> ? 2 : 0) + (std::is_lvalue_reference_v<T> ? 4 : 0)
           + (std::is_rvalue_reference_v<T> ? 8 : 0);
  long b = std::is_same_v<B, O> ? 1
           : std::is_same_v<B, std::remove_cv_t<P>> ? 2
           : std::is_same_v<B, bool> ? 3
           : std::is_void_v<B> ? 4
           : std::is_same_v<B, P *> ? 5
           : std::is_same_v<B, P const *> ? 6
           : std::is_same_v<B, size_t> ? 7
                                         : 99;
#if defined(__cpp_lib_three_way_comparison)
  b = std::is_same_v<B, std::strong_ordering> ? 10
      : std::is_same_v<B, std::weak_ordering> ? 11
      : std::is_same_v<B, std::partial_ordering> ? 12
                                                 : b;
#endif
  return b * 16 + q;
}

template <class, template <class...> class F, class... A>
struct detect : std::false_type
{
  template <class O>
  static long type() { return 0; }
};
template <template <class...> class F, class... A>
struct detect<std::void_t<F<A...>>, F, A...> : std::true_type
{
  template <class O>
  static long type() { return enc<O, F<A...>>(); }
};
template <class O, template <class...> class F, class... A>
long ty() // 0: not well-formed
{
  return detect<void, F, A...>::template type<O>();
}

#define EXPR1(NAME, ...)                                                                                               \
  template <class A>                                                                                                   \
  using NAME = decltype(__VA_ARGS__)
#define EXPR2(NAME, ...)                                                                                               \
  template <class A, class B>                                                                                          \
  using NAME = decltype(__VA_ARGS__)
#define DV(T) std::declval<T>()

EXPR1(E_deref, *DV(A));
EXPR1(E_arrow, DV(A).operator->());
EXPR1(E_value, DV(A).value());
EXPR1(E_has, DV(A).has_value());
EXPR1(E_bool, static_cast<bool>(DV(A)));
EXPR1(E_not, !DV(A));
EXPR1(E_reset, DV(A).reset());
EXPR2(E_valueor, DV(A).value_or(DV(B)));
EXPR2(E_assign, DV(A) = DV(B));
EXPR1(E_brace, DV(A) = {});
EXPR1(E_swapm, DV(A).swap(DV(A)));
EXPR2(E_emplil, DV(A).emplace({DV(B), DV(B)}));
EXPR2(E_emplil2, DV(A).emplace({1, 2}, DV(B)));
EXPR2(E_eq, DV(A) == DV(B));
EXPR2(E_ne, DV(A) != DV(B));
EXPR2(E_lt, DV(A) < DV(B));
EXPR2(E_le, DV(A) <= DV(B));
EXPR2(E_gt, DV(A) > DV(B));
EXPR2(E_ge, DV(A) >= DV(B));
#if defined(__cpp_lib_three_way_comparison)
EXPR2(E_3w, DV(A) <=> DV(B));
#endif

template <class T, class = void>
struct can_copy_list_init_empty : std::false_type
{
};
template <class T>
void take(T);
template <class T>
struct can_copy_list_init_empty<T, std::void_t<decltype(take<T>({}))>> : std::true_type
{
};

#define NX(...) (noexcept(__VA_ARGS__) ? 1 : 0)

// Facts that exist for every payload.
template <class O>
void base_row(Row & r)
{
  using P = payload_of_t<O>;
  r.add("value_type const", std::is_const_v<typename O::value_type>);
  r.add("value_type volatile", std::is_volatile_v<typename O::value_type>);
  r.add("value_type is the payload", std::is_same_v<typename O::value_type, P>);
  r.add("default constructible", std::is_default_constructible_v<O>);
  r.add("nothrow default constructible", std::is_nothrow_default_constructible_v<O>);
  r.add("copy constructible", std::is_copy_constructible_v<O>);
  r.add("move constructible", std::is_move_constructible_v<O>);
  r.add("copy assignable", std::is_copy_assignable_v<O>);
  r.add("move assignable", std::is_move_assignable_v<O>);
  if constexpr (std::is_move_constructible_v<P>) {
    r.add("nothrow move constructible", std::is_nothrow_move_constructible_v<O>);
  }
  if constexpr (std::is_move_constructible_v<P> && std::is_move_assignable_v<P>) {
    r.add("nothrow move assignable", std::is_nothrow_move_assignable_v<O>);
  }
  r.add("constructible from O&", std::is_constructible_v<O, O &>);
  r.add("constructible from O const&&", std::is_constructible_v<O, O const>);
  r.add("convertible from O&", std::is_convertible_v<O &, O>);
  r.add("convertible from O", std::is_convertible_v<O, O>);
  r.add("convertible from O const&", std::is_convertible_v<O const &, O>);
  r.add("assignable from O&", std::is_assignable_v<O &, O &>);
  r.add("assignable from O const&&", std::is_assignable_v<O &, O const>);
  r.add("const assignable", std::is_assignable_v<O const &, O const &>);
  r.add("destructible", std::is_nothrow_destructible_v<O>);
  // Otherwise only the absence of optional's own overload is specified; the generic std::swap might still apply (libstdc++ adds a
  // deleted overload that prevents this, which is an extension).
  if constexpr (std::is_swappable_v<P> && std::is_move_constructible_v<P>) {
    r.add("swappable", std::is_swappable_v<O>);
    r.add("nothrow swappable", std::is_nothrow_swappable_v<O>);
    r.add("member swap", ty<O, E_swapm, O &>());
    r.add("nothrow member swap", NX(DV(O &).swap(DV(O &))));
  }
  r.add("swappable with const", std::is_swappable_with_v<O &, O const &>);
  r.add("swappable with payload", std::is_swappable_with_v<O &, P &>);

  r.add("convertible from nullopt", std::is_convertible_v<std::nullopt_t, O>);
  r.add("nothrow constructible from nullopt", std::is_nothrow_constructible_v<O, std::nullopt_t>);
  r.add("constructible from nullopt const&", std::is_constructible_v<O, std::nullopt_t const &>);
  r.add("= nullopt", ty<O, E_assign, O &, std::nullopt_t>());
  r.add("nothrow = nullopt", std::is_nothrow_assignable_v<O &, std::nullopt_t>);
  r.add("const = nullopt", std::is_assignable_v<O const &, std::nullopt_t>);
  r.add("from {}", can_copy_list_init_empty<O>::value);
  r.add("= {}", ty<O, E_brace, O &>());
  r.add("= O", ty<O, E_assign, O &, O>());
  r.add("= O const&", ty<O, E_assign, O &, O const &>());

  r.add("convertible to bool", std::is_convertible_v<O, bool>);
  r.add("convertible to int", std::is_convertible_v<O, int>);
  r.add("constructs bool", std::is_constructible_v<bool, O const &>);
  r.add("nothrow bool", NX(static_cast<bool>(DV(O const &))));
  r.add("has_value type", ty<O, E_has, O const &>());
  r.add("nothrow has_value", NX(DV(O const &).has_value()));
  r.add("reset type", ty<O, E_reset, O &>());
  r.add("nothrow reset", NX(DV(O &).reset()));
  r.add("const reset", ty<O, E_reset, O const &>());

  r.add("*&", ty<O, E_deref, O &>());
  r.add("*const&", ty<O, E_deref, O const &>());
  r.add("*&&", ty<O, E_deref, O>());
  r.add("*const&&", ty<O, E_deref, O const>());
  r.add("nothrow *", NX(*DV(O &)) + 2 * NX(*DV(O const &)) + 4 * NX(*DV(O)) + 8 * NX(*DV(O const)));
  r.add("->", ty<O, E_arrow, O &>());
  r.add("-> const", ty<O, E_arrow, O const &>());
  r.add("nothrow ->", NX(DV(O &).operator->()) + 2 * NX(DV(O const &).operator->()));
  r.add("value &", ty<O, E_value, O &>());
  r.add("value const&", ty<O, E_value, O const &>());
  r.add("value &&", ty<O, E_value, O>());
  r.add("value const&&", ty<O, E_value, O const>());

  r.add("== nullopt", ty<O, E_eq, O const &, std::nullopt_t>());
  r.add("nullopt ==", ty<O, E_eq, std::nullopt_t, O const &>());
  r.add("!= nullopt", ty<O, E_ne, O const &, std::nullopt_t>());
  r.add("nullopt !=", ty<O, E_ne, std::nullopt_t, O const &>());
  r.add("< nullopt", ty<O, E_lt, O const &, std::nullopt_t>());
  r.add("nullopt <", ty<O, E_lt, std::nullopt_t, O const &>());
  r.add("nullopt >=", ty<O, E_ge, std::nullopt_t, O const &>());
  r.add("nothrow == nullopt", NX(DV(O const &) == std::nullopt) + 2 * NX(std::nullopt == DV(O const &))
                                  + 4 * NX(DV(O const &) != std::nullopt) + 8 * NX(std::nullopt != DV(O const &))
                                  + 16 * NX(DV(O const &) < std::nullopt) + 32 * NX(std::nullopt < DV(O const &))
                                  + 64 * NX(DV(O const &) >= std::nullopt) + 128 * NX(std::nullopt >= DV(O const &)));
#if defined(__cpp_lib_three_way_comparison)
  r.add("<=> nullopt", ty<O, E_3w, O const &, std::nullopt_t>());
  r.add("nullopt <=>", ty<O, E_3w, std::nullopt_t, O const &>());
  r.add("nothrow <=> nullopt", NX(DV(O const &) <=> std::nullopt));
#endif
  r.add("in_place", std::is_constructible_v<O, std::in_place_t>);
  r.add("convertible from in_place", std::is_convertible_v<std::in_place_t, O>);
  r.add("invocable", std::is_invocable_v<O>);
  r.add("hashable", std::is_default_constructible_v<std::hash<O>>);
  r.add("hash copyable", std::is_copy_constructible_v<std::hash<O>> && std::is_copy_assignable_v<std::hash<O>>);
  r.add("hash callable", std::is_invocable_r_v<size_t, std::hash<O>, O const &>);
}

// Facts about one argument type.
template <class O, class T>
void arg_row(Row & r)
{
  using P = payload_of_t<O>;
  r.add("constructible", std::is_constructible_v<O, T>);
  r.add("convertible", std::is_convertible_v<T, O>);
  r.add("assignable", std::is_assignable_v<O &, T>);
  r.add("const assignable", std::is_assignable_v<O const &, T>);
  r.add("= type", ty<O, E_assign, O &, T>());
  r.add("in_place", std::is_constructible_v<O, std::in_place_t, T>);
  r.add("in_place, int", std::is_constructible_v<O, std::in_place_t, T, int>);
  r.add("in_place il", std::is_constructible_v<O, std::in_place_t, std::initializer_list<int>, T>);
  r.add("in_place il&", std::is_constructible_v<O, std::in_place_t, std::initializer_list<int> &>);
  r.add("in_place_t const", std::is_constructible_v<O, std::in_place_t const &, T>);
  r.add("two arguments", std::is_constructible_v<O, T, T>);
  r.add("emplace il", ty<O, E_emplil, O &, std::remove_cv_t<std::remove_reference_t<T>>>());
  r.add("emplace il, T", ty<O, E_emplil2, O &, T>());
  if constexpr (std::is_copy_constructible_v<P> && std::is_convertible_v<T, P>) {
    r.add("value_or const&", ty<O, E_valueor, O const &, T>() & ~1l); // std::optional of libstdc++ keeps the const (LWG 3424)
    r.add("value_or const& drops const", std::is_same_v<O, std::optional<P>> || !(ty<O, E_valueor, O const &, T>() & 1l));
    r.add("value_or &", ty<O, E_valueor, O &, T>() & ~1l); // std::optional of libstdc++ keeps the const (LWG 3424)
    r.add("value_or & drops const", std::is_same_v<O, std::optional<P>> || !(ty<O, E_valueor, O &, T>() & 1l));
  }
  if constexpr (std::is_move_constructible_v<P> && std::is_convertible_v<T, P>) {
    r.add("value_or &&", ty<O, E_valueor, O, T>() & ~1l); // std::optional of libstdc++ keeps the const (LWG 3424)
    r.add("value_or && drops const", std::is_same_v<O, std::optional<P>> || !(ty<O, E_valueor, O, T>() & 1l));
  }
}

void compare(Row const & a, Row const & b, const char * what)
{
  for (int i = 0; i < a.n && i < b.n; ++i) {
    mon::eval();
    mon::seen(mon::mix(mon::str_hash(what), mon::str_hash(a.name[i])));
    if (a.v[i] != b.v[i]) {
      mon::fail("%s: '%s' is %ld, for std::optional %ld", what, a.name[i], a.v[i], b.v[i]);
    }
  }
  if (a.n > 2 && mon::str_hash(what) % 16 == 0) {
    mon::sample("%s: %d traits equal std::optional's, '%s'=%ld '%s'=%ld", what, a.n, a.name[1], a.v[1], a.name[a.n - 1], a.v[a.n - 1]);
  }
  if (a.n != b.n || a.n > Row::kMax) {
    mon::fail("rows of different length for %s: %d %d", what, a.n, b.n);
  }
}

template <class O>
void facts(const char * what)
{
  using S = std::optional<payload_of_t<O>>;
  mon::context("facts", what);
  Row a, b;
  base_row<O>(a);
  base_row<S>(b);
  compare(a, b, what);
  mon::count("optional types compared");
}

template <class O, class T>
void arg(const char * what, const char * an)
{
  using S = std::optional<payload_of_t<O>>;
  char buf[400];
  std::snprintf(buf, sizeof buf, "%s with argument %s", what, an);
  mon::context("argument", buf);
  Row a, b;
  arg_row<O, T>(a);
  arg_row<S, T>(b);
  compare(a, b, buf);
  mon::count("optional/argument pairs compared");
}

struct FlagSent
{
  [[maybe_unused]] static constexpr int value = -1;
};
template <class P>
struct FlagManip
{
  static bool is_empty(P const & p) noexcept { return p.flag == -1; }
  static void init_empty_flag(P & p) noexcept { ::new (static_cast<void *>(std::addressof(p.flag))) int(-1); }
  static void invalidate_empty_flag(P &) noexcept { }
};

#define FLAVOURS(P, F)                                                                                                 \
  F(tiny::optional<P>, "optional<" #P ">");                                                                            \
  F(tiny::optional<P const>, "optional<" #P " const>");                                                                \
  F(tiny::optional<P M_ &P::flag M_ - 1>, "optional<" #P ",&flag,-1>");                                                \
  F(tiny::optional_sentinel_via_type<P M_ FlagSent M_ & P::flag>, "sentinel_via_type<" #P ",S,&flag>");                \
  F(tiny::optional_inplace<P M_ FlagManip<P>>, "optional_inplace<" #P ">")
#define M_ ,

#define FACT(O, NAME) facts<O>(NAME)

#if PART < 6
// ---------------------------------------------------------------------------- special member matrix
// D: deleted, T: may throw, N: noexcept, 0: not declared
  #define CC_D(N) N(N const &) = delete;
  #define CC_T(N) N(N const &);
  #define CC_N(N) N(N const &) noexcept;
  #define MC_0(N)
  #define MC_D(N) N(N &&) = delete;
  #define MC_T(N) N(N &&);
  #define MC_N(N) N(N &&) noexcept;
  #define CA_D(N) N & operator=(N const &) = delete;
  #define CA_T(N) N & operator=(N const &);
  #define CA_N(N) N & operator=(N const &) noexcept;
  #define MA_0(N)
  #define MA_D(N) N & operator=(N &&) = delete;
  #define MA_T(N) N & operator=(N &&);
  #define MA_N(N) N & operator=(N &&) noexcept;

  #define PAY(CC, MC, CA, MA)                                                                                          \
    struct P_##CC##MC##CA##MA                                                                                          \
    {                                                                                                                  \
      int flag;                                                                                                        \
      P_##CC##MC##CA##MA();                                                                                            \
      CC_##CC(P_##CC##MC##CA##MA) MC_##MC(P_##CC##MC##CA##MA) CA_##CA(P_##CC##MC##CA##MA) MA_##MA(P_##CC##MC##CA##MA)  \
      ~P_##CC##MC##CA##MA();                                                                                           \
    };
  #define USE(CC, MC, CA, MA)                                                                                          \
    facts<tiny::optional<P_##CC##MC##CA##MA>>("optional<P_" #CC #MC #CA #MA ">");                                      \
    facts<tiny::optional<P_##CC##MC##CA##MA, &P_##CC##MC##CA##MA::flag, -1>>("optional<P_" #CC #MC #CA #MA ",&flag,-1>"); \
    facts<tiny::optional_inplace<P_##CC##MC##CA##MA, FlagManip<P_##CC##MC##CA##MA>>>("inplace<P_" #CC #MC #CA #MA ">"); \
    facts<tiny::optional<P_##CC##MC##CA##MA const>>("optional<P_" #CC #MC #CA #MA " const>");
  #define EACH_MA(X, CC, MC, CA) X(CC, MC, CA, 0) X(CC, MC, CA, D) X(CC, MC, CA, T) X(CC, MC, CA, N)
  #define EACH_CA(X, CC, MC) EACH_MA(X, CC, MC, D) EACH_MA(X, CC, MC, T) EACH_MA(X, CC, MC, N)
  #define EACH_MC2A(X, CC) EACH_CA(X, CC, 0) EACH_CA(X, CC, D)
  #define EACH_MC2B(X, CC) EACH_CA(X, CC, T) EACH_CA(X, CC, N)
  #if PART == 0
    #define MATRIX(X) EACH_MC2A(X, D)
  #elif PART == 1
    #define MATRIX(X) EACH_MC2B(X, D)
  #elif PART == 2
    #define MATRIX(X) EACH_MC2A(X, T)
  #elif PART == 3
    #define MATRIX(X) EACH_MC2B(X, T)
  #elif PART == 4
    #define MATRIX(X) EACH_MC2A(X, N)
  #else
    #define MATRIX(X) EACH_MC2B(X, N)
  #endif
MATRIX(PAY)
SUITE(s_matrix, "special members")
{
  MATRIX(USE)
}
#endif

#if PART >= 6
// ---------------------------------------------------------------------------- arguments
struct A1
{
};
struct A2
{
};
struct A3
{
};
struct A4
{
};
struct A5
{
};
struct Conv; // has a non-explicit conversion
struct Mix
{
  int flag;
  Mix();
  explicit Mix(A1);        // explicit construction
  Mix(A2);                 // implicit construction
  Mix & operator=(A2);
  Mix(A3 const &) noexcept; // construction, no assignment of its own
  Mix & operator=(A4);      // assignment, no construction
  Mix(A5 &);                // only from non-const lvalues
  Mix & operator=(A5 &);
  Mix(A1, int);
  Mix(std::initializer_list<int>, A2);
  Mix(Mix const &);
  Mix(Mix &&) noexcept;
  Mix & operator=(Mix const &);
  Mix & operator=(Mix &&);
};
struct ToMix
{
  operator Mix() const;
};
struct ToMixExplicit
{
  explicit operator Mix() const;
};
struct ToMixRef
{
  operator Mix &() const;
};
struct ToMixRvalueOnly
{
  operator Mix() &&;
};
struct FromMix : Mix
{
};
struct Greedy
{
  int flag;
  Greedy();
  template <class T, class = std::enable_if_t<!std::is_same_v<std::decay_t<T>, Greedy>>>
  Greedy(T &&);
  Greedy(Greedy const &);
  Greedy & operator=(Greedy const &);
};
struct GreedyExplicit
{
  int flag;
  template <class... T>
  explicit GreedyExplicit(T &&...);
  GreedyExplicit(GreedyExplicit const &);
  GreedyExplicit & operator=(GreedyExplicit const &);
  template <class T>
  GreedyExplicit & operator=(T &&);
};
struct NoDef
{
  int flag;
  explicit NoDef(int);
  NoDef(NoDef &&) = delete;
};
struct IlOnly
{
  int flag;
  IlOnly(std::initializer_list<int>);
  IlOnly(std::initializer_list<int>, int);
};
struct IlLvalue // wants the initializer_list as lvalue
{
  int flag;
  explicit IlLvalue(std::initializer_list<int> &);
};
struct BoolLike
{
  int flag;
  BoolLike(bool);
};
struct FromNullopt
{
  int flag;
  FromNullopt(std::nullopt_t);
};
struct FromInPlace
{
  int flag;
  FromInPlace(std::in_place_t, int = 0);
};
struct AsgThrow // constructible and assignable from int, assignment from itself deleted
{
  int flag;
  AsgThrow(int);
  AsgThrow & operator=(int);
  AsgThrow(AsgThrow const &);
  AsgThrow & operator=(AsgThrow const &) = delete;
};
struct ConstAssign // assignable even when const
{
  int flag;
  ConstAssign(int);
  ConstAssign(ConstAssign const &);
  ConstAssign const & operator=(ConstAssign const &) const;
  ConstAssign const & operator=(int) const;
};
enum class En : int
{
  A,
  B
};
struct Base0
{
  int flag;
  virtual ~Base0();
};
struct Derived0 : Base0
{
};

  #define ARGS(O, NAME)                                                                                                \
    facts<O>(NAME);                                                                                                    \
    arg<O, ARG_P>(NAME, "P");                                                                                          \
    arg<O, ARG_P &>(NAME, "P&");                                                                                       \
    arg<O, ARG_P const &>(NAME, "P const&");                                                                           \
    arg<O, ARG_P const>(NAME, "P const");                                                                              \
    arg<O, int>(NAME, "int");                                                                                          \
    arg<O, int &>(NAME, "int&");                                                                                       \
    arg<O, double>(NAME, "double");                                                                                    \
    arg<O, bool>(NAME, "bool");                                                                                        \
    arg<O, char const *>(NAME, "char const*");                                                                         \
    arg<O, std::nullptr_t>(NAME, "nullptr_t");                                                                         \
    arg<O, void *>(NAME, "void*");                                                                                     \
    arg<O, std::string>(NAME, "string");                                                                               \
    arg<O, std::in_place_t>(NAME, "in_place_t");                                                                       \
    arg<O, std::in_place_t &>(NAME, "in_place_t&");                                                                    \
    arg<O, std::in_place_t const &>(NAME, "in_place_t const&");                                                        \
    arg<O, std::nullopt_t const &>(NAME, "nullopt_t const&");                                                          \
    arg<O, std::nullopt_t>(NAME, "nullopt_t");                                                                         \
    arg<O, std::initializer_list<int>>(NAME, "initializer_list");                                                      \
    arg<O, A1>(NAME, "A1");                                                                                            \
    arg<O, A2>(NAME, "A2");                                                                                            \
    arg<O, A2 const &>(NAME, "A2 const&");                                                                             \
    arg<O, A3 &>(NAME, "A3&");                                                                                         \
    arg<O, A4>(NAME, "A4");                                                                                            \
    arg<O, A5 &>(NAME, "A5&");                                                                                         \
    arg<O, A5>(NAME, "A5");                                                                                            \
    arg<O, A5 const &>(NAME, "A5 const&");                                                                             \
    arg<O, ToMix>(NAME, "ToMix");                                                                                      \
    arg<O, ToMix &>(NAME, "ToMix&");                                                                                   \
    arg<O, ToMixExplicit>(NAME, "ToMixExplicit");                                                                      \
    arg<O, ToMixRef>(NAME, "ToMixRef");                                                                                \
    arg<O, ToMixRvalueOnly>(NAME, "ToMixRvalueOnly");                                                                  \
    arg<O, ToMixRvalueOnly &>(NAME, "ToMixRvalueOnly&");                                                               \
    arg<O, FromMix>(NAME, "FromMix");                                                                                  \
    arg<O, En>(NAME, "enum")

// Overload resolution with {} is only visible in what is executed: it has to select the empty optional for scalar payloads.
template <class X, class P>
long braces_scalar(P const & v)
{
  struct Tail
  {
    X x;
  };
  long r = 0;
  X a(std::in_place, v);
  if constexpr (!std::is_const_v<typename X::value_type>) {
    a = {};
    r = r * 2 + a.has_value();
    a = v;
    r = r * 2 + a.has_value();
    a = {v};
    r = r * 2 + (a.has_value() && *a == v);
    a = X{};
    r = r * 2 + a.has_value();
  }
  X b = {};
  r = r * 2 + b.has_value();
  X c{};
  r = r * 2 + c.has_value();
  X d{v};
  r = r * 2 + (d.has_value() && *d == v);
  X e = {v};
  r = r * 2 + (e.has_value() && *e == v);
  auto f = [](X x) { return x.has_value(); };
  r = r * 2 + f({});
  r = r * 2 + f({v});
  Tail t{};
  r = r * 2 + t.x.has_value();
  Tail u{{}};
  r = r * 2 + u.x.has_value();
  Tail w{v};
  r = r * 2 + w.x.has_value();
  return r;
}
template <class O, class P>
void brace(P v, const char * name)
{
  mon::context("braces", name);
  mon::eval();
  mon::seen(mon::str_hash(name) * 3);
  mon::count("brace initialisations executed");
  using S = std::optional<typename O::value_type>;
  long const a = braces_scalar<O>(v), b = braces_scalar<S>(v);
  if (a != b) {
    mon::fail("%s: initialisation and assignment with braces selects other overloads than std::optional (%ld, %ld)", name, a, b);
  }
}
  #define BRACE(v, ...) brace<__VA_ARGS__>(v, #__VA_ARGS__)

  #if PART == 6
SUITE(s_args1, "arguments 1")
{
    #define ARG_P Mix
  FLAVOURS(Mix, ARGS);
}
  #elif PART == 7
SUITE(s_args2, "arguments 2")
{
    #undef ARG_P
    #define ARG_P GreedyExplicit
  FLAVOURS(GreedyExplicit, ARGS);
    #undef ARG_P
    #define ARG_P NoDef
  FLAVOURS(NoDef, ARGS);
}
  #elif PART == 8
SUITE(s_args3, "arguments 3")
{
    #undef ARG_P
    #define ARG_P IlOnly
  FLAVOURS(IlOnly, ARGS);
    #undef ARG_P
    #define ARG_P IlLvalue
  FLAVOURS(IlLvalue, ARGS);
    #undef ARG_P
    #define ARG_P BoolLike
  FLAVOURS(BoolLike, ARGS);
}
  #elif PART == 9
SUITE(s_args4, "arguments 4")
{
    #undef ARG_P
    #define ARG_P AsgThrow
  FLAVOURS(AsgThrow, ARGS);
    #undef ARG_P
    #define ARG_P ConstAssign
  FLAVOURS(ConstAssign, ARGS);
    #undef ARG_P
    #define ARG_P Base0
  FLAVOURS(Base0, ARGS);
}
  #elif PART == 10
SUITE(s_args5, "arguments 5")
{
    #undef ARG_P
    #define ARG_P int
  ARGS(tiny::optional<int>, "optional<int>");
  ARGS(tiny::optional<int const>, "optional<int const>");
  ARGS(tiny::optional<int M_ - 1>, "optional<int,-1>");
  ARGS(tiny::optional_sentinel_via_type<int M_ FlagSent>, "via_type<int>");
  ARGS(tiny::optional_inplace<int M_ kd::InplaceIntManip>, "inplace<int>");
  ARGS(tiny::optional_aip<int>, "aip<int>");
  ARGS(tiny::optional<int volatile>, "optional<int volatile>");
    #undef ARG_P
    #define ARG_P bool
  ARGS(tiny::optional<bool>, "optional<bool>");
  ARGS(tiny::optional<bool const>, "optional<bool const>");
    #undef ARG_P
    #define ARG_P double
  ARGS(tiny::optional<double>, "optional<double>");
  ARGS(tiny::optional<double const>, "optional<double const>");
}
  #elif PART == 11
SUITE(s_args6, "arguments 6")
{
    #undef ARG_P
    #define ARG_P int *
  ARGS(tiny::optional<int *>, "optional<int*>");
  ARGS(tiny::optional<int * M_ nullptr>, "optional<int*,nullptr>");
    #undef ARG_P
    #define ARG_P kd::FnT
  ARGS(tiny::optional<kd::FnT>, "optional<fn>");
    #undef ARG_P
    #define ARG_P std::string
  ARGS(tiny::optional<std::string>, "optional<string>");
  ARGS(tiny::optional<std::string const>, "optional<string const>");
    #undef ARG_P
    #define ARG_P std::unique_ptr<int>
  ARGS(tiny::optional<std::unique_ptr<int>>, "optional<unique_ptr>");
    #undef ARG_P
    #define ARG_P std::vector<int>
  ARGS(tiny::optional<std::vector<int>>, "optional<vector>");
    #undef ARG_P
    #define ARG_P En
  ARGS(tiny::optional<En>, "optional<enum>");
  ARGS(tiny::optional<En M_ En::B>, "optional<enum,B>");
    #undef ARG_P
    #define ARG_P std::any
  ARGS(tiny::optional<std::any>, "optional<any>");
    #undef ARG_P
    #define ARG_P std::function<int(int)>
  ARGS(tiny::optional<std::function<int(int)>>, "optional<function>");
}
SUITE(s_braces, "braces")
{
  static int x = 3;
  BRACE(7, tiny::optional<int>);
  BRACE(7, tiny::optional<int const>);
  BRACE(7, tiny::optional<int, -1>);
  BRACE(7, tiny::optional_aip<int>);
  BRACE(7, tiny::optional_sentinel_via_type<int, FlagSent>);
  BRACE(7, tiny::optional_inplace<int, kd::InplaceIntManip>);
  BRACE(true, tiny::optional<bool>);
  BRACE(1.5, tiny::optional<double>);
  BRACE(1.5f, tiny::optional<float>);
  BRACE(&x, tiny::optional<int *>);
  BRACE(&x, tiny::optional<int * const>);
  BRACE(&x, tiny::optional<int *, nullptr>);
  BRACE(static_cast<kd::FnT>(nullptr), tiny::optional<kd::FnT>);
  BRACE(En::A, tiny::optional<En>);
  BRACE(En::A, tiny::optional<En, En::B>);
  BRACE(En::A, tiny::optional_aip<En, En::B>);
  BRACE(&Mix::flag, tiny::optional<int Mix::*>);
  BRACE(nullptr, tiny::optional<std::nullptr_t>);
}
  #elif PART == 12
// ---------------------------------------------------------------------------- swap, comparison, or_else
struct SwNo // not swappable
{
  int flag;
  SwNo(SwNo const &);
  friend void swap(SwNo &, SwNo &) = delete;
};
struct SwThrow
{
  int flag;
  SwThrow(SwThrow &&) noexcept;
  SwThrow & operator=(SwThrow &&) noexcept;
  friend void swap(SwThrow &, SwThrow &);
};
struct SwNothrow
{
  int flag;
  SwNothrow(SwNothrow &&) noexcept;
  friend void swap(SwNothrow &, SwNothrow &) noexcept;
};
struct SwNothrowMoveThrows
{
  int flag;
  SwNothrowMoveThrows(SwNothrowMoveThrows &&);
  friend void swap(SwNothrowMoveThrows &, SwNothrowMoveThrows &) noexcept;
};
struct SwImmovable // swappable, but not movable
{
  int flag;
  SwImmovable(SwImmovable const &) = delete;
  friend void swap(SwImmovable &, SwImmovable &) noexcept;
};
struct DtorThrows
{
  int flag;
  DtorThrows(DtorThrows const &) noexcept;
  DtorThrows & operator=(DtorThrows const &) noexcept;
};
    #if defined(__cpp_lib_three_way_comparison)
struct ThreeStrong
{
  int flag;
  auto operator<=>(ThreeStrong const &) const = default;
};
struct ThreeWeak
{
  int flag;
  std::weak_ordering operator<=>(ThreeWeak const &) const;
  bool operator==(ThreeWeak const &) const;
};
struct ThreePartial
{
  double flag_;
  int flag;
  std::partial_ordering operator<=>(ThreePartial const &) const;
  bool operator==(ThreePartial const &) const;
};
struct ThreeNone
{
  int flag;
  bool operator==(ThreeNone const &) const;
  bool operator<(ThreeNone const &) const;
};

template <class O, class S>
void three(const char * name)
{
  mon::context("three-way", name);
  using P = payload_of_t<O>;
  Row a, b;
  auto row = [](Row & r, auto tag) {
    using X = typename decltype(tag)::type;
    r.add("X <=> X", ty<X, E_3w, X const &, X const &>());
    r.add("X <=> P", ty<X, E_3w, X const &, P const &>());
    r.add("P <=> X", ty<X, E_3w, P const &, X const &>());
    r.add("X <=> std::optional", ty<X, E_3w, X const &, std::optional<P> const &>());
    r.add("std::optional <=> X", ty<X, E_3w, std::optional<P> const &, X const &>());
  };
  row(a, pl::type_tag<O>{});
  row(b, pl::type_tag<S>{});
  compare(a, b, name);
}
    #endif
template <class O, class T>
void cmp_types(const char * name)
{
  mon::context("comparison types", name);
  using P = payload_of_t<O>;
  using S = std::optional<P>;
  auto one = [&](const char * what, long t) {
    mon::eval();
    mon::seen(mon::mix(mon::str_hash(name), mon::str_hash(what)));
    if (t != 3 * 16 && !(t == 2 * 16 && std::is_same_v<P, bool>)) {
      mon::fail("%s: %s is not a bool comparison (%ld)", name, what, t);
    }
  };
  one("O == O", ty<O, E_eq, O const &, O const &>());
  one("O != O", ty<O, E_ne, O const &, O &>());
  one("O < O", ty<O, E_lt, O, O const &>());
  one("O <= O", ty<O, E_le, O const &, O const &>());
  one("O > O", ty<O, E_gt, O const &, O const &>());
  one("O >= O", ty<O, E_ge, O const &, O const &>());
  one("O == S", ty<O, E_eq, O const &, S const &>());
  one("S == O", ty<O, E_eq, S const &, O const &>());
  one("O < S", ty<O, E_lt, O const &, S &>());
  one("S < O", ty<O, E_lt, S, O const &>());
  one("O >= S", ty<O, E_ge, O const &, S const &>());
  one("S != O", ty<O, E_ne, S const &, O const &>());
  one("O == T", ty<O, E_eq, O const &, T const &>());
  one("T == O", ty<O, E_eq, T const &, O const &>());
  one("O < T", ty<O, E_lt, O &, T &>());
  one("T < O", ty<O, E_lt, T, O>());
  one("O >= T", ty<O, E_ge, O const &, T const &>());
  one("T != O", ty<O, E_ne, T const &, O const &>());
  one("T > O", ty<O, E_gt, T const &, O const &>());
  one("O <= T", ty<O, E_le, O const &, T const &>());
}

// A swap of the library must be found by unqualified lookup and be usable in generic code.
template <class O>
void swap_row(const char * name)
{
  facts<O>(name);
}

SUITE(s_misc, "swap and comparisons")
{
  FLAVOURS(SwNo, FACT);
  FLAVOURS(SwThrow, FACT);
  FLAVOURS(SwNothrow, FACT);
  FLAVOURS(SwNothrowMoveThrows, FACT);
  FLAVOURS(SwImmovable, FACT);
  FLAVOURS(DtorThrows, FACT);
    #if defined(__cpp_lib_three_way_comparison)
      #define T3(O, NAME) three<O, std::optional<payload_of_t<O>>>(NAME)
      #define T3F(P)                                                                                                   \
        T3(tiny::optional<P>, "optional<" #P ">");                                                                     \
        T3(tiny::optional<P M_ &P::flag M_ - 1>, "optional<" #P ",&flag,-1>");                                         \
        T3(tiny::optional_inplace<P M_ FlagManip<P>>, "inplace<" #P ">");                                              \
        T3(tiny::optional_sentinel_via_type<P M_ FlagSent M_ & P::flag>, "via_type<" #P ">")
  T3F(ThreeStrong);
  T3F(ThreeWeak);
  T3F(ThreePartial);
  T3F(ThreeNone);
  T3(tiny::optional<int>, "optional<int>");
  T3(tiny::optional<int M_ - 1>, "optional<int,-1>");
  T3(tiny::optional<double>, "optional<double>");
  T3(tiny::optional<bool>, "optional<bool>");
  T3(tiny::optional<int *>, "optional<int*>");
  T3(tiny::optional<std::string>, "optional<string>");
  T3(tiny::optional_inplace<int M_ kd::InplaceIntManip>, "inplace<int>");
    #endif
  cmp_types<tiny::optional<int>, long>("optional<int>");
  cmp_types<tiny::optional<int, -1>, short>("optional<int,-1>");
  cmp_types<tiny::optional<int const>, int>("optional<int const>");
  cmp_types<tiny::optional<double>, int>("optional<double>");
  cmp_types<tiny::optional<bool>, bool>("optional<bool>");
  cmp_types<tiny::optional<int *>, int *>("optional<int*>");
  cmp_types<tiny::optional<std::string>, char const *>("optional<string>");
  cmp_types<tiny::optional_inplace<int, kd::InplaceIntManip>, int>("inplace<int>");
  cmp_types<tiny::optional_sentinel_via_type<double, kd::SentDbl>, double>("via_type<double>");
  cmp_types<tiny::optional_aip<unsigned>, unsigned>("aip<unsigned>");
}

    #if defined(__cpp_concepts) && defined(__cpp_lib_concepts)
// or_else: constrained on copy/move constructibility and invocability (C++23 [optional.monadic])
template <class A, class B>
using E_orelse = decltype(DV(A).or_else(DV(B)));
struct MoveOnly
{
  int flag;
  MoveOnly(MoveOnly &&);
};
struct Immovable
{
  int flag;
  Immovable(Immovable &&) = delete;
};
struct Copyable
{
  int flag;
};
template <class O>
struct Ret
{
  O operator()();
};
template <class O>
struct RetNeedsArg
{
  O operator()(int);
};
template <class O>
struct RetRvalueOnly
{
  O operator()() &&;
};
template <class O>
struct RetRef
{
  O & operator()();
};
template <class O>
void orelse(const char * name)
{
  mon::context("or_else", name);
  using P = payload_of_t<O>;
  constexpr bool cp = std::is_copy_constructible_v<P>, mv = std::is_move_constructible_v<P>;
  auto is = [&](const char * what, long got, bool want) {
    mon::eval();
    mon::seen(mon::mix(mon::str_hash(name), mon::str_hash(what)));
    if (got != (want ? 16 : 0)) {
      mon::fail("%s: or_else (%s): expression type code %ld, expected %d", name, what, got, want ? 16 : 0);
    }
  };
  is("&", ty<O, E_orelse, O &, Ret<O>>(), cp);
  is("const&", ty<O, E_orelse, O const &, Ret<O>>(), cp);
  is("&&", ty<O, E_orelse, O, Ret<O>>(), mv);
  is("const&&", ty<O, E_orelse, O const, Ret<O>>(), cp);
  is("needs argument", ty<O, E_orelse, O const &, RetNeedsArg<O>>(), false);
  is("needs argument &&", ty<O, E_orelse, O, RetNeedsArg<O>>(), false);
  is("rvalue callable", ty<O, E_orelse, O const &, RetRvalueOnly<O>>(), cp);
  is("rvalue callable as lvalue", ty<O, E_orelse, O const &, RetRvalueOnly<O> &>(), false);
  is("rvalue callable as lvalue &&", ty<O, E_orelse, O, RetRvalueOnly<O> &>(), false);
  is("const callable", ty<O, E_orelse, O const &, Ret<O> const &>(), false);
  is("int", ty<O, E_orelse, O const &, int>(), false);
}
SUITE(s_orelse, "or_else constraints")
{
      #define OE(O, NAME) orelse<O>(NAME)
      #define OEF(P)                                                                                                   \
        OE(tiny::optional<P>, "optional<" #P ">");                                                                     \
        OE(tiny::optional<P M_ &P::flag M_ - 1>, "optional<" #P ",&flag,-1>");                                         \
        OE(tiny::optional_inplace<P M_ FlagManip<P>>, "inplace<" #P ">");                                              \
        OE(tiny::optional_sentinel_via_type<P M_ FlagSent M_ & P::flag>, "via_type<" #P ">")
  OEF(MoveOnly);
  OEF(Immovable);
  OEF(Copyable);
  orelse<tiny::optional<int>>("optional<int>");
  orelse<tiny::optional<double>>("optional<double>");
  orelse<tiny::optional<std::unique_ptr<int>>>("optional<unique_ptr>");
}
    #endif
  #endif
#endif
} // namespace
