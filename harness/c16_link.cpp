// Link probes of C16. ROLE 1 defines one function per optional type and way of passing it, ROLE 0 calls all of them. The
// objects of the two roles are compiled under different settings of the library's configuration macros and must then not
// link; under the same setting they must link, and the values must arrive.
#include <tiny/optional.h>

#include <cstdio>
#include <string>
#include <utility>
#include <vector>

namespace lp
{
struct S
{
  int i;
  double d;
  bool b;
  char c;
  int * p;
  S(int x) : i(x), d(x), b(true), c('c'), p(nullptr) { }
};
struct SentI
{
  static constexpr int value = -7;
};
struct SentD
{
  static constexpr double value = -1.5;
};
enum class E : unsigned char
{
  a,
  b,
  none
};
struct Own // with a user supplied manipulator
{
  int v;
  Own(int x) : v(x) { }
};
struct OwnFm
{
  static bool is_empty(Own const & o) noexcept { return o.v == -99; }
  static void init_empty_flag(Own & o) noexcept { ::new (static_cast<void *>(&o)) Own(-99); }
  static void invalidate_empty_flag(Own & o) noexcept { o.~Own(); }
};
struct Reg
{
  int v;
  Reg(int x) : v(x) { }
};
template <class T>
struct Wrap
{
  T t;
};
} // namespace lp

template <>
struct tiny::optional_flag_manipulator<lp::Reg>
{
  static bool is_empty(lp::Reg const & o) noexcept { return o.v == -98; }
  static void init_empty_flag(lp::Reg & o) noexcept { ::new (static_cast<void *>(&o)) lp::Reg(-98); }
  static void invalidate_empty_flag(lp::Reg & o) noexcept { o.~Reg(); }
};
template <>
struct tiny::optional_flag_manipulator<lp::E> : tiny::sentinel_flag_manipulator<lp::E, lp::E::none>
{
};

// bit-trick members and optional_aip of bit-trick types do not exist under the settings without unused bits
#if defined TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UNUSED_BITS || defined TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UB_TRICKS
  #define LP_NOBITS 1
#else
  #define LP_NOBITS 0
#endif
#if defined TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_MEMBER || defined TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UB_TRICKS
  #define LP_NOMEM 1
#else
  #define LP_NOMEM 0
#endif

using IntPtr = int *;
using FnPtr = int (*)(int);
inline int lp_fn(int x) { return x; }
static int lp_pool[2];

//   number, optional type, a value
#define LP_COMMON(X)                                                                                                   \
  X(0, tiny::optional<int>, 5)                                                                                         \
  X(1, tiny::optional<bool>, true)                                                                                     \
  X(2, tiny::optional<double>, 2.5)                                                                                    \
  X(3, tiny::optional<float>, 2.5f)                                                                                    \
  X(4, tiny::optional<IntPtr>, &lp_pool[1])                                                                            \
  X(5, tiny::optional<FnPtr>, &lp_fn)                                                                                  \
  X(6, LP_T(tiny::optional<int, -1>), 5)                                                                               \
  X(7, LP_T(tiny::optional<lp::S, &lp::S::i, -1>), lp::S(5))                                                           \
  X(8, LP_T(tiny::optional_sentinel_via_type<int, lp::SentI>), 5)                                                      \
  X(9, LP_T(tiny::optional_sentinel_via_type<lp::S, lp::SentI, &lp::S::i>), lp::S(5))                                  \
  X(10, tiny::optional_aip<int>, 5)                                                                                    \
  X(11, LP_T(tiny::optional_inplace<lp::Own, lp::OwnFm>), lp::Own(5))                                                  \
  X(12, tiny::optional<lp::Own>, lp::Own(5))                                                                           \
  X(13, tiny::optional<lp::Reg>, lp::Reg(5))                                                                           \
  X(14, tiny::optional<lp::E>, lp::E::a)                                                                               \
  X(15, tiny::optional<std::string>, std::string("abc"))                                                               \
  X(16, tiny::optional<std::vector<int>>, std::vector<int>(3, 4))                                                      \
  X(17, tiny::optional<tiny::optional<bool>>, tiny::optional<bool>(true))                                              \
  X(18, tiny::optional<const bool>, true)                                                                              \
  X(19, tiny::optional<const double>, 2.5)                                                                             \
  X(20, LP_T(tiny::optional<lp::E, lp::E::b>), lp::E::a)                                                               \
  X(21, LP_T(tiny::optional_sentinel_via_type<double, lp::SentD>), 2.5)                                                \
  X(22, tiny::optional<unsigned char>, static_cast<unsigned char>(7))                                                  \
  X(23, LP_T(tiny::optional<lp::S, &lp::S::c, 'x'>), lp::S(5))                                                         \
  X(24, LP_T(tiny::optional<bool, true>), false)                                                                       \
  X(25, tiny::optional_aip<unsigned short>, static_cast<unsigned short>(9))
#if !LP_NOBITS || LP_NOMEM
  #define LP_MEMBERS(X)                                                                                                \
    X(30, LP_T(tiny::optional<lp::S, &lp::S::d>), lp::S(5))                                                            \
    X(31, LP_T(tiny::optional<lp::S, &lp::S::b>), lp::S(5))                                                            \
    X(32, LP_T(tiny::optional<lp::S, &lp::S::p>), lp::S(5))
#else
  #define LP_MEMBERS(X)
#endif
#if !LP_NOBITS
  #define LP_BITS(X)                                                                                                   \
    X(40, tiny::optional_aip<double>, 2.5)                                                                             \
    X(41, tiny::optional_aip<bool>, true)                                                                              \
    X(42, tiny::optional_aip<IntPtr>, &lp_pool[1])
#else
  #define LP_BITS(X)
#endif
#define LP_ALL(X) LP_COMMON(X) LP_MEMBERS(X) LP_BITS(X)
#define LP_T(...) __VA_ARGS__

template <class O>
static int lp_state(O const & o) // an engaged optional: 1 + size
{
  return o.has_value() ? 1 + static_cast<int>(sizeof(O)) : 0;
}

// the ways of passing
#define LP_DECL(k, ...) LP_DECL2(k, (__VA_ARGS__))
#if ROLE == 1
  #define LP_ONE(k, T, v)                                                                                              \
    int lpval_##k(T o) { return lp_state(o); }                                                                         \
    int lpref_##k(T const & o) { return lp_state(o); }                                                                 \
    int lpmut_##k(T & o)                                                                                               \
    {                                                                                                                  \
      int const r = lp_state(o);                                                                                       \
      o.reset();                                                                                                       \
      return r;                                                                                                        \
    }                                                                                                                  \
    int lprv_##k(T && o) { return lp_state(o); }                                                                       \
    int lpptr_##k(T const * o) { return lp_state(*o); }                                                                \
    int lpvec_##k(std::vector<T> const & o) { return lp_state(o[0]); }                                                 \
    int lpwrap_##k(lp::Wrap<T> const & o) { return lp_state(o.t); }                                                    \
    int lpfn_##k(int (*f)(T const &), void const * p) { return f(*static_cast<T const *>(p)); }                        \
    int lppair_##k(std::pair<int, T> const & o) { return lp_state(o.second); }
LP_ALL(LP_ONE)
#else
  #define LP_ONE(k, T, v)                                                                                              \
    int lpval_##k(T o);                                                                                                \
    int lpref_##k(T const & o);                                                                                        \
    int lpmut_##k(T & o);                                                                                              \
    int lprv_##k(T && o);                                                                                              \
    int lpptr_##k(T const * o);                                                                                        \
    int lpvec_##k(std::vector<T> const & o);                                                                           \
    int lpwrap_##k(lp::Wrap<T> const & o);                                                                             \
    int lpfn_##k(int (*f)(T const &), void const * p);                                                                 \
    int lppair_##k(std::pair<int, T> const & o);                                                                       \
    static void call_##k()                                                                                             \
    {                                                                                                                  \
      int const want = 1 + static_cast<int>(sizeof(T));                                                                \
      T o{v};                                                                                                          \
      T const e{};                                                                                                     \
      std::vector<T> vec(2, o);                                                                                        \
      lp::Wrap<T> w{o};                                                                                                \
      std::pair<int, T> pr(1, o);                                                                                      \
      check(#k, "val", lpval_##k(o), want);                                                                            \
      check(#k, "val", lpval_##k(e), 0);                                                                               \
      check(#k, "ref", lpref_##k(o), want);                                                                            \
      check(#k, "ref", lpref_##k(e), 0);                                                                               \
      check(#k, "ptr", lpptr_##k(&o), want);                                                                           \
      check(#k, "vec", lpvec_##k(vec), want);                                                                          \
      check(#k, "wrap", lpwrap_##k(w), want);                                                                          \
      check(#k, "fn", lpfn_##k(&lp_state<T>, &o), want);                                                               \
      check(#k, "pair", lppair_##k(pr), want);                                                                         \
      check(#k, "mut", lpmut_##k(o), want);                                                                            \
      check(#k, "mut", lp_state(o), 0);                                                                                \
      check(#k, "rv", lprv_##k(T{v}), want);                                                                           \
    }
static long evals = 0, bad = 0;
static void check(const char * k, const char * way, int got, int want)
{
  ++evals;
  if (got != want) {
    ++bad;
    std::printf("FAIL: link probe %s passed as %s: state %d arrived, expected %d\n", k, way, got, want);
  }
}
LP_ALL(LP_ONE)
  #define LP_CALL(k, T, v) call_##k();
int main()
{
  LP_ALL(LP_CALL)
  std::printf("STATS {\"evaluations\": %ld, \"distinct\": %ld, \"counters\": {}, \"samples\": []}\n", evals, evals);
  return bad != 0;
}
#endif
