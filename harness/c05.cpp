// C05: size, alignment and the compile-time helpers, evaluated at run time for a matrix of types and flavours.
#include "kinds.h"

#include <complex>
#include <map>
#include <set>

#if defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UB_TRICKS) || defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UNUSED_BITS)
constexpr bool bitTricks = false;
#else
constexpr bool bitTricks = true;
#endif
#if defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UB_TRICKS) || defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_MEMBER)
constexpr bool memTricks = false;
#else
constexpr bool memTricks = true;
#endif

namespace
{
template <class O, class P>
void verify(const char * name, bool inPlace)
{
  mon::context("size", name);
  size_t const expected = inPlace ? sizeof(P) : sizeof(std::optional<P>);
  CHECK(sizeof(O) == expected, "%s: sizeof is %zu, expected %zu (payload %zu, std::optional %zu)", name, sizeof(O),
        expected, sizeof(P), sizeof(std::optional<P>));
  CHECK(alignof(O) == alignof(P), "%s: alignof is %zu, payload's is %zu", name, alignof(O), alignof(P));
  CHECK(O::is_compressed == (sizeof(O) == sizeof(P)), "%s: is_compressed is wrong (%d)", name, O::is_compressed);
  CHECK(O::is_compressed == inPlace, "%s", name);
  CHECK(O::is_tiny_optional == true, "%s", name);
  CHECK(tiny::is_tiny_optional_v<O> == true, "%s", name);
  CHECK((std::is_same_v<typename O::value_type, P>), "%s: value_type", name);
  // arrays and structs have no hidden extra space
  struct Two
  {
    O a, b;
  };
  CHECK(sizeof(Two) == 2 * sizeof(O) && sizeof(O[7]) == 7 * sizeof(O), "%s", name);
  // behaves at that size: the size of an optional in use, not just of the type
  O arr[3];
  CHECK(reinterpret_cast<char *>(&arr[2]) - reinterpret_cast<char *>(&arr[0]) == 2 * static_cast<ptrdiff_t>(sizeof(O)));
  mon::seen(mon::mix(mon::str_hash(name), inPlace));
  if (mon::opt.seed % 3 == 0 || std::strlen(name) % 5 == 0) {
    mon::sample("%s: sizeof %zu alignof %zu compressed %d", name, sizeof(O), alignof(O), O::is_compressed);
  }
}
#define V(INPLACE, P, ...) verify<__VA_ARGS__, P>(#__VA_ARGS__, INPLACE)

struct Empty
{
};
struct Poly
{
  virtual ~Poly() = default;
  double d = 0;
  bool b = false;
  char c = 0;
  friend bool operator==(Poly const & l, Poly const & r) { return l.d == r.d; }
};
template <size_t N>
struct Bytes
{
  unsigned char b[N];
};
struct Inner
{
  int x;
  char c;
};
struct alignas(32) Al32
{
  bool b;
  int i;
};
struct Bits
{
  unsigned a : 3;
  unsigned b : 5;
};
union Un
{
  int i;
  char c[9];
};
struct Full
{
  bool b;
  char ch;
  signed char sc;
  unsigned char uc;
  short s;
  unsigned short us;
  int i;
  unsigned u;
  long l;
  unsigned long ul;
  long long ll;
  unsigned long long ull;
  float f;
  double d;
  int * p;
  int (*fp)(int);
  pl::Color c;
  wchar_t wc;
  char16_t c16;
  kd::Flagged fl;
  kd::Reg reg;
};
struct SentF
{
  static constexpr float value = 1.5f;
};
struct SentD
{
  static constexpr double value = 2.5;
};
struct SentI
{
  static constexpr int value = 77;
};
struct SentTrue
{
  static constexpr bool value = true;
};

SUITE(bits, "size/unused-bits")
{
  V(bitTricks, bool, tiny::optional<bool>);
  V(bitTricks, bool const, tiny::optional<bool const>);
  V(bitTricks, float, tiny::optional<float>);
  V(bitTricks, float const, tiny::optional<float const>);
  V(bitTricks, double, tiny::optional<double>);
  V(bitTricks, double const, tiny::optional<double const>);
  V(bitTricks, double volatile, tiny::optional<double volatile>);
  V(bitTricks, int *, tiny::optional<int *>);
  V(bitTricks, int const *, tiny::optional<int const *>);
  V(bitTricks, int * const, tiny::optional<int * const>);
  V(bitTricks, void *, tiny::optional<void *>);
  V(bitTricks, void const * const, tiny::optional<void const * const>);
  V(bitTricks, char **, tiny::optional<char **>);
  V(bitTricks, Poly *, tiny::optional<Poly *>);
  V(bitTricks, kd::FnT, tiny::optional<kd::FnT>);
  using NxFn = void (*)() noexcept;
  V(bitTricks, NxFn, tiny::optional<NxFn>);
  using ArrP = int (*)[5];
  V(bitTricks, ArrP, tiny::optional<ArrP>);
#ifndef TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UB_TRICKS
  #ifndef TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UNUSED_BITS
  V(true, bool, tiny::optional_aip<bool>);
  V(true, float, tiny::optional_aip<float>);
  V(true, double, tiny::optional_aip<double>);
  V(true, int *, tiny::optional_aip<int *>);
  V(true, kd::FnT, tiny::optional_aip<kd::FnT>);
  #endif
#endif
}

SUITE(sep, "size/separate")
{
  V(false, char, tiny::optional<char>);
  V(false, signed char, tiny::optional<signed char>);
  V(false, unsigned char, tiny::optional<unsigned char>);
  V(false, short, tiny::optional<short>);
  V(false, unsigned short, tiny::optional<unsigned short>);
  V(false, int, tiny::optional<int>);
  V(false, int const, tiny::optional<int const>);
  V(false, unsigned, tiny::optional<unsigned>);
  V(false, long, tiny::optional<long>);
  V(false, unsigned long, tiny::optional<unsigned long>);
  V(false, long long, tiny::optional<long long>);
  V(false, unsigned long long, tiny::optional<unsigned long long>);
  V(false, wchar_t, tiny::optional<wchar_t>);
  V(false, char16_t, tiny::optional<char16_t>);
  V(false, char32_t, tiny::optional<char32_t>);
  V(false, long double, tiny::optional<long double>);
  V(false, std::nullptr_t, tiny::optional<std::nullptr_t>);
  V(false, std::complex<double>, tiny::optional<std::complex<double>>);
  V(false, pl::Color, tiny::optional<pl::Color>);
  V(false, kd::MemPtr, tiny::optional<kd::MemPtr>);
  using MFn = int (Poly::*)();
  V(false, MFn, tiny::optional<MFn>);
  V(false, std::string, tiny::optional<std::string>);
  V(false, std::vector<int>, tiny::optional<std::vector<int>>);
  V(false, std::unique_ptr<int>, tiny::optional<std::unique_ptr<int>>);
  V(false, std::shared_ptr<int>, tiny::optional<std::shared_ptr<int>>);
  using Mp = std::map<int, int>;
  V(false, Mp, tiny::optional<Mp>);
  V(false, Empty, tiny::optional<Empty>);
  V(false, Poly, tiny::optional<Poly>);
  V(false, Inner, tiny::optional<Inner>);
  V(false, Al32, tiny::optional<Al32>);
  V(false, Bits, tiny::optional<Bits>);
  V(false, Un, tiny::optional<Un>);
  V(false, kd::Over, tiny::optional<kd::Over>);
  V(false, kd::Tail, tiny::optional<kd::Tail>);
  V(false, pl::Agg, tiny::optional<pl::Agg>);
  V(false, pl::Trk, tiny::optional<pl::Trk>);
  V(false, Full, tiny::optional<Full>);
  V(false, std::optional<int>, tiny::optional<std::optional<int>>);
  V(false, tiny::optional<int>, tiny::optional<tiny::optional<int>>);
  V(false, tiny::optional<bool>, tiny::optional<tiny::optional<bool>>);
  V(false, Bytes<1>, tiny::optional<Bytes<1>>);
  V(false, Bytes<2>, tiny::optional<Bytes<2>>);
  V(false, Bytes<3>, tiny::optional<Bytes<3>>);
  V(false, Bytes<5>, tiny::optional<Bytes<5>>);
  V(false, Bytes<7>, tiny::optional<Bytes<7>>);
  V(false, Bytes<16>, tiny::optional<Bytes<16>>);
  V(false, Bytes<17>, tiny::optional<Bytes<17>>);
  V(false, Bytes<100>, tiny::optional<Bytes<100>>);
}

SUITE(sentinels, "size/sentinel")
{
  using O1 = tiny::optional<int, -1>;
  V(true, int, O1);
  using O1c = tiny::optional<int const, -1>;
  V(true, int const, O1c);
  using O2 = tiny::optional<unsigned, 0u>;
  V(true, unsigned, O2);
  using O3 = tiny::optional<char, 'x'>;
  V(true, char, O3);
  using O4 = tiny::optional<signed char, -128>;
  V(true, signed char, O4);
  using O5 = tiny::optional<unsigned char, 255>;
  V(true, unsigned char, O5);
  using O6 = tiny::optional<short, 3>;
  V(true, short, O6);
  using O7 = tiny::optional<unsigned long long, 42>;
  V(true, unsigned long long, O7);
  using O8 = tiny::optional<bool, true>;
  V(true, bool, O8);
  using O8b = tiny::optional<bool, false>;
  V(true, bool, O8b);
  using O9 = tiny::optional<pl::Color, pl::Color::Max>;
  V(true, pl::Color, O9);
  using O10 = tiny::optional<int *, nullptr>;
  V(true, int *, O10);
  using O11 = tiny::optional<kd::FnT, &kd::fn0>;
  V(true, kd::FnT, O11);
  using O12 = tiny::optional<wchar_t, L'q'>;
  V(true, wchar_t, O12);
  using O13 = tiny::optional<long, -5>;
  V(true, long, O13);
  V(true, kd::Reg, tiny::optional<kd::Reg>);
  using O14 = tiny::optional<kd::Reg, kd::Reg::A>;
  V(true, kd::Reg, O14);
  using T1 = tiny::optional_sentinel_via_type<float, SentF>;
  V(true, float, T1);
  using T2 = tiny::optional_sentinel_via_type<double, SentD>;
  V(true, double, T2);
  using T3 = tiny::optional_sentinel_via_type<int, SentI>;
  V(true, int, T3);
  using T4 = tiny::optional_sentinel_via_type<unsigned char, SentI>;
  V(true, unsigned char, T4);
  using T5 = tiny::optional_sentinel_via_type<bool, SentTrue>;
  V(true, bool, T5);
  using T6 = tiny::optional_sentinel_via_type<kd::Ticks, kd::SentTicks>;
  V(true, kd::Ticks, T6);
  using T7 = tiny::optional_sentinel_via_type<int const, SentI>;
  V(true, int const, T7);
  using T8 = tiny::optional_sentinel_via_type<double const, SentD>;
  V(true, double const, T8);
  using T9 = tiny::optional<int const, 5>;
  V(true, int const, T9);
  using T10 = tiny::optional_aip<long const>;
  V(true, long const, T10);
  V(true, short, tiny::optional_aip<short>);
  V(true, unsigned short, tiny::optional_aip<unsigned short>);
  V(true, int, tiny::optional_aip<int>);
  V(true, int const, tiny::optional_aip<int const>);
  V(true, unsigned, tiny::optional_aip<unsigned>);
  V(true, long, tiny::optional_aip<long>);
  V(true, unsigned long, tiny::optional_aip<unsigned long>);
  V(true, long long, tiny::optional_aip<long long>);
  V(true, unsigned long long, tiny::optional_aip<unsigned long long>);
  using A1 = tiny::optional_aip<char, 'a'>;
  V(true, char, A1);
  using A2 = tiny::optional_aip<pl::Color, pl::Color::Max>;
  V(true, pl::Color, A2);
  using A3 = tiny::optional_aip<int, 5>;
  V(true, int, A3);
}

SUITE(members, "size/member")
{
#define M(MEM, SENT)                                                                                                   \
  {                                                                                                                    \
    using O = tiny::optional<Full, &Full::MEM, SENT>;                                                                  \
    verify<O, Full>("optional<Full, &Full::" #MEM ", " #SENT ">", memTricks);                                          \
  }
#define MB(MEM)                                                                                                        \
  {                                                                                                                    \
    using O = tiny::optional<Full, &Full::MEM>;                                                                        \
    verify<O, Full>("optional<Full, &Full::" #MEM ">", memTricks);                                                     \
  }
  M(b, true)
  M(ch, 'c')
  M(sc, -4)
  M(uc, 200)
  M(s, -30000)
  M(us, 65535)
  M(i, 12)
  M(u, 13u)
  M(l, -14)
  M(ul, 15)
  M(ll, 16)
  M(ull, 17)
  M(p, nullptr)
  M(fp, nullptr)
  M(c, pl::Color::Max)
  M(wc, L'w')
  M(c16, u'u')
  M(reg, kd::Reg::B)
  MB(fl)
  MB(reg)
#if !defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UNUSED_BITS) \
    || defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_MEMBER)
  MB(b)
  MB(f)
  MB(d)
  MB(p)
  MB(fp)
#endif
  using S1 = tiny::optional_sentinel_via_type<Full, SentF, &Full::f>;
  V(memTricks, Full, S1);
  using S2 = tiny::optional_sentinel_via_type<Full, SentD, &Full::d>;
  V(memTricks, Full, S2);
  using S3 = tiny::optional_sentinel_via_type<Full, SentI, &Full::i>;
  V(memTricks, Full, S3);
  using S4 = tiny::optional_sentinel_via_type<Full, SentI, &Full::uc>;
  V(memTricks, Full, S4);
  using P1 = tiny::optional<Poly, &Poly::c, 'z'>;
  V(memTricks, Poly, P1);
  using L1 = tiny::optional<Al32, &Al32::i, 9>;
  V(memTricks, Al32, L1);
  using N1 = tiny::optional<Inner, &Inner::x, 5>;
  V(memTricks, Inner, N1);
  using N2 = tiny::optional<pl::AggLast, &pl::AggLast::tag, -1>;
  V(memTricks, pl::AggLast, N2);
}

struct NoopManip
{
  template <class T>
  static bool is_empty(T const & t) noexcept
  {
    unsigned char c;
    std::memcpy(&c, &t, 1);
    return c == 0xee;
  }
  template <class T>
  static void init_empty_flag(T & t) noexcept
  {
    unsigned char c = 0xee;
    std::memcpy(static_cast<void *>(&t), &c, 1);
  }
  template <class T>
  static void invalidate_empty_flag(T &) noexcept
  {
  }
};

SUITE(custom, "size/custom")
{
  V(true, kd::IndexPair, tiny::optional<kd::IndexPair>);
  V(true, kd::WithRes, tiny::optional<kd::WithRes>);
  V(true, kd::Flagged, tiny::optional<kd::Flagged>);
  V(true, pl::AggF, tiny::optional<pl::AggF>);
  V(true, kd::IndexPair, tiny::optional_aip<kd::IndexPair>);
  V(true, kd::Reg, tiny::optional_aip<kd::Reg>);
#define INP(T)                                                                                                         \
  {                                                                                                                    \
    using O = tiny::optional_inplace<T, NoopManip>;                                                                    \
    verify<O, T>("optional_inplace<" #T ">", true);                                                                    \
  }
  INP(char)
  INP(short)
  INP(int)
  INP(long)
  INP(Bytes<1>)
  INP(Bytes<3>)
  INP(Bytes<9>)
  INP(Al32)
  INP(kd::Over)
  INP(kd::Tail)
  INP(Poly *)
  INP(double)
  INP(int const)
  INP(double const)
  INP(Bytes<3> const)
  INP(Poly * const)
}

SUITE(helpers, "size/helpers")
{
  CHECK(!tiny::is_tiny_optional_v<int>);
  CHECK(!tiny::is_tiny_optional_v<std::optional<int>>);
  CHECK(!tiny::is_tiny_optional_v<std::optional<tiny::optional<int>>>);
  CHECK(!tiny::is_tiny_optional_v<std::string>);
  CHECK(!tiny::is_tiny_optional_v<Poly>);
  CHECK(!tiny::is_tiny_optional_v<void>);
  CHECK(!tiny::is_tiny_optional_v<std::nullopt_t>);
  CHECK(tiny::is_tiny_optional_v<tiny::optional<int> const> == tiny::optional<int>::is_tiny_optional);
  CHECK(TINY_OPTIONAL_VERSION > 0);
  mon::seen(77);
}
} // namespace
