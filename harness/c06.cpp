// C06: a sentinel swallows exactly the declared value. Every storing operation of every flavour with a declared sentinel is
// run with values near and far from the sentinel, exhaustively for 8 and 16 bit types.
#include "mon.h"
#include <tiny/optional.h>

#include <climits>
#include <cmath>
#include <limits>
#include <string>

namespace
{
int pool[4];

// ------------------------------------------------------------------ comparing payloads
template <class P>
struct Eq // bitwise; only used for types without padding
{
  static bool same(P const & a, P const & b) { return std::memcmp(&a, &b, sizeof(P)) == 0; }
};

// i386 returns floating point values in x87 registers, which quiets signalling NaNs: a NaN is then only required to be one.
template <class P>
bool same_returned(P const & a, P const & b)
{
  if constexpr (std::is_floating_point_v<P>) {
    if (sizeof(void *) == 4 && std::isnan(a) && std::isnan(b)) {
      return true;
    }
  }
  return Eq<P>::same(a, b);
}

uint64_t salt;

template <class O>
void must_be_empty(O & o, const char * what)
{
  mon::eval();
  O const & c = o;
  if (o.has_value() || c.has_value() || static_cast<bool>(o) || o != std::nullopt) {
    mon::fail("optional is not empty after %s", what);
  }
}

template <class O, class P>
void must_hold(O & o, P const & v, const char * what)
{
  mon::eval();
  O const & c = o;
  if (!c.has_value() || !static_cast<bool>(c) || c == std::nullopt) {
    mon::fail("value that is not the sentinel reads as empty after %s (first byte of value: 0x%02x)", what,
              *reinterpret_cast<unsigned char const *>(&v));
    return;
  }
  if (!Eq<P>::same(*c, v) || !Eq<P>::same(o.value(), v) || !Eq<P>::same(*o.operator->(), v)) {
    mon::fail("value changed by %s", what);
  }
}

template <class O>
struct Base
{
  using P = std::remove_const_t<typename O::value_type>;

  static void empties(P const & some)
  {
    {
      O o;
      must_be_empty(o, "default construction");
    }
    {
      O o(std::nullopt);
      must_be_empty(o, "construction from nullopt");
      O p(o);
      must_be_empty(p, "copy of empty");
      O q(std::move(o));
      must_be_empty(q, "move of empty");
    }
    {
      O o(some);
      o.reset();
      must_be_empty(o, "reset");
      o.emplace(some);
      must_hold(o, some, "emplace after reset");
      o = std::nullopt;
      must_be_empty(o, "= nullopt");
      must_be_empty(o, "= nullopt");
    }
    if constexpr (std::is_copy_assignable_v<O>) {
      O o(some), e;
      o = e;
      must_be_empty(o, "assignment of empty");
      must_be_empty(e, "assignment from it");
      O p(some), f;
      p.swap(f);
      must_be_empty(p, "swap with empty");
      must_hold(f, some, "swap with empty");
      O q(some);
      q = {};
      must_be_empty(q, "= {}");
    }
    {
      O e;
      mon::eval();
      if (!same_returned<P>(e.value_or(some), some)) {
        mon::fail("value_or of an empty optional does not give the default");
      }
    }
  }

  // all storing operations with value v; 'other' is any other storable value
  static void roundtrip(P const & v, P const & other)
  {
    {
      O o(v);
      must_hold(o, v, "construction");
      O c(o);
      must_hold(c, v, "copy construction");
      O m(std::move(c));
      must_hold(m, v, "move construction");
      must_hold(o, v, "being copied");
      mon::eval();
      if (!same_returned<P>(o.value_or(other), v) || !same_returned<P>(O(o).value_or(other), v)) {
        mon::fail("value_or of an engaged optional does not give its value");
      }
    }
    {
      P copy(v);
      O o(std::in_place, std::move(copy));
      must_hold(o, v, "in_place construction");
      o.emplace(other);
      must_hold(o, other, "emplace over a value");
      o.emplace(v);
      must_hold(o, v, "emplace over a value");
    }
    {
      O o;
      o.emplace(v);
      must_hold(o, v, "emplace into empty");
    }
    if constexpr (std::is_assignable_v<O &, P const &>) {
      O o;
      o = v;
      must_hold(o, v, "value assignment to empty");
      O p(other);
      p = v;
      must_hold(p, v, "value assignment to engaged");
      O q, r(other);
      q = o;
      must_hold(q, v, "copy assignment to empty");
      r = o;
      must_hold(r, v, "copy assignment to engaged");
      O s, t(other);
      s = std::move(q);
      must_hold(s, v, "move assignment to empty");
      t = std::move(r);
      must_hold(t, v, "move assignment to engaged");
      O e;
      e.swap(s);
      must_hold(e, v, "swap empty with engaged");
      must_be_empty(s, "swap empty with engaged");
      O u(other);
      u.swap(e);
      must_hold(u, v, "swap of two values");
      must_hold(e, other, "swap of two values");
      O w(other);
      *w = v;
      must_hold(w, v, "assignment through *");
      *w.operator->() = other;
      must_hold(w, other, "assignment through ->");
      w.value() = v;
      must_hold(w, v, "assignment through value()");
      w = w;
      must_hold(w, v, "self assignment");
    }
    {
      auto r = O(v).and_then([&](P const & x) { return O(x); });
      must_hold(r, v, "and_then");
    }
  }
};

// ------------------------------------------------------------------ integers
template <class I>
I abs_pattern(uint64_t x)
{
  return static_cast<I>(x);
}

template <class O, bool Exhaustive>
void int_suite(const char * name, typename Base<O>::P sentinel)
{
  using P = typename Base<O>::P;
  mon::context("sentinel", name);
  P const other = static_cast<P>(sentinel == static_cast<P>(5) ? 6 : 5);
  Base<O>::empties(other);
  {
    O e;
    mon::eval(3);
    if (e == sentinel || sentinel == e || !(e != sentinel)) {
      mon::fail("an empty optional compares equal to its sentinel value");
    }
  }
  uint64_t n = 0;
  auto one = [&](uint64_t x) {
    P const v = static_cast<P>(x);
    if (v == sentinel) {
      return;
    }
    Base<O>::roundtrip(v, other);
    ++n;
    mon::seen(mon::mix(mon::str_hash(name), static_cast<uint64_t>(v)));
  };
  if constexpr (Exhaustive) {
    if (sizeof(P) == 1 || mon::opt.scale >= 2) {
      for (uint64_t x = 0; x < (uint64_t(1) << (8 * sizeof(P))); ++x) {
        one(x);
      }
    }
  }
  uint64_t const s = static_cast<uint64_t>(sentinel);
  for (unsigned b = 0; b < 8 * sizeof(P); ++b) {
    one(s ^ (uint64_t(1) << b));
    one(s + (uint64_t(1) << b));
    one(s - (uint64_t(1) << b));
    one(uint64_t(1) << b);
    one((uint64_t(1) << b) - 1);
    one(~(uint64_t(1) << b));
    one(s << b);
    one(s >> b);
    one(s & ((uint64_t(2) << b) - 1));
    one(s | ~((uint64_t(2) << b) - 1));
    for (unsigned c = 0; c < b; ++c) {
      one(s ^ (uint64_t(1) << b) ^ (uint64_t(1) << c));
    }
  }
  for (unsigned byte = 0; byte < sizeof(P); ++byte) {
    for (uint64_t x = 0; x < 256; ++x) {
      one((s & ~(uint64_t(255) << (8 * byte))) | (x << (8 * byte)));
    }
  }
  using L = std::numeric_limits<std::conditional_t<std::is_enum_v<P>, int, P>>;
  one(static_cast<uint64_t>(L::max()));
  one(static_cast<uint64_t>(L::min()));
  one(0);
  one(~uint64_t(0));
  mon::Rng r(mon::opt.seed ^ mon::str_hash(name));
  for (long k = 0; k < 300 * mon::opt.scale; ++k) {
    one(r.next() >> r.below(64));
  }
  mon::count("values stored through every route", n);
  mon::sample("%s: %llu values, sentinel 0x%llx", name, static_cast<unsigned long long>(n), static_cast<unsigned long long>(s));
}
#define I_(SENT, ...) int_suite<__VA_ARGS__, false>(#__VA_ARGS__, SENT)
#define IX(SENT, ...) int_suite<__VA_ARGS__, true>(#__VA_ARGS__, SENT)

#if PART == 0
SUITE(i8, "sentinel/8bit")
{
  IX(0, tiny::optional<int8_t, 0>);
  IX(-1, tiny::optional<int8_t, -1>);
  IX(127, tiny::optional<int8_t, 127>);
  IX(-128, tiny::optional<int8_t, -128>);
  IX(1, tiny::optional<int8_t, 1>);
  IX(-2, tiny::optional<int8_t, -2LL>);
  IX(0, tiny::optional<uint8_t, 0>);
  IX(255, tiny::optional<uint8_t, 255>);
  IX(254, tiny::optional<uint8_t, 0xfe>);
  IX(128, tiny::optional<uint8_t, 128u>);
  IX(200, tiny::optional<uint8_t, 200ull>);
  IX('x', tiny::optional<char, 'x'>);
  IX('\0', tiny::optional<char, '\0'>);
  IX('a', tiny::optional_aip<char, 'a'>);
  IX(77, tiny::optional_aip<signed char, 77>);
  IX(3, tiny::optional_aip<unsigned char, 3>);
  IX(7, tiny::optional<uint8_t const, 7>);
}
SUITE(i16, "sentinel/16bit")
{
  IX(0, tiny::optional<int16_t, 0>);
  IX(-1, tiny::optional<int16_t, -1>);
  IX(SHRT_MAX, tiny::optional<int16_t, SHRT_MAX>);
  IX(256, tiny::optional<int16_t, 256>);
  IX(255, tiny::optional<int16_t, 255>);
  IX('x', tiny::optional<short, 'x'>);
  IX(0xff00, tiny::optional<uint16_t, 0xff00>);
  IX(0x8000, tiny::optional<uint16_t, 0x8000>);
  IX(0xffff, tiny::optional<uint16_t, 0xffffu>);
  IX(u'y', tiny::optional<char16_t, u'y'>);
  IX(SHRT_MIN, tiny::optional_aip<short>);
  IX(SHRT_MIN, tiny::optional_aip<short const>);
  IX(USHRT_MAX, tiny::optional_aip<unsigned short>);
  IX(USHRT_MAX, tiny::optional_aip<unsigned short const>);
  IX(5, tiny::optional_aip<short, 5>);
}
#endif

#if PART == 1
SUITE(i32, "sentinel/32bit")
{
  I_(0, tiny::optional<int, 0>);
  I_(-1, tiny::optional<int, -1>);
  I_(INT_MAX, tiny::optional<int, INT_MAX>);
  I_(INT_MIN, tiny::optional<int, INT_MIN>);
  I_(0x12345678, tiny::optional<int, 0x12345678>);
  I_(42, tiny::optional<unsigned, 42>);
  I_(0xffffffffu, tiny::optional<unsigned, 0xffffffffu>);
  I_(0x80000000u, tiny::optional<uint32_t, 0x80000000ll>);
  I_(L'w', tiny::optional<wchar_t, L'w'>);
  I_(U'w', tiny::optional<char32_t, U'w'>);
  I_(INT_MIN, tiny::optional_aip<int>);
  I_(INT_MIN, tiny::optional_aip<int const>);
  I_(UINT_MAX, tiny::optional_aip<unsigned>);
  I_(UINT_MAX, tiny::optional_aip<unsigned const>);
  I_(-1, tiny::optional_aip<int, -1>);
}
SUITE(i64, "sentinel/64bit")
{
  I_(42, tiny::optional<int64_t, 42>);
  I_(-1, tiny::optional<int64_t, -1>);
  I_(INT_MIN, tiny::optional<int64_t, INT_MIN>);
  I_(INT64_MAX, tiny::optional<int64_t, INT64_MAX>);
  I_(0xffffffffu, tiny::optional<uint64_t, 0xffffffffu>);
  I_(UINT64_MAX, tiny::optional<uint64_t, UINT64_MAX>);
  I_(0x8000000000000000ull, tiny::optional<uint64_t, 0x8000000000000000ull>);
  I_(0x0123456789abcdefull, tiny::optional<uint64_t, 0x0123456789abcdefull>);
  I_(LONG_MIN, tiny::optional_aip<long>);
  I_(ULONG_MAX, tiny::optional_aip<unsigned long>);
  I_(LLONG_MIN, tiny::optional_aip<long long>);
  I_(ULLONG_MAX, tiny::optional_aip<unsigned long long>);
  I_(ULLONG_MAX, tiny::optional_aip<unsigned long long const>);
  I_(LONG_MIN, tiny::optional_aip<long const>);
  I_(0, tiny::optional_aip<long, 0>);
}
#endif

// ------------------------------------------------------------------ enums, manipulators
enum class E8 : uint8_t
{
  A,
  Inv = 200
};
enum class E16 : int16_t
{
  A,
  Inv = -1
};
enum E32
{
  E32A,
  E32Inv = 0x7fffffff
};
enum class E64 : uint64_t
{
  A,
  Inv = 0xffffffff00000000ull
};
enum class Spec64 : long long
{
  A,
  Inv = -1
};
// Compared with the sentinel by an operator of its own.
struct Id
{
  long long n;
  constexpr Id(int x) noexcept : n(x) { }
  constexpr Id(int hi, unsigned lo) noexcept : n(static_cast<long long>((static_cast<unsigned long long>(hi) << 32) | lo)) { }
  friend constexpr bool operator==(Id const & a, int b) noexcept { return a.n == b; }
};
enum class Spec : int
{
  A,
  Inv = 77
};
struct SM5
{
  static constexpr int value = -5;
};
struct S16
{
  static constexpr short value = 0x0102;
};
struct SU64
{
  static constexpr uint64_t value = 0x00000000ffffffffull;
};
struct SE
{
  static constexpr E8 value = E8::Inv;
};
} // namespace

template <>
struct tiny::optional_flag_manipulator<Spec64> : tiny::sentinel_flag_manipulator<Spec64, Spec64::Inv>
{
};
template <>
struct tiny::optional_flag_manipulator<Id> : tiny::sentinel_flag_manipulator<Id, 5>
{
};
template <>
struct tiny::optional_flag_manipulator<Spec> : tiny::sentinel_flag_manipulator<Spec, Spec::Inv>
{
};

namespace
{
#if PART == 2
SUITE(en, "sentinel/enums-and-manipulators")
{
  IX(E8::Inv, tiny::optional<E8, E8::Inv>);
  IX(E16::Inv, tiny::optional<E16, E16::Inv>);
  I_(E32Inv, tiny::optional<E32, E32Inv>);
  I_(E64::Inv, tiny::optional<E64, E64::Inv>);
  I_(Spec::Inv, tiny::optional<Spec>);
  I_(Spec::A, tiny::optional<Spec, Spec::A>); // explicit sentinel overrides the specialisation
  using Inp = tiny::optional_inplace<int, tiny::sentinel_flag_manipulator<int, -1>>;
  I_(-1, Inp);
  using InpE = tiny::optional_inplace<E8, tiny::sentinel_flag_manipulator<E8, E8::A>>;
  IX(E8::A, InpE);
  using Inp16 = tiny::optional_inplace<uint16_t, tiny::sentinel_flag_manipulator<uint16_t, 65535>>;
  IX(65535, Inp16);
  // the helper of the library for wide types and with a sentinel of another type
  I_(Spec64::Inv, tiny::optional<Spec64>);
  using Inp64 = tiny::optional_inplace<int64_t, tiny::sentinel_flag_manipulator<int64_t, 42>>;
  I_(42, Inp64);
  using InpM64 = tiny::optional_inplace<int64_t, tiny::sentinel_flag_manipulator<int64_t, -1>>;
  I_(-1, InpM64);
  using InpU64 = tiny::optional_inplace<uint64_t, tiny::sentinel_flag_manipulator<uint64_t, 0xffffffffu>>;
  I_(0xffffffffu, InpU64);
  using InpMax = tiny::optional_inplace<uint64_t, tiny::sentinel_flag_manipulator<uint64_t, UINT64_MAX>>;
  I_(UINT64_MAX, InpMax);
  using InpU32 = tiny::optional_inplace<uint32_t, tiny::sentinel_flag_manipulator<uint32_t, 0x80000000u>>;
  I_(0x80000000u, InpU32);
  using InpE64 = tiny::optional_inplace<E64, tiny::sentinel_flag_manipulator<E64, E64::Inv>>;
  I_(E64::Inv, InpE64);
  using InpE16 = tiny::optional_inplace<E16, tiny::sentinel_flag_manipulator<E16, E16::Inv>>;
  IX(E16::Inv, InpE16);
  using InpS8 = tiny::optional_inplace<signed char, tiny::sentinel_flag_manipulator<signed char, -1>>;
  IX(-1, InpS8);
  using InpS16 = tiny::optional_inplace<int16_t, tiny::sentinel_flag_manipulator<int16_t, 256>>;
  IX(256, InpS16);
  using V5 = tiny::optional_sentinel_via_type<int, SM5>;
  I_(-5, V5);
  using V16 = tiny::optional_sentinel_via_type<short, S16>;
  IX(0x0102, V16);
  using VU64 = tiny::optional_sentinel_via_type<uint64_t, SU64>;
  I_(0xffffffffull, VU64);
  using VE = tiny::optional_sentinel_via_type<E8, SE>;
  IX(E8::Inv, VE);
  using VC = tiny::optional_sentinel_via_type<int const, SM5>;
  I_(-5, VC);
}

SUITE(own_eq, "sentinel/own-comparison")
{
  mon::context("sentinel", "Id");
  using O = tiny::optional<Id>;
  Base<O>::empties(Id(6));
  mon::Rng r(mon::opt.seed);
  for (int k = 0; k < 3000 * mon::opt.scale; ++k) {
    Id const v = k < 64 ? Id(k % 2 ? 1 << (k / 2) / 2 : 0, 5u ^ (1u << (k / 2))) : Id(static_cast<int>(r.next()), k % 3 ? 5u : static_cast<unsigned>(r.next()));
    if (v.n == 5) {
      continue;
    }
    Base<O>::roundtrip(v, Id(6));
    mon::seen(mon::mix(mon::str_hash("Id"), static_cast<uint64_t>(v.n)));
  }
}

template <class O>
void bool_one(const char * name, bool storable)
{
  mon::context("sentinel", name);
  Base<O>::empties(storable);
  Base<O>::roundtrip(storable, storable);
  mon::seen(mon::mix(mon::str_hash(name), storable));
}
struct SF
{
  static constexpr bool value = false;
};
SUITE(boolean, "sentinel/bool")
{
  bool_one<tiny::optional<bool, true>>("optional<bool,true>", false);
  bool_one<tiny::optional<bool, false>>("optional<bool,false>", true);
  bool_one<tiny::optional_sentinel_via_type<bool, SF>>("via type bool false", true);
  bool_one<tiny::optional_aip<bool, true>>("optional_aip<bool,true>", false);
}

// ------------------------------------------------------------------ floating point
template <class F>
struct Fp;
template <>
struct Fp<double>
{
  using B = uint64_t;
  static constexpr B reserved = 0x7ff8fedcba987654ull;
};
template <>
struct Fp<float>
{
  using B = uint32_t;
  static constexpr B reserved = 0x7fedcba9u;
};
template <class O>
void fp_suite(const char * name, typename Base<O>::P sentinel)
{
  using P = typename Base<O>::P;
  using B = typename Fp<P>::B;
  mon::context("sentinel", name);
  P const other = sentinel == P(5) ? P(6) : P(5);
  Base<O>::empties(other);
  uint64_t n = 0;
  auto one = [&](B b) {
    P v;
    std::memcpy(&v, &b, sizeof v);
    if (v == sentinel) {
      return;
    }
    Base<O>::roundtrip(v, other);
    ++n;
    mon::seen(mon::mix(mon::str_hash(name), b));
  };
  B s;
  std::memcpy(&s, &sentinel, sizeof s);
  one(Fp<P>::reserved); // the pattern that plain optionals reserve is an ordinary value here
  for (unsigned b = 0; b < 8 * sizeof(P); ++b) {
    one(s ^ (B(1) << b));
    one(Fp<P>::reserved ^ (B(1) << b));
    one(B(1) << b);
    one(static_cast<B>(~(B(1) << b)));
    for (unsigned c = 0; c < b; ++c) {
      one(s ^ (B(1) << b) ^ (B(1) << c));
    }
  }
  using L = std::numeric_limits<P>;
  for (P v : {P(0), -P(0), P(1), P(-1), L::max(), L::min(), L::lowest(), L::infinity(), -L::infinity(), L::quiet_NaN(),
              L::denorm_min(), std::nextafter(sentinel, L::max()), std::nextafter(sentinel, L::lowest())}) {
    B b;
    std::memcpy(&b, &v, sizeof v);
    one(b);
  }
  mon::Rng r(mon::opt.seed ^ mon::str_hash(name));
  for (long k = 0; k < 3000 * mon::opt.scale; ++k) {
    one(static_cast<B>(r.next()));
  }
  mon::count("values stored through every route", n);
}
template <class P>
struct FS0
{
  static constexpr P value = 0;
};
template <class P>
struct FSm1
{
  static constexpr P value = -1;
};
template <class P>
struct FSinf
{
  static constexpr P value = std::numeric_limits<P>::infinity();
};
template <class P>
struct FSmax
{
  static constexpr P value = std::numeric_limits<P>::max();
};
template <class P>
struct FSden
{
  static constexpr P value = std::numeric_limits<P>::denorm_min();
};
#define F_(S, P)                                                                                                       \
  fp_suite<tiny::optional_sentinel_via_type<P, S<P>>>("via type " #S " " #P, S<P>::value);                              \
  fp_suite<tiny::optional_sentinel_via_type<P const, S<P>>>("via type " #S " const " #P, S<P>::value)
SUITE(fp, "sentinel/floating-point")
{
  F_(FS0, double);
  F_(FSm1, double);
  F_(FSinf, double);
  F_(FSmax, double);
  F_(FSden, double);
  F_(FS0, float);
  F_(FSm1, float);
  F_(FSinf, float);
  F_(FSmax, float);
  F_(FSden, float);
  fp_suite<tiny::optional_inplace<double, tiny::sentinel_flag_manipulator<double, -1>>>("inplace<double,-1>", -1.0);
  fp_suite<tiny::optional_inplace<double, tiny::sentinel_flag_manipulator<double, 0>>>("inplace<double,0>", 0.0);
  fp_suite<tiny::optional_inplace<float, tiny::sentinel_flag_manipulator<float, 7>>>("inplace<float,7>", 7.0f);
#ifdef TINY_OPTIONAL_CPP20
  fp_suite<tiny::optional_inplace<float, tiny::sentinel_flag_manipulator<float, 0.5f>>>("inplace<float,0.5f>", 0.5f);
  fp_suite<tiny::optional<double, -1.0>>("optional<double,-1.0>", -1.0);
  fp_suite<tiny::optional<float, 2.5f>>("optional<float,2.5f>", 2.5f);
  fp_suite<tiny::optional_aip<double, 0.25>>("optional_aip<double,0.25>", 0.25);
#endif
}

// ------------------------------------------------------------------ pointers
template <class O>
void ptr_suite(const char * name, typename Base<O>::P sentinel)
{
  using P = typename Base<O>::P;
  mon::context("sentinel", name);
  P const other = pool + 2;
  Base<O>::empties(other);
  uintptr_t const reserved = sizeof(void *) == 8 ? static_cast<uintptr_t>(0xffff800000000000ull - 1) : static_cast<uintptr_t>(0xffffffffu - 8);
  auto one = [&](uintptr_t b) {
    P v;
    std::memcpy(&v, &b, sizeof v);
    if (b == reinterpret_cast<uintptr_t>(sentinel)) {
      return;
    }
    Base<O>::roundtrip(v, other);
    mon::seen(mon::mix(mon::str_hash(name), b));
  };
  one(reserved);
  for (unsigned b = 0; b < 8 * sizeof(P); ++b) {
    one(uintptr_t(1) << b);
    one(~(uintptr_t(1) << b));
    one(reserved ^ (uintptr_t(1) << b));
    one(reinterpret_cast<uintptr_t>(sentinel) ^ (uintptr_t(1) << b));
  }
  one(0);
  one(~uintptr_t(0));
}
struct SNull
{
  static constexpr int * value = nullptr;
};
SUITE(ptr, "sentinel/pointer")
{
  ptr_suite<tiny::optional<int *, nullptr>>("optional<int*,nullptr>", nullptr);
  ptr_suite<tiny::optional<int const *, nullptr>>("optional<int const*,nullptr>", nullptr);
  ptr_suite<tiny::optional_sentinel_via_type<int *, SNull>>("via type null", nullptr);
  using InpP = tiny::optional_inplace<int *, tiny::sentinel_flag_manipulator<int *, nullptr>>;
  ptr_suite<InpP>("inplace<int*,nullptr>", nullptr);
  ptr_suite<tiny::optional<int *, &pool[0] + 0>>("optional<int*,pool>", &pool[0]);
}
#endif

#if PART == 3
// ------------------------------------------------------------------ members
struct M
{
  uint64_t before;
  int32_t i;
  int16_t s;
  uint8_t u;
  bool b;
  double d;
  float f;
  E8 e;
  char pad[3];
  int * p;
  uint64_t after;
};
} // namespace
static_assert(sizeof(M) == sizeof(uint64_t) * 2 + 4 + 2 + 2 + 8 + 8 + (sizeof(int *)) || sizeof(int *) == 4, "no padding");
namespace
{
template <>
struct Eq<M>
{
  static bool same(M const & a, M const & b)
  {
    return a.before == b.before && a.i == b.i && a.s == b.s && a.u == b.u && a.b == b.b && std::memcmp(&a.d, &b.d, 8) == 0
           && std::memcmp(&a.f, &b.f, 4) == 0 && a.e == b.e && a.p == b.p && a.after == b.after
           && std::memcmp(a.pad, b.pad, 3) == 0;
  }
};

template <class T>
T raw(mon::Rng & r)
{
  static const uint64_t special[] = {0,      ~0ull,       1,          0x7ff8fedcba987654ull, 0x7fedcba9u, 0xfefefefefefefefeull,
                                     0xffff7fffffffffffull, 0xfffffff7ull, 0x7fffffff, 0x8000,  0x80000000u, 0xffffu};
  uint64_t x = r.below(2) ? special[r.below(12)] : r.next();
  T t;
  std::memcpy(&t, &x, sizeof t);
  return t;
}

template <class O, class Forbid>
void mem_suite(const char * name, Forbid makeStorable)
{
  mon::context("sentinel", name);
  mon::Rng r(mon::opt.seed ^ mon::str_hash(name));
  auto any = [&] {
    M m;
    m.before = raw<uint64_t>(r);
    m.i = raw<int32_t>(r);
    m.s = raw<int16_t>(r);
    m.u = raw<uint8_t>(r);
    m.b = r.below(2);
    m.d = raw<double>(r);
    m.f = raw<float>(r);
    m.e = static_cast<E8>(raw<uint8_t>(r));
    for (char & c : m.pad) {
      c = raw<char>(r);
    }
    m.p = raw<int *>(r);
    m.after = raw<uint64_t>(r);
    makeStorable(m);
    return m;
  };
  M other = any();
  Base<O>::empties(other);
  for (long k = 0; k < 1500 * mon::opt.scale; ++k) {
    M const m = any();
    Base<O>::roundtrip(m, other);
    mon::seen(mon::mix(mon::str_hash(name), mon::mix(m.before, static_cast<uint64_t>(m.i))));
    if (k % 16 == 0) {
      other = m;
    }
  }
  mon::count("aggregates stored through every route", static_cast<uint64_t>(1500 * mon::opt.scale));
}
struct SD
{
  static constexpr double value = 0.0;
};
struct SFl
{
  static constexpr float value = -1.0f;
};
struct SI
{
  static constexpr int value = 0x01020304;
};
SUITE(mem, "sentinel/members")
{
  mem_suite<tiny::optional<M, &M::i, -1>>("member i -1", [](M & m) { m.i = m.i == -1 ? 0 : m.i; });
  mem_suite<tiny::optional<M, &M::i, 0>>("member i 0", [](M & m) { m.i = m.i == 0 ? 1 : m.i; });
  mem_suite<tiny::optional<M, &M::s, 0x7fff>>("member s 0x7fff", [](M & m) { m.s = m.s == 0x7fff ? 1 : m.s; });
  mem_suite<tiny::optional<M, &M::u, 0xfe>>("member u 0xfe", [](M & m) { m.u = m.u == 0xfe ? 1 : m.u; });
  mem_suite<tiny::optional<M, &M::b, true>>("member b true", [](M & m) { m.b = false; });
  mem_suite<tiny::optional<M, &M::b, false>>("member b false", [](M & m) { m.b = true; });
  mem_suite<tiny::optional<M, &M::e, E8::Inv>>("member e Inv", [](M & m) { m.e = m.e == E8::Inv ? E8::A : m.e; });
  mem_suite<tiny::optional<M, &M::p, nullptr>>("member p null", [](M & m) { m.p = m.p ? m.p : pool; });
  mem_suite<tiny::optional<M, &M::before, 0u>>("member before 0", [](M & m) { m.before = m.before ? m.before : 9; });
  mem_suite<tiny::optional<M, &M::after, UINT64_MAX>>("member after max", [](M & m) { m.after = ~m.after ? m.after : 9; });
  mem_suite<tiny::optional_sentinel_via_type<M, SD, &M::d>>("member d via type 0.0", [](M & m) { m.d = m.d == 0 ? 1 : m.d; });
  mem_suite<tiny::optional_sentinel_via_type<M, SFl, &M::f>>("member f via type -1", [](M & m) { m.f = m.f == -1 ? 1 : m.f; });
  mem_suite<tiny::optional_sentinel_via_type<M, SI, &M::i>>("member i via type", [](M & m) { m.i = m.i == SI::value ? 1 : m.i; });
  // without a sentinel the reserved pattern of that member only
  mem_suite<tiny::optional<M, &M::d>>("member d bits", [](M & m) {
    uint64_t u;
    std::memcpy(&u, &m.d, 8);
    m.d = u == 0x7ff8fedcba987654ull ? 1 : m.d;
  });
  mem_suite<tiny::optional<M, &M::f>>("member f bits", [](M & m) {
    uint32_t u;
    std::memcpy(&u, &m.f, 4);
    m.f = u == 0x7fedcba9u ? 1 : m.f;
  });
  mem_suite<tiny::optional<M, &M::b>>("member b bits", [](M &) {});
  mem_suite<tiny::optional<M, &M::p>>("member p bits", [](M & m) {
    m.p = reinterpret_cast<uintptr_t>(m.p) == (sizeof(void *) == 8 ? static_cast<uintptr_t>(0xffff7fffffffffffull) : static_cast<uintptr_t>(0xfffffff7u)) ? pool : m.p;
  });
}

#ifdef TINY_OPTIONAL_CPP20
// Class type sentinel given as template argument.
struct Point
{
  short x, y;
  constexpr bool operator==(Point const &) const noexcept = default;
};
SUITE(cls, "sentinel/class")
{
  mon::context("sentinel", "Point");
  using O = tiny::optional<Point, Point{-1, -1}>;
  Base<O>::empties(Point{0, 0});
  mon::Rng r(mon::opt.seed);
  for (long k = 0; k < 4000 * mon::opt.scale; ++k) {
    Point p{static_cast<short>(static_cast<int>(r.below(5)) - 2), static_cast<short>(static_cast<int>(r.below(5)) - 2)};
    if (k % 2) {
      p = Point{static_cast<short>(r.next()), static_cast<short>(r.next())};
    }
    if (p.x == -1 && p.y == -1) {
      continue;
    }
    Base<O>::roundtrip(p, Point{1, 1});
    mon::seen(mon::mix(static_cast<uint64_t>(p.x), static_cast<uint64_t>(p.y)));
  }
}
#endif
#endif
} // namespace
