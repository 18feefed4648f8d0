// The table of optional flavours ("kinds") the engine runs on. Every kind names the optional type of the library, the
// payload type (the reference is std::optional of it), how to make a payload from a number and how to reduce a payload to
// a comparable key. Only public API of the library is used.
#pragma once
#include "payloads.h"
#include <tiny/optional.h>

#include <array>
#include <climits>
#include <complex>
#include <cstddef>
#include <functional>
#include <limits>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <tuple>
#include <variant>
#include <vector>

namespace kd
{
using pl::bits;
using pl::Color;

// ---- values -------------------------------------------------------------------------------------------------------
// Small values are frequent so that equality and collisions with neighbouring sentinels happen.
template <class I>
inline I some_int(uint32_t r)
{
  using L = std::numeric_limits<I>;
  switch (r % 16) {
  case 0: return static_cast<I>(L::max());
  case 1: return static_cast<I>(L::min());
  case 2: return static_cast<I>(L::max() - 1);
  case 3: return static_cast<I>(L::min() + 1);
  case 4: return static_cast<I>(static_cast<uint64_t>(r) * 0x9E3779B97F4A7C15ull >> 7);
  case 5: return static_cast<I>(-2);
  case 6: return static_cast<I>(-1);
  default: return static_cast<I>(r / 16 % 7);
  }
}
template <class I>
inline I int_not(uint32_t r, I sentinel)
{
  I v = some_int<I>(r);
  return v == sentinel ? static_cast<I>(3) : v;
}

template <class To, class From>
inline To bit_as(From f)
{
  static_assert(sizeof(To) == sizeof(From), "");
  To t;
  std::memcpy(&t, &f, sizeof t);
  return t;
}

inline double some_double(uint32_t r)
{
  static const uint64_t pat[] = {
      0x0000000000000000ull, 0x8000000000000000ull, 0x7ff0000000000000ull, 0xfff0000000000000ull,
      0x7ff8000000000000ull, 0xfff8000000000000ull, 0x0000000000000001ull, 0x7fefffffffffffffull,
      0x3ff0000000000000ull, 0xbff0000000000000ull, 0x7ff8fedcba987655ull, 0x7ff8fedcba987650ull,
      0xfff8fedcba987654ull, 0x3ff8fedcba987654ull, 0x00000000ba987654ull, 0x7ff8fedc00000000ull};
  return bit_as<double>(r % 3 == 0 ? pat[(r / 3) % 16] : bits(static_cast<double>(r % 97) * 0.5));
}
inline float some_float(uint32_t r)
{
  static const uint32_t pat[] = {0x00000000u, 0x80000000u, 0x7f800000u, 0xff800000u, 0x7fc00000u, 0xffc00000u,
                                 0x00000001u, 0x7f7fffffu, 0x3f800000u, 0x7fedcba8u, 0xffedcba9u, 0x7fedcb00u,
                                 0x0000cba9u, 0x7fed0000u, 0xbf800000u, 0x7fedcbaau};
  return bit_as<float>(r % 3 == 0 ? pat[(r / 3) % 16] : static_cast<uint32_t>(bits(static_cast<float>(r % 97) * 0.5f)));
}

inline int fn0(int x) { return x; }
inline int fn1(int x) { return x + 1; }
inline int fn2(int x) { return x * 2; }

template <class T>
inline uint64_t skey(T const & t)
{
  return static_cast<uint64_t>(t);
}
inline uint64_t pkey(int const * p) { return p == nullptr ? 0u : static_cast<uint64_t>(p - pl::pool) + 1u; }
inline uint64_t strkey(std::string const & s)
{
  uint64_t h = s.size();
  for (char c : s) {
    h = mon::mix(h, static_cast<unsigned char>(c));
  }
  return h;
}
template <class T>
inline uint64_t trkkey(T const & t)
{
  pl::reg_use(&t, 0, "read");
  return static_cast<uint64_t>(static_cast<int64_t>(t.v));
}

// ---- sentinel holders ----------------------------------------------------------------------------------------------
struct SentM7
{
  static constexpr int value = -7;
};
struct SentDbl
{
  static constexpr double value = -1.0;
};
struct SentFlt
{
  static constexpr float value = 0.5f;
};
struct Ticks // a literal class type usable as payload and as sentinel
{
  int64_t n;
  constexpr explicit Ticks(int64_t x) noexcept : n(x) { }
  friend constexpr bool operator==(Ticks const & l, Ticks const & r) noexcept { return l.n == r.n; }
  friend constexpr bool operator!=(Ticks const & l, Ticks const & r) noexcept { return l.n != r.n; }
  friend constexpr bool operator<(Ticks const & l, Ticks const & r) noexcept { return l.n < r.n; }
  friend constexpr bool operator<=(Ticks const & l, Ticks const & r) noexcept { return l.n <= r.n; }
  friend constexpr bool operator>(Ticks const & l, Ticks const & r) noexcept { return l.n > r.n; }
  friend constexpr bool operator>=(Ticks const & l, Ticks const & r) noexcept { return l.n >= r.n; }
};
struct SentTicks
{
  static constexpr Ticks value{INT64_MIN};
};
struct SentPtr
{
  static constexpr int * value = nullptr;
};

// ---- custom payloads with manipulators -------------------------------------------------------------------------------
struct IndexPair // as in the README
{
  int a, b;
  IndexPair() : a(0), b(0) { }
  explicit IndexPair(int x) : a(x), b(x + 1) { }
  friend bool operator==(IndexPair const & l, IndexPair const & r) { return l.a == r.a && l.b == r.b; }
  friend bool operator!=(IndexPair const & l, IndexPair const & r) { return !(l == r); }
};

struct WithRes // The empty state of this one owns heap memory.
{
  std::string s;
  int x;
  explicit WithRes(int v) : s(static_cast<size_t>(v % 50 < 0 ? 0 : v % 50), 'a'), x(v < 0 ? 0 : v) { }
  struct EmptyTag
  {
  };
  explicit WithRes(EmptyTag) : s(100, 'e'), x(-1) { }
  WithRes(WithRes &&) = default;
  WithRes(WithRes const &) = default;
  WithRes & operator=(WithRes &&) = default;
  WithRes & operator=(WithRes const &) = default;
};

struct Flagged // used as a member with a manipulator of its own
{
  long state;
  friend bool operator==(Flagged const & l, Flagged const & r) { return l.state == r.state; }
};
struct HasFlagged
{
  pl::Trk t;
  Flagged fl;
  pl::Trk u;
  /*implicit*/ HasFlagged(int x) : t(x), fl{x < 0 ? -x : x}, u(x + 3) { }
  HasFlagged(int x, int y) : HasFlagged(x * 31 + y) { }
  uint64_t key() const
  {
    return mon::mix(mon::mix(static_cast<uint64_t>(t.v), static_cast<uint64_t>(fl.state)), static_cast<uint64_t>(u.v));
  }
};

enum class Reg : int
{
  A,
  B,
  C,
  Max
};

struct ManipI // for optional_inplace<AggI>
{
  static bool is_empty(pl::AggI const & x) noexcept { return x.i == -1; }
  static void init_empty_flag(pl::AggI & x) noexcept { ::new (static_cast<void *>(&x.i)) int(-1); }
  static void invalidate_empty_flag(pl::AggI & x) noexcept
  {
    using I = int;
    x.i.~I();
  }
};
struct ManipRes
{
  static bool is_empty(WithRes const & x) noexcept { return x.x == -1; }
  static void init_empty_flag(WithRes & x) noexcept { ::new (static_cast<void *>(&x)) WithRes(WithRes::EmptyTag{}); }
  static void invalidate_empty_flag(WithRes & x) noexcept { x.~WithRes(); }
};

struct alignas(64) Over // no aggregates: since C++20 these can be initialised with parentheses, which changes traits
{
  int v;
  char c;
  Over(int x, char y) : v(x), c(y) { }
};

struct Tail // tail padding
{
  long long l;
  char c;
  Tail(long long x, char y) : l(x), c(y) { }
};

// --- more payload shapes ---
enum class E16 : uint16_t
{
  A,
  B,
  C,
  None = 0xfff0
};
enum Unscoped
{
  UA,
  UB,
  UC
};
enum class EBool : bool
{
  No,
  Yes
};
struct Triv3 // trivially copyable, with a member that can hold the empty state
{
  int a;
  int b;
  int * p;
  bool f;
  double d;
  explicit Triv3(uint32_t r) noexcept
    : a(static_cast<int>(r % 50)), b(static_cast<int>(r % 7)), p(r % 3 ? pl::pool + r % 16 : nullptr), f(r % 2 != 0),
      d(static_cast<double>(r % 9))
  {
  }
  uint64_t key() const
  {
    return static_cast<uint64_t>(a) * 100000 + static_cast<uint64_t>(b) * 10000 + (p ? static_cast<uint64_t>(p - pl::pool) + 1 : 0) * 100
           + static_cast<uint64_t>(f) * 50 + static_cast<uint64_t>(d);
  }
  friend bool operator==(Triv3 const & l, Triv3 const & r) { return l.key() == r.key(); }
  friend bool operator!=(Triv3 const & l, Triv3 const & r) { return l.key() != r.key(); }
  friend bool operator<(Triv3 const & l, Triv3 const & r) { return l.key() < r.key(); }
  friend bool operator<=(Triv3 const & l, Triv3 const & r) { return l.key() <= r.key(); }
  friend bool operator>(Triv3 const & l, Triv3 const & r) { return l.key() > r.key(); }
  friend bool operator>=(Triv3 const & l, Triv3 const & r) { return l.key() >= r.key(); }
};
template <int N>
struct BigT // large and trivially copyable
{
  uint32_t w[N];
  explicit BigT(uint32_t r) noexcept
  {
    for (int i = 0; i < N; ++i) {
      w[i] = r % 50 + static_cast<uint32_t>(i);
    }
  }
  uint64_t key() const
  {
    uint64_t h = 0;
    for (uint32_t x : w) {
      h = h * 31 + x;
    }
    return h;
  }
  friend bool operator==(BigT const & l, BigT const & r) { return l.key() == r.key(); }
  friend bool operator!=(BigT const & l, BigT const & r) { return l.key() != r.key(); }
};
struct BigN // large, not trivial, flag at the very end
{
  std::string s;
  char pad[150];
  std::vector<int> v;
  short tag;
  explicit BigN(uint32_t r) : s(r % 40, 's'), v(r % 5, static_cast<int>(r % 11)), tag(static_cast<short>(r % 100))
  {
    std::memset(pad, static_cast<int>(r % 100), sizeof pad);
  }
  uint64_t key() const
  {
    uint64_t h = s.size() * 1000 + v.size() * 100 + static_cast<uint64_t>(tag);
    for (char c : pad) {
      h = h * 31 + static_cast<unsigned char>(c);
    }
    return h;
  }
};
struct Poly // polymorphic
{
  int x;
  explicit Poly(uint32_t r) : x(static_cast<int>(r % 50)) { }
  Poly(Poly const &) = default;
  Poly & operator=(Poly const &) = default;
  virtual ~Poly() = default;
  virtual uint64_t key() const { return static_cast<uint64_t>(x) + 7; }
};
struct Final final
{
  char c[3];
  explicit Final(uint32_t r) noexcept
  {
    c[0] = static_cast<char>(r % 50);
    c[1] = 'f';
    c[2] = static_cast<char>(r % 3);
  }
  uint64_t key() const { return static_cast<uint64_t>(c[0]) * 1000 + static_cast<uint64_t>(c[1]) * 3 + static_cast<uint64_t>(c[2]); }
};
struct Nothing // empty class
{
  friend bool operator==(Nothing, Nothing) { return true; }
  friend bool operator!=(Nothing, Nothing) { return false; }
};
union Uni
{
  int i;
  float f;
  explicit Uni(uint32_t r) noexcept : i(static_cast<int>(r % 50)) { }
};
struct NanManip // user manipulator for a builtin type
{
  static bool is_empty(double const & d) noexcept
  {
    uint64_t b;
    std::memcpy(&b, &d, sizeof b);
    return b == 0x7ff8000000000123ull;
  }
  static void init_empty_flag(double & d) noexcept
  {
    uint64_t const b = 0x7ff8000000000123ull;
    std::memcpy(&d, &b, sizeof b);
  }
  static void invalidate_empty_flag(double &) noexcept { }
};
} // namespace kd

template <>
struct tiny::optional_flag_manipulator<kd::IndexPair>
{
  static bool is_empty(kd::IndexPair const & p) noexcept { return p.a < 0 && p.b < 0; }
  static void init_empty_flag(kd::IndexPair & p) noexcept
  {
    ::new (static_cast<void *>(&p)) kd::IndexPair();
    p.a = p.b = -1;
  }
  static void invalidate_empty_flag(kd::IndexPair & p) noexcept { p.~IndexPair(); }
};
template <>
struct tiny::optional_flag_manipulator<kd::WithRes> : kd::ManipRes
{
};
template <>
struct tiny::optional_flag_manipulator<kd::Flagged>
{
  static bool is_empty(kd::Flagged const & p) noexcept { return p.state == -5; }
  static void init_empty_flag(kd::Flagged & p) noexcept { ::new (static_cast<void *>(&p)) kd::Flagged{-5}; }
  static void invalidate_empty_flag(kd::Flagged & p) noexcept { p.~Flagged(); }
};
template <>
struct tiny::optional_flag_manipulator<kd::Reg> : tiny::sentinel_flag_manipulator<kd::Reg, kd::Reg::Max>
{
};
template <>
struct tiny::optional_flag_manipulator<pl::AggF>
{
  static bool is_empty(pl::AggF const & x) noexcept { return x.i == -3; }
  static void init_empty_flag(pl::AggF & x) noexcept { ::new (static_cast<void *>(&x.i)) int(-3); }
  static void invalidate_empty_flag(pl::AggF & x) noexcept
  {
    using I = int;
    x.i.~I();
  }
};

// Which flavours exist under the configuration macros: optional_aip of bit-trick types is a documented compile error
// without bit tricks, and so is a member without sentinel of such a type (unless members are not used either).
#if defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UB_TRICKS)
  #define KD_NO_BITS 1
  #define KD_NO_BIT_MEMBERS 0
#elif defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UNUSED_BITS)
  #define KD_NO_BITS 1
  #if defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_MEMBER)
    #define KD_NO_BIT_MEMBERS 0
  #else
    #define KD_NO_BIT_MEMBERS 1
  #endif
#else
  #define KD_NO_BITS 0
  #define KD_NO_BIT_MEMBERS 0
#endif

namespace kd
{
struct NoU
{
};

// V: number r -> payload expression; K: payload p -> key
#define KIND(ID, PAYLOAD, MAKE, KEY, ...)                                                                              \
  struct ID                                                                                                            \
  {                                                                                                                    \
    using Tiny = __VA_ARGS__;                                                                                          \
    using P = PAYLOAD;                                                                                                 \
    static std::remove_cv_t<P> make([[maybe_unused]] uint32_t r) { return MAKE; }                                      \
    static uint64_t key(P const & p) { return KEY; }                                                                   \
    static const char * name() { return #ID; }                                                                         \
  };

template <class K>
struct Conv // a type convertible to the payload, for converting construction and assignment
{
  using U = NoU;
};
#define CONV(ID, UTYPE, EXPR)                                                                                          \
  template <>                                                                                                          \
  struct Conv<ID>                                                                                                      \
  {                                                                                                                    \
    using U = UTYPE;                                                                                                   \
    static U make([[maybe_unused]] uint32_t r) { return EXPR; }                                                        \
  };

// --- plain std::optional replacement ---
KIND(IntSep, int, some_int<int>(r), skey(p), tiny::optional<int>)
CONV(IntSep, short, some_int<short>(r))
KIND(U8Sep, uint8_t, some_int<uint8_t>(r), skey(p), tiny::optional<uint8_t>)
KIND(I64Sep, int64_t, some_int<int64_t>(r), skey(p), tiny::optional<int64_t>)
CONV(I64Sep, int, some_int<int>(r))
KIND(CharSep, char, static_cast<char>(r), skey(p), tiny::optional<char>)
KIND(LDouble, long double, static_cast<long double>(some_int<int16_t>(r)), bits(static_cast<double>(p)), tiny::optional<long double>)
KIND(EnumSep, Color, static_cast<Color>(r % 3), skey(p), tiny::optional<Color>)
KIND(StrSep, std::string, std::string(r % 40, static_cast<char>('a' + r % 26)), strkey(p), tiny::optional<std::string>)
CONV(StrSep, const char *, (r % 2 ? "short" : "a rather long string literal that does not fit into SSO"))
KIND(VecSep, std::vector<int>, std::vector<int>(r % 5, static_cast<int>(r % 11)), p.size() * 100 + (p.empty() ? 0u : static_cast<unsigned>(p[0])), tiny::optional<std::vector<int>>)
KIND(UPtrSep, std::unique_ptr<int>, std::make_unique<int>(static_cast<int>(r % 100)), p ? static_cast<uint64_t>(*p) : ~0ull, tiny::optional<std::unique_ptr<int>>)
KIND(SPtrSep, std::shared_ptr<int>, std::make_shared<int>(static_cast<int>(r % 100)), p ? static_cast<uint64_t>(*p) : ~0ull, tiny::optional<std::shared_ptr<int>>)
KIND(OverSep, Over, (Over{static_cast<int>(r % 1000), 'x'}), skey(p.v), tiny::optional<Over>)
KIND(TailSep, Tail, (Tail{static_cast<long long>(r), static_cast<char>(r)}), skey(p.l), tiny::optional<Tail>)
KIND(ConstInt, int const, some_int<int>(r), skey(p), tiny::optional<int const>)
using Arr3 = std::array<short, 3>;
KIND(ArrSep, Arr3, (Arr3{static_cast<short>(r % 5), static_cast<short>(r % 7), 1}), static_cast<uint64_t>(p[0] * 100 + p[1]), tiny::optional<Arr3>)
using MemPtr = int pl::Agg::*;
KIND(MemPtrSep, MemPtr, (r % 2 ? &pl::Agg::i : nullptr), skey(p == nullptr), tiny::optional<MemPtr>)
KIND(TrkSep, pl::Trk, pl::Trk(static_cast<int>(r % 50)), trkkey(p), tiny::optional<pl::Trk>)
CONV(TrkSep, int, static_cast<int>(r % 50))
KIND(TrkNXSep, pl::TrkNX, pl::TrkNX(static_cast<int>(r % 50)), trkkey(p), tiny::optional<pl::TrkNX>)
CONV(TrkNXSep, int, static_cast<int>(r % 50))
KIND(TrkMOSep, pl::TrkMO, pl::TrkMO(static_cast<int>(r % 50)), trkkey(p.t), tiny::optional<pl::TrkMO>)
CONV(TrkMOSep, int, static_cast<int>(r % 50))
KIND(TrkCOSep, pl::TrkCO, pl::TrkCO(static_cast<int>(r % 50)), trkkey(p.t), tiny::optional<pl::TrkCO>)
CONV(TrkCOSep, int, static_cast<int>(r % 50))
KIND(AggSep, pl::Agg, pl::Agg(static_cast<int>(r % 50)), p.key(), tiny::optional<pl::Agg>)

// --- unused bits ---
KIND(Bool, bool, (r % 2 != 0), skey(p), tiny::optional<bool>)
KIND(ConstBool, bool const, (r % 2 != 0), skey(p), tiny::optional<bool const>)
KIND(Dbl, double, some_double(r), bits(p), tiny::optional<double>)
CONV(Dbl, int, some_int<int>(r))
KIND(ConstDbl, double const, some_double(r), bits(p), tiny::optional<double const>)
KIND(Flt, float, some_float(r), bits(p), tiny::optional<float>)
KIND(PtrInt, int *, (r % 8 == 0 ? nullptr : pl::pool + r % 16), pkey(p), tiny::optional<int *>)
CONV(PtrInt, std::nullptr_t, nullptr)
KIND(PtrVoid, void const *, static_cast<void const *>(r % 8 == 0 ? nullptr : pl::pool + r % 16), pkey(static_cast<int const *>(p)), tiny::optional<void const *>)
CONV(PtrVoid, int *, pl::pool + r % 16)
using FnT = int (*)(int);
KIND(PtrFn, FnT, (r % 4 == 0 ? nullptr : r % 4 == 1 ? &fn0 : r % 4 == 2 ? &fn1 : &fn2), (p == nullptr ? 0u : p == &fn0 ? 1u : p == &fn1 ? 2u : p == &fn2 ? 3u : 4u), tiny::optional<FnT>)

// --- sentinels ---
KIND(IntM1, int, int_not<int>(r, -1), skey(p), tiny::optional<int, -1>)
CONV(IntM1, short, int_not<short>(r, -1))
KIND(IntMax, int, int_not<int>(r, INT_MAX), skey(p), tiny::optional<int, INT_MAX>)
KIND(U8x255, uint8_t, int_not<uint8_t>(r, 255), skey(p), tiny::optional<uint8_t, 255>)
KIND(I8x0, int8_t, int_not<int8_t>(r, 0), skey(p), tiny::optional<int8_t, 0>)
KIND(CharX, char, (static_cast<char>(r) == 'x' ? 'y' : static_cast<char>(r)), skey(p), tiny::optional<char, 'x'>)
KIND(U64Max, uint64_t, int_not<uint64_t>(r, UINT64_MAX), skey(p), tiny::optional<uint64_t, UINT64_MAX>)
KIND(I64x42, int64_t, int_not<int64_t>(r, 42), skey(p), tiny::optional<int64_t, 42>)
KIND(EnumMax, Color, static_cast<Color>(r % 3), skey(p), tiny::optional<Color, Color::Max>)
KIND(BoolTrue, bool, false, skey(p), tiny::optional<bool, true>)
KIND(PtrNull, int *, pl::pool + r % 16, pkey(p), tiny::optional<int *, nullptr>)
KIND(ViaInt, int, int_not<int>(r, -7), skey(p), tiny::optional_sentinel_via_type<int, SentM7>)
CONV(ViaInt, short, int_not<short>(r, -7))
#if defined(ENG_PORTABLE) // a floating point sentinel is compared with ==, which fast-math allows to go wrong for NaN and the like
KIND(ViaDbl, double, static_cast<double>(r % 997) * 0.5, bits(p), tiny::optional_sentinel_via_type<double, SentDbl>)
KIND(ViaFlt, float, (r % 997 == 1 ? 7.0f : static_cast<float>(r % 997) * 0.5f), bits(p), tiny::optional_sentinel_via_type<float, SentFlt>)
#else
KIND(ViaDbl, double, (some_double(r) == -1.0 ? 2.0 : some_double(r)), bits(p), tiny::optional_sentinel_via_type<double, SentDbl>)
KIND(ViaFlt, float, (some_float(r) == 0.5f ? 2.0f : some_float(r)), bits(p), tiny::optional_sentinel_via_type<float, SentFlt>)
#endif
KIND(ViaTicks, Ticks, Ticks(int_not<int64_t>(r, INT64_MIN)), skey(p.n), tiny::optional_sentinel_via_type<Ticks, SentTicks>)
KIND(AipI16, short, int_not<short>(r, SHRT_MIN), skey(p), tiny::optional_aip<short>)
KIND(AipU16, unsigned short, int_not<unsigned short>(r, USHRT_MAX), skey(p), tiny::optional_aip<unsigned short>)
KIND(AipI32, int, int_not<int>(r, INT_MIN), skey(p), tiny::optional_aip<int>)
KIND(AipU32, unsigned, int_not<unsigned>(r, UINT_MAX), skey(p), tiny::optional_aip<unsigned>)
KIND(AipIL, long, int_not<long>(static_cast<uint32_t>(r), LONG_MIN), skey(p), tiny::optional_aip<long>)
KIND(AipI64, long long, int_not<long long>(r, LLONG_MIN), skey(p), tiny::optional_aip<long long>)
KIND(AipU64, unsigned long long, int_not<unsigned long long>(r, ULLONG_MAX), skey(p), tiny::optional_aip<unsigned long long>)
#if !KD_NO_BITS
KIND(AipDbl, double, some_double(r), bits(p), tiny::optional_aip<double>)
#endif
KIND(AipChar, char, (static_cast<char>(r) == 'a' ? 'b' : static_cast<char>(r)), skey(p), tiny::optional_aip<char, 'a'>)
#if !KD_NO_BITS
KIND(AipBool, bool, (r % 2 != 0), skey(p), tiny::optional_aip<bool>)
#endif

// --- empty state in a member ---
#define AGGV(T) pl::T(static_cast<int>(r % 50))
#if !KD_NO_BIT_MEMBERS
KIND(MemD, pl::Agg, AGGV(Agg), p.key(), tiny::optional<pl::Agg, &pl::Agg::d>)
CONV(MemD, int, static_cast<int>(r % 50))
#endif
#if !KD_NO_BIT_MEMBERS
KIND(MemF, pl::Agg, AGGV(Agg), p.key(), tiny::optional<pl::Agg, &pl::Agg::f>)
#endif
#if !KD_NO_BIT_MEMBERS
KIND(MemB, pl::Agg, AGGV(Agg), p.key(), tiny::optional<pl::Agg, &pl::Agg::b>)
#endif
#if !KD_NO_BIT_MEMBERS
KIND(MemP, pl::Agg, AGGV(Agg), p.key(), tiny::optional<pl::Agg, &pl::Agg::p>)
#endif
KIND(MemI, pl::Agg, AGGV(Agg), p.key(), tiny::optional<pl::Agg, &pl::Agg::i, -1>)
CONV(MemI, int, static_cast<int>(r % 50))
KIND(MemC, pl::Agg, AGGV(Agg), p.key(), tiny::optional<pl::Agg, &pl::Agg::c, Color::Max>)
#if !KD_NO_BIT_MEMBERS
KIND(MemNX, pl::AggNX, AGGV(AggNX), p.key(), tiny::optional<pl::AggNX, &pl::AggNX::d>)
#endif
KIND(MemNXI, pl::AggNX, AGGV(AggNX), p.key(), tiny::optional<pl::AggNX, &pl::AggNX::i, -2>)
KIND(MemViaI, pl::Agg, AGGV(Agg), p.key(), tiny::optional_sentinel_via_type<pl::Agg, SentM7, &pl::Agg::i>)
KIND(MemViaD, pl::Agg, AGGV(Agg), p.key(), tiny::optional_sentinel_via_type<pl::Agg, SentDbl, &pl::Agg::d>)
#if !KD_NO_BIT_MEMBERS
KIND(MemFirst, pl::AggFirst, AGGV(AggFirst), p.key(), tiny::optional<pl::AggFirst, &pl::AggFirst::d>)
#endif
KIND(MemLast, pl::AggLast, AGGV(AggLast), p.key(), tiny::optional<pl::AggLast, &pl::AggLast::tag, -1>)
KIND(MemFlagged, HasFlagged, HasFlagged(static_cast<int>(r % 50)), p.key(), tiny::optional<HasFlagged, &HasFlagged::fl>)

// --- custom manipulators ---
KIND(CusPair, IndexPair, IndexPair(static_cast<int>(r % 50)), static_cast<uint64_t>(p.a * 100 + p.b), tiny::optional<IndexPair>)
KIND(CusRes, WithRes, WithRes(static_cast<int>(r % 300)), strkey(p.s) * 1000 + static_cast<unsigned>(p.x), tiny::optional<WithRes>)
KIND(CusAgg, pl::AggF, AGGV(AggF), p.key(), tiny::optional<pl::AggF>)
CONV(CusAgg, int, static_cast<int>(r % 50))
KIND(CusReg, Reg, static_cast<Reg>(r % 3), skey(p), tiny::optional<Reg>)
using InplaceIntManip = tiny::sentinel_flag_manipulator<int, -1>;
KIND(InpInt, int, int_not<int>(r, -1), skey(p), tiny::optional_inplace<int, InplaceIntManip>)
CONV(InpInt, short, int_not<short>(r, -1))
using InpAggT = tiny::optional_inplace<pl::AggI, ManipI>;
KIND(InpAgg, pl::AggI, AGGV(AggI), p.key(), InpAggT)
CONV(InpAgg, int, static_cast<int>(r % 50))
using InpResT = tiny::optional_inplace<WithRes, ManipRes>;
KIND(InpRes, WithRes, WithRes(static_cast<int>(r % 300)), strkey(p.s) * 1000 + static_cast<unsigned>(p.x), InpResT)

// --- nested ---
using TB = tiny::optional<bool>;
KIND(NestBool, TB, (r % 3 == 0 ? TB() : TB(r % 3 == 1)), p ? 1u + *p : 0u, tiny::optional<TB>)
using TI = tiny::optional<int>;
KIND(NestInt, TI, (r % 3 == 0 ? TI() : TI(static_cast<int>(r % 5))), p ? 1u + static_cast<unsigned>(*p) : 0u, tiny::optional<TI>)
using SI = std::optional<int>;
KIND(NestStd, SI, (r % 3 == 0 ? SI() : SI(static_cast<int>(r % 5))), p ? 1u + static_cast<unsigned>(*p) : 0u, tiny::optional<SI>)
using TT = tiny::optional<pl::Trk>;
KIND(NestTrk, TT, (r % 3 == 0 ? TT() : TT(static_cast<int>(r % 5))), p ? 1u + trkkey(*p) : 0u, tiny::optional<TT>)

// --- more scalars ---
KIND(WCharSep, wchar_t, static_cast<wchar_t>(r % 1000), skey(p), tiny::optional<wchar_t>)
KIND(C16x, char16_t, (static_cast<char16_t>(r) == u'x' ? u'y' : static_cast<char16_t>(r)), skey(p), tiny::optional<char16_t, u'x'>)
KIND(C32Max, char32_t, static_cast<char32_t>(r % 0x10ffff), skey(p), tiny::optional<char32_t, char32_t(-1)>)
KIND(ByteSep, std::byte, static_cast<std::byte>(r), skey(p), tiny::optional<std::byte>)
KIND(ByteX, std::byte, (static_cast<std::byte>(r) == std::byte{7} ? std::byte{8} : static_cast<std::byte>(r)), skey(p), tiny::optional<std::byte, std::byte{7}>)
KIND(I16M1, short, int_not<short>(r, -1), skey(p), tiny::optional<short, -1>)
KIND(U16Max, unsigned short, int_not<unsigned short>(r, 0xffff), skey(p), tiny::optional<unsigned short, 0xffff>)
KIND(U32x0, unsigned, int_not<unsigned>(r, 0), skey(p), tiny::optional<unsigned, 0>)
KIND(E16None, E16, static_cast<E16>(r % 3), skey(p), tiny::optional<E16, E16::None>)
KIND(UnscopedSep, Unscoped, static_cast<Unscoped>(r % 3), skey(p), tiny::optional<Unscoped>)
KIND(EBoolSep, EBool, static_cast<EBool>(r % 2), skey(p), tiny::optional<EBool>)
KIND(NullPtr, std::nullptr_t, nullptr, skey(p == nullptr), tiny::optional<std::nullptr_t>)
using IntPtrC = int * const;
KIND(ConstPtr, IntPtrC, pl::pool + r % 16, pkey(p), tiny::optional<IntPtrC>)
using PtrToPtr = int const * const *;
inline int const * const ptrTable[2] = {nullptr, nullptr};
KIND(PtrPtr, PtrToPtr, (r % 4 == 0 ? nullptr : ptrTable + r % 2), (p == nullptr ? 0u : static_cast<uint64_t>(p - ptrTable) + 1), tiny::optional<PtrToPtr>)
using MemFnPtr = uint64_t (Triv3::*)() const;
KIND(MemFnSep, MemFnPtr, (r % 2 ? &Triv3::key : nullptr), skey(p == nullptr), tiny::optional<MemFnPtr>)
KIND(ViaPtr, int *, pl::pool + r % 16, pkey(p), tiny::optional_sentinel_via_type<int *, SentPtr>)
using InpNanT = tiny::optional_inplace<double, NanManip>;
KIND(InpNan, double, some_double(r), bits(p), InpNanT)

// --- more classes ---
using PairID = std::pair<int, double>;
KIND(PairSep, PairID, PairID(static_cast<int>(r % 50), static_cast<double>(r % 7)), static_cast<uint64_t>(p.first) * 100 + static_cast<uint64_t>(p.second), tiny::optional<PairID>)
using TupSI = std::tuple<std::string, int>;
KIND(TupSep, TupSI, TupSI(std::string(r % 40, 't'), static_cast<int>(r % 50)), std::get<0>(p).size() * 100 + static_cast<uint64_t>(std::get<1>(p)), tiny::optional<TupSI>)
using VarIS = std::variant<int, std::string>;
KIND(VarSep, VarIS, (r % 2 ? VarIS(static_cast<int>(r % 50)) : VarIS(std::string(r % 40, 'v'))), p.index() * 1000 + (p.index() ? std::get<1>(p).size() : static_cast<uint64_t>(std::get<0>(p))), tiny::optional<VarIS>)
using CplxD = std::complex<double>;
KIND(CplxSep, CplxD, CplxD(static_cast<double>(r % 50), static_cast<double>(r % 3)), static_cast<uint64_t>(p.real()) * 10 + static_cast<uint64_t>(p.imag()), tiny::optional<CplxD>)
KIND(SvSep, std::string_view, std::string_view("abcdefghijklmnopqrstuvwxyz", r % 26), p.size() * 3, tiny::optional<std::string_view>)
using FunII = std::function<int(int)>;
KIND(FunSep, FunII, FunII([r](int x) { return x + static_cast<int>(r % 50); }), (p ? static_cast<uint64_t>(p(3)) : ~0ull), tiny::optional<FunII>)
KIND(Big64, BigT<64>, BigT<64>(r), p.key(), tiny::optional<BigT<64>>)
KIND(Triv3Sep, Triv3, Triv3(r), p.key(), tiny::optional<Triv3>)
KIND(Triv3A, Triv3, Triv3(r), p.key(), tiny::optional<Triv3, &Triv3::a, -1>)
#if !KD_NO_BIT_MEMBERS
KIND(Triv3P, Triv3, Triv3(r), p.key(), tiny::optional<Triv3, &Triv3::p>)
KIND(Triv3F, Triv3, Triv3(r), p.key(), tiny::optional<Triv3, &Triv3::f>)
KIND(Triv3D, Triv3, Triv3(r), p.key(), tiny::optional<Triv3, &Triv3::d>)
#endif
KIND(Triv3ViaB, Triv3, Triv3(r), p.key(), tiny::optional_sentinel_via_type<Triv3, SentM7, &Triv3::b>)
KIND(BigNTag, BigN, BigN(r), p.key(), tiny::optional<BigN, &BigN::tag, -1>)
KIND(PolySep, Poly, Poly(r), p.key(), tiny::optional<Poly>)
KIND(FinalSep, Final, Final(r), p.key(), tiny::optional<Final>)
KIND(NothingSep, Nothing, Nothing(), skey(sizeof(p)), tiny::optional<Nothing>)
KIND(UniSep, Uni, Uni(r), skey(p.i), tiny::optional<Uni>)
using TTB = tiny::optional<TB>;
KIND(Nest3, TTB, (r % 4 == 0 ? TTB() : r % 4 == 1 ? TTB(TB()) : TTB(TB(r % 4 == 2))), p ? (*p ? 2u + **p : 1u) : 0u, tiny::optional<TTB>)
using TM1 = tiny::optional<int, -1>;
KIND(NestM1, TM1, (r % 3 == 0 ? TM1() : TM1(static_cast<int>(r % 5))), p ? 1u + static_cast<unsigned>(*p) : 0u, tiny::optional<TM1>)
using TStr = tiny::optional<std::string>;
KIND(NestStr, TStr, (r % 3 == 0 ? TStr() : TStr(std::string(r % 40, 'n'))), p ? 1u + p->size() : 0u, tiny::optional<TStr>)

// --- tracked payloads with other type traits ---
template <int F>
struct TrkXManip
{
  using T = pl::TrkX<F>;
  static bool is_empty(T const & t) noexcept { return t.mem == -3; }
  static void init_empty_flag(T & t) noexcept { ::new (static_cast<void *>(std::addressof(t.mem))) short(-3); }
  static void invalidate_empty_flag(T &) noexcept { }
};
using TrkXNX = pl::TrkX<pl::kAllNX>;
KIND(XNXSep, TrkXNX, TrkXNX(static_cast<int>(r % 50)), p.key(), tiny::optional<TrkXNX>)
CONV(XNXSep, int, static_cast<int>(r % 50))
KIND(XNXMem, TrkXNX, TrkXNX(static_cast<int>(r % 50)), p.key(), tiny::optional<TrkXNX, &TrkXNX::mem, -1>)
CONV(XNXMem, int, static_cast<int>(r % 50))
using XNXInpT = tiny::optional_inplace<TrkXNX, TrkXManip<pl::kAllNX>>;
KIND(XNXInp, TrkXNX, TrkXNX(static_cast<int>(r % 50)), p.key(), XNXInpT)
CONV(XNXInp, int, static_cast<int>(r % 50))
using TrkXTD = pl::TrkX<pl::kTrivDtor | pl::kAllNX>;
KIND(XTDSep, TrkXTD, TrkXTD(static_cast<int>(r % 50)), p.key(), tiny::optional<TrkXTD>)
CONV(XTDSep, int, static_cast<int>(r % 50))
KIND(XTDMem, TrkXTD, TrkXTD(static_cast<int>(r % 50)), p.key(), tiny::optional<TrkXTD, &TrkXTD::mem, -1>)
CONV(XTDMem, int, static_cast<int>(r % 50))
using XTDInpT = tiny::optional_inplace<TrkXTD, TrkXManip<pl::kTrivDtor | pl::kAllNX>>;
KIND(XTDInp, TrkXTD, TrkXTD(static_cast<int>(r % 50)), p.key(), XTDInpT)
CONV(XTDInp, int, static_cast<int>(r % 50))
using TrkXTDT = pl::TrkX<pl::kTrivDtor>;
KIND(XTDTSep, TrkXTDT, TrkXTDT(static_cast<int>(r % 50)), p.key(), tiny::optional<TrkXTDT>)
CONV(XTDTSep, int, static_cast<int>(r % 50))
KIND(XTDTMem, TrkXTDT, TrkXTDT(static_cast<int>(r % 50)), p.key(), tiny::optional<TrkXTDT, &TrkXTDT::mem, -1>)
CONV(XTDTMem, int, static_cast<int>(r % 50))
using XTDTInpT = tiny::optional_inplace<TrkXTDT, TrkXManip<pl::kTrivDtor>>;
KIND(XTDTInp, TrkXTDT, TrkXTDT(static_cast<int>(r % 50)), p.key(), XTDTInpT)
CONV(XTDTInp, int, static_cast<int>(r % 50))
using TrkXCp = pl::TrkX<pl::kNXCopyC | pl::kNXCopyA>;
KIND(XCpSep, TrkXCp, TrkXCp(static_cast<int>(r % 50)), p.key(), tiny::optional<TrkXCp>)
CONV(XCpSep, int, static_cast<int>(r % 50))
KIND(XCpMem, TrkXCp, TrkXCp(static_cast<int>(r % 50)), p.key(), tiny::optional<TrkXCp, &TrkXCp::mem, -1>)
CONV(XCpMem, int, static_cast<int>(r % 50))
using TrkXMc = pl::TrkX<pl::kNXMoveC>;
KIND(XMcSep, TrkXMc, TrkXMc(static_cast<int>(r % 50)), p.key(), tiny::optional<TrkXMc>)
CONV(XMcSep, int, static_cast<int>(r % 50))
using XMcInpT = tiny::optional_inplace<TrkXMc, TrkXManip<pl::kNXMoveC>>;
KIND(XMcInp, TrkXMc, TrkXMc(static_cast<int>(r % 50)), p.key(), XMcInpT)
CONV(XMcInp, int, static_cast<int>(r % 50))
using TrkXMa = pl::TrkX<pl::kNXMoveA>;
KIND(XMaSep, TrkXMa, TrkXMa(static_cast<int>(r % 50)), p.key(), tiny::optional<TrkXMa>)
CONV(XMaSep, int, static_cast<int>(r % 50))
KIND(XMaMem, TrkXMa, TrkXMa(static_cast<int>(r % 50)), p.key(), tiny::optional<TrkXMa, &TrkXMa::mem, -1>)
CONV(XMaMem, int, static_cast<int>(r % 50))
using TrkXVal = pl::TrkX<pl::kNXVal>;
KIND(XValSep, TrkXVal, TrkXVal(static_cast<int>(r % 50)), p.key(), tiny::optional<TrkXVal>)
CONV(XValSep, int, static_cast<int>(r % 50))
using XValInpT = tiny::optional_inplace<TrkXVal, TrkXManip<pl::kNXVal>>;
KIND(XValInp, TrkXVal, TrkXVal(static_cast<int>(r % 50)), p.key(), XValInpT)
CONV(XValInp, int, static_cast<int>(r % 50))
using TrkXSw = pl::TrkX<pl::kNXSwap | pl::kNXVal>;
KIND(XSwSep, TrkXSw, TrkXSw(static_cast<int>(r % 50)), p.key(), tiny::optional<TrkXSw>)
CONV(XSwSep, int, static_cast<int>(r % 50))
using TrkXBig = pl::TrkX<pl::kBig>;
KIND(XBigSep, TrkXBig, TrkXBig(static_cast<int>(r % 50)), p.key(), tiny::optional<TrkXBig>)
CONV(XBigSep, int, static_cast<int>(r % 50))
KIND(XBigMem, TrkXBig, TrkXBig(static_cast<int>(r % 50)), p.key(), tiny::optional<TrkXBig, &TrkXBig::mem, -1>)
CONV(XBigMem, int, static_cast<int>(r % 50))
using TrkXBigNX = pl::TrkX<pl::kBig | pl::kAllNX | pl::kNoSwap>;
KIND(XBigNXMem, TrkXBigNX, TrkXBigNX(static_cast<int>(r % 50)), p.key(), tiny::optional<TrkXBigNX, &TrkXBigNX::mem, -1>)
CONV(XBigNXMem, int, static_cast<int>(r % 50))
using XBigNXInpT = tiny::optional_inplace<TrkXBigNX, TrkXManip<pl::kBig | pl::kAllNX | pl::kNoSwap>>;
KIND(XBigNXInp, TrkXBigNX, TrkXBigNX(static_cast<int>(r % 50)), p.key(), XBigNXInpT)
CONV(XBigNXInp, int, static_cast<int>(r % 50))
using TrkXPoly = pl::TrkX<pl::kPoly>;
KIND(XPolySep, TrkXPoly, TrkXPoly(static_cast<int>(r % 50)), p.key(), tiny::optional<TrkXPoly>)
CONV(XPolySep, int, static_cast<int>(r % 50))
using TrkXPolyNX = pl::TrkX<pl::kPoly | pl::kAllNX>;
KIND(XPolyNXSep, TrkXPolyNX, TrkXPolyNX(static_cast<int>(r % 50)), p.key(), tiny::optional<TrkXPolyNX>)
CONV(XPolyNXSep, int, static_cast<int>(r % 50))
using TrkXNoSw = pl::TrkX<pl::kNoSwap>;
KIND(XNoSwSep, TrkXNoSw, TrkXNoSw(static_cast<int>(r % 50)), p.key(), tiny::optional<TrkXNoSw>)
CONV(XNoSwSep, int, static_cast<int>(r % 50))
KIND(XNoSwMem, TrkXNoSw, TrkXNoSw(static_cast<int>(r % 50)), p.key(), tiny::optional<TrkXNoSw, &TrkXNoSw::mem, -1>)
CONV(XNoSwMem, int, static_cast<int>(r % 50))
using TrkXMcVal = pl::TrkX<pl::kNXMoveC | pl::kNXVal | pl::kTrivDtor | pl::kNoSwap>;
KIND(XMcValSep, TrkXMcVal, TrkXMcVal(static_cast<int>(r % 50)), p.key(), tiny::optional<TrkXMcVal>)
CONV(XMcValSep, int, static_cast<int>(r % 50))
using XMcValInpT = tiny::optional_inplace<TrkXMcVal, TrkXManip<pl::kNXMoveC | pl::kNXVal | pl::kTrivDtor | pl::kNoSwap>>;
KIND(XMcValInp, TrkXMcVal, TrkXMcVal(static_cast<int>(r % 50)), p.key(), XMcValInpT)
CONV(XMcValInp, int, static_cast<int>(r % 50))
} // namespace kd
