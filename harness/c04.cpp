// C04: bool, float, double and pointers lose no storable value.
#include "mon.h"
#include <tiny/optional.h>

#include <cmath>
#include <limits>
#include <optional>
#include <utility>

namespace
{
#if UINTPTR_MAX > 0xffffffffu
constexpr uintptr_t ptrSentinel = 0xffff800000000000ull - 1;
#else
constexpr uintptr_t ptrSentinel = 0xffffffffu - 8;
#endif

template <class T>
struct Sent;
template <>
struct Sent<float>
{
  using B = uint32_t;
  static constexpr B value = 0x7fedcba9u;
};
template <>
struct Sent<double>
{
  using B = uint64_t;
  static constexpr B value = 0x7ff8fedcba987654ull;
};
template <>
struct Sent<bool>
{
  using B = uint8_t;
  static constexpr B value = 0xfe;
};
template <class T>
struct Sent<T *>
{
  using B = uintptr_t;
  static constexpr B value = ptrSentinel;
};

template <class T>
typename Sent<T>::B bits_of(T const & t)
{
  typename Sent<T>::B b;
  std::memcpy(&b, &t, sizeof b);
  return b;
}
template <class T>
T from_bits(typename Sent<T>::B b)
{
  T t;
  std::memcpy(&t, &b, sizeof t);
  return t;
}
template <class T>
inline constexpr bool isFp = std::is_floating_point_v<T>;

// The value itself.
template <class T>
struct Self
{
  using P = T;
  using V = std::remove_cv_t<T>;
  static V make(V v) { return v; }
  static T const & get(T const & p) { return p; }
  static bool rest_ok(T const &) { return true; }
};
// The value as member of a struct.
template <class T>
struct InStruct
{
  struct S
  {
    unsigned char pre;
    T m;
    unsigned char post;
    unsigned int more;
  };
  using P = S;
  using V = T;
  static S make(T v) { return S{0xfe, v, 0x7e, 0xfefefefeu}; }
  static T const & get(S const & s) { return s.m; }
  static bool rest_ok(S const & s) { return s.pre == 0xfe && s.post == 0x7e && s.more == 0xfefefefeu; }
};

template <class O, class H>
bool good(O const & o, typename Sent<typename H::V>::B b)
{
  return o.has_value() && bits_of<typename H::V>(H::get(*o)) == b && H::rest_ok(*o);
}

// All storing operations for one bit pattern. Cheap enough for millions of patterns.
template <class O, class H>
__attribute__((noinline)) void all_routes(typename Sent<typename H::V>::B b)
{
  using V = typename H::V;
  using P = std::remove_cv_t<typename H::P>;
  V const v = from_bits<V>(b);
  P const p = H::make(v);
  const char * bad = nullptr;
  auto chk = [&](O const & o, const char * what) {
    if (!good<O, H>(o, b) && !bad) {
      bad = what;
    }
  };
  O a(p);
  chk(a, "construction from const lvalue");
  O c(std::in_place, p);
  chk(c, "in_place construction");
  O d(a);
  chk(d, "copy construction");
  O e(std::move(d));
  chk(e, "move construction");
  O f;
  if (f.has_value()) {
    bad = "default construction (not empty)";
  }
  f.emplace(p);
  chk(f, "emplace into empty");
  f.emplace(p);
  chk(f, "emplace into engaged");
  f.reset();
  if (f.has_value()) {
    bad = "reset (not empty)";
  }
  if constexpr (!std::is_const_v<typename H::P>) {
    f = p;
    chk(f, "assignment to empty");
    f = p;
    chk(f, "assignment to engaged");
    f = std::nullopt;
    f = a;
    chk(f, "copy assignment to empty");
    f = a;
    chk(f, "copy assignment to engaged");
    f = O();
    f = std::move(e);
    chk(f, "move assignment");
    O g;
    g.swap(f);
    chk(g, "swap");
    if (f.has_value()) {
      bad = "swap with empty (not empty)";
    }
    P & r = *g;
    r = H::make(from_bits<V>(0));
    if (!good<O, H>(g, 0)) {
      bad = "writing zero through operator*";
    }
    r = p;
    chk(g, "writing through operator*");
    *g.operator->() = p;
    chk(g, "writing through operator->");
  }
  O h = O(std::nullopt).has_value() ? O() : O(a.value_or(p));
  chk(h, "value_or");
  O k(O(std::nullopt).value_or(p));
  chk(k, "value_or of empty");
  if constexpr (std::is_same_v<H, Self<typename H::P>>) {
    auto t = a.transform([&](typename H::P const & x) -> P { return x; });
    if (!t.has_value() || bits_of<V>(*t) != b) {
      bad = "transform";
    }
  }
  mon::eval();
  if (bad) {
    mon::fail("bit pattern %llx is lost by: %s", static_cast<unsigned long long>(b), bad);
  }
}

// Representation of the empty state
template <class O, class H>
void empty_pattern(const char * name, size_t offset)
{
  using V = typename H::V;
  unsigned char raw[sizeof(O)];
  O o;
  std::memcpy(raw, static_cast<void *>(&o), sizeof o);
  typename Sent<V>::B b;
  CHECK(sizeof(O) == sizeof(typename H::P), "%s", name);
  std::memcpy(&b, raw + offset, sizeof b);
  CHECK(b == Sent<V>::value, "%s: empty is represented by %llx", name, static_cast<unsigned long long>(b));
  // and after having been engaged
  o.emplace(H::make(from_bits<V>(1)));
  o.reset();
  std::memcpy(&b, reinterpret_cast<unsigned char *>(&o) + offset, sizeof b);
  CHECK(b == Sent<V>::value, "%s: empty after reset is represented by %llx", name, static_cast<unsigned long long>(b));
}

template <class O, class H>
void patterns(const char * name)
{
  using V = typename H::V;
  using B = typename Sent<V>::B;
  constexpr int nb = static_cast<int>(sizeof(B)) * 8;
  constexpr B s = Sent<V>::value;
  mon::context("patterns", name);
  uint64_t n = 0;
  auto go = [&](B b) {
    if (b == s) {
      return;
    }
    ++n;
    mon::seen(mon::mix(mon::str_hash(name), b));
    all_routes<O, H>(b);
  };
  // everything within Hamming distance 3 of the reserved pattern
  for (int i = 0; i < nb; ++i) {
    go(static_cast<B>(s ^ (B(1) << i)));
    for (int j = 0; j < i; ++j) {
      go(static_cast<B>(s ^ (B(1) << i) ^ (B(1) << j)));
      for (int k = 0; k < j; ++k) {
        go(static_cast<B>(s ^ (B(1) << i) ^ (B(1) << j) ^ (B(1) << k)));
      }
    }
  }
  // every subset of bytes replaced by 00, ff or a byte of another position
  constexpr int bytes = static_cast<int>(sizeof(B));
  unsigned total = 1;
  for (int i = 0; i < bytes; ++i) {
    total *= 3;
  }
  for (unsigned m = 1; m < total; ++m) {
    B b = s;
    unsigned q = m;
    for (int i = 0; i < bytes; ++i, q /= 3) {
      if (q % 3 != 0) {
        b = static_cast<B>((b & ~(B(0xff) << (8 * i))) | (q % 3 == 1 ? B(0) : B(0xff) << (8 * i)));
      }
    }
    go(b);
  }
  // all values of each 16 bit lane, the others as in the reserved pattern
  for (int lane = 0; lane < nb / 16; ++lane) {
    for (uint32_t x = 0; x < 65536; ++x) {
      go(static_cast<B>((s & ~(B(0xffff) << (16 * lane))) | (B(x) << (16 * lane))));
    }
  }
  // neighbourhood and byte order
  for (int d = 1; d < 3000; ++d) {
    go(static_cast<B>(s + static_cast<B>(d)));
    go(static_cast<B>(s - static_cast<B>(d)));
    go(static_cast<B>(d));
    go(static_cast<B>(0) - static_cast<B>(d));
  }
  B rev = 0;
  for (int i = 0; i < bytes; ++i) {
    rev = static_cast<B>((rev << 8) | ((s >> (8 * i)) & 0xff));
  }
  go(rev);
  go(static_cast<B>(~s));
  go(0);
  if constexpr (isFp<V>) {
    using L = std::numeric_limits<V>;
    for (V v : {L::quiet_NaN(), L::signaling_NaN(), L::infinity(), L::max(), L::min(), L::lowest(), L::denorm_min(),
                L::epsilon(), V(0), V(1)}) {
      go(bits_of<V>(v));
      go(static_cast<B>(bits_of<V>(v) | (B(1) << (nb - 1))));
    }
    go(bits_of<V>(static_cast<V>(std::nan(""))));
    go(bits_of<V>(static_cast<V>(std::nan("1"))));
    go(bits_of<V>(static_cast<V>(std::nan("0xfedcba987654"))));
  }
  mon::Rng rng(mon::opt.seed ^ mon::str_hash(name));
  for (long k = 0; k < 40000 * mon::opt.scale; ++k) {
    B b = static_cast<B>(rng.next());
    go(b);
    if constexpr (isFp<V>) { // a random NaN
      constexpr B expMask = isFp<V> && sizeof(B) == 8 ? static_cast<B>(0x7ff0000000000000ull) : static_cast<B>(0x7f800000u);
      go(static_cast<B>(b | expMask));
    }
  }
  mon::count("patterns", n);
  mon::sample("%s: %llu bit patterns through ~17 storing operations each", name, static_cast<unsigned long long>(n));
}

template <class T, class Tag>
void pattern_suite(const char * name)
{
  (void)sizeof(Tag);
  using H = Self<T>;
  patterns<tiny::optional<T>, H>(name);
  empty_pattern<tiny::optional<T>, H>(name, 0);
}

struct Cls;
using Fn = int (*)(double);
using PPtr = int **;

// ---- exhaustive over all floats (sharded over processes: --mode shard:K:N)
template <class O, class H>
uint64_t float_loop(uint64_t from, uint64_t to)
{
  uint64_t bad = 0;
  O opt;
  for (uint64_t u = from; u < to; ++u) {
    uint32_t const b = static_cast<uint32_t>(u);
    if (b == Sent<float>::value) {
      continue;
    }
    float const f = from_bits<float>(b);
    auto const p = H::make(f);
    O o(p);
    opt = p;                      // to engaged (or, if a pattern was lost, to empty)
    bool ok = good<O, H>(o, b) && good<O, H>(opt, b);
    if ((b & 0xff) == 0) {
      O x;
      x = p;
      O y(x);
      ok = ok && good<O, H>(x, b) && good<O, H>(y, b);
    }
    if (__builtin_expect(!ok, 0)) {
      if (++bad < 10) {
        mon::fail("float bit pattern %08x is lost", b);
      }
      opt.reset();
    }
  }
  return bad;
}

SUITE(exhaustive_float, "exh/float")
{
  int k = 0, n = 1;
  if (const char * p = std::strstr(mon::opt.mode, "shard:")) {
    std::sscanf(p, "shard:%d:%d", &k, &n);
  }
  else {
    return;
  }
  uint64_t const total = uint64_t(1) << 32;
  uint64_t const from = total / static_cast<unsigned>(n) * static_cast<unsigned>(k);
  uint64_t const to = k + 1 == n ? total : total / static_cast<unsigned>(n) * static_cast<unsigned>(k + 1);
  float_loop<tiny::optional<float>, Self<float>>(from, to);
  mon::eval(to - from);
  mon::count("float_patterns_exhaustive", to - from);
  if (std::strstr(mon::opt.mode, "member")) {
    using H = InStruct<float>;
    float_loop<tiny::optional<H::S, &H::S::m>, H>(from, to);
    mon::eval(to - from);
    mon::count("float_member_patterns_exhaustive", to - from);
  }
  for (int i = 0; i < 4096; ++i) {
    mon::seen(mon::mix(0xf10a7, from + (to - from) / 4096 * static_cast<unsigned>(i)));
  }
  mon::sample("all float bit patterns %08llx..%08llx", static_cast<unsigned long long>(from),
              static_cast<unsigned long long>(to - 1));
}

#define GUARD                                                                                                          \
  if (std::strstr(mon::opt.mode, "shard")) {                                                                           \
    return;                                                                                                            \
  }
#define PSUITE(ID, ...)                                                                                                \
  SUITE(ID, "pat/" #ID)                                                                                                \
  {                                                                                                                    \
    GUARD                                                                                                              \
    using T = __VA_ARGS__;                                                                                             \
    pattern_suite<T, void *>(#ID);                                                                                     \
  }
#define MSUITE(ID, ...)                                                                                                \
  SUITE(ID, "mem/" #ID)                                                                                                \
  {                                                                                                                    \
    GUARD                                                                                                              \
    using H = InStruct<__VA_ARGS__>;                                                                                   \
    using O = tiny::optional<H::S, &H::S::m>;                                                                          \
    patterns<O, H>(#ID);                                                                                               \
    empty_pattern<O, H>(#ID, offsetof(H::S, m));                                                                       \
  }

PSUITE(pfloat, float)
PSUITE(pdouble, double)
PSUITE(pcfloat, float const)
PSUITE(pcdouble, double const)
PSUITE(pint, int *)
PSUITE(pcint, int const *)
PSUITE(pvoid, void *)
PSUITE(pcvoidc, void const * const)
PSUITE(pincomplete, Cls *)
PSUITE(pfn, Fn)
PSUITE(pptr, PPtr)
PSUITE(pchar, char const *)
PSUITE(pvol, double volatile *)
MSUITE(mdouble, double)
MSUITE(mfloat, float)
MSUITE(mptr, int *)
MSUITE(mfn, Fn)

// aip of these types uses the same tricks
SUITE(aip, "pat/aip")
{
  GUARD
  patterns<tiny::optional_aip<double>, Self<double>>("aip double");
  patterns<tiny::optional_aip<float>, Self<float>>("aip float");
  patterns<tiny::optional_aip<int *>, Self<int *>>("aip int*");
}

// ---- real values of pointers, and everything for bool
template <class O, class H>
void bools(const char * name, size_t offset)
{
  mon::context("bool", name);
  for (int from = 0; from < 3; ++from) {   // empty, false, true
    for (int to = 0; to < 3; ++to) {
      O o;
      if (from) {
        o.emplace(H::make(from == 2));
      }
      if (to) {
        if constexpr (std::is_const_v<typename H::P>) {
          o.emplace(H::make(to == 2));
        }
        else {
          o = H::make(to == 2);
        }
        CHECK((good<O, H>(o, static_cast<uint8_t>(to == 2))), "%s %d->%d", name, from, to);
      }
      else {
        o.reset();
        CHECK(!o.has_value(), "%s %d->%d", name, from, to);
        uint8_t raw;
        std::memcpy(&raw, reinterpret_cast<unsigned char *>(&o) + offset, 1);
        CHECK(raw == 0xfe, "%s: empty is %02x", name, raw);
      }
      mon::seen(mon::mix(mon::str_hash(name), static_cast<unsigned>(from * 3 + to)));
    }
  }
  all_routes<O, H>(0);
  all_routes<O, H>(1);
  // Other bit patterns can get into a bool only by a raw copy; they are not the documented one, so they do not denote empty.
  for (int k = 0; k < 256; ++k) {
    O o(std::in_place, H::make(false));
    auto const raw = static_cast<unsigned char>(k);
    std::memcpy(reinterpret_cast<unsigned char *>(&o) + offset, &raw, 1);
    CHECK(o.has_value() == (k != 0xfe), "%s: bit pattern %02x of an engaged optional", name, k);
    uint8_t const zero = 0;
    std::memcpy(reinterpret_cast<unsigned char *>(&o) + offset, &zero, 1);
    mon::seen(mon::mix(mon::str_hash(name), static_cast<unsigned>(100 + k)));
  }
}
SUITE(bool_all, "pat/bool")
{
  GUARD
  bools<tiny::optional<bool>, Self<bool>>("bool", 0);
  bools<tiny::optional<bool const>, Self<bool const>>("bool const", 0);
  bools<tiny::optional_aip<bool>, Self<bool>>("aip bool", 0);
  using H = InStruct<bool>;
  bools<tiny::optional<H::S, &H::S::m>, H>("bool member", offsetof(H::S, m));
}

int fn_a(double) { return 1; }
SUITE(real_pointers, "pat/real-pointers")
{
  GUARD
  int local[64];
  int * heap = static_cast<int *>(std::malloc(64 * sizeof(int)));
  for (int i = 0; i <= 64; ++i) {
    all_routes<tiny::optional<int *>, Self<int *>>(reinterpret_cast<uintptr_t>(local + i));
    all_routes<tiny::optional<int *>, Self<int *>>(reinterpret_cast<uintptr_t>(heap + i));
  }
  all_routes<tiny::optional<Fn>, Self<Fn>>(reinterpret_cast<uintptr_t>(&fn_a));
  tiny::optional<Fn> f = &fn_a;
  CHECK(f.has_value() && (*f)(0.0) == 1);
  for (intptr_t v = -6; v <= 64; ++v) { // values with a special meaning for Windows APIs, see comments of the library
    all_routes<tiny::optional<void *>, Self<void *>>(static_cast<uintptr_t>(v));
  }
  mon::seen(0xab5);
  std::free(heap);
}

// Values produced by arithmetic
SUITE(computed, "pat/computed")
{
  GUARD
  volatile double z = 0.0;
  volatile float zf = 0.0f;
  double ds[] = {0.0 / z, -(0.0 / z), 1.0 / z, -1.0 / z, std::sqrt(-1.0 + z), std::log(-1.0 + z), std::fmod(1.0, z),
                 std::nan(""), HUGE_VAL * z, 1e308 * (10 + z), std::nextafter(0.0, 1.0)};
  for (double d : ds) {
    all_routes<tiny::optional<double>, Self<double>>(bits_of<double>(d));
    mon::seen(bits_of<double>(d));
  }
  float fs[] = {0.0f / zf, -(0.0f / zf), 1.0f / zf, std::sqrt(-1.0f + zf), std::log(-1.0f + zf), std::nanf(""),
                std::fmod(1.0f, zf), std::numeric_limits<float>::signaling_NaN()};
  for (float d : fs) {
    all_routes<tiny::optional<float>, Self<float>>(bits_of<float>(d));
    mon::seen(bits_of<float>(d));
  }
}
} // namespace
