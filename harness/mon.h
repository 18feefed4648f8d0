// Monitor core: violation reporting, PRNG, coverage counters, history trace.
// Deliberately free of iostream and of out-of-line libstdc++ containers so that it can also run under MemorySanitizer.
#pragma once
#include <climits>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <limits>
#include <memory>
#include <new>
#include <optional>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#if defined(__has_include) && __cplusplus >= 202002L
  #if __has_include(<compare>)
    #include <compare>
  #endif
#endif

namespace mon
{
// ---------------------------------------------------------------- options
struct Options
{
  uint64_t seed = 1;
  long scale = 1;          // multiplies case counts
  const char * only = nullptr; // run only suites whose name contains this
  const char * mode = "";  // suite specific
  bool log = false;        // print observation log
  bool list = false;
  const char * tags = nullptr; // comma separated failure classes that count (null: all)
};
extern Options opt;

// ---------------------------------------------------------------- random numbers (splitmix64)
struct Rng
{
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { }
  uint64_t next()
  {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint32_t below(uint32_t n) { return static_cast<uint32_t>((next() >> 16) % n); }
};

inline uint64_t mix(uint64_t h, uint64_t v)
{
  h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 33;
  return h;
}

inline uint64_t str_hash(const char * s)
{
  uint64_t h = 1469598103934665603ull;
  for (; *s; ++s) {
    h = (h ^ static_cast<unsigned char>(*s)) * 1099511628211ull;
  }
  return h;
}

// ---------------------------------------------------------------- coverage
void eval(uint64_t n = 1);           // one judged case
void seen(uint64_t signature);       // signature of a non-trivial case; distinct ones are counted
void count(const char * name, uint64_t n = 1); // named counters (events, faults fired, ...); name must be a literal
void sample(const char * fmt, ...) __attribute__((format(printf, 1, 2)));

// ---------------------------------------------------------------- context and history trace
void context(const char * suite, const char * detail = "");
void trace_clear();
void trace(const char * op, long a = 0, long b = 0, long c = 0);

// ---------------------------------------------------------------- violations
void fail(const char * fmt, ...) __attribute__((format(printf, 1, 2)));
void failt(const char * tag, const char * fmt, ...) __attribute__((format(printf, 2, 3)));
uint64_t failures();

// ---------------------------------------------------------------- suites
using Fn = void (*)();
struct Registrar
{
  Registrar(const char * name, Fn fn);
};
} // namespace mon

#define MON_CAT2(a, b) a##b
#define MON_CAT(a, b) MON_CAT2(a, b)
#define SUITE(fn, name)                                                                                                \
  static void fn();                                                                                                    \
  static mon::Registrar MON_CAT(fn, _registrar)(name, &fn);                                                            \
  static void fn()

#define CHECK(cond, ...)                                                                                               \
  do {                                                                                                                 \
    mon::eval();                                                                                                       \
    if (!(cond)) {                                                                                                     \
      mon::fail("%s:%d: !(%s) ", __FILE__, __LINE__, #cond);                                                           \
      mon::fail("  " __VA_ARGS__);                                                                                     \
    }                                                                                                                  \
  } while (0)
