// C17: concurrent const access to one optional, concurrent mutation of distinct (adjacent) optionals. Runs under ThreadSanitizer,
// which reports conflicting accesses whatever their timing; all threads also verify what they see.
#include "mon.h"
#include <tiny/optional.h>

#include <algorithm>
#include <array>
#include <atomic>
#include <climits>
#include <cstddef>
#include <functional>
#include <memory>
#include <optional>
#include <string>
#include <thread>
#include <utility>
#include <vector>

namespace th
{
enum class Col : uint8_t
{
  R,
  G,
  B,
  Max
};
struct W // no instrumentation here: the payloads must not synchronise the threads
{
  int i;
  double d;
  bool b;
  float f;
  int const * p;
  Col c;
  std::string s;
  static inline int const target[4] = {1, 2, 3, 4};
  explicit W(uint32_t r)
    : i(static_cast<int>(r % 100)), d(i * 0.5), b(r % 2 != 0), f(static_cast<float>(i)), p(target + r % 4), c(static_cast<Col>(r % 3)),
      s(r % 40, 'w')
  {
  }
  friend bool operator==(W const & x, W const & y) { return x.i == y.i && x.s == y.s; }
  friend bool operator<(W const & x, W const & y) { return x.i < y.i; }
  uint64_t key() const { return static_cast<uint64_t>(i) * 1000 + s.size() * 8 + b * 4u + static_cast<unsigned>(c) + static_cast<uint64_t>(d * 2 - i) + static_cast<uint64_t>(f) - static_cast<uint64_t>(i) + static_cast<uint64_t>(p - target); }
};
struct Pair
{
  int a, b;
  explicit Pair(uint32_t r) : a(static_cast<int>(r % 100)), b(a + 1) { }
  friend bool operator==(Pair const & x, Pair const & y) { return x.a == y.a; }
  friend bool operator<(Pair const & x, Pair const & y) { return x.a < y.a; }
};
struct PManip
{
  static bool is_empty(Pair const & p) noexcept { return p.a < 0 && p.b < 0; }
  static void init_empty_flag(Pair & p) noexcept
  {
    ::new (static_cast<void *>(&p)) Pair(0u);
    p.a = p.b = -1;
  }
  static void invalidate_empty_flag(Pair & p) noexcept { p.~Pair(); }
};
struct Sent7
{
  static constexpr int value = -7;
};
struct SentD
{
  static constexpr double value = -1.0;
};
template <int N>
struct Big // trivially copyable, larger than a few words
{
  int first;
  int v[N];
  explicit Big(uint32_t r) : first(static_cast<int>(r % 100))
  {
    for (int & e : v) {
      e = first + 1;
    }
  }
  uint64_t key() const
  {
    uint64_t k = static_cast<uint64_t>(first);
    for (int e : v) {
      k = k * 31 + static_cast<uint64_t>(e);
    }
    return k;
  }
  friend bool operator==(Big const & x, Big const & y) { return x.key() == y.key(); }
  friend bool operator<(Big const & x, Big const & y) { return x.first < y.first; }
};
struct Two // two words, trivially copyable
{
  int const * p;
  double d;
  explicit Two(uint32_t r) : p(W::target + r % 4), d(static_cast<double>(r % 100)) { }
  friend bool operator==(Two const & x, Two const & y) { return x.d == y.d; }
  friend bool operator<(Two const & x, Two const & y) { return x.d < y.d; }
};
struct alignas(64) Over
{
  short x;
  explicit Over(uint32_t r) : x(static_cast<short>(r % 100)) { }
  friend bool operator==(Over const & l, Over const & r) { return l.x == r.x; }
  friend bool operator<(Over const & l, Over const & r) { return l.x < r.x; }
};
struct Heavy // not trivially copyable, throwing copies
{
  std::vector<int> v;
  std::string s;
  int i;
  explicit Heavy(uint32_t r) : v(r % 9, 3), s(r % 40, 'h'), i(static_cast<int>(r % 100)) { }
  uint64_t key() const { return v.size() * 10000 + s.size() * 100 + static_cast<uint64_t>(i); }
  friend bool operator==(Heavy const & x, Heavy const & y) { return x.key() == y.key(); }
  friend bool operator<(Heavy const & x, Heavy const & y) { return x.key() < y.key(); }
};
struct Odd // three bytes, so that neighbours share words
{
  unsigned char a, b, c;
  explicit Odd(uint32_t r) : a(static_cast<unsigned char>(r % 100)), b(7), c(static_cast<unsigned char>(r % 50)) { }
  friend bool operator==(Odd const & x, Odd const & y) { return x.a == y.a; }
  friend bool operator<(Odd const & x, Odd const & y) { return x.a < y.a; }
};
} // namespace th
template <>
struct tiny::optional_flag_manipulator<th::Pair> : th::PManip
{
};
template <>
struct std::hash<th::W>
{
  size_t operator()(th::W const & w) const { return static_cast<size_t>(w.i) * 31 + w.s.size(); }
};

namespace
{
using th::Col;
using th::Odd;
using th::Pair;
using th::W;

constexpr int kThreads = 4;

struct Barrier // all threads start each round together
{
  std::atomic<int> arrived{0};
  void wait(int target)
  {
    arrived.fetch_add(1, std::memory_order_acq_rel);
    int spins = 0;
    while (arrived.load(std::memory_order_acquire) < target) {
      if (++spins > 200) {
        std::this_thread::yield();
      }
    }
  }
};

template <class F>
void threads(F f)
{
  std::vector<std::thread> v;
  for (int t = 0; t < kThreads; ++t) {
    v.emplace_back([f, t] { f(t); });
  }
  for (auto & t : v) {
    t.join();
  }
}

// The order in which the operations of the threads began. Relaxed, so that it does not order the operations for TSan.
struct Order
{
  std::atomic<long> next{0};
  std::vector<unsigned char> who;
  explicit Order(long n) : who(static_cast<size_t>(n)) { }
  void mark(int t) { who[static_cast<size_t>(next.fetch_add(1, std::memory_order_relaxed))] = static_cast<unsigned char>(t); }
  void report() const
  {
    uint64_t h = who.size(), switches = 0;
    for (size_t i = 0; i < who.size(); ++i) {
      h = mon::mix(h, who[i]);
      switches += i > 0 && who[i] != who[i - 1];
    }
    mon::seen(h);
    mon::count("switches between threads from one operation to the next", switches);
  }
};

struct PerThread
{
  alignas(128) long ops = 0;
  long bad = 0;
  const char * what = "";
  uint64_t orders = 0; // hash of the sequence of operations
};

template <class K>
struct Suite
{
  using O = typename K::Tiny;
  using P = typename K::P;
  using S = std::optional<P>;

  template <class T, class = void>
  struct hashable : std::false_type
  {
  };
  template <class T>
  struct hashable<T, std::void_t<decltype(std::hash<T>{}(std::declval<T const &>()))>> : std::true_type
  {
  };

  static constexpr uint32_t kConstOps = 22;
  // One const operation; returns whether the result is the expected one. Different value than expected: wrong.
  static bool const_op(uint32_t op, O const & o, O const & same, O const & other, bool has, uint64_t key, P const & pay, const char *& what)
  {
    switch (op % kConstOps) {
    case 0: what = "has_value"; return o.has_value() == has && static_cast<bool>(o) == has && !o == !has;
    case 1: what = "*"; return !has || K::key(*o) == key;
    case 2: what = "->"; return !has || K::key(*o.operator->()) == key;
    case 3: {
      what = "value";
      try {
        return K::key(o.value()) == key && has;
      }
      catch (std::bad_optional_access const &) {
        return !has;
      }
    }
    case 4: what = "value_or"; return K::key(o.value_or(pay)) == (has ? key : K::key(pay));
    case 5: what = "== nullopt"; return (o == std::nullopt) == !has && (std::nullopt != o) == has;
    case 6: what = "== same"; return (o == same) && !(o < same) && !(same < o);
    case 7: what = "== other"; return !has || !(o == other) || !(other < o);
    case 8: what = "== payload"; return !(o == pay) || has || K::key(pay) == 0; // (a nested empty one may be equal)
    case 9: {
      what = "copy";
      O c(o);
      return c.has_value() == has && (!has || K::key(*c) == key);
    }
    case 10: {
      what = "copy assignment";
      O c(other);
      c = o;
      O d;
      d = c;
      return d.has_value() == has && (!has || K::key(*d) == key);
    }
    case 11: {
      what = "transform";
      auto r = o.transform([](P const & p) { return K::key(p); });
      return r.has_value() == has && (!has || *r == key);
    }
    case 12: {
      what = "and_then";
      auto r = o.and_then([](P const & p) { return tiny::optional<uint64_t>(K::key(p)); });
      return r.has_value() == has && (!has || *r == key);
    }
    case 13: {
      what = "hash";
      if constexpr (hashable<P>::value) {
        return std::hash<O>{}(o) == std::hash<O>{}(same);
      }
      return true;
    }
    case 14: {
      what = "construction of others"; // touches nothing shared
      O c(pay), d(std::in_place, pay), e;
      e = pay;
      e.reset();
      c.swap(e);
      return e.has_value() && !c.has_value() && K::key(*e) == K::key(pay) && K::key(*d) == K::key(pay);
    }
    case 15: {
      what = "const rvalue";
      O c(static_cast<O const &&>(o));
      return c.has_value() == has && (!has || (K::key(*static_cast<O const &&>(o)) == key && K::key(*c) == key));
    }
    case 16: {
      what = "comparison with std::optional";
      S e;
      if (has) {
        e = *o;
      }
      return (o == e) && (e == o) && (o == S()) == !has;
    }
    case 17: {
      what = "monadic on a const rvalue";
      auto r = static_cast<O const &&>(o).transform([](P const && p) { return K::key(p); });
      auto q = static_cast<O const &&>(o).and_then([](P const && p) { return std::optional<uint64_t>(K::key(p)); });
      return r.has_value() == has && q.has_value() == has && (!has || (*r == key && *q == key));
    }
    case 18: {
      what = "transform to the own payload";
      auto r = o.transform([](P const & p) { return p; });
      return r.has_value() == has && (!has || K::key(*r) == key);
    }
    case 19: {
      what = "vector of copies";
      std::vector<O> v(3, o);
      v.push_back(o);
      v.insert(v.begin(), other);
      v.resize(9, o);
      v.erase(v.begin());
      for (O const & x : v) {
        if (x.has_value() != has || (has && K::key(*x) != key)) {
          return false;
        }
      }
      return true;
    }
    case 20: {
      what = "moves of a copy";
      O c(o), d(std::move(c));
      O e(other);
      e = std::move(d);
      swap(e, c);
      std::swap(c, d);
      std::optional<P> const x = e.has_value() ? std::optional<P>(*std::move(e)) : std::nullopt;
      return d.has_value() == has && (!has || K::key(*d) == key) && (!x || has);
    }
    default: {
      what = "or_else";
#if __cplusplus >= 202002L
      if constexpr (K::kOrElse) {
        O r = o.or_else([&] { return O(pay); });
        return K::key(*r) == (has ? key : K::key(pay));
      }
#endif
      return true;
    }
    }
  }

  static void shared_const(bool engaged, uint64_t seed)
  {
    mon::context("shared const", K::name());
    mon::Rng rng(seed);
    uint32_t const r = rng.below(1000);
    P const pay = K::make(r), pay2 = K::make(r + 1);
    auto mem = std::make_unique<O>();
    if (engaged) {
      *mem = pay;
    }
    O const & o = *mem;
    O const same = o;
    O const other(pay2);
    PerThread pt[kThreads];
    Barrier bar;
    long const n = 40 * mon::opt.scale;
    Order order(n * kThreads);
    uint64_t const key = K::key(pay);
    threads([&](int t) {
      mon::Rng rt(seed * 31 + static_cast<uint64_t>(t));
      P const own = K::make(rt.below(1000));
      bar.wait(kThreads);
      for (long i = 0; i < n; ++i) {
        const char * what = "";
        uint32_t const op = rt.below(kConstOps);
        order.mark(t);
        pt[t].orders = mon::mix(pt[t].orders, op);
        ++pt[t].ops;
        if (!const_op(op, o, same, other, engaged, key, own, what)) {
          ++pt[t].bad;
          pt[t].what = what;
        }
      }
    });
    order.report();
    collect(pt, engaged ? "const operations on a shared engaged optional" : "const operations on a shared empty optional");
    if (o.has_value() != engaged || (engaged && K::key(*o) != key)) {
      mon::fail("%s: changed by const operations", K::name());
    }
  }

  static void collect(PerThread (&pt)[kThreads], const char * what)
  {
    uint64_t h = mon::mix(mon::str_hash(K::name()), mon::str_hash(what));
    for (auto & p : pt) {
      mon::eval(static_cast<uint64_t>(p.ops));
      mon::count("operations in concurrent threads", static_cast<uint64_t>(p.ops));
      h = mon::mix(h, p.orders);
      if (p.bad) {
        mon::fail("%s: %s: %ld wrong results, last with %s", K::name(), what, p.bad, p.what);
      }
    }
    mon::seen(h);
    mon::count("concurrent phases");
  }

  struct Mixed // each member belongs to one thread
  {
    unsigned char c0 = 0;
    O a;
    unsigned char c1 = 0;
    O b;
    O c;
    bool c2 = false;
    O d;
    unsigned char c3 = 0;
  };

  // Random mutations of one optional, compared with a std::optional that only this thread knows.
  static void mutate(O & o, S & s, O const & shared, uint32_t sharedValue, mon::Rng & rt, PerThread & pt)
  {
    uint32_t const op = rt.below(18);
    uint32_t const r = rt.below(1000);
    pt.orders = mon::mix(pt.orders, op);
    const char * what = "";
    switch (op) {
    case 0: what = "= v", o = K::make(r), s = K::make(r); break;
    case 1: what = "reset", o.reset(), s.reset(); break;
    case 2: what = "emplace", o.emplace(K::make(r)), s.emplace(K::make(r)); break;
    case 3: what = "= nullopt", o = std::nullopt, s = std::nullopt; break;
    case 4: what = "= shared", o = shared, s = K::make(sharedValue); break;
    case 5: {
      what = "swap";
      O x(K::make(r));
      S y(K::make(r));
      o.swap(x);
      s.swap(y);
      break;
    }
    case 6: what = "= O()", o = O(), s = S(); break;
    case 7: what = "= O(v)", o = O(K::make(r)), s = S(K::make(r)); break;
    case 8: {
      what = "move out and back";
      O x(std::move(o));
      o.reset();
      o = std::move(x);
      break;
    }
    case 9: {
      what = "destroy and construct";
      o.~O();
      if (r % 2) {
        ::new (static_cast<void *>(std::addressof(o))) O(K::make(r));
        s = K::make(r);
      }
      else {
        ::new (static_cast<void *>(std::addressof(o))) O();
        s.reset();
      }
      break;
    }
    case 10:
      what = "write through *";
      if (o.has_value()) {
        *o = K::make(r);
        s = K::make(r);
      }
      break;
    case 11: what = "= {}", o = {}, s = std::nullopt; break;
    case 12: {
      what = "free swap";
      O x = r % 3 ? O(K::make(r)) : O();
      S y = r % 3 ? S(K::make(r)) : S();
      swap(o, x);
      s.swap(y);
      if (x.has_value() != y.has_value() || (y && K::key(*x) != K::key(*y))) {
        ++pt.bad;
      }
      break;
    }
    case 13: {
      what = "std::swap three times";
      O x(K::make(r)), y;
      std::swap(o, x);
      std::swap(x, y);
      std::swap(y, o);
      if (x.has_value() || !y.has_value() || K::key(*y) != K::key(K::make(r))) { // o has its old state again
        ++pt.bad;
      }
      break;
    }
    case 14: {
      what = "exchange";
      O x = std::exchange(o, O(K::make(r)));
      if (x.has_value() != s.has_value() || (s && K::key(*x) != K::key(*s))) {
        ++pt.bad;
      }
      s = K::make(r);
      break;
    }
    case 15: {
      what = "value_or and monadics of an rvalue";
      O x(o);
      P const v = std::move(x).value_or(K::make(r));
      O y(o);
      auto t = std::move(y).transform([](P && p) { return P(std::move(p)); });
      O z(o);
      auto a = std::move(z).and_then([](P && p) { return std::optional<P>(std::move(p)); });
      uint64_t const want = s ? K::key(*s) : K::key(K::make(r));
      if (K::key(v) != want || t.has_value() != s.has_value() || a.has_value() != s.has_value() || (s && (K::key(*t) != want || K::key(*a) != want))) {
        ++pt.bad;
      }
      break;
    }
    case 16: {
      what = "self assignment";
      O & self = o;
      o = self;
      o.swap(self);
      break;
    }
    case 17: {
      what = "sorting";
      std::vector<O> v;
      for (uint32_t n = 0; n < 5; ++n) {
        v.push_back(n == r % 5 ? O() : O(K::make((r * 7 + n * 13) % 90)));
      }
      std::sort(v.begin(), v.end(), [](O const & x, O const & y) { return x < y; });
      if (v[0].has_value() || !v[4].has_value()) {
        ++pt.bad;
      }
      break;
    }
    }
    ++pt.ops;
    if (o.has_value() != s.has_value() || (s.has_value() && K::key(*o) != K::key(*s))) {
      ++pt.bad;
      pt.what = what;
    }
  }

  static void neighbours(uint64_t seed)
  {
    mon::context("neighbours", K::name());
    auto arr = std::make_unique<std::array<O, 3 * kThreads>>();
    auto mix = std::make_unique<Mixed>();
    uint32_t const sv = static_cast<uint32_t>(seed % 500);
    O const shared(K::make(sv));
    PerThread pt[kThreads];
    Barrier bar;
    long const n = 25 * mon::opt.scale;
    Order order(n * kThreads);
    threads([&](int t) {
      mon::Rng rt(seed * 131 + static_cast<uint64_t>(t));
      S models[3];
      S mine;
      O * const mm[] = {&mix->a, &mix->b, &mix->c, &mix->d};
      unsigned char plain = 0;
      bar.wait(kThreads);
      for (long i = 0; i < n; ++i) {
        int const k = static_cast<int>(rt.below(3));
        order.mark(t);
        mutate((*arr)[static_cast<size_t>(k * kThreads + t)], models[k], shared, sv, rt, pt[t]);
        mutate(*mm[t], mine, shared, sv, rt, pt[t]);
        plain = static_cast<unsigned char>(plain * 5 + 1);
        switch (t) {
        case 0: mix->c0 = plain; break;
        case 1: mix->c1 = plain; break;
        case 2: mix->c2 = (plain & 8) != 0; break;
        default: mix->c3 = plain; break;
        }
      }
      for (int k = 0; k < 3; ++k) {
        O const & o = (*arr)[static_cast<size_t>(k * kThreads + t)];
        if (o.has_value() != models[k].has_value() || (o.has_value() && K::key(*o) != K::key(*models[k]))) {
          ++pt[t].bad;
          pt[t].what = "end state";
        }
      }
      bool const ok = t == 0 ? mix->c0 == plain : t == 1 ? mix->c1 == plain : t == 2 ? mix->c2 == ((plain & 8) != 0) : mix->c3 == plain;
      if (!ok) {
        ++pt[t].bad;
        pt[t].what = "plain neighbour";
      }
    });
    order.report();
    collect(pt, "mutation of neighbours");
  }

  static void run()
  {
    uint64_t seed = mon::opt.seed * 1000 + mon::str_hash(K::name()) % 977;
    for (int round = 0; round < 2; ++round) {
      shared_const(true, ++seed);
      shared_const(false, ++seed);
      neighbours(++seed);
    }
    mon::sample("%s: const operations by %d threads, mutation of adjacent optionals by %d threads", K::name(), kThreads, kThreads);
  }
};

#define KIND(ID, ORELSE, PAYLOAD, MAKE, KEY, ...)                                                                      \
  struct ID                                                                                                            \
  {                                                                                                                    \
    using Tiny = __VA_ARGS__;                                                                                          \
    using P = PAYLOAD;                                                                                                 \
    static constexpr bool kOrElse = ORELSE;                                                                            \
    static P make([[maybe_unused]] uint32_t r) { return MAKE; }                                                        \
    static uint64_t key(P const & p) { return KEY; }                                                                   \
    static const char * name() { return #ID; }                                                                         \
  };                                                                                                                   \
  SUITE(MON_CAT(run_, ID), "threads/" #ID) { Suite<ID>::run(); }

inline int fnA(int x) { return x; }
inline int fnB(int x) { return x + 1; }
using Fn = int (*)(int);

#if PART == 0
KIND(IntSep, true, int, static_cast<int>(r), static_cast<uint64_t>(p), tiny::optional<int>)
KIND(CharSep, true, char, static_cast<char>(r % 100), static_cast<uint64_t>(p), tiny::optional<char>)
KIND(OddSep, true, Odd, Odd(r), (p.a * 100u + p.c), tiny::optional<Odd>)
KIND(StrSep, true, std::string, std::string(r % 50, 'a'), p.size(), tiny::optional<std::string>)
KIND(SPtr, true, std::shared_ptr<int>, std::make_shared<int>(static_cast<int>(r)), static_cast<uint64_t>(*p), tiny::optional<std::shared_ptr<int>>)
KIND(WSep, true, W, W(r), p.key(), tiny::optional<W>)
#elif PART == 1
KIND(Bool, true, bool, r % 2 != 0, p, tiny::optional<bool>)
KIND(Dbl, true, double, r * 0.5, static_cast<uint64_t>(p * 2), tiny::optional<double>)
KIND(Flt, true, float, static_cast<float>(r), static_cast<uint64_t>(p), tiny::optional<float>)
KIND(Ptr, true, int const *, W::target + r % 4, static_cast<uint64_t>(p - W::target), tiny::optional<int const *>)
KIND(FnPtr, true, Fn, (r % 2 ? &fnA : &fnB), static_cast<uint64_t>(p(1)), tiny::optional<Fn>)
KIND(IntM1, true, int, static_cast<int>(r), static_cast<uint64_t>(p), tiny::optional<int, -1>)
KIND(U8, true, uint8_t, static_cast<uint8_t>(r % 250), p, tiny::optional<uint8_t, 255>)
#elif PART == 2
KIND(I16, true, short, static_cast<short>(r), static_cast<uint64_t>(p), tiny::optional<short, -1>)
KIND(Enum, true, Col, static_cast<Col>(r % 3), static_cast<uint64_t>(p), tiny::optional<Col, Col::Max>)
KIND(ViaI, false, int, static_cast<int>(r), static_cast<uint64_t>(p), tiny::optional_sentinel_via_type<int, th::Sent7>)
KIND(ViaD, false, double, r * 0.5, static_cast<uint64_t>(p * 2), tiny::optional_sentinel_via_type<double, th::SentD>)
KIND(AipI, false, int, static_cast<int>(r), static_cast<uint64_t>(p), tiny::optional_aip<int>)
KIND(AipU16, false, unsigned short, static_cast<unsigned short>(r), static_cast<uint64_t>(p), tiny::optional_aip<unsigned short>)
KIND(AipBool, false, bool, r % 2 != 0, p, tiny::optional_aip<bool>)
#elif PART == 3
KIND(MemI, true, W, W(r), p.key(), tiny::optional<W, &W::i, -1>)
KIND(MemD, true, W, W(r), p.key(), tiny::optional<W, &W::d>)
KIND(MemB, true, W, W(r), p.key(), tiny::optional<W, &W::b>)
KIND(MemP, true, W, W(r), p.key(), tiny::optional<W, &W::p>)
KIND(MemC, true, W, W(r), p.key(), tiny::optional<W, &W::c, Col::Max>)
KIND(MemOdd, true, Odd, Odd(r), (p.a * 100u + p.c), tiny::optional<Odd, &Odd::b, 255>)
KIND(MemVia, false, W, W(r), p.key(), tiny::optional_sentinel_via_type<W, th::SentD, &W::d>)
#elif PART == 4
KIND(CusPair, true, Pair, Pair(r), static_cast<uint64_t>(p.a), tiny::optional<Pair>)
using InpPairT = tiny::optional_inplace<Pair, th::PManip>;
KIND(InpPair, false, Pair, Pair(r), static_cast<uint64_t>(p.a), InpPairT)
using M1 = tiny::sentinel_flag_manipulator<int, -1>;
using InpIntT = tiny::optional_inplace<int, M1>;
KIND(InpInt, false, int, static_cast<int>(r), static_cast<uint64_t>(p), InpIntT)
using TB = tiny::optional<bool>;
KIND(NestBool, true, TB, (r % 3 == 0 ? TB() : TB(r % 3 == 1)), (p ? 1u + *p : 0u), tiny::optional<TB>)
using TS = tiny::optional<std::string>;
KIND(NestStr, true, TS, (r % 3 == 0 ? TS() : TS(std::string(r % 50, 'x'))), (p ? 1u + p->size() : 0u), tiny::optional<TS>)
#elif PART == 5
KIND(BigMem, true, th::Big<40>, th::Big<40>(r), p.key(), tiny::optional<th::Big<40>, &th::Big<40>::first, -1>)
KIND(BigSep, true, th::Big<9>, th::Big<9>(r), p.key(), tiny::optional<th::Big<9>>)
KIND(TwoMemP, true, th::Two, th::Two(r), static_cast<uint64_t>(p.d), tiny::optional<th::Two, &th::Two::p>)
KIND(TwoMemD, true, th::Two, th::Two(r), static_cast<uint64_t>(p.d), tiny::optional<th::Two, &th::Two::d>)
KIND(TwoSep, true, th::Two, th::Two(r), static_cast<uint64_t>(p.d), tiny::optional<th::Two>)
KIND(OverSep, true, th::Over, th::Over(r), static_cast<uint64_t>(p.x), tiny::optional<th::Over>)
KIND(OverMem, true, th::Over, th::Over(r), static_cast<uint64_t>(p.x), tiny::optional<th::Over, &th::Over::x, -1>)
#elif PART == 6
KIND(HeavyMem, true, th::Heavy, th::Heavy(r), p.key(), tiny::optional<th::Heavy, &th::Heavy::i, -1>)
KIND(HeavySep, true, th::Heavy, th::Heavy(r), p.key(), tiny::optional<th::Heavy>)
KIND(VecSep, true, std::vector<int>, std::vector<int>(r % 50, 4), p.size(), tiny::optional<std::vector<int>>)
KIND(C16, true, char16_t, static_cast<char16_t>(r), p, tiny::optional<char16_t, u'\xffff'>)
KIND(U64, true, uint64_t, r, p, tiny::optional<uint64_t, UINT64_MAX>)
KIND(I64Sep, true, int64_t, static_cast<int64_t>(r), static_cast<uint64_t>(p), tiny::optional<int64_t>)
KIND(BoolTrue, true, bool, false, p, tiny::optional<bool, true>)
#elif PART == 7
using AipU64T = tiny::optional_aip<uint64_t>;
KIND(AipU64, false, uint64_t, r, p, AipU64T)
KIND(AipDbl, false, double, r * 0.5, static_cast<uint64_t>(p * 2), tiny::optional_aip<double>)
KIND(AipPair, false, Pair, Pair(r), static_cast<uint64_t>(p.a), tiny::optional_aip<Pair>)
KIND(BigVia, false, th::Big<5>, th::Big<5>(r), p.key(), tiny::optional_sentinel_via_type<th::Big<5>, th::Sent7, &th::Big<5>::first>)
using TB2 = tiny::optional<double>;
KIND(NestDbl, true, TB2, (r % 3 == 0 ? TB2() : TB2(r * 0.5)), (p ? 1u + static_cast<unsigned>(*p * 2) : 0u), tiny::optional<TB2>)
using SOI = std::optional<int>;
KIND(NestStd, true, SOI, (r % 3 == 0 ? SOI() : SOI(static_cast<int>(r))), (p ? 1u + static_cast<unsigned>(*p) : 0u), tiny::optional<SOI>)
#endif
} // namespace
