// C13: std::hash. Hash values against the payload's hash, empties against each other however they became empty, enabledness,
// calls of the payload's hash, and unordered containers against a reference model.
#include "kinds.h"
#include <functional>
#include <map>
#include <system_error>
#include <thread>
#include <unordered_map>
#include <unordered_set>

#ifndef PART
  #define PART 0
#endif

#if PART == 0
namespace hs
{
long hashCalls = 0;
void const * hashArg = nullptr;
bool hashThrows = false;
struct HashBoom
{
};
} // namespace hs
#else
namespace hs
{
extern long hashCalls;
extern void const * hashArg;
extern bool hashThrows;
struct HashBoom;
} // namespace hs
#endif

namespace
{
// ---------------------------------------------------------------- payloads with monitored hashes
struct Spy // monitored hash; immovable-friendly: copies are counted
{
  int a;
  int flag; // -1 is used as sentinel by some flavours
  explicit Spy(int x) : a(x), flag(x % 3) { }
  friend bool operator==(Spy const & l, Spy const & r) { return l.a == r.a; }
};
struct SpyManip
{
  static bool is_empty(Spy const & s) noexcept { return s.flag == -5; }
  static void init_empty_flag(Spy & s) noexcept { ::new (static_cast<void *>(&s.flag)) int(-5); }
  static void invalidate_empty_flag(Spy &) noexcept { }
};
enum class He : short // with a hash of its own
{
  A,
  B,
  C,
  Inv = 77
};
enum Hu : unsigned
{
  HuA = 3,
  HuB = 4,
  HuInv = 99
};
struct HeManip
{
  static bool is_empty(He const & e) noexcept { return e == He::Inv; }
  static void init_empty_flag(He & e) noexcept { ::new (static_cast<void *>(&e)) He(He::Inv); }
  static void invalidate_empty_flag(He &) noexcept { }
};
struct Cv // converts to other hashable types, has a hash of its own
{
  int a;
  explicit Cv(int x) : a(x) { }
  operator int() const { return a; }
  operator double() const { return a; }
  friend bool operator==(Cv const & l, Cv const & r) { return l.a == r.a; }
};
struct CvManip
{
  static bool is_empty(Cv const & e) noexcept { return e.a == -9; }
  static void init_empty_flag(Cv & e) noexcept { ::new (static_cast<void *>(&e)) Cv(-9); }
  static void invalidate_empty_flag(Cv &) noexcept { }
};
struct Pinned // neither copyable nor movable
{
  int a;
  explicit Pinned(int x) : a(x) { }
  Pinned(Pinned const &) = delete;
  friend bool operator==(Pinned const & l, Pinned const & r) { return l.a == r.a; }
};
struct NoHash
{
  int a;
  double d;
  friend bool operator==(NoHash const & l, NoHash const & r) { return l.a == r.a; }
};
struct NoHashManip
{
  static bool is_empty(NoHash const & s) noexcept { return s.a == -5; }
  static void init_empty_flag(NoHash & s) noexcept { ::new (static_cast<void *>(&s.a)) int(-5); }
  static void invalidate_empty_flag(NoHash &) noexcept { }
};
struct NoDefaultHash // its hash exists but is not default constructible: not enabled
{
  int a;
};
enum class Ec : unsigned char
{
  A,
  B,
  C,
  Inv = 200
};
struct AB
{
  int a;
  double b;
  bool c;
  explicit AB(int x) : a(x), b(x * 0.5), c(x % 2 == 0) { }
  friend bool operator==(AB const & l, AB const & r) { return l.a == r.a && l.b == r.b && l.c == r.c; }
};
} // namespace

template <>
struct std::hash<Spy>
{
  size_t operator()(Spy const & s) const
  {
    ++hs::hashCalls;
    hs::hashArg = &s;
#if PART == 0
    if (hs::hashThrows) {
      throw hs::HashBoom{};
    }
#endif
    return static_cast<size_t>(s.a) * 2654435761u + 17;
  }
};
template <>
struct std::hash<He>
{
  size_t operator()(He e) const { return static_cast<size_t>(e) * 1000003u + 17; }
};
template <>
struct std::hash<Hu>
{
  size_t operator()(Hu const & e) const { return ~static_cast<size_t>(e); }
};
template <>
struct std::hash<Cv>
{
  size_t operator()(Cv const & e) const noexcept { return static_cast<size_t>(e.a) * 31 + 5; }
};
template <>
struct std::hash<Pinned>
{
  size_t operator()(Pinned const & s) const { return static_cast<size_t>(s.a) + 5; }
};
template <>
struct std::hash<AB>
{
  size_t operator()(AB const & s) const { return static_cast<size_t>(s.a % 7) * 31 + s.c; }
};
template <>
struct std::hash<NoDefaultHash>
{
  explicit hash(int) { }
  size_t operator()(NoDefaultHash const &) const { return 0; }
};

namespace
{
template <class O>
constexpr bool hash_enabled = std::is_default_constructible_v<std::hash<O>>;

template <class H>
constexpr int hash_ops() // the Cpp17Hash bits
{
  return (std::is_default_constructible_v<H> ? 1 : 0) | (std::is_copy_constructible_v<H> ? 2 : 0)
         | (std::is_copy_assignable_v<H> ? 4 : 0) | (std::is_destructible_v<H> ? 8 : 0);
}

template <class O>
size_t H(O const & o)
{
  return std::hash<O>{}(o);
}

// All ways to an empty optional that do not need the payload.
template <class O, class Mk>
void empties(const char * name, Mk mk)
{
  mon::context("empty", name);
  size_t const ref = H(O());
  auto chk = [&](O const & o, const char * how) {
    mon::eval();
    mon::seen(mon::mix(mon::str_hash(name), mon::str_hash(how)));
    if (o.has_value()) {
      mon::fail("%s: optional should be empty (%s)", name, how);
    }
    else if (H(o) != ref || H(o) != H(o)) {
      mon::fail("%s: empty optional (%s) has hash %zu, a fresh one %zu", name, how, H(o), ref);
    }
  };
  { // equal (empty) optionals of other flavours
    tiny::optional<std::remove_const_t<typename O::value_type>> e;
    mon::eval();
    if (H(e) != ref) {
      mon::fail("%s: the empty optional has hash %zu, an empty tiny::optional of the same payload %zu", name, ref, H(e));
    }
  }
  {
    O o(std::nullopt);
    chk(o, "nullopt");
  }
  for (uint32_t k = 0; k < 40; ++k) {
    {
      O o(std::in_place, mk(k));
      o.reset();
      chk(o, "reset");
      o.emplace(mk(k + 1));
      o = std::nullopt;
      chk(o, "= nullopt");
      if constexpr (std::is_move_assignable_v<O>) {
        o.emplace(mk(k + 2));
        o = {};
        chk(o, "= {}");
      }
    }
    if constexpr (std::is_copy_assignable_v<O>) {
      O o(std::in_place, mk(k)), e;
      o = e;
      chk(o, "= empty");
      chk(e, "source of assignment");
      O f(e);
      chk(f, "copy of empty");
    }
    if constexpr (std::is_move_assignable_v<O>) {
      O o(std::in_place, mk(k)), e;
      o = std::move(e);
      chk(o, "= move(empty)");
      chk(e, "moved-from empty");
      O p(std::in_place, mk(k)), q;
      p.swap(q);
      chk(p, "swapped with empty");
      swap(p, q);
      chk(q, "swapped back");
    }
    // storage with other previous contents
    alignas(O) unsigned char buf[sizeof(O)];
    std::memset(buf, static_cast<int>(k * 37), sizeof buf);
    O * p = ::new (static_cast<void *>(buf)) O;
    chk(*p, "built over garbage");
    p->~O();
  }
}

template <class O, class Mk>
void values(const char * name, Mk mk)
{
  using P = typename O::value_type;
  using NP = std::remove_cv_t<P>;
  mon::context("value", name);
  std::hash<NP> const h{};
  for (uint32_t k = 0; k < 300u * static_cast<unsigned>(mon::opt.scale); ++k) {
    NP v = mk(k);
    size_t const want = h(v);
    mon::seen(mon::mix(mon::str_hash(name), want));
    auto chk = [&](O const & o, const char * how) {
      mon::eval();
      if (!o.has_value() || H(o) != want || H(o) != h(*o)) {
        mon::fail("%s: hash of an optional (%s) is %zu, of its payload %zu, engaged %d", name, how,
                  o.has_value() ? H(o) : 0, want, static_cast<int>(o.has_value()));
      }
    };
    {
      O o(std::in_place, mk(k));
      chk(o, "in_place");
      o.reset();
      o.emplace(mk(k));
      chk(o, "emplace after reset");
      o.emplace(mk(k + 1));
      o.emplace(mk(k));
      chk(o, "emplace twice");
    }
    if constexpr (std::is_move_constructible_v<NP>) {
      O o(mk(k));
      chk(o, "value");
      O p(std::move(o));
      chk(p, "move");
      if constexpr (std::is_swappable_v<P>) {
        O q;
        q.swap(p);
        chk(q, "swap");
      }
    }
    if constexpr (std::is_copy_constructible_v<NP>) {
      O o(mk(k)), e(o);
      chk(e, "copy");
      if constexpr (std::is_copy_assignable_v<P>) {
        O w(mk(k + 1));
        w = o;
        chk(w, "copy-assigned");
        O x;
        x = mk(k);
        chk(x, "assigned value");
      }
    }
  }
}

// Unordered containers against a model. key() identifies the equivalence class of a payload.
template <class O, class Mk, class Key>
void containers(const char * name, Mk mk, Key key)
{
  mon::context("container", name);
  mon::Rng r(mon::opt.seed ^ mon::str_hash(name));
  using K = std::pair<bool, uint64_t>;
  for (long round = 0; round < 6 * mon::opt.scale; ++round) {
    std::unordered_set<O> set;
    std::unordered_map<O, int> map;
    std::unordered_multiset<O> multi;
    std::map<K, int> model;
    std::map<K, int> count;
    if (round % 2) {
      set.max_load_factor(0.3f);
    }
    auto check = [&] {
      mon::eval();
      if (set.size() != model.size() || map.size() != model.size()) {
        mon::fail("%s: container has %zu/%zu elements, the model %zu", name, set.size(), map.size(), model.size());
      }
      for (auto const & e : set) {
        K k{e.has_value(), e.has_value() ? key(*e) : 0};
        auto it = map.find(e);
        if (!model.count(k) || set.count(e) != 1 || it == map.end() || it->second != model[k]) {
          mon::fail("%s: element of the set is lost or confused", name);
        }
        if (multi.count(e) != static_cast<size_t>(count[k])) {
          mon::fail("%s: multiset counts %zu equal elements, the model %d", name, multi.count(e), count[k]);
        }
      }
    };
    for (int step = 0; step < 120; ++step) {
      uint32_t const pick = static_cast<uint32_t>(r.below(60));
      bool const engaged = r.below(6) != 0;
      auto fresh = [&] { return engaged ? O(std::in_place, mk(pick)) : O(); };
      O o = fresh();
      K const k{engaged, engaged ? key(*o) : 0};
      mon::seen(mon::mix(mon::str_hash(name), mon::mix(k.first, k.second)));
      switch (r.below(4)) {
      case 0:
      case 1: {
        bool const wasNew = set.insert(fresh()).second;
        if (wasNew == (model.count(k) != 0)) {
          mon::fail("%s: insert reports %d, the model knows the element: %zu", name, wasNew, model.count(k));
        }
        multi.insert(fresh());
        ++count[k];
        map[fresh()] = step;
        model[k] = step;
        break;
      }
      case 2: {
        size_t const n = set.erase(o);
        if (n != model.count(k) || map.erase(o) != n) {
          mon::fail("%s: erase removes %zu, the model has %zu", name, n, model.count(k));
        }
        if (multi.erase(o) != static_cast<size_t>(count[k])) {
          mon::fail("%s: multiset erase differs from the model", name);
        }
        count[k] = 0;
        model.erase(k);
        break;
      }
      default:
        if ((set.find(o) != set.end()) != (model.count(k) != 0)) {
          mon::fail("%s: find differs from the model", name);
        }
        if (r.below(8) == 0) {
          set.rehash(r.below(500));
        }
      }
    }
    check();
    mon::count("container histories");
  }
}

template <class O, class Mk>
void equal_hash(const char * name, Mk mk)
{
  mon::context("equal", name);
  long eq = 0;
  for (uint32_t a = 0; a < 60; ++a) {
    for (uint32_t b = 0; b < 60; ++b) {
      O x = a == 0 ? O() : O(std::in_place, mk(a));
      O y = b == 0 ? O() : O(std::in_place, mk(b));
      mon::eval();
      if (x == y) {
        ++eq;
        if (H(x) != H(y)) {
          mon::fail("%s: equal optionals have different hashes", name);
        }
      }
    }
  }
  mon::count("equal pairs", static_cast<uint64_t>(eq));
}

template <class O, class Mk, class Key>
void all(const char * name, Mk mk, Key key)
{
  static_assert(std::is_default_constructible_v<O>, "");
  using NP = std::remove_const_t<typename O::value_type>;
  mon::context("enabled", name);
  mon::eval();
  if (hash_ops<std::hash<O>>() != hash_ops<std::hash<NP>>()) {
    mon::fail("%s: operations of std::hash of the optional (%d) differ from those of its payload (%d)", name,
              hash_ops<std::hash<O>>(), hash_ops<std::hash<NP>>());
  }
  if (!std::is_same_v<decltype(std::hash<O>{}(std::declval<O const &>())), size_t>
      || !std::is_invocable_v<std::hash<O> const &, O &> || !std::is_invocable_v<std::hash<O> &, O>) {
    mon::fail("%s: std::hash has the wrong call signature", name);
  }
  empties<O>(name, mk);
  values<O>(name, mk);
  equal_hash<O>(name, mk);
  if constexpr (std::is_move_constructible_v<O>) {
    containers<O>(name, mk, key);
  }
}

// the hash is enabled exactly when the payload's is
template <class O>
void enabled(const char * name)
{
  using NP = std::remove_const_t<typename O::value_type>;
  mon::context("enabled", name);
  mon::eval();
  mon::seen(mon::str_hash(name));
  int const want = hash_enabled<NP> ? 15 : hash_ops<std::hash<std::optional<NoHash>>>();
  if (hash_ops<std::hash<O>>() != want || std::is_invocable_v<std::hash<O> const &, O const &> != hash_enabled<NP>) {
    mon::fail("%s: std::hash is %s although that of the payload is %s (operations %d)", name,
              hash_enabled<O> ? "enabled" : "disabled", hash_enabled<NP> ? "enabled" : "disabled", hash_ops<std::hash<O>>());
  }
}
#define ENABLED(...) enabled<__VA_ARGS__>(#__VA_ARGS__)

auto const ik = [](auto v) { return static_cast<uint64_t>(static_cast<int64_t>(v)); };
auto const fk = [](auto v) { return kd::bits(v == 0 ? decltype(v)(0) : v); };

struct ViaHe
{
  static constexpr He value = He::Inv;
};
struct ViaAB
{
  static constexpr int value = -7;
};
struct ViaD
{
  static constexpr double value = -1.0;
};
struct ViaEc
{
  static constexpr Ec value = Ec::Inv;
};
} // namespace

#if PART == 0
SUITE(s_int, "hash/integers")
{
  auto mi = [](uint32_t r) { return kd::int_not<int>(r * 2654435761u >> 3, -1); };
  all<tiny::optional<int>>("optional<int>", mi, ik);
  all<tiny::optional<int const>>("optional<int const>", mi, ik);
  all<tiny::optional<int, -1>>("optional<int,-1>", mi, ik);
  all<tiny::optional<int const, -1>>("optional<int const,-1>", mi, ik);
  all<tiny::optional_sentinel_via_type<int, kd::SentM7>>(
      "via type int", [](uint32_t r) { return kd::int_not<int>(r, -7); }, ik);
  all<tiny::optional_aip<unsigned>>("aip unsigned", [](uint32_t r) { return kd::int_not<unsigned>(r, UINT_MAX); }, ik);
  all<tiny::optional_aip<long long>>(
      "aip long long", [](uint32_t r) { return kd::int_not<long long>(r, LLONG_MIN); }, ik);
  all<tiny::optional_inplace<int, kd::InplaceIntManip>>("inplace int", mi, ik);
  all<tiny::optional<unsigned char>>("optional<unsigned char>", [](uint32_t r) { return static_cast<unsigned char>(r); }, ik);
  all<tiny::optional<char, 'x'>>("optional<char,'x'>", [](uint32_t r) { return static_cast<char>(r % 100); }, ik);
  all<tiny::optional<short>>("optional<short>", [](uint32_t r) { return static_cast<short>(r * 77); }, ik);
  all<tiny::optional<Ec>>("optional<enum>", [](uint32_t r) { return static_cast<Ec>(r % 3); }, ik);
  all<tiny::optional<Ec, Ec::Inv>>("optional<enum,Inv>", [](uint32_t r) { return static_cast<Ec>(r % 3); }, ik);
  all<tiny::optional_sentinel_via_type<Ec, ViaEc>>("via type enum", [](uint32_t r) { return static_cast<Ec>(r % 3); }, ik);
  all<tiny::optional<kd::Reg>>("enum with sentinel_flag_manipulator", [](uint32_t r) { return static_cast<kd::Reg>(r % 3); }, ik);
}

SUITE(s_own, "hash/own specialisations")
{
  auto me = [](uint32_t r) { return static_cast<He>(r % 3); };
  all<tiny::optional<He>>("optional<He>", me, ik);
  all<tiny::optional<He const>>("optional<He const>", me, ik);
  all<tiny::optional<He, He::Inv>>("optional<He,Inv>", me, ik);
  all<tiny::optional_sentinel_via_type<He, ViaHe>>("via type He", me, ik);
  all<tiny::optional_inplace<He, HeManip>>("inplace He", me, ik);
  auto mu = [](uint32_t r) { return r % 2 ? HuA : HuB; };
  all<tiny::optional<Hu>>("optional<Hu>", mu, ik);
  all<tiny::optional<Hu, HuInv>>("optional<Hu,Inv>", mu, ik);
  all<tiny::optional_aip<Hu, HuInv>>("aip<Hu,Inv>", mu, ik);
  auto mc = [](uint32_t r) { return Cv(static_cast<int>(r % 40)); };
  auto ck = [](Cv const & c) { return static_cast<uint64_t>(c.a); };
  all<tiny::optional<Cv>>("optional<Cv>", mc, ck);
  all<tiny::optional<Cv const>>("optional<Cv const>", mc, ck);
  all<tiny::optional<Cv, &Cv::a, -1>>("optional<Cv,&a,-1>", mc, ck);
  all<tiny::optional_inplace<Cv, CvManip>>("inplace Cv", mc, ck);
}

SUITE(s_spy, "hash/calls")
{
  auto one = [](auto tag, const char * name) {
    using O = typename decltype(tag)::type;
    mon::context("calls", name);
    std::hash<O> const h{};
    for (int k = 0; k < 50; ++k) {
      O o(std::in_place, k);
      hs::hashCalls = 0;
      size_t const v = h(o);
      mon::eval();
      mon::seen(mon::mix(mon::str_hash(name), v));
      if (hs::hashCalls != 1 || hs::hashArg != static_cast<void const *>(std::addressof(*o))
          || v != static_cast<size_t>(k) * 2654435761u + 17) {
        mon::fail("%s: the payload's hash was called %ld times, on the contained object: %d", name, hs::hashCalls,
                  hs::hashArg == static_cast<void const *>(std::addressof(*o)));
      }
      hs::hashThrows = true;
      bool caught = false;
      try {
        (void)h(o);
      }
      catch (hs::HashBoom const &) {
        caught = true;
      }
      hs::hashThrows = false;
      if (!caught || !o.has_value() || o->a != k) {
        mon::fail("%s: exception of the payload's hash is lost or changes the optional", name);
      }
      o.reset();
      hs::hashCalls = 0;
      if (h(o) != h(O()) || hs::hashCalls != 0) {
        mon::fail("%s: hashing an empty optional called the payload's hash", name);
      }
    }
  };
  auto mk = [](uint32_t r) { return Spy(static_cast<int>(r % 50)); };
  auto key = [](Spy const & s) { return static_cast<uint64_t>(s.a); };
#define SPY(...)                                                                                                       \
  one(pl::type_tag<__VA_ARGS__>{}, #__VA_ARGS__);                                                                      \
  all<__VA_ARGS__>(#__VA_ARGS__, mk, key)
  SPY(tiny::optional<Spy>);
  SPY(tiny::optional<Spy const>);
  SPY(tiny::optional<Spy, &Spy::flag, -1>);
  SPY(tiny::optional_sentinel_via_type<Spy, ViaAB, &Spy::flag>);
  SPY(tiny::optional_inplace<Spy, SpyManip>);
}
#elif PART == 1
SUITE(s_bits, "hash/unused bits")
{
  all<tiny::optional<bool>>("optional<bool>", [](uint32_t r) { return r % 2 != 0; }, ik);
  all<tiny::optional<bool const>>("optional<bool const>", [](uint32_t r) { return r % 2 != 0; }, ik);
  all<tiny::optional<bool, true>>("optional<bool,true>", [](uint32_t) { return false; }, ik);
  auto md = [](uint32_t r) {
    double d = kd::some_double(r);
    return d != d || d == -1.0 ? 2.5 : d;
  };
  auto mf = [](uint32_t r) {
    float d = kd::some_float(r);
    return d != d ? 2.5f : d;
  };
  all<tiny::optional<double>>("optional<double>", md, fk);
  all<tiny::optional<double const>>("optional<double const>", md, fk);
  all<tiny::optional_sentinel_via_type<double, ViaD>>("via type double", md, fk);
  all<tiny::optional<float>>("optional<float>", mf, fk);
  auto mp = [](uint32_t r) { return r % 8 == 0 ? nullptr : pl::pool + r % 16; };
  auto pk = [](int const * p) { return kd::pkey(p); };
  all<tiny::optional<int *>>("optional<int*>", mp, pk);
  all<tiny::optional<int const *>>("optional<int const*>", mp, pk);
  all<tiny::optional<int * const>>("optional<int* const>", mp, pk);
  all<tiny::optional<int *, nullptr>>("optional<int*,nullptr>", [](uint32_t r) { return pl::pool + r % 16; }, pk);
  all<tiny::optional<kd::FnT>>(
      "optional<fn>", [](uint32_t r) -> kd::FnT { return r % 3 == 0 ? nullptr : r % 3 == 1 ? &kd::fn0 : &kd::fn1; },
      [](kd::FnT f) -> uint64_t { return f == nullptr ? 0u : f == &kd::fn0 ? 1u : 2u; });
  values<tiny::optional<double>>("optional<double> with NaN", [](uint32_t r) { return kd::some_double(r); });
  values<tiny::optional<float>>("optional<float> with NaN", [](uint32_t r) { return kd::some_float(r); });
#if !KD_NO_BITS
  all<tiny::optional_aip<double>>("aip double", md, fk);
#endif
}
#elif PART == 2
SUITE(s_class, "hash/classes")
{
  auto ms = [](uint32_t r) { return std::string(r % 40, static_cast<char>('a' + r % 26)); };
  auto sk = [](std::string const & s) { return kd::strkey(s); };
  all<tiny::optional<std::string>>("optional<string>", ms, sk);
  all<tiny::optional<std::string const>>("optional<string const>", ms, sk);
  auto mab = [](uint32_t r) { return AB(static_cast<int>(r % 50)); };
  auto abk = [](AB const & a) { return static_cast<uint64_t>(a.a); };
  all<tiny::optional<AB>>("optional<AB>", mab, abk);
  all<tiny::optional<AB, &AB::a, -1>>("optional<AB,&a,-1>", mab, abk);
#if !KD_NO_BIT_MEMBERS
  all<tiny::optional<AB, &AB::b>>("optional<AB,&b>", mab, abk);
  all<tiny::optional<AB, &AB::c>>("optional<AB,&c>", mab, abk);
#endif
  all<tiny::optional_sentinel_via_type<AB, ViaAB, &AB::a>>("via type AB::a", mab, abk);
  all<tiny::optional_sentinel_via_type<AB, ViaD, &AB::b>>("via type AB::b", mab, abk);
  all<tiny::optional<std::unique_ptr<int>>>(
      "optional<unique_ptr>", [](uint32_t r) { return std::unique_ptr<int>(r % 2 ? nullptr : nullptr); },
      [](std::unique_ptr<int> const & p) { return static_cast<uint64_t>(p == nullptr); });
  all<tiny::optional<tiny::optional<int>>>(
      "nested",
      [](uint32_t r) { return r % 3 == 0 ? tiny::optional<int>() : tiny::optional<int>(static_cast<int>(r % 5)); },
      [](tiny::optional<int> const & o) { return o ? 1u + static_cast<uint64_t>(*o) : 0u; });
  all<tiny::optional<std::optional<int>>>(
      "nested std",
      [](uint32_t r) { return r % 3 == 0 ? std::optional<int>() : std::optional<int>(static_cast<int>(r % 5)); },
      [](std::optional<int> const & o) { return o ? 1u + static_cast<uint64_t>(*o) : 0u; });
  all<tiny::optional<std::vector<bool>>>(
      "optional<vector<bool>>", [](uint32_t r) { return std::vector<bool>(r % 9, r % 2 != 0); },
      [](std::vector<bool> const & v) { return v.size() * 2 + (v.empty() ? 0u : static_cast<unsigned>(v[0])); });
  all<tiny::optional<std::error_code>>(
      "optional<error_code>",
      [](uint32_t r) { return std::error_code(static_cast<int>(r % 9), std::generic_category()); },
      [](std::error_code const & e) { return static_cast<uint64_t>(e.value()); });
  {
    mon::context("immovable", "Pinned");
    for (int k = 0; k < 20; ++k) {
      tiny::optional<Pinned> o(std::in_place, k);
      mon::eval();
      if (H(o) != static_cast<size_t>(k) + 5) {
        mon::fail("hash of an immovable payload is wrong");
      }
      o.reset();
      if (H(o) != H(tiny::optional<Pinned>())) {
        mon::fail("hash of an empty optional of an immovable payload is not stable");
      }
    }
  }
}

SUITE(s_enabled, "hash/enabled")
{
  ENABLED(tiny::optional<NoHash>);
  ENABLED(tiny::optional<NoHash const>);
  ENABLED(tiny::optional<NoHash, &NoHash::a, -1>);
#if !KD_NO_BIT_MEMBERS
  ENABLED(tiny::optional<NoHash, &NoHash::d>);
#endif
  ENABLED(tiny::optional_sentinel_via_type<NoHash, ViaAB, &NoHash::a>);
  ENABLED(tiny::optional_inplace<NoHash, NoHashManip>);
  ENABLED(tiny::optional<NoDefaultHash>);
  ENABLED(tiny::optional<std::vector<int>>);
  ENABLED(tiny::optional<std::optional<NoHash>>);
  ENABLED(tiny::optional<tiny::optional<NoHash>>);
  ENABLED(tiny::optional<std::array<short, 3>>);
  ENABLED(tiny::optional<int>);
  ENABLED(tiny::optional<int const>);
  ENABLED(tiny::optional<int, -1>);
  ENABLED(tiny::optional<int const, -1>);
  ENABLED(tiny::optional<double>);
  ENABLED(tiny::optional<double const>);
  ENABLED(tiny::optional<bool const>);
  ENABLED(tiny::optional<int * const>);
  ENABLED(tiny::optional<long double>);
  ENABLED(tiny::optional<std::string const>);
  ENABLED(tiny::optional<std::nullptr_t>);
  ENABLED(tiny::optional<std::thread::id>);
  ENABLED(tiny::optional_aip<unsigned short>);
  ENABLED(tiny::optional_aip<int>);
  ENABLED(tiny::optional_inplace<Spy, SpyManip>);
  ENABLED(tiny::optional_inplace<int, kd::InplaceIntManip>);
  ENABLED(tiny::optional_sentinel_via_type<double, ViaD>);
  ENABLED(tiny::optional_sentinel_via_type<double const, ViaD>);
  ENABLED(tiny::optional<AB const>);
  ENABLED(tiny::optional<Pinned>);
  ENABLED(tiny::optional<kd::IndexPair>);
  ENABLED(tiny::optional<tiny::optional<int>>);
  ENABLED(tiny::optional<tiny::optional<int> const>);
}
#endif
