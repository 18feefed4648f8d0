// C03 (also C02, C10): payloads of every combination of traits. The noexcept-ness of the special members, trivial
// destruction, an own swap, assignment from int, size and alignment are varied by an orthogonal array of strength 3
// (every combination of any three of the twelve traits occurs), each operation runs in every combination of operand
// states with a fault at every point it passes, and std::optional runs the same script. Compared: outcome, states,
// values, living objects, sequence of payload operations, further use.
#include "mon.h"
#include <tiny/optional.h>
#include <algorithm>
#include <set>
#ifndef PART
  #define PART 0
#endif

namespace
{
struct Fault
{
};
enum Ev : int
{
  Def,
  Val,
  Copy,
  Move,
  CopyAsg,
  MoveAsg,
  IntAsg,
  Dtor,
  Swap,
  Cmp,
  Call,
  CopyMutable,
  AsgMutable
};
const char * const evName[] = {"default-ctor", "int-ctor", "copy-ctor", "move-ctor", "copy-assign", "move-assign", "int-assign",
                               "dtor", "swap", "compare", "call", "copy from non-const", "assign from non-const"};

struct W
{
  std::set<void const *> alive;
  std::vector<std::pair<int, int>> log;
  long countdown = 0, points = 0;
  void ev(int e, int v) { log.emplace_back(e, v); }
  void point()
  {
    ++points;
    if (countdown > 0 && --countdown == 0) {
      throw Fault{};
    }
  }
  void born(void const * p)
  {
    if (!alive.insert(p).second) {
      mon::failt("life", "constructed on top of a living payload");
    }
  }
  void dead(void const * p)
  {
    if (alive.erase(p) != 1) {
      mon::failt("life", "destructor of a payload that does not exist");
    }
  }
  void use(void const * p)
  {
    if (!alive.count(p)) {
      mon::failt("life", "use of a payload that does not exist");
    }
  }
} w;

// Orthogonal array OA(24, 12, 2, 3): Hadamard matrix of order 12 (Paley) and its negative.
constexpr bool oa(int row, int factor)
{
  int const r = row % 12;
  bool v = false;
  if (r == 0 || factor == 0) {
    v = true;
  }
  else {
    int const d = ((r - factor) % 11 + 11) % 11;
    v = d == 0 ? false : !(d == 1 || d == 3 || d == 4 || d == 5 || d == 9);
  }
  return row < 12 ? v : !v;
}

template <int R>
struct Tr
{
  static constexpr bool cc = oa(R, 0), mc = oa(R, 1), ca = oa(R, 2), ma = oa(R, 3), vc = oa(R, 4), td = oa(R, 5), sw = oa(R, 6),
                        swnx = oa(R, 7), large = oa(R, 8), dc = oa(R, 9), ia = oa(R, 10), al = oa(R, 11);
};

template <bool B>
struct Pad
{
};
template <>
struct Pad<true>
{
  char bytes[40] = {};
};
template <bool NX>
inline void point() noexcept(NX)
{
  if constexpr (!NX) {
    w.point();
  }
}

template <int R>
struct Base
{
  using T = Tr<R>;
  int v;
  Pad<T::large> pad;

  Base() noexcept(T::vc) : v(0)
  {
    point<T::vc>();
    birth(Def);
  }
  Base(int x) noexcept(T::vc) : v(x)
  {
    point<T::vc>();
    birth(Val);
  }
  Base(Base const & o) noexcept(T::cc) : v(o.v)
  {
    o.use();
    point<T::cc>();
    birth(Copy);
  }
  Base(Base && o) noexcept(T::mc) : v(o.v)
  {
    o.use();
    point<T::mc>();
    o.v = -1;
    birth(Move);
  }
  Base & operator=(Base const & o) noexcept(T::ca)
  {
    use();
    o.use();
    w.ev(CopyAsg, o.v);
    int const x = o.v;
    v = -2;
    point<T::ca>();
    v = x;
    return *this;
  }
  Base & operator=(Base && o) noexcept(T::ma)
  {
    use();
    o.use();
    w.ev(MoveAsg, o.v);
    int const x = o.v;
    v = -3;
    point<T::ma>();
    o.v = -1;
    v = x;
    return *this;
  }

protected:
  void birth(int e)
  {
    w.ev(e, v);
    if constexpr (!T::td) {
      w.born(this);
    }
  }
  void use() const
  {
    if constexpr (!T::td) {
      w.use(this);
    }
  }
};

template <int R, bool IA = Tr<R>::ia>
struct WithInt : Base<R>
{
  using Base<R>::Base;
  WithInt() = default;
};
template <int R>
struct WithInt<R, true> : Base<R>
{
  using Base<R>::Base;
  WithInt() = default;
  WithInt & operator=(int x) noexcept(Tr<R>::vc)
  {
    this->use();
    w.ev(IntAsg, x);
    this->v = -4;
    point<Tr<R>::vc>();
    this->v = x;
    return *this;
  }
};
template <int R, bool TD = Tr<R>::td>
struct WithDtor : WithInt<R>
{
  using WithInt<R>::WithInt;
  using WithInt<R>::operator=;
};
template <int R>
struct WithDtor<R, false> : WithInt<R>
{
  using WithInt<R>::WithInt;
  using WithInt<R>::operator=;
  WithDtor() = default;
  WithDtor(WithDtor const &) = default;
  WithDtor(WithDtor &&) = default;
  WithDtor & operator=(WithDtor const &) = default;
  WithDtor & operator=(WithDtor &&) = default;
  ~WithDtor()
  {
    w.ev(Dtor, this->v);
    w.dead(this);
  }
};

// A member behind the flags: its constructors throw after the memory of the flag was overwritten.
template <int R>
struct Late
{
  using T = Tr<R>;
  Late() noexcept(T::vc) { point<T::vc>(); }
  Late(Late const &) noexcept(T::cc) { point<T::cc>(); }
  Late(Late &&) noexcept(T::mc) { point<T::mc>(); }
  Late & operator=(Late const &) noexcept { return *this; }
};

// flag and num are the members the in-place flavours use; they always hold valid values while the payload lives.
// 'Tag' only distinguishes the type with a specialised manipulator.
template <int R, int Tag>
struct alignas(Tr<R>::al ? 32 : alignof(WithDtor<R>)) P : WithDtor<R>
{
  using WithDtor<R>::WithDtor;
  using WithDtor<R>::operator=;
  bool flag = true;
  int num = 5;
  Late<R> late;
  P() = default;
  // Distinguishes copies of const from copies of non-const lvalues.
  template <class Q, std::enable_if_t<std::is_same_v<Q, P> && R % 2 == 1, int> = 0>
  P(Q & o) noexcept(std::is_nothrow_copy_constructible_v<WithDtor<R>> && Tr<R>::cc)
    : P(static_cast<P const &>(o))
  {
    w.ev(CopyMutable, this->v);
  }
  template <class Q, std::enable_if_t<std::is_same_v<Q, P> && R % 2 == 1, int> = 0>
  P & operator=(Q & o) noexcept(Tr<R>::ca)
  {
    w.ev(AsgMutable, o.v);
    return *this = static_cast<P const &>(o);
  }
  friend bool operator==(P const & a, P const & b)
  {
    a.use();
    b.use();
    w.ev(Cmp, a.v * 100 + b.v);
    w.point();
    return a.v == b.v;
  }
  friend bool operator<(P const & a, P const & b)
  {
    a.use();
    b.use();
    w.ev(Cmp, a.v * 100 + b.v);
    w.point();
    return a.v < b.v;
  }
};
template <int R, int Tag, std::enable_if_t<Tr<R>::sw, int> = 0>
void swap(P<R, Tag> & a, P<R, Tag> & b) noexcept(Tr<R>::swnx)
{
  w.ev(Swap, a.v * 100 + b.v);
  point<Tr<R>::swnx>();
  std::swap(a.v, b.v);
}

template <class T>
struct NumManip
{
  static bool is_empty(T const & p) noexcept { return p.num == -77; }
  static void init_empty_flag(T & p) noexcept { ::new (static_cast<void *>(&p.num)) int(-77); }
  static void invalidate_empty_flag(T &) noexcept { }
};
} // namespace

template <int R>
struct tiny::optional_flag_manipulator<P<R, 3>> : NumManip<P<R, 3>>
{
};

namespace
{
template <int R, int F>
struct Flav;
template <int R>
struct Flav<R, 0>
{
  using Pay = P<R, 0>;
  using O = tiny::optional<Pay>;
};
template <int R>
struct Flav<R, 1>
{
  using Pay = P<R, 0>;
  using O = tiny::optional<Pay, &Pay::flag>;
};
template <int R>
struct Flav<R, 2>
{
  using Pay = P<R, 0>;
  using O = tiny::optional<Pay, &Pay::num, -78>;
};
template <int R>
struct Flav<R, 3>
{
  using Pay = P<R, 3>;
  using O = tiny::optional<Pay>;
};
template <int R>
struct Flav<R, 4>
{
  using Pay = P<R, 0>;
  using O = tiny::optional_inplace<Pay, NumManip<Pay>>;
};
template <int R>
struct Flav<R, 5>
{
  using Pay = P<R, 0>;
  using O = tiny::optional_aip<Pay>;
};

enum Op
{
  NewInPlace,
  NewFromInt,
  NewFromL,
  NewFromR,
  NewCopy,
  NewMove,
  Emplace0,
  EmplaceInt,
  EmplaceL,
  EmplaceR,
  AsgL,
  AsgR,
  AsgInt,
  AsgCopy,
  AsgMove,
  AsgBraces,
  SwapMember,
  SwapFree,
  ValueOrL,
  ValueOrR,
  ValueOrMove,
  ValueMove,
  ResetIt,
  NullIt,
  CmpEq,
  CmpLess,
  CmpVal,
  TransThrow,
  TransP,
  TransPNx,
  TransPRef,
  TransInt,
  TransDouble,
  TransStr,
  AndThen,
  OrElseL,
  OrElseR,
  OpCount
};
const char * const opName[]
    = {"in_place ctor", "ctor from int", "ctor from T const&", "ctor from T&&", "copy ctor", "move ctor", "emplace()", "emplace(int)", "emplace(T const&)", "emplace(T&&)", "= T const&", "= T&&", "= int",
       "copy =", "move =", "= {}", "swap()", "std::swap", "value_or(T const&)",
       "value_or(T&&)", "move value_or", "move value()", "reset", "= nullopt", "==", "<", "== T", "transform: callable throws",
       "transform -> T", "transform -> T noexcept move", "transform -> copy of T", "transform -> int", "transform -> double",
       "transform -> string", "and_then", "or_else &", "or_else &&"};

struct Obs
{
  bool threw = false;
  int res = -1000;
  int a = 0, b = 0; // INT_MIN: empty
  int after = 0;
  size_t alive = 0, aliveEnd = 0;
  long points = 0;
  std::vector<std::pair<int, int>> log;
};

template <class O>
inline constexpr bool isStd = false;
template <class T>
inline constexpr bool isStd<std::optional<T>> = true;
template <class O>
int read(O const & o)
{
  return o.has_value() ? (*o).v : INT_MIN;
}
template <bool S, class T>
using OptOf = std::conditional_t<S, std::optional<T>, tiny::optional<T>>;

// std::optional of C++17/20 has no monadic functions: these emulate them.
template <class R, class O, class Make>
OptOf<isStd<std::decay_t<O>>, R> transform(O && o, Make make) // make: callable that returns the int the result is built from
{
  constexpr bool s = isStd<std::decay_t<O>>;
  OptOf<s, R> r;
  if (o.has_value()) {
    int const x = make(*std::forward<O>(o));
    if constexpr (std::is_same_v<R, std::string>) {
      r.emplace(static_cast<size_t>(x & 15), 'x');
    }
    else {
      r.emplace(x);
    }
  }
  return r;
}

template <class O, class Pay>
int perform(int op, O & a, O & b)
{
  constexpr bool s = isStd<O>;
  auto fresh = [](auto && make) {
    O c = make();
    return read(c);
  };
  switch (op) {
  case NewInPlace: {
    O c(std::in_place, 5);
    return read(c);
  }
  case NewFromInt: {
    O c(6);
    return read(c);
  }
  case NewFromL: {
    Pay const p(7);
    O c(p);
    return read(c);
  }
  case NewFromR: {
    Pay p(8);
    O c(std::move(p));
    return read(c) * 10 + p.v;
  }
  case NewCopy: return fresh([&] { return O(static_cast<O const &>(a)); });
  case NewMove: return fresh([&] { return O(std::move(a)); });
  case Emplace0: return a.emplace().v;
  case EmplaceInt: return a.emplace(11).v;
  case EmplaceL: {
    Pay const p(12);
    return a.emplace(p).v;
  }
  case EmplaceR: {
    Pay p(13);
    return a.emplace(std::move(p)).v;
  }
  case AsgL: {
    Pay const p(14);
    a = p;
    return 0;
  }
  case AsgR: {
    Pay p(15);
    a = std::move(p);
    return 0;
  }
  case AsgInt: a = 16; return 0;
  case AsgCopy: a = static_cast<O const &>(b); return 0;
  case AsgMove: a = std::move(b); return 0;
  case AsgBraces: a = {}; return 0;
  case SwapMember: a.swap(b); return 0;
  case SwapFree: {
    using std::swap;
    swap(a, b);
    return 0;
  }
  case ValueOrL: {
    Pay const d(19);
    return static_cast<O const &>(a).value_or(d).v;
  }
  case ValueOrR: return static_cast<O const &>(a).value_or(Pay(20)).v;
  case ValueOrMove: return std::move(a).value_or(21).v;
  case ValueMove: {
    Pay p(std::move(a).value());
    return p.v;
  }
  case ResetIt: a.reset(); return 0;
  case NullIt: a = std::nullopt; return 0;
  case CmpEq: return a == b;
  case CmpLess: return a < b;
  case CmpVal: {
    Pay const p(1);
    return (a == p) + 2 * (p < b);
  }
  case TransThrow: {
    if constexpr (s) {
      auto r = transform<Pay>(a, [](auto &&) -> int {
        w.ev(Call, 0);
        throw Fault{};
      });
      return read(r);
    }
    else {
      auto r = a.transform([](auto &&) -> Pay {
        w.ev(Call, 0);
        throw Fault{};
      });
      return read(r);
    }
  }
  case TransP:
  case TransPNx: {
    if constexpr (s) {
      auto r = transform<Pay>(a, [](auto && p) -> int {
        w.ev(Call, p.v);
        w.point();
        return p.v + 30;
      });
      return read(r);
    }
    else {
      if (op == TransP) {
        auto r = a.transform([](auto && p) -> Pay {
          w.ev(Call, p.v);
          w.point();
          return p.v + 30;
        });
        return read(r);
      }
      auto r = std::move(a).transform([](Pay && p) -> Pay {
        w.ev(Call, p.v);
        w.point();
        return p.v + 30;
      });
      return read(r);
    }
  }
  case TransPRef: { // the callable returns a copy
    if constexpr (s) {
      std::optional<Pay> r;
      if (a.has_value()) {
        w.ev(Call, (*a).v);
        w.point();
        r.emplace(static_cast<Pay const &>(*a));
      }
      return read(r);
    }
    else {
      auto r = a.transform([](Pay & p) -> Pay {
        w.ev(Call, p.v);
        w.point();
        return static_cast<Pay const &>(p);
      });
      return read(r);
    }
  }
  case TransInt:
  case TransDouble:
  case TransStr: {
    auto f = [](auto && p) -> int {
      w.ev(Call, p.v);
      w.point();
      p.v += 1;
      w.point();
      return p.v;
    };
    if constexpr (s) {
      if (op == TransInt) {
        auto r = transform<int>(a, f);
        return r ? *r : -5;
      }
      if (op == TransDouble) {
        auto r = transform<double>(a, f);
        return r ? static_cast<int>(*r) : -5;
      }
      auto r = transform<std::string>(a, f);
      return r ? static_cast<int>(r->size()) : -5;
    }
    else {
      if (op == TransInt) {
        auto r = a.transform(f);
        return r ? *r : -5;
      }
      if (op == TransDouble) {
        auto r = a.transform([&](auto && p) -> double { return f(p); });
        return r ? static_cast<int>(*r) : -5;
      }
      auto r = a.transform([&](auto && p) -> std::string { return std::string(static_cast<size_t>(f(p) & 15), 'x'); });
      return r ? static_cast<int>(r->size()) : -5;
    }
  }
  case AndThen: {
    auto f = [](auto && p) {
      w.ev(Call, p.v);
      w.point();
      return O(std::in_place, p.v + 40);
    };
    if constexpr (s) {
      if (a.has_value()) {
        O r = f(*a);
        return read(r);
      }
      return INT_MIN;
    }
    else {
      O r = a.and_then(f);
      return read(r);
    }
  }
  case OrElseL:
  case OrElseR: {
    auto f = [] {
      w.ev(Call, 0);
      w.point();
      return O(std::in_place, 50);
    };
    if constexpr (s || __cplusplus < 202002L) { // or_else exists since C++20 only
      if (op == OrElseL) {
        O r = a.has_value() ? O(static_cast<O const &>(a)) : f();
        return read(r);
      }
      O r = a.has_value() ? O(std::move(a)) : f();
      return read(r);
    }
    else {
#if __cplusplus >= 202002L
      if (op == OrElseL) {
        O r = static_cast<O const &>(a).or_else(f);
        return read(r);
      }
      O r = std::move(a).or_else(f);
      return read(r);
#endif
    }
  }
  }
  return 0;
}

template <class O, class Pay>
Obs scenario(int op, int state, long countdown)
{
  Obs r;
  w.alive.clear();
  w.countdown = 0;
  {
    O a, b;
    if (state & 1) {
      a.emplace(1);
    }
    if (state & 2) {
      b.emplace(2);
    }
    w.log.clear();
    w.points = 0;
    w.countdown = countdown;
    try {
      r.res = perform<O, Pay>(op, a, b);
    }
    catch (Fault const &) {
      r.threw = true;
    }
    catch (...) {
      r.threw = true;
      r.res = -2000;
    }
    w.countdown = 0;
    r.points = w.points;
    r.log = w.log;
    r.alive = w.alive.size();
    r.a = read(a);
    r.b = read(b);
    // Further use.
    long h = 0;
    b = a;
    h = h * 31 + read(b);
    a.emplace(61);
    h = h * 31 + read(a);
    b.swap(a);
    h = h * 31 + read(a) + 7 * static_cast<long>(read(b));
    a.reset();
    h = h * 31 + read(a);
    b = std::move(a);
    h = h * 31 + read(b);
    a = Pay(62);
    h = h * 31 + read(a);
    r.after = static_cast<int>(h);
  }
  r.aliveEnd = w.alive.size();
  w.alive.clear();
  return r;
}

void show(char * buf, size_t n, Obs const & o)
{
  size_t pos = static_cast<size_t>(std::snprintf(buf, n, "%s result %d, a=%d b=%d, %zu alive, further use %d, events:", o.threw ? "threw" : "returned",
                                                 o.res, o.a, o.b, o.alive, o.after));
  for (auto const & e : o.log) {
    if (pos + 30 < n) {
      pos += static_cast<size_t>(std::snprintf(buf + pos, n - pos, " %s(%d)", evName[e.first], e.second));
    }
  }
}

template <int R, int F>
void flavour()
{
  using Pay = typename Flav<R, F>::Pay;
  using O = typename Flav<R, F>::O;
  using S = std::optional<Pay>;
  char name[200];
  for (int op = 0; op < OpCount; ++op) {
    for (int state = 0; state < 4; ++state) {
      for (long cd = 0; cd < 12; ++cd) {
        std::snprintf(name, sizeof name, "trait row %d flavour %d, %s, state a=%s b=%s, fault point %ld", R, F, opName[op],
                      state & 1 ? "engaged" : "empty", state & 2 ? "engaged" : "empty", cd);
        mon::context("c03", name);
        auto const f0 = mon::failures();
        Obs const s = scenario<S, Pay>(op, state, cd);
        Obs const t = scenario<O, Pay>(op, state, cd);
        mon::eval();
        bool const obs = s.threw == t.threw && s.res == t.res && s.a == t.a && s.b == t.b && s.after == t.after;
        bool const life = s.alive == t.alive && s.aliveEnd == t.aliveEnd && t.aliveEnd == 0;
        bool const ev = s.log == t.log;
        if (!obs || !life || !ev) {
          static char x[1500], y[1500];
          show(x, sizeof x, s);
          show(y, sizeof y, t);
          for (auto const & [ok, tag] : {std::pair(obs, "obs"), std::pair(life, "life"), std::pair(ev, "ev")}) {
            if (!ok) {
              mon::failt(tag, "std::optional: %s | tiny: %s", x, y);
            }
          }
        }
        if (mon::opt.log) {
          uint64_t h = mon::mix(static_cast<uint64_t>(t.threw), static_cast<uint64_t>(t.res));
          for (int x : {t.a, t.b, t.after, static_cast<int>(t.alive)}) {
            h = mon::mix(h, static_cast<uint64_t>(x));
          }
          std::printf("OBS traits-%d-%d %s/%d/%ld %016llx\n", R, F, opName[op], state, cd, static_cast<unsigned long long>(h));
        }
        mon::seen(mon::mix(mon::mix(mon::str_hash(name), static_cast<uint64_t>(s.a)), static_cast<uint64_t>(s.b)));
        mon::count(s.threw ? "faults_fired" : "scenarios_without_fault");
        mon::count("payload_events", t.log.size());
        if (!s.threw && cd > 0) {
          break;
        }
        if (op == TransThrow || mon::failures() != f0) {
          break;
        }
        if (!s.threw && s.points == 0) {
          break;
        }
      }
    }
  }
}

template <int F, int... R>
void rows(std::integer_sequence<int, R...>)
{
  (flavour<R, F>(), ...);
}
template <int First, int... R>
std::integer_sequence<int, (First + R)...> shift(std::integer_sequence<int, R...>);

SUITE(s, "traits")
{
  // PART = 4 * flavour + quarter of the array
  rows<PART / 4>(decltype(shift<6 * (PART % 4)>(std::make_integer_sequence<int, 6>()))());
  mon::count("trait_rows", 6);
  mon::sample("flavour %d: rows %d..%d of OA(24,12,2,3)", PART / 4, 6 * (PART % 4), 6 * (PART % 4) + 5);
}
} // namespace
