// C02: payloads of unusual shapes. After every step of a random history the tracked objects that are alive have to be exactly
// those inside the engaged optionals; constructions on top of living objects and destructions of dead ones are reported at once.
#include "mon.h"
#include <tiny/optional.h>
#include <array>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <new>
#include <optional>
#include <set>
#include <string>
#include <tuple>
#include <utility>
#include <variant>
#include <vector>

namespace
{
std::multiset<std::pair<void const *, int>> alive; // address and kind: an object and its first member share the address
void born(void const * p, int k)
{
  if (alive.count({p, k})) {
    mon::failt("life", "constructed on top of a living object");
  }
  alive.insert({p, k});
}
void dead(void const * p, int k)
{
  auto const it = alive.find({p, k});
  if (it == alive.end()) {
    mon::failt("life", "destroyed an object that is not alive");
  }
  else {
    alive.erase(it);
  }
}

// The tracked member
template <int K>
struct TrT
{
  int v = 1;
  TrT() { born(this, K); }
  TrT(int x) : v(x) { born(this, K); }
  TrT(TrT const & o) : v(o.v) { born(this, K); }
  TrT(TrT && o) noexcept : v(o.v) { born(this, K); }
  TrT & operator=(TrT const &) = default;
  ~TrT() { dead(this, K); }
  friend bool operator==(TrT const & a, TrT const & b) { return a.v == b.v; }
};
using Tr = TrT<0>;

struct Empty // no members at all
{
  Empty() { born(this, 1); }
  Empty(int) { born(this, 1); }
  Empty(Empty const &) { born(this, 1); }
  Empty & operator=(Empty const &) = default;
  ~Empty() { dead(this, 1); }
};
struct EmptyFinal final
{
  EmptyFinal(int) noexcept { born(this, 1); }
  EmptyFinal(EmptyFinal const &) noexcept { born(this, 1); }
  EmptyFinal & operator=(EmptyFinal const &) = default;
  ~EmptyFinal() { dead(this, 1); }
};
struct FromEmpty : Empty
{
  int flag = 0;
  using Empty::Empty;
};
struct Final final
{
  Tr t;
  int flag = 0;
  Final(int x) : t(x) { }
};
struct PolyBase
{
  virtual ~PolyBase() = default;
  virtual int id() const { return 1; }
};
struct Poly : PolyBase
{
  Tr t;
  int flag = 0;
  Poly(int x) : t(x) { }
  int id() const override { return 2; }
};
struct VirtualBase : virtual Tr
{
  int flag = 0;
  VirtualBase(int x) : Tr(x) { }
};
struct TwoBases : TrT<2>, TrT<3>
{
  int flag = 0;
  TwoBases(int x) : TrT<2>(x), TrT<3>(x) { }
};
struct Array
{
  Tr t[3];
  int flag = 0;
  Array(int x) : t{x, x, x} { }
};
struct Agg
{
  Tr t;
  int flag;
};
struct ThrowingDtor
{
  Tr t;
  int flag = 0;
  ThrowingDtor(int x) : t(x) { }
  ThrowingDtor(ThrowingDtor const &) = default;
  ThrowingDtor & operator=(ThrowingDtor const &) = default;
  ~ThrowingDtor() noexcept(false) { }
};
struct OnlyDtor // everything but the destructor is trivial; alive from construction with a value
{
  int flag = 0;
  OnlyDtor(int) noexcept { born(this, 4); }
  OnlyDtor(OnlyDtor const &) noexcept { born(this, 4); }
  OnlyDtor(OnlyDtor &&) noexcept { born(this, 4); }
  OnlyDtor & operator=(OnlyDtor const &) noexcept = default;
  OnlyDtor & operator=(OnlyDtor &&) noexcept = default;
  ~OnlyDtor() { dead(this, 4); }
};
struct Immovable
{
  Tr t;
  int flag = 0;
  Immovable(int x) : t(x) { }
  Immovable(Immovable &&) = delete;
};
struct MoveOnly
{
  Tr t;
  int flag = 0;
  MoveOnly(int x) : t(x) { }
  MoveOnly(MoveOnly &&) noexcept = default;
  MoveOnly & operator=(MoveOnly &&) noexcept = default;
};
struct CopyOnlyNoAssign
{
  Tr t;
  int flag = 0;
  CopyOnlyNoAssign(int x) : t(x) { }
  CopyOnlyNoAssign(CopyOnlyNoAssign const &) = default;
  CopyOnlyNoAssign & operator=(CopyOnlyNoAssign const &) = delete;
};
struct alignas(64) Aligned
{
  Tr t;
  int flag = 0;
  Aligned(int x) : t(x) { }
};
struct Large
{
  char pad[300] = {};
  Tr t;
  int flag = 0;
  Large(int x) : t(x) { }
};
struct Packed1 // one byte
{
  unsigned char flag = 0;
  Packed1(int) { born(this, 5); }
  Packed1(Packed1 const &) { born(this, 5); }
  Packed1 & operator=(Packed1 const &) = default;
  ~Packed1() { dead(this, 5); }
};
union Union
{
  int flag;
  char c[8];
  Union(int) : c{} { born(this, 6); }
  Union(Union const &) : c{} { born(this, 6); }
  Union & operator=(Union const &) noexcept { return *this; }
  ~Union() { dead(this, 6); }
};
struct OwnNew // class specific allocation functions
{
  Tr t;
  int flag = 0;
  OwnNew(int x) : t(x) { }
  static void * operator new(size_t) = delete;
  static void operator delete(void *) = delete;
};
struct Private
{
  int flag = 0;
  Private(int x) : t(x) { }

private:
  Tr t;
};
struct Closure
{
  Tr t;
  int operator()() const { return t.v; }
};

template <class P>
struct Make
{
  static P make(int x) { return P(x); }
};
template <>
struct Make<Agg>
{
  static Agg make(int x) { return Agg{x, x}; }
};
template <>
struct Make<std::array<Tr, 4>>
{
  static std::array<Tr, 4> make(int x) { return {x, x, x, x}; }
};
template <>
struct Make<std::pair<Tr, int>>
{
  static std::pair<Tr, int> make(int x) { return {x, x}; }
};
template <>
struct Make<std::tuple<Tr, TrT<2>>>
{
  static std::tuple<Tr, TrT<2>> make(int x) { return {x, x}; }
};
template <>
struct Make<std::variant<Tr, std::string>>
{
  static std::variant<Tr, std::string> make(int x) { return Tr(x); }
};
template <>
struct Make<std::vector<Tr>>
{
  static std::vector<Tr> make(int x) { return std::vector<Tr>(3, Tr(x)); }
};
template <>
struct Make<std::shared_ptr<Tr>>
{
  static std::shared_ptr<Tr> make(int x) { return std::make_shared<Tr>(x); }
};
template <>
struct Make<std::unique_ptr<Tr>>
{
  static std::unique_ptr<Tr> make(int x) { return std::make_unique<Tr>(x); }
};
template <>
struct Make<std::optional<Tr>>
{
  static std::optional<Tr> make(int x) { return Tr(x); }
};
template <>
struct Make<tiny::optional<Tr>>
{
  static tiny::optional<Tr> make(int x) { return Tr(x); }
};
template <>
struct Make<std::function<int()>>
{
  static std::function<int()> make(int x)
  {
    return [t = Tr(x)] { return t.v; };
  }
};

template <class P>
struct FlagManip
{
  static bool is_empty(P const & p) noexcept { return p.flag == 77; }
  static void init_empty_flag(P & p) noexcept
  {
    using F = std::remove_reference_t<decltype(p.flag)>;
    ::new (static_cast<void *>(std::addressof(p.flag))) F(77);
  }
  static void invalidate_empty_flag(P &) noexcept { }
};

// Runs the same history on tiny and on std::optional, with separate registers of living objects, and compares the numbers.
template <class O, class P>
struct World
{
  static constexpr int N = 3;
  std::vector<std::unique_ptr<O>> s;
  World()
  {
    for (int i = 0; i < N; ++i) {
      s.push_back(std::make_unique<O>());
    }
  }
  // Returns false if the operation does not exist for this payload.
  bool step(int op, int i, int j, int x)
  {
    O & a = *s[i];
    O & b = *s[j];
    constexpr bool cc = std::is_copy_constructible_v<P>, mc = std::is_move_constructible_v<P>, ca = cc && std::is_copy_assignable_v<P>,
                   ma = mc && std::is_move_assignable_v<P>;
    switch (op) {
    case 0: a.reset(); return true;
    case 1: a = std::nullopt; return true;
    case 2:
      if constexpr (std::is_constructible_v<P, int>) {
        a.emplace(x);
        return true;
      }
      break;
    case 3:
      if constexpr (mc) {
        a.emplace(Make<P>::make(x));
        return true;
      }
      break;
    case 4:
      if constexpr (ma) {
        a = Make<P>::make(x);
        return true;
      }
      break;
    case 5:
      if constexpr (ca) {
        P const p = Make<P>::make(x);
        a = p;
        return true;
      }
      break;
    case 6:
      if constexpr (ca) {
        a = static_cast<O const &>(b);
        return true;
      }
      break;
    case 7:
      if constexpr (ma) {
        if (i != j) {
          a = std::move(b);
        }
        return true;
      }
      break;
    case 8:
      if constexpr (mc && std::is_swappable_v<P>) {
        a.swap(b);
        return true;
      }
      break;
    case 9:
      if constexpr (cc) {
        s[i] = std::make_unique<O>(b);
        return true;
      }
      break;
    case 10:
      if constexpr (mc) {
        s[i] = std::make_unique<O>(std::move(b));
        return true;
      }
      break;
    case 11: s[i] = std::make_unique<O>(); return true;
    case 12:
      if constexpr (mc) {
        s[i] = std::make_unique<O>(Make<P>::make(x));
        return true;
      }
      break;
    case 13:
      if constexpr (std::is_constructible_v<P, int>) {
        s[i] = std::make_unique<O>(std::in_place, x);
        return true;
      }
      break;
    case 14:
      if constexpr (cc) {
        if (a.has_value()) {
          P p(a.value_or(Make<P>::make(x)));
          (void)p;
        }
        return true;
      }
      break;
    case 15:
      if constexpr (mc) {
        P p(std::move(a).value_or(Make<P>::make(x)));
        (void)p;
        return true;
      }
      break;
    case 16:
      if constexpr (mc && ma) {
        std::vector<O> v;
        for (int k = 0; k < 3; ++k) {
          v.emplace_back();
          if (x & (1 << k)) {
            if constexpr (std::is_constructible_v<P, int>) {
              v.back().emplace(x);
            }
          }
        }
        v.erase(v.begin());
        return true;
      }
      break;
    case 17:
      if constexpr (cc && ca) {
        std::map<int, O> m;
        m[1] = a;
        m[2];
        m[1] = m[2];
        m[2] = b;
        m.erase(1);
        return true;
      }
      break;
    case 18:
      if constexpr (ma) {
        a = {};
        return true;
      }
      break;
    case 19:
      if constexpr (std::is_assignable_v<O &, int>) {
        a = x;
        return true;
      }
      break;
    }
    return false;
  }
};


template <class O, class P>
void shape(const char * name)
{
  mon::context("shape", name);
  using S = std::optional<P>;
  auto const before = alive.size();
  long steps = 0;
  for (int h = 0; h < 40 * mon::opt.scale; ++h) {
    mon::Rng r(mon::mix(mon::mix(mon::opt.seed, mon::str_hash(name)), h));
    std::vector<std::array<int, 4>> script;
    for (int k = 0; k < 40; ++k) {
      script.push_back({int(r.below(20)), int(r.below(3)), int(r.below(3)), int(r.below(50))});
    }
    std::vector<std::pair<size_t, int>> want;
    {
      World<S, P> ws;
      for (auto const & c : script) {
        ws.step(c[0], c[1], c[2], c[3]);
        int e = 0;
        for (auto const & o : ws.s) {
          e = e * 2 + o->has_value();
        }
        want.emplace_back(alive.size() - before, e);
      }
    }
    if (alive.size() != before) {
      mon::failt("life", "%s: std::optional leaves %zu objects", name, alive.size() - before);
      return;
    }
    {
      World<O, P> wt;
      for (size_t k = 0; k < script.size(); ++k) {
        auto const & c = script[k];
        wt.step(c[0], c[1], c[2], c[3]);
        int e = 0;
        for (auto const & o : wt.s) {
          e = e * 2 + o->has_value();
        }
        mon::eval();
        mon::seen(mon::mix(mon::mix(mon::str_hash(name), unsigned(c[0] * 100 + c[1] * 10 + c[2])), unsigned(e)));
        ++steps;
        if (alive.size() - before != want[k].first || e != want[k].second) {
          mon::failt("life", "%s: after operation %d on slots %d and %d: %zu tracked objects alive (engaged %d), with std::optional %zu (engaged %d)",
                     name, c[0], c[1], c[2], alive.size() - before, e, want[k].first, want[k].second);
          break;
        }
      }
    }
    if (alive.size() != before) {
      mon::failt("life", "%s: %zu tracked objects outlive all optionals", name, alive.size() - before);
      alive.clear();
      return;
    }
  }
  mon::count("steps with payloads of unusual shape", steps);
  mon::count("payload shapes");
}
#define SH(P) shape<tiny::optional<P>, P>("optional<" #P ">")
#define SHF(P)                                                                                                         \
  SH(P);                                                                                                               \
  shape<tiny::optional<P, &P::flag, 77>, P>("optional<" #P ",&flag,77>");                                              \
  shape<tiny::optional_inplace<P, FlagManip<P>>, P>("optional_inplace<" #P ">")

SUITE(s_shapes, "shapes")
{
  SH(Tr);
  SH(Empty);
  SH(EmptyFinal);
  SH(TwoBases);
  SHF(FromEmpty);
  SHF(Final);
  SHF(Poly);
  SHF(VirtualBase);
  SHF(Array);
  SHF(Agg);
  SHF(OnlyDtor);
  SHF(Immovable);
  SHF(MoveOnly);
  SHF(CopyOnlyNoAssign);
  SHF(Aligned);
  SHF(Large);
  SHF(Packed1);
  SHF(OwnNew);
  SHF(Private);
  SH(Union);
  SH(ThrowingDtor);
}
#define COMMA ,
SUITE(s_libshapes, "library types")
{
  SH(std::array<Tr COMMA 4>);
  SH(std::pair<Tr COMMA int>);
  SH(std::tuple<Tr COMMA TrT<2>>);
  SH(std::variant<Tr COMMA std::string>);
  SH(std::vector<Tr>);
  SH(std::shared_ptr<Tr>);
  SH(std::unique_ptr<Tr>);
  SH(std::optional<Tr>);
  SH(tiny::optional<Tr>);
  SH(std::function<int()>);
}
} // namespace
