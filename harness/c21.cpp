// C21: payloads with hostile but legal interfaces. The same battery of operations runs on the optionals of the library and on
// std::optional; the text of all observations (states, values, calls of hostile overloads) must be the same.
#include "mon.h"
#include "payloads.h"
#include <tiny/optional.h>

#include <algorithm>
#include <any>
#include <functional>
#include <list>
#include <memory>
#include <optional>
#include <string>
#include <type_traits>
#include <unordered_set>
#include <vector>

#ifndef HNX
  #define HNX 0 // whether the constructors of the payloads are noexcept
#endif

namespace hs
{
inline std::string * out = nullptr;
inline long hits = 0;
inline void hit(const char * what)
{
  ++hits;
  if (out) {
    *out += std::string("<") + what + ">";
  }
}
struct Seed
{
  int n;
};
struct Plain // some other type
{
  int n = 0;
};
} // namespace hs
using hs::hit;
using hs::Plain;
using hs::Seed;

namespace
{
template <class P, class = void>
struct reader
{
  static int get(P const & p) { return p.flag; }
};
template <class P>
int rd(P const & p)
{
  return reader<P>::get(p);
}

// --------------------------------------------------------------------------------------------------------- payloads
struct Amp // operator& gives nonsense
{
  int flag;
  explicit Amp(Seed s) noexcept(HNX) : flag(s.n) { }
  Plain operator&() const
  {
    hit("operator&");
    return Plain{};
  }
  friend bool operator==(Amp const & a, Amp const & b) { return a.flag == b.flag; }
  friend bool operator<(Amp const & a, Amp const & b) { return a.flag < b.flag; }
};
struct AmpDel // operator& deleted
{
  int flag;
  explicit AmpDel(Seed s) noexcept(HNX) : flag(s.n) { }
  void operator&() const = delete;
  friend bool operator==(AmpDel const & a, AmpDel const & b) { return a.flag == b.flag; }
};
struct AmpPtr // operator& gives another address of the right type
{
  int flag;
  explicit AmpPtr(Seed s) noexcept(HNX) : flag(s.n) { }
  AmpPtr * operator&()
  {
    hit("operator&");
    return nullptr;
  }
  AmpPtr const * operator&() const
  {
    hit("operator& const");
    return nullptr;
  }
};
struct AmpFree // operator& as a free function
{
  int flag;
  explicit AmpFree(Seed s) noexcept(HNX) : flag(s.n) { }
};
[[maybe_unused]] int operator&(AmpFree const &)
{
  hit("free operator&");
  return 0;
}
struct Comma
{
  int flag;
  explicit Comma(Seed s) noexcept(HNX) : flag(s.n) { }
  template <class T>
  Plain operator,(T &&) const
  {
    hit("operator, right");
    return Plain{};
  }
  template <class T>
  friend Plain operator,(T &&, Comma const &)
  {
    hit("operator, left");
    return Plain{};
  }
};
template <class T>
struct CommaDel0
{
  int flag;
  explicit CommaDel0(Seed s) noexcept(HNX) : flag(s.n) { }
  template <class U>
  void operator,(U &&) const = delete;
};
using CommaDel = CommaDel0<int>;
struct NewLog // class specific operator new and delete; placement new leads elsewhere
{
  int flag;
  explicit NewLog(Seed s) noexcept(HNX) : flag(s.n) { }
  static void * operator new(std::size_t n)
  {
    hit("class operator new");
    return ::operator new(n);
  }
  static void * operator new(std::size_t, void *)
  {
    hit("class placement new");
    alignas(16) static unsigned char elsewhere[256];
    return elsewhere;
  }
  static void operator delete(void * p)
  {
    hit("class operator delete");
    ::operator delete(p);
  }
  static void operator delete(void *, void *) { hit("class placement delete"); }
};
struct NewDel // nothing of that available
{
  int flag;
  explicit NewDel(Seed s) noexcept(HNX) : flag(s.n) { }
  static void * operator new(std::size_t) = delete;
  static void * operator new(std::size_t, void *) = delete;
  static void operator delete(void *) = delete;
};
struct NewHidden // only another form, hides the global ones
{
  int flag;
  explicit NewHidden(Seed s) noexcept(HNX) : flag(s.n) { }
  static void * operator new(std::size_t, int, int, int);
};
struct Greedy // constructible and assignable from anything
{
  int flag = 1;
  Greedy() = default;
  Greedy(Greedy const &) = default;
  Greedy(Greedy &&) = default;
  Greedy & operator=(Greedy const &) = default;
  Greedy & operator=(Greedy &&) = default;
  explicit Greedy(Seed s) noexcept(HNX) : flag(s.n) { }
  template <
      class T,
      std::enable_if_t<!std::is_same_v<std::decay_t<T>, Greedy> && !std::is_same_v<std::decay_t<T>, Seed>, int> = 0>
  Greedy(T &&) : flag(2)
  {
    hit(std::is_lvalue_reference_v<T> ? "greedy constructor, lvalue" : "greedy constructor, rvalue");
  }
  template <class T, std::enable_if_t<!std::is_same_v<std::decay_t<T>, Greedy>, int> = 0>
  Greedy & operator=(T &&)
  {
    flag = 3;
    hit("greedy assignment");
    return *this;
  }
};
struct GreedyAll // not even the own type is left out
{
  int flag = 1;
  GreedyAll() = default;
  GreedyAll(GreedyAll const & o) : flag(o.flag) { hit("copy"); }
  GreedyAll(GreedyAll && o) : flag(o.flag) { hit("move"); }
  GreedyAll & operator=(GreedyAll const &) = default;
  explicit GreedyAll(Seed s) noexcept(HNX) : flag(s.n) { }
  template <class T, class... R>
  explicit GreedyAll(T && t, R &&... r)
  {
    hit("greedy variadic constructor");
    if constexpr (std::is_same_v<std::decay_t<T>, GreedyAll>) {
      flag = t.flag;
    }
    (void)t;
    flag += static_cast<int>(sizeof...(r)) * 1000;
  }
};
struct ExplicitCopy
{
  int flag;
  explicit ExplicitCopy(Seed s) noexcept(HNX) : flag(s.n) { }
  explicit ExplicitCopy(ExplicitCopy const & o) : flag(o.flag) { hit("explicit copy"); }
  explicit ExplicitCopy(ExplicitCopy && o) : flag(o.flag) { hit("explicit move"); }
  ExplicitCopy & operator=(ExplicitCopy const &) = default;
};
struct NoAssign
{
  int const flag;
  explicit NoAssign(Seed s) noexcept(HNX) : flag(s.n) { }
};
struct RefMember
{
  int flag;
  int & ref;
  static inline int target = 5;
  explicit RefMember(Seed s) noexcept(HNX) : flag(s.n), ref(target) { }
};
struct Immovable
{
  int flag;
  Immovable * self;
  explicit Immovable(Seed s) noexcept(HNX) : flag(s.n), self(this) { }
  Immovable(Immovable const &) = delete;
  Immovable & operator=(Immovable const &) = delete;
};
struct MoveOnly
{
  int flag;
  std::unique_ptr<int> p;
  explicit MoveOnly(Seed s) noexcept(HNX) : flag(s.n), p(new int(s.n)) { }
};
struct CopyFromNonConst // copy constructor takes a non-const reference
{
  int flag;
  explicit CopyFromNonConst(Seed s) noexcept(HNX) : flag(s.n) { }
  CopyFromNonConst(CopyFromNonConst & o) : flag(o.flag) { hit("copy from non-const"); }
  CopyFromNonConst(CopyFromNonConst && o) : flag(o.flag) { hit("move"); }
  CopyFromNonConst & operator=(CopyFromNonConst &&) = default;
};
struct alignas(128) Over
{
  char c = 'x';
  int flag;
  explicit Over(Seed s) noexcept(HNX) : flag(s.n)
  {
    if (reinterpret_cast<uintptr_t>(this) % 128 != 0) {
      hit("misaligned");
    }
  }
  Over(Over const & o) : flag(o.flag)
  {
    if (reinterpret_cast<uintptr_t>(this) % 128 != 0) {
      hit("misaligned");
    }
  }
  Over & operator=(Over const &) = default;
};
struct VBase
{
  int vb = 77;
  virtual ~VBase() = default;
  virtual int id() const { return 1; }
};
struct Poly : virtual VBase
{
  int flag;
  explicit Poly(Seed s) noexcept(HNX) : flag(s.n) { }
  int id() const override { return 2 + vb; }
};
struct Abstract
{
  virtual ~Abstract() = default;
  virtual int id() const = 0;
};
struct Other
{
  long pad = 3;
  virtual void f() { }
};
struct Multi final : Other, Abstract
{
  int flag;
  explicit Multi(Seed s) noexcept(HNX) : flag(s.n) { }
  int id() const override { return 9; }
  Multi & operator=(Multi const & o)
  {
    flag = o.flag;
    return *this;
  }
  Multi(Multi const & o) : Other(o), Abstract(o), flag(o.flag) { hit("copy"); }
};
struct SwapAdl
{
  int flag;
  explicit SwapAdl(Seed s) noexcept(HNX) : flag(s.n) { }
  friend void swap(SwapAdl & a, SwapAdl & b)
  {
    hit("adl swap");
    int t = a.flag;
    a.flag = b.flag;
    b.flag = t;
  }
};
struct SwapMember // a member of that name must not be called
{
  int flag;
  explicit SwapMember(Seed s) noexcept(HNX) : flag(s.n) { }
  void swap(SwapMember &) { hit("member swap"); }
};
struct SwapGreedy
{
  int flag;
  explicit SwapGreedy(Seed s) noexcept(HNX) : flag(s.n) { }
};
template <class T>
void swap(SwapGreedy & a, T & b)
{
  hit("greedy adl swap");
  if constexpr (std::is_same_v<T, SwapGreedy>) {
    int t = a.flag;
    a.flag = b.flag;
    b.flag = t;
  }
}
struct ToAnything // converts to everything
{
  int flag;
  explicit ToAnything(Seed s) noexcept(HNX) : flag(s.n) { }
  template <
      class T,
      std::enable_if_t<!std::is_same_v<T, ToAnything> && std::is_arithmetic_v<T>, int> = 0>
  operator T() const
  {
    hit("conversion");
    return T(1);
  }
};
struct ToBool // implicit conversion to bool, hostile !
{
  int flag;
  explicit ToBool(Seed s) noexcept(HNX) : flag(s.n) { }
  operator bool() const
  {
    hit("operator bool");
    return false;
  }
  bool operator!() const
  {
    hit("operator!");
    return true;
  }
  friend bool operator==(ToBool const & a, ToBool const & b) { return a.flag == b.flag; }
};
struct Pointerish // has the interface of an optional itself
{
  int flag;
  explicit Pointerish(Seed s) noexcept(HNX) : flag(s.n) { }
  int operator*() const
  {
    hit("operator*");
    return 0;
  }
  Pointerish const * operator->() const
  {
    hit("operator->");
    return this;
  }
  explicit operator bool() const
  {
    hit("operator bool");
    return false;
  }
  bool has_value() const
  {
    hit("has_value");
    return false;
  }
  void reset() { hit("reset"); }
  int value() const
  {
    hit("value");
    return -1;
  }
  struct value_type
  {
  };
  template <class T>
  void emplace(T)
  {
    hit("emplace");
  }
};
struct FromNullopt // can be made from nullopt and in_place
{
  int flag;
  explicit FromNullopt(Seed s) noexcept(HNX) : flag(s.n) { }
  FromNullopt(std::nullopt_t) : flag(500) { hit("from nullopt"); }
  FromNullopt(std::in_place_t) : flag(501) { hit("from in_place"); }
  FromNullopt & operator=(std::nullopt_t)
  {
    hit("assign nullopt");
    return *this;
  }
};
struct Proxy
{
  bool b;
  operator bool() const { return b; }
  bool operator!() const
  {
    hit("proxy !");
    return !b;
  }
};
struct ProxyCmp // comparisons give a proxy, and only some exist
{
  int flag;
  explicit ProxyCmp(Seed s) noexcept(HNX) : flag(s.n) { }
  friend Proxy operator==(ProxyCmp const & a, ProxyCmp const & b) { return Proxy{a.flag == b.flag}; }
  friend Proxy operator!=(ProxyCmp const & a, ProxyCmp const & b) { return Proxy{a.flag != b.flag}; }
  friend Proxy operator<(ProxyCmp const & a, ProxyCmp const & b) { return Proxy{a.flag < b.flag}; }
};
struct GreedyCmp // compares with everything
{
  int flag;
  explicit GreedyCmp(Seed s) noexcept(HNX) : flag(s.n) { }
};
template <class T>
bool operator==(GreedyCmp const & a, T const & b)
{
  if constexpr (std::is_same_v<T, GreedyCmp>) {
    return a.flag == b.flag;
  }
  else {
    hit("greedy ==");
    (void)a;
    (void)b;
    return true;
  }
}
template <class T>
bool operator<(GreedyCmp const & a, T const & b)
{
  if constexpr (std::is_same_v<T, GreedyCmp>) {
    return a.flag < b.flag;
  }
  else {
    hit("greedy <");
    (void)a;
    (void)b;
    return true;
  }
}
struct RefQual // assignment only to lvalues, hostile rvalue version
{
  int flag;
  explicit RefQual(Seed s) noexcept(HNX) : flag(s.n) { }
  RefQual(RefQual const &) = default;
  RefQual & operator=(RefQual const & o) &
  {
    flag = o.flag;
    return *this;
  }
  RefQual & operator=(RefQual const & o) && = delete;
};
struct VoidAssign // assignment gives something else
{
  int flag;
  explicit VoidAssign(Seed s) noexcept(HNX) : flag(s.n) { }
  VoidAssign(VoidAssign const &) = default;
  void operator=(VoidAssign const & o) { flag = o.flag; }
};
struct Union
{
  int flag;
  union
  {
    double d;
    long l;
  };
  explicit Union(Seed s) noexcept(HNX) : flag(s.n), l(s.n) { }
};
struct BitField
{
  int flag;
  unsigned a : 3;
  unsigned b : 29;
  explicit BitField(Seed s) noexcept(HNX) : flag(s.n), a(5), b(static_cast<unsigned>(s.n) * 1000u) { }
};
struct MutableArr
{
  mutable int arr[5] = {1, 2, 3, 4, 5};
  int flag;
  explicit MutableArr(Seed s) noexcept(HNX) : flag(s.n) { arr[2] = s.n; }
};
struct Recursive // refers to its own optional
{
  int flag;
  std::shared_ptr<tiny::optional<int>> next;
  std::vector<Recursive> children;
  explicit Recursive(Seed s) noexcept(HNX) : flag(s.n) { }
};
struct SelfPtr // notices being moved bytewise
{
  int flag;
  SelfPtr const * self;
  explicit SelfPtr(Seed s) noexcept(HNX) : flag(s.n), self(this) { }
  SelfPtr(SelfPtr const & o) : flag(o.flag), self(this) { o.check(); }
  SelfPtr & operator=(SelfPtr const & o)
  {
    check();
    o.check();
    flag = o.flag;
    return *this;
  }
  ~SelfPtr() { check(); }
  void check() const
  {
    if (self != this) {
      hit("not at its own address");
    }
  }
};
struct PrivateDefault
{
  int flag;
  explicit PrivateDefault(Seed s) noexcept(HNX) : flag(s.n) { }

private:
  PrivateDefault() : flag(-5) { hit("private default constructor"); }
  friend struct Nobody;
};
struct DelCmp
{
  int flag;
  explicit DelCmp(Seed s) noexcept(HNX) : flag(s.n) { }
  bool operator==(DelCmp const &) const = delete;
  bool operator<(DelCmp const &) const = delete;
};
struct IlGreedy // list constructor that would win with braces
{
  int flag;
  explicit IlGreedy(Seed s) noexcept(HNX) : flag(s.n) { }
  IlGreedy(IlGreedy const & o) : flag(o.flag) { hit("copy"); }
  IlGreedy & operator=(IlGreedy const &) = default;
  IlGreedy(std::initializer_list<std::any>) : flag(900) { hit("list constructor"); }
};
struct AsgRet // hostile overloads that only an unusual cast reaches
{
  int flag;
  explicit AsgRet(Seed s) noexcept(HNX) : flag(s.n) { }
  operator void *() const
  {
    hit("conversion to void*");
    return nullptr;
  }
  operator char *() const
  {
    hit("conversion to char*");
    return nullptr;
  }
};
struct NoexceptLiar // moves are noexcept(false) but trivial in effect, destructor user-provided
{
  int flag;
  explicit NoexceptLiar(Seed s) noexcept(HNX) : flag(s.n) { }
  NoexceptLiar(NoexceptLiar && o) noexcept(false) : flag(o.flag) { hit("move"); }
  NoexceptLiar(NoexceptLiar const & o) noexcept(true) : flag(o.flag) { hit("copy"); }
  NoexceptLiar & operator=(NoexceptLiar && o) noexcept(false)
  {
    flag = o.flag;
    hit("move-assign");
    return *this;
  }
  NoexceptLiar & operator=(NoexceptLiar const & o) noexcept
  {
    flag = o.flag;
    hit("copy-assign");
    return *this;
  }
  ~NoexceptLiar() { hit("dtor"); }
};

// ---------------------------------------------------------------------------------------------------------- battery
template <class P, class = void>
struct has_eq : std::false_type
{
};
template <class P>
struct has_eq<P, std::void_t<decltype(static_cast<bool>(std::declval<P const &>() == std::declval<P const &>()))>> : std::true_type
{
};
template <class P, class = void>
struct has_lt : std::false_type
{
};
template <class P>
struct has_lt<P, std::void_t<decltype(static_cast<bool>(std::declval<P const &>() < std::declval<P const &>()))>> : std::true_type
{
};

template <class P>
P * raw(void * mem, int n) // a payload, without using anything of the class but the constructor
{
  return ::new (mem) P(Seed{n});
}

template <class X, class P>
struct Battery
{
  std::string text;
  using S = std::optional<P>;

  void st(X const & x, const char * what)
  {
    hs::out = nullptr;
    text += what;
    if (x.has_value() != static_cast<bool>(x)) {
      text += " contradiction";
    }
    if (x.has_value()) {
      text += " =" + std::to_string(rd(*x)) + (rd(*x.operator->()) == rd(x.value()) ? "" : " differs");
    }
    else {
      text += " empty";
    }
    text += "; ";
    hs::out = &text;
  }

  static X make(int n) // n < 0: empty
  {
    return n < 0 ? X() : X(std::in_place, Seed{n});
  }

  // The payload as result of monadic operations: built directly, no other function of the class is involved.
  template <bool NX>
  void results(int l)
  {
    tiny::optional<int> t;
    if (l >= 0) {
      t = l;
    }
    auto const make_p = [](int n) noexcept(NX) { return P(Seed{n + 1}); };
    long const h0 = hs::hits;
    long direct = 0; // calls for the construction alone
    {
      alignas(P) unsigned char mem[sizeof(P)];
      P * p = ::new (static_cast<void *>(mem)) P(make_p(std::max(l, 0)));
      direct = l >= 0 ? hs::hits - h0 : 0;
      p->~P();
    }
    auto judge = [&](auto const & r, const char * what, long before, long expected) {
      if (r.has_value() != (l >= 0)) {
        text += std::string(what) + " has another state ";
      }
      else if (l >= 0 && rd(*r) != l + 1) {
        text += std::string(what) + " has another value ";
      }
      if (hs::hits - before != expected) {
        text += std::string(what) + " called functions of the class ";
      }
      mon::eval();
    };
    long before = hs::hits;
    {
      auto && r = t.transform(make_p);
      static_assert(std::is_same_v<decltype(r), tiny::optional<P> &&>, "");
      judge(r, "transform", before, direct);
    }
    before = hs::hits;
    {
      auto && r = std::as_const(t).transform(make_p);
      judge(r, "const transform", before, direct);
    }
    before = hs::hits;
    {
      auto && r = std::move(t).transform(make_p);
      judge(r, "transform &&", before, direct);
    }
    before = hs::hits;
    {
      auto && r = std::move(std::as_const(t)).transform(make_p);
      judge(r, "transform const &&", before, direct);
    }
    auto const make_x = [](int n) noexcept(NX) { return X(std::in_place, Seed{n + 1}); };
    before = hs::hits;
    long directX = 0;
    if (l >= 0) {
      X x = make_x(l);
      directX = hs::hits - before;
    }
    before = hs::hits;
    {
      auto && r = t.and_then(make_x);
      static_assert(std::is_same_v<decltype(r), X &&>, "");
      judge(r, "and_then", before, directX);
    }
    before = hs::hits;
    {
      auto && r = std::as_const(t).and_then(make_x);
      judge(r, "const and_then", before, directX);
    }
    before = hs::hits;
    {
      auto && r = std::move(t).and_then(make_x);
      judge(r, "and_then &&", before, directX);
    }
    mon::count("monadic results built", l >= 0 ? 7 : 0);
#ifdef TINY_OPTIONAL_ENABLE_ORELSE
    if constexpr (std::copy_constructible<P> && !std::is_same_v<P, GreedyAll>) {
      X x = make(l < 0 ? -1 : l + 1);
      before = hs::hits;
      long copying = 0;
      if (l >= 0) {
        X y(std::as_const(x));
        copying = hs::hits - before;
      }
      else {
        X y = make_x(6);
        copying = hs::hits - before;
      }
      before = hs::hits;
      auto && r = std::as_const(x).or_else([&]() noexcept(NX) { return make_x(6); });
      static_assert(std::is_same_v<decltype(r), X &&>, "");
      if (!r.has_value() || rd(*r) != (l >= 0 ? l + 1 : 7)) {
        text += "or_else gave another result ";
      }
      if (hs::hits - before > copying) {
        text += "or_else called functions of the class ";
      }
      mon::eval();
    }
#endif
  }

  void run()
  {
    hs::out = &text;
    {
      X a;
      st(a, "default");
      a.emplace(Seed{3});
      st(a, "emplace");
      a.emplace(Seed{4});
      st(a, "emplace again");
      a.reset();
      st(a, "reset");
      a.reset();
      a = std::nullopt;
      st(a, "nullopt");
      X b(std::in_place, Seed{5});
      st(b, "in_place");
      X c(std::nullopt), d{}, e{std::nullopt};
      st(c, "nullopt");
      st(d, "{}");
      st(e, "{nullopt}");
      b = std::nullopt;
      st(b, "= nullopt");
      if constexpr (std::is_constructible_v<S, Seed>) {
        X f(Seed{6});
        st(f, "from seed");
      }
    }
    // special members for all states
    for (int l = -1; l < 9; l += 8) {
      for (int r = -1; r < 12; r += 11) {
        text += "(" + std::to_string(l) + "," + std::to_string(r) + ") ";
        if constexpr (std::is_copy_constructible_v<S>) {
          X const s = make(r);
          X t(s);
          st(s, "copied from");
          st(t, "copy");
          X u{s};
          st(u, "copy with braces");
          if constexpr (std::is_convertible_v<S const &, S>) {
            X v = s;
            st(v, "copy =");
          }
        }
        if constexpr (std::is_constructible_v<S, S &>) {
          X s = make(r);
          X t(s);
          st(t, "copy of non-const");
        }
        if constexpr (std::is_constructible_v<S, S const>) {
          X const s = make(r);
          X t(std::move(s));
          st(t, "copy of const rvalue");
        }
        if constexpr (std::is_move_constructible_v<S>) {
          X s = make(r);
          X t(std::move(s));
          st(s, "moved from");
          st(t, "moved to");
        }
        if constexpr (std::is_copy_assignable_v<S>) {
          X const s = make(r);
          X t = make(l);
          t = s;
          st(t, "copy assignment");
          X & self = t;
          t = self;
          st(t, "self assignment");
          X q = make(r);
          t = q;
          st(t, "copy assignment of non-const");
        }
        if constexpr (std::is_move_assignable_v<S>) {
          X s = make(r);
          X t = make(l);
          t = std::move(s);
          st(s, "move assigned from");
          st(t, "move assigned to");
          t = {};
          st(t, "= {}");
        }
        if constexpr (std::is_swappable_v<P> && std::is_move_constructible_v<P> && std::is_convertible_v<P, P>) {
          X s = make(r);
          X t = make(l);
          s.swap(t);
          st(s, "swap");
          st(t, "swap");
          using std::swap;
          swap(s, t);
          st(s, "free swap");
          st(t, "free swap");
          s.swap(s);
          st(s, "self swap");
        }
        if constexpr (has_eq<P>::value) {
          X const a = make(l), b = make(r);
          text += (a == b) ? "==" : "not ==";
          text += (a == std::nullopt) ? "==" : "not ==";
          if constexpr (!std::is_same_v<P, GreedyCmp>) { // libstdc++ compares the payload with nullopt
            text += (std::nullopt != b) ? "!=" : "not !=";
          }
          alignas(P) unsigned char mem[sizeof(P)];
          P * p = raw<P>(mem, r < 0 ? 7 : r);
          if constexpr (!std::is_same_v<P, GreedyCmp>) { // ambiguous for std::optional, too
            text += (a == *p) ? "==" : "not ==";
            text += (*p == a) ? "==" : "not ==";
          }
          p->~P();
        }
        if constexpr (has_lt<P>::value) {
          X const a = make(l), b = make(r);
          text += (a < b) ? "<" : "not <";
          text += (a < std::nullopt) ? "<" : "not <";
          text += (std::nullopt < b) ? "<" : "not <";
          alignas(P) unsigned char mem[sizeof(P)];
          P * p = raw<P>(mem, r < 0 ? 7 : r);
          if constexpr (!std::is_same_v<P, GreedyCmp>) {
            text += (a < *p) ? "<" : "not <";
            text += (*p < b) ? "<" : "not <";
          }
          p->~P();
        }
      }
      // payload lvalues and rvalues as argument
      alignas(P) unsigned char mem[sizeof(P)];
      P * p = raw<P>(mem, 20);
      if constexpr (std::is_constructible_v<S, P const &>) {
        X t(static_cast<P const &>(*p));
        st(t, "from const payload");
      }
      if constexpr (std::is_constructible_v<S, P &>) {
        X t(*p);
        st(t, "from payload");
      }
      if constexpr (std::is_constructible_v<S, P>) {
        X t(std::move(*p));
        st(t, "from payload rvalue");
      }
      if constexpr (std::is_assignable_v<S &, P const &>) {
        X t = make(l);
        t = static_cast<P const &>(*p);
        st(t, "= const payload");
      }
      if constexpr (std::is_assignable_v<S &, P>) {
        X t = make(l);
        t = std::move(*p);
        st(t, "= payload rvalue");
      }
      if constexpr (std::is_constructible_v<P, P const &>) {
        X t = make(l);
        t.emplace(static_cast<P const &>(*p));
        st(t, "emplace(payload)");
        X u(std::in_place, static_cast<P const &>(*p));
        st(u, "in_place(payload)");
      }
      if constexpr (std::is_copy_constructible_v<P> && std::is_convertible_v<P const &, P>) {
        X const t = make(l);
        auto && got = t.value_or(static_cast<P const &>(*p));
        text += "value_or " + std::to_string(rd(got)) + " ";
      }
      if constexpr (std::is_move_constructible_v<P> && std::is_convertible_v<P, P>) {
        X t = make(l);
        auto && got = std::move(t).value_or(std::move(*p));
        text += "value_or && " + std::to_string(rd(got)) + " ";
      }
      p->~P();
      {
        X t = make(l);
        try {
          P & v = t.value();
          text += "value " + std::to_string(rd(v));
          P const & w = std::as_const(t).value();
          text += std::addressof(v) == std::addressof(w) && std::addressof(*t) == std::addressof(v) && t.operator->() == std::addressof(v)
                      ? " same"
                      : " different objects";
          text += t->flag == rd(v) ? " " : " -> differs ";
        }
        catch (std::bad_optional_access const &) {
          text += "bad access ";
        }
      }
      // monadic operations are not part of std::optional before C++23
      {
        X t = make(l);
        hs::out = nullptr;
        int calls = 0;
        if constexpr (!std::is_same_v<X, S>) {
          auto const before = hs::hits;
          auto r = t.transform([&](P & v) {
            ++calls;
            return rd(v) + 1;
          });
          auto r2 = std::as_const(t).and_then([&](P const & v) { return tiny::optional<int>(rd(v) + 2); });
          if (r.has_value() != (l >= 0) || (l >= 0 && (*r != l + 1 || *r2 != l + 2)) || calls != (l >= 0 ? 1 : 0) || hs::hits != before) {
            text += " monadic operation went wrong";
          }
        }
        if constexpr (!std::is_same_v<X, S>) {
          results<false>(l);
          results<true>(l);
        }
        hs::out = &text;
      }
    }
    if constexpr (std::is_move_constructible_v<S>) { // containers
      std::vector<X> v;
      for (int i = 0; i < 9; ++i) {
        v.push_back(make(i % 3 == 2 ? -1 : i));
      }
      for (auto const & x : v) {
        st(x, "in vector");
      }
      if constexpr (std::is_move_assignable_v<S>) {
        v.erase(v.begin());
        v.insert(v.begin() + 2, make(50));
        for (auto const & x : v) {
          st(x, "in vector");
        }
      }
    }
    {
      std::list<X> l;
      l.emplace_back(std::in_place, Seed{8});
      l.emplace_back();
      l.emplace_back(std::nullopt);
      for (auto const & x : l) {
        st(x, "in list");
      }
      auto u = std::make_unique<X>(std::in_place, Seed{9});
      st(*u, "on the heap");
      X * arr = new X[2];
      arr[1].emplace(Seed{10});
      st(arr[0], "array");
      st(arr[1], "array");
      delete[] arr;
    }
    hs::out = nullptr;
  }
};

template <class P>
struct Manip
{
  static bool is_empty(P const & p) noexcept { return p.flag == -77; }
  static void init_empty_flag(P & p) noexcept { ::new (const_cast<void *>(static_cast<void const *>(std::addressof(p.flag)))) int(-77); }
  static void invalidate_empty_flag(P &) noexcept { }
};
struct SentM8
{
  static constexpr int value = -8;
};

template <class X, class P>
void compare(const char * name, const char * flavour, std::string const & ref)
{
  mon::context(name, flavour);
  Battery<X, P> b;
  b.run();
  uint64_t h = mon::mix(mon::str_hash(name), mon::str_hash(flavour));
  for (char c : b.text) {
    h = mon::mix(h, static_cast<unsigned char>(c));
    if (c == ';') { // one observation, in the context of all before
      mon::eval();
      mon::seen(h);
    }
  }
  mon::count("observations compared", static_cast<uint64_t>(std::count(b.text.begin(), b.text.end(), ';')));
  if (b.text != ref) {
    size_t i = 0;
    while (i < ref.size() && i < b.text.size() && ref[i] == b.text[i]) {
      ++i;
    }
    size_t const from = i > 60 ? i - 60 : 0;
    mon::fail("payload %s in %s: observed '...%s', std::optional '...%s'", name, flavour, b.text.substr(from, 140).c_str(),
              ref.substr(from, 140).c_str());
  }
}

template <class P>
void hostile(const char * name)
{
  Battery<std::optional<P>, P> r;
  r.run();
  long const before = hs::hits;
  compare<tiny::optional<P>, P>(name, "optional<P>", r.text);
  if constexpr (!std::is_const_v<decltype(P::flag)>) {
    compare<tiny::optional<P, &P::flag, -1>, P>(name, "optional<P,&flag,-1>", r.text);
    compare<tiny::optional_sentinel_via_type<P, SentM8, &P::flag>, P>(name, "optional_sentinel_via_type<P,-8,&flag>", r.text);
  }
  compare<tiny::optional_inplace<P, Manip<P>>, P>(name, "optional_inplace<P,Manip>", r.text);
  mon::count("hostile overloads called by all", static_cast<uint64_t>(hs::hits - before));
  mon::sample("%s: battery of %zu characters of observations, equal in 4 flavours", name, r.text.size());
}
#define HOSTILE(T) \
  SUITE(MON_CAT(h_, T), "hostile/" #T) { hostile<T>(#T); }

#if PART == 0
HOSTILE(Amp)
HOSTILE(AmpDel)
HOSTILE(AmpPtr)
HOSTILE(AmpFree)
HOSTILE(Comma)
#elif PART == 1
HOSTILE(CommaDel)
HOSTILE(NewLog)
HOSTILE(NewDel)
HOSTILE(NewHidden)
HOSTILE(Greedy)
#elif PART == 2
HOSTILE(GreedyAll)
HOSTILE(ExplicitCopy)
HOSTILE(NoAssign)
HOSTILE(RefMember)
HOSTILE(Immovable)
HOSTILE(MoveOnly)
#elif PART == 3
#if !(defined(__clang__) && __cplusplus < 202002L) // std::optional does not compile with it
HOSTILE(CopyFromNonConst)
#endif
HOSTILE(Over)
HOSTILE(Poly)
HOSTILE(Multi)
HOSTILE(SwapAdl)
#elif PART == 4
HOSTILE(SwapMember)
HOSTILE(SwapGreedy)
HOSTILE(ToAnything)
HOSTILE(ToBool)
HOSTILE(Pointerish)
#elif PART == 5
HOSTILE(FromNullopt)
HOSTILE(ProxyCmp)
HOSTILE(GreedyCmp)
HOSTILE(RefQual)
HOSTILE(VoidAssign)
#elif PART == 6
HOSTILE(Union)
HOSTILE(BitField)
HOSTILE(MutableArr)
HOSTILE(Recursive)
HOSTILE(SelfPtr)
#elif PART == 7
HOSTILE(PrivateDefault)
HOSTILE(DelCmp)
HOSTILE(IlGreedy)
HOSTILE(AsgRet)
HOSTILE(NoexceptLiar)
#elif PART == 8
// ------------------------------------------------------------------------------------------------ hostile flag types
struct HTicks // as payload, as sentinel and as member that stores the empty state
{
  long n;
  constexpr explicit HTicks(long x) noexcept : n(x) { }
  explicit HTicks(Seed s) noexcept(HNX) : n(s.n) { }
  friend constexpr bool operator==(HTicks const & a, HTicks const & b) noexcept { return a.n == b.n; }
  friend constexpr bool operator!=(HTicks const & a, HTicks const & b) noexcept { return a.n != b.n; }
  Plain operator&() const
  {
    hit("operator& of the flag");
    return Plain{};
  }
  template <class T>
  Plain operator,(T &&) const
  {
    hit("operator, of the flag");
    return Plain{};
  }
  static void * operator new(std::size_t) = delete;
  static void * operator new(std::size_t, void *)
  {
    hit("class placement new of the flag");
    alignas(16) static unsigned char elsewhere[64];
    return elsewhere;
  }
  static void operator delete(void *) = delete;
};
struct SentHT
{
  static constexpr HTicks value{-3};
};
struct HasHT
{
  Amp before{Seed{1}};
  HTicks t;
  int flag;
  explicit HasHT(Seed s) noexcept(HNX) : t(s.n * 2), flag(s.n) { }
};
struct Tagged // the manipulator of this one is used for a member
{
  int state;
  Plain operator&() const
  {
    hit("operator& of the flag");
    return Plain{};
  }
};
struct HasTagged
{
  Comma before{Seed{1}};
  Tagged t;
  int flag;
  explicit HasTagged(Seed s) noexcept(HNX) : t{s.n}, flag(s.n) { }
};
} // namespace
template <>
struct tiny::optional_flag_manipulator<Tagged>
{
  static bool is_empty(Tagged const & x) noexcept { return x.state == -4; }
  static void init_empty_flag(Tagged & x) noexcept { ::new (static_cast<void *>(std::addressof(x))) Tagged{-4}; }
  static void invalidate_empty_flag(Tagged &) noexcept { }
};
namespace
{
template <>
struct reader<HTicks>
{
  static int get(HTicks const & p) { return static_cast<int>(p.n); }
};
template <class P>
void ref_compare(const char *) { }
template <class X, class P>
void one(const char * name)
{
  Battery<std::optional<P>, P> r;
  r.run();
  compare<X, P>("hostile flag", name, r.text);
}
SUITE(flags, "hostile/flags")
{
  one<tiny::optional<HasHT>, HasHT>("optional<HasHT>");
  one<tiny::optional_sentinel_via_type<HasHT, SentHT, &HasHT::t>, HasHT>("optional_sentinel_via_type<HasHT,Sent,&t>");
  one<tiny::optional<HasHT, &HasHT::flag, -1>, HasHT>("optional<HasHT,&flag,-1>");
  one<tiny::optional<HasTagged, &HasTagged::t>, HasTagged>("optional<HasTagged,&t>");
  // the sentinel class as payload itself
  using O = tiny::optional_sentinel_via_type<HTicks, SentHT>;
  std::string text;
  hs::out = &text;
  {
    O a, b(std::in_place, 5L), c(HTicks(6));
    CHECK(!a.has_value() && b->n == 5 && c->n == 6);
    a = b;
    CHECK(a->n == 5);
    b = std::nullopt;
    CHECK(!b.has_value());
    a.swap(b);
    CHECK(!a.has_value() && b->n == 5);
    a = HTicks(8);
    CHECK(a->n == 8);
    a.emplace(9L);
    CHECK(a->n == 9 && std::addressof(*a) == std::addressof(a.value()));
    CHECK(a == HTicks(9) && a != c);
    a.reset();
    CHECK(a == std::nullopt && !a);
    O d(std::move(c)), e(d);
    CHECK(d->n == 6 && e->n == 6);
    CHECK(static_cast<void const *>(std::addressof(*d)) == static_cast<void const *>(std::addressof(d)));
  }
  hs::out = nullptr;
  CHECK(text.empty(), "%s", text.c_str());
  CHECK(sizeof(O) == sizeof(HTicks));
}

// ------------------------------------------------------------------------------------------- volatile, prvalue only, ...
template <class O>
int vol()
{
  O a;
  a.emplace(1);
  O b(std::in_place, 1);
  int s = static_cast<int>(*a) + static_cast<int>(*b) * 3;
  a.reset();
  O c(1);
  s += static_cast<int>(*c) * 9;
  s += a.has_value() ? 1000 : 0;
  c = 0;
  s += c.value() ? 2000 : 0;
  s += c.has_value() ? 5000 : 0;
  c = std::nullopt;
  s += c.has_value() ? 10000 : 0;
  c = 1;
  *c = 0;
  s += *c ? 20000 : 0;
  s += c.has_value() ? 50000 : 0;
  return s;
}
struct NM
{
  int f;
  NM * self;
  explicit NM(int x) : f(x), self(this) { }
  NM(NM const &) = delete;
};
struct Factory
{
  int n;
  operator NM() const { return NM(n); }
};
template <class O>
int prvalue()
{
  O a(std::in_place, Factory{5});
  O b;
  b.emplace(Factory{6});
  b.emplace(Factory{7});
  return a->f * 10 + b->f + (a->self == std::addressof(*a) ? 100 : 0) + (b->self == std::addressof(*b) ? 1000 : 0);
}
SUITE(special, "hostile/special")
{
  CHECK(vol<tiny::optional<int volatile>>() == vol<std::optional<int volatile>>());
  CHECK(vol<tiny::optional<double volatile>>() == vol<std::optional<double volatile>>());
  CHECK(vol<tiny::optional<bool volatile>>() == vol<std::optional<bool volatile>>());
  CHECK(vol<tiny::optional<float volatile>>() == vol<std::optional<float volatile>>());
  CHECK(vol<tiny::optional<long long volatile>>() == vol<std::optional<long long volatile>>());
  CHECK(prvalue<tiny::optional<NM>>() == prvalue<std::optional<NM>>());
  int const p = prvalue<tiny::optional<NM, &NM::f, -1>>();
  CHECK(p == prvalue<std::optional<NM>>());
  {
    tiny::optional<Poly> a(std::in_place, Seed{3}), b(a), c;
    c = a;
    VBase const & base = *c;
    CHECK(base.id() == 79 && b->id() == 79 && b->vb == 77);
    a.swap(c);
    std::vector<tiny::optional<Poly>> v(3, a);
    v.resize(20);
    CHECK(v[2]->id() == 79 && !v[3].has_value());
    tiny::optional<Poly, &Poly::flag, -1> d(std::in_place, Seed{4}), e(d);
    e.emplace(Seed{5});
    d = e;
    CHECK(d->id() == 79 && d->flag == 5 && static_cast<VBase const &>(*d).id() == 79);
    tiny::optional<Multi, &Multi::flag, -1> m(std::in_place, Seed{4}), n;
    n = m;
    Abstract const & ab = *n;
    CHECK(ab.id() == 9 && n->pad == 3);
  }
}

} // namespace
namespace evil // greedy templates with the names of std functions, found by ADL unless calls are qualified
{
#define EVIL(NAME)                                                                                                     \
  template <class... T>                                                                                                \
  void NAME(T &&...)                                                                                                   \
  {                                                                                                                    \
    hit("evil " #NAME);                                                                                                \
  }
struct P
{
  int flag;
  explicit P(Seed s) noexcept(HNX) : flag(s.n) { }
};
EVIL(move)
EVIL(forward)
EVIL(addressof)
EVIL(invoke)
EVIL(destroy_at)
EVIL(destroy)
EVIL(construct_at)
EVIL(as_const)
EVIL(exchange)
EVIL(launder)
EVIL(memcpy)
EVIL(memcmp)
EVIL(memset)
EVIL(bit_cast)
EVIL(uninitialized_copy)
EVIL(uninitialized_move)
EVIL(make_optional)
EVIL(move_if_noexcept)
EVIL(get)
EVIL(hash)
EVIL(in_place)
EVIL(declval)
EVIL(terminate)
EVIL(abort)
// The same for pointers and references to P only, so that they would win over a function template of the library.
template <class T>
T && move(P & p)
{
  hit("evil move");
  return static_cast<T &&>(p);
}
inline P * addressof(P &)
{
  hit("evil addressof");
  return nullptr;
}
inline void destroy_at(P *) { hit("evil destroy_at"); }
} // namespace evil
namespace
{
SUITE(adl, "hostile/adl")
{
  hostile<evil::P>("evil::P");
}
#endif
} // namespace
