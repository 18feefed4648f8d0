// Instrumented payload types: every special member reports to an event log, keeps a registry of living objects and can
// be told to throw at the n-th opportunity.
#pragma once
#include "mon.h"
#include <functional>
#include <initializer_list>
#include <string>
#include <utility>

namespace pl
{
template <class T>
struct type_tag
{
  using type = T;
};

enum Ev : uint8_t
{
  EvDef,
  EvVal,
  EvIl,
  EvCopy,
  EvMove,
  EvCopyAsg,
  EvMoveAsg,
  EvConvAsg,
  EvDtor,
  EvSwap,
  EvCmp,
  EvCall,
  EvArg
};

inline const char * ev_name(uint8_t e)
{
  static const char * const n[]
      = {"default-ctor", "value-ctor", "il-ctor", "copy-ctor", "move-ctor", "copy-assign", "move-assign",
         "convert-assign", "dtor", "swap", "compare", "call", "arg"};
  return e < 13 ? n[e] : "?";
}

struct Event
{
  uint8_t e;
  int a;
  int b;
  bool operator==(Event const & o) const { return e == o.e && a == o.a && b == o.b; }
};

// Fixed capacity log (no allocation, so it never disturbs leak accounting).
struct Log
{
  static constexpr int kMax = 512;
  Event ev[kMax];
  int n = 0;
  void add(uint8_t e, int a, int b = 0)
  {
    if (n < kMax) {
      ev[n] = Event{e, a, b};
    }
    ++n;
  }
  void clear() { n = 0; }
  bool same(Log const & o) const
  {
    if (n != o.n) {
      return false;
    }
    for (int i = 0; i < n && i < kMax; ++i) {
      if (!(ev[i] == o.ev[i])) {
        return false;
      }
    }
    return true;
  }
  void print(char * buf, size_t len) const
  {
    size_t pos = 0;
    buf[0] = 0;
    for (int i = 0; i < n && i < kMax && pos + 40 < len; ++i) {
      int w = std::snprintf(buf + pos, len - pos, "%s(%d,%d) ", ev_name(ev[i].e), ev[i].a, ev[i].b);
      pos += static_cast<size_t>(w);
    }
  }
};

struct Fault
{
  int id;
};

struct World
{
  Log * log = nullptr;   // current sink (null: none)
  long countdown = 0;    // >0: throw at the countdown-th fault point
  long points = 0;       // fault points passed
  long liveCount = 0;
  long events = 0;       // lifetime events observed
};
extern World world;

// ------------------------------------------------ registry of living instrumented objects
void reg_birth(const void * p, int type);
void reg_death(const void * p, int type);
void reg_use(const void * p, int type, const char * what);
bool reg_alive(const void * p);

inline void emit(uint8_t e, int a, int b = 0)
{
  ++world.events;
  if (world.log) {
    world.log->add(e, a, b);
  }
}

inline void maybe_throw()
{
  ++world.points;
  if (world.countdown > 0 && --world.countdown == 0) {
    throw Fault{4711};
  }
}

constexpr int kMovedFrom = -99991;
constexpr int kHalf = -99992; // value after an assignment that threw

// The tracked type. NX: move construction, move assignment and swap are noexcept.
template <bool NX>
struct TrkT
{
  int v;

  TrkT() : v(0)
  {
    maybe_throw();
    emit(EvDef, 0);
    reg_birth(this, NX);
  }
  /*implicit*/ TrkT(int x) : v(x)
  {
    maybe_throw();
    emit(EvVal, x);
    reg_birth(this, NX);
  }
  TrkT(int x, int y) : v(x * 31 + y)
  {
    maybe_throw();
    emit(EvVal, x, y);
    reg_birth(this, NX);
  }
  TrkT(std::initializer_list<int> il, int x) : v(x)
  {
    maybe_throw();
    for (int i : il) {
      v = v * 7 + i;
    }
    emit(EvIl, x, static_cast<int>(il.size()));
    reg_birth(this, NX);
  }
  TrkT(TrkT const & o) : v(0)
  {
    reg_use(&o, NX, "copied from");
    maybe_throw();
    v = o.v;
    emit(EvCopy, v);
    reg_birth(this, NX);
  }
  TrkT(TrkT && o) noexcept(NX) : v(0)
  {
    reg_use(&o, NX, "moved from");
    if constexpr (!NX) {
      maybe_throw();
    }
    v = o.v;
    o.v = kMovedFrom;
    emit(EvMove, v);
    reg_birth(this, NX);
  }
  TrkT & operator=(TrkT const & o)
  {
    reg_use(&o, NX, "copy-assigned from");
    reg_use(this, NX, "copy-assigned to");
    int const nv = o.v;
    if (this != &o) {
      v = kHalf;
    }
    maybe_throw();
    emit(EvCopyAsg, nv);
    v = nv;
    return *this;
  }
  TrkT & operator=(TrkT && o) noexcept(NX)
  {
    reg_use(&o, NX, "move-assigned from");
    reg_use(this, NX, "move-assigned to");
    if (this == &o) {
      emit(EvMoveAsg, v, 1);
      return *this;
    }
    int const nv = o.v;
    if constexpr (!NX) {
      v = kHalf;
      maybe_throw();
    }
    emit(EvMoveAsg, nv);
    v = nv;
    o.v = kMovedFrom;
    return *this;
  }
  TrkT & operator=(int x)
  {
    reg_use(this, NX, "assigned to");
    v = kHalf;
    maybe_throw();
    emit(EvConvAsg, x);
    v = x;
    return *this;
  }
  ~TrkT()
  {
    emit(EvDtor, v);
    reg_death(this, NX);
    v = -123456;
  }

  friend void swap(TrkT & a, TrkT & b) noexcept(NX)
  {
    reg_use(&a, NX, "swapped");
    reg_use(&b, NX, "swapped");
    if constexpr (!NX) {
      maybe_throw();
    }
    emit(EvSwap, a.v, b.v);
    int t = a.v;
    a.v = b.v;
    b.v = t;
  }

  static void cmp(TrkT const & a, TrkT const & b, int op)
  {
    reg_use(&a, NX, "compared");
    reg_use(&b, NX, "compared");
    maybe_throw();
    emit(EvCmp, op, a.v * 1000 + b.v);
  }
  friend bool operator==(TrkT const & a, TrkT const & b) { return cmp(a, b, 0), a.v == b.v; }
  friend bool operator!=(TrkT const & a, TrkT const & b) { return cmp(a, b, 1), a.v != b.v; }
  friend bool operator<(TrkT const & a, TrkT const & b) { return cmp(a, b, 2), a.v < b.v; }
  friend bool operator<=(TrkT const & a, TrkT const & b) { return cmp(a, b, 3), a.v <= b.v; }
  friend bool operator>(TrkT const & a, TrkT const & b) { return cmp(a, b, 4), a.v > b.v; }
  friend bool operator>=(TrkT const & a, TrkT const & b) { return cmp(a, b, 5), a.v >= b.v; }
};
using Trk = TrkT<false>;
using TrkNX = TrkT<true>;

// Move-only and copy-only (no move members declared) variants.
struct TrkMO
{
  Trk t;
  /*implicit*/ TrkMO(int x) : t(x) { }
  TrkMO(int x, int y) : t(x, y) { }
  TrkMO(TrkMO &&) = default;
  TrkMO & operator=(TrkMO &&) = default;
  TrkMO(TrkMO const &) = delete;
  TrkMO & operator=(TrkMO const &) = delete;
  friend bool operator==(TrkMO const & a, TrkMO const & b) { return a.t == b.t; }
  friend bool operator!=(TrkMO const & a, TrkMO const & b) { return a.t != b.t; }
  friend bool operator<(TrkMO const & a, TrkMO const & b) { return a.t < b.t; }
  friend bool operator<=(TrkMO const & a, TrkMO const & b) { return a.t <= b.t; }
  friend bool operator>(TrkMO const & a, TrkMO const & b) { return a.t > b.t; }
  friend bool operator>=(TrkMO const & a, TrkMO const & b) { return a.t >= b.t; }
};

struct TrkCO
{
  Trk t;
  /*implicit*/ TrkCO(int x) : t(x) { }
  TrkCO(int x, int y) : t(x, y) { }
  TrkCO(TrkCO const &) = default;
  TrkCO & operator=(TrkCO const &) = default;
  friend bool operator==(TrkCO const & a, TrkCO const & b) { return a.t == b.t; }
  friend bool operator!=(TrkCO const & a, TrkCO const & b) { return a.t != b.t; }
  friend bool operator<(TrkCO const & a, TrkCO const & b) { return a.t < b.t; }
  friend bool operator<=(TrkCO const & a, TrkCO const & b) { return a.t <= b.t; }
  friend bool operator>(TrkCO const & a, TrkCO const & b) { return a.t > b.t; }
  friend bool operator>=(TrkCO const & a, TrkCO const & b) { return a.t >= b.t; }
};

// Tracked payloads with every combination of type traits an implementation might take a different path for.
enum TrkTraits
{
  kNXMoveC = 1,  // noexcept move construction
  kNXMoveA = 2,  // noexcept move assignment
  kNXCopyC = 4,
  kNXCopyA = 8,
  kNXVal = 16,   // noexcept construction from values
  kNXSwap = 32,  // noexcept swap found by ADL
  kAllNX = 63,
  kTrivDtor = 64, // trivially destructible (not in the lifetime registry)
  kBig = 128,     // 200 more bytes
  kNoSwap = 256,  // no swap of its own
  kPoly = 512     // polymorphic
};
template <bool>
struct TrkPad
{
};
template <>
struct TrkPad<true>
{
  unsigned char pad[200] = {};
};
template <bool>
struct TrkPolyBase
{
};
template <>
struct TrkPolyBase<true>
{
  virtual int id() const { return 5; }
  TrkPolyBase() = default;
  TrkPolyBase(TrkPolyBase const &) = default;
  TrkPolyBase & operator=(TrkPolyBase const &) = default;
  virtual ~TrkPolyBase() = default;
};

template <int F>
struct TrkXCore : TrkPolyBase<(F & kPoly) != 0>, TrkPad<(F & kBig) != 0>
{
  using Me = TrkXCore;
  int v;
  short tag; // never -1: can hold the empty state

  template <int Bit>
  static void point() noexcept((F & Bit) != 0)
  {
    if constexpr ((F & Bit) == 0) {
      maybe_throw();
    }
  }
  static constexpr bool reg = (F & kTrivDtor) == 0;
  void born()
  {
    tag = static_cast<short>(v & 0x3fff);
    if constexpr (reg) {
      reg_birth(this, 100 + F);
    }
  }
  void used(char const * what) const
  {
    if constexpr (reg) {
      reg_use(this, 100 + F, what);
    }
  }
  /*implicit*/ TrkXCore(int x) noexcept((F & kNXVal) != 0) : v(x)
  {
    point<kNXVal>();
    emit(EvVal, x);
    born();
  }
  TrkXCore(int x, int y) noexcept((F & kNXVal) != 0) : v(x * 31 + y)
  {
    point<kNXVal>();
    emit(EvVal, x, y);
    born();
  }
  TrkXCore(std::initializer_list<int> il, int x) noexcept((F & kNXVal) != 0) : v(x)
  {
    point<kNXVal>();
    for (int i : il) {
      v = v * 7 + i;
    }
    emit(EvIl, x, static_cast<int>(il.size()));
    born();
  }
  TrkXCore(Me const & o) noexcept((F & kNXCopyC) != 0) : v(0)
  {
    o.used("copied from");
    point<kNXCopyC>();
    v = o.v;
    emit(EvCopy, v);
    born();
  }
  TrkXCore(Me && o) noexcept((F & kNXMoveC) != 0) : v(0)
  {
    o.used("moved from");
    point<kNXMoveC>();
    v = o.v;
    o.v = kMovedFrom;
    emit(EvMove, v);
    born();
  }
  Me & operator=(Me const & o) noexcept((F & kNXCopyA) != 0)
  {
    o.used("copy-assigned from");
    used("copy-assigned to");
    int const nv = o.v;
    if (this != &o && !(F & kNXCopyA)) {
      v = kHalf;
    }
    point<kNXCopyA>();
    emit(EvCopyAsg, nv);
    v = nv;
    tag = static_cast<short>(v & 0x3fff);
    return *this;
  }
  Me & operator=(Me && o) noexcept((F & kNXMoveA) != 0)
  {
    o.used("move-assigned from");
    used("move-assigned to");
    if (this == &o) {
      emit(EvMoveAsg, v, 1);
      return *this;
    }
    int const nv = o.v;
    if (!(F & kNXMoveA)) {
      v = kHalf;
    }
    point<kNXMoveA>();
    emit(EvMoveAsg, nv);
    v = nv;
    tag = static_cast<short>(v & 0x3fff);
    o.v = kMovedFrom;
    return *this;
  }
  Me & operator=(int x) noexcept((F & kNXVal) != 0)
  {
    used("assigned to");
    point<kNXVal>();
    emit(EvConvAsg, x);
    v = x;
    tag = static_cast<short>(v & 0x3fff);
    return *this;
  }
  static void cmp(Me const & a, Me const & b, int op)
  {
    a.used("compared");
    b.used("compared");
    maybe_throw();
    emit(EvCmp, op, a.v * 1000 + b.v);
  }
  friend bool operator==(Me const & a, Me const & b) { return cmp(a, b, 0), a.v == b.v; }
  friend bool operator!=(Me const & a, Me const & b) { return cmp(a, b, 1), a.v != b.v; }
  friend bool operator<(Me const & a, Me const & b) { return cmp(a, b, 2), a.v < b.v; }
  friend bool operator<=(Me const & a, Me const & b) { return cmp(a, b, 3), a.v <= b.v; }
  friend bool operator>(Me const & a, Me const & b) { return cmp(a, b, 4), a.v > b.v; }
  friend bool operator>=(Me const & a, Me const & b) { return cmp(a, b, 5), a.v >= b.v; }
  uint64_t key() const
  {
    used("read");
    uint64_t h = mon::mix(static_cast<uint64_t>(v), static_cast<uint64_t>(tag));
    if constexpr ((F & kPoly) != 0) {
      h = mon::mix(h, static_cast<uint64_t>(this->id()));
    }
    return h;
  }

protected:
  ~TrkXCore() = default;
};

template <int F, bool = (F & kTrivDtor) != 0>
struct TrkX : TrkXCore<F>
{
  using TrkXCore<F>::TrkXCore;
  using TrkXCore<F>::operator=;
  short mem = 0; // the member that holds the empty state in some flavours
  TrkX(TrkX const &) = default;
  TrkX(TrkX &&) = default;
  TrkX & operator=(TrkX const &) = default;
  TrkX & operator=(TrkX &&) = default;
  ~TrkX()
  {
    emit(EvDtor, this->v);
    reg_death(static_cast<TrkXCore<F> const *>(this), 100 + F);
    this->v = -123456;
  }
};
template <int F>
struct TrkX<F, true> : TrkXCore<F>
{
  using TrkXCore<F>::TrkXCore;
  using TrkXCore<F>::operator=;
  short mem = 0;
};
template <int F, bool T, std::enable_if_t<(F & kNoSwap) == 0, int> = 0>
void swap(TrkX<F, T> & a, TrkX<F, T> & b) noexcept((F & kNXSwap) != 0)
{
  a.used("swapped");
  b.used("swapped");
  if constexpr ((F & kNXSwap) == 0) {
    maybe_throw();
  }
  emit(EvSwap, a.v, b.v);
  std::swap(a.v, b.v);
  std::swap(a.tag, b.tag);
}
template <class T>
inline constexpr bool self_move_ok = std::is_same_v<T, Trk> || std::is_same_v<T, TrkNX>;
template <int F, bool T>
inline constexpr bool self_move_ok<TrkX<F, T>> = true;

enum class Color : uint8_t
{
  Red,
  Green,
  Blue,
  Max
};

extern int pool[16]; // something to point at

inline uint64_t bits(double d)
{
  uint64_t u;
  std::memcpy(&u, &d, sizeof u);
  return u;
}
inline uint64_t bits(float d)
{
  uint32_t u;
  std::memcpy(&u, &d, sizeof u);
  return u;
}

// A payload with tracked members around all the members that can serve as storage for the empty state. The tracked
// members before and after them make constructors throw before and after those members have been written.
#define PL_AGG(NAME, TRK)                                                                                              \
  struct NAME                                                                                                          \
  {                                                                                                                    \
    TRK a;                                                                                                             \
    double d;                                                                                                          \
    int i;                                                                                                             \
    bool b;                                                                                                            \
    float f;                                                                                                           \
    int * p;                                                                                                           \
    Color c;                                                                                                           \
    TRK z;                                                                                                             \
    /*implicit*/ NAME(int x)                                                                                           \
      : a(x), d(x * 0.25), i(x & 0xffff), b((x & 1) != 0), f(static_cast<float>(x)), p(pool + (x & 15)),               \
        c(static_cast<Color>(x % 3 < 0 ? 0 : x % 3)), z(x + 1)                                                         \
    {                                                                                                                  \
    }                                                                                                                  \
    NAME(int x, int y) : NAME(x * 31 + y) { }                                                                          \
    friend bool operator==(NAME const & l, NAME const & r) { return l.a == r.a; }                                      \
    friend bool operator!=(NAME const & l, NAME const & r) { return l.a != r.a; }                                      \
    friend bool operator<(NAME const & l, NAME const & r) { return l.a < r.a; }                                        \
    friend bool operator<=(NAME const & l, NAME const & r) { return l.a <= r.a; }                                      \
    friend bool operator>(NAME const & l, NAME const & r) { return l.a > r.a; }                                        \
    friend bool operator>=(NAME const & l, NAME const & r) { return l.a >= r.a; }                                      \
    uint64_t key() const                                                                                               \
    {                                                                                                                  \
      pl::reg_use(&a, 0, "read");                                                                                      \
      pl::reg_use(&z, 0, "read");                                                                                      \
      uint64_t h = mon::mix(static_cast<uint64_t>(a.v), bits(d));                                                      \
      h = mon::mix(h, static_cast<uint64_t>(i) * 2 + b);                                                               \
      h = mon::mix(h, bits(f));                                                                                        \
      h = mon::mix(h, static_cast<uint64_t>(p - pool) * 8 + static_cast<uint64_t>(c));                                 \
      return mon::mix(h, static_cast<uint64_t>(z.v));                                                                  \
    }                                                                                                                  \
  };

PL_AGG(Agg, Trk)     // throwing moves
PL_AGG(AggNX, TrkNX) // noexcept moves
PL_AGG(AggF, Trk)    // has a optional_flag_manipulator specialisation (see kinds.h)
PL_AGG(AggI, Trk)    // used with optional_inplace

// The flag member is the very first / very last member.
struct AggFirst
{
  double d;
  Trk t;
  /*implicit*/ AggFirst(int x) : d(x), t(x) { }
  AggFirst(int x, int y) : AggFirst(x * 31 + y) { }
  uint64_t key() const { return reg_use(&t, 0, "read"), mon::mix(bits(d), static_cast<uint64_t>(t.v)); }
};
struct AggLast
{
  Trk t;
  short tag;
  /*implicit*/ AggLast(int x) : t(x), tag(static_cast<short>(x & 0x3fff)) { }
  AggLast(int x, int y) : AggLast(x * 31 + y) { }
  uint64_t key() const { return reg_use(&t, 0, "read"), mon::mix(static_cast<uint64_t>(tag), static_cast<uint64_t>(t.v)); }
};

} // namespace pl

template <bool NX>
struct std::hash<pl::TrkT<NX>>
{
  size_t operator()(pl::TrkT<NX> const & t) const
  {
    pl::reg_use(&t, NX, "hashed");
    return static_cast<size_t>(t.v) * 2654435761u + 17;
  }
};

template <int F, bool T>
struct std::hash<pl::TrkX<F, T>>
{
  size_t operator()(pl::TrkX<F, T> const & t) const
  {
    t.used("hashed");
    return static_cast<size_t>(t.v) * 2654435761u + 17;
  }
};
