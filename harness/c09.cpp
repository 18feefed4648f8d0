// C09: trace monitor of the flag manipulator protocol. Every call of a manipulator and every construction, destruction and
// assignment of a payload is an event on the address of the flag; an automaton per address decides:
//   RAW --init--> FLAG --invalidate--> RAW --payload ctor--> PAYLOAD --payload dtor--> RAW, is_empty only in FLAG and PAYLOAD.
#include "mon.h"
#include <tiny/optional.h>

#include <new>
#include <unordered_map>
#include <vector>

namespace
{
enum State : uint8_t
{
  Raw,
  Flag,
  Payload
};
const char * const stateName[] = {"RAW", "FLAG", "PAYLOAD"};

struct Fault
{
};
struct Mon
{
  std::unordered_map<void const *, State> st;
  long flags = 0, payloads = 0; // living
  long heap = 0;                // resources owned by empty flags
  long countdown = 0;
  long points = 0;
  uint64_t sig = 0;
  bool inManip = false;

  State get(void const * a)
  {
    auto it = st.find(a);
    return it == st.end() ? Raw : it->second;
  }
  void set(void const * a, State s)
  {
    State const old = get(a);
    flags += (s == Flag) - (old == Flag);
    payloads += (s == Payload) - (old == Payload);
    if (s == Raw) {
      st.erase(a);
    }
    else {
      st[a] = s;
    }
  }
  void ev(const char * what, void const * a, State need, State next)
  {
    mon::eval();
    State const s = get(a);
    sig = mon::mix(sig, mon::str_hash(what) + s);
    if (s != need) {
      mon::fail("%s on memory in state %s (must be %s)", what, stateName[s], stateName[need]);
    }
    set(a, next);
  }
  void init(void const * a) { mon::count("init_empty_flag"); ev("init_empty_flag", a, Raw, Flag); }
  void inval(void const * a) { mon::count("invalidate_empty_flag"); ev("invalidate_empty_flag", a, Flag, Raw); }
  void isEmpty(void const * a)
  {
    mon::eval();
    mon::count("is_empty");
    if (get(a) == Raw) {
      mon::fail("is_empty on memory without a living flag or payload");
    }
  }
  void ctor(void const * a) { mon::count("payload ctor"); ev("payload construction", a, Raw, Payload); }
  void dtor(void const * a) { mon::count("payload dtor"); ev("payload destruction", a, Payload, Raw); }
  void use(void const * a, const char * what)
  {
    mon::eval();
    if (get(a) != Payload) {
      mon::fail("payload %s although it is not alive (%s)", what, stateName[get(a)]);
    }
  }
  void fault()
  {
    ++points;
    if (countdown > 0 && --countdown == 0) {
      throw Fault{};
    }
  }
};
Mon M;

// -------------------------------------------------------------------------------- payloads
// NX: copy, move and value constructor are noexcept. The fault points are before and after the members have been written.
template <int Id, bool NX>
struct Spy
{
  int state; // < 0: empty
  int v;
  long * res;

  /*implicit*/ Spy(int x) noexcept(NX) { make(x); }
  Spy(int x, int y) noexcept(NX) { make(x + y); }
  Spy(Spy const & o) noexcept(NX)
  {
    M.use(&o, "copied");
    make(o.v);
  }
  Spy(Spy && o) noexcept(NX)
  {
    M.use(&o, "moved");
    make(o.v);
    o.v = -77;
  }
  Spy & operator=(Spy const & o)
  {
    M.use(&o, "copy-assigned from");
    M.use(this, "copy-assigned to");
    M.fault();
    v = o.v;
    return *this;
  }
  Spy & operator=(Spy && o) noexcept(NX)
  {
    M.use(&o, "move-assigned from");
    M.use(this, "move-assigned to");
    if constexpr (!NX) {
      M.fault();
    }
    v = o.v;
    return *this;
  }
  Spy & operator=(int x)
  {
    M.use(this, "value-assigned to");
    M.fault();
    v = x;
    return *this;
  }
  ~Spy()
  {
    M.dtor(this);
    state = -9999;
  }
  friend bool operator==(Spy const & a, Spy const & b)
  {
    M.use(&a, "compared");
    M.use(&b, "compared");
    return a.v == b.v;
  }
  friend bool operator<(Spy const & a, Spy const & b)
  {
    M.use(&a, "compared");
    M.use(&b, "compared");
    return a.v < b.v;
  }

private:
  void make(int x) noexcept(NX)
  {
    M.ctor(this);
    if constexpr (!NX) {
      try {
        M.fault();
        state = 1;
        v = x;
        res = nullptr;
        M.fault();
      }
      catch (...) {
        M.dtor(this); // construction failed: no payload lives here
        throw;
      }
    }
    else {
      state = 1;
      v = x;
      res = nullptr;
    }
  }
};

template <class S>
struct Manip
{
  static bool is_empty(S const & s) noexcept
  {
    M.isEmpty(&s);
    return s.state < 0;
  }
  static void init_empty_flag(S & s) noexcept
  {
    M.init(&s);
    ::new (static_cast<void *>(&s.state)) int(-1);
    ::new (static_cast<void *>(&s.res)) (long *)(new long(5));
    ++M.heap;
  }
  static void invalidate_empty_flag(S & s) noexcept
  {
    M.inval(&s);
    if (s.state >= 0) {
      mon::fail("invalidate_empty_flag gets a flag that does not indicate the empty state");
    }
    else {
      delete s.res;
      --M.heap;
    }
    s.state = 12345; // nobody may rely on anything but the payload constructor from here on
  }
};

using SpecT = Spy<0, false>;
using SpecNX = Spy<1, true>;
using FamT = Spy<2, false>; // specialised through the Enable parameter
using InpT = Spy<3, false>;
using InpNX = Spy<4, true>;
using InpC = Spy<5, false>;

// The flag is a member in the middle.
struct Fl
{
  int state;
  long * res;
};
template <bool NX>
struct WithMember
{
  struct Guard
  {
    char c = 0;
  };
  Guard g;
  int v;
  Fl fl;
  int after;

  /*implicit*/ WithMember(int x) noexcept(NX) { make(x); }
  WithMember(int x, int y) noexcept(NX) { make(x + y); }
  WithMember(WithMember const & o) noexcept(NX)
  {
    M.use(&o.fl, "copied");
    make(o.v);
  }
  WithMember(WithMember && o) noexcept(NX)
  {
    M.use(&o.fl, "moved");
    make(o.v);
  }
  WithMember & operator=(WithMember const & o)
  {
    M.use(&o.fl, "copy-assigned from");
    M.use(&fl, "copy-assigned to");
    M.fault();
    v = o.v;
    return *this;
  }
  WithMember & operator=(WithMember && o) noexcept(NX)
  {
    M.use(&o.fl, "move-assigned from");
    M.use(&fl, "move-assigned to");
    if constexpr (!NX) {
      M.fault();
    }
    v = o.v;
    return *this;
  }
  WithMember & operator=(int x)
  {
    M.use(&fl, "value-assigned to");
    M.fault();
    v = x;
    return *this;
  }
  ~WithMember()
  {
    M.dtor(&fl);
    fl.state = -9999;
  }
  friend bool operator==(WithMember const & a, WithMember const & b)
  {
    M.use(&a.fl, "compared");
    M.use(&b.fl, "compared");
    return a.v == b.v;
  }
  friend bool operator<(WithMember const & a, WithMember const & b)
  {
    M.use(&a.fl, "compared");
    M.use(&b.fl, "compared");
    return a.v < b.v;
  }

private:
  void make(int x) noexcept(NX)
  {
    M.ctor(&fl);
    if constexpr (!NX) {
      try {
        M.fault();
        fl.state = 1;
        fl.res = nullptr;
        v = x;
        after = 1;
        M.fault();
      }
      catch (...) {
        M.dtor(&fl);
        throw;
      }
    }
    else {
      fl.state = 1;
      fl.res = nullptr;
      v = x;
      after = 1;
    }
  }
};
template <class T>
inline constexpr bool isFamily = false;
template <>
inline constexpr bool isFamily<FamT> = true;
} // namespace

template <>
struct tiny::optional_flag_manipulator<SpecT> : Manip<SpecT>
{
};
template <>
struct tiny::optional_flag_manipulator<SpecNX> : Manip<SpecNX>
{
};
template <class T>
struct tiny::optional_flag_manipulator<T, std::enable_if_t<isFamily<T>>> : Manip<T>
{
};
template <>
struct tiny::optional_flag_manipulator<Fl> : Manip<Fl>
{
};

namespace
{
template <class P>
void const * flag_of(P const & p)
{
  if constexpr (std::is_same_v<P, WithMember<true>> || std::is_same_v<P, WithMember<false>>) {
    return &p.fl;
  }
  else {
    return &p;
  }
}

template <class O>
struct Driver
{
  using P = std::remove_const_t<typename O::value_type>;
  static constexpr bool kConst = std::is_const_v<typename O::value_type>;
  static constexpr int N = 4;
  alignas(O) unsigned char buf[N][sizeof(O)];
  O * o[N] = {};
  long extra = 0; // living payloads that are not in a slot

  // Where the flag of slot i lives.
  void const * flagAddr(int i)
  {
    return flag_of(*reinterpret_cast<P const *>(buf[i]));
  }
  void check_all(const char * op)
  {
    long flags = 0, payloads = extra;
    for (int i = 0; i < N; ++i) {
      State const s = M.get(flagAddr(i));
      mon::eval();
      if (o[i] == nullptr) {
        if (s != Raw) {
          mon::fail("after %s: a %s is left behind in an optional that is gone", op, stateName[s]);
          M.set(flagAddr(i), Raw);
        }
        continue;
      }
      State const want = o[i]->has_value() ? Payload : Flag;
      flags += want == Flag;
      payloads += want == Payload;
      if (s != want) {
        mon::fail("after %s: the optional's memory is in state %s, has_value() says %s", op, stateName[s], stateName[want]);
      }
    }
    if (M.flags != flags || M.payloads != payloads || M.heap != flags) {
      mon::fail("after %s: %ld flags, %ld payloads, %ld flag resources alive, expected %ld, %ld, %ld", op, M.flags, M.payloads,
                M.heap, flags, payloads, flags);
      std::fflush(stdout);
      std::_Exit(1); // everything afterwards would be a consequence
    }
    mon::seen(M.sig);
    M.sig = mon::mix(0, mon::str_hash(op));
  }

  template <class... A>
  void build(int i, A &&... a)
  {
    if (o[i] != nullptr) {
      O * p = o[i];
      o[i] = nullptr;
      p->~O();
      check_all("destructor");
    }
    std::memset(buf[i], 0x5a, sizeof(O));
    o[i] = ::new (static_cast<void *>(buf[i])) O(std::forward<A>(a)...);
  }
  O & need(int i)
  {
    if (o[i] == nullptr) {
      build(i);
    }
    return *o[i];
  }

  void step(mon::Rng & r)
  {
    int const i = static_cast<int>(r.below(N));
    int const j = static_cast<int>(r.below(N));
    int const x = static_cast<int>(r.below(100));
    uint32_t const op = r.below(30);
    bool const faulty = r.below(3) == 0;
    O & a = need(i);
    O & b = need(j);
    int const k = (i + 1) % N; // target of constructions; not i
    const char * name = "?";
    M.sig = mon::mix(M.sig, op * 64 + (a.has_value() ? 1u : 0u) + (b.has_value() ? 2u : 0u) + (i == j ? 4u : 0u) + (faulty ? 8u : 0u));
    // payload arguments are prepared before the fault is armed
    P const val(x);
    P val2(x + 1);
    extra = 2; // val and val2
    mon::trace("op", static_cast<long>(op), i, j);
    M.countdown = faulty ? 1 + static_cast<long>(r.below(4)) : 0;
    try {
      switch (op) {
      case 0: name = "default ctor"; build(k); break;
      case 1: name = "nullopt ctor"; build(k, std::nullopt); break;
      case 2: name = "value ctor const&"; build(k, val); break;
      case 3: name = "value ctor &&"; build(k, std::move(val2)); break;
      case 4: name = "converting ctor"; build(k, x); break;
      case 5: name = "in_place ctor"; build(k, std::in_place, x, 3); break;
      case 6: name = "copy ctor"; build(k, static_cast<O const &>(a)); break;
      case 7: name = "move ctor"; build(k, std::move(a)); break;
      case 8: name = "emplace"; a.emplace(x, 1); break;
      case 9: name = "emplace copy"; a.emplace(val); break;
      case 10: name = "reset"; a.reset(); break;
      case 11: name = "= nullopt"; a = std::nullopt; break;
      case 12: name = "swap"; if constexpr (!kConst) a.swap(b); break;
      case 13: name = "= copy"; if constexpr (!kConst) a = static_cast<O const &>(b); break;
      case 14: name = "= move"; if constexpr (!kConst) { if (i != j) a = std::move(b); } break;
      case 15: name = "= value const&"; if constexpr (!kConst) a = val; break;
      case 16: name = "= value &&"; if constexpr (!kConst) a = std::move(val2); break;
      case 17: name = "= int"; if constexpr (!kConst) a = x; break;
      case 18: name = "= {}"; if constexpr (!kConst) a = {}; break;
      case 19: name = "and_then"; (void)a.and_then([&](P const & p) { M.fault(); return O(p); }); break;
      case 20: name = "and_then giving empty"; (void)std::move(a).and_then([&](P const &) { return O(); }); break;
      case 21: name = "transform"; (void)a.transform([&](P const & p) { M.fault(); return P(p); }); break;
      case 22: name = "transform noexcept"; (void)static_cast<O const &>(a).transform([&](P const &) noexcept { return x; }); break;
      case 23: name = "transform && to payload"; (void)std::move(a).transform([&](auto && p) { return P(p.v); }); break;
#ifdef TINY_OPTIONAL_ENABLE_ORELSE
      case 24: name = "or_else &"; (void)a.or_else([&] { M.fault(); return O(x); }); break;
      case 25: name = "or_else &&"; (void)std::move(a).or_else([&] { return O(); }); break;
#endif
      case 26: name = "value_or"; (void)a.value_or(val); (void)std::move(a).value_or(x); break;
      case 27: name = "comparisons"; (void)(a == b); (void)(a < b); (void)(a == val); (void)(val < a); (void)(a == std::nullopt); break;
      case 28: {
        name = "vector";
        std::vector<O> v;
        v.push_back(a);
        v.emplace_back(std::in_place, x);
        v.emplace_back();
        v.push_back(b);
        if constexpr (!kConst) {
          v.erase(v.begin());
          v.insert(v.begin(), O(x));
        }
        break;
      }
      case 29: {
        name = "temporaries";
        O t(x);
        O u(std::move(t));
        if constexpr (!kConst) {
          t = O();
          u = O(x);
          using std::swap;
          swap(t, u);
        }
        (void)u.has_value();
        break;
      }
      default: name = "nothing"; break;
      }
    }
    catch (Fault const &) {
      mon::count("faults fired");
      M.sig = mon::mix(M.sig, 99);
    }
    M.countdown = 0;
    extra = 0; // both die now
    lastOp = name;
  }
  const char * lastOp = "";

  static void run(const char * name)
  {
    mon::context("protocol", name);
    mon::Rng r(mon::opt.seed ^ mon::str_hash(name));
    for (long h = 0; h < 60 * mon::opt.scale; ++h) {
      mon::trace_clear();
      Driver d;
      for (int s = 0; s < 60; ++s) {
        d.step(r);
        d.check_all(d.lastOp);
      }
      for (int i = 0; i < N; ++i) {
        if (d.o[i] != nullptr) {
          O * p = d.o[i];
          d.o[i] = nullptr;
          p->~O();
          d.check_all("destructor at the end");
        }
      }
    }
    mon::sample("%s: protocol automaton followed %ld histories of 60 operations", name, 60 * mon::opt.scale);
  }
};

#if PART == 0
SUITE(a, "protocol/specialised") { Driver<tiny::optional<SpecT>>::run("optional<SpecT>"); }
SUITE(b, "protocol/specialised nothrow") { Driver<tiny::optional<SpecNX>>::run("optional<SpecNX>"); }
SUITE(c, "protocol/specialised family") { Driver<tiny::optional<FamT>>::run("optional<FamT>"); }
#elif PART == 1
using OInp = tiny::optional_inplace<InpT, Manip<InpT>>;
using OInpNX = tiny::optional_inplace<InpNX, Manip<InpNX>>;
using OInpC = tiny::optional_inplace<InpC const, Manip<InpC>>;
SUITE(d, "protocol/inplace") { Driver<OInp>::run("optional_inplace<InpT>"); }
SUITE(e, "protocol/inplace nothrow") { Driver<OInpNX>::run("optional_inplace<InpNX>"); }
SUITE(f, "protocol/inplace const") { Driver<OInpC>::run("optional_inplace<InpC const>"); }
#elif PART == 2
using WM = WithMember<false>;
using WMN = WithMember<true>;
SUITE(g, "protocol/member") { Driver<tiny::optional<WM, &WM::fl>>::run("optional<WithMember,&fl>"); }
SUITE(h, "protocol/member nothrow") { Driver<tiny::optional<WMN, &WMN::fl>>::run("optional<WithMemberNX,&fl>"); }
SUITE(i, "protocol/aip") { Driver<tiny::optional_aip<SpecT>>::run("optional_aip<SpecT>"); }
#elif PART == 3
// ------------------------------------------------------------------------------ payloads that do not report anything themselves
// Only the calls of the manipulator are monitored: init and invalidate alternate for each address, a flag lives exactly in the
// empty optionals.
struct Flags
{
  std::unordered_map<void const *, int> live;
  uint64_t sig = 0;
  void init(void const * a)
  {
    mon::eval();
    mon::count("init_empty_flag");
    sig = mon::mix(sig, 1);
    if (++live[a] != 1) {
      mon::fail("init_empty_flag although the empty flag lives already");
      live[a] = 1;
    }
  }
  void inval(void const * a)
  {
    mon::eval();
    mon::count("invalidate_empty_flag");
    sig = mon::mix(sig, 2);
    if (live.erase(a) != 1) {
      mon::fail("invalidate_empty_flag although no empty flag lives there");
    }
  }
};
Flags FL;

template <int Id, bool NX, bool TrivCopy>
struct Td // trivially destructible
{
  int state;
  int v;
  /*implicit*/ Td(int x) noexcept(NX)
  {
    if constexpr (!NX) {
      M.fault();
    }
    state = 1;
    v = x;
  }
  Td(int x, int y) noexcept(NX) : Td(x + y) { }
};
template <int Id, bool NX>
struct Td<Id, NX, false>
{
  int state;
  int v;
  /*implicit*/ Td(int x) noexcept(NX) { make(x); }
  Td(int x, int y) noexcept(NX) { make(x + y); }
  Td(Td const & o) noexcept(NX) { make(o.v); }
  Td & operator=(Td const & o) noexcept(NX)
  {
    if constexpr (!NX) {
      M.fault();
    }
    v = o.v;
    return *this;
  }
  void make(int x) noexcept(NX)
  {
    if constexpr (!NX) {
      M.fault();
    }
    state = 1;
    v = x;
    if constexpr (!NX) {
      M.fault();
    }
  }
};
template <int Id>
struct Nd // not trivially destructible, all noexcept, with a resource of its own
{
  int state;
  std::vector<int> v;
  /*implicit*/ Nd(int x) noexcept : state(1), v(static_cast<size_t>(x % 5), x) { }
  Nd(int x, int y) noexcept : Nd(x + y) { }
};
template <class P, class = void>
struct Mark
{
  static bool is(P const & p) { return p.state < 0; }
  static void set(P & p) { ::new (const_cast<void *>(static_cast<void const *>(std::addressof(p.state)))) int(-1); }
  static void clear(P & p) { const_cast<int &>(p.state) = 77; }
};
template <class P>
struct Mark<P, std::enable_if_t<std::is_arithmetic_v<P> || std::is_enum_v<P>>>
{
  static bool is(P const & p) { return p == static_cast<P>(101); }
  static void set(P & p) { ::new (const_cast<void *>(static_cast<void const *>(std::addressof(p)))) P(static_cast<P>(101)); }
  static void clear(P & p) { p = static_cast<P>(3); }
};
template <class P>
struct Mark<P *, void>
{
  static inline P dummy{};
  static bool is(P * const & p) { return p == &dummy; }
  static void set(P *& p) { ::new (static_cast<void *>(std::addressof(p))) (P *)(&dummy); }
  static void clear(P *& p) { p = nullptr; }
};
template <class P>
struct QManip // is_empty must be called only while flag or payload live; that is not observable here
{
  static bool is_empty(P const & p) noexcept { return Mark<P>::is(p); }
  static void init_empty_flag(P & p) noexcept
  {
    FL.init(std::addressof(p));
    Mark<P>::set(p);
  }
  static void invalidate_empty_flag(P & p) noexcept
  {
    FL.inval(std::addressof(p));
    if (!Mark<P>::is(p)) {
      mon::fail("invalidate_empty_flag gets a flag that does not indicate the empty state");
    }
    Mark<P>::clear(p);
  }
};
struct Qf // flag in a member
{
  int state = 1;
};
template <int Id>
struct WithQf
{
  long v;
  Qf q;
  /*implicit*/ WithQf(int x) noexcept : v(x) { }
  WithQf(int x, int y) noexcept : v(x + y) { }
};
template <class P>
P q_make(int x)
{
  if constexpr (std::is_pointer_v<P>) {
    static std::remove_pointer_t<P> arr[100];
    return arr + x;
  }
  else {
    return static_cast<P>(x);
  }
}

template <class O>
struct Quiet
{
  using P = std::remove_const_t<typename O::value_type>;
  static constexpr bool kConst = std::is_const_v<typename O::value_type>;
  static constexpr int N = 4;
  alignas(O) unsigned char buf[N][sizeof(O)];
  O * o[N] = {};

  static size_t in(void const * b, size_t n)
  {
    size_t c = 0;
    for (auto const & kv : FL.live) {
      c += kv.first >= b && kv.first < static_cast<char const *>(b) + n;
    }
    return c;
  }
  void check_all(const char * op)
  {
    size_t empty = 0;
    for (int i = 0; i < N; ++i) {
      mon::eval();
      size_t const want = o[i] && !o[i]->has_value() ? 1 : 0;
      empty += want;
      if (in(buf[i], sizeof buf[i]) != want) {
        mon::fail("after %s: %s", op, o[i] == nullptr ? "the empty flag of a destroyed optional was not invalidated"
                                      : want        ? "the empty optional has no initialised flag"
                                                    : "the flag of an engaged optional was not invalidated");
        std::fflush(stdout);
        std::_Exit(1);
      }
    }
    if (FL.live.size() != empty) {
      mon::fail("after %s: %zu empty flags live, but there are %zu empty optionals", op, FL.live.size(), empty);
      std::fflush(stdout);
      std::_Exit(1);
    }
    mon::seen(FL.sig);
    FL.sig = mon::mix(0, mon::str_hash(op));
  }
  template <class... A>
  void build(int i, A &&... a)
  {
    if (o[i]) {
      O * p = o[i];
      o[i] = nullptr;
      p->~O();
      check_all("destructor");
    }
    std::memset(buf[i], 0x5a, sizeof(O));
    o[i] = ::new (static_cast<void *>(buf[i])) O(std::forward<A>(a)...);
  }
  void step(mon::Rng & r)
  {
    int const i = static_cast<int>(r.below(N)), j = static_cast<int>(r.below(N)), k = (i + 1) % N;
    for (int x : {i, j}) {
      if (o[x] == nullptr) {
        build(x);
      }
    }
    O & a = *o[i];
    O & b = *o[j];
    int const x = static_cast<int>(r.below(100));
    uint32_t const op = r.below(24);
    P const val(q_make<P>(x));
    const char * name = "?";
    FL.sig = mon::mix(FL.sig, op * 64 + (a.has_value() ? 1u : 0u) + (b.has_value() ? 2u : 0u) + (i == j ? 4u : 0u));
    M.countdown = r.below(3) == 0 ? 1 + static_cast<long>(r.below(3)) : 0;
    bool const want = op == 0 || op == 1 ? false : true;
    (void)want;
    try {
      switch (op) {
      case 0: name = "default ctor"; build(k); break;
      case 1: name = "nullopt ctor"; build(k, std::nullopt); break;
      case 2: name = "value ctor"; build(k, val); break;
      case 3: name = "in_place ctor"; build(k, std::in_place, val); break;
      case 4: name = "copy ctor"; build(k, static_cast<O const &>(a)); break;
      case 5: name = "move ctor"; build(k, std::move(a)); break;
      case 6: name = "emplace"; a.emplace(val); break;
      case 7: name = "emplace"; if constexpr (std::is_class_v<P>) a.emplace(x, 1); break;
      case 8: name = "reset"; a.reset(); break;
      case 9: name = "= nullopt"; a = std::nullopt; break;
      case 10: name = "swap"; if constexpr (!kConst) a.swap(b); break;
      case 11: name = "= copy"; if constexpr (!kConst) a = static_cast<O const &>(b); break;
      case 12: name = "= move"; if constexpr (!kConst) { if (i != j) a = std::move(b); } break;
      case 13: name = "= value"; if constexpr (!kConst) a = val; break;
      case 14: name = "= value &&"; if constexpr (!kConst) a = P(val); break;
      case 15: name = "= {}"; if constexpr (!kConst) a = {}; break;
      case 16: name = "and_then"; (void)a.and_then([&](P const & p) { M.fault(); return O(p); }); break;
      case 17: name = "and_then giving empty"; (void)std::move(a).and_then([&](P const &) { return O(); }); break;
      case 18: name = "transform"; (void)a.transform([&](P const & p) { M.fault(); return P(p); }); break;
      case 19: name = "transform noexcept"; if constexpr (std::is_nothrow_copy_constructible_v<P>) (void)a.transform([&](P const &) noexcept { return P(val); }); break;
#ifdef TINY_OPTIONAL_ENABLE_ORELSE
      case 20: name = "or_else &"; (void)a.or_else([&] { M.fault(); return O(val); }); break;
      case 21: name = "or_else &&"; (void)std::move(a).or_else([&] { return O(); }); break;
#endif
      case 22: {
        name = "vector";
        std::vector<O> v;
        v.push_back(a);
        v.emplace_back(std::in_place, val);
        v.emplace_back();
        v.push_back(b);
        if constexpr (!kConst) {
          v.erase(v.begin());
        }
        break;
      }
      case 23: {
        name = "temporaries";
        O t(val);
        O u(std::move(t));
        if constexpr (!kConst) {
          t = O();
          u = O(val);
          using std::swap;
          swap(t, u);
        }
        break;
      }
      default: name = "nothing"; break;
      }
    }
    catch (Fault const &) {
      mon::count("faults fired");
      FL.sig = mon::mix(FL.sig, 99);
    }
    M.countdown = 0;
    check_all(name);
  }
  static void run(const char * name)
  {
    mon::context("quiet payload", name);
    mon::Rng r(mon::opt.seed ^ mon::str_hash(name));
    FL.live.clear();
    for (long h = 0; h < 12 * mon::opt.scale; ++h) {
      Quiet d;
      for (int s = 0; s < 60; ++s) {
        d.step(r);
      }
      for (int i = 0; i < N; ++i) {
        if (d.o[i]) {
          O * p = d.o[i];
          d.o[i] = nullptr;
          p->~O();
          d.check_all("destructor at the end");
        }
      }
    }
    mon::sample("%s: init and invalidate paired over %ld histories of 60 operations", name, 12 * mon::opt.scale);
  }
};
enum class En : unsigned char
{
  A
};
template <class P, class Q = P>
using QO = tiny::optional_inplace<P, QManip<Q>>;
using TdSpec = Td<1, true, true>;
using TdSpecT = Td<2, false, false>;
using NdSpec = Nd<1>;
#endif
} // namespace
#if PART == 3
template <>
struct tiny::optional_flag_manipulator<TdSpec> : QManip<TdSpec>
{
};
template <>
struct tiny::optional_flag_manipulator<TdSpecT> : QManip<TdSpecT>
{
};
template <>
struct tiny::optional_flag_manipulator<NdSpec> : QManip<NdSpec>
{
};
template <>
struct tiny::optional_flag_manipulator<Qf> : QManip<Qf>
{
};
namespace
{
#define QUIET(N, ...) \
  SUITE(MON_CAT(q, N), "protocol/quiet " #__VA_ARGS__) { Quiet<__VA_ARGS__>::run(#__VA_ARGS__); }
using TdA = Td<0, true, true>;
using TdB = Td<0, false, true>;
using TdC = Td<0, true, false>;
using TdD = Td<0, false, false>;
using NdA = Nd<0>;
using WQ = WithQf<0>;
QUIET(0, QO<TdA>)
QUIET(1, QO<TdB>)
QUIET(2, QO<TdC>)
QUIET(3, QO<TdD>)
QUIET(4, QO<NdA>)
QUIET(5, QO<int>)
QUIET(6, QO<unsigned char>)
QUIET(7, QO<double>)
QUIET(8, QO<En>)
QUIET(9, QO<int *>)
QUIET(10, QO<TdA const, TdA>)
QUIET(11, QO<TdD const, TdD>)
QUIET(12, QO<int const, int>)
QUIET(13, tiny::optional<TdSpec>)
QUIET(14, tiny::optional<TdSpecT>)
QUIET(15, tiny::optional<NdSpec>)
QUIET(16, tiny::optional_aip<TdSpec>)
QUIET(17, tiny::optional<WQ, &WQ::q>)
} // namespace
#endif
