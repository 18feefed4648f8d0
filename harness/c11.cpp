// C11: and_then, transform, or_else. Spy callables record how often, on what, and with which categories they were invoked.
#include "kinds.h"
#include <functional>

namespace
{
enum Cat
{
  L,
  CL,
  R,
  CR
};
const char * const catName[] = {"&", "const &", "&&", "const &&"};

template <class T>
constexpr Cat cat_of() // T: deduced as forwarding reference type, T&&
{
  constexpr bool c = std::is_const_v<std::remove_reference_t<T>>;
  return std::is_lvalue_reference_v<T> ? (c ? CL : L) : (c ? CR : R);
}

struct CallLog
{
  int calls = 0;
  Cat self = L;
  Cat arg = L;
  void const * addr = nullptr;
  bool thrown = false;
};
struct Boom
{
  int id;
};

// A callable that is neither copyable nor movable; Ret(*)(Arg) does the work.
// NX: the invocations are noexcept.
template <class Body, bool NX = false>
struct SpyF
{
  CallLog & log;
  Body body;
  SpyF(CallLog & l, Body b) : log(l), body(b) { }
  SpyF(SpyF const &) = delete;
  template <class A>
  auto operator()(A && a) & noexcept(NX) { return call<A>(L, std::forward<A>(a)); }
  template <class A>
  auto operator()(A && a) const & noexcept(NX) { return call<A>(CL, std::forward<A>(a)); }
  template <class A>
  auto operator()(A && a) && noexcept(NX) { return call<A>(R, std::forward<A>(a)); }
  template <class A>
  auto operator()(A && a) const && noexcept(NX) { return call<A>(CR, std::forward<A>(a)); }
  template <class A>
  auto call(Cat self, A && a) const noexcept(NX)
  {
    ++log.calls;
    log.self = self;
    log.arg = cat_of<A &&>();
    log.addr = std::addressof(a);
    return body(std::forward<A>(a));
  }
};
template <class Body>
struct SpyE // for or_else
{
  CallLog & log;
  Body body;
  SpyE(CallLog & l, Body b) : log(l), body(b) { }
  SpyE(SpyE const &) = delete;
  auto operator()() & { return call(L); }
  auto operator()() const & { return call(CL); }
  auto operator()() && { return call(R); }
  auto operator()() const && { return call(CR); }
  auto call(Cat self) const
  {
    ++log.calls;
    log.self = self;
    return body();
  }
};

template <class O, class F>
decltype(auto) with_cat(Cat c, O & o, F && f)
{
  switch (c) {
  case L: f(o); break;
  case CL: f(static_cast<O const &>(o)); break;
  case R: f(std::move(o)); break;
  case CR: f(static_cast<O const &&>(o)); break;
  }
}

struct Immovable
{
  uint64_t k;
  Immovable * self;
  static inline int made = 0;
  explicit Immovable(uint64_t x) : k(x), self(this) { ++made; }
  Immovable(Immovable &&) = delete;
};
struct ImmovNX
{
  uint64_t k;
  ImmovNX * self;
  explicit ImmovNX(uint64_t x) noexcept : k(x), self(this) { }
  ImmovNX(ImmovNX const &) = delete;
  ImmovNX & operator=(ImmovNX const &) = delete;
};
struct MoveOnly
{
  std::unique_ptr<uint64_t> p;
  explicit MoveOnly(uint64_t x) : p(new uint64_t(x)) { }
};

pl::Log events;
struct Recording
{
  Recording()
  {
    events.clear();
    pl::world.log = &events;
  }
  ~Recording() { pl::world.log = nullptr; }
};

template <class K>
struct Suite
{
  using O = typename K::Tiny;
  using P = typename K::P;
  static constexpr bool kPConst = std::is_const_v<P>;

  static Cat expected_arg(Cat oc) { return kPConst ? (oc == L ? CL : oc == R ? CR : oc) : oc; }

  static void judge(const char * op, Cat oc, Cat fc, bool engaged, CallLog const & log, O const & o, uint64_t keyBefore)
  {
    mon::eval(4);
    int const want = engaged ? 1 : 0;
    if (log.calls != want) {
      mon::fail("%s on %s %s: callable invoked %d times instead of %d", op, engaged ? "engaged" : "empty", catName[oc], log.calls, want);
    }
    else if (engaged) {
      if (log.arg != expected_arg(oc)) {
        mon::fail("%s: payload passed as %s instead of %s", op, catName[log.arg], catName[expected_arg(oc)]);
      }
      if (log.self != fc) {
        mon::fail("%s: callable invoked as %s although given as %s", op, catName[log.self], catName[fc]);
      }
      if (log.addr != static_cast<void const *>(std::addressof(*o))) {
        mon::fail("%s: callable did not get the payload object itself", op);
      }
    }
    if (o.has_value() != engaged) {
      mon::fail("%s changed the engagement of its source", op);
    }
    else if (engaged && K::key(*o) != keyBefore) {
      mon::fail("%s changed the value of its source", op);
    }
    if (events.n != 0) {
      char buf[300];
      events.print(buf, sizeof buf);
      mon::fail("%s performed payload operations on its own: %s", op, buf);
    }
    mon::seen(mon::mix(mon::mix(mon::str_hash(op), mon::str_hash(K::name())), static_cast<uint64_t>(oc) * 64 + static_cast<uint64_t>(fc) * 8 + engaged));
  }

  // Calls 'invoke(optional with category, callable with category)' in all 2 x 4 x 4 combinations.
  template <class Body, class Invoke>
  static void all(const char * op, Body body, Invoke invoke)
  {
    all_of<false>(op, body, invoke);
    all_of<true>(op, body, invoke);
  }
  template <bool NX, class Body, class Invoke>
  static void all_of(const char * op, Body body, Invoke invoke)
  {
    for (uint32_t engaged = 0; engaged < 2; ++engaged) {
      for (Cat oc : {L, CL, R, CR}) {
        for (Cat fc : {L, CL, R, CR}) {
          mon::trace(op, engaged, oc, fc);
          O o;
          uint64_t key = 0;
          if (engaged) {
            o.emplace(K::make(23));
            key = K::key(*o);
          }
          CallLog log;
          SpyF<Body, NX> f(log, body);
          Recording rec;
          with_cat(oc, o, [&](auto && x) {
            with_cat(fc, f, [&](auto && y) { invoke(std::forward<decltype(x)>(x), std::forward<decltype(y)>(y), engaged != 0, key); });
          });
          judge(op, oc, fc, engaged != 0, log, o, key);
        }
      }
    }
  }

  static uint64_t k(P const & p) { return K::key(p); }

  template <class Res, class Make, class Get>
  static void and_then_to(const char * op, Make make, Get get)
  {
    all(op, [make](P const & p) { return make(k(p)); },
        [&](auto && o, auto && f, bool engaged, uint64_t key) {
          auto && r = std::forward<decltype(o)>(o).and_then(std::forward<decltype(f)>(f));
          static_assert(std::is_same_v<decltype(r), Res &&>, "and_then returns the callable's result type by value");
          mon::eval();
          if (r.has_value() != engaged || (engaged && get(*r) != static_cast<uint64_t>(key))) {
            mon::fail("%s: wrong result", op);
          }
        });
    // callable that returns an empty optional
    all(op, [](P const &) { return Res(); },
        [&](auto && o, auto && f, bool, uint64_t) {
          auto r = std::forward<decltype(o)>(o).and_then(std::forward<decltype(f)>(f));
          mon::eval();
          if (r.has_value()) {
            mon::fail("%s: the empty result of the callable became engaged", op);
          }
        });
  }

  template <class U, class Make, class Get>
  static void transform_to(const char * op, Make make, Get get)
  {
    all(op, [make](P const & p) { return make(k(p)); },
        [&](auto && o, auto && f, bool engaged, uint64_t key) {
          auto && r = std::forward<decltype(o)>(o).transform(std::forward<decltype(f)>(f));
          static_assert(std::is_same_v<decltype(r), tiny::optional<U> &&>, "transform returns tiny::optional<U>");
          mon::eval();
          if (r.has_value() != engaged || (engaged && get(*r) != key)) {
            mon::fail("%s: wrong result", op);
          }
        });
  }

  static void run()
  {
    mon::context("monadic", K::name());
    and_then_to<tiny::optional<uint64_t>>("and_then -> tiny::optional<u64>", [](uint64_t x) { return tiny::optional<uint64_t>(x); }, [](uint64_t x) { return x; });
    and_then_to<std::optional<uint64_t>>("and_then -> std::optional<u64>", [](uint64_t x) { return std::optional<uint64_t>(x); }, [](uint64_t x) { return x; });
    and_then_to<tiny::optional<uint64_t, UINT64_MAX - 1>>("and_then -> sentinel optional", [](uint64_t x) { return tiny::optional<uint64_t, UINT64_MAX - 1>(x); }, [](uint64_t x) { return x; });
    and_then_to<tiny::optional<MoveOnly>>("and_then -> move only", [](uint64_t x) { return tiny::optional<MoveOnly>(std::in_place, x); }, [](MoveOnly const & x) { return *x.p; });
    using Inp = tiny::optional_inplace<uint64_t, tiny::sentinel_flag_manipulator<uint64_t, UINT64_MAX - 1>>;
    and_then_to<Inp>("and_then -> inplace", [](uint64_t x) { return Inp(x); }, [](uint64_t x) { return x; });
    and_then_to<tiny::optional<Immovable>>("and_then -> immovable (guaranteed elision)", [](uint64_t x) { return tiny::optional<Immovable>(std::in_place, x); }, [](Immovable const & x) { return x.k; });

    transform_to<uint64_t>("transform -> u64", [](uint64_t x) { return x; }, [](uint64_t x) { return x; });
    transform_to<double>("transform -> double", [](uint64_t x) { return kd::bit_as<double>(x >> 2); }, [](double d) { return kd::bit_as<uint64_t>(d) << 2; }, 1);
    transform_to<bool>("transform -> bool", [](uint64_t) { return true; }, nullptr, 1);
    transform_to<Immovable>("transform -> immovable", [](uint64_t x) { return Immovable(x); },
                            [](Immovable const & x) { return x.self == &x ? x.k : ~x.k; });
    transform_to<ImmovNX>("transform -> immovable nothrow", [](uint64_t x) noexcept { return ImmovNX(x); },
                          [](ImmovNX const & x) { return x.self == &x ? x.k : ~x.k; });
    transform_to<MoveOnly>("transform -> move only", [](uint64_t x) { return MoveOnly(x); }, [](MoveOnly const & x) { return *x.p; });
    transform_to<std::string>("transform -> string", [](uint64_t x) { return std::to_string(x) + "................................"; },
                              [](std::string const & s) { return std::stoull(s); });
    transform_to<tiny::optional<uint64_t>>("transform -> nested optional", [](uint64_t x) { return tiny::optional<uint64_t>(x); }, [](tiny::optional<uint64_t> const & x) { return *x; });
    transform_to<kd::Ticks>("transform -> Ticks", [](uint64_t x) { return kd::Ticks(static_cast<int64_t>(x)); }, [](kd::Ticks const & t) { return static_cast<uint64_t>(t.n); });

    // a result that counts its own events: exactly one construction, no copies or moves
    all("transform -> Trk", [](P const &) { return pl::Trk(7); },
        [&](auto && o, auto && f, bool engaged, uint64_t) {
          {
            auto && r = std::forward<decltype(o)>(o).transform(std::forward<decltype(f)>(f));
            mon::eval(2);
            if (r.has_value() != engaged || (engaged && r->v != 7)) {
              mon::fail("transform -> Trk: wrong result");
            }
            if (events.n != (engaged ? 1 : 0) || (engaged && events.ev[0].e != pl::EvVal)) {
              mon::fail("transform -> Trk: the result was not built in place (%d events)", events.n);
            }
          }
          events.clear();
        });

    // the same with results of other traits
    transform_counted<pl::kAllNX>("transform -> nothrow");
    transform_counted<pl::kAllNX | pl::kTrivDtor>("transform -> nothrow, trivial destructor");
    transform_counted<pl::kTrivDtor>("transform -> trivial destructor");

    exceptions();
    mutations();
    or_elses();
  }
  template <int F>
  static void transform_counted(const char * op)
  {
    all(op, [](P const &) { return pl::TrkX<F>(7); },
        [&](auto && o, auto && f, bool engaged, uint64_t) {
          {
            auto && r = std::forward<decltype(o)>(o).transform(std::forward<decltype(f)>(f));
            static_assert(std::is_same_v<decltype(r), tiny::optional<pl::TrkX<F>> &&>, "transform returns tiny::optional<U>");
            mon::eval(2);
            if (r.has_value() != engaged || (engaged && r->v != 7)) {
              mon::fail("%s: wrong result", op);
            }
            if (events.n != (engaged ? 1 : 0) || (engaged && events.ev[0].e != pl::EvVal)) {
              mon::fail("%s: the result was not built in place (%d events)", op, events.n);
            }
          }
          events.clear();
        });
    // and_then hands the result through
    all(op, [](P const &) { return tiny::optional<pl::TrkX<F>>(7); },
        [&](auto && o, auto && f, bool engaged, uint64_t) {
          {
            auto && r = std::forward<decltype(o)>(o).and_then(std::forward<decltype(f)>(f));
            mon::eval(2);
            if (r.has_value() != engaged || (engaged && r->v != 7)) {
              mon::fail("and_then / %s: wrong result", op);
            }
            if (events.n != (engaged ? 1 : 0) || (engaged && events.ev[0].e != pl::EvVal)) {
              mon::fail("and_then / %s: the result was not handed through (%d events)", op, events.n);
            }
          }
          events.clear();
        });
  }
  // overload for lossy result types: only engagement is compared
  template <class U, class Make, class Get>
  static void transform_to(const char * op, Make make, Get, int)
  {
    all(op, [make](P const & p) { return make(k(p)); },
        [&](auto && o, auto && f, bool engaged, uint64_t key) {
          auto r = std::forward<decltype(o)>(o).transform(std::forward<decltype(f)>(f));
          static_assert(std::is_same_v<decltype(r), tiny::optional<U>>, "transform returns tiny::optional<U>");
          mon::eval();
          if (r.has_value() != engaged || (engaged && std::memcmp(std::addressof(*r), std::addressof(static_cast<U const &>(make(key))), sizeof(U)) != 0)) {
            mon::fail("%s: wrong result", op);
          }
        });
  }

  template <class Body, class Invoke>
  static void throwing(const char * op, Body body, Invoke invoke)
  {
    for (Cat oc : {L, CL, R, CR}) {
      O o(std::in_place, K::make(23));
      uint64_t const key = K::key(*o);
      CallLog log;
      SpyF<Body> f(log, body);
      bool caught = false;
      {
        Recording rec;
        with_cat(oc, o, [&](auto && x) {
          try {
            invoke(std::forward<decltype(x)>(x), f);
          }
          catch (Boom const & b) {
            caught = b.id == 5;
          }
        });
      }
      mon::eval();
      if (!caught) {
        mon::fail("%s: the exception of the callable did not propagate", op);
      }
      judge(op, oc, L, true, log, o, key);
      mon::count("callable exceptions propagated");
    }
  }
  static void exceptions()
  {
    throwing("and_then throwing", [](P const &) -> tiny::optional<int> { throw Boom{5}; }, [](auto && o, auto & f) { (void)std::forward<decltype(o)>(o).and_then(f); });
    throwing("transform throwing, int", [](P const &) -> int { throw Boom{5}; }, [](auto && o, auto & f) { (void)std::forward<decltype(o)>(o).transform(f); });
    throwing("transform throwing, double", [](P const &) -> double { throw Boom{5}; }, [](auto && o, auto & f) { (void)std::forward<decltype(o)>(o).transform(f); });
    throwing("transform throwing, string", [](P const &) -> std::string { throw Boom{5}; }, [](auto && o, auto & f) { (void)std::forward<decltype(o)>(o).transform(f); });
    throwing("transform throwing, manipulator", [](P const &) -> kd::WithRes { throw Boom{5}; }, [](auto && o, auto & f) { (void)std::forward<decltype(o)>(o).transform(f); });
    throwing("transform throwing, immovable", [](P const &) -> Immovable { throw Boom{5}; }, [](auto && o, auto & f) { (void)std::forward<decltype(o)>(o).transform(f); });
  }

  // The callable may modify or move from the payload: the source keeps exactly that.
  static void mutations()
  {
    if constexpr (!kPConst && std::is_move_assignable_v<P>) {
      for (int mode = 0; mode < 4; ++mode) {
        O o(std::in_place, K::make(23));
        P repl = K::make(40);
        uint64_t const want = K::key(repl);
        bool caught = false;
        try {
          if (mode == 0) {
            (void)o.and_then([&](P & p) { p = std::move(repl); return tiny::optional<int>(1); });
          }
          else if (mode == 1) {
            (void)o.transform([&](P & p) { p = std::move(repl); return 1; });
          }
          else if (mode == 2) {
            (void)o.transform([&](P & p) -> int { p = std::move(repl); throw Boom{1}; });
          }
          else {
            (void)std::move(o).and_then([&](P && p) -> tiny::optional<int> { p = std::move(repl); throw Boom{1}; });
          }
        }
        catch (Boom const &) {
          caught = true;
        }
        mon::eval(2);
        if (caught != (mode >= 2) || !o.has_value() || K::key(*o) != want) {
          mon::fail("source does not show what the callable did to it (mode %d)", mode);
        }
        mon::seen(mon::mix(mon::str_hash(K::name()), static_cast<uint64_t>(mode) + 7000));
      }
    }
  }

  static int count_events(int what)
  {
    int n = 0;
    for (int i = 0; i < events.n && i < pl::Log::kMax; ++i) {
      n += events.ev[i].e == what;
    }
    return n;
  }
  template <class F>
  static int copies_and_moves(F f)
  {
    Recording rec;
    f();
    return count_events(pl::EvCopy) + count_events(pl::EvMove);
  }
  // number of moves (or copies) reported when the payload is moved
  static int emits()
  {
    auto a = K::make(3);
    Recording rec;
    P b(std::move(a));
    (void)b;
    return count_events(pl::EvCopy) + count_events(pl::EvMove);
  }

  static void or_elses()
  {
#ifdef TINY_OPTIONAL_ENABLE_ORELSE
    for (uint32_t engaged = 0; engaged < 2; ++engaged) {
      for (Cat oc : {L, CL, R, CR}) {
        for (Cat fc : {L, CL, R, CR}) {
          for (int what = 0; what < 3; ++what) { // callable returns value, empty, throws
            mon::trace("or_else", engaged, oc, fc);
            O o;
            uint64_t key = 0, other = 0;
            if (engaged) {
              o.emplace(K::make(23));
              key = K::key(*o);
            }
            CallLog log;
            auto body = [what, &other]() -> O {
              if (what == 2) {
                throw Boom{9};
              }
              if (what == 1) {
                return O();
              }
              return O(std::in_place, K::make(40));
            };
            {
              P const expected = K::make(40);
              other = K::key(expected);
            }
            int const inBody = copies_and_moves([&] { if (what == 0) { O r = body(); (void)r; } });
            SpyE<decltype(body)> f(log, body);
            bool caught = false, resultEngaged = false;
            uint64_t resultKey = 0;
            auto invoke = [&](auto && x, auto && y) {
              using X = decltype(x);
              constexpr bool copying = std::is_lvalue_reference_v<X> || std::is_const_v<std::remove_reference_t<X>>;
              if constexpr (!copying || std::is_copy_constructible_v<P>) {
                int copies = 0, moves = 0;
                int const ops = copies_and_moves([&] {
                  try {
                    auto && r = std::forward<X>(x).or_else(std::forward<decltype(y)>(y));
                    static_assert(std::is_same_v<decltype(r), O &&>, "or_else returns the same optional type");
                    copies = count_events(pl::EvCopy);
                    moves = count_events(pl::EvMove);
                    resultEngaged = r.has_value();
                    resultKey = resultEngaged ? K::key(*r) : 0;
                  }
                  catch (Boom const & b) {
                    caught = b.id == 9;
                  }
                });
                mon::eval(4);
                if (!engaged && ops != inBody) {
                  mon::fail("or_else: the result of the callable was copied or moved (%d instead of %d operations)", ops, inBody);
                }
                if (engaged) {
                  bool const copy = copying || kPConst;
                  int const n = emits();
                  if (copies != (copy ? n : 0) || moves != (copy ? 0 : n)) {
                    mon::fail("or_else on engaged %s: %d copies and %d moves of the payload", catName[oc], copies, moves);
                  }
                }
                bool const expectCall = !engaged;
                if (log.calls != (expectCall ? 1 : 0)) {
                  mon::fail("or_else on %s %s: callable invoked %d times", engaged ? "engaged" : "empty", catName[oc], log.calls);
                }
                else if (expectCall && log.self != fc) {
                  mon::fail("or_else: callable invoked as %s although given as %s", catName[log.self], catName[fc]);
                }
                if (caught != (expectCall && what == 2)) {
                  mon::fail("or_else: exception of the callable did not propagate");
                }
                bool const wantEngaged = engaged || what == 0;
                if (!caught && (resultEngaged != wantEngaged || (wantEngaged && resultKey != (engaged ? key : other)))) {
                  mon::fail("or_else: wrong result");
                }
                if (o.has_value() != (engaged != 0)) {
                  mon::fail("or_else changed the engagement of its source");
                }
                else if (engaged && copying && K::key(*o) != key) {
                  mon::fail("or_else on an lvalue changed its source");
                }
                mon::seen(mon::mix(mon::str_hash(K::name()), 9000u + engaged * 512 + static_cast<uint64_t>(oc) * 64 + static_cast<uint64_t>(fc) * 8 + static_cast<uint64_t>(what)));
              }
            };
            with_cat(oc, o, [&](auto && x) { with_cat(fc, f, [&](auto && y) { invoke(std::forward<decltype(x)>(x), std::forward<decltype(y)>(y)); }); });
          }
        }
      }
    }
#endif
  }
};

// ------------------------------------------------------------------ other kinds of callables
struct S
{
  int x;
  tiny::optional<int> o;
  std::optional<long> so;
  int twice() const { return 2 * x; }
  int inc() { return ++x; }
  int rv() && { return -x; }
  tiny::optional<int> half() const { return x % 2 ? tiny::optional<int>() : tiny::optional<int>(x / 2); }
  explicit S(int v) : x(v), o(v + 1), so(v + 2) { }
};
double freeFn(S const & s) { return s.x * 0.5; }
tiny::optional<double> freeOpt(S const & s) { return s.x > 0 ? tiny::optional<double>(s.x * 0.5) : tiny::optional<double>(); }

struct ThrowCopy // copy of the result throws; transform must not copy
{
  int v;
  explicit ThrowCopy(int x) : v(x) { }
  ThrowCopy(ThrowCopy const &) { throw Boom{77}; }
};
struct RefQual // only callable as rvalue
{
  int operator()(S const & s) && { return s.x; }
  int operator()(S const &) & = delete;
};
struct OnlyLvalue
{
  int operator()(S const & s) & { return s.x; }
  int operator()(S const &) && = delete;
};
struct MoveOnlyFn
{
  std::unique_ptr<int> p;
  int operator()(S const & s) const { return s.x + *p; }
};

template <class OS>
void callables(const char * name)
{
  mon::context("callables", name);
  OS o(std::in_place, 8);
  OS const & c = o;
  OS e;
  CHECK(*o.transform(&S::twice) == 16);
  CHECK(*c.transform(&S::twice) == 16);
  CHECK(*o.transform(&S::inc) == 9 && o->x == 9);
  CHECK(*std::move(o).transform(&S::rv) == -9);
  CHECK(!e.transform(&S::twice).has_value());
  CHECK(!std::move(e).transform(&S::rv).has_value());
  CHECK(*o.and_then(&S::o) == 9);
  CHECK(*c.and_then(&S::so) == 10);
  CHECK(!o.and_then(&S::half).has_value());
  o->x = 8;
  CHECK(*o.and_then(&S::half) == 4);
  CHECK(!e.and_then(&S::o).has_value());
  CHECK(*o.transform(freeFn) == 4.0);
  CHECK(*o.transform(&freeFn) == 4.0);
  CHECK(*c.and_then(freeOpt) == 4.0);
  o->x = -2;
  CHECK(!c.and_then(freeOpt).has_value());
  o->x = 8;
  std::function<int(S const &)> fn = [](S const & s) { return s.x + 1; };
  CHECK(*o.transform(fn) == 9);
  CHECK(*o.transform(std::ref(fn)) == 9);
  std::function<int(S const &)> none;
  CHECK(!e.transform(none).has_value());
  bool thrown = false;
  try {
    (void)o.transform(none);
  }
  catch (std::bad_function_call const &) {
    thrown = true;
  }
  CHECK(thrown);
  CHECK(*o.transform(RefQual{}) == 8);
  OnlyLvalue ol;
  CHECK(*o.transform(ol) == 8);
  CHECK(*o.transform(MoveOnlyFn{std::make_unique<int>(3)}) == 11);
  CHECK(o.transform([](S const & s) { return ThrowCopy(s.x); })->v == 8);
  CHECK(c.transform([](S const & s) { return ThrowCopy(s.x); })->v == 8);
  // state of a stateful callable given as lvalue is kept
  int calls = 0;
  auto counting = [calls](S const &) mutable { return ++calls; };
  CHECK(*o.transform(counting) == 1);
  CHECK(*o.transform(counting) == 2);
  CHECK(!e.transform(counting).has_value());
  CHECK(*o.transform(counting) == 3);
  // const results decay
  auto r = o.transform([](S const & s) -> int const { return s.x; });
  static_assert(std::is_same_v<decltype(r), tiny::optional<int>>, "");
  CHECK(*r == 8);
  auto r2 = o.and_then([](S const & s) -> tiny::optional<int> const { return s.x; });
  static_assert(std::is_same_v<decltype(r2), tiny::optional<int>>, "");
  CHECK(*r2 == 8);
  // chain
  CHECK(*o.and_then(&S::half).transform([](int i) { return i + 1; }).and_then([](int i) { return std::optional<int>(i * 2); }) == 10);
  mon::seen(mon::str_hash(name));
}

#define RUN(ID) \
  SUITE(MON_CAT(run_, ID), "monadic/" #ID) { Suite<kd::ID>::run(); mon::sample("%s: all categories x states x callables", #ID); }
#if PART == 0
RUN(IntSep)
RUN(TrkSep)
#elif PART == 1
RUN(Dbl)
RUN(UPtrSep)
#elif PART == 2
RUN(MemI)
RUN(ViaInt)
#elif PART == 3
RUN(CusAgg)
RUN(ConstInt)
#elif PART == 4
RUN(InpAgg)
RUN(Bool)
#elif PART == 5
RUN(StrSep)
RUN(InpRes)
#elif PART == 6
RUN(PtrInt)
RUN(MemD)
#elif PART == 8
RUN(XTDInp)
RUN(XNXSep)
#elif PART == 9
RUN(XNXInp)
RUN(XTDSep)
#elif PART == 10
RUN(XMcInp)
RUN(XTDTMem)
#elif PART == 11
RUN(XBigNXInp)
RUN(XTDTInp)
#elif PART == 12
RUN(XPolySep)
RUN(XMcValInp)
#elif PART == 13
RUN(XNoSwMem)
RUN(XMaMem)
#elif PART == 7
RUN(TrkMOSep)
RUN(AipU64)
SUITE(call, "monadic/callables")
{
  callables<tiny::optional<S>>("optional<S>");
  callables<tiny::optional<S, &S::x, -777>>("optional<S,&x,-777>");
}
#endif
} // namespace
