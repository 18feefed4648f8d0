// C07: the debug assertions. Every documented misuse is executed in a forked child; the parent observes how it ended.
// Without NDEBUG the child must end in assert() (exit code 42 by vassert.cpp) before the misused operation returned; with
// NDEBUG it must survive. Legal histories are run by the engine with assertions enabled.
#include "kinds.h"
#include "vassert.h"
#include <sys/wait.h>
#include <unistd.h>

namespace
{
enum
{
  kReturned = 7
};

template <class F>
void expect_assert(const char * what, F f)
{
  mon::eval();
  std::fflush(stdout);
  pid_t const pid = fork();
  if (pid < 0) {
    std::printf("fork failed\n");
    _exit(9);
  }
  if (pid == 0) {
    vassert::expectAbort = true;
    f();
    _exit(kReturned);
  }
  int status = 0;
  while (waitpid(pid, &status, 0) != pid) {
  }
  int const code = WIFEXITED(status) ? WEXITSTATUS(status) : 1000 + WTERMSIG(status);
#ifdef NDEBUG
  if (code != kReturned) {
    mon::fail("%s: with NDEBUG the program ended abnormally (code %d)", what, code);
  }
#else
  if (code == kReturned) {
    mon::fail("%s: the operation returned without a failing assertion", what);
  }
  else if (code != 42) {
    mon::fail("%s: child ended with unexpected code %d", what, code);
  }
#endif
  mon::seen(mon::str_hash(what));
  mon::count("forked misuse cases");
  mon::sample("%s -> child ended with code %d", what, code);
}

// A legal use in a child, must return in both configurations.
template <class F>
void expect_fine(const char * what, F f)
{
  mon::eval();
  std::fflush(stdout);
  pid_t const pid = fork();
  if (pid == 0) {
    vassert::expectAbort = true;
    f();
    _exit(kReturned);
  }
  int status = 0;
  while (waitpid(pid, &status, 0) != pid) {
  }
  int const code = WIFEXITED(status) ? WEXITSTATUS(status) : 1000 + WTERMSIG(status);
  if (code != kReturned) {
    mon::fail("%s: legal use, but the program ended with code %d (42: assertion)", what, code);
  }
  mon::seen(mon::str_hash(what) ^ 1);
  mon::count("forked legal cases");
}

char nameBuf[300];
const char * cat(const char * a, const char * b)
{
  std::snprintf(nameBuf, sizeof nameBuf, "%s: %s", a, b);
  return nameBuf;
}

template <class T>
void escape(T && t)
{
  asm volatile("" : : "r"(&t) : "memory");
}

// ------------------------------------------------------------------ dereferencing an empty optional
template <class K>
void deref()
{
  using O = typename K::Tiny;
  const char * n = K::name();
  mon::context("deref", n);
  expect_assert(cat(n, "*lvalue"), [] { O o; escape(*o); });
  expect_assert(cat(n, "*const lvalue"), [] { O const o{}; escape(*o); });
  expect_assert(cat(n, "*rvalue"), [] { O o; escape(*std::move(o)); });
  expect_assert(cat(n, "*const rvalue"), [] { O const o{}; escape(*std::move(o)); });
  expect_assert(cat(n, "-> lvalue"), [] { O o; escape(*o.operator->()); });
  expect_assert(cat(n, "-> const lvalue"), [] { O const o{}; escape(*o.operator->()); });
  expect_assert(cat(n, "* after reset"), [] {
    O o(std::in_place, K::make(17));
    o.reset();
    escape(*o);
  });
  expect_assert(cat(n, "-> after = nullopt"), [] {
    O o(std::in_place, K::make(17));
    o = std::nullopt;
    escape(*o.operator->());
  });
  expect_fine(cat(n, "* and -> on engaged"), [] {
    O o(std::in_place, K::make(17));
    O const & c = o;
    escape(*o);
    escape(*c);
    escape(*c.operator->());
    escape(*o.operator->());
    escape(*std::move(c));
    escape(*std::move(o));
  });
}
#define DEREF(ID) deref<kd::ID>();

// ------------------------------------------------------------------ storing the sentinel
// Bad: makes a value that counts as empty; Good: an ordinary value
template <class O, class Bad, class Good>
void store(const char * n, Bad bad, Good good)
{
  using P = std::remove_const_t<typename O::value_type>;
  mon::context("store", n);
  // the sentinel is produced as lvalue and as rvalue
  expect_assert(cat(n, "construct from rvalue"), [&] { O o(bad()); escape(o); });
  expect_assert(cat(n, "construct from const lvalue"), [&] { P const b = bad(); O o(b); escape(o); });
  expect_assert(cat(n, "in_place"), [&] { O o(std::in_place, bad()); escape(o); });
  expect_assert(cat(n, "emplace into empty"), [&] { O o; o.emplace(bad()); });
  expect_assert(cat(n, "emplace over value"), [&] { O o(std::in_place, good()); o.emplace(bad()); });
  expect_assert(cat(n, "emplace after reset"), [&] { O o(std::in_place, good()); o.reset(); P const b = bad(); o.emplace(b); });
  if constexpr (std::is_assignable_v<O &, P>) {
    expect_assert(cat(n, "assign rvalue to empty"), [&] { O o; o = bad(); });
    expect_assert(cat(n, "assign rvalue to engaged"), [&] { O o(std::in_place, good()); o = bad(); });
    expect_assert(cat(n, "assign lvalue to empty"), [&] { O o; P b = bad(); o = b; });
    expect_assert(cat(n, "assign lvalue to engaged"), [&] { O o(std::in_place, good()); P const b = bad(); o = b; });
    expect_assert(cat(n, "assign twice"), [&] { O o; o = good(); o = good(); o = bad(); });
  }
  expect_assert(cat(n, "and_then making one"), [&] { O o(std::in_place, good()); escape(o.and_then([&](auto &&) { return O(bad()); })); });
  expect_fine(cat(n, "good value everywhere"), [&] {
    O o(good());
    O p(std::in_place, good());
    p.emplace(good());
    O e;
    e.emplace(good());
    e.reset();
    e.reset();
    if constexpr (std::is_assignable_v<O &, P>) {
      e = good();
      e = good();
    }
    O c(o);
    O m(std::move(c));
    O x{};
    O y(x);
    O z(std::move(x));
    if constexpr (std::is_copy_assignable_v<O>) {
      y = o;
      y = z;
      o.swap(z);
      o.swap(z);
      e = std::move(o);
      z = {};
    }
    escape(e.value_or(good()));
    escape(z.value_or(bad())); // giving the sentinel as default is legal
    escape(z == bad());        // so is comparing with it
  });
}

// ------------------------------------------------------------------ moves that empty the source
struct Handle // a handle type whose moved-from state is -1
{
  int h;
  explicit Handle(int x) noexcept : h(x) { }
  Handle(Handle && o) noexcept : h(o.h) { o.h = -1; }
  Handle & operator=(Handle && o) noexcept
  {
    h = o.h;
    o.h = -1;
    return *this;
  }
  friend bool operator==(Handle const & l, Handle const & r) noexcept { return l.h == r.h; }
};
struct HandleInp : Handle
{
  using Handle::Handle;
};
struct HandleManip
{
  static bool is_empty(HandleInp const & x) noexcept { return x.h == -1; }
  static void init_empty_flag(HandleInp & x) noexcept { ::new (static_cast<void *>(&x)) HandleInp(-1); }
  static void invalidate_empty_flag(HandleInp & x) noexcept { x.~HandleInp(); }
};

template <class O>
void moves(const char * n)
{
  mon::context("moves", n);
  expect_assert(cat(n, "move construction empties source"), [] { O a(std::in_place, 3); O b(std::move(a)); escape(b); });
  expect_assert(cat(n, "move assignment to empty empties source"), [] { O a(std::in_place, 3), b; b = std::move(a); });
  expect_assert(cat(n, "move assignment to engaged empties source"), [] { O a(std::in_place, 3), b(std::in_place, 4); b = std::move(a); });
  expect_fine(cat(n, "moving empties"), [] { O a, b(std::move(a)), c(std::in_place, 4); c = std::move(b); b = std::move(c); });
}

// transform() returns optional<U>; the sentinel can only come from U's own reserved value
double reserved_double()
{
  return kd::bit_as<double>(uint64_t(0x7ff8fedcba987654ull));
}
float reserved_float()
{
  return kd::bit_as<float>(uint32_t(0x7fedcba9u));
}
int * reserved_ptr()
{
  return kd::bit_as<int *>(sizeof(void *) == 8 ? static_cast<uintptr_t>(0xffff7fffffffffffull) : static_cast<uintptr_t>(0xfffffff7u));
}

#if PART == 0
SUITE(store_ints, "misuse/store integers")
{
  store<tiny::optional<int, -1>>("optional<int,-1>", [] { return -1; }, [] { return 4; });
  store<tiny::optional<int, 0>>("optional<int,0>", [] { return 0; }, [] { return 4; });
  store<tiny::optional<uint8_t, 255>>("optional<uint8_t,255>", [] { return uint8_t(255); }, [] { return uint8_t(4); });
  store<tiny::optional<int64_t, 42>>("optional<int64_t,42>", [] { return int64_t(42); }, [] { return int64_t(4); });
  store<tiny::optional<pl::Color, pl::Color::Max>>("optional<Color,Max>", [] { return pl::Color::Max; }, [] { return pl::Color::Red; });
  store<tiny::optional<bool, true>>("optional<bool,true>", [] { return true; }, [] { return false; });
  store<tiny::optional<int *, nullptr>>("optional<int*,nullptr>", [] { return static_cast<int *>(nullptr); }, [] { return pl::pool + 0; });
  store<tiny::optional_aip<short>>("aip<short>", [] { return short(SHRT_MIN); }, [] { return short(4); });
  store<tiny::optional_aip<unsigned>>("aip<unsigned>", [] { return UINT_MAX; }, [] { return 4u; });
  store<tiny::optional_aip<long long>>("aip<long long>", [] { return LLONG_MIN; }, [] { return 4ll; });
  store<tiny::optional_aip<unsigned long>>("aip<unsigned long>", [] { return ULONG_MAX; }, [] { return 4ul; });
  store<tiny::optional_sentinel_via_type<int, kd::SentM7>>("via type int", [] { return -7; }, [] { return 4; });
  store<tiny::optional_sentinel_via_type<double, kd::SentDbl>>("via type double", [] { return -1.0; }, [] { return 4.0; });
  store<tiny::optional_sentinel_via_type<kd::Ticks, kd::SentTicks>>("via type Ticks", [] { return kd::SentTicks::value; }, [] { return kd::Ticks(4); });
  store<tiny::optional_inplace<int, kd::InplaceIntManip>>("inplace<int>", [] { return -1; }, [] { return 4; });
  store<tiny::optional<kd::Reg>>("optional<Reg>", [] { return kd::Reg::Max; }, [] { return kd::Reg::A; });
  store<tiny::optional<int const, -1>>("optional<int const,-1>", [] { return -1; }, [] { return 4; });

  mon::context("store", "converting");
  expect_assert("short to optional<int,-1>, construct", [] { tiny::optional<int, -1> o(short(-1)); escape(o); });
  expect_assert("short to optional<int,-1>, assign to empty", [] { tiny::optional<int, -1> o; o = short(-1); });
  expect_assert("short to optional<int,-1>, assign to engaged", [] { tiny::optional<int, -1> o(2); o = short(-1); });
  expect_assert("double to optional<int,7>", [] { tiny::optional<int, 7> o(2); o = 7.25; });
  expect_assert("make_optional<int,-1>(v)", [] { escape(tiny::make_optional<int, -1>(-1)); });
  expect_assert("make_optional<unsigned,1>(v)", [] { escape(tiny::make_optional<unsigned, 1>(1)); });
  expect_assert("value initialisation gives the sentinel (in_place)", [] { tiny::optional<int, 0> o(std::in_place); escape(o); });
  expect_assert("value initialisation gives the sentinel (emplace)", [] { tiny::optional<int, 0> o; o.emplace(); });
  expect_fine("make_optional", [] { escape(tiny::make_optional<int, -1>(1)); });
}
SUITE(store_bits, "misuse/store reserved patterns")
{
  store<tiny::optional<double>>("optional<double>", [] { return reserved_double(); }, [] { return 4.0; });
  store<tiny::optional<float>>("optional<float>", [] { return reserved_float(); }, [] { return 4.0f; });
  store<tiny::optional<int *>>("optional<int*>", [] { return reserved_ptr(); }, [] { return pl::pool + 0; });
  store<tiny::optional<double const>>("optional<double const>", [] { return reserved_double(); }, [] { return 4.0; });
  mon::context("store", "transform");
  expect_assert("transform to reserved double, lvalue", [] { tiny::optional<int> o(1); escape(o.transform([](int) { return reserved_double(); })); });
  expect_assert("transform to reserved double, const", [] { tiny::optional<int> const o(1); escape(o.transform([](int) { return reserved_double(); })); });
  expect_assert("transform to reserved float, rvalue", [] { tiny::optional<int> o(1); escape(std::move(o).transform([](int) { return reserved_float(); })); });
  expect_assert("transform to reserved pointer, const rvalue", [] { tiny::optional<int> const o(1); escape(std::move(o).transform([](int) noexcept { return reserved_ptr(); })); });
  expect_assert("transform to enum with manipulator", [] { tiny::optional<int> o(1); escape(o.transform([](int) { return kd::Reg::Max; })); });
  expect_assert("transform to IndexPair with manipulator", [] { tiny::optional<int> o(1); escape(o.transform([](int) { return kd::IndexPair(-7); })); });
  expect_fine("transform to fine values", [] {
    tiny::optional<int> o(1), e;
    escape(o.transform([](int) { return 4.0; }));
    escape(e.transform([](int) { return reserved_double(); }));
    escape(o.transform([](int) { return kd::Reg::A; }));
  });
}
SUITE(store_obj, "misuse/store objects")
{
  auto agg = [](auto mod) {
    return [mod] {
      pl::Agg a(5);
      mod(a);
      return a;
    };
  };
  auto good = [] { return pl::Agg(6); };
  store<tiny::optional<pl::Agg, &pl::Agg::i, -1>>("member i", agg([](pl::Agg & a) { a.i = -1; }), good);
  store<tiny::optional<pl::Agg, &pl::Agg::c, pl::Color::Max>>("member c", agg([](pl::Agg & a) { a.c = pl::Color::Max; }), good);
  store<tiny::optional<pl::Agg, &pl::Agg::d>>("member d", agg([](pl::Agg & a) { a.d = reserved_double(); }), good);
  store<tiny::optional<pl::Agg, &pl::Agg::f>>("member f", agg([](pl::Agg & a) { a.f = reserved_float(); }), good);
  store<tiny::optional<pl::Agg, &pl::Agg::p>>("member p", agg([](pl::Agg & a) { a.p = reserved_ptr(); }), good);
  store<tiny::optional<pl::Agg, &pl::Agg::p, nullptr>>("member p null", agg([](pl::Agg & a) { a.p = nullptr; }), good);
  store<tiny::optional_sentinel_via_type<pl::Agg, kd::SentDbl, &pl::Agg::d>>("member d via type", agg([](pl::Agg & a) { a.d = -1; }), good);
  store<tiny::optional_sentinel_via_type<pl::Agg, kd::SentM7, &pl::Agg::i>>("member i via type", agg([](pl::Agg & a) { a.i = -7; }), good);
  store<tiny::optional<kd::IndexPair>>("IndexPair", [] { return kd::IndexPair(-7); }, [] { return kd::IndexPair(4); });
  mon::context("store", "make_optional");
  expect_assert("make_optional with member", [] { pl::Agg a(5); a.i = -1; escape(tiny::make_optional<pl::Agg, &pl::Agg::i, -1>(a)); });
  expect_assert("make_optional in place", [] { escape(tiny::make_optional<kd::IndexPair>(-7)); });
}
SUITE(mv, "misuse/moves emptying the source")
{
  moves<tiny::optional<Handle, &Handle::h, -1>>("optional<Handle,&h,-1>");
  moves<tiny::optional_inplace<HandleInp, HandleManip>>("optional_inplace<HandleInp>");
  moves<tiny::optional_sentinel_via_type<Handle, std::integral_constant<int, -1>, &Handle::h>>("via type Handle");
}
#elif PART == 1
SUITE(d1, "misuse/deref plain")
{
  DEREF(IntSep)
  DEREF(U8Sep)
  DEREF(LDouble)
  DEREF(StrSep)
  DEREF(UPtrSep)
  DEREF(ConstInt)
  DEREF(AggSep)
  DEREF(Bool)
  DEREF(ConstBool)
  DEREF(Dbl)
  DEREF(Flt)
  DEREF(PtrInt)
  DEREF(PtrFn)
  DEREF(IntM1)
  DEREF(U8x255)
  DEREF(BoolTrue)
  DEREF(PtrNull)
}
#elif PART == 2
SUITE(d2, "misuse/deref special")
{
  DEREF(ViaInt)
  DEREF(ViaDbl)
  DEREF(AipI16)
  DEREF(AipU64)
  DEREF(MemD)
  DEREF(MemB)
  DEREF(MemI)
  DEREF(MemViaD)
  DEREF(MemFlagged)
  DEREF(CusPair)
  DEREF(CusRes)
  DEREF(CusAgg)
  DEREF(CusReg)
  DEREF(InpInt)
  DEREF(InpAgg)
  DEREF(InpRes)
  DEREF(NestBool)
}
#endif
} // namespace
