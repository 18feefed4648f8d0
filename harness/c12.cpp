// C12: comparisons. Probe payloads record which operator was called on which objects and answer as told, so that the result
// of each comparison of optionals is determined by the monitor and not by any ordering the payload has. A second part compares
// with std::optional for ordinary types.
#include "mon.h"
#include <tiny/optional.h>

#include <cmath>
#include <limits>
#include <optional>
#include <string>
#include <string_view>
#include <vector>
#if defined(__cpp_lib_three_way_comparison)
  #include <compare>
  #define HAVE_3WAY 1
#endif

// every PART is a translation unit of its own in one program
#define probe MON_CAT(probe_part, PART)
#define diff MON_CAT(diff_part, PART)

namespace probe
{
enum Op
{
  EQ,
  NE,
  LT,
  LE,
  GT,
  GE,
  TW
};
const char * const opName[] = {"==", "!=", "<", "<=", ">", ">=", "<=>"};

struct Rec
{
  int n = 0;
  int op = -1;
  void const * l = nullptr;
  void const * r = nullptr;
  bool answer[6] = {};
  int copies = 0;
};
Rec rec;

bool note(Op op, void const * l, void const * r)
{
  ++rec.n;
  rec.op = op;
  rec.l = l;
  rec.r = r;
  return rec.answer[op];
}

struct Truthy // result type of comparison operators that is merely convertible to bool
{
  bool b;
  operator bool() const { return b; }
};

template <int Id, class Result>
struct Pr
{
  int tag;
  explicit Pr(int t) : tag(t) { }
  Pr(Pr const & o) : tag(o.tag) { ++rec.copies; }
  Pr & operator=(Pr const &) = default;
};
#define PROBE_OP(OP, NAME)                                                                                             \
  template <int I, int J, class R>                                                                                     \
  R operator OP(Pr<I, R> const & l, Pr<J, R> const & r)                                                                \
  {                                                                                                                    \
    return R{note(NAME, &l, &r)};                                                                                      \
  }
PROBE_OP(==, EQ)
PROBE_OP(!=, NE)
PROBE_OP(<, LT)
PROBE_OP(<=, LE)
PROBE_OP(>, GT)
PROBE_OP(>=, GE)

template <class P>
struct PrManip
{
  static bool is_empty(P const & p) noexcept { return p.tag == -5; }
  static void init_empty_flag(P & p) noexcept { ::new (static_cast<void *>(&p.tag)) int(-5); }
  static void invalidate_empty_flag(P &) noexcept { }
};
struct SM9
{
  static constexpr int value = -9;
};

template <class P>
using T0 = tiny::optional<P>;
template <class P>
using T1 = tiny::optional<P, &P::tag, -1>;
template <class P>
using T2 = tiny::optional_inplace<P, PrManip<P>>;
template <class P>
using T3 = tiny::optional_sentinel_via_type<P, SM9, &P::tag>;
template <class P>
using SO = std::optional<P>;

template <int OP, class A, class B>
bool apply(A const & a, B const & b)
{
  if constexpr (OP == EQ) {
    return a == b;
  }
  else if constexpr (OP == NE) {
    return a != b;
  }
  else if constexpr (OP == LT) {
    return a < b;
  }
  else if constexpr (OP == LE) {
    return a <= b;
  }
  else if constexpr (OP == GT) {
    return a > b;
  }
  else {
    return a >= b;
  }
}

bool spec(int op, bool l, bool r) // at least one operand is empty
{
  switch (op) {
  case EQ: return l == r;
  case NE: return l != r;
  case LT: return !l && r;
  case LE: return !l;
  case GT: return l && !r;
  default: return !r;
  }
}

template <int OP, class A, class B>
void judge(const char * what, A const & a, B const & b, void const * lp, void const * rp)
{
  for (int ans = 0; ans < 2; ++ans) {
    rec.n = 0;
    rec.copies = 0;
    for (int k = 0; k < 6; ++k) {
      rec.answer[k] = (k == OP) == (ans != 0); // all other operators say the opposite
    }
    bool const got = apply<OP>(a, b);
    mon::eval();
    mon::seen(mon::mix(mon::str_hash(what), static_cast<uint64_t>(OP) * 8 + (lp ? 1u : 0u) + (rp ? 2u : 0u) + (ans ? 4u : 0u)));
    if (lp && rp) {
      if (rec.n != 1 || rec.op != OP || rec.l != lp || rec.r != rp) {
        mon::fail("%s: %s of two engaged operands called %d payload operators (last: %s, left %s, right %s)", what, opName[OP], rec.n,
                  rec.op >= 0 ? opName[rec.op] : "-", rec.l == lp ? "ok" : "WRONG", rec.r == rp ? "ok" : "WRONG");
      }
      else if (got != (ans != 0)) {
        mon::fail("%s: %s gives %d although the payload's operator said %d", what, opName[OP], got, ans);
      }
    }
    else {
      if (rec.n != 0) {
        mon::fail("%s: %s with an empty operand called a payload operator", what, opName[OP]);
      }
      if (got != spec(OP, lp != nullptr, rp != nullptr)) {
        mon::fail("%s: %s (left %s, right %s) gives %d", what, opName[OP], lp ? "engaged" : "empty", rp ? "engaged" : "empty", got);
      }
    }
    if (rec.copies != 0) {
      mon::fail("%s: %s copied a payload", what, opName[OP]);
    }
  }
}
template <class A, class B>
void judge_all(const char * what, A const & a, B const & b, void const * lp, void const * rp)
{
  judge<EQ>(what, a, b, lp, rp);
  judge<NE>(what, a, b, lp, rp);
  judge<LT>(what, a, b, lp, rp);
  judge<LE>(what, a, b, lp, rp);
  judge<GT>(what, a, b, lp, rp);
  judge<GE>(what, a, b, lp, rp);
}

template <class O>
void const * pay(O const & o)
{
  return o.has_value() ? std::addressof(*o) : nullptr;
}

template <class A, class B>
void pair(const char * what)
{
  mon::context("probe", what);
  A const ae{}, av(std::in_place, 3);
  B const be{}, bv(std::in_place, 4);
  judge_all(what, ae, be, nullptr, nullptr);
  judge_all(what, ae, bv, nullptr, pay(bv));
  judge_all(what, av, be, pay(av), nullptr);
  judge_all(what, av, bv, pay(av), pay(bv));
  if constexpr (std::is_same_v<A, B>) { // same object on both sides: no shortcut
    judge_all(what, av, av, pay(av), pay(av));
    judge_all(what, ae, ae, nullptr, nullptr);
  }
}
template <class A, class V>
void value(const char * what, V const & v)
{
  mon::context("probe value", what);
  A const ae{}, av(std::in_place, 3);
  judge_all(what, ae, v, nullptr, &v);
  judge_all(what, av, v, pay(av), &v);
  judge_all(what, v, ae, &v, nullptr);
  judge_all(what, v, av, &v, pay(av));
}
template <class A>
void null(const char * what)
{
  mon::context("probe nullopt", what);
  A const ae{}, av(std::in_place, 3);
  judge_all(what, ae, std::nullopt, nullptr, nullptr);
  judge_all(what, std::nullopt, ae, nullptr, nullptr);
  judge_all(what, av, std::nullopt, pay(av), nullptr);
  judge_all(what, std::nullopt, av, nullptr, pay(av));
}

#define PAIR(A, B) probe::pair<A, B>(#A " vs " #B)
template <class P, class Q>
void all_pairs()
{
  PAIR(T0<P>, T0<Q>);
  PAIR(T0<P>, T1<Q>);
  PAIR(T0<P>, T2<Q>);
  PAIR(T0<P>, T3<Q>);
  PAIR(T0<P>, SO<Q>);
  PAIR(T1<P>, T0<Q>);
  PAIR(T1<P>, T1<Q>);
  PAIR(T1<P>, T2<Q>);
  PAIR(T1<P>, T3<Q>);
  PAIR(T1<P>, SO<Q>);
  PAIR(T2<P>, T0<Q>);
  PAIR(T2<P>, T1<Q>);
  PAIR(T2<P>, T2<Q>);
  PAIR(T2<P>, T3<Q>);
  PAIR(T2<P>, SO<Q>);
  PAIR(T3<P>, T0<Q>);
  PAIR(T3<P>, T1<Q>);
  PAIR(T3<P>, T2<Q>);
  PAIR(T3<P>, T3<Q>);
  PAIR(T3<P>, SO<Q>);
  PAIR(SO<P>, T0<Q>);
  PAIR(SO<P>, T1<Q>);
  PAIR(SO<P>, T2<Q>);
  PAIR(SO<P>, T3<Q>);
  Q const q(8);
  value<T0<P>>("T0 vs value", q);
  value<T1<P>>("T1 vs value", q);
  value<T2<P>>("T2 vs value", q);
  value<T3<P>>("T3 vs value", q);
  null<T0<P>>("T0 vs nullopt");
  null<T1<P>>("T1 vs nullopt");
  null<T2<P>>("T2 vs nullopt");
  null<T3<P>>("T3 vs nullopt");
}
} // namespace probe

#if PART == 0
SUITE(p00, "comparison/probe same type")
{
  probe::all_pairs<probe::Pr<0, bool>, probe::Pr<0, bool>>();
  mon::sample("probe: 24 pairs of optional flavours, values, nullopt x 6 operators x states x 2 answers");
}
#elif PART == 1
SUITE(p01, "comparison/probe different types") { probe::all_pairs<probe::Pr<0, bool>, probe::Pr<1, bool>>(); }
#elif PART == 2
SUITE(p2, "comparison/probe convertible result") { probe::all_pairs<probe::Pr<0, probe::Truthy>, probe::Pr<1, probe::Truthy>>(); }
#endif

#if defined(HAVE_3WAY) && PART == 3
// ------------------------------------------------------------------ three way
namespace tw
{
using probe::rec;
std::partial_ordering answer = std::partial_ordering::equivalent;
void const * coherentLeft = nullptr; // set: operators answer according to 'answer', seen from this left operand
std::partial_ordering ordered(void const * l)
{
  if (coherentLeft == nullptr || l == coherentLeft) {
    return answer;
  }
  return answer == std::partial_ordering::less      ? std::partial_ordering::greater
         : answer == std::partial_ordering::greater ? std::partial_ordering::less
                                                    : answer;
}
struct P3
{
  int tag;
  explicit P3(int t) : tag(t) { }
  friend std::partial_ordering operator<=>(P3 const & l, P3 const & r)
  {
    probe::note(probe::EQ, &l, &r);
    rec.op = probe::TW;
    return ordered(&l);
  }
  friend bool operator==(P3 const & l, P3 const & r) { return probe::note(probe::EQ, &l, &r), ordered(&l) == 0; }
  friend bool operator!=(P3 const & l, P3 const & r) { return probe::note(probe::NE, &l, &r), ordered(&l) != 0; }
  friend bool operator<(P3 const & l, P3 const & r) { return probe::note(probe::LT, &l, &r), ordered(&l) < 0; }
  friend bool operator<=(P3 const & l, P3 const & r) { return probe::note(probe::LE, &l, &r), ordered(&l) <= 0; }
  friend bool operator>(P3 const & l, P3 const & r) { return probe::note(probe::GT, &l, &r), ordered(&l) > 0; }
  friend bool operator>=(P3 const & l, P3 const & r) { return probe::note(probe::GE, &l, &r), ordered(&l) >= 0; }
};

template <class A, class B>
void one(const char * what, A const & a, B const & b, void const * lp, void const * rp, bool swappable = false)
{
  for (std::partial_ordering ans : {std::partial_ordering::less, std::partial_ordering::equivalent,
                                    std::partial_ordering::greater, std::partial_ordering::unordered}) {
    answer = ans;
    rec.n = 0;
    auto const got = a <=> b;
    mon::eval();
    mon::seen(mon::mix(mon::str_hash(what), 777u + (lp ? 1u : 0u) + (rp ? 2u : 0u)));
    if (lp && rp) {
      bool const direct = rec.l == lp && rec.r == rp;
      bool const swapped = rec.l == rp && rec.r == lp;
      std::partial_ordering want = ans;
      if (!direct && swapped && swappable) { // NOLINT // value on the left: synthesised from the reversed call, also in the standard
        want = ans == std::partial_ordering::less      ? std::partial_ordering::greater
               : ans == std::partial_ordering::greater ? std::partial_ordering::less
                                                       : ans;
      }
      else if (!direct) {
        mon::fail("%s: <=> called on the wrong objects", what);
      }
      if (rec.n != 1 || rec.op != probe::TW) {
        mon::fail("%s: <=> of engaged operands called %d payload operators", what, rec.n);
      }
      if (got != want) {
        mon::fail("%s: <=> does not give the payload's result", what);
      }
    }
    else {
      if (rec.n != 0) {
        mon::fail("%s: <=> with an empty operand called a payload operator", what);
      }
      if (got != ((lp != nullptr) <=> (rp != nullptr))) {
        mon::fail("%s: <=> (left %s, right %s) is wrong", what, lp ? "engaged" : "empty", rp ? "engaged" : "empty");
      }
    }
  }
}
// With a three-way comparable payload, overload resolution may turn < into <=> (also for std::optional). So here the payload's
// operators answer coherently, and the result must be right with exactly one payload comparison of these two objects.
bool coherentResult(int op, std::partial_ordering o)
{
  switch (op) {
  case probe::EQ: return o == 0;
  case probe::NE: return o != 0;
  case probe::LT: return o < 0;
  case probe::LE: return o <= 0;
  case probe::GT: return o > 0;
  default: return o >= 0;
  }
}
template <int OP, class A, class B>
void coherent_one(const char * what, A const & a, B const & b, void const * lp, void const * rp)
{
  for (std::partial_ordering ans : {std::partial_ordering::less, std::partial_ordering::equivalent,
                                    std::partial_ordering::greater, std::partial_ordering::unordered}) {
    rec.n = 0;
    coherentLeft = lp;
    answer = ans;
    bool const got = probe::apply<OP>(a, b);
    coherentLeft = nullptr;
    mon::eval();
    bool const objects = (rec.l == lp && rec.r == rp) || (rec.l == rp && rec.r == lp);
    if (rec.n != (lp && rp ? 1 : 0) || (rec.n == 1 && !objects)) {
      mon::fail("%s: %s called %d payload operators (objects %s)", what, probe::opName[OP], rec.n, objects ? "ok" : "wrong");
    }
    bool const want = lp && rp ? coherentResult(OP, ans) : probe::spec(OP, lp != nullptr, rp != nullptr);
    if (got != want) {
      mon::fail("%s: %s (left %s, right %s) gives %d", what, probe::opName[OP], lp ? "engaged" : "empty", rp ? "engaged" : "empty", got);
    }
  }
}
template <class A, class B>
void coherent(const char * what, A const & a, B const & b, void const * lp, void const * rp)
{
  coherent_one<probe::EQ>(what, a, b, lp, rp);
  coherent_one<probe::NE>(what, a, b, lp, rp);
  coherent_one<probe::LT>(what, a, b, lp, rp);
  coherent_one<probe::LE>(what, a, b, lp, rp);
  coherent_one<probe::GT>(what, a, b, lp, rp);
  coherent_one<probe::GE>(what, a, b, lp, rp);
}
template <class A, class B>
void pair(const char * what)
{
  mon::context("three-way", what);
  A const ae{}, av(std::in_place, 3);
  B const be{}, bv(std::in_place, 4);
  CHECK((std::is_same_v<decltype(av <=> bv), std::partial_ordering>), "%s: result type", what);
  // the standard synthesises std <=> tiny from the reversed call on some compilers
  constexpr bool sw = tiny::is_tiny_optional_v<A> != tiny::is_tiny_optional_v<B>;
  one(what, ae, be, nullptr, nullptr, sw);
  one(what, ae, bv, nullptr, probe::pay(bv), sw);
  one(what, av, be, probe::pay(av), nullptr, sw);
  one(what, av, bv, probe::pay(av), probe::pay(bv), sw);
  coherent(what, ae, be, nullptr, nullptr);
  coherent(what, ae, bv, nullptr, probe::pay(bv));
  coherent(what, av, be, probe::pay(av), nullptr);
  coherent(what, av, bv, probe::pay(av), probe::pay(bv));
}
template <class A>
void value(const char * what)
{
  mon::context("three-way value", what);
  P3 const v(9);
  A const ae{}, av(std::in_place, 3);
  CHECK((std::is_same_v<decltype(av <=> v), std::partial_ordering>), "%s: result type", what);
  CHECK((std::is_same_v<decltype(v <=> av), std::partial_ordering>), "%s: result type", what);
  CHECK((std::is_same_v<decltype(av <=> std::nullopt), std::strong_ordering>), "%s: result type", what);
  one(what, ae, v, nullptr, &v);
  one(what, av, v, probe::pay(av), &v);
  one(what, v, ae, &v, nullptr, true);
  one(what, v, av, &v, probe::pay(av), true);
  one(what, ae, std::nullopt, nullptr, nullptr);
  one(what, av, std::nullopt, probe::pay(av), nullptr);
  one(what, std::nullopt, ae, nullptr, nullptr);
  one(what, std::nullopt, av, nullptr, probe::pay(av));
  coherent(what, ae, v, nullptr, &v);
  coherent(what, av, v, probe::pay(av), &v);
  coherent(what, v, ae, &v, nullptr);
  coherent(what, v, av, &v, probe::pay(av));
}
#define TWPAIR(A, B) pair<probe::A<P3>, probe::B<P3>>("3way " #A " vs " #B)
} // namespace tw
SUITE(threeway, "comparison/three way")
{
  using namespace tw;
  TWPAIR(T0, T0);
  TWPAIR(T0, T1);
  TWPAIR(T0, T2);
  TWPAIR(T0, T3);
  TWPAIR(T0, SO);
  TWPAIR(T1, T0);
  TWPAIR(T1, T1);
  TWPAIR(T1, SO);
  TWPAIR(T2, T0);
  TWPAIR(T2, T2);
  TWPAIR(T2, T3);
  TWPAIR(T2, SO);
  TWPAIR(T3, T0);
  TWPAIR(T3, T3);
  TWPAIR(T3, SO);
  TWPAIR(SO, T0);
  TWPAIR(SO, T1);
  TWPAIR(SO, T2);
  TWPAIR(SO, T3);
  tw::value<probe::T0<P3>>("3way T0 value");
  tw::value<probe::T1<P3>>("3way T1 value");
  tw::value<probe::T2<P3>>("3way T2 value");
  tw::value<probe::T3<P3>>("3way T3 value");
  // result categories
  CHECK((std::is_same_v<decltype(tiny::optional<int>() <=> tiny::optional<int>()), std::strong_ordering>));
  CHECK((std::is_same_v<decltype(tiny::optional<int>() <=> tiny::optional<int, -1>()), std::strong_ordering>));
  CHECK((std::is_same_v<decltype(tiny::optional<double>() <=> tiny::optional<double>()), std::partial_ordering>));
  CHECK((std::is_same_v<decltype(tiny::optional<double>() <=> std::optional<int>()), std::partial_ordering>));
  CHECK((std::is_same_v<decltype(tiny::optional<int>() <=> 3.0), std::partial_ordering>));
  CHECK((std::is_same_v<decltype(std::optional<int>() <=> tiny::optional<int>()), std::strong_ordering>));
}
#endif

#if PART >= 4
// ------------------------------------------------------------------ differential with std::optional
namespace diff
{
template <class A, class B>
unsigned all_ops(A const & a, B const & b)
{
  unsigned r = 0;
  r |= (a == b) ? 1u : 0u;
  r |= (a != b) ? 2u : 0u;
  r |= (a < b) ? 4u : 0u;
  r |= (a <= b) ? 8u : 0u;
  r |= (a > b) ? 16u : 0u;
  r |= (a >= b) ? 32u : 0u;
#ifdef HAVE_3WAY
  if constexpr (requires { a <=> b; }) {
    auto c = a <=> b;
    r |= c < 0 ? 64u : c > 0 ? 128u : c == 0 ? 256u : 512u;
  }
#endif
  return r;
}
constexpr unsigned kNo3 = 63;

template <class LT, class RT, class L, class R>
void run(const char * what, std::vector<L> const & ls, std::vector<R> const & rs)
{
  mon::context("differential", what);
  using LS = std::optional<L>;
  using RS = std::optional<R>;
  for (size_t i = 0; i <= ls.size(); ++i) {
    for (size_t j = 0; j <= rs.size(); ++j) {
      LS a;
      LT ta;
      RS b;
      RT tb;
      if (i > 0) {
        a = ls[i - 1];
        ta = ls[i - 1];
      }
      if (j > 0) {
        b = rs[j - 1];
        tb = rs[j - 1];
      }
      unsigned const want = all_ops(a, b);
      auto same = [&](unsigned got, unsigned w, const char * form) {
        mon::eval();
        mon::seen(mon::mix(mon::str_hash(what), mon::mix(mon::str_hash(form), i * 100 + j)));
        unsigned const mask = (got >> 6) && (w >> 6) ? ~0u : kNo3;
        if ((got & mask) != (w & mask)) {
          mon::fail("%s, %s, values #%zu and #%zu: comparisons give %x, std::optional %x", what, form, i, j, got, w);
        }
      };
      same(all_ops(ta, tb), want, "tiny,tiny");
      same(all_ops(ta, b), want, "tiny,std");
      same(all_ops(a, tb), want, "std,tiny");
      if (j > 0) {
        same(all_ops(ta, *b), all_ops(a, *b), "tiny,value");
        same(all_ops(*b, ta), all_ops(*b, a), "value,tiny");
      }
      if (i > 0) {
        same(all_ops(*a, tb), all_ops(*a, b), "value,tiny");
        same(all_ops(tb, *a), all_ops(b, *a), "tiny,value");
      }
      same(all_ops(ta, std::nullopt), all_ops(a, std::nullopt), "tiny,nullopt");
      same(all_ops(std::nullopt, ta), all_ops(std::nullopt, a), "nullopt,tiny");
    }
  }
}
struct S7
{
  static constexpr int value = -7;
};
struct SD
{
  static constexpr double value = -1234.5;
};
const double inf = std::numeric_limits<double>::infinity();
const double nan = std::numeric_limits<double>::quiet_NaN();
const std::vector<int> ints{0, 1, -3, 5, std::numeric_limits<int>::max(), std::numeric_limits<int>::min() + 1};
const std::vector<double> dbls{0.0, -0.0, 1.0, -3.0, 5.5, inf, -inf, nan, -nan};
const std::vector<float> flts{0.0f, -0.0f, 1.0f, 5.5f, static_cast<float>(nan), static_cast<float>(inf)};
const std::vector<bool> boolsV{false, true};
} // namespace diff
#define DIFF(LS, RS, LT, ...) diff::run<LT, __VA_ARGS__>(#LT " vs " #__VA_ARGS__, LS, RS)
#endif
#if PART == 4
using Via7 = tiny::optional_sentinel_via_type<int, diff::S7>;
using ViaD = tiny::optional_sentinel_via_type<double, diff::SD>;
using Inp = tiny::optional_inplace<int, tiny::sentinel_flag_manipulator<int, -77>>;
using IntM2 = tiny::optional<int, -2>;
SUITE(d1, "comparison/differential numbers")
{
  DIFF(diff::ints, diff::ints, tiny::optional<int>, tiny::optional<int>);
  DIFF(diff::ints, diff::ints, IntM2, tiny::optional<int>);
  DIFF(diff::ints, diff::ints, tiny::optional_aip<int>, Via7);
  DIFF(diff::ints, diff::ints, Inp, IntM2);
  DIFF(diff::ints, diff::dbls, IntM2, tiny::optional<double>);
  DIFF(diff::dbls, diff::ints, ViaD, Inp);
  DIFF(diff::dbls, diff::dbls, tiny::optional<double>, tiny::optional<double>);
  DIFF(diff::dbls, diff::dbls, ViaD, tiny::optional<double>);
  DIFF(diff::flts, diff::dbls, tiny::optional<float>, tiny::optional<double>);
  mon::sample("differential: numbers incl. NaN, infinities, -0.0 in all operand positions");
}
#elif PART == 5
struct PtrS
{
  static constexpr int * value = nullptr;
};
SUITE(d2, "comparison/differential others")
{
  const std::vector<std::string> strs{"", "a", "ab", "b", std::string(40, 'x')};
  const std::vector<std::string_view> views{"", "a", "abc", "b"};
  const std::vector<const char *> lits{"", "ab", "zz"};
  using CStr = tiny::optional<const char *>;
  DIFF(strs, strs, tiny::optional<std::string>, tiny::optional<std::string>);
  DIFF(strs, views, tiny::optional<std::string>, tiny::optional<std::string_view>);
  DIFF(strs, lits, tiny::optional<std::string>, CStr);
  static int arr[4];
  const std::vector<int *> ptrs{arr, arr + 1, arr + 3};
  DIFF(ptrs, ptrs, tiny::optional<int *>, tiny::optional<int *>);
  using PN = tiny::optional<int *, nullptr>;
  DIFF(ptrs, ptrs, PN, tiny::optional<int *>);
  const std::vector<char> bools{0, 1};
  DIFF(bools, bools, tiny::optional<char>, tiny::optional<char>);
  const std::vector<long long> lls{0, -1, 5, 1ll << 40};
  const std::vector<short> shs{0, -1, 5};
  using L42 = tiny::optional<long long, 42>;
  DIFF(shs, lls, tiny::optional_aip<short>, L42);
  const std::vector<std::vector<int>> vecs{{}, {1}, {1, 2}, {2}};
  DIFF(vecs, vecs, tiny::optional<std::vector<int>>, tiny::optional<std::vector<int>>);
}
SUITE(d3, "comparison/bool and literals")
{
  mon::context("differential", "bool");
  for (int i = 0; i < 3; ++i) {
    for (int j = 0; j < 3; ++j) {
      tiny::optional<bool> a, b;
      std::optional<bool> sa, sb;
      if (i) {
        a = i == 2;
        sa = i == 2;
      }
      if (j) {
        b = j == 2;
        sb = j == 2;
      }
      CHECK((a == b) == (sa == sb) && (a != b) == (sa != sb) && (a < b) == (sa < sb) && (a >= b) == (sa >= sb) && (a > b) == (sa > sb)
            && (a <= b) == (sa <= sb));
      CHECK((a == sb) == (sa == sb) && (sa < b) == (sa < sb) && (a > sb) == (sa > sb) && (sa != b) == (sa != sb));
      CHECK((a == (j == 2)) == (sa == (j == 2)) && ((j == 2) < a) == ((j == 2) < sa));
    }
  }
  tiny::optional<std::string> s("abc");
  CHECK(s == "abc" && "abc" == s && s != "abd" && s < "abd" && "abb" < s && s >= "abc" && "abd" > s && s <= "abc");
  tiny::optional<std::string> e;
  CHECK(!(e == "abc") && "abc" != e && e < "abc" && "abc" > e && e <= "abc" && !(e >= "abc") && !(e > "abc"));
  tiny::optional<int, -1> i(5);
  CHECK(i == 5 && 5 == i && i != 4.5 && 5.5 > i && i < 6u && i <= 5ll);
  // nested optionals, compared as values and among each other
  using TI = tiny::optional<int>;
  using TTI = tiny::optional<TI>;
  TTI n0, n1(std::in_place), n2(std::in_place, 3);
  CHECK(n0 != n1 && n1 != n2 && n0 < n1 && n1 < n2 && n0 == std::nullopt && n1 != std::nullopt && !(n1 == std::nullopt));
  CHECK(n2 == TTI(std::in_place, 3) && n1 == TTI(std::in_place) && n2 > TTI(std::in_place, 2));
  mon::seen(4242);
}
// sorting and searching rely on a consistent order
SUITE(d4, "comparison/strict weak order")
{
  mon::context("differential", "order");
  mon::Rng r(mon::opt.seed);
  std::vector<tiny::optional<int, 3>> v;
  std::vector<std::optional<int>> s;
  for (int k = 0; k < 200; ++k) {
    int const x = static_cast<int>(r.below(12));
    if (x == 3) {
      v.emplace_back();
      s.emplace_back();
    }
    else {
      v.emplace_back(x);
      s.emplace_back(x);
    }
  }
  for (auto const & a : v) {
    for (auto const & b : v) {
      CHECK((a < b) == (b > a) && (a <= b) == !(b < a) && (a == b) == (!(a < b) && !(b < a)) && (a != b) == !(a == b) && (a >= b) == (b <= a));
      for (size_t k = 0; k < v.size(); k += 17) {
        CHECK(!(a < b && b < v[k]) || a < v[k]);
      }
    }
  }
}
#elif PART == 6
// Nested optionals. The reference is the same expression with std::optional at every level.
namespace nested
{
template <class O>
struct Mirror
{
  using type = O;
};
template <class O>
using MirrorT = typename Mirror<O>::type;
template <class P, auto e, auto i>
struct Mirror<tiny::optional<P, e, i>>
{
  using type = std::optional<MirrorT<P>>;
};
template <class P>
struct Mirror<std::optional<P>>
{
  using type = std::optional<MirrorT<P>>;
};
template <class O>
constexpr bool isOpt = !std::is_same_v<O, MirrorT<O>> || tiny::is_tiny_optional_v<O>;
template <class P>
constexpr bool isOpt<std::optional<P>> = true;

// All states: empty at each level, and some values.
template <class O>
std::vector<O> states()
{
  if constexpr (isOpt<O>) {
    std::vector<O> r;
    r.push_back(O());
    for (auto const & x : states<typename O::value_type>()) {
      r.push_back(O(std::in_place, x));
    }
    return r;
  }
  else if constexpr (std::is_same_v<O, bool>) {
    return {true, false};
  }
  else {
    return {O(5), O(0), O(77)};
  }
}

template <class L, class R>
void run(const char * what)
{
  mon::context("nested", what);
  auto const ls = states<L>();
  auto const rs = states<R>();
  auto const sl = states<MirrorT<L>>();
  auto const sr = states<MirrorT<R>>();
  for (size_t i = 0; i < ls.size(); ++i) {
    for (size_t j = 0; j < rs.size(); ++j) {
      mon::eval();
      mon::seen(mon::mix(mon::str_hash(what), i * 100 + j));
      unsigned const got = diff::all_ops(ls[i], rs[j]), want = diff::all_ops(sl[i], sr[j]);
      unsigned const got2 = diff::all_ops(rs[j], ls[i]), want2 = diff::all_ops(sr[j], sl[i]);
      unsigned const mask = (got >> 6) && (want >> 6) ? ~0u : diff::kNo3;
      unsigned const mask2 = (got2 >> 6) && (want2 >> 6) ? ~0u : diff::kNo3;
      if ((got & mask) != (want & mask) || (got2 & mask2) != (want2 & mask2)) {
        mon::fail("%s, states #%zu and #%zu: comparisons give %x / %x, std::optional %x / %x", what, i, j, got, got2, want, want2);
      }
    }
    if constexpr (tiny::is_tiny_optional_v<L>) {
      // Not compared with std::optional: libstdc++ gets nullopt == optional<optional<T>> wrong in C++20.
      std::optional<int> const plain = sl[i].has_value() ? std::optional<int>(1) : std::nullopt;
      if (diff::all_ops(ls[i], std::nullopt) != diff::all_ops(plain, std::nullopt)
          || diff::all_ops(std::nullopt, ls[i]) != diff::all_ops(std::nullopt, plain)) {
        mon::fail("%s, state #%zu: comparison with nullopt differs from std::optional", what, i);
      }
    }
  }
}
} // namespace nested
#define NEST(L, ...) nested::run<L, __VA_ARGS__>(#L " vs " #__VA_ARGS__)
template <class T>
using TO = tiny::optional<T>;
template <class T>
using SO = std::optional<T>;
using TM1 = tiny::optional<int, -1>;
using TMs = tiny::optional<short, -1>;
SUITE(nestedSuite, "comparison/nested optionals")
{
  NEST(TO<TO<int>>, TO<TO<int>>);
  NEST(TO<TO<int>>, TO<TM1>);
  NEST(TO<TM1>, TO<TM1>);
  NEST(TO<TM1>, TO<TMs>);
  NEST(TO<TO<bool>>, TO<TO<bool>>);
  NEST(TO<TO<double>>, TO<TO<int>>);
  NEST(TO<TO<TO<int>>>, TO<TO<TO<int>>>);
  // with std::optional outside
  NEST(TO<TO<int>>, SO<TO<int>>);
  NEST(TO<TM1>, SO<TM1>);
  NEST(TO<TM1>, SO<TO<int>>);
  NEST(TO<TO<bool>>, SO<TO<bool>>);
  NEST(SO<TO<int>>, SO<TM1>);
  NEST(TO<TO<int>>, SO<SO<int>>);
  NEST(TO<TO<TO<int>>>, SO<TO<TO<int>>>);
  // with std::optional inside
  NEST(TO<SO<int>>, TO<SO<int>>);
  NEST(TO<SO<int>>, TO<TO<int>>);
  NEST(TO<SO<int>>, TO<TM1>);
  // different depths
  NEST(TO<TO<int>>, TO<int>);
  NEST(TO<TO<int>>, TM1);
  NEST(TO<TM1>, TO<short>);
  NEST(TO<SO<int>>, TO<int>);
  NEST(TO<TO<int>>, SO<int>);
  NEST(TO<TM1>, SO<int>);
  NEST(SO<TO<int>>, TO<int>);
  NEST(SO<TM1>, TM1);
  NEST(SO<SO<int>>, TO<int>);
  NEST(TO<TO<int>>, int);
  NEST(TO<TM1>, short);
  NEST(TO<SO<int>>, int);
  NEST(SO<TO<int>>, int);
#if !(defined(HAVE_3WAY) && defined(__clang__)) // see known_findings.txt
  NEST(TO<SO<int>>, SO<SO<int>>);
  NEST(TO<SO<int>>, SO<int>);
  NEST(TO<SO<int>>, SO<TO<int>>);
#endif
  mon::sample("nested: 30 pairs of nested types, all states of all levels, both operand orders");
}
#endif
