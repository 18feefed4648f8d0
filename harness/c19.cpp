// C19: operator*, operator->, value(), emplace() and value_or(): identity of the object they give, categories, effects.
#include "kinds.h"
#include <stdexcept>
#include <typeinfo>

namespace
{
pl::Log evA, evB;

struct Recording
{
  explicit Recording(pl::Log & l)
  {
    l.clear();
    pl::world.log = &l;
  }
  ~Recording() { pl::world.log = nullptr; }
};

template <class O>
struct Snapshot // the object representation; accessors must not change it
{
  unsigned char b[sizeof(O)];
  explicit Snapshot(O const & o) { std::memcpy(b, static_cast<void const *>(std::addressof(o)), sizeof(O)); }
  bool same(O const & o) const { return std::memcmp(b, static_cast<void const *>(std::addressof(o)), sizeof(O)) == 0; }
};

template <class T>
struct Box // keeps the optional away from the compiler's view and surrounded by something
{
  char before[7];
  T t;
  char after[9];
};

template <class K>
struct Suite
{
  using O = typename K::Tiny;
  using P = typename K::P;
  using PM = std::remove_cv_t<P>;
  using S = std::optional<P>;
  static constexpr bool kConst = std::is_const_v<P>;
  static constexpr bool kCopy = std::is_copy_constructible_v<P>;
  static constexpr bool kMove = std::is_move_constructible_v<P>;
  static constexpr bool kAssign = !kConst && std::is_move_assignable_v<PM>;

  static void say(bool ok, const char * what, const char * how)
  {
    mon::eval();
    if (!ok) {
      mon::fail("%s: %s (%s)", K::name(), what, how);
    }
  }

  // ------------------------------------------------------------------------------------------------------ types
  template <class A, class B>
  static void is(const char * what)
  {
    mon::seen(mon::mix(mon::str_hash(K::name()), mon::str_hash(what)));
    say(std::is_same_v<A, B>, "expression has another type than with std::optional", what);
  }
  static void types()
  {
    mon::context("types", K::name());
    is<decltype(*std::declval<O &>()), P &>("*o");
    is<decltype(*std::declval<O const &>()), P const &>("*const o");
    is<decltype(*std::declval<O>()), P &&>("*rvalue o");
    is<decltype(*std::declval<O const>()), P const &&>("*const rvalue o");
    is<decltype(std::declval<O &>().value()), P &>("o.value()");
    is<decltype(std::declval<O const &>().value()), P const &>("const o.value()");
    is<decltype(std::declval<O>().value()), P &&>("rvalue o.value()");
    is<decltype(std::declval<O const>().value()), P const &&>("const rvalue o.value()");
    is<decltype(std::declval<O &>().operator->()), P *>("o->");
    is<decltype(std::declval<O const &>().operator->()), P const *>("const o->");
    is<decltype(std::declval<O &>().emplace(std::declval<PM>())), P &>("emplace");
    is<decltype(std::declval<O const &>().has_value()), bool>("has_value");
    if constexpr (kCopy) {
      is<decltype(std::declval<O &>().value_or(std::declval<PM const &>())), PM>("value_or");
      is<decltype(std::declval<O const &>().value_or(std::declval<PM>())), PM>("value_or const");
    }
    if constexpr (kMove) {
      is<decltype(std::declval<O>().value_or(std::declval<PM>())), PM>("value_or rvalue");
    }
  }

  // --------------------------------------------------------------------------------------------------- identity
  // All the ways to the contained object must end at the same one.
  static P const * identity(O & o, const char * how)
  {
    O const & c = o;
    Snapshot<O> s(o);
    P const * p = std::addressof(*o);
    bool ok = true;
    ok = ok && std::addressof(*c) == p && o.operator->() == p && c.operator->() == p;
    ok = ok && std::addressof(o.value()) == p && std::addressof(c.value()) == p;
    {
      P && r = *std::move(o);
      P const && cr = *std::move(c);
      P && v = std::move(o).value();
      P const && cv = std::move(c).value();
      ok = ok && std::addressof(r) == p && std::addressof(cr) == p && std::addressof(v) == p && std::addressof(cv) == p;
    }
    say(ok, "the accessors do not refer to the same object", how);
    auto const a = reinterpret_cast<uintptr_t>(p);
    auto const b = reinterpret_cast<uintptr_t>(std::addressof(o));
    say(a >= b && a + sizeof(P) <= b + sizeof(O), "the object is not inside of the optional", how);
    say(a % alignof(P) == 0, "the object is not aligned", how);
    say(o.has_value() && c.has_value() && static_cast<bool>(o) && static_cast<bool>(c), "no longer has a value", how);
    say(s.same(o), "an accessor changed the optional", how);
    mon::count("identity checks");
    return p;
  }

  static void expect(O & o, uint64_t key, const char * how)
  {
    O const & c = o;
    identity(o, how);
    say(K::key(*o) == key && K::key(*c) == key && K::key(o.value()) == key && K::key(c.value()) == key
            && K::key(*o.operator->()) == key && K::key(*c.operator->()) == key,
        "an accessor gives another value than the one stored", how);
    mon::seen(mon::mix(mon::mix(mon::str_hash(K::name()), mon::str_hash(how)), key));
  }

  // Writes through one accessor, reads through all others.
  static void write(O & o, uint32_t w, uint32_t r, uint64_t & key, P const *& where)
  {
    if constexpr (kAssign) {
      PM v = K::make(r);
      key = K::key(v);
      static const char * const n[] = {"*o = v", "o.value() = v", "*o.operator->() = v", "*std::move(o) = v",
                                       "std::move(o).value() = v", "emplace(..) = v", "earlier reference = v", "o = v"};
      uint32_t const way = w % 8;
      switch (way) {
      case 0: *o = std::move(v); break;
      case 1: o.value() = std::move(v); break;
      case 2: *o.operator->() = std::move(v); break;
      case 3: {
        P && x = *std::move(o);
        x = std::move(v);
        break;
      }
      case 4: {
        P && x = std::move(o).value();
        x = std::move(v);
        break;
      }
      case 5: {
        P & x = o.emplace(K::make(r + 1));
        say(std::addressof(x) == std::addressof(*o), "emplace gives a reference to another object", "emplace");
        say(K::key(x) == K::key(K::make(r + 1)), "emplace gives another value", "emplace");
        x = std::move(v);
        break;
      }
      case 6: *const_cast<P *>(where) = std::move(v); break;
      case 7: o = std::move(v); break;
      }
      expect(o, key, n[way]);
      say(std::addressof(*o) == where, "the object moved", n[way]); // all of them keep the place
      mon::count("writes through accessors");
    }
  }

  static O * build(void * mem, uint32_t route, uint32_t r, uint64_t & key, const char *& name)
  {
    PM v = K::make(r);
    key = K::key(v);
    O * o = nullptr;
    switch (route) {
    case 0:
      name = "O(v)";
      return new (mem) O(std::move(v));
    case 1:
      name = "in_place";
      return new (mem) O(std::in_place, std::move(v));
    case 2:
      name = "emplace in an empty one";
      o = new (mem) O();
      {
        P & x = o->emplace(std::move(v));
        say(std::addressof(x) == std::addressof(**o), "emplace gives a reference to another object", name);
      }
      return o;
    case 3:
      name = "emplace in an engaged one";
      o = new (mem) O(K::make(r + 5));
      {
        P & x = o->emplace(std::move(v));
        say(std::addressof(x) == std::addressof(**o), "emplace gives a reference to another object", name);
      }
      return o;
    case 4:
      name = "move construction";
      {
        O t(std::move(v));
        return new (mem) O(std::move(t));
      }
    case 5:
      if constexpr (kAssign) {
        name = "o = v on an empty one";
        o = new (mem) O();
        *o = std::move(v);
        return o;
      }
      break;
    case 6:
      if constexpr (kAssign) {
        name = "o = v after reset";
        o = new (mem) O(K::make(r + 3));
        o->reset();
        *o = std::move(v);
        return o;
      }
      break;
    case 7:
      if constexpr (kAssign) {
        name = "move assignment";
        o = new (mem) O(std::nullopt);
        *o = O(std::move(v));
        return o;
      }
      break;
    case 8:
      if constexpr (kAssign) {
        name = "swap of an empty one with an engaged one";
        o = new (mem) O();
        O t(std::move(v));
        o->swap(t);
        say(!t.has_value(), "still has a value", name);
        return o;
      }
      break;
    case 9:
      if constexpr (kCopy) {
        name = "copy construction";
        O const t(std::move(v));
        return new (mem) O(t);
      }
      break;
    case 10:
      if constexpr (kAssign && kCopy) {
        name = "copy assignment";
        O const t(std::move(v));
        o = new (mem) O(K::make(r + 4));
        *o = t;
        return o;
      }
      break;
    case 11:
      if constexpr (kAssign) {
        name = "emplace after a failed value()";
        o = new (mem) O(K::make(r + 4));
        *o = std::nullopt;
        try {
          (void)o->value();
        }
        catch (std::bad_optional_access const &) {
        }
        o->emplace(std::move(v));
        return o;
      }
      break;
    }
    return nullptr;
  }

  static void identities(mon::Rng & rng)
  {
    mon::context("identity", K::name());
    long const rounds = 6 * mon::opt.scale;
    for (uint32_t route = 0; route < 12; ++route) {
      for (long i = 0; i < rounds; ++i) {
        alignas(O) unsigned char mem[sizeof(O)];
        std::memset(mem, i % 3 == 0 ? 0 : i % 3 == 1 ? 0xff : 0xa5, sizeof mem);
        uint64_t key = 0;
        const char * name = "";
        O * o = build(mem, route, static_cast<uint32_t>(rng.next()) & 0xffffff, key, name);
        if (o == nullptr) {
          break;
        }
        expect(*o, key, name);
        P const * where = std::addressof(**o);
        for (int k = 0; k < 10; ++k) {
          write(*o, rng.below(8), static_cast<uint32_t>(rng.next()) & 0xffffff, key, where);
        }
        if constexpr (kCopy) {
          O copy(*o);
          say(K::key(*copy) == key, "a copy lost what was written through an accessor", name);
        }
        O moved(std::move(*o));
        say(moved.has_value() && K::key(*moved) == key, "a moved-to optional lost what was written through an accessor", name);
        say(o->has_value() && std::addressof(o->value()) == where, "a moved-from optional lost its object", name);
        o->~O();
      }
    }
  }

  // ----------------------------------------------------------------------------------------------- value() empty
  template <class F>
  static void throws(O & o, F && f, const char * how)
  {
    Snapshot<O> s(o);
    int got = 0; // 1: right, 2: other exception
    long const live = pl::world.liveCount;
    {
      Recording rec(evA);
      try {
        f(o);
      }
      catch (std::bad_optional_access const & e) {
        got = typeid(e) == typeid(std::bad_optional_access) && e.what() != nullptr && *e.what() != 0 ? 1 : 2;
      }
      catch (...) {
        got = 3;
      }
    }
    say(got == 1, got == 0 ? "value() of an empty optional does not throw" : "value() of an empty optional throws something else", how);
    say(evA.n == 0 && pl::world.liveCount == live, "value() of an empty optional touches payloads", how);
    say(s.same(o) && !o.has_value(), "value() changed an empty optional", how);
    mon::seen(mon::mix(mon::mix(mon::str_hash(K::name()), mon::str_hash(how)), 77));
    mon::count("bad_optional_access observed");
  }
  static void throw_all(O & o)
  {
    throws(o, [](O & x) { (void)x.value(); }, "value() &");
    throws(o, [](O & x) { (void)std::as_const(x).value(); }, "value() const &");
    throws(o, [](O & x) { (void)std::move(x).value(); }, "value() &&");
    throws(o, [](O & x) { (void)std::move(std::as_const(x)).value(); }, "value() const &&");
  }
  static void empties(mon::Rng & rng)
  {
    mon::context("value() of empty optionals", K::name());
    for (int i = 0; i < 8 * mon::opt.scale; ++i) {
      auto v = [&] { return K::make(static_cast<uint32_t>(rng.next()) & 0xffffff); };
      {
        O o;
        throw_all(o);
      }
      {
        O o{std::nullopt};
        throw_all(o);
      }
      {
        O o(v());
        o.reset();
        throw_all(o);
        o.emplace(v());
        (void)o.value(); // does not throw
        o = std::nullopt;
        throw_all(o);
        if constexpr (kAssign) {
          o = {};
          throw_all(o);
        }
      }
      {
        O o(v());
        O e;
        O x(std::move(e));
        throw_all(x);
        if constexpr (kAssign) {
          o = std::move(e);
          throw_all(o);
          O y(v());
          o.swap(y);
          throw_all(y);
        }
      }
      if constexpr (kCopy) {
        O const e;
        O x(e);
        throw_all(x);
        if constexpr (kAssign) {
          O z(v());
          z = e;
          throw_all(z);
        }
      }
    }
  }

  // ---------------------------------------------------------------------------------------------------- value_or
  struct Res
  {
    uint64_t key, dflt;
    bool has;
    uint64_t rest;
  };
  // X: tiny or std optional. how: 0 &, 1 const&, 2 &&, 3 const&&
  template <class X, class D>
  static Res vo(int how, bool engaged, uint32_t r, D & d, pl::Log & log, bool rvDefault)
  {
    X x;
    if (engaged) {
      x.emplace(K::make(r));
    }
    Res res{0, 0, false, 0};
    auto run = [&](auto && opt) {
      Recording rec(log);
      if (rvDefault) {
        auto && got = std::forward<decltype(opt)>(opt).value_or(std::move(d));
        pl::world.log = nullptr;
        res.key = K::key(got);
        pl::world.log = &log;
      }
      else if constexpr (std::is_convertible_v<D &, P>) {
        auto && got = std::forward<decltype(opt)>(opt).value_or(d);
        pl::world.log = nullptr;
        res.key = K::key(got);
        pl::world.log = &log;
      }
    };
    if constexpr (kCopy) {
      switch (how) {
      case 0: run(x); break;
      case 1: run(std::as_const(x)); break;
      case 3: run(std::move(std::as_const(x))); break;
      }
    }
    if (how == 2) {
      run(std::move(x));
    }
    res.has = x.has_value();
    res.rest = x.has_value() ? K::key(*x) : 0;
    return res;
  }
  template <class D, class MakeD, class KeyD>
  static void value_or_with(mon::Rng & rng, const char * what, MakeD makeD, KeyD keyD)
  {
    static const char * const n[] = {"&", "const &", "&&", "const &&"};
    for (int i = 0; i < 10 * mon::opt.scale; ++i) {
      for (int how = 0; how < 4; ++how) {
        if (how != 2 && !kCopy) {
          continue;
        }
        for (int mode = 0; mode < 4; ++mode) {
          bool const engaged = (mode & 1) != 0;
          bool const rv = (mode & 2) != 0;
          if (!rv && !std::is_convertible_v<D &, P>) {
            continue;
          }
          uint32_t const r = static_cast<uint32_t>(rng.next()) & 0xffffff;
          uint32_t const r2 = static_cast<uint32_t>(rng.next()) & 0xffffff;
          D d1 = makeD(r2), d2 = makeD(r2);
          Res const a = vo<O>(how, engaged, r, d1, evA, rv);
          Res const b = vo<S>(how, engaged, r, d2, evB, rv);
          char buf[200];
          std::snprintf(buf, sizeof buf, "value_or(%s %s) %s, %s", rv ? "rvalue" : "lvalue", what, n[how], engaged ? "engaged" : "empty");
          say(a.key == b.key, "another result than with std::optional", buf);
          if (engaged) {
            say(a.key == K::key(K::make(r)), "not the contained value", buf);
          }
          say(a.has == engaged, "the optional changed its state", buf);
          say(a.rest == b.rest, "the optional is left with another value than std::optional", buf);
          say(keyD(d1) == keyD(d2), "the default is left in another state than with std::optional", buf);
          if (!evA.same(evB)) {
            char l[400], m[400];
            evA.print(l, sizeof l);
            evB.print(m, sizeof m);
            mon::fail("%s: %s: events %s, std::optional: %s", K::name(), buf, l, m);
          }
          mon::eval();
          mon::count("value_or compared");
          mon::seen(mon::mix(mon::mix(mon::str_hash(K::name()), mon::str_hash(buf)), a.key));
        }
      }
    }
  }
  static void value_ors(mon::Rng & rng)
  {
    mon::context("value_or", K::name());
    if constexpr (kMove) {
      value_or_with<PM>(rng, "payload", [](uint32_t r) { return K::make(r); }, [](PM const & p) { return K::key(p); });
      using U = typename kd::Conv<K>::U;
      if constexpr (!std::is_same_v<U, kd::NoU>) {
        value_or_with<U>(rng, "convertible", [](uint32_t r) { return kd::Conv<K>::make(r); }, [](U const &) { return 0; });
      }
    }
  }

  static void run()
  {
    mon::Rng rng(mon::opt.seed ^ mon::str_hash(K::name()));
    types();
    identities(rng);
    empties(rng);
    value_ors(rng);
    mon::sample("%s: identity over 12 routes, writes, bad_optional_access, value_or against std::optional", K::name());
  }
};

#define RUN(ID)                                                                                                        \
  SUITE(MON_CAT(run_, ID), "access/" #ID) { Suite<kd::ID>::run(); }
#define ENG_KIND(ID) RUN(ID)
#include "kind_groups.h"
} // namespace
