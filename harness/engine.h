// Differential engine: applies one operation to an optional of the library and to std::optional of the same payload and
// compares everything that can be observed.
#pragma once
#include "kinds.h"
#include <algorithm>
#include <functional>
#include <new>
#include <typeinfo>
#include <unordered_set>
#if defined(__SANITIZE_ADDRESS__)
  #define ENG_ASAN 1
#endif
#if defined(__has_feature)
  #if __has_feature(address_sanitizer)
    #define ENG_ASAN 1
  #endif
  #if __has_feature(memory_sanitizer)
    #include <sanitizer/msan_interface.h>
    #define ENG_MSAN 1
  #endif
#endif
#ifdef ENG_ASAN
  #include <sanitizer/asan_interface.h>
#endif

namespace eng
{
using pl::world;

// ---------------------------------------------------------------------------------- observations
struct Obs
{
  static constexpr int kMax = 96;
  uint64_t v[kMax];
  int n = 0;
  void add(uint64_t x)
  {
    if (n < kMax) {
      v[n] = x;
    }
    ++n;
  }
  bool same(Obs const & o) const
  {
    if (n != o.n) {
      return false;
    }
    for (int i = 0; i < n && i < kMax; ++i) {
      if (v[i] != o.v[i]) {
        return false;
      }
    }
    return true;
  }
  int first_diff(Obs const & o) const
  {
    for (int i = 0; i < n && i < o.n && i < kMax; ++i) {
      if (v[i] != o.v[i]) {
        return i;
      }
    }
    return n < o.n ? n : o.n;
  }
  uint64_t hash() const
  {
    uint64_t h = static_cast<uint64_t>(n);
    for (int i = 0; i < n && i < kMax; ++i) {
      h = mon::mix(h, v[i]);
    }
    return h;
  }
};

// ---------------------------------------------------------------------------------- traits
template <class T>
inline constexpr bool is_std_opt = false;
template <class T>
inline constexpr bool is_std_opt<std::optional<T>> = true;

template <class T, class = void>
inline constexpr bool has_eq = false;
template <class T>
inline constexpr bool has_eq<T, std::void_t<decltype(std::declval<T const &>() == std::declval<T const &>())>> = true;
// The order of these depends on heap addresses.
template <class T>
inline constexpr bool addr_ordered = false;
template <class T>
inline constexpr bool addr_ordered<std::unique_ptr<T>> = true;
template <class T>
inline constexpr bool addr_ordered<std::shared_ptr<T>> = true;
template <class T, class = void>
inline constexpr bool has_lt = false;
template <class T>
inline constexpr bool has_lt<
    T,
    std::void_t<
        decltype(std::declval<T const &>() < std::declval<T const &>()),
        decltype(std::declval<T const &>() <= std::declval<T const &>()),
        decltype(std::declval<T const &>() > std::declval<T const &>()),
        decltype(std::declval<T const &>() >= std::declval<T const &>())>>
    = !addr_ordered<T>;
template <class T>
inline constexpr bool is_fp = std::is_floating_point_v<std::remove_cv_t<T>>;
// Is P itself an optional of some sort? Comparing optional<P> with a P then means something else.
template <class T>
inline constexpr bool is_some_opt = is_std_opt<std::remove_cv_t<T>> || tiny::is_tiny_optional_v<std::remove_cv_t<T>>;
// std::optional<tiny::optional<X>> cannot be compared in C++20 with libstdc++ (its constraints become recursive).
template <class T>
inline constexpr bool ref_comparable = !tiny::is_tiny_optional_v<std::remove_cv_t<T>>;
template <class T>
inline constexpr bool has_hash = std::is_default_constructible_v<std::hash<T>>;

// ---------------------------------------------------------------------------------- monadic reference
template <class O, class F>
auto m_and_then(O && o, F && f)
{
  if constexpr (!is_std_opt<std::decay_t<O>>) {
    return std::forward<O>(o).and_then(std::forward<F>(f));
  }
  else {
    using R = std::decay_t<std::invoke_result_t<F, decltype(*std::forward<O>(o))>>;
    if (o.has_value()) {
      return std::invoke(std::forward<F>(f), *std::forward<O>(o));
    }
    return R();
  }
}
template <class F, class A>
struct FnConv
{
  F && f;
  A && a;
  operator std::remove_cv_t<std::invoke_result_t<F, A>>() { return std::invoke(std::forward<F>(f), std::forward<A>(a)); }
};
template <class O, class F>
auto m_transform(O && o, F && f)
{
  if constexpr (!is_std_opt<std::decay_t<O>>) {
    return std::forward<O>(o).transform(std::forward<F>(f));
  }
  else {
    using A = decltype(*std::forward<O>(o));
    using R = std::remove_cv_t<std::invoke_result_t<F, A>>;
    if (o.has_value()) {
      return std::optional<R>(std::in_place, FnConv<F, A>{std::forward<F>(f), *std::forward<O>(o)});
    }
    return std::optional<R>();
  }
}
template <class O, class F>
std::decay_t<O> m_or_else(O && o, F && f)
{
#ifdef __cpp_lib_concepts
  if constexpr (!is_std_opt<std::decay_t<O>>) {
    return std::forward<O>(o).or_else(std::forward<F>(f));
  }
  else
#endif
  {
    if (o.has_value()) {
      return std::forward<O>(o);
    }
    return std::forward<F>(f)();
  }
}

// ---------------------------------------------------------------------------------- slots
// N optionals, each directly surrounded by canary bytes.
template <class O>
struct Slots
{
  static constexpr int N = 4;
  static constexpr size_t Pad = alignof(O) < 16 ? 16 : alignof(O);
  static constexpr unsigned char Canary = 0xC5;
#ifdef ENG_ASAN
  static constexpr bool canaries = false;
#else
  static constexpr bool canaries = true;
#endif

  struct alignas(alignof(O) < 16 ? 16 : alignof(O)) Cell
  {
    unsigned char pre[Pad];
    alignas(O) unsigned char raw[sizeof(O)];
    unsigned char post[Pad];
  };
  Cell cell[N];
  uint64_t fillSeed;

  explicit Slots(uint64_t fill) : fillSeed(fill)
  {
    for (Cell & c : cell) {
      std::memset(c.pre, Canary, Pad);
      std::memset(c.post, Canary, Pad);
    }
    for (int i = 0; i < N; ++i) {
      garbage(i);
      ::new (static_cast<void *>(cell[i].raw)) O;
    }
    neighbours(false);
  }
  ~Slots()
  {
    for (int i = 0; i < N; ++i) {
      at(i).~O();
    }
    neighbours(true);
  }
  Slots(Slots const &) = delete;

  O & at(int i) { return *std::launder(reinterpret_cast<O *>(cell[i].raw)); }

  // Fill the storage with arbitrary bytes before something is constructed there.
  void garbage(int i)
  {
#ifdef ENG_MSAN
    __msan_poison(cell[i].raw, sizeof(O));
#else
    static const unsigned char pat[] = {0x00, 0xff, 0xfe, 0xa5, 0x01, 0x7f, 0x80};
    fillSeed = fillSeed * 6364136223846793005ull + 1442695040888963407ull;
    unsigned const how = static_cast<unsigned>(fillSeed >> 33) % 12;
    if (how < 7) {
      std::memset(cell[i].raw, pat[how], sizeof(O));
    }
    else if (how < 9) { // what is left of the optional that was here before
    }
    else if (how < 11) { // the image of another optional (empty or not)
      std::memcpy(cell[i].raw, cell[(static_cast<unsigned>(i) + 1 + (fillSeed >> 50) % (N - 1)) % N].raw, sizeof(O));
    }
    else {
      for (size_t k = 0; k < sizeof(O); ++k) {
        cell[i].raw[k] = static_cast<unsigned char>((fillSeed + k * 0x9e3779b97f4a7c15ull) >> 37);
      }
    }
    asm volatile("" : : "r"(cell[i].raw) : "memory");
#endif
  }

  // With AddressSanitizer every access to the bytes around the optionals (also a mere read) is reported.
  void neighbours([[maybe_unused]] bool accessible)
  {
#ifdef ENG_ASAN
    for (Cell & c : cell) {
      if (accessible) {
        ASAN_UNPOISON_MEMORY_REGION(c.pre, Pad);
        ASAN_UNPOISON_MEMORY_REGION(c.raw, sizeof(Cell) - Pad);
      }
      else {
        ASAN_POISON_MEMORY_REGION(c.pre, Pad);
        ASAN_POISON_MEMORY_REGION(c.raw + sizeof(O), sizeof(Cell) - Pad - sizeof(O));
      }
    }
#endif
  }

  void check_memory(const char * who)
  {
    neighbours(false); // again, because AddressSanitizer unpoisons the stack when an exception is thrown
    for (int i = 0; i < N; ++i) {
      for (size_t k = 0; k < (canaries ? Pad : 0); ++k) {
        if (cell[i].pre[k] != Canary || cell[i].post[k] != Canary) {
          mon::failt("mem", "%s: byte next to optional %d was overwritten (offset %s%zu)", who, i,
                     cell[i].pre[k] != Canary ? "-" : "+", k);
          cell[i].pre[k] = cell[i].post[k] = Canary;
        }
      }
      O & o = at(i);
      if (o.has_value()) {
        auto const * p = reinterpret_cast<unsigned char const *>(std::addressof(*o));
        if (p < cell[i].raw || p + sizeof(*o) > cell[i].raw + sizeof(O)) {
          mon::failt("mem", "%s: payload of optional %d lies outside of it", who, i);
        }
        if (reinterpret_cast<uintptr_t>(p) % alignof(typename O::value_type) != 0) {
          mon::failt("mem", "%s: payload of optional %d is misaligned", who, i);
        }
        static ptrdiff_t offset = -1;
        ptrdiff_t const off = p - cell[i].raw;
        if (offset == -1) {
          offset = off;
        }
        else if (offset != off) {
          mon::failt("mem", "%s: payload offset changed from %td to %td", who, offset, off);
        }
      }
    }
  }

  // Destroys slot i and constructs a new optional there with 'make(void*)'. If that throws, the slot becomes a default
  // constructed optional and the exception is passed on.
  template <class Make>
  void rebuild(int i, Make && make)
  {
    at(i).~O();
    garbage(i);
    try {
      make(static_cast<void *>(cell[i].raw));
    }
    catch (...) {
      long const c = world.countdown;
      world.countdown = 0;
      garbage(i);
      ::new (static_cast<void *>(cell[i].raw)) O;
      world.countdown = c;
      throw;
    }
  }
};

template <class O>
O pass_through(O o)
{
  return o;
}

// ---------------------------------------------------------------------------------- operations
enum Op : int
{
  CtorDefault,
  CtorNullopt,
  CtorConstLval,
  CtorLval,
  CtorRval,
  CtorInPlace,
  CtorInPlaceArgs,
  CtorConv,
  CtorCopy,
  CtorCopyNonConst,
  CtorMove,
  CtorConstMove,
  AssignNullopt,
  AssignBraces,
  AssignConstLval,
  AssignLval,
  AssignRval,
  AssignConv,
  AssignCopy,
  AssignMove,
  AssignConstMove,
  SwapMember,
  SwapAdl,
  SwapStd,
  Reset,
  EmplaceConstLval,
  EmplaceRval,
  EmplaceArgs,
  AssignOwnValue,
  AssignOtherValue,
  AssignOtherValueMoved,
  ValueLval,
  ValueConst,
  ValueRval,
  ValueConstRval,
  ValueOrConst,
  ValueOrRval,
  ValueOrConvConst,
  MutateStar,
  MutateArrow,
  MutateValue,
  StarRval,
  AndThenLval,
  AndThenConst,
  AndThenRval,
  AndThenConstRval,
  TransformLval,
  TransformConst,
  TransformRval,
  TransformConstRval,
  OrElseConst,
  OrElseRval,
  CompareOpts,
  CompareValue,
  CompareNullopt,
  Hash,
  PassThroughCopy,
  PassThroughMove,
  Exchange,
  VectorOps,
  SortOps,
  StructCopy,
  Rotate,
  TernaryMix,
  NumOps
};

inline const char * op_name(int op)
{
  static const char * const n[] = {
      "CtorDefault", "CtorNullopt", "CtorConstLval", "CtorLval", "CtorRval", "CtorInPlace", "CtorInPlaceArgs",
      "CtorConv", "CtorCopy", "CtorCopyNonConst", "CtorMove", "CtorConstMove", "AssignNullopt", "AssignBraces",
      "AssignConstLval", "AssignLval", "AssignRval", "AssignConv", "AssignCopy", "AssignMove", "AssignConstMove",
      "SwapMember", "SwapAdl", "SwapStd", "Reset", "EmplaceConstLval", "EmplaceRval", "EmplaceArgs", "AssignOwnValue",
      "AssignOtherValue", "AssignOtherValueMoved", "ValueLval", "ValueConst", "ValueRval", "ValueConstRval",
      "ValueOrConst", "ValueOrRval", "ValueOrConvConst", "MutateStar", "MutateArrow", "MutateValue", "StarRval",
      "AndThenLval", "AndThenConst", "AndThenRval", "AndThenConstRval", "TransformLval", "TransformConst",
      "TransformRval", "TransformConstRval", "OrElseConst", "OrElseRval", "CompareOpts", "CompareValue",
      "CompareNullopt", "Hash", "PassThroughCopy", "PassThroughMove", "Exchange", "VectorOps", "SortOps",
      "StructCopy", "Rotate", "TernaryMix"};
  static_assert(sizeof n / sizeof n[0] == NumOps, "");
  return n[op];
}

// How an argument arrived: 0 T&, 1 T const&, 2 T&&, 3 T const&&
template <class A>
constexpr int category()
{
  return (std::is_lvalue_reference_v<A &&> ? 0 : 2) + (std::is_const_v<std::remove_reference_t<A>> ? 1 : 0);
}

template <class O>
struct Holder
{
  int before;
  O a;
  O b;
  char after;
};

#define ENG_VALUE(EXPR)                                                                                                \
  try {                                                                                                                \
    auto && rr = EXPR;                                                                                                 \
    ob.add(1);                                                                                                         \
    ob.add(static_cast<uint64_t>(category<decltype(EXPR)>()));                                                         \
    ob.add(std::addressof(rr) == std::addressof(*s.at(i)));                                                            \
    ob.add(K::key(rr));                                                                                                \
  }                                                                                                                    \
  catch (std::bad_optional_access const &) {                                                                           \
    ob.add(0xbadacce55);                                                                                               \
  }

// Applies the operation. Returns false if it does not exist for this payload.
template <class K, class O>
bool apply(Slots<O> & s, int op, int i, int j, uint32_t r, Obs & ob)
{
  using P = typename K::P;
  using T = std::remove_cv_t<P>;
  using U = typename kd::Conv<K>::U;
  constexpr bool isConst = std::is_const_v<P>;
  constexpr bool copyC = std::is_copy_constructible_v<P>;
  constexpr bool moveC = std::is_move_constructible_v<P>;
  constexpr bool copyA = copyC && std::is_copy_assignable_v<P>;
  constexpr bool moveA = moveC && std::is_move_assignable_v<P>;
  constexpr bool hasU = !std::is_same_v<U, kd::NoU>;

  switch (op) {
  case CtorDefault: // without parentheses nothing is zero-initialised beforehand
    s.rebuild(i, [&](void * m) {
      if (r % 3 != 0) {
        ::new (m) O;
      }
      else {
        ::new (m) O();
      }
    });
    return true;
  case CtorNullopt: s.rebuild(i, [&](void * m) { ::new (m) O(std::nullopt); }); return true;
  case CtorConstLval:
    if constexpr (copyC) {
      T const v = K::make(r);
      s.rebuild(i, [&](void * m) { ::new (m) O(v); });
      ob.add(K::key(v));
      return true;
    }
    return false;
  case CtorLval:
    if constexpr (copyC) {
      T v = K::make(r);
      s.rebuild(i, [&](void * m) { ::new (m) O(v); });
      ob.add(K::key(v));
      return true;
    }
    return false;
  case CtorRval:
    if constexpr (moveC) {
      T v = K::make(r);
      s.rebuild(i, [&](void * m) { ::new (m) O(std::move(v)); });
      ob.add(K::key(v));
      return true;
    }
    return false;
  case CtorInPlace:
    if constexpr (moveC) {
      s.rebuild(i, [&](void * m) { ::new (m) O(std::in_place, K::make(r)); });
      return true;
    }
    return false;
  case CtorInPlaceArgs:
    if constexpr (std::is_constructible_v<P, int, int>) {
      s.rebuild(i, [&](void * m) { ::new (m) O(std::in_place, static_cast<int>(r % 9), static_cast<int>(r % 5)); });
      return true;
    }
    return false;
  case CtorConv:
    if constexpr (hasU) {
      U u = kd::Conv<K>::make(r);
      if (r % 2) {
        s.rebuild(i, [&](void * m) { ::new (m) O(u); });
      }
      else {
        s.rebuild(i, [&](void * m) { ::new (m) O(std::move(u)); });
      }
      return true;
    }
    return false;
  case CtorCopy:
    if constexpr (copyC) {
      if (i == j) {
        return false;
      }
      s.rebuild(i, [&](void * m) { ::new (m) O(static_cast<O const &>(s.at(j))); });
      return true;
    }
    return false;
  case CtorCopyNonConst:
    if constexpr (copyC) {
      if (i == j) {
        return false;
      }
      s.rebuild(i, [&](void * m) { ::new (m) O(s.at(j)); });
      return true;
    }
    return false;
  case CtorMove:
    if constexpr (moveC) {
      if (i == j) {
        return false;
      }
      s.rebuild(i, [&](void * m) { ::new (m) O(std::move(s.at(j))); });
      return true;
    }
    return false;
  case CtorConstMove:
    if constexpr (copyC) {
      if (i == j) {
        return false;
      }
      s.rebuild(i, [&](void * m) { ::new (m) O(static_cast<O const &&>(s.at(j))); });
      return true;
    }
    return false;
  case AssignNullopt: ob.add(std::addressof(s.at(i) = std::nullopt) == std::addressof(s.at(i))); return true;
  case AssignBraces:
    if constexpr (moveA) {
      s.at(i) = {};
      return true;
    }
    return false;
  case AssignConstLval:
    if constexpr (copyA) {
      T const v = K::make(r);
      ob.add(std::addressof(s.at(i) = v) == std::addressof(s.at(i)));
      ob.add(K::key(v));
      return true;
    }
    return false;
  case AssignLval:
    if constexpr (copyA) {
      T v = K::make(r);
      ob.add(std::addressof(s.at(i) = v) == std::addressof(s.at(i)));
      ob.add(K::key(v));
      return true;
    }
    return false;
  case AssignRval:
    if constexpr (moveA) {
      T v = K::make(r);
      ob.add(std::addressof(s.at(i) = std::move(v)) == std::addressof(s.at(i)));
      ob.add(K::key(v));
      return true;
    }
    return false;
  case AssignConv:
    if constexpr (hasU && !isConst) {
      U u = kd::Conv<K>::make(r);
      if (r % 2) {
        s.at(i) = u;
      }
      else {
        s.at(i) = std::move(u);
      }
      return true;
    }
    return false;
  case AssignCopy:
    if constexpr (copyA) {
      ob.add(std::addressof(s.at(i) = static_cast<O const &>(s.at(j))) == std::addressof(s.at(i)));
      return true;
    }
    return false;
  case AssignMove:
    if constexpr (moveA) {
      if (i == j && !std::is_scalar_v<P> && !pl::self_move_ok<P>) {
        return false; // self-move of a payload: only if the payload supports it
      }
      ob.add(std::addressof(s.at(i) = std::move(s.at(j))) == std::addressof(s.at(i)));
      return true;
    }
    return false;
  case AssignConstMove:
    if constexpr (copyA) {
      s.at(i) = static_cast<O const &&>(s.at(j));
      return true;
    }
    return false;
  case SwapMember:
    if constexpr (moveC && std::is_swappable_v<P>) {
      if (i == j && !std::is_scalar_v<P> && !pl::self_move_ok<P>) {
        return false;
      }
      s.at(i).swap(s.at(j));
      return true;
    }
    return false;
  case SwapAdl:
    if constexpr (moveC && std::is_swappable_v<P>) {
      if (i == j) {
        return false;
      }
      using std::swap;
      swap(s.at(i), s.at(j));
      return true;
    }
    return false;
  case SwapStd: // value effect of a hand written swap
    if constexpr (moveA) {
      if (i == j) {
        return false;
      }
      O tmp(std::move(s.at(i)));
      s.at(i) = std::move(s.at(j));
      s.at(j) = std::move(tmp);
      return true;
    }
    return false;
  case Reset: s.at(i).reset(); return true;
  case EmplaceConstLval:
    if constexpr (copyC) {
      T const v = K::make(r);
      auto && res = s.at(i).emplace(v);
      ob.add(std::addressof(res) == std::addressof(*s.at(i)));
      ob.add(K::key(res));
      return true;
    }
    return false;
  case EmplaceRval:
    if constexpr (moveC) {
      T v = K::make(r);
      auto && res = s.at(i).emplace(std::move(v));
      ob.add(std::addressof(res) == std::addressof(*s.at(i)));
      ob.add(K::key(res));
      ob.add(K::key(v));
      return true;
    }
    return false;
  case EmplaceArgs:
    if constexpr (std::is_constructible_v<P, std::initializer_list<int> &, int>) {
      if (r % 2) {
        s.at(i).emplace({1, 2, static_cast<int>(r % 5)}, static_cast<int>(r % 9));
        return true;
      }
    }
    if constexpr (std::is_constructible_v<P, int, int>) {
      s.at(i).emplace(static_cast<int>(r % 9), static_cast<int>(r % 5));
      return true;
    }
    return false;
  case AssignOwnValue:
    if constexpr (copyA) {
      if (s.at(i).has_value()) {
        s.at(i) = static_cast<P const &>(*s.at(i));
        return true;
      }
    }
    return false;
  case AssignOtherValue:
    if constexpr (copyA) {
      if (i != j && s.at(j).has_value()) {
        s.at(i) = *s.at(j);
        return true;
      }
    }
    return false;
  case AssignOtherValueMoved:
    if constexpr (moveA) {
      if (i != j && s.at(j).has_value()) {
        s.at(i) = *std::move(s.at(j));
        return true;
      }
    }
    return false;
  case ValueLval: ENG_VALUE(s.at(i).value()) return true;
  case ValueConst: ENG_VALUE(static_cast<O const &>(s.at(i)).value()) return true;
  case ValueRval: ENG_VALUE(std::move(s.at(i)).value()) return true;
  case ValueConstRval: ENG_VALUE(static_cast<O const &&>(s.at(i)).value()) return true;
  case ValueOrConst:
    if constexpr (copyC) {
      T v = K::make(r);
      ob.add(K::key(static_cast<O const &>(s.at(i)).value_or(v)));
      ob.add(K::key(v));
      ob.add(K::key(s.at(i).value_or(std::move(v))));
      ob.add(K::key(v));
      return true;
    }
    return false;
  case ValueOrRval:
    if constexpr (moveC) {
      T v = K::make(r);
      ob.add(K::key(std::move(s.at(i)).value_or(std::move(v))));
      ob.add(K::key(v));
      return true;
    }
    return false;
  case ValueOrConvConst:
    if constexpr (hasU && copyC) {
      ob.add(K::key(s.at(i).value_or(kd::Conv<K>::make(r))));
      return true;
    }
    return false;
  case MutateStar:
    if constexpr (moveA) {
      if (s.at(i).has_value()) {
        *s.at(i) = K::make(r);
        return true;
      }
    }
    return false;
  case MutateArrow:
    if constexpr (moveA) {
      if (s.at(i).has_value()) {
        *s.at(i).operator->() = K::make(r);
        ob.add(s.at(i).operator->() == std::addressof(*s.at(i)));
        ob.add(static_cast<O const &>(s.at(i)).operator->() == std::addressof(*s.at(i)));
        return true;
      }
    }
    return false;
  case MutateValue:
    if constexpr (moveA) {
      if (s.at(i).has_value()) {
        s.at(i).value() = K::make(r);
        return true;
      }
    }
    return false;
  case StarRval:
    if constexpr (moveC) {
      if (s.at(i).has_value()) {
        ob.add(static_cast<uint64_t>(category<decltype(*std::move(s.at(i)))>()));
        ob.add(static_cast<uint64_t>(category<decltype(*static_cast<O const &&>(s.at(i)))>()));
        T v(*std::move(s.at(i)));
        ob.add(K::key(v));
        return true;
      }
    }
    return false;
#define ENG_ANDTHEN(EXPR)                                                                                              \
  {                                                                                                                    \
    int calls = 0;                                                                                                     \
    auto res = m_and_then(EXPR, [&](auto && x) -> std::optional<int> {                                                 \
      ++calls;                                                                                                         \
      pl::emit(pl::EvCall, category<decltype(x)>());                                                                   \
      pl::maybe_throw();                                                                                               \
      ob.add(K::key(x));                                                                                               \
      if (r % 3 == 0) {                                                                                                \
        return std::nullopt;                                                                                           \
      }                                                                                                                \
      return static_cast<int>(r % 100);                                                                                \
    });                                                                                                                \
    ob.add(static_cast<uint64_t>(calls));                                                                              \
    ob.add(res ? static_cast<uint64_t>(*res) + 1 : 0);                                                                 \
    return true;                                                                                                       \
  }
  case AndThenLval: ENG_ANDTHEN(s.at(i))
  case AndThenConst: ENG_ANDTHEN(static_cast<O const &>(s.at(i)))
  case AndThenRval: ENG_ANDTHEN(std::move(s.at(i)))
  case AndThenConstRval: ENG_ANDTHEN(static_cast<O const &&>(s.at(i)))
#define ENG_TRANSFORM(EXPR)                                                                                            \
  {                                                                                                                    \
    int calls = 0;                                                                                                     \
    auto res = m_transform(EXPR, [&](auto && x) -> pl::Trk {                                                           \
      ++calls;                                                                                                         \
      pl::emit(pl::EvCall, category<decltype(x)>());                                                                   \
      pl::maybe_throw();                                                                                               \
      return pl::Trk(static_cast<int>(K::key(x) % 1000));                                                              \
    });                                                                                                                \
    ob.add(static_cast<uint64_t>(calls));                                                                              \
    ob.add(res ? static_cast<uint64_t>(res->v) + 1 : 0);                                                               \
    auto res2 = m_transform(EXPR, [&](auto && x) -> int {                                                              \
      pl::emit(pl::EvCall, 100 + category<decltype(x)>());                                                             \
      pl::maybe_throw();                                                                                               \
      return static_cast<int>(K::key(x) % 1000);                                                                       \
    });                                                                                                                \
    ob.add(res2 ? static_cast<uint64_t>(*res2) + 1 : 0);                                                               \
    return true;                                                                                                       \
  }
  case TransformLval: ENG_TRANSFORM(s.at(i))
  case TransformConst: ENG_TRANSFORM(static_cast<O const &>(s.at(i)))
  case TransformRval: ENG_TRANSFORM(std::move(s.at(i)))
  case TransformConstRval: ENG_TRANSFORM(static_cast<O const &&>(s.at(i)))
#if defined(__cpp_lib_concepts) && !defined(ENG_PORTABLE) // ENG_PORTABLE: only what exists in every configuration
  case OrElseConst:
    if constexpr (copyC && moveC) {
      int calls = 0;
      O res = m_or_else(static_cast<O const &>(s.at(i)), [&]() -> O {
        ++calls;
        pl::maybe_throw();
        return r % 3 ? O(K::make(r)) : O();
      });
      ob.add(static_cast<uint64_t>(calls));
      ob.add(res ? K::key(*res) + 1 : 0);
      return true;
    }
    return false;
  case OrElseRval:
    if constexpr (moveC) {
      int calls = 0;
      O res = m_or_else(std::move(s.at(i)), [&]() -> O {
        ++calls;
        pl::maybe_throw();
        return r % 3 ? O(K::make(r)) : O();
      });
      ob.add(static_cast<uint64_t>(calls));
      ob.add(res ? K::key(*res) + 1 : 0);
      return true;
    }
    return false;
#else
  case OrElseConst:
  case OrElseRval: return false;
#endif
  case CompareOpts: {
    O const & a = s.at(i);
    O const & b = s.at(j);
#if defined(__FAST_MATH__) || defined(ENG_PORTABLE)
    if constexpr (is_fp<P>) {
      return false;
    }
#endif
    bool did = false;
    if constexpr (has_eq<P> && ref_comparable<P>) {
      ob.add(a == b);
      did = true;
    }
    if constexpr (has_eq<P> && ref_comparable<P>) {
      ob.add(a != b);
    }
    if constexpr (has_lt<P> && ref_comparable<P>) {
      ob.add(a < b);
      ob.add(a <= b);
      ob.add(a > b);
      ob.add(a >= b);
    }
    return did;
  }
  case CompareValue: {
#if defined(__FAST_MATH__) || defined(ENG_PORTABLE)
    if constexpr (is_fp<P>) {
      return false;
    }
#endif
    O const & a = s.at(i);
    bool did = false;
    if constexpr (has_eq<P> && !is_some_opt<P>) {
      T v = K::make(r);
      ob.add(a == v);
      ob.add(v == a);
      ob.add(a != v);
      ob.add(v != a);
      did = true;
      if constexpr (has_lt<P>) {
        ob.add(a < v);
        ob.add(v < a);
        ob.add(a <= v);
        ob.add(v <= a);
        ob.add(a > v);
        ob.add(v > a);
        ob.add(a >= v);
        ob.add(v >= a);
      }
    }
    return did;
  }
  case CompareNullopt: {
    if constexpr (is_some_opt<P>) {
      return false; // 'nullopt == std::optional<std::optional<X>>' compares the inner optional with libstdc++
    }
    O const & a = s.at(i);
    ob.add(a == std::nullopt);
    ob.add(std::nullopt == a);
    ob.add(a != std::nullopt);
    ob.add(std::nullopt != a);
    ob.add(a < std::nullopt);
    ob.add(std::nullopt < a);
    ob.add(a <= std::nullopt);
    ob.add(std::nullopt <= a);
    ob.add(a > std::nullopt);
    ob.add(std::nullopt > a);
    ob.add(a >= std::nullopt);
    ob.add(std::nullopt >= a);
    return true;
  }
  case Hash:
#if defined(__FAST_MATH__) || defined(ENG_PORTABLE)
    if constexpr (is_fp<P>) {
      return false;
    }
#endif
    if constexpr (has_hash<T>) {
      O const & a = s.at(i);
      size_t const h = std::hash<O>{}(a);
      if (a.has_value()) {
        ob.add(h == std::hash<T>{}(*a));
      }
      else {
        ob.add(h == std::hash<O>{}(O()));
      }
      return true;
    }
    return false;
  case PassThroughCopy:
    if constexpr (copyA && moveC) {
      s.at(i) = pass_through(s.at(j));
      return true;
    }
    return false;
  case PassThroughMove:
    if constexpr (moveA) {
      if (i == j) {
        return false;
      }
      s.at(i) = pass_through(std::move(s.at(j)));
      return true;
    }
    return false;
  case Exchange:
    if constexpr (moveA) {
      O old = std::exchange(s.at(i), std::nullopt);
      ob.add(old.has_value());
      ob.add(old ? K::key(*old) : 0);
      return true;
    }
    return false;
  case VectorOps:
    if constexpr (copyA && moveA) {
      std::vector<O> v;
      for (int k = 0; k < Slots<O>::N; ++k) {
        v.push_back(s.at(k));
      }
      v.insert(v.begin() + static_cast<int>(r % 3), v[r % 4]);
      v.erase(v.begin() + static_cast<int>(r / 3 % 4));
      v.resize(v.size() + 2);
      v.emplace_back();
      v.emplace_back(std::nullopt);
      v.push_back(std::move(v.front()));
      v.shrink_to_fit();
      std::reverse(v.begin(), v.end());
      std::vector<O> w(v);
      w.swap(v);
      for (O const & o : v) {
        ob.add(o ? K::key(*o) + 1 : 0);
      }
      s.at(i) = v[r % v.size()];
      return true;
    }
    return false;
  case SortOps:
    if constexpr (copyA && moveA && has_lt<P> && ref_comparable<P> && !is_fp<P>) {
      std::vector<O> v;
      for (int k = 0; k < Slots<O>::N; ++k) {
        v.push_back(s.at(k));
        v.push_back(O(K::make(r + static_cast<uint32_t>(k) * 5)));
      }
      std::stable_sort(v.begin(), v.end());
      for (O const & o : v) {
        ob.add(o ? K::key(*o) + 1 : 0);
      }
      ob.add(std::is_sorted(v.begin(), v.end()));
      auto it = std::lower_bound(v.begin(), v.end(), s.at(i));
      ob.add(static_cast<uint64_t>(it - v.begin()));
      ob.add(static_cast<uint64_t>(std::count(v.begin(), v.end(), s.at(j))));
      return true;
    }
    return false;
  case StructCopy:
    if constexpr (copyA && moveA) {
      Holder<O> h{7, s.at(i), s.at(j), 'q'};
      Holder<O> g = h;
      g.a = h.b;
      Holder<O> f = std::move(g);
      h = f;
      ob.add(static_cast<uint64_t>(h.before * 1000 + h.after));
      ob.add(h.a ? K::key(*h.a) + 1 : 0);
      ob.add(h.b ? K::key(*h.b) + 1 : 0);
      h.b.reset();
      ob.add(static_cast<uint64_t>(h.before * 1000 + h.after));
      ob.add(h.a ? K::key(*h.a) + 1 : 0);
      return true;
    }
    return false;
  case Rotate:
    if constexpr (moveA && copyC) {
      std::array<O, 3> a{s.at(0), s.at(1), s.at(2)};
      std::rotate(a.begin(), a.begin() + 1 + static_cast<int>(r % 2), a.end());
      for (int k = 0; k < 3; ++k) {
        s.at(k) = std::move(a[static_cast<size_t>(k)]);
      }
      return true;
    }
    return false;
  case TernaryMix: // opaque control flow around construction, assignment and destruction
    if constexpr (copyA && moveA) {
      O local = r % 2 ? O(s.at(i)) : O(std::nullopt);
      for (uint32_t k = 0; k < r % 4; ++k) {
        if (local.has_value()) {
          local = k % 2 ? O(std::nullopt) : O(s.at(j));
        }
        else {
          local.emplace(K::make(r + k));
        }
      }
      ob.add(local ? K::key(*local) + 1 : 0);
      s.at(i) = std::move(local);
      return true;
    }
    return false;
  default: return false;
  }
}

// ---------------------------------------------------------------------------------- pairs of both libraries
template <class K>
struct Pair
{
  using Tiny = typename K::Tiny;
  using Std = std::optional<typename K::P>;
  Slots<Tiny> t;
  Slots<Std> s;
  explicit Pair(uint64_t fill) : t(fill), s(fill) { }

  // State of all slots as seen through several accessors.
  template <class O>
  static void observe(Slots<O> & sl, Obs & ob)
  {
    for (int i = 0; i < Slots<O>::N; ++i) {
      O const & o = sl.at(i);
      bool const h = o.has_value();
      ob.add(h);
      ob.add(static_cast<bool>(o));
      ob.add(!o);
      if (h) {
        ob.add(K::key(*o));
        ob.add(K::key(o.value()));
        ob.add(K::key(*o.operator->()));
      }
    }
  }

  struct Result
  {
    bool existed;
    bool threw;
    uint64_t obsHash;
    long points;
  };

  // countdown > 0: inject a fault at that point on both sides.
  Result step(int op, int i, int j, uint32_t r, long countdown = 0)
  {
    static pl::Log lt, ls; // not reentrant, fine
    lt.clear();
    ls.clear();
    Obs ot, os;
    bool threwT = false, threwS = false;
    bool exT, exS;

    mon::trace(op_name(op), i, j, static_cast<long>(r));
    long const p0 = world.points;
    exT = run<Tiny>(t, op, i, j, r, ot, lt, countdown, threwT);
    long const pT = world.points - p0;
    exS = run<Std>(s, op, i, j, r, os, ls, countdown, threwS);
    Result res{exS, threwS, 0, world.points - p0 - pT};
    mon::eval();

    if (exT != exS) {
      mon::failt("obs", "%s: operation exists for one library only (tiny %d, std %d)", op_name(op), exT, exS);
      return res;
    }
    if (threwT != threwS) {
      mon::failt("obs", "%s: %s threw, %s did not", op_name(op), threwT ? "tiny" : "std", threwT ? "std" : "tiny");
      return res;
    }
    if (!ot.same(os)) {
      int const d = ot.first_diff(os);
      mon::failt("obs", "%s(%d,%d,%u) countdown %ld: observation %d differs: tiny %llx, std %llx", op_name(op), i, j, r,
                 countdown, d, static_cast<unsigned long long>(d < ot.n ? ot.v[d] : 0),
                 static_cast<unsigned long long>(d < os.n ? os.v[d] : 0));
    }
    if (!lt.same(ls)) {
      static char b1[4096], b2[4096];
      lt.print(b1, sizeof b1);
      ls.print(b2, sizeof b2);
      mon::failt("ev", "%s(%d,%d,%u) countdown %ld: payload operations differ\n      tiny: %s\n      std:  %s", op_name(op),
                 i, j, r, countdown, b1, b2);
    }
    t.check_memory(op_name(op));

    Obs a, b;
    observe(t, a);
    observe(s, b);
    if (!a.same(b)) {
      int const d = a.first_diff(b);
      mon::failt("obs", "after %s(%d,%d,%u) countdown %ld: state observation %d differs: tiny %llx, std %llx",
                 op_name(op), i, j, r, countdown, d, static_cast<unsigned long long>(d < a.n ? a.v[d] : 0),
                 static_cast<unsigned long long>(d < b.n ? b.v[d] : 0));
    }
    res.obsHash = mon::mix(ot.hash(), a.hash());
    return res;
  }

  bool engaged(int i) { return s.at(i).has_value(); }

private:
  template <class O>
  static bool run(Slots<O> & sl, int op, int i, int j, uint32_t r, Obs & ob, pl::Log & log, long countdown, bool & threw)
  {
    bool existed = true;
    world.log = &log;
    world.countdown = countdown;
    try {
      existed = apply<K, O>(sl, op, i, j, r, ob);
    }
    catch (pl::Fault const & f) {
      threw = true;
      ob.add(static_cast<uint64_t>(f.id));
    }
    catch (...) {
      threw = true;
      ob.add(0xbad);
    }
    world.countdown = 0;
    world.log = nullptr;
    return existed;
  }
};

// ---------------------------------------------------------------------------------- drivers
// Random histories, optionally with random fault injection.
template <class K>
void histories(const char * suite, bool faults)
{
  mon::Rng rng(mon::opt.seed ^ mon::str_hash(K::name()));
  int const nHist = static_cast<int>(12 * mon::opt.scale);
  char detail[128];
  for (int h = 0; h < nHist; ++h) {
    std::snprintf(detail, sizeof detail, "kind %s history %d seed %llu", K::name(), h,
                  static_cast<unsigned long long>(mon::opt.seed));
    mon::context(suite, detail);
    mon::trace_clear();
    long const live0 = world.liveCount;
    uint64_t const f0 = mon::failures();
    uint64_t acc = 0;
    {
      Pair<K> pr(rng.next());
      int const len = 20 + static_cast<int>(rng.below(120));
      for (int n = 0; n < len && mon::failures() == f0; ++n) {
        int const op = static_cast<int>(rng.below(NumOps));
        int const i = static_cast<int>(rng.below(4));
        int const j = static_cast<int>(rng.below(4));
        uint32_t const r = static_cast<uint32_t>(rng.next() >> 20);
        long const cd = faults && rng.below(3) == 0 ? 1 + static_cast<long>(rng.below(4)) : 0;
        unsigned const pre = (pr.engaged(i) ? 2u : 0u) + (pr.engaged(j) ? 1u : 0u);
        auto const res = pr.step(op, i, j, r, cd);
        if (res.existed) {
          mon::count("operations");
          if (res.threw) {
            mon::count("faults_fired");
          }
          // distinct: which operation in which state of its operands with which outcome, for which kind
          mon::seen(mon::mix(mon::mix(mon::str_hash(K::name()), static_cast<uint64_t>(op) * 8 + pre * 2 + (i == j)),
                             res.obsHash));
        }
        acc = mon::mix(acc, res.obsHash);
        if (mon::opt.log && !std::strstr(mon::opt.mode, "acc")) {
          std::printf("OBS %s %d %d %s %llx\n", K::name(), h, n, op_name(op),
                      static_cast<unsigned long long>(res.obsHash));
        }
      }
    }
    if (world.liveCount != live0) {
      mon::failt("life", "%ld payload objects still alive after all optionals are gone", world.liveCount - live0);
      world.liveCount = live0;
    }
    if (mon::opt.log && std::strstr(mon::opt.mode, "acc")) {
      std::printf("OBS %s %d all - %llx\n", K::name(), h, static_cast<unsigned long long>(acc));
    }
    if (h == 0) {
      mon::sample("%s: first history ends with observation hash %llx", K::name(), static_cast<unsigned long long>(acc));
    }
  }
}

// Every operation in every combination of prepared states of its operands; with faults at every possible point.
// Prepared states: 0 empty, 1 engaged, 2 moved-from, 3 emptied by reset after being engaged, 4 after a failed emplace
template <class K>
void prepare(Pair<K> & pr, int slot, int st, uint32_t r)
{
  auto engage = [&] {
    if constexpr (std::is_move_constructible_v<typename K::P>) {
      pr.step(CtorInPlace, slot, slot, r);
    }
    else {
      pr.step(CtorInPlaceArgs, slot, slot, r);
    }
  };
  switch (st) {
  case 1: engage(); break;
  case 2:
    engage();
    pr.step(CtorMove, 3, slot, r);
    break;
  case 3:
    engage();
    pr.step(Reset, slot, slot, r);
    break;
  default: break;
  }
}

template <class K>
void enumerate(const char * suite, bool faults)
{
  char detail[160];
  uint64_t nextR = mon::opt.seed;
  for (int op = 0; op < NumOps; ++op) {
    uint64_t acc = 0;
    for (int si = 0; si < 4; ++si) {
      for (int sj = 0; sj < 5; ++sj) { // 4: same slot
        for (uint32_t variant = 0; variant < 3 * static_cast<uint32_t>(mon::opt.scale); ++variant) {
          uint64_t const f0 = mon::failures();
          long cd = 0;
          for (;; ++cd) {
            std::snprintf(detail, sizeof detail, "kind %s op %s state %d/%d variant %u fault point %ld", K::name(),
                          op_name(op), si, sj, variant, cd);
            mon::context(suite, detail);
            mon::trace_clear();
            long const live0 = world.liveCount;
            bool existed, threw;
            {
              mon::Rng rng(nextR + variant * 977 + static_cast<uint64_t>(op));
              Pair<K> pr(rng.next());
              prepare(pr, 0, si, static_cast<uint32_t>(rng.next() >> 20));
              if (sj != 4) {
                prepare(pr, 1, sj, static_cast<uint32_t>(rng.next() >> 20));
              }
              uint32_t const r = variant + static_cast<uint32_t>(rng.next() >> 20) / 6 * 6;
              auto const res = pr.step(op, 0, sj == 4 ? 0 : 1, r, cd);
              existed = res.existed;
              threw = res.threw;
              acc = mon::mix(acc, res.obsHash);
              if (existed) {
                mon::count("operations");
                if (threw) {
                  mon::count("faults_fired");
                }
                mon::seen(mon::mix(mon::mix(mon::str_hash(detail), static_cast<uint64_t>(cd)), res.obsHash));
                // The optionals must still be fully usable.
                if (cd > 0) {
                  pr.step(CompareNullopt, 0, 1, r);
                  pr.step(AssignRval, 0, 1, r + 1);
                  pr.step(EmplaceRval, 1, 1, r + 2);
                  pr.step(SwapMember, 0, 1, r + 3);
                  pr.step(Reset, 0, 0, r);
                  pr.step(EmplaceArgs, 0, 0, r + 5);
                  pr.step(AssignNullopt, 1, 0, r);
                  pr.step(AssignCopy, 1, 0, r);
                }
              }
            }
            if (world.liveCount != live0) {
              mon::failt("life", "%ld payload objects still alive after all optionals are gone", world.liveCount - live0);
              world.liveCount = live0;
            }
            if (!existed || !faults || (cd > 0 && !threw) || cd > 60 || mon::failures() != f0) {
              break;
            }
          }
          if (cd > 1 && si == 1 && sj == 1 && variant == 0 && op % 7 == 3) {
            mon::sample("%s %s engaged/engaged: faults injected at points 1..%ld", K::name(), op_name(op), cd - 1);
          }
        }
      }
    }
    if (mon::opt.log) {
      std::printf("OBS %s enum all %s %llx\n", K::name(), op_name(op), static_cast<unsigned long long>(acc));
    }
  }
}

template <class K>
void run_kind(const char * suite)
{
  const char * m = mon::opt.mode;
  mon::count("kinds");
  if (std::strstr(m, "hist")) {
    histories<K>(suite, std::strstr(m, "fault") != nullptr);
  }
  if (std::strstr(m, "enum")) {
    enumerate<K>(suite, std::strstr(m, "fault") != nullptr);
  }
}

#ifndef ENG_PREFIX
  #define ENG_PREFIX ""
#endif
#define ENG_KIND(ID)                                                                                                   \
  SUITE(MON_CAT(eng_run_, ID), ENG_PREFIX "kind/" #ID) { eng::run_kind<kd::ID>(ENG_PREFIX "kind/" #ID); }
} // namespace eng
