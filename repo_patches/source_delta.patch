From 7af2451337ab22faa88cf6ba30f749f060edf9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:52 +0000
Subject: [PATCH 1/6] fix: let exceptions thrown by the function passed to
 transform() propagate

ConstructPayloadFromFunction() was noexcept (and did not re-initialize the
empty flag) if only the construction of the payload from the result of the
function cannot throw, i.e. it ignored that the function itself might throw.
Hence, optional<int>{1}.transform([](int)->int{throw 0;}) called std::terminate().
---
 include/tiny/optional.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/tiny/optional.h b/include/tiny/optional.h
index 7b5a9b6..529a3fb 100644
--- a/include/tiny/optional.h
+++ b/include/tiny/optional.h
@@ -1082,7 +1082,8 @@ namespace impl
 
     template <class FuncT, class ArgT>
     void ConstructPayloadFromFunction(FuncT && func, ArgT && arg) noexcept(
-        std::is_nothrow_constructible_v<PayloadType, std::invoke_result_t<FuncT, ArgT>>)
+        std::is_nothrow_invocable_v<FuncT, ArgT>
+        && std::is_nothrow_constructible_v<PayloadType, std::invoke_result_t<FuncT, ArgT>>)
     {
       assert(!has_value());
       FlagManipulator::invalidate_empty_flag(GetIsEmptyFlag());
@@ -1091,8 +1092,10 @@ namespace impl
       // the warning.
       // NOLINTBEGIN(clang-analyzer-core.uninitialized.Assign)
 
-      // In analogy to ConstructPayload().
-      if constexpr (std::is_nothrow_constructible_v<PayloadType, std::invoke_result_t<FuncT, ArgT>>) {
+      // In analogy to ConstructPayload(). But note that also 'func' itself might throw.
+      if constexpr (
+          std::is_nothrow_invocable_v<FuncT, ArgT>
+          && std::is_nothrow_constructible_v<PayloadType, std::invoke_result_t<FuncT, ArgT>>) {
         ::new (const_cast<void *>(static_cast<void volatile const *>(std::addressof(GetPayload()))))
             PayloadType(std::invoke(std::forward<FuncT>(func), std::forward<ArgT>(arg)));
       }
-- 
2.43.0


From f99f0b9f357daef5f7aeab8b2b43c0a3a90f7c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:12 +0000
Subject: [PATCH 2/6] fix: destroy the IsEmpty flag when an empty optional gets
 destroyed

As explained in the README, the flag object created by init_empty_flag() must be
destroyed by invalidate_empty_flag(). This was never done in the destructor of an
empty optional, nor if the payload's constructor threw during the construction of
the optional. So flags that own resources leaked.
---
 include/tiny/optional.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/tiny/optional.h b/include/tiny/optional.h
index 529a3fb..14f5b86 100644
--- a/include/tiny/optional.h
+++ b/include/tiny/optional.h
@@ -960,17 +960,18 @@ namespace impl
 
     template <class... ArgsT>
     explicit StorageBase(std::in_place_t, ArgsT &&... args)
+      // Initialize the IsEmpty flag first since invalidate_empty_flag() might depend on it. Also, because of the
+      // delegation, our destructor cleans up the IsEmpty flag if the construction of the payload throws.
+      : StorageBase()
     {
-      // Initialize the IsEmpty flag first since invalidate_empty_flag() might depend on it.
-      FlagManipulator::init_empty_flag(GetIsEmptyFlag());
       ConstructPayload(std::forward<ArgsT>(args)...);
     }
 
     template <class FuncT, class ArgT>
     StorageBase(DirectInitializationFromFunctionTag, FuncT && func, ArgT && arg)
+      // Regarding the delegation, see the constructor above.
+      : StorageBase()
     {
-      // Initialize the IsEmpty flag first since invalidate_empty_flag() might depend on it.
-      FlagManipulator::init_empty_flag(GetIsEmptyFlag());
       ConstructPayloadFromFunction(std::forward<FuncT>(func), std::forward<ArgT>(arg));
     }
 
@@ -980,6 +981,10 @@ namespace impl
       if (has_value()) {
         DestroyPayload();
       }
+      else {
+        // Destroy the flag object created by init_empty_flag().
+        FlagManipulator::invalidate_empty_flag(GetIsEmptyFlag());
+      }
     }
 
     // The proper implemention of the following are defined in the derived classes.
-- 
2.43.0


From 03f18d931c65dd1a9ff1fa4114b99bc32c81b3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:30 +0000
Subject: [PATCH 3/6] fix: std::optional <=>
 optional_inplace/optional_sentinel_via_type for gcc

With gcc, the expression selected the standard operator<=>(std::optional<T>, U)
for arbitrary values U. Hence, comparing two empty optionals yielded 'less'
instead of 'equal'. Compare the already existing workaround for tiny::optional.
---
 include/tiny/optional.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/tiny/optional.h b/include/tiny/optional.h
index 14f5b86..ac30892 100644
--- a/include/tiny/optional.h
+++ b/include/tiny/optional.h
@@ -2732,6 +2732,17 @@ namespace impl
   {
     return (lhs && rhs) ? (*lhs <=> *rhs) : (lhs.has_value() <=> rhs.has_value());
   }
+
+  #ifdef TINY_OPTIONAL_GCC_WORKAROUND_CWG2445
+  template <class U, class D1, class F1>
+    requires(std::three_way_comparable_with<U, typename TinyOptionalImpl<D1, F1>::value_type>)
+  [[nodiscard]] std::compare_three_way_result_t<U, typename TinyOptionalImpl<D1, F1>::value_type> operator<=>(
+      std::optional<U> const & lhs,
+      TinyOptionalImpl<D1, F1> const & rhs)
+  {
+    return (lhs && rhs) ? (*lhs <=> *rhs) : (lhs.has_value() <=> rhs.has_value());
+  }
+  #endif
 } // namespace impl
 
 template <class P, auto e, auto i, std::three_way_comparable_with<P> U>
-- 
2.43.0


From c1c854b74a032a46b890e188d42ea5372ac0da94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:30 +0000
Subject: [PATCH 4/6] fix: use std::addressof() instead of operator& for the
 IsEmpty flag

Otherwise, sentinel_flag_manipulator writes the empty state to an arbitrary
address if the payload overloads operator&.
---
 include/tiny/optional.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/tiny/optional.h b/include/tiny/optional.h
index ac30892..c5951ea 100644
--- a/include/tiny/optional.h
+++ b/include/tiny/optional.h
@@ -237,7 +237,7 @@ struct sentinel_flag_manipulator
 
   static void init_empty_flag(PayloadType & uninitializedPayloadMemory) noexcept
   {
-    ::new (&uninitializedPayloadMemory) PayloadType(SentinelValue);
+    ::new (static_cast<void *>(std::addressof(uninitializedPayloadMemory))) PayloadType(SentinelValue);
   }
 
   static void invalidate_empty_flag(PayloadType & emptyPayload) noexcept
@@ -834,7 +834,9 @@ namespace impl
       // static_assert: Because tiny::optional requires init_empty_flag() to be noexcept; otherwise, it could not
       // give the same noexcept guarantees as std::optional.
       static_assert(
-          noexcept(*const_cast<std::remove_cv_t<FlagType> *>(&uninitializedIsEmptyFlagMemory) = valueToIndicateEmpty),
+          noexcept(
+              *const_cast<std::remove_cv_t<FlagType> *>(std::addressof(uninitializedIsEmptyFlagMemory))
+              = valueToIndicateEmpty),
           "The assignment operator of the flag type must be noexcept.");
       // Regarding the cast: https://stackoverflow.com/q/63325244/3740047
       ::new (const_cast<void *>(static_cast<void volatile const *>(std::addressof(uninitializedIsEmptyFlagMemory))))
-- 
2.43.0


From 387e05f68f5b2196732b2de6c62c885c67552d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:54 +0000
Subject: [PATCH 5/6] fix: unqualified swap() of two tiny::optionals now uses
 the payload's swap()

After 'using std::swap;', swap(a, b) selected the generic std::swap() instead of
the library's swap(), because the latter accepts only the base class of
tiny::optional. In contrast to std::optional, the payload's own swap() was thus
ignored, and swap(a, b) could throw although payload's swap() cannot.
---
 include/tiny/optional.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/tiny/optional.h b/include/tiny/optional.h
index c5951ea..969ffb1 100644
--- a/include/tiny/optional.h
+++ b/include/tiny/optional.h
@@ -2286,6 +2286,19 @@ template <class T>
 optional(T) -> optional<T, UseDefaultValue, UseDefaultValue>;
 
 
+// The generic swap() for TinyOptionalImpl is not sufficient: The standard std::swap() would be a better match for the
+// derived class 'optional', meaning that after a 'using std::swap' the swap() of the payload would never be called.
+template <
+    class P,
+    auto e,
+    auto i,
+    std::enable_if_t<std::is_move_constructible_v<P> && std::is_swappable_v<P>, int> = 0>
+void swap(optional<P, e, i> & lhs, optional<P, e, i> & rhs) noexcept(noexcept(lhs.swap(rhs)))
+{
+  lhs.swap(rhs);
+}
+
+
 template <class PayloadType, auto sentinelOrMemPtr = UseDefaultValue, auto irrelevantOrSentinel = UseDefaultValue>
 [[nodiscard]] optional<std::decay_t<PayloadType>, sentinelOrMemPtr, irrelevantOrSentinel> make_optional(
     PayloadType && v)
-- 
2.43.0


From b8e7cb127ff4dcee9e7133e666eeed7ce2ba08b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:04 +0000
Subject: [PATCH 6/6] fix: relational comparison of nested optionals with
 std::optional in C++20

Comparing e.g. tiny::optional<tiny::optional<int>> with
std::optional<tiny::optional<int>> via <, <=, >, >= or <=> did not compile in
C++20 because the constraint of operator<=>(optional, value) also considered
std::optional as 'value' and thus depended on itself. The standard excludes
optionals there, too.
---
 include/tiny/optional.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tiny/optional.h b/include/tiny/optional.h
index 969ffb1..a1797d1 100644
--- a/include/tiny/optional.h
+++ b/include/tiny/optional.h
@@ -2787,7 +2787,7 @@ namespace impl
   }
 
   template <class D1, class F1, class U>
-    requires(!is_tiny_optional_v<U> && std::three_way_comparable_with<typename TinyOptionalImpl<D1, F1>::value_type, U>)
+    requires(!IsSomeOptional<U> && std::three_way_comparable_with<typename TinyOptionalImpl<D1, F1>::value_type, U>)
   [[nodiscard]] std::compare_three_way_result_t<typename TinyOptionalImpl<D1, F1>::value_type, U> operator<=>(
       TinyOptionalImpl<D1, F1> const & lhs,
       U const & rhs)
-- 
2.43.0

