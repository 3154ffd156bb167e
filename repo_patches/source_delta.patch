From 80efb6bb6f1831dd667dd3e42d4796e80bc32aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:00 +0000
Subject: [PATCH 01/23] fix: compressed_tuple constructor casts each value to
 its own element type

static_cast<Ts...>(values)... is not C++ (only MSVC accepts it), so neither
compressed_tuple nor anything built on it, lazy() included, compiled. The
values are forwarded, so that rvalues are moved instead of copied.
---
 src/pigro/compressed_tuple.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pigro/compressed_tuple.h b/src/pigro/compressed_tuple.h
index 0e1bb53..4437826 100644
--- a/src/pigro/compressed_tuple.h
+++ b/src/pigro/compressed_tuple.h
@@ -56,7 +56,7 @@ struct compressed_tuple : compressed_tuple_base_t<Ts...> {
     template<typename... Us>
     explicit compressed_tuple(Us &&...values) requires(sizeof...(Ts) == sizeof...(Us))
       : compressed_tuple_base_t<Ts...>{
-            make_compressed_tuple_base<Ts...>(static_cast<Ts...>(values)...)
+            make_compressed_tuple_base<Ts...>(static_cast<Ts>(std::forward<Us>(values))...)
         } {}
 };
 
-- 
2.43.0


From 20eaeb8b48cd6da8fbeba7dfeee79ec21667e91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:00 +0000
Subject: [PATCH 02/23] fix: empty elements of a compressed_tuple are no longer
 ambiguous

f(T) constrained and f(T &&) unconstrained are equally good for an rvalue of
an empty type: constraints only break ties between equivalent signatures.
---
 src/pigro/compressed_tuple.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pigro/compressed_tuple.h b/src/pigro/compressed_tuple.h
index 4437826..11a8194 100644
--- a/src/pigro/compressed_tuple.h
+++ b/src/pigro/compressed_tuple.h
@@ -23,7 +23,7 @@ auto compressed_tuple_element(T) {
 }
 
 template<size_t tag, typename T>
-auto compressed_tuple_element(T &&value) {
+requires(!concepts::empty<T>) auto compressed_tuple_element(T &&value) {
     return overload{
         [](auto &&self, idx_t<tag>) -> decltype(auto) {
             return forward_like<decltype(self)>(as_nonconst(std::forward<decltype(self)>(self))(idx<tag>));
-- 
2.43.0


From 64cbe6a6f6a3bf7fcf7c0938811ac261f0febc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:00 +0000
Subject: [PATCH 03/23] fix: recursive{ f } wraps f even if f derives from
 another recursive

Without a deduction guide, the copy deduction candidate was picked for such an
f, and everything but its recursive base was sliced off (e.g. in
unwrap_value(), whose overload derives from a bound function).
---
 src/pigro/recursive.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pigro/recursive.h b/src/pigro/recursive.h
index 2453b43..8348510 100644
--- a/src/pigro/recursive.h
+++ b/src/pigro/recursive.h
@@ -33,4 +33,7 @@ struct recursive : F {
     }
 };
 
+template<typename F>
+recursive(F) -> recursive<F>;
+
 } // namespace pigro
-- 
2.43.0


From 59c8bfcbb36905b052cf4e6bce1f22b59cd3b157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:00 +0000
Subject: [PATCH 04/23] fix: uncapture.h names the concept it uses

concepts::empty was looked up unqualified from pigro::detail, so that the
header did not compile.
---
 src/pigro/uncapture.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pigro/uncapture.h b/src/pigro/uncapture.h
index 7220485..a5ed048 100644
--- a/src/pigro/uncapture.h
+++ b/src/pigro/uncapture.h
@@ -17,7 +17,7 @@ struct Uncaptured {
     auto &get_value() { return value; }
 };
 
-template<empty T, size_t tag>
+template<concepts::empty T, size_t tag>
 struct Uncaptured<T, tag> {
     Uncaptured(T) {}
 
-- 
2.43.0


From 0dfbd863bcde9cf57555675625abf6a24daf2c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:38 +0000
Subject: [PATCH 05/23] fix: bound functions do not try the bound callable on
 their own element indices

self(idx<0>) also considers the overload that calls the bound callable, whose
return type instantiates that callable with an index: a hard error for any
callable with a deduced return type that cannot take one.
---
 src/pigro/bind_tuple.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/pigro/bind_tuple.h b/src/pigro/bind_tuple.h
index 337c0d4..14bfa32 100644
--- a/src/pigro/bind_tuple.h
+++ b/src/pigro/bind_tuple.h
@@ -8,6 +8,15 @@
 
 #include <functional>
 
+namespace pigro::concepts {
+
+// the arguments with which a bound function looks up its own elements
+template<typename... Args>
+concept element_index = sizeof...(Args) == 1
+                     && ((std::same_as<std::remove_cvref_t<Args>, idx_t<0>> || std::same_as<std::remove_cvref_t<Args>, idx_t<1>>) && ...);
+
+} // namespace pigro::concepts
+
 namespace pigro {
 
 auto bind_back(auto &&f, auto &&...back_args) {
@@ -23,7 +32,7 @@ auto bind_front_tuple(auto &&f, concepts::tuple_like auto &&t) {
           compressed_tuple_element<0>(FWD(f)),
           compressed_tuple_element<1>(FWD(t)),
           [](auto &&self, auto &&...args)
-            -> decltype(pigro::apply(bind_back(f, FWD(args)...), t)) {
+            -> decltype(pigro::apply(bind_back(f, FWD(args)...), t)) requires(!concepts::element_index<decltype(args)...>) {
               auto &&f = self(idx<0>);
               auto &&t = self(idx<1>);
 
@@ -39,7 +48,7 @@ auto bind_back_tuple(auto &&f, concepts::tuple_like auto &&t) {
           compressed_tuple_element<0>(FWD(f)),
           compressed_tuple_element<1>(FWD(t)),
           [](auto &&self, auto &&...args)
-            -> decltype(pigro::apply(std::bind_front(f, FWD(args)...), t)) {
+            -> decltype(pigro::apply(std::bind_front(f, FWD(args)...), t)) requires(!concepts::element_index<decltype(args)...>) {
               auto &&f = self(idx<0>);
               auto &&t = self(idx<1>);
 
-- 
2.43.0


From bf916865a2a520d4a7f94a7fc4fc0dc6c271c367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:39 +0000
Subject: [PATCH 06/23] fix: bind_back_tuple calls the callable it stores, not
 a copy of it

std::bind_front() copies the callable, and the arguments too: whatever state
the callable kept (the cache of a lazy function, for instance) was thrown away
after each call.
---
 src/pigro/bind_tuple.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/pigro/bind_tuple.h b/src/pigro/bind_tuple.h
index 14bfa32..9bba57f 100644
--- a/src/pigro/bind_tuple.h
+++ b/src/pigro/bind_tuple.h
@@ -42,17 +42,29 @@ auto bind_front_tuple(auto &&f, concepts::tuple_like auto &&t) {
     };
 }
 
+namespace detail {
+
+// refers to its arguments: only for immediate use
+auto bind_front_ref(auto &&f, auto &&...front_args) {
+    return [&](auto &&...back_args)
+             -> decltype(std::invoke(FWD(f), FWD(front_args)..., FWD(back_args)...)) {
+        return std::invoke(FWD(f), FWD(front_args)..., FWD(back_args)...);
+    };
+}
+
+} // namespace detail
+
 auto bind_back_tuple(auto &&f, concepts::tuple_like auto &&t) {
     return recursive{
         overload{
           compressed_tuple_element<0>(FWD(f)),
           compressed_tuple_element<1>(FWD(t)),
           [](auto &&self, auto &&...args)
-            -> decltype(pigro::apply(std::bind_front(f, FWD(args)...), t)) requires(!concepts::element_index<decltype(args)...>) {
+            -> decltype(pigro::apply(detail::bind_front_ref(f, FWD(args)...), t)) requires(!concepts::element_index<decltype(args)...>) {
               auto &&f = self(idx<0>);
               auto &&t = self(idx<1>);
 
-              return pigro::apply(std::bind_front(f, FWD(args)...), t);
+              return pigro::apply(detail::bind_front_ref(f, FWD(args)...), t);
           },
         }
     };
-- 
2.43.0


From 233fa4332977f5496e3d5394de412aa20656c158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:39 +0000
Subject: [PATCH 07/23] fix: (un)regularized_void calls the function it stores,
 not a copy of it

Calling a copy loses the state of the function, such as a lazy function's
cache.
---
 src/pigro/regular_void.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pigro/regular_void.h b/src/pigro/regular_void.h
index 77504f9..699b007 100644
--- a/src/pigro/regular_void.h
+++ b/src/pigro/regular_void.h
@@ -13,7 +13,7 @@ struct regular_void {
 };
 
 constexpr auto regularized_void(auto f) {
-    return compressed_tuple{ f } >> [](auto f, auto... args) mutable {
+    return compressed_tuple{ f } >> [](auto &&f, auto... args) mutable {
         using result_t = decltype(f(args...));
 
         if constexpr (std::same_as<result_t, void>) {
@@ -26,7 +26,7 @@ constexpr auto regularized_void(auto f) {
 }
 
 constexpr auto unregularized_void(auto f) {
-    return compressed_tuple{ f } >> [](auto f, auto... args) mutable {
+    return compressed_tuple{ f } >> [](auto &&f, auto... args) mutable {
         using result_t = decltype(f(args...));
 
         if constexpr (std::same_as<result_t, regular_void>) {
-- 
2.43.0


From 0978389f5efb77bb0e404ff240a531712b807870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:39 +0000
Subject: [PATCH 08/23] fix: lazy functions keep the state of their function
 and dependencies

The wrapped function, the dependencies and their caches were copied for each
call, and the updated copies discarded.
---
 src/pigro/lazy.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pigro/lazy.h b/src/pigro/lazy.h
index 4fc51ce..0cfa4e3 100644
--- a/src/pigro/lazy.h
+++ b/src/pigro/lazy.h
@@ -35,7 +35,7 @@ constexpr auto is_changed = [](const concepts::lazy_result auto result) {
 constexpr auto unwrap_value(concepts::lazy_function auto f) {
     return recursive{
         overload{
-          compressed_tuple{ f } << [](auto &self, std::nullptr_t, auto f) { return f(nullptr); },
+          compressed_tuple{ f } << [](auto &self, std::nullptr_t, auto &&f) { return f(nullptr); },
           [](auto &self) mutable {
               return self(nullptr).value;
           },
@@ -47,7 +47,7 @@ constexpr auto lazy(auto f, concepts::lazy_function auto... deps) {
     using result_t = decltype(f(deps(nullptr).value...));
 
     auto cache = std::optional<result_t>{};
-    return compressed_tuple{ f, deps... } << [=](std::nullptr_t, auto f, auto... deps) mutable {
+    return compressed_tuple{ f, deps... } << [=](std::nullptr_t, auto &&f, auto &&...deps) mutable {
         const auto args = std::tuple{ deps(nullptr)... };
 
         auto changed = !cache || any(args, is_changed);
@@ -81,7 +81,7 @@ constexpr auto ensure_lazy(concepts::lazy_function_unwrapped auto dep) {
 
 constexpr auto ensure_lazy(::std::invocable auto dep) {
     return detail::lazy(
-      compressed_tuple{ dep } << [](auto, auto dep) mutable { return dep(); },
+      compressed_tuple{ dep } << [](auto, auto &&dep) mutable { return dep(); },
       lazy_value(0, std::true_type{}));
 }
 
-- 
2.43.0


From 26c0236aceeb70c0c349cfe41cc873564e696a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:39 +0000
Subject: [PATCH 09/23] fix: value dependencies return their value, not a
 dangling reference

The deduction guide turns LazyResult{ value, ... } into a LazyResult holding a
reference, here to a parameter of the lambda that returns it.
---
 src/pigro/lazy.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pigro/lazy.h b/src/pigro/lazy.h
index 0cfa4e3..7c02d76 100644
--- a/src/pigro/lazy.h
+++ b/src/pigro/lazy.h
@@ -68,7 +68,7 @@ constexpr auto lazy(auto f, concepts::lazy_function auto... deps) {
 
 constexpr auto lazy_value(auto value, auto changed) {
     return compressed_tuple{ value, changed } << [](std::nullptr_t, auto value, auto changed) {
-        return LazyResult{
+        return LazyResult<decltype(value)>{
             value,
             changed,
         };
-- 
2.43.0


From b024a831302b131150d9d3791e7d216cc6e4b35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:53 +0000
Subject: [PATCH 10/23] fix: name the function objects lazy() is composed of

GCC spells out the template arguments and the parameters of the function a
closure type is local to. With closures nested in closures the names grow by a
factor of some hundreds per level of lazy(): with debug information, a lazy
function with one dependency could not be compiled within 16 GB, nor
tests/lazy.test.cpp within 30 GB. The bodies are unchanged.
---
 src/pigro/bind_tuple.h       | 38 ++++++++++++--------
 src/pigro/compressed_tuple.h | 33 +++++++++++------
 src/pigro/lazy.h             | 68 ++++++++++++++++++++++++++----------
 src/pigro/regular_void.h     | 20 +++++++----
 4 files changed, 109 insertions(+), 50 deletions(-)

diff --git a/src/pigro/bind_tuple.h b/src/pigro/bind_tuple.h
index 9bba57f..64d6045 100644
--- a/src/pigro/bind_tuple.h
+++ b/src/pigro/bind_tuple.h
@@ -26,18 +26,23 @@ auto bind_back(auto &&f, auto &&...back_args) {
     };
 }
 
+template<typename F, typename T>
+struct bound_front {
+    auto operator()(auto &&self, auto &&...args) const
+      -> decltype(pigro::apply(bind_back(std::declval<F &>(), FWD(args)...), std::declval<T &>())) requires(!concepts::element_index<decltype(args)...>) {
+        auto &&f = self(idx<0>);
+        auto &&t = self(idx<1>);
+
+        return pigro::apply(bind_back(f, FWD(args)...), t);
+    }
+};
+
 auto bind_front_tuple(auto &&f, concepts::tuple_like auto &&t) {
     return recursive{
         overload{
           compressed_tuple_element<0>(FWD(f)),
           compressed_tuple_element<1>(FWD(t)),
-          [](auto &&self, auto &&...args)
-            -> decltype(pigro::apply(bind_back(f, FWD(args)...), t)) requires(!concepts::element_index<decltype(args)...>) {
-              auto &&f = self(idx<0>);
-              auto &&t = self(idx<1>);
-
-              return pigro::apply(bind_back(f, FWD(args)...), t);
-          },
+          bound_front<std::remove_reference_t<decltype(f)>, std::remove_reference_t<decltype(t)>>{},
         }
     };
 }
@@ -54,18 +59,23 @@ auto bind_front_ref(auto &&f, auto &&...front_args) {
 
 } // namespace detail
 
+template<typename F, typename T>
+struct bound_back {
+    auto operator()(auto &&self, auto &&...args) const
+      -> decltype(pigro::apply(detail::bind_front_ref(std::declval<F &>(), FWD(args)...), std::declval<T &>())) requires(!concepts::element_index<decltype(args)...>) {
+        auto &&f = self(idx<0>);
+        auto &&t = self(idx<1>);
+
+        return pigro::apply(detail::bind_front_ref(f, FWD(args)...), t);
+    }
+};
+
 auto bind_back_tuple(auto &&f, concepts::tuple_like auto &&t) {
     return recursive{
         overload{
           compressed_tuple_element<0>(FWD(f)),
           compressed_tuple_element<1>(FWD(t)),
-          [](auto &&self, auto &&...args)
-            -> decltype(pigro::apply(detail::bind_front_ref(f, FWD(args)...), t)) requires(!concepts::element_index<decltype(args)...>) {
-              auto &&f = self(idx<0>);
-              auto &&t = self(idx<1>);
-
-              return pigro::apply(detail::bind_front_ref(f, FWD(args)...), t);
-          },
+          bound_back<std::remove_reference_t<decltype(f)>, std::remove_reference_t<decltype(t)>>{},
         }
     };
 }
diff --git a/src/pigro/compressed_tuple.h b/src/pigro/compressed_tuple.h
index 11a8194..7efe875 100644
--- a/src/pigro/compressed_tuple.h
+++ b/src/pigro/compressed_tuple.h
@@ -15,23 +15,34 @@
 
 namespace pigro {
 
+template<size_t tag, typename T>
+struct stateless_element {
+    auto operator()(auto &&, idx_t<tag>) const {
+        return empty_object<std::remove_cvref_t<T>>::get();
+    }
+};
+
+template<size_t tag, typename T>
+struct stateful_element {
+    std::tuple<T> value;
+
+    decltype(auto) operator()(auto &&self, idx_t<tag>) const {
+        return forward_like<decltype(self)>(as_nonconst(std::forward<decltype(self)>(self))(idx<tag>));
+    }
+
+    decltype(auto) operator()(auto &&self, idx_t<tag>) {
+        return access(forward_like<decltype(self)>(value));
+    }
+};
+
 template<size_t tag, concepts::empty T>
 auto compressed_tuple_element(T) {
-    return [](auto &&, idx_t<tag>) {
-        return empty_object<std::remove_cvref_t<T>>::get();
-    };
+    return stateless_element<tag, T>{};
 }
 
 template<size_t tag, typename T>
 requires(!concepts::empty<T>) auto compressed_tuple_element(T &&value) {
-    return overload{
-        [](auto &&self, idx_t<tag>) -> decltype(auto) {
-            return forward_like<decltype(self)>(as_nonconst(std::forward<decltype(self)>(self))(idx<tag>));
-        },
-        [value = fwd_capture(std::forward<T>(value))](auto &&self, idx_t<tag>) mutable -> decltype(auto) {
-            return access(forward_like<decltype(self)>(value));
-        },
-    };
+    return stateful_element<tag, T>{ fwd_capture(std::forward<T>(value)) };
 }
 
 template<typename... Ts>
diff --git a/src/pigro/lazy.h b/src/pigro/lazy.h
index 7c02d76..d307e3d 100644
--- a/src/pigro/lazy.h
+++ b/src/pigro/lazy.h
@@ -32,22 +32,29 @@ constexpr auto is_changed = [](const concepts::lazy_result auto result) {
     return result.is_changed;
 };
 
-constexpr auto unwrap_value(concepts::lazy_function auto f) {
-    return recursive{
-        overload{
-          compressed_tuple{ f } << [](auto &self, std::nullptr_t, auto &&f) { return f(nullptr); },
-          [](auto &self) mutable {
-              return self(nullptr).value;
-          },
-        }
-    };
-}
+} // namespace pigro::detail
 
-constexpr auto lazy(auto f, concepts::lazy_function auto... deps) {
-    using result_t = decltype(f(deps(nullptr).value...));
+// These have a namespace of their own: in pigro::detail, they would make ADL find
+// detail::lazy() for an unqualified call of pigro::lazy() with a lazy dependency.
+namespace pigro::detail::callables {
 
-    auto cache = std::optional<result_t>{};
-    return compressed_tuple{ f, deps... } << [=](std::nullptr_t, auto &&f, auto &&...deps) mutable {
+struct forward_nullptr {
+    auto operator()(auto &, std::nullptr_t, auto &&f) const { return f(nullptr); }
+};
+
+struct unwrap {
+    auto operator()(auto &self) { return self(nullptr).value; }
+};
+
+struct call_dependency {
+    auto operator()(auto, auto &&dep) { return dep(); }
+};
+
+template<typename result_t>
+struct evaluate {
+    std::optional<result_t> cache;
+
+    constexpr auto operator()(std::nullptr_t, auto &&f, auto &&...deps) {
         const auto args = std::tuple{ deps(nullptr)... };
 
         auto changed = !cache || any(args, is_changed);
@@ -63,16 +70,39 @@ constexpr auto lazy(auto f, concepts::lazy_function auto... deps) {
             *cache,
             changed,
         };
-    };
-}
+    }
+};
 
-constexpr auto lazy_value(auto value, auto changed) {
-    return compressed_tuple{ value, changed } << [](std::nullptr_t, auto value, auto changed) {
+struct make_result {
+    auto operator()(std::nullptr_t, auto value, auto changed) const {
         return LazyResult<decltype(value)>{
             value,
             changed,
         };
+    }
+};
+
+} // namespace pigro::detail::callables
+
+namespace pigro::detail {
+
+constexpr auto unwrap_value(concepts::lazy_function auto f) {
+    return recursive{
+        overload{
+          compressed_tuple{ f } << callables::forward_nullptr{},
+          callables::unwrap{},
+        }
     };
+}
+
+constexpr auto lazy(auto f, concepts::lazy_function auto... deps) {
+    using result_t = decltype(f(deps(nullptr).value...));
+
+    return compressed_tuple{ f, deps... } << callables::evaluate<result_t>{};
+}
+
+constexpr auto lazy_value(auto value, auto changed) {
+    return compressed_tuple{ value, changed } << callables::make_result{};
 };
 
 constexpr auto ensure_lazy(concepts::lazy_function_unwrapped auto dep) {
@@ -81,7 +111,7 @@ constexpr auto ensure_lazy(concepts::lazy_function_unwrapped auto dep) {
 
 constexpr auto ensure_lazy(::std::invocable auto dep) {
     return detail::lazy(
-      compressed_tuple{ dep } << [](auto, auto &&dep) mutable { return dep(); },
+      compressed_tuple{ dep } << callables::call_dependency{},
       lazy_value(0, std::true_type{}));
 }
 
diff --git a/src/pigro/regular_void.h b/src/pigro/regular_void.h
index 699b007..aa3ee09 100644
--- a/src/pigro/regular_void.h
+++ b/src/pigro/regular_void.h
@@ -12,8 +12,8 @@ struct regular_void {
     auto operator<=>(const regular_void &) const = default;
 };
 
-constexpr auto regularized_void(auto f) {
-    return compressed_tuple{ f } >> [](auto &&f, auto... args) mutable {
+struct call_regularized_void {
+    auto operator()(auto &&f, auto... args) {
         using result_t = decltype(f(args...));
 
         if constexpr (std::same_as<result_t, void>) {
@@ -22,11 +22,15 @@ constexpr auto regularized_void(auto f) {
         } else {
             return f(args...);
         }
-    };
+    }
+};
+
+constexpr auto regularized_void(auto f) {
+    return compressed_tuple{ f } >> call_regularized_void{};
 }
 
-constexpr auto unregularized_void(auto f) {
-    return compressed_tuple{ f } >> [](auto &&f, auto... args) mutable {
+struct call_unregularized_void {
+    auto operator()(auto &&f, auto... args) {
         using result_t = decltype(f(args...));
 
         if constexpr (std::same_as<result_t, regular_void>) {
@@ -35,7 +39,11 @@ constexpr auto unregularized_void(auto f) {
         } else {
             return f(args...);
         }
-    };
+    }
+};
+
+constexpr auto unregularized_void(auto f) {
+    return compressed_tuple{ f } >> call_unregularized_void{};
 }
 
 } // namespace pigro
-- 
2.43.0


From 7c39c7f932f1402bf2df9f1c0ac3a7f929922fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:15 +0000
Subject: [PATCH 11/23] fix: a lazy function re-evaluates after a call that
 threw

When its function, or a later dependency, threw after a dependency had
reported a change, that report was consumed and the next call returned the
value cached before the change.
---
 src/pigro/lazy.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pigro/lazy.h b/src/pigro/lazy.h
index d307e3d..8657be5 100644
--- a/src/pigro/lazy.h
+++ b/src/pigro/lazy.h
@@ -54,7 +54,7 @@ template<typename result_t>
 struct evaluate {
     std::optional<result_t> cache;
 
-    constexpr auto operator()(std::nullptr_t, auto &&f, auto &&...deps) {
+    constexpr auto operator()(std::nullptr_t, auto &&f, auto &&...deps) try {
         const auto args = std::tuple{ deps(nullptr)... };
 
         auto changed = !cache || any(args, is_changed);
@@ -70,6 +70,10 @@ struct evaluate {
             *cache,
             changed,
         };
+    } catch (...) {
+        // the dependencies will not report again what they changed before this
+        cache = std::optional<result_t>{};
+        throw;
     }
 };
 
-- 
2.43.0


From eb98b77ac7a432cda346dfb2b57ed67d8906a897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:15 +0000
Subject: [PATCH 12/23] fix: transform yields one element per projection result

A single result that is itself a pair or a tuple was taken apart by class
template argument deduction; a lazy function whose only dependency returns a
pair was called with two arguments.
---
 src/pigro/tuple_algorithms.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pigro/tuple_algorithms.h b/src/pigro/tuple_algorithms.h
index 0cd2496..a488b95 100644
--- a/src/pigro/tuple_algorithms.h
+++ b/src/pigro/tuple_algorithms.h
@@ -2,12 +2,13 @@
 
 #include <functional>
 #include <tuple>
+#include <type_traits>
 
 namespace pigro {
 
 constexpr auto transform(const auto &data, auto projection) {
     return std::apply([=](const auto &...args) {
-        return std::tuple{ projection(args)... };
+        return std::tuple<std::decay_t<decltype(projection(args))>...>{ projection(args)... };
     },
       data);
 }
-- 
2.43.0


From 465844b8b6ccd3047fee656a6dae59f42d58e3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:15 +0000
Subject: [PATCH 13/23] fix: empty_object supports types with a destructor of
 their own

---
 src/pigro/empty_object.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pigro/empty_object.h b/src/pigro/empty_object.h
index 41a4a5d..462cef8 100644
--- a/src/pigro/empty_object.h
+++ b/src/pigro/empty_object.h
@@ -16,6 +16,7 @@ struct empty_object {
 
     union Storage {
         constexpr Storage() : t1{} {}
+        ~Storage() {}
         T1 t1;
         T2 t2;
     };
-- 
2.43.0


From 3f292a19883bab64225b9d651a92c1192c905f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:40 +0000
Subject: [PATCH 14/23] fix: bind_front_tuple forwards the arguments of a call

Its result type was computed from the arguments as passed, but the call passed
them as lvalues: a callable taking a move-only argument by value was accepted
and then failed to compile, and one overloaded on value category returned a
converted result of the wrong overload.
---
 src/pigro/bind_tuple.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/pigro/bind_tuple.h b/src/pigro/bind_tuple.h
index 64d6045..33da963 100644
--- a/src/pigro/bind_tuple.h
+++ b/src/pigro/bind_tuple.h
@@ -26,14 +26,26 @@ auto bind_back(auto &&f, auto &&...back_args) {
     };
 }
 
+namespace detail {
+
+// refers to its arguments: only for immediate use
+auto bind_back_ref(auto &&f, auto &&...back_args) {
+    return [&](auto &&...front_args)
+             -> decltype(std::invoke(FWD(f), FWD(front_args)..., FWD(back_args)...)) {
+        return std::invoke(FWD(f), FWD(front_args)..., FWD(back_args)...);
+    };
+}
+
+} // namespace detail
+
 template<typename F, typename T>
 struct bound_front {
     auto operator()(auto &&self, auto &&...args) const
-      -> decltype(pigro::apply(bind_back(std::declval<F &>(), FWD(args)...), std::declval<T &>())) requires(!concepts::element_index<decltype(args)...>) {
+      -> decltype(pigro::apply(detail::bind_back_ref(std::declval<F &>(), FWD(args)...), std::declval<T &>())) requires(!concepts::element_index<decltype(args)...>) {
         auto &&f = self(idx<0>);
         auto &&t = self(idx<1>);
 
-        return pigro::apply(bind_back(f, FWD(args)...), t);
+        return pigro::apply(detail::bind_back_ref(f, FWD(args)...), t);
     }
 };
 
-- 
2.43.0


From af0b38d02fd93b095f18bacdc665afca262360ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:08 +0000
Subject: [PATCH 15/23] fix: a compressed_tuple of one element can be copied
 from a non-const one

The converting constructor was chosen over the copy constructor.
---
 src/pigro/compressed_tuple.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pigro/compressed_tuple.h b/src/pigro/compressed_tuple.h
index 7efe875..bae9933 100644
--- a/src/pigro/compressed_tuple.h
+++ b/src/pigro/compressed_tuple.h
@@ -65,7 +65,7 @@ struct compressed_tuple : compressed_tuple_base_t<Ts...> {
       : compressed_tuple_base_t<Ts...>{ make_compressed_tuple_base<Ts...>(Ts{}...) } {}
 
     template<typename... Us>
-    explicit compressed_tuple(Us &&...values) requires(sizeof...(Ts) == sizeof...(Us))
+    explicit compressed_tuple(Us &&...values) requires(sizeof...(Ts) == sizeof...(Us) && (!std::same_as<std::remove_cvref_t<Us>, compressed_tuple> && ...))
       : compressed_tuple_base_t<Ts...>{
             make_compressed_tuple_base<Ts...>(static_cast<Ts>(std::forward<Us>(values))...)
         } {}
-- 
2.43.0


From 7dc2c14a536598a8b079423ad3f10f39f9b92f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:49 +0000
Subject: [PATCH 16/23] fix: an empty optional compares equal to an empty
 optional

Comparing the cache with a result that is itself an optional compared the two
as optionals: an empty result was always taken for a change.
---
 src/pigro/lazy.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pigro/lazy.h b/src/pigro/lazy.h
index 8657be5..9c0c4f5 100644
--- a/src/pigro/lazy.h
+++ b/src/pigro/lazy.h
@@ -62,7 +62,7 @@ struct evaluate {
             const auto values = transform(args, value);
             const auto result = std::apply(f, values);
 
-            changed = cache != result;
+            changed = !cache || *cache != result;
             cache = std::move(result);
         }
 
-- 
2.43.0


From ebcecddd0180bb7687514bb90963902b0932c769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:50 +0000
Subject: [PATCH 17/23] fix: a lazy function shared through std::ref is
 evaluated as a plain function

It was taken for a lazy dependency of its own, whose changes are reported once:
of two lazy functions sharing it, only the first to be called saw a change and
the other kept returning its old value.
---
 src/pigro/concepts.h | 10 +++++++++-
 src/pigro/lazy.h     |  9 ++++++++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/pigro/concepts.h b/src/pigro/concepts.h
index 59551d6..0e553a5 100644
--- a/src/pigro/concepts.h
+++ b/src/pigro/concepts.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <functional>
 #include <type_traits>
 #include <utility>
 
@@ -18,7 +19,14 @@ concept lazy_function = requires(F f) {
 };
 
 template<typename F>
-concept lazy_function_unwrapped = lazy_function<F> && ::std::invocable<F>;
+constexpr auto is_reference_wrapper = false;
+
+template<typename F>
+constexpr auto is_reference_wrapper<std::reference_wrapper<F>> = true;
+
+// a lazy function reports each change once, so one that is shared cannot be relied on to report it
+template<typename F>
+concept lazy_function_unwrapped = lazy_function<F> && ::std::invocable<F> && !is_reference_wrapper<F>;
 
 template<typename T>
 concept empty = std::is_empty_v<std::remove_cvref_t<T>>;
diff --git a/src/pigro/lazy.h b/src/pigro/lazy.h
index 9c0c4f5..148b5f6 100644
--- a/src/pigro/lazy.h
+++ b/src/pigro/lazy.h
@@ -47,7 +47,14 @@ struct unwrap {
 };
 
 struct call_dependency {
-    auto operator()(auto, auto &&dep) { return dep(); }
+    auto operator()(auto, auto &&dep) {
+        if constexpr (std::same_as<decltype(dep()), void>) {
+            dep();
+            return regular_void{};
+        } else {
+            return dep();
+        }
+    }
 };
 
 template<typename result_t>
-- 
2.43.0


From d586eff54f32dfa790a99aa550b1b6aec2bf13c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:33 +0000
Subject: [PATCH 18/23] fix: the tuple operators do not make shifting other
 types ill-formed

tuple_like named std::tuple_size<T> without requiring it to be complete, so that
considering pigro's operator<< or operator>> for any other operand, as in
std::cout << x with pigro's names visible, was a hard error.
---
 src/pigro/concepts.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pigro/concepts.h b/src/pigro/concepts.h
index 0e553a5..16e657a 100644
--- a/src/pigro/concepts.h
+++ b/src/pigro/concepts.h
@@ -39,7 +39,7 @@ concept has_tuple_element =
 
 template<class T>
 concept tuple_like = requires {
-    typename std::tuple_size<std::remove_reference_t<T>>;
+    std::tuple_size<std::remove_reference_t<T>>::value;
     std::same_as<decltype(std::tuple_size_v<std::remove_reference_t<T>>), size_t>;
 }
 &&[]<std::size_t... I>(std::index_sequence<I...>) {
-- 
2.43.0


From b10008b49ed1872be17a43f3f0395b3db820d31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:11 +0000
Subject: [PATCH 19/23] fix: empty elements can be of a final class

empty_object derived from the element's class to find out how to make one, so
that a constant dependency, a bound or uncaptured value or any other element of
an empty final class was rejected.
---
 src/pigro/empty_object.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pigro/empty_object.h b/src/pigro/empty_object.h
index 462cef8..9be4bb3 100644
--- a/src/pigro/empty_object.h
+++ b/src/pigro/empty_object.h
@@ -10,7 +10,8 @@ struct empty_object {
     struct T1 {
         char c;
     };
-    struct T2 : T {
+    struct T2 { // no base class: T can be final
+        [[no_unique_address]] T t;
         char c;
     };
 
@@ -27,9 +28,8 @@ struct empty_object {
         const auto *c = &storage.t2.c;
 
         auto t2 = reinterpret_cast<const T2 *>(c);
-        auto t = static_cast<const T *>(t2);
 
-        return *t;
+        return t2->t;
     }
 };
 
-- 
2.43.0


From 55b07f024c3e4a62a69d3b389c2e2fcb0e963217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:54 +0000
Subject: [PATCH 20/23] fix: values can be uncaptured into a function that
 holds uncaptured ones deeper down

uncaptured(1) >> overload{ uncaptured(2) >> f, g } had two base classes
Uncaptured<int, 1>, as the tag only looked at the outermost wrapper.
---
 src/pigro/uncapture.h | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/pigro/uncapture.h b/src/pigro/uncapture.h
index a5ed048..9329803 100644
--- a/src/pigro/uncapture.h
+++ b/src/pigro/uncapture.h
@@ -40,20 +40,19 @@ struct CompressedInvocable : private U
     CompressedInvocable(U u, F f) : U{ u }, F{ f } {};
 };
 
-template<typename F>
-struct unique_tag { constexpr static auto value = 0; };
-
-template<typename U, typename F, size_t tag>
-struct unique_tag<CompressedInvocable<U, F, tag>> {
-    constexpr static auto value = tag;
-};
-
-template<typename F>
-constexpr auto unique_tag_v = unique_tag<F>::value;
+// the first tag for which F has no base class of its own, at any depth
+template<typename T, typename F, size_t tag = 1>
+constexpr size_t unique_tag_for() {
+    if constexpr (std::is_base_of_v<Uncaptured<T, tag>, F>) {
+        return unique_tag_for<T, F, tag + 1>();
+    } else {
+        return tag;
+    }
+}
 
 template<typename T, typename F>
 auto operator>>(Uncaptured<T> u, F f) {
-    constexpr auto unique_tag = unique_tag_v<F> + 1;
+    constexpr auto unique_tag = unique_tag_for<T, F>();
     return CompressedInvocable<Uncaptured<T, unique_tag>, F, unique_tag>{ Uncaptured<T, unique_tag>{ u.get_value() }, f };
 }
 
-- 
2.43.0


From 274a517eb35f77b92845d10b572953fb9697b946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:23 +0000
Subject: [PATCH 21/23] fix: the headers include what they use

---
 src/pigro/apply.h           | 3 +++
 src/pigro/concepts.h        | 3 +++
 src/pigro/forward_like.h    | 1 +
 src/pigro/fwd_capture.h     | 1 +
 src/pigro/pack_algorithms.h | 2 ++
 src/pigro/recursive.h       | 2 ++
 src/pigro/utils.h           | 2 ++
 7 files changed, 14 insertions(+)

diff --git a/src/pigro/apply.h b/src/pigro/apply.h
index c5c2b79..f9fdaec 100644
--- a/src/pigro/apply.h
+++ b/src/pigro/apply.h
@@ -1,7 +1,10 @@
 #pragma once
 
+#include <cstddef>
+#include <functional>
 #include <tuple>
 #include <type_traits>
+#include <utility>
 
 namespace pigro {
 
diff --git a/src/pigro/concepts.h b/src/pigro/concepts.h
index 16e657a..1166d1a 100644
--- a/src/pigro/concepts.h
+++ b/src/pigro/concepts.h
@@ -1,6 +1,9 @@
 #pragma once
 
+#include <concepts>
+#include <cstddef>
 #include <functional>
+#include <tuple>
 #include <type_traits>
 #include <utility>
 
diff --git a/src/pigro/forward_like.h b/src/pigro/forward_like.h
index 72eca38..fd53a69 100644
--- a/src/pigro/forward_like.h
+++ b/src/pigro/forward_like.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <type_traits>
+#include <utility>
 
 namespace pigro {
 
diff --git a/src/pigro/fwd_capture.h b/src/pigro/fwd_capture.h
index b78bfdf..726b5f4 100644
--- a/src/pigro/fwd_capture.h
+++ b/src/pigro/fwd_capture.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <tuple>
+#include <utility>
 
 namespace pigro {
 
diff --git a/src/pigro/pack_algorithms.h b/src/pigro/pack_algorithms.h
index ba851f6..e0ad64c 100644
--- a/src/pigro/pack_algorithms.h
+++ b/src/pigro/pack_algorithms.h
@@ -1,6 +1,8 @@
 #pragma once
 
+#include <cstddef>
 #include <tuple>
+#include <utility>
 
 namespace pigro {
 
diff --git a/src/pigro/recursive.h b/src/pigro/recursive.h
index 8348510..d6f9f56 100644
--- a/src/pigro/recursive.h
+++ b/src/pigro/recursive.h
@@ -3,6 +3,8 @@
 #include "forward_like.h"
 #include "utils.h"
 
+#include <functional>
+#include <type_traits>
 #include <utility>
 
 namespace pigro {
diff --git a/src/pigro/utils.h b/src/pigro/utils.h
index 4ad6338..e98724d 100644
--- a/src/pigro/utils.h
+++ b/src/pigro/utils.h
@@ -1,6 +1,8 @@
 #pragma once
 
+#include <cstddef>
 #include <type_traits>
+#include <utility>
 
 #define SFINAEABLE_RETURN(...) \
     ->decltype(__VA_ARGS__) {  \
-- 
2.43.0


From 662f01f073ae7a4a20ff2288a5ab56fa048a4ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:57 +0000
Subject: [PATCH 22/23] fix: bind_back accepts and returns what its callable
 does with what it stores

---
 src/pigro/bind_tuple.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pigro/bind_tuple.h b/src/pigro/bind_tuple.h
index 33da963..6e74a0b 100644
--- a/src/pigro/bind_tuple.h
+++ b/src/pigro/bind_tuple.h
@@ -21,7 +21,7 @@ namespace pigro {
 
 auto bind_back(auto &&f, auto &&...back_args) {
     return [f = FWD_CAPTURE(f), ... back_args = FWD_CAPTURE(back_args)](auto &&...front_args) mutable
-           -> decltype(std::invoke(FWD(f), FWD(front_args)..., FWD(back_args)...)) {
+           -> decltype(std::invoke(f, FWD(front_args)..., back_args...)) {
         return std::invoke(access(f), FWD(front_args)..., access(back_args)...);
     };
 }
-- 
2.43.0


From 368d26230d343a29617652a0c39c0c5bb1566b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:48 +0000
Subject: [PATCH 23/23] fix: call the library's own functions qualified

Their arguments have types of the caller, so that functions named access, any,
transform, concat, fwd_capture, ... in the caller's namespace were found by ADL
and called instead, or made the call ambiguous.
---
 src/pigro/apply.h            |  4 ++--
 src/pigro/bind_tuple.h       | 14 +++++++-------
 src/pigro/compressed_tuple.h | 16 ++++++++--------
 src/pigro/fwd_capture.h      |  2 +-
 src/pigro/lazy.h             | 10 +++++-----
 src/pigro/pack_algorithms.h  |  2 +-
 src/pigro/partition.h        | 12 ++++++------
 7 files changed, 30 insertions(+), 30 deletions(-)

diff --git a/src/pigro/apply.h b/src/pigro/apply.h
index f9fdaec..d6fd4df 100644
--- a/src/pigro/apply.h
+++ b/src/pigro/apply.h
@@ -15,8 +15,8 @@ auto apply_impl(auto &&f, auto &&t, std::index_sequence<idx...>) -> decltype(std
 
 template<typename F, typename Tuple>
 auto apply(F &&f, Tuple &&t)
-  -> decltype(apply_impl(std::forward<decltype(f)>(f), std::forward<decltype(t)>(t), std::make_index_sequence<std::tuple_size_v<std::remove_cvref_t<decltype(t)>>>{})) {
-    return apply_impl(std::forward<decltype(f)>(f), std::forward<decltype(t)>(t), std::make_index_sequence<std::tuple_size_v<std::remove_cvref_t<decltype(t)>>>{});
+  -> decltype(pigro::apply_impl(std::forward<decltype(f)>(f), std::forward<decltype(t)>(t), std::make_index_sequence<std::tuple_size_v<std::remove_cvref_t<decltype(t)>>>{})) {
+    return pigro::apply_impl(std::forward<decltype(f)>(f), std::forward<decltype(t)>(t), std::make_index_sequence<std::tuple_size_v<std::remove_cvref_t<decltype(t)>>>{});
 }
 
 } // namespace pigro
diff --git a/src/pigro/bind_tuple.h b/src/pigro/bind_tuple.h
index 6e74a0b..5a0d34f 100644
--- a/src/pigro/bind_tuple.h
+++ b/src/pigro/bind_tuple.h
@@ -22,7 +22,7 @@ namespace pigro {
 auto bind_back(auto &&f, auto &&...back_args) {
     return [f = FWD_CAPTURE(f), ... back_args = FWD_CAPTURE(back_args)](auto &&...front_args) mutable
            -> decltype(std::invoke(f, FWD(front_args)..., back_args...)) {
-        return std::invoke(access(f), FWD(front_args)..., access(back_args)...);
+        return std::invoke(pigro::access(f), FWD(front_args)..., pigro::access(back_args)...);
     };
 }
 
@@ -52,8 +52,8 @@ struct bound_front {
 auto bind_front_tuple(auto &&f, concepts::tuple_like auto &&t) {
     return recursive{
         overload{
-          compressed_tuple_element<0>(FWD(f)),
-          compressed_tuple_element<1>(FWD(t)),
+          pigro::compressed_tuple_element<0>(FWD(f)),
+          pigro::compressed_tuple_element<1>(FWD(t)),
           bound_front<std::remove_reference_t<decltype(f)>, std::remove_reference_t<decltype(t)>>{},
         }
     };
@@ -85,19 +85,19 @@ struct bound_back {
 auto bind_back_tuple(auto &&f, concepts::tuple_like auto &&t) {
     return recursive{
         overload{
-          compressed_tuple_element<0>(FWD(f)),
-          compressed_tuple_element<1>(FWD(t)),
+          pigro::compressed_tuple_element<0>(FWD(f)),
+          pigro::compressed_tuple_element<1>(FWD(t)),
           bound_back<std::remove_reference_t<decltype(f)>, std::remove_reference_t<decltype(t)>>{},
         }
     };
 }
 
 auto operator>>(concepts::tuple_like auto &&args, auto &&f) {
-    return bind_front_tuple(FWD(f), FWD(args));
+    return pigro::bind_front_tuple(FWD(f), FWD(args));
 }
 
 auto operator<<(concepts::tuple_like auto &&args, auto &&f) {
-    return bind_back_tuple(FWD(f), FWD(args));
+    return pigro::bind_back_tuple(FWD(f), FWD(args));
 }
 
 } // namespace pigro
diff --git a/src/pigro/compressed_tuple.h b/src/pigro/compressed_tuple.h
index bae9933..1b0c245 100644
--- a/src/pigro/compressed_tuple.h
+++ b/src/pigro/compressed_tuple.h
@@ -27,11 +27,11 @@ struct stateful_element {
     std::tuple<T> value;
 
     decltype(auto) operator()(auto &&self, idx_t<tag>) const {
-        return forward_like<decltype(self)>(as_nonconst(std::forward<decltype(self)>(self))(idx<tag>));
+        return pigro::forward_like<decltype(self)>(pigro::as_nonconst(std::forward<decltype(self)>(self))(idx<tag>));
     }
 
     decltype(auto) operator()(auto &&self, idx_t<tag>) {
-        return access(forward_like<decltype(self)>(value));
+        return pigro::access(pigro::forward_like<decltype(self)>(value));
     }
 };
 
@@ -42,32 +42,32 @@ auto compressed_tuple_element(T) {
 
 template<size_t tag, typename T>
 requires(!concepts::empty<T>) auto compressed_tuple_element(T &&value) {
-    return stateful_element<tag, T>{ fwd_capture(std::forward<T>(value)) };
+    return stateful_element<tag, T>{ pigro::fwd_capture(std::forward<T>(value)) };
 }
 
 template<typename... Ts>
 auto make_compressed_tuple_base(Ts &&...values) {
-    return enumerate_pack(
+    return pigro::enumerate_pack(
       [](const auto &...items) {
           return recursive{
-              overload{ compressed_tuple_element<items.index>(std::forward<decltype(items.value)>(items.value))... }
+              overload{ pigro::compressed_tuple_element<items.index>(std::forward<decltype(items.value)>(items.value))... }
           };
       },
       std::forward<decltype(values)>(values)...);
 }
 
 template<typename... Ts>
-using compressed_tuple_base_t = decltype(make_compressed_tuple_base<Ts...>(std::declval<Ts>()...));
+using compressed_tuple_base_t = decltype(pigro::make_compressed_tuple_base<Ts...>(std::declval<Ts>()...));
 
 template<typename... Ts>
 struct compressed_tuple : compressed_tuple_base_t<Ts...> {
     compressed_tuple() requires(std::default_initializable<Ts> &&...)
-      : compressed_tuple_base_t<Ts...>{ make_compressed_tuple_base<Ts...>(Ts{}...) } {}
+      : compressed_tuple_base_t<Ts...>{ pigro::make_compressed_tuple_base<Ts...>(Ts{}...) } {}
 
     template<typename... Us>
     explicit compressed_tuple(Us &&...values) requires(sizeof...(Ts) == sizeof...(Us) && (!std::same_as<std::remove_cvref_t<Us>, compressed_tuple> && ...))
       : compressed_tuple_base_t<Ts...>{
-            make_compressed_tuple_base<Ts...>(static_cast<Ts>(std::forward<Us>(values))...)
+            pigro::make_compressed_tuple_base<Ts...>(static_cast<Ts>(std::forward<Us>(values))...)
         } {}
 };
 
diff --git a/src/pigro/fwd_capture.h b/src/pigro/fwd_capture.h
index 726b5f4..2c5a889 100644
--- a/src/pigro/fwd_capture.h
+++ b/src/pigro/fwd_capture.h
@@ -22,4 +22,4 @@ decltype(auto) access(T &&x) {
 
 } // namespace pigro
 
-#define FWD_CAPTURE(x) fwd_capture(std::forward<decltype(x)>(x))
+#define FWD_CAPTURE(x) pigro::fwd_capture(std::forward<decltype(x)>(x))
diff --git a/src/pigro/lazy.h b/src/pigro/lazy.h
index 148b5f6..d1d3310 100644
--- a/src/pigro/lazy.h
+++ b/src/pigro/lazy.h
@@ -64,9 +64,9 @@ struct evaluate {
     constexpr auto operator()(std::nullptr_t, auto &&f, auto &&...deps) try {
         const auto args = std::tuple{ deps(nullptr)... };
 
-        auto changed = !cache || any(args, is_changed);
+        auto changed = !cache || pigro::any(args, is_changed);
         if (changed) {
-            const auto values = transform(args, value);
+            const auto values = pigro::transform(args, value);
             const auto result = std::apply(f, values);
 
             changed = !cache || *cache != result;
@@ -127,7 +127,7 @@ constexpr auto ensure_lazy(::std::invocable auto dep) {
 }
 
 constexpr auto ensure_lazy(auto dep) {
-    return lazy_value(dep, std::false_type{});
+    return detail::lazy_value(dep, std::false_type{});
 }
 
 } // namespace pigro::detail
@@ -136,11 +136,11 @@ namespace pigro {
 
 auto lazy(auto f, auto... deps) {
     auto lazy_f = detail::lazy(
-      regularized_void(f),
+      pigro::regularized_void(f),
       detail::ensure_lazy(deps)...);
 
     auto unwrapped_lazy_f = detail::unwrap_value(lazy_f);
-    return unregularized_void(unwrapped_lazy_f);
+    return pigro::unregularized_void(unwrapped_lazy_f);
 }
 
 } // namespace pigro
diff --git a/src/pigro/pack_algorithms.h b/src/pigro/pack_algorithms.h
index e0ad64c..e4602a4 100644
--- a/src/pigro/pack_algorithms.h
+++ b/src/pigro/pack_algorithms.h
@@ -29,7 +29,7 @@ auto enumerate_pack(auto &&f, auto &&...pack) {
 template<size_t n>
 auto enumerate_n(auto &&f) {
     return [&]<size_t... idx>(std::index_sequence<idx...>) {
-        return enumerate_pack(f, idx...);
+        return pigro::enumerate_pack(f, idx...);
     }
     (std::make_index_sequence<n>{});
 }
diff --git a/src/pigro/partition.h b/src/pigro/partition.h
index aa5c25f..fb92fab 100644
--- a/src/pigro/partition.h
+++ b/src/pigro/partition.h
@@ -50,8 +50,8 @@ template<
 constexpr auto filter_if(
   typelist<Ts...>,
   Predicate predicate) {
-    return concat(
-      filter_if(typelist<Ts>{}, predicate)...);
+    return pigro::concat(
+      pigro::filter_if(typelist<Ts>{}, predicate)...);
 }
 
 template<
@@ -60,9 +60,9 @@ template<
 constexpr auto partition(
   typelist<Ts...>,
   Predicate predicate) {
-    return concat(
-      filter_if(typelist<Ts>{}, predicate)...,
-      filter_if(typelist<Ts>{}, !predicate)...);
+    return pigro::concat(
+      pigro::filter_if(typelist<Ts>{}, predicate)...,
+      pigro::filter_if(typelist<Ts>{}, !predicate)...);
 }
 
 template<
@@ -85,6 +85,6 @@ template<template<typename> class Trait>
 constexpr auto predicate = Predicate<Trait>{};
 
 template<template<typename> class Trait, typename... T>
-using partition_t = decltype(partition(typelist<T...>{}, predicate<Trait>));
+using partition_t = decltype(pigro::partition(typelist<T...>{}, predicate<Trait>));
 
 } // namespace pigro
-- 
2.43.0

