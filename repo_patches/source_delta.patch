From 25156495889925d392e7f178c02128fcfe6ff774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:12 +0000
Subject: [PATCH 01/34] fix: opt::sentinel_f with two or more sentinel values
 does not compile

---
 include/opt/option.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index d9bd0f0..49ad88e 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -3977,7 +3977,7 @@ namespace impl {
         if (Compare{}(value, Value)) { return I; }
 
         if constexpr (sizeof...(Values) > 0) {
-            return sentinel_get_level_impl<T, Compare, I + 1, Values...>(value);
+            return sentinel_f_get_level_impl<T, Compare, I + 1, Values...>(value);
         } else {
             return std::uintmax_t(-1);
         }
@@ -3987,7 +3987,7 @@ namespace impl {
         if (level == I) { Set{}(value, Value); return; }
 
         if constexpr (sizeof...(Values) > 0) {
-            sentinel_set_level_impl<T, Set, I + 1, Values...>(value, level);
+            sentinel_f_set_level_impl<T, Set, I + 1, Values...>(value, level);
         } else {
             OPTION_VERIFY(false, "Level is out of range");
         }
-- 
2.43.0


From 2a8c7928b991a1a4bd5cdede5d3cdb6eca79f748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:12 +0000
Subject: [PATCH 02/34] fix: C++17 construction of a contained value ran the
 destructor of a temporary instead of constructing in place

---
 include/opt/option.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 49ad88e..f8b5297 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -651,7 +651,7 @@ namespace impl {
 #else
     template<class T, class... Args>
     constexpr void construct_at(T* ptr, Args&&... args) {
-        if constexpr (impl::is_trivially_move_assignable_v<T>) {
+        if constexpr (impl::is_trivially_move_assignable_v<T> && impl::is_trivially_destructible_v<T>) {
             if constexpr (std::is_aggregate_v<T>) {
                 *ptr = T{static_cast<Args&&>(args)...};
             } else {
-- 
2.43.0


From 13c6479daf57b60e2702c30b6e4682e548239a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:12 +0000
Subject: [PATCH 03/34] fix: assigning an lvalue opt::option<U&> to
 opt::option<T&> does not compile

---
 include/opt/option.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index f8b5297..4493b29 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -2934,7 +2934,7 @@ public:
     constexpr option& operator=(const option<U>& other) {
         if constexpr (std::is_reference_v<T>) {
             if (other.has_value()) {
-                base::value = base::ref_to_ptr(static_cast<option<U>&&>(other.get()));
+                base::value = base::ref_to_ptr(other.get());
             } else {
                 reset();
             }
-- 
2.43.0


From f812071febcdda25a2afba326db15c7bb4521664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:12 +0000
Subject: [PATCH 04/34] fix: opt::get<T> of an rvalue opt::option does not
 compile

---
 include/opt/option.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 4493b29..b6eb0c3 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -3475,9 +3475,9 @@ template<class T, class OptT>
 template<class T, class OptT>
 [[nodiscard]] constexpr auto get(const opt::option<OptT>& x OPTION_LIFETIMEBOUND) noexcept { return impl::get_impl<T>(x); }
 template<class T, class OptT>
-[[nodiscard]] constexpr auto get(opt::option<OptT>&& x OPTION_LIFETIMEBOUND) noexcept { return impl::get_impl<T>(static_cast<opt::option<T>&&>(x)); }
+[[nodiscard]] constexpr auto get(opt::option<OptT>&& x OPTION_LIFETIMEBOUND) noexcept { return impl::get_impl<T>(static_cast<opt::option<OptT>&&>(x)); }
 template<class T, class OptT>
-[[nodiscard]] constexpr auto get(const opt::option<OptT>&& x OPTION_LIFETIMEBOUND) noexcept { return impl::get_impl<T>(static_cast<const opt::option<T>&&>(x)); }
+[[nodiscard]] constexpr auto get(const opt::option<OptT>&& x OPTION_LIFETIMEBOUND) noexcept { return impl::get_impl<T>(static_cast<const opt::option<OptT>&&>(x)); }
 
 namespace impl {
     template<std::size_t I, class Variant>
-- 
2.43.0


From 8150580534e6c33e087ee0563e6276b37da31e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:12 +0000
Subject: [PATCH 05/34] fix: PADDING member traits claimed more levels than the
 member can hold

---
 include/opt/option.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index b6eb0c3..2bc59f0 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -1500,7 +1500,7 @@ namespace impl {
         using member_type = decltype(std::declval<T&>().PADDING);
         static_assert(std::is_unsigned_v<member_type>, ".PADDING member must be an unsigned integer");
     public:
-        static constexpr std::uintmax_t max_level = std::uintmax_t(~member_type(0));
+        static constexpr std::uintmax_t max_level = std::uintmax_t(member_type(~member_type(0)));
 
         static std::uintmax_t get_level(const T* const value) noexcept {
             return std::uintmax_t(std::uintmax_t(value->PADDING) - 1);
-- 
2.43.0


From e874bc915babd046a287d9dbe69bf0b7afe68baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:12 +0000
Subject: [PATCH 06/34] fix: OPTION_USE_QUIET_NAN had no effect

---
 include/opt/option.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 2bc59f0..3588f53 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -1090,14 +1090,14 @@ namespace impl {
                 if constexpr (sizeof(std::uintptr_t) == 4) {
                     return st::float64_qNaN;
                 } else {
-                    return limits::has_signaling_NaN ? st::float64_sNaN : st::float64_qNaN;
+                    return (limits::has_signaling_NaN && !OPTION_USE_QUIET_NAN) ? st::float64_sNaN : st::float64_qNaN;
                 }
             } else
             if constexpr (sizeof(T) == 4) {
                 if constexpr (sizeof(std::uintptr_t) == 4) {
                     return st::float32_qNaN;
                 } else {
-                    return limits::has_signaling_NaN ? st::float32_sNaN : st::float32_qNaN;
+                    return (limits::has_signaling_NaN && !OPTION_USE_QUIET_NAN) ? st::float32_sNaN : st::float32_qNaN;
                 }
             } else
             return st::none;
-- 
2.43.0


From 0a9576b44ddc53a190706fc1600fdc6cbca56df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:12 +0000
Subject: [PATCH 07/34] fix: swap of opt::option objects with different
 contained types does not compile

---
 include/opt/option.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 3588f53..f56c7cf 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -3256,16 +3256,16 @@ public:
             return;
         }
         if (has_value() && other.has_value()) {
-            swap(base::value, other.base::value);
+            swap(base::value, static_cast<typename option<U>::base&>(other).value);
             return;
         }
         if (has_value()) {
-            other.base::construct(static_cast<T&&>(get()));
+            other.construct(static_cast<T&&>(get()));
             base::reset();
             return;
         }
         base::construct(static_cast<U&&>(other.get()));
-        other.base::reset();
+        other.reset();
     }
 };
 
-- 
2.43.0


From 7524f8294324e570a2682cc0f7e7448e64a43004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:12 +0000
Subject: [PATCH 08/34] fix: signed overflow in the traits of enumerations with
 SENTINEL enumerators

---
 include/opt/option.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index f56c7cf..268050f 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -1549,7 +1549,7 @@ namespace impl {
         static constexpr std::uintmax_t max_level = 1;
 
         static constexpr std::uintmax_t get_level(const T* const value) noexcept {
-            return std::uintmax_t(underlying(*value) - underlying(sentinel_value));
+            return std::uintmax_t(underlying(*value)) - std::uintmax_t(underlying(sentinel_value));
         }
         static constexpr void set_level(T* const value, [[maybe_unused]] const std::uintmax_t level) noexcept {
             OPTION_VERIFY(level == 0, "Level is out of range");
@@ -1567,7 +1567,7 @@ namespace impl {
 
         static constexpr std::uintmax_t get_level(const T* const value) noexcept {
             const underlying val = impl::ptr_bit_cast<underlying>(value);
-            return std::uintmax_t(val - sentinel_range_start);
+            return std::uintmax_t(val) - std::uintmax_t(sentinel_range_start);
         }
         static constexpr void set_level(T* const value, [[maybe_unused]] const std::uintmax_t level) noexcept {
             OPTION_VERIFY(level < max_level, "Level is out of range");
@@ -1585,7 +1585,7 @@ namespace impl {
 
         static constexpr std::uintmax_t get_level(const T* const value) noexcept {
             const underlying val = impl::ptr_bit_cast<underlying>(value);
-            return std::uintmax_t(val - sentinel_range_start);
+            return std::uintmax_t(val) - std::uintmax_t(sentinel_range_start);
         }
         static constexpr void set_level(T* const value, [[maybe_unused]] const std::uintmax_t level) noexcept {
             OPTION_VERIFY(level < max_level, "Level is out of range");
-- 
2.43.0


From 7684c14c1901dbb5cab4880a47e627acf7420bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:12 +0000
Subject: [PATCH 09/34] fix: opt::flatten of a const lvalue does not compile

---
 include/opt/option.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 268050f..b6e79f7 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -1874,10 +1874,18 @@ namespace impl {
         using type = T&;
     };
     template<class T, class U>
+    struct copy_lvalue_reference<T, const U&> {
+        using type = const T&;
+    };
+    template<class T, class U>
     struct copy_lvalue_reference<T&&, U&> {
         using type = T&&;
     };
     template<class T, class U>
+    struct copy_lvalue_reference<T&&, const U&> {
+        using type = T&&;
+    };
+    template<class T, class U>
     using copy_lvalue_reference_t = typename copy_lvalue_reference<T, U>::type;
 
     template<class T>
-- 
2.43.0


From 9ffdac534ea811c56d8c296fb7b4bb38a9e4e5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:03 +0000
Subject: [PATCH 10/34] fix: an exception thrown while constructing the
 contained value could leave an option with traits in a non-empty state

---
 include/opt/option.hpp | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index b6e79f7..25d32f6 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -2000,6 +2000,38 @@ namespace impl {
             has_value_flag = true;
         }
     };
+    // If the construction of the contained value exits via an exception,
+    // the bytes left in the storage may not represent an empty state
+    template<class Traits, class T>
+    struct construct_guard {
+        T* ptr;
+
+        constexpr explicit construct_guard(T* const ptr_) noexcept : ptr{ptr_} {}
+        construct_guard(const construct_guard&) = delete;
+        construct_guard& operator=(const construct_guard&) = delete;
+
+        OPTION_CONSTEXPR_CXX20 ~construct_guard() {
+            if (ptr != nullptr) {
+                Traits::set_level(ptr, 0);
+            }
+        }
+    };
+    template<class Traits, class T, class... Args>
+    constexpr void construct_with_traits(T* const ptr, Args&&... args) {
+        if constexpr (std::is_nothrow_constructible_v<T, Args...>
+#if !OPTION_IS_CXX20
+            // 'construct_at' does not touch the storage until the construction is completed
+            || (impl::is_trivially_move_assignable_v<T> && impl::is_trivially_destructible_v<T>)
+#endif
+        ) {
+            impl::construct_at(ptr, static_cast<Args&&>(args)...);
+        } else {
+            construct_guard<Traits, T> guard{ptr};
+            impl::construct_at(ptr, static_cast<Args&&>(args)...);
+            guard.ptr = nullptr;
+        }
+    }
+
 #if OPTION_GCC
     #pragma GCC diagnostic push
     #pragma GCC diagnostic ignored "-Wmaybe-uninitialized"
@@ -2051,7 +2083,7 @@ namespace impl {
         }
         template<class... Args>
         constexpr void construct(Args&&... args) {
-            impl::construct_at(OPTION_ADDRESSOF(value), static_cast<Args&&>(args)...);
+            impl::construct_with_traits<traits>(OPTION_ADDRESSOF(value), static_cast<Args&&>(args)...);
             OPTION_VERIFY(has_value(), "After the construction, the value is in an empty state. Possibly because of the constructor arguments");
         }
     };
@@ -2109,7 +2141,7 @@ namespace impl {
         }
         template<class... Args>
         constexpr void construct(Args&&... args) {
-            impl::construct_at(OPTION_ADDRESSOF(value), static_cast<Args&&>(args)...);
+            impl::construct_with_traits<traits>(OPTION_ADDRESSOF(value), static_cast<Args&&>(args)...);
             OPTION_VERIFY(has_value(), "After the construction, the value is in an empty state. Possibly because of the constructor arguments");
         }
     };
-- 
2.43.0


From 6dfb472db4372cb0fbf9ab33670639f07604df6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:05 +0000
Subject: [PATCH 11/34] fix: opt::swap was never enabled for object types and
 made swapping of reference options ambiguous

---
 docs/reference.md      | 6 +++---
 include/opt/option.hpp | 9 +++++++--
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/docs/reference.md b/docs/reference.md
index e24e1ce..33687ac 100644
--- a/docs/reference.md
+++ b/docs/reference.md
@@ -1033,7 +1033,7 @@ other.reset();
 ```
 Where `{construct}` is a function that constructs contained object in place.
 
-- *`noexcept`* when `std::is_nothrow_move_constructible_v<T> && std::is_nothrow_move_constructible_v<U> && std::is_nothrow_swappable_with_v<T, U>`.
+- *`noexcept`* when `std::is_nothrow_move_constructible_v<T> && std::is_nothrow_move_constructible_v<U> && std::is_nothrow_swappable_with_v<T&, U&>`.
 - 
 ---
 
@@ -1277,8 +1277,8 @@ template<class T, class U>
 constexpr void swap(option<T>& left, option<U>& right) noexcept(/*see below*/);
 ```
 Exchanges the state of `left` with that of `right`. Calls `left.swap(right)`.
-- *Enabled* when `std::is_move_constructible_v<T>`, `std::is_move_constructible_v<U>` and `std::is_swappable_with_v<T, U>` are true.
-- *`noexcept`* when `std::is_nothrow_move_constructible_v<T>`, `std::is_nothrow_move_constructible_v<U>` and `std::is_nothrow_swappable_with_v<T, U>` are true.
+- *Enabled* when `std::is_move_constructible_v<T>`, `std::is_move_constructible_v<U>` and `std::is_swappable_with_v<T&, U&>` are true.
+- *`noexcept`* when `std::is_nothrow_move_constructible_v<T>`, `std::is_nothrow_move_constructible_v<U>` and `std::is_nothrow_swappable_with_v<T&, U&>` are true.
 
 Description in the code equivalent:
 ```cpp
diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 25d32f6..4e0bf39 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -2674,14 +2674,14 @@ namespace impl::option {
         and_v<
             std::is_move_constructible<T>,
             std::is_move_constructible<U>,
-            std::is_swappable_with<T, U>
+            std::is_swappable_with<T&, U&>
         >
     >;
     template<class T, class U>
     inline constexpr bool nothrow_swap =
         std::is_nothrow_move_constructible_v<T>
         && std::is_nothrow_move_constructible_v<U>
-        && std::is_nothrow_swappable_with_v<T, U>;
+        && std::is_nothrow_swappable_with_v<T&, U&>;
 }
 
 namespace impl {
@@ -3438,6 +3438,11 @@ template<class T>
     return result;
 }
 
+// The separate overload for the same types is more specialized than `std::swap`
+template<class T>
+constexpr impl::option::enable_swap<T, T> swap(option<T>& left, option<T>& right) noexcept(impl::option::nothrow_swap<T, T>) {
+    left.swap(right);
+}
 template<class T, class U>
 constexpr impl::option::enable_swap<T, U> swap(option<T>& left, option<U>& right) noexcept(impl::option::nothrow_swap<T, U>) {
     left.swap(right);
-- 
2.43.0


From 0bf16d9c276745e5bffceadf4434b8d83f8b7f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:43 +0000
Subject: [PATCH 12/34] fix: opt::option of an enumeration without a fixed
 underlying type does not compile with Clang

---
 include/opt/option.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 4e0bf39..5168391 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -699,6 +699,12 @@ namespace impl {
     template<class T>
     inline constexpr bool has_sentinel_end_enumerator<T, decltype(T::SENTINEL_END, void())> = true;
 
+    // Enumerations without a fixed underlying type allow only the values in the range of their enumerators
+    template<class T, class = void>
+    inline constexpr bool has_fixed_underlying_type = false;
+    template<class T>
+    inline constexpr bool has_fixed_underlying_type<T, decltype(T{0}, void())> = true;
+
     template<class T, class = void>
     inline constexpr bool is_custom_tuple_like = false;
     template<class T>
@@ -1120,7 +1126,8 @@ namespace impl {
                 }
             } else
 #if OPTION_CAN_REFLECT_ENUM
-            if constexpr (std::is_unsigned_v<std::underlying_type_t<T>>) {
+            // Clang rejects the probing of values that are outside of the range
+            if constexpr (std::is_unsigned_v<std::underlying_type_t<T>> && (!OPTION_CLANG || has_fixed_underlying_type<T>)) {
                 return st::enumeration;    
             } else
 #endif
-- 
2.43.0


From 5ce655c8180d90d5a38b569de2f431dc1be40c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:25 +0000
Subject: [PATCH 13/34] fix: value_or of an rvalue opt::option<const T> does
 not compile

---
 include/opt/option.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 5168391..5bed27f 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -3224,7 +3224,7 @@ public:
     template<class U = std::remove_cv_t<T>>
     [[nodiscard]] constexpr std::remove_cv_t<T> value_or(U&& default_value) && {
         if (has_value()) {
-            return static_cast<std::remove_cv_t<T>&&>(get());
+            return static_cast<option&&>(*this).get();
         } else {
             return static_cast<std::remove_cv_t<T>>(static_cast<U&&>(default_value));
         }
-- 
2.43.0


From de5a341e0365674dc837402dd6bf3df0891cc562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:57 +0000
Subject: [PATCH 14/34] fix: enumerations with underlying type bool got spare
 levels that cannot be distinguished (Clang)

---
 include/opt/option.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 5bed27f..1e91a45 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -1127,7 +1127,9 @@ namespace impl {
             } else
 #if OPTION_CAN_REFLECT_ENUM
             // Clang rejects the probing of values that are outside of the range
-            if constexpr (std::is_unsigned_v<std::underlying_type_t<T>> && (!OPTION_CLANG || has_fixed_underlying_type<T>)) {
+            // `bool` cannot represent any value outside of the range of the enumerators
+            if constexpr (std::is_unsigned_v<std::underlying_type_t<T>> && !std::is_same_v<std::underlying_type_t<T>, bool>
+                && (!OPTION_CLANG || has_fixed_underlying_type<T>)) {
                 return st::enumeration;    
             } else
 #endif
-- 
2.43.0


From 637aeb14e2a5401284d67a29ebfe9a6875e1a0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:23 +0000
Subject: [PATCH 15/34] fix: opt::option<std::unique_ptr<T[]>> does not compile

---
 include/opt/option.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 1e91a45..7779511 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -1416,7 +1416,8 @@ namespace impl {
         }
         static void set_level(std::unique_ptr<Elem, std::default_delete<Elem>>* const value, const std::uintmax_t level) noexcept {
             OPTION_VERIFY(level < max_level, "Level is out of range");
-            impl::construct_at(value, reinterpret_cast<Elem*>(sentinel_ptr + level));
+            using pointer = typename std::unique_ptr<Elem, std::default_delete<Elem>>::pointer;
+            impl::construct_at(value, reinterpret_cast<pointer>(sentinel_ptr + level));
         }
     };
 
-- 
2.43.0


From b2f94a43cf681f00dd0e240fa97eac8d1509e29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:23 +0000
Subject: [PATCH 16/34] fix: nested options of a const-qualified type with
 traits do not compile

---
 include/opt/option.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 7779511..2d5ed5c 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -1004,7 +1004,7 @@ namespace impl {
     template<class T>
     struct dispatch_specializations<opt::option<T>> {
         static constexpr option_strategy value
-            = opt::option_traits<T>::max_level >= 1
+            = opt::option_traits<std::remove_cv_t<T>>::max_level >= 1
                 ? option_strategy::avaliable_option
                 : option_strategy::unavaliable_option;
     };
@@ -3327,7 +3327,7 @@ namespace impl {
     template<class T>
     struct internal_option_traits<opt::option<T>, option_strategy::avaliable_option> {
         using base = typename opt::option<T>::base;
-        using traits = opt::option_traits<T>;
+        using traits = opt::option_traits<std::remove_cv_t<T>>;
 
         static constexpr std::uintmax_t max_level = traits::max_level - 1;
 
-- 
2.43.0


From 3aadbd867b067f5ef408ad2a27cadcd048b7356c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:23 +0000
Subject: [PATCH 17/34] fix: options of pairs, tuples, arrays and aggregates
 with a const-qualified scalar element do not compile

---
 include/opt/option.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 2d5ed5c..d4b25c8 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -1069,6 +1069,10 @@ namespace impl {
         if constexpr (dispatch_st != st::other) {
             return dispatch_st;
         } else
+        // An element of this type (such as a member of a pair or an aggregate) cannot be modified to set the level
+        if constexpr (std::is_const_v<T> || std::is_volatile_v<T>) {
+            return st::none;
+        } else
         if constexpr (std::is_pointer_v<T>) {
             if constexpr (sizeof(T) == 8) {
                 return st::pointer_64;
-- 
2.43.0


From cdf3b48cb31d961b281a12a569458dc6e7dc83d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:22 +0000
Subject: [PATCH 18/34] fix: defining OPTION_PFR_FILE alone does not compile

---
 include/opt/option.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index d4b25c8..583f022 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -144,6 +144,10 @@
             #include OPTION_PFR_FILE
             #if BOOST_PFR_ENABLED
                 #define OPTION_HAS_PFR
+                #define OPTION_PFR_NAMESPACE ::boost::pfr::
+            #elif PFR_ENABLED
+                #define OPTION_HAS_PFR
+                #define OPTION_PFR_NAMESPACE ::pfr::
             #endif
         #endif
     #else
-- 
2.43.0


From ebddff07c475939dc4947e775975d0a9061f6cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:41 +0000
Subject: [PATCH 19/34] fix: enumeration reflection miscounts enumerators when
 the name of the type contains commas or parentheses

---
 include/opt/option.hpp | 57 ++++++++++++++++++++++++------------------
 1 file changed, 32 insertions(+), 25 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 583f022..806536b 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -856,11 +856,41 @@ namespace impl {
     template<auto... Enumerators>
     constexpr std::uintmax_t max_enum_value_impl2(const std::uintmax_t max) {
         const char* const name = OPTION_CURRENT_FUNCTION();
-#if !OPTION_GCC
+#if OPTION_GCC || (OPTION_CLANG && __clang_major__ > 12)
+        // Values without an enumerator are written as "(type)number", all of them with the same "(type)".
+        // The name of the type may contain any characters, for example from the template arguments
+        const char* it = name;
+        while (*it != (OPTION_GCC ? '{' : '<')) { ++it; }
+        ++it;
+        if (*it != '(') { return 0; }
+
+        std::size_t cast_size = 0;
+        for (std::size_t depth = 0;;) {
+            const char c = it[cast_size];
+            if (c == '\0') { return 0; }
+            if (c == '(') { depth += 1; }
+            if (c == ')') { depth -= 1; }
+            cast_size += 1;
+            if (depth == 0) { break; }
+        }
+        if (it[cast_size] < '0' || it[cast_size] > '9') { return 0; }
+
+        std::uintmax_t current = max;
+        for (std::size_t remaining = __builtin_strlen(it);;) {
+            current -= 1;
+            const char* const value = it;
+            it += cast_size;
+            while (*it >= '0' && *it <= '9') { ++it; }
+            if (*it != ',') { return 0; }
+            it += 2; // skip whitespace
+            remaining -= std::size_t(it - value);
+            if (*it != '(' || remaining <= cast_size || it[cast_size - 1] != ')') { break; }
+        }
+#else
         const std::size_t size = __builtin_strlen(name);
 
         const char* const start = __builtin_char_memchr(name, '<', size) + 1;
-    #if OPTION_CLANG && __clang_major__ <= 12
+    #if OPTION_CLANG
         if (*start < '0' || *start > '9') { return 0; }
     #else
         if (*start != '(') { return 0; }
@@ -873,36 +903,13 @@ namespace impl {
 
             if (it == nullptr) { return 0; }
     #if OPTION_CLANG
-        #if __clang_major__ <= 12
             it += 2;
             if (*it < '0' || *it > '9') { break; }
-        #else
-            it += 2;
-            if (*it != '(') { break; }
-            it = __builtin_char_memchr(it, ')', size - std::size_t(it - name));
-            if (it[1] == ':') { break; }
-        #endif
     #else
             it += 1;
             if (*it != '(') { break; }
     #endif
         }
-#else
-        std::size_t start = 0;
-        while (name[start] != '{') {
-            start += 1;
-        }
-        if (name[start + 1] != '(') { return 0; }
-
-        std::uintmax_t current = max;
-        for (std::size_t i = start + 1;;) {
-            current -= 1;
-            for (; name[i] != ','; ++i) {
-                if (name[i] == '}') { return 0; }
-            }
-            i += 2; // skip whitespace
-            if (name[i] != '(') { break; }
-        }
 #endif
         // https://graphics.stanford.edu/%7Eseander/bithacks.html#RoundUpPowerOf2
         // Round up to the next highest power of 2
-- 
2.43.0


From 1f9e18dc459e2cc61bab44077a48fbdadb28606b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:50 +0000
Subject: [PATCH 20/34] fix: options of references cannot be constructed from
 options of references to derived or less qualified types

---
 include/opt/option.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 806536b..f0b3c91 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -2713,6 +2713,9 @@ namespace impl {
     struct always_non_explicit {
         template<bool Condition>
         using is_explicit = std::enable_if<!Condition, int>;
+
+        template<bool Condition>
+        using constructor_is_explicit = std::enable_if<!Condition, int>;
     };
     template<class T, class U>
     struct check_from_value_ctor {
-- 
2.43.0


From 71f474fef255a0ca5944494e804c2d5349f4a1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:31 +0000
Subject: [PATCH 21/34] fix: flatten of an lvalue nested rvalue reference
 option compiles, as documented

---
 include/opt/option.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index f0b3c91..8443cfe 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -3480,7 +3480,11 @@ template<class Option>
 [[nodiscard]] constexpr auto flatten(Option&& opt) {
     if constexpr (!opt::is_option_v<typename impl::remove_cvref<Option>::value_type>) {
         using result_type = impl::copy_lvalue_reference_t<typename impl::remove_cvref<Option>::value_type, Option>;
-        return opt.has_value() ? opt::option<result_type>{static_cast<Option&&>(opt).get()} : opt::none;
+        if constexpr (std::is_rvalue_reference_v<result_type>) {
+            return opt.has_value() ? opt::option<result_type>{static_cast<result_type>(opt.get())} : opt::none;
+        } else {
+            return opt.has_value() ? opt::option<result_type>{static_cast<Option&&>(opt).get()} : opt::none;
+        }
     } else {
         return opt.has_value() ? flatten(static_cast<Option&&>(opt).get()) : opt::none;
     }
-- 
2.43.0


From 7ccf74dccfda2a4abe70ff736349dd9d118c907c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:13 +0000
Subject: [PATCH 22/34] fix: get from an option of a variant that holds another
 alternative returns none instead of terminating

---
 include/opt/option.hpp | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 8443cfe..11d7186 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -3516,13 +3516,25 @@ template<class Self>
 }
 
 namespace impl {
+    template<class... Ts>
+    std::true_type is_variant(const std::variant<Ts...>*);
+    std::false_type is_variant(const volatile void*);
+
     template<std::size_t I, class Self>
     constexpr auto get_impl(Self&& self) noexcept {
         using std::get;
         using type = impl::copy_reference_t<decltype(get<I>(static_cast<Self&&>(self).get())), Self>;
 
-        if (self.has_value()) {
-            return opt::option<type>{static_cast<type>(get<I>(static_cast<Self&&>(self).get()))};
+        if constexpr (decltype(impl::is_variant(OPTION_ADDRESSOF(self.get())))::value) {
+            if (self.has_value()) {
+                // `std::get` throws if the variant holds another alternative
+                auto* const ptr = std::get_if<I>(OPTION_ADDRESSOF(self.get()));
+                return ptr == nullptr ? opt::none : opt::option<type>{static_cast<type>(*ptr)};
+            }
+        } else {
+            if (self.has_value()) {
+                return opt::option<type>{static_cast<type>(get<I>(static_cast<Self&&>(self).get()))};
+            }
         }
         return opt::option<type>{opt::none};
     }
@@ -3531,8 +3543,16 @@ namespace impl {
         using std::get;
         using type = impl::copy_reference_t<decltype(get<T>(static_cast<Self&&>(self).get())), Self>;
 
-        if (self.has_value()) {
-            return opt::option<type>{static_cast<type>(get<T>(static_cast<Self&&>(self).get()))};
+        if constexpr (decltype(impl::is_variant(OPTION_ADDRESSOF(self.get())))::value) {
+            if (self.has_value()) {
+                // `std::get` throws if the variant holds another alternative
+                auto* const ptr = std::get_if<T>(OPTION_ADDRESSOF(self.get()));
+                return ptr == nullptr ? opt::none : opt::option<type>{static_cast<type>(*ptr)};
+            }
+        } else {
+            if (self.has_value()) {
+                return opt::option<type>{static_cast<type>(get<T>(static_cast<Self&&>(self).get()))};
+            }
         }
         return opt::option<type>{opt::none};
     }
-- 
2.43.0


From fd2055d95ab217f57960088e89b978e4293a5ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:03 +0000
Subject: [PATCH 23/34] fix: stay within an empty option's range (moving by
 zero, comparing) without triggering OPTION_VERIFY

---
 include/opt/option.hpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 11d7186..03f36e6 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -2518,25 +2518,25 @@ namespace impl {
             return tmp;
         }
         constexpr option_iterator& operator+=(const difference_type offset) noexcept {
-            OPTION_VERIFY(ptr != nullptr, "Cannot seek value-initialized option iterator");
+            OPTION_VERIFY(ptr != nullptr || offset == 0, "Cannot seek value-initialized option iterator");
             ptr += offset;
             return *this;
         }
         [[nodiscard]] constexpr option_iterator operator+(const difference_type offset) const noexcept {
-            OPTION_VERIFY(ptr != nullptr, "Cannot seek value-initialized option iterator");
+            OPTION_VERIFY(ptr != nullptr || offset == 0, "Cannot seek value-initialized option iterator");
             return option_iterator{ptr + offset};
         }
         [[nodiscard]] friend constexpr option_iterator operator+(const difference_type offset, const option_iterator& it) noexcept {
-            OPTION_VERIFY(it.ptr != nullptr, "Cannot seek value-initialized option iterator");
+            OPTION_VERIFY(it.ptr != nullptr || offset == 0, "Cannot seek value-initialized option iterator");
             return option_iterator{it.ptr + offset};
         }
         constexpr option_iterator& operator-=(const difference_type offset) noexcept {
-            OPTION_VERIFY(ptr != nullptr, "Cannot seek value-initialized option iterator");
+            OPTION_VERIFY(ptr != nullptr || offset == 0, "Cannot seek value-initialized option iterator");
             ptr -= offset;
             return *this;
         }
         [[nodiscard]] constexpr option_iterator operator-(const difference_type offset) const noexcept {
-            OPTION_VERIFY(ptr != nullptr, "Cannot seek value-initialized option iterator");
+            OPTION_VERIFY(ptr != nullptr || offset == 0, "Cannot seek value-initialized option iterator");
             return option_iterator{ptr - offset};
         }
         [[nodiscard]] constexpr difference_type operator-(const option_iterator& right) const noexcept {
@@ -2553,13 +2553,11 @@ namespace impl {
             return ptr != right.ptr;
         }
         [[nodiscard]] constexpr bool operator<(const option_iterator& right) const noexcept {
-            OPTION_VERIFY(ptr != nullptr, "Cannot compare value-initialized option iterator");
-            OPTION_VERIFY(right.ptr != nullptr, "Cannot compare value-initialized option iterator");
+            OPTION_VERIFY((ptr == nullptr) == (right.ptr == nullptr), "Cannot compare value-initialized option iterator");
             return ptr < right.ptr;
         }
         [[nodiscard]] constexpr bool operator>(const option_iterator& right) const noexcept {
-            OPTION_VERIFY(ptr != nullptr, "Cannot compare value-initialized option iterator");
-            OPTION_VERIFY(right.ptr != nullptr, "Cannot compare value-initialized option iterator");
+            OPTION_VERIFY((ptr == nullptr) == (right.ptr == nullptr), "Cannot compare value-initialized option iterator");
             return ptr > right.ptr;
         }
         [[nodiscard]] constexpr bool operator<=(const option_iterator& right) const noexcept {
-- 
2.43.0


From 2fd47f927bd5bf684a26acee996a749b680b475e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:17 +0000
Subject: [PATCH 24/34] fix: std::to_address of the iterators of an empty
 option does not trigger OPTION_VERIFY

---
 include/opt/option.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 03f36e6..be4c9ca 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -2487,6 +2487,9 @@ namespace impl {
             return option_iterator<const T>{ptr};
         }
 
+        [[nodiscard]] constexpr pointer base() const noexcept {
+            return ptr;
+        }
         [[nodiscard]] constexpr reference operator*() const noexcept {
             OPTION_VERIFY(ptr != nullptr, "Cannot dereference value-initialized option iterator");
             return *ptr;
@@ -4187,6 +4190,18 @@ struct std::hash<opt::option<T&&>> {
     }
 };
 
+#if OPTION_IS_CXX20
+// `std::to_address` is also used on the past-the-end iterator of an empty option, which has no `operator->` result
+template<class T>
+struct std::pointer_traits<opt::impl::option_iterator<T>> {
+    using pointer = opt::impl::option_iterator<T>;
+    using element_type = typename pointer::value_type;
+    using difference_type = typename pointer::difference_type;
+
+    static constexpr element_type* to_address(const pointer& it) noexcept { return it.base(); }
+};
+#endif
+
 #if OPTION_CLANG && OPTION_CONSUMED_ANNOTATION_CHECKING
     #pragma clang diagnostic pop
 #endif
-- 
2.43.0


From f8e77adcb50b632b3100b6de5e362896992d29d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:13 +0000
Subject: [PATCH 25/34] fix: an option of an aggregate can be constructed from
 what converts to the aggregate

---
 include/opt/option.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index be4c9ca..73df4fb 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -650,19 +650,23 @@ namespace impl {
         return first.get().*obj;
     }
 
+    // An aggregate is list-initialized only if it cannot be constructed from the arguments in another way (like from a type that is convertible to it)
+    template<class T, class... Args>
+    inline constexpr bool is_list_initialized = std::is_aggregate_v<T> && !std::is_constructible_v<T, Args...>;
+
 #if OPTION_IS_CXX20
     using std::construct_at;
 #else
     template<class T, class... Args>
     constexpr void construct_at(T* ptr, Args&&... args) {
         if constexpr (impl::is_trivially_move_assignable_v<T> && impl::is_trivially_destructible_v<T>) {
-            if constexpr (std::is_aggregate_v<T>) {
+            if constexpr (impl::is_list_initialized<T, Args...>) {
                 *ptr = T{static_cast<Args&&>(args)...};
             } else {
                 *ptr = T(static_cast<Args&&>(args)...);
             }
         } else {
-            if constexpr (std::is_aggregate_v<T>) {
+            if constexpr (impl::is_list_initialized<T, Args...>) {
                 ::new(static_cast<void*>(ptr)) T{static_cast<Args&&>(args)...};
             } else {
                 ::new(static_cast<void*>(ptr)) T(static_cast<Args&&>(args)...);
@@ -2606,7 +2610,7 @@ namespace impl::option {
         if (self.has_value()) {
             return static_cast<Self&&>(self).get();
         } else {
-            if constexpr (std::is_aggregate_v<T>) {
+            if constexpr (impl::is_list_initialized<T, Args...>) {
                 return T{static_cast<Args&&>(args)...};
             } else {
                 return T(static_cast<Args&&>(args)...);
@@ -2911,29 +2915,29 @@ public:
     template<class U = std::remove_cv_t<T>, typename checks::template from_value_ctor<T, U>::template is_explicit<true>::type = 0>
     OPTION_RETURN_TYPESTATE(consumed)
     constexpr explicit option(U&& val)
-        : base(std::in_place, std::bool_constant<std::is_aggregate_v<T>>{}, static_cast<U&&>(val)) {}
+        : base(std::in_place, std::bool_constant<impl::is_list_initialized<T, U>>{}, static_cast<U&&>(val)) {}
     template<class U = std::remove_cv_t<T>, typename checks::template from_value_ctor<T, U>::template is_explicit<false>::type = 0>
     OPTION_RETURN_TYPESTATE(consumed)
     constexpr option(U&& val)
-        : base(std::in_place, std::bool_constant<std::is_aggregate_v<T>>{}, static_cast<U&&>(val)) {}
+        : base(std::in_place, std::bool_constant<impl::is_list_initialized<T, U>>{}, static_cast<U&&>(val)) {}
 
     template<class First, class Second, class... Args,
         class = typename checks::template from_args_ctor<T, First, Second, Args...>::type>
     OPTION_RETURN_TYPESTATE(consumed)
     constexpr option(First&& first, Second&& second, Args&&... args)
-        : base(std::in_place, std::bool_constant<std::is_aggregate_v<T>>{}, static_cast<First&&>(first), static_cast<Second&&>(second), static_cast<Args&&>(args)...) {}
+        : base(std::in_place, std::bool_constant<impl::is_list_initialized<T, First, Second, Args...>>{}, static_cast<First&&>(first), static_cast<Second&&>(second), static_cast<Args&&>(args)...) {}
 
     template<class InPlaceT, class... Args,
         class = typename checks::template from_in_place_args_ctor<T, InPlaceT, Args...>::type>
     OPTION_RETURN_TYPESTATE(consumed)
     constexpr explicit option(const InPlaceT, Args&&... args)
-        : base(std::in_place, std::bool_constant<std::is_aggregate_v<T>>{}, static_cast<Args&&>(args)...) {}
+        : base(std::in_place, std::bool_constant<impl::is_list_initialized<T, Args...>>{}, static_cast<Args&&>(args)...) {}
 
     template<class InPlaceT, class U, class... Args,
         class = typename checks::template from_in_place_args_ctor<T, InPlaceT, std::initializer_list<U>&, Args...>::type>
     OPTION_RETURN_TYPESTATE(consumed)
     constexpr explicit option(const InPlaceT, std::initializer_list<U> ilist, Args&&... args)
-        : base(std::in_place, std::bool_constant<std::is_aggregate_v<T>>{}, ilist, static_cast<Args&&>(args)...) {}
+        : base(std::in_place, std::bool_constant<impl::is_list_initialized<T, std::initializer_list<U>&, Args...>>{}, ilist, static_cast<Args&&>(args)...) {}
 
     template<class F, class Arg>
     OPTION_RETURN_TYPESTATE(consumed)
-- 
2.43.0


From 5bfbb278730852fd97823c5d618a485f4c220267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:24 +0000
Subject: [PATCH 26/34] fix: at, at_front and at_back are not pure functions:
 they run code of the container

opt::at(container, i) calls the container's operator[] and may copy its
result. With the attribute, GCC -O1 reused values loaded before the call, so
effects of that code (a cached page, a reference count) were not observed.
---
 include/opt/option.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 73df4fb..08a0d47 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -3676,7 +3676,7 @@ template<class T, class NoneCase>
 }
 
 template<class T>
-[[nodiscard]] OPTION_PURE constexpr auto at(T&& container OPTION_LIFETIMEBOUND, const std::size_t index) noexcept {
+[[nodiscard]] constexpr auto at(T&& container OPTION_LIFETIMEBOUND, const std::size_t index) noexcept {
     using type = impl::copy_reference_t<decltype(static_cast<T&&>(container)[index]), T>;
 
     if (index >= container.size()) { return opt::option<type>{opt::none}; }
@@ -3684,7 +3684,7 @@ template<class T>
 }
 
 template<class T>
-[[nodiscard]] OPTION_PURE constexpr auto at_front(T&& container OPTION_LIFETIMEBOUND) noexcept {
+[[nodiscard]] constexpr auto at_front(T&& container OPTION_LIFETIMEBOUND) noexcept {
     using type = impl::copy_reference_t<decltype(static_cast<T&&>(container).front()), T>;
     if (container.size() == 0) {
         return opt::option<type>{};
@@ -3693,7 +3693,7 @@ template<class T>
 }
 
 template<class T>
-[[nodiscard]] OPTION_PURE constexpr auto at_back(T&& container OPTION_LIFETIMEBOUND) noexcept {
+[[nodiscard]] constexpr auto at_back(T&& container OPTION_LIFETIMEBOUND) noexcept {
     using type = impl::copy_reference_t<decltype(static_cast<T&&>(container).back()), T>;
     if (container.size() == 0) {
         return opt::option<type>{};
-- 
2.43.0


From 834cc1816d9af71b5c6c94beae7f6a5a928fc73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:36 +0000
Subject: [PATCH 27/34] fix: the header compiles with libstdc++'s debug mode
 and with its old string ABI

With _GLIBCXX_DEBUG the forward declaration of std::vector was ambiguous with
std::__debug::vector, with _GLIBCXX_USE_CXX11_ABI=0 that of std::basic_string
was ill-formed and the layout assumed for std::string does not apply.
---
 include/opt/option.hpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 08a0d47..ae4a461 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -314,8 +314,16 @@
         #define OPTION_STD_NAMESPACE_END \
             _Pragma("GCC diagnostic pop") \
             _GLIBCXX_END_NAMESPACE_VERSION }
-        #define OPTION_STD_NAMESPACE_CXX11_BEGIN inline _GLIBCXX_BEGIN_NAMESPACE_CXX11
+        #if _GLIBCXX_USE_CXX11_ABI
+            #define OPTION_STD_NAMESPACE_CXX11_BEGIN inline _GLIBCXX_BEGIN_NAMESPACE_CXX11
+        #else
+            #define OPTION_STD_NAMESPACE_CXX11_BEGIN
+        #endif
         #define OPTION_STD_NAMESPACE_CXX11_END _GLIBCXX_END_NAMESPACE_CXX11
+        #ifdef _GLIBCXX_DEBUG // std::vector is replaced by its debug version
+            #define OPTION_STD_NAMESPACE_DEBUG_BEGIN inline namespace __debug {
+            #define OPTION_STD_NAMESPACE_DEBUG_END }
+        #endif
     #elif OPTION_STL && defined(_STD_BEGIN) && defined(_STD_END)
         #define OPTION_STD_NAMESPACE_BEGIN \
             _STD_BEGIN \
@@ -332,6 +340,10 @@
         #define OPTION_STD_NAMESPACE_CXX11_BEGIN
         #define OPTION_STD_NAMESPACE_CXX11_END
     #endif
+    #ifndef OPTION_STD_NAMESPACE_DEBUG_BEGIN
+        #define OPTION_STD_NAMESPACE_DEBUG_BEGIN
+        #define OPTION_STD_NAMESPACE_DEBUG_END
+    #endif
 
 OPTION_STD_NAMESPACE_BEGIN
     template<class CharT, class Traits>
@@ -342,8 +354,10 @@ OPTION_STD_NAMESPACE_CXX11_BEGIN
     class basic_string; // Defined in header <string>
 OPTION_STD_NAMESPACE_CXX11_END
 
+OPTION_STD_NAMESPACE_DEBUG_BEGIN
     template<class T, class Allocator>
     class vector; // Defined in header <vector>
+OPTION_STD_NAMESPACE_DEBUG_END
 
     template<class T, class Deleter>
     class unique_ptr; // Defined in header <memory>
@@ -1059,7 +1073,11 @@ namespace impl {
     template<class Elem, class Traits, class Allocator>
     struct dispatch_specializations<std::basic_string<Elem, Traits, Allocator>> {
         static constexpr bool ebo_allocator = std::is_empty_v<Allocator> && !std::is_final_v<Allocator>;
+    #if OPTION_LIBSTDCPP && !_GLIBCXX_USE_CXX11_ABI
+        static constexpr option_strategy value = option_strategy::none; // A reference counted string is a single pointer
+    #else
         static constexpr option_strategy value = ebo_allocator ? option_strategy::string : option_strategy::none;
+    #endif
     };
     template<class Elem, class Allocator>
     struct dispatch_specializations<std::vector<Elem, Allocator>> {
-- 
2.43.0


From f479f67a6d6145319488418305cb73e187912398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:34 +0000
Subject: [PATCH 28/34] fix: an option of a reference can refer to an option

at, lookup, get, flatten, filter, zip_with and from_nullable did not compile
for containers, tuples, variants and pointers whose elements are options.
---
 docs/reference.md      | 1 -
 include/opt/option.hpp | 4 ++--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/docs/reference.md b/docs/reference.md
index 33687ac..733f955 100644
--- a/docs/reference.md
+++ b/docs/reference.md
@@ -105,7 +105,6 @@ Constructs an `opt::option` object that *contains a value*. Initializes a contai
     - Otherwise, if `T` is a reference type:
       - `!std::is_same_v<remove_cvref<U>, opt::option<T>>`.
       - `!std::is_same_v<remove_cvref<U>, std::in_place_t>`.
-      - `!opt::is_option_v<remove_cvref<U>>`.
       - [`can_bind_reference<T, U>`](#can_bind_referencex-y).
 
 > [!NOTE]
diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index ae4a461..7bd97c3 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -2841,8 +2841,8 @@ namespace impl {
     struct option_checks_base</*IsReference=*/true> {
         template<class T, class U>
         using from_value_ctor = if_<
-            is_not_same_v<remove_cvref<U>, std::in_place_t>
-            && !opt::is_option_v<remove_cvref<U>>
+            is_not_same_v<remove_cvref<U>, opt::option<T>>
+            && is_not_same_v<remove_cvref<U>, std::in_place_t>
             && (is_same_reference_wrapper_v<std::remove_reference_t<T>, std::remove_reference_t<U>>
                 || (std::is_convertible_v<std::remove_reference_t<U>*, std::remove_reference_t<T>*>
                 && (std::is_lvalue_reference_v<T> == std::is_lvalue_reference_v<U>))),
-- 
2.43.0


From ee18e86d1fa158785bbcbe4ac30cf52e9a2f0d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:11 +0000
Subject: [PATCH 29/34] fix: get from an option of a variant with an
 opt::option alternative is not ambiguous

---
 include/opt/option.hpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 7bd97c3..8931089 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -3545,39 +3545,41 @@ namespace impl {
 
     template<std::size_t I, class Self>
     constexpr auto get_impl(Self&& self) noexcept {
-        using std::get;
-        using type = impl::copy_reference_t<decltype(get<I>(static_cast<Self&&>(self).get())), Self>;
-
         if constexpr (decltype(impl::is_variant(OPTION_ADDRESSOF(self.get())))::value) {
+            using type = impl::copy_reference_t<decltype(*std::get_if<I>(OPTION_ADDRESSOF(self.get()))), Self>;
             if (self.has_value()) {
                 // `std::get` throws if the variant holds another alternative
                 auto* const ptr = std::get_if<I>(OPTION_ADDRESSOF(self.get()));
                 return ptr == nullptr ? opt::none : opt::option<type>{static_cast<type>(*ptr)};
             }
+            return opt::option<type>{opt::none};
         } else {
+            using std::get;
+            using type = impl::copy_reference_t<decltype(get<I>(static_cast<Self&&>(self).get())), Self>;
             if (self.has_value()) {
                 return opt::option<type>{static_cast<type>(get<I>(static_cast<Self&&>(self).get()))};
             }
+            return opt::option<type>{opt::none};
         }
-        return opt::option<type>{opt::none};
     }
     template<class T, class Self>
     constexpr auto get_impl(Self&& self) noexcept {
-        using std::get;
-        using type = impl::copy_reference_t<decltype(get<T>(static_cast<Self&&>(self).get())), Self>;
-
         if constexpr (decltype(impl::is_variant(OPTION_ADDRESSOF(self.get())))::value) {
+            using type = impl::copy_reference_t<decltype(*std::get_if<T>(OPTION_ADDRESSOF(self.get()))), Self>;
             if (self.has_value()) {
                 // `std::get` throws if the variant holds another alternative
                 auto* const ptr = std::get_if<T>(OPTION_ADDRESSOF(self.get()));
                 return ptr == nullptr ? opt::none : opt::option<type>{static_cast<type>(*ptr)};
             }
+            return opt::option<type>{opt::none};
         } else {
+            using std::get;
+            using type = impl::copy_reference_t<decltype(get<T>(static_cast<Self&&>(self).get())), Self>;
             if (self.has_value()) {
                 return opt::option<type>{static_cast<type>(get<T>(static_cast<Self&&>(self).get()))};
             }
+            return opt::option<type>{opt::none};
         }
-        return opt::option<type>{opt::none};
     }
 }
 
-- 
2.43.0


From 25f7aaf888eabf4b5a6f1e73085285d02fe030f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:49 +0000
Subject: [PATCH 30/34] fix: OPTION_USE_PFR without OPTION_PFR_FILE uses the
 default header

---
 include/opt/option.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 8931089..db88d84 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -119,6 +119,13 @@
 
 #ifdef OPTION_USE_PFR
     #if OPTION_USE_PFR
+        #ifndef OPTION_PFR_FILE
+            #if __has_include(<boost/pfr.hpp>)
+                #define OPTION_PFR_FILE <boost/pfr.hpp>
+            #else
+                #define OPTION_PFR_FILE <pfr.hpp>
+            #endif
+        #endif
         #if __has_include(OPTION_PFR_FILE)
             #include OPTION_PFR_FILE
             #if defined(BOOST_PFR_ENABLED)
-- 
2.43.0


From 4c927a7c000522da57f246fc2fc76ea058932e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:53 +0000
Subject: [PATCH 31/34] fix: the value type of the iterators of a const option
 is not const

---
 include/opt/option.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index db88d84..cdca09a 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -2502,10 +2502,10 @@ namespace impl {
         using iterator_concept = std::contiguous_iterator_tag;
 #endif
         using iterator_category = std::random_access_iterator_tag;
-        using value_type = std::remove_reference_t<T>;
-        using reference = value_type&;
+        using value_type = std::remove_cv_t<std::remove_reference_t<T>>;
+        using reference = std::remove_reference_t<T>&;
         using difference_type = std::ptrdiff_t;
-        using pointer = value_type*;
+        using pointer = std::remove_reference_t<T>*;
     private:
         pointer ptr{};
     public:
@@ -4226,7 +4226,7 @@ struct std::hash<opt::option<T&&>> {
 template<class T>
 struct std::pointer_traits<opt::impl::option_iterator<T>> {
     using pointer = opt::impl::option_iterator<T>;
-    using element_type = typename pointer::value_type;
+    using element_type = std::remove_reference_t<T>;
     using difference_type = typename pointer::difference_type;
 
     static constexpr element_type* to_address(const pointer& it) noexcept { return it.base(); }
-- 
2.43.0


From 312e91d920b2824592b3cfb13161c7642d0aea1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:51 +0000
Subject: [PATCH 32/34] fix: the destructor of option is noexcept for elements
 with a throwing destructor

---
 include/opt/option.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index cdca09a..feac4a2 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -2033,7 +2033,7 @@ namespace impl {
         constexpr option_destruct_base(construct_from_invoke_tag, std::false_type, F&& f, Arg&& arg)
             : value(impl::invoke(static_cast<F&&>(f), static_cast<Arg&&>(arg))), has_value_flag(true) {}
 
-        OPTION_CONSTEXPR_CXX20 ~option_destruct_base() {
+        OPTION_CONSTEXPR_CXX20 ~option_destruct_base() noexcept {
             if (has_value_flag) {
                 value.~T();
             }
@@ -2177,7 +2177,7 @@ namespace impl {
             : value(impl::invoke(static_cast<F&&>(f), static_cast<Arg&&>(arg))) {
             OPTION_VERIFY(has_value(), "After the construction, the value is in an empty state. Possibly because of the constructor arguments");
         }
-        OPTION_CONSTEXPR_CXX20 ~option_destruct_base() {
+        OPTION_CONSTEXPR_CXX20 ~option_destruct_base() noexcept {
             if (has_value()) {
                 value.~T();
             }
-- 
2.43.0


From 2e43b7e8182de222785859dcbcf25a974f4096a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:39 +0000
Subject: [PATCH 33/34] fix: constant evaluation of options of tuples with
 clang (the explicit noexcept of the destructor prevents it)

---
 include/opt/option.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index feac4a2..cdca09a 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -2033,7 +2033,7 @@ namespace impl {
         constexpr option_destruct_base(construct_from_invoke_tag, std::false_type, F&& f, Arg&& arg)
             : value(impl::invoke(static_cast<F&&>(f), static_cast<Arg&&>(arg))), has_value_flag(true) {}
 
-        OPTION_CONSTEXPR_CXX20 ~option_destruct_base() noexcept {
+        OPTION_CONSTEXPR_CXX20 ~option_destruct_base() {
             if (has_value_flag) {
                 value.~T();
             }
@@ -2177,7 +2177,7 @@ namespace impl {
             : value(impl::invoke(static_cast<F&&>(f), static_cast<Arg&&>(arg))) {
             OPTION_VERIFY(has_value(), "After the construction, the value is in an empty state. Possibly because of the constructor arguments");
         }
-        OPTION_CONSTEXPR_CXX20 ~option_destruct_base() noexcept {
+        OPTION_CONSTEXPR_CXX20 ~option_destruct_base() {
             if (has_value()) {
                 value.~T();
             }
-- 
2.43.0


From d09d124c37a98d4b8d16d1690c72806056397588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:20:11 +0000
Subject: [PATCH 34/34] fix: inspect of an rvalue option does not compile in
 C++23 (an id-expression naming an rvalue reference is an xvalue in return)

---
 include/opt/option.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index cdca09a..4c47ce6 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -2713,7 +2713,7 @@ namespace impl::option {
         if (self.has_value()) {
             impl::invoke(static_cast<F&&>(f), static_cast<Self&&>(self).get());
         }
-        return self;
+        return static_cast<Self&>(self);
     }
 
     template<class Self, class F>
-- 
2.43.0

