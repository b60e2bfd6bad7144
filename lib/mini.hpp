// A deliberately plain optional, independent of the library: the reference that programs are compared with.
#pragma once
#include <functional>
#include <optional>
#include <tuple>
#include <type_traits>
#include <utility>
namespace mini {
struct none_t { explicit constexpr none_t(int) {} };
inline constexpr none_t none{0};
template<class T> class option;
template<class> struct is_option : std::false_type {};
template<class T> struct is_option<option<T>> : std::true_type {};
struct access_error {};
template<class T> class option {
    std::optional<T> v;
    template<class S, class F> static auto map_(S&& s, F&& f) {
        using R = decltype(std::invoke(std::forward<F>(f), *std::forward<S>(s)));
        if constexpr (std::is_void_v<R>) { if (s) std::invoke(std::forward<F>(f), *std::forward<S>(s)); }
        else { option<R> r; if (s) r.emplace(std::invoke(std::forward<F>(f), *std::forward<S>(s))); return r; }
    }
    template<class S, class F> static auto then_(S&& s, F&& f) {
        using R = std::remove_cv_t<std::remove_reference_t<decltype(std::invoke(std::forward<F>(f), *std::forward<S>(s)))>>;
        if (s) return R(std::invoke(std::forward<F>(f), *std::forward<S>(s)));
        return R();
    }
public:
    using value_type = T;
    option() = default;
    option(none_t) {}
    option(const T& x) : v(x) {}
    option(T&& x) : v(std::move(x)) {}
    option& operator=(none_t) { v.reset(); return *this; }
    option& operator=(const T& x) { v = x; return *this; }
    option& operator=(T&& x) { v = std::move(x); return *this; }
    bool has_value() const { return v.has_value(); }
    explicit operator bool() const { return v.has_value(); }
    T& get() & { return *v; } const T& get() const& { return *v; } T&& get() && { return *std::move(v); }
    T& operator*() & { return *v; } const T& operator*() const& { return *v; } T&& operator*() && { return *std::move(v); }
    T* operator->() { return &*v; } const T* operator->() const { return &*v; }
    T* ptr_or_null() { return v ? &*v : nullptr; } const T* ptr_or_null() const { return v ? &*v : nullptr; }
    T* begin() { return ptr_or_null(); } T* end() { return v ? &*v + 1 : nullptr; }
    const T* begin() const { return ptr_or_null(); } const T* end() const { return v ? &*v + 1 : nullptr; }
    void reset() { v.reset(); }
    template<class... A> T& emplace(A&&... a) { v.reset(); if constexpr (std::is_aggregate_v<T> && !std::is_constructible_v<T, A...>) v.emplace(T{std::forward<A>(a)...}); else v.emplace(std::forward<A>(a)...); return *v; }
    template<class... A> T& try_emplace(A&&... a) { if (!v) emplace(std::forward<A>(a)...); return *v; }
    option take() { option r(std::move(*this)); v.reset(); return r; }
    template<class F> option take_if(F&& f) { if (v && std::invoke(std::forward<F>(f), *v)) return take(); return option(); }
    void swap(option& o) { std::swap(v, o.v); }
    template<class U> T value_or(U&& u) const& { if (v) return *v; return static_cast<T>(std::forward<U>(u)); }
    template<class U> T value_or(U&& u) && { if (v) return std::move(*v); return static_cast<T>(std::forward<U>(u)); }
    template<class F> auto map(F&& f) & { return map_(v, std::forward<F>(f)); } template<class F> auto map(F&& f) const& { return map_(v, std::forward<F>(f)); } template<class F> auto map(F&& f) && { return map_(std::move(v), std::forward<F>(f)); }
    template<class F> auto and_then(F&& f) & { return then_(v, std::forward<F>(f)); } template<class F> auto and_then(F&& f) const& { return then_(v, std::forward<F>(f)); } template<class F> auto and_then(F&& f) && { return then_(std::move(v), std::forward<F>(f)); }
    template<class U, class F> auto map_or(U&& u, F&& f) const { using R = std::common_type_t<std::decay_t<U>, std::decay_t<decltype(std::invoke(f, *v))>>; if (v) return static_cast<R>(std::invoke(f, *v)); return static_cast<R>(std::forward<U>(u)); }
    template<class D, class F> auto map_or_else(D&& d, F&& f) const { using R = std::common_type_t<std::decay_t<decltype(d())>, std::decay_t<decltype(std::invoke(f, *v))>>; if (v) return static_cast<R>(std::invoke(f, *v)); return static_cast<R>(d()); }
    template<class F> option or_else(F&& f) const { if (v) return *this; return option(f()); }
    template<class F> option filter(F&& f) const { if (v && std::invoke(f, *v)) return *this; return option(); }
    template<class F> const option& inspect(F&& f) const { if (v) std::invoke(f, *v); return *this; }
    template<class F> bool has_value_and(F&& f) const { return v && std::invoke(f, *v); }
    template<class F> bool has_value_or(F&&) const = delete;
    template<class Q = T> auto flatten() const { if constexpr (is_option<typename T::value_type>::value) { return v ? v->flatten() : typename T::value_type(); } else { if (v) return *v; return T(); } }
    friend bool operator==(const option& a, const option& b) { return a.v == b.v; }
    friend bool operator<(const option& a, const option& b) { return a.v < b.v; }
    friend bool operator!=(const option& a, const option& b) { return !(a.v == b.v); }
    friend bool operator>(const option& a, const option& b) { return b.v < a.v; }
    friend bool operator<=(const option& a, const option& b) { return a.v <= b.v; }
    friend bool operator>=(const option& a, const option& b) { return a.v >= b.v; }
};
template<class T> class option<T&> {
    T* p = nullptr;
public:
    option() = default; option(none_t) {} option(T& x) : p(&x) {}
    option& operator=(none_t) { p = nullptr; return *this; }
    bool has_value() const { return p; } explicit operator bool() const { return p; }
    T& get() const { return *p; } T& operator*() const { return *p; } T* operator->() const { return p; } T* ptr_or_null() const { return p; }
    void reset() { p = nullptr; } T& emplace(T& x) { p = &x; return x; }
    template<class F> auto map(F&& f) const { using R = decltype(std::invoke(f, *p)); option<R> r; if (p) r.emplace(std::invoke(f, *p)); return r; }
    template<class F> auto and_then(F&& f) const { using R = std::decay_t<decltype(std::invoke(f, *p))>; if (p) return R(std::invoke(f, *p)); return R(); }
    template<class U, class F> auto map_or(U&& u, F&& f) const { using R = std::decay_t<decltype(std::invoke(f, *p))>; if (p) return static_cast<R>(std::invoke(f, *p)); return static_cast<R>(std::forward<U>(u)); }
    T& value_or(T& x) const { return p ? *p : x; }
    option take() { option r = *this; p = nullptr; return r; }
    friend bool operator==(const option& a, const option& b) { return bool(a) == bool(b) && (!a || *a == *b); }
};
} // namespace mini
