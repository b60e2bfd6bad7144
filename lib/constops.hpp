// Const operations on options, each reduced to a number that does not depend on addresses.
#pragma once
#include <sstream>
#include "types.hpp"
namespace cops {
using namespace ty;
// ---- const operations on shared options: what they give, as a number
template<class...> using void_of = void;
template<class T, class = void> struct eq : std::false_type {}; template<class T> struct eq<T, void_of<decltype(std::declval<const T&>() == std::declval<const T&>()), decltype(std::declval<const T&>() != std::declval<const T&>())>> : std::true_type {};
template<class T, class = void> struct lt : std::false_type {}; template<class T> struct lt<T, void_of<decltype(std::declval<const T&>() < std::declval<const T&>())>> : std::true_type {};
template<class T, class = void> struct io : std::false_type {}; template<class T> struct io<T, void_of<decltype(std::declval<std::ostream&>() << std::declval<const T&>())>> : std::true_type {};
template<class T> struct is_pair : std::false_type {}; template<class A, class B> struct is_pair<std::pair<A, B>> : std::true_type {};
template<class T> constexpr bool comparable = eq<T>::value && !opt::is_option_v<T> && !is_pair<T>::value;
constexpr int NOPS = 40;
template<class T> std::uint64_t const_op(int op, const opt::option<T>& a, const opt::option<T>& b, int id) {
    using A = Ad<T>; using O = opt::option<T>; constexpr bool cc = A::copyable;
    auto h = [](const auto& x) -> std::uint64_t { return x.has_value() ? 10 + static_cast<std::uint64_t>(Ad<std::decay_t<decltype(*x)>>::id(*x)) : 1; };
    switch (op) {
    case 0: return a.has_value() * 2 + static_cast<bool>(b);
    case 1: return (a == opt::none) + 2 * (opt::none != b) + 4 * (a > opt::none) + 8 * (b <= opt::none);
    case 2: return h(a) * 1000 + h(b);
    case 3: return a.has_value() ? A::id(a.get()) : 7; case 4: return a.has_value() ? A::id(a.get_unchecked()) : 7;
    case 5: try { return static_cast<std::uint64_t>(A::id(a.value())); } catch (const opt::bad_access& e) { return mon::hash_str(e.what()); }
    case 6: try { return static_cast<std::uint64_t>(A::id(std::move(a).value_or_throw())); } catch (const opt::bad_access&) { return 5; }
    case 7: if constexpr (cc) { return static_cast<std::uint64_t>(A::id(a.value_or(A::make(id)))); } return 0;
    case 8: if constexpr (cc) { return static_cast<std::uint64_t>(A::id(a.value_or_construct(A::make(id)))); } return 0;
    case 9: return static_cast<const void*>(a.ptr_or_null()) == (a.has_value() ? static_cast<const void*>(std::addressof(*a)) : nullptr);
    case 10: { std::uint64_t s = 3; for (const T& v : a) s = s * 100 + static_cast<std::uint64_t>(A::id(v)); for (auto it = b.end(); it != b.begin();) s = s * 100 + static_cast<std::uint64_t>(A::id(*--it)); return s; }
    case 11: return h(a.map([](const T& v) { return A::id(v) + 1; }).map([](int v) { return static_cast<long long>(v) * 3 - 1; }));
    case 12: { auto r = std::move(a).map([](const T&& v) -> const T* { return std::addressof(v); }); return r.has_value() && *r == std::addressof(*a); }
    case 13: { auto r = a.and_then([&](const T& v) { return A::id(v) % 2 ? opt::option<int>(A::id(v)) : opt::option<int>(); }); return r.has_value() ? 100 + static_cast<std::uint64_t>(*r) : 3; }
    case 14: if constexpr (cc) { return h(a.or_else([&] { return O(A::make(id)); })); } return 0;
    case 15: if constexpr (cc) { return h(a.filter([&](const T& v) { return A::id(v) % 2 == id % 2; })); } return 0;
    case 16: { std::uint64_t s = 1; a.inspect([&](const T& v) { s += static_cast<std::uint64_t>(A::id(v)) + 5; }); return s; }
    case 17: return a.has_value_and([&](const T& v) { return A::id(v) % 3 == id % 3; });
    case 18: return static_cast<std::uint64_t>(a.map_or(id, [](const T& v) { return A::id(v) * 2; }));
    case 19: return static_cast<std::uint64_t>(a.map_or_else([&] { return id; }, [](const T& v) { return A::id(v) * 2; }));
    case 20: case 21: if constexpr (cc) { O x(a); const std::uint64_t r = h(x); x.reset(); return r * 2 + x.has_value(); } return 0;
    case 22: if constexpr (cc && std::is_copy_assignable_v<T>) { O x; x = a; O y(b); y = a; x = b; return h(x) * 1000 + h(y); } return 0;
    case 23: if constexpr (cc && std::is_copy_assignable_v<T>) { O x(b); x |= a; O y; y.swap(x); return h(y) * 2 + x.has_value(); } return 0;
    case 24: if constexpr (comparable<T>) { return (a == b) + 2 * (a != b); } return 0;
    case 25: if constexpr (comparable<T> && lt<T>::value) { return (a < b) + 2 * (a <= b) + 4 * (a > b) + 8 * (a >= b); } return 0;
    case 26: if constexpr (comparable<T>) { const T v = A::make(id); return (a == v) + 2 * (v != b); } return 0;
    case 27: if constexpr (std::is_default_constructible_v<std::hash<T>> && std::is_copy_constructible_v<std::hash<T>>) { return std::hash<O>{}(a) != 0 ? (std::hash<O>{}(a) == std::hash<O>{}(b)) : 9; } return 0;
    case 28: if constexpr (io<T>::value && !std::is_same_v<T, FnPtr>) { std::ostringstream s; s << opt::io(a) << opt::io(b); return mon::hash_str(s.str().c_str()); } return 0;
    case 29: if constexpr (cc) { auto z = opt::zip(a, b); return z.has_value() ? static_cast<std::uint64_t>(A::id(std::get<0>(*z)) * 100 + A::id(std::get<1>(*z))) : 77; } return 0;
    case 30: { auto z = opt::zip_with([](const T& x, const T& y) { return A::id(x) * 100 + A::id(y); }, a, b); return h(z.map([](int x) { return static_cast<long long>(x); })); }
    case 31: if constexpr (is_pair<T>::value && cc) { auto u = opt::unzip(a); return u.first.has_value() * 2 + u.second.has_value(); } return 0;
    case 32: if constexpr (opt::is_option_v<T> && cc) { auto f = opt::flatten(a); return f.has_value(); } return 0;
    case 33: if constexpr (cc) { return h(a | b) * 1000 + h(a & b) * 2; } return 0;
    case 34: if constexpr (cc) { return h(a ^ b); } return 0;
    case 35: { opt::option<const T&> r; if (a.has_value()) r.emplace(*a); opt::option<const T&> q(r); q = r; return q.has_value() ? 10 + static_cast<std::uint64_t>(A::id(*q)) : 1; }
    case 36: if constexpr (cc) { std::vector<O> v; for (int i = 0; i < 3; ++i) { v.push_back(a); v.push_back(b); } std::uint64_t s = 0; for (auto& x : v) s = s * 61 + h(x); return s; } return 0;
    case 37: if constexpr (cc) { opt::option<O> n(a); opt::option<O> m(n); n.reset(); return m.has_value() ? h(*m) : 2; } return 0;
    case 38: if constexpr (cc) { O x = a; O y = x.take(); O z(std::move(y)); return h(z) * 2 + x.has_value(); } return 0;
    case 39: if constexpr (cc) { auto t = std::make_tuple(a, id, b); auto u = t; return h(std::get<0>(u)) * 100 + h(std::get<2>(u)); } return 0;
    default: return 0;
    }
}
}
