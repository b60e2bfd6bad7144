// C20: the same program run by the compiler's evaluator and by the machine.
// The evaluator refuses undefined behaviour, leaks and anything not constexpr: such a program does not compile.
#ifndef GROUP
#define GROUP 0
#endif
#ifndef SEEDS
#define SEEDS 24
#endif
#include <array>
#include <optional>
#include <string_view>
#include <initializer_list>
#include <tuple>
#include <utility>
#include <opt/option.hpp>
#include "mon.hpp"
#if __cplusplus >= 202002L
#define CX20 1
#else
#define CX20 0
#endif
namespace {
using u64 = std::uint64_t;
struct Res { u64 digest = 0x9E3779B97F4A7C15ull; int err = 0; int ops = 0; u64 seen = 0; u64 seen2 = 0; };
constexpr u64 mixc(u64 a, u64 b) { a ^= b + 0x9E3779B97F4A7C15ull + (a << 6) + (a >> 2); a *= 0xBF58476D1CE4E5B9ull; return a ^ (a >> 29); }
struct Rnd { u64 s; constexpr u64 next() { s += 0x9E3779B97F4A7C15ull; u64 z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); } constexpr int below(int n) { return static_cast<int>(next() % static_cast<u64>(n)); } };
// element types: make(i) and id() for i in [0, 50)
struct Pt { int x, y; friend constexpr void swap(Pt& a, Pt& b) noexcept { const Pt t = a; a = b; b = t; } friend constexpr bool operator==(const Pt& a, const Pt& b) { return a.x == b.x && a.y == b.y; } friend constexpr bool operator!=(const Pt& a, const Pt& b) { return !(a == b); } friend constexpr bool operator<(const Pt& a, const Pt& b) { return a.x < b.x; } friend constexpr bool operator>(const Pt& a, const Pt& b) { return a.x > b.x; } friend constexpr bool operator<=(const Pt& a, const Pt& b) { return a.x <= b.x; } friend constexpr bool operator>=(const Pt& a, const Pt& b) { return a.x >= b.x; } };
template<class S> struct Cmp { friend constexpr bool operator==(const S& a, const S& b) { return a.id() == b.id(); } friend constexpr bool operator!=(const S& a, const S& b) { return a.id() != b.id(); } friend constexpr bool operator<(const S& a, const S& b) { return a.id() < b.id(); } friend constexpr bool operator>(const S& a, const S& b) { return a.id() > b.id(); } friend constexpr bool operator<=(const S& a, const S& b) { return a.id() <= b.id(); } friend constexpr bool operator>=(const S& a, const S& b) { return a.id() >= b.id(); } };
struct NoDefault : Cmp<NoDefault> { int v; constexpr explicit NoDefault(int i) : v(i) {} constexpr int id() const { return v; } };
struct Ctor : Cmp<Ctor> { long v; int copies; constexpr Ctor(int i = 7) : v(i), copies(0) {} constexpr Ctor(const Ctor& o) : v(o.v), copies(o.copies + 1) {} constexpr Ctor(Ctor&& o) noexcept : v(o.v), copies(o.copies) { o.v = -1; } constexpr Ctor& operator=(const Ctor& o) { v = o.v; copies = o.copies + 1; return *this; } constexpr Ctor& operator=(Ctor&& o) noexcept { v = o.v; copies = o.copies; if (this != &o) o.v = -1; return *this; } constexpr int id() const { return static_cast<int>(v); } };
#if CX20
struct Box : Cmp<Box> { int* p; constexpr Box(int i = 0) : p(new int(i)) {} constexpr Box(const Box& o) : p(o.p ? new int(*o.p) : nullptr) {} constexpr Box(Box&& o) noexcept : p(o.p) { o.p = nullptr; } constexpr Box& operator=(const Box& o) { if (this != &o) { int* q = o.p ? new int(*o.p) : nullptr; delete p; p = q; } return *this; } constexpr Box& operator=(Box&& o) noexcept { if (this != &o) { delete p; p = o.p; o.p = nullptr; } return *this; } constexpr ~Box() { delete p; } constexpr int id() const { return p ? *p : -1; } };
struct Dtor : Cmp<Dtor> { int v; bool alive = true; constexpr explicit Dtor(int i) : v(i) {} constexpr Dtor(const Dtor&) = default; constexpr Dtor& operator=(const Dtor&) = default; constexpr ~Dtor() { if (!alive) throw 1; alive = false; v = -7; } constexpr int id() const { return alive ? v : -2; } };
#endif
struct MyP { unsigned x; constexpr explicit MyP(unsigned v) : x(v) {} friend constexpr bool operator==(const MyP& a, const MyP& b) { return a.x == b.x; } friend constexpr bool operator!=(const MyP& a, const MyP& b) { return a.x != b.x; } friend constexpr bool operator<(const MyP& a, const MyP& b) { return a.x < b.x; } friend constexpr bool operator>(const MyP& a, const MyP& b) { return a.x > b.x; } friend constexpr bool operator<=(const MyP& a, const MyP& b) { return a.x <= b.x; } friend constexpr bool operator>=(const MyP& a, const MyP& b) { return a.x >= b.x; } };
struct Self : Cmp<Self> { int x, y; constexpr Self(int a, int b) : x(a), y(b) {} constexpr int id() const { return y == ~x ? x : -3; } };
using Sent = opt::sentinel<int, -1, -2>; struct Host : Cmp<Host> { int k; Sent s; constexpr Host(int i = 0) : k(i), s(i) {} constexpr int id() const { return k == static_cast<const int&>(s) ? k : -3; } }; using Mem = opt::member<Host, &Host::s>; using Arr = std::array<Sent, 2>;
} // namespace
template<> struct opt::sentinel_option_traits<MyP> { static constexpr MyP sentinel_value{0u}; };
template<> struct opt::option_traits<Self> {
    static constexpr std::uintmax_t max_level = 100; static constexpr std::uintmax_t get_level(const Self* v) noexcept { return v->x == -1 ? static_cast<std::uintmax_t>(v->y) : std::uintmax_t(-1); } static constexpr void set_level(Self* v, std::uintmax_t l) noexcept { v->x = -1; v->y = static_cast<int>(l); } };
namespace {
template<class T> struct Ct { static constexpr T make(int i) { return static_cast<T>(i); } static constexpr int id(const T& v) { return static_cast<int>(v); } };
template<> struct Ct<Pt> { static constexpr Pt make(int i) { return Pt{i, ~i}; } static constexpr int id(const Pt& v) { return v.y == ~v.x ? v.x : -3; } };
template<> struct Ct<MyP> { static constexpr MyP make(int i) { return MyP(static_cast<unsigned>(i) + 1); } static constexpr int id(const MyP& v) { return static_cast<int>(v.x) - 1; } };
template<> struct Ct<Self> { static constexpr Self make(int i) { return Self(i, ~i); } static constexpr int id(const Self& v) { return v.id(); } };
template<> struct Ct<Mem> { static constexpr Mem make(int i) { return Mem(Host(i)); } static constexpr int id(const Mem& v) { return v.m.id(); } };
template<> struct Ct<NoDefault> { static constexpr NoDefault make(int i) { return NoDefault(i); } static constexpr int id(const NoDefault& v) { return v.v; } };
template<> struct Ct<Ctor> { static constexpr Ctor make(int i) { return Ctor(i); } static constexpr int id(const Ctor& v) { return v.id(); } };
template<class A, class B> struct Ct<std::pair<A, B>> { static constexpr auto make(int i) { return std::pair<A, B>(static_cast<A>(i), static_cast<B>(i + 1)); } static constexpr int id(const std::pair<A, B>& v) { return static_cast<int>(v.second) == static_cast<int>(v.first) + 1 ? static_cast<int>(v.first) : -3; } };
template<class A, class B> struct Ct<std::tuple<A, B>> { static constexpr auto make(int i) { return std::tuple<A, B>(static_cast<A>(i), static_cast<B>(i + 1)); } static constexpr int id(const std::tuple<A, B>& v) { return static_cast<int>(std::get<1>(v)) == static_cast<int>(std::get<0>(v)) + 1 ? static_cast<int>(std::get<0>(v)) : -3; } };
template<class A, std::size_t N> struct Ct<std::array<A, N>> { static constexpr auto make(int i) { std::array<A, N> r{}; for (std::size_t k = 0; k < N; ++k) r[k] = static_cast<A>(i); return r; } static constexpr int id(const std::array<A, N>& v) { for (std::size_t k = 0; k < N; ++k) if (v[k] != v[0]) return -3; return static_cast<int>(v[0]); } };
#if CX20
template<> struct Ct<Box> { static constexpr Box make(int i) { return Box(i); } static constexpr int id(const Box& v) { return v.id(); } };
template<> struct Ct<Dtor> { static constexpr Dtor make(int i) { return Dtor(i); } static constexpr int id(const Dtor& v) { return v.id(); } };
#endif
struct M { bool has; int id; };
#define CK(c, code) do { if (!(c) && r.err == 0) r.err = (code); } while (0)

// an element type with levels cannot be made empty in a constant expression, it can only become so
template<class T> constexpr opt::option<T> first(int i) { if constexpr (opt::option_traits<T>::max_level == 0) return i == 1 ? opt::option<T>() : opt::option<T>(opt::none); else return opt::option<T>(Ct<T>::make(i)); }
// FILL: a value can be put into an empty option at compile time in this language mode
template<class T> constexpr Res run(u64 seed, int steps) {
    using C = Ct<T>; using O = opt::option<T>; constexpr bool TRAIT = opt::option_traits<T>::max_level != 0, FILL = CX20 != 0 || TRAIT, MOVE = CX20 != 0 || std::is_trivially_copyable_v<T>;
    Res r; Rnd g{seed}; O s[3] = {first<T>(1), O(C::make(3)), first<T>(2)}; M m[3] = {{TRAIT, 1}, {true, 3}, {TRAIT, 2}}; u64 bits = 0, bits2 = 0;
    for (int n = 0; n < steps; ++n) {
        const int op = g.below(58), i = g.below(3), j = g.below(3), k = g.below(50); const bool can = FILL || m[i].has; bool done = true; u64 out = 0;
        switch (op) {
        case 0: s[i].reset(); m[i].has = false; break;
        case 1: s[i] = opt::none; m[i].has = false; break;
        case 2: if (can) { s[i] = C::make(k); m[i] = {true, k}; } else done = false; break;
        case 3: if (can) { const T v = C::make(k); s[i] = v; m[i] = {true, k}; } else done = false; break;
        case 4: if (can && (FILL || std::is_trivially_move_assignable_v<T>)) { out = static_cast<u64>(C::id(s[i].emplace(C::make(k)))); m[i] = {true, k}; CK(out == static_cast<u64>(k), 4); } else done = false; break;
        case 5: if (MOVE) { s[i] = static_cast<const O&>(s[j]); m[i] = m[j]; } else done = false; break;
        case 6: if (MOVE && i != j) { s[i] = static_cast<O&&>(s[j]); m[i] = m[j]; CK(s[j].has_value() == m[j].has, 6); s[j].reset(); m[j].has = false; } else done = false; break;
        case 7: if (MOVE) { O c(s[i]); CK(c.has_value() == m[i].has && (!m[i].has || C::id(*c) == m[i].id), 7); } else done = false; break;
        case 8: if (MOVE) { O c(static_cast<O&&>(s[i])); CK(c.has_value() == m[i].has && (!m[i].has || C::id(c.get()) == m[i].id), 8); s[i].reset(); m[i].has = false; } else done = false; break;
        case 9: if (CX20 || (m[i].has == m[j].has && (!m[i].has || std::is_same_v<T, Pt>))) { s[i].swap(s[j]); const M t = m[i]; m[i] = m[j]; m[j] = t; } else done = false; break;
        case 10: if (CX20 || (m[i].has == m[j].has && (!m[i].has || std::is_same_v<T, Pt>))) { opt::swap(s[i], s[j]); const M t = m[i]; m[i] = m[j]; m[j] = t; } else done = false; break;
        case 11: if (MOVE) { O t = s[i].take(); CK(t.has_value() == m[i].has && (!m[i].has || C::id(*t) == m[i].id) && !s[i].has_value(), 11); m[i].has = false; } else done = false; break;
        case 12: if (MOVE && (!TRAIT || (m[i].has && m[i].id >= k))) { O t = s[i].take_if([&](T& v) { return C::id(v) >= k; }); const bool hit = m[i].has && m[i].id >= k; CK(t.has_value() == hit && (!hit || C::id(*t) == m[i].id), 12); if (hit) m[i].has = false; } else done = false; break;
        case 13: if (MOVE && (!TRAIT || (m[i].has && m[i].id < k))) { O t = static_cast<const O&>(s[i]).filter([&](const T& v) { return C::id(v) < k; }); const bool hit = m[i].has && m[i].id < k; CK(t.has_value() == hit && (!hit || C::id(*t) == m[i].id), 13); } else done = false; break;
        case 14: { auto t = s[i].map([&](const T& v) -> long { return C::id(v) + k; }); CK(t.has_value() == m[i].has && (!m[i].has || *t == m[i].id + k), 14); out = t.has_value() ? static_cast<u64>(*t) : 99; break; }
        case 15: if (MOVE && (!TRAIT || m[i].has)) { O t = s[i].map([&](const T& v) { return C::make((C::id(v) + 1) % 50); }); CK(t.has_value() == m[i].has && (!m[i].has || C::id(*t) == (m[i].id + 1) % 50), 15); } else done = false; break;
        case 16: { auto t = s[i].and_then([&](const T& v) { return C::id(v) > k ? opt::option<int>(C::id(v)) : opt::option<int>(); }); const bool hit = m[i].has && m[i].id > k; CK(t.has_value() == hit && (!hit || *t == m[i].id), 16); break; }
        case 17: if (MOVE) { O t = static_cast<const O&>(s[i]).or_else([&] { return O(C::make(k)); }); CK(t.has_value() && C::id(*t) == (m[i].has ? m[i].id : k), 17); } else done = false; break;
        case 18: { const long t = s[i].map_or(long(k), [](const T& v) -> long { return C::id(v) * 2; }); CK(t == (m[i].has ? m[i].id * 2 : k), 18); out = static_cast<u64>(t); break; }
        case 19: { const long t = s[i].map_or_else([&]() -> long { return k - 5; }, [](const T& v) -> long { return C::id(v) * 3; }); CK(t == (m[i].has ? m[i].id * 3 : k - 5), 19); out = static_cast<u64>(t); break; }
        case 20: { const T t = static_cast<const O&>(s[i]).value_or(C::make(k)); CK(C::id(t) == (m[i].has ? m[i].id : k), 20); break; }
        case 21: { const T t = static_cast<const O&>(s[i]).value_or_construct(C::make(k)); CK(C::id(t) == (m[i].has ? m[i].id : k), 21); break; }
        case 22: if (m[i].has) { const O& c = s[i]; CK(C::id(c.value_or_throw()) == m[i].id && C::id(c.value()) == m[i].id && C::id(*c) == m[i].id && C::id(c.get()) == m[i].id && C::id(c.get_unchecked()) == m[i].id && C::id(*c.operator->()) == m[i].id, 22); CK(&*c == &c.get() && &c.value() == c.operator->() && &c.value_or_throw() == c.ptr_or_null(), 122); } else done = false; break;
        case 23: { auto* p = s[i].ptr_or_null(); CK((p != nullptr) == m[i].has && (p == nullptr || C::id(*p) == m[i].id), 23); break; }
        case 24: { int c = 0, v = -1; s[i].inspect([&](const T& x) { ++c; v = C::id(x); }); CK(c == (m[i].has ? 1 : 0) && (!c || v == m[i].id), 24); break; }
        case 25: { int c = 0, v = -1; for (auto it = s[i].begin(); it != s[i].end(); ++it) { ++c; v = C::id(*it); } for (const T& x : static_cast<const O&>(s[i])) { c += 2; v = C::id(x); } CK(c == (m[i].has ? 3 : 0) && (!c || v == m[i].id), 25); break; }
        case 26: { const bool h = m[i].has, l = m[j].has; const int a = m[i].id, b = m[j].id; const bool eq = h == l && (!h || a == b), lt = l && (!h || a < b); const O &x = s[i], &y = s[j];
            CK((x == y) == eq && (x != y) == !eq, 26); CK((x < y) == lt && (x > y) == (!eq && !lt) && (x <= y) == (lt || eq) && (x >= y) == !lt, 126); out = static_cast<u64>(eq) + 2 * static_cast<u64>(lt); break; }
        case 27: { const T v = C::make(k); const O& x = s[i]; const bool h = m[i].has; CK((x == v) == (h && m[i].id == k) && (v == x) == (h && m[i].id == k) && (x != v) != (x == v), 27); CK((x == opt::none) == !h && (opt::none == x) == !h && (x != opt::none) == h, 127); CK((x < v) == (!h || m[i].id < k) && (v < x) == (h && k < m[i].id) && (x >= v) == (h && m[i].id >= k), 227); CK((x > opt::none) == h && !(x < opt::none) && (x >= opt::none) && (opt::none < x) == h, 327); break; }
        case 28: if (MOVE) { O t = static_cast<const O&>(s[i]) | static_cast<const O&>(s[j]); const M& e = m[i].has ? m[i] : m[j]; CK(t.has_value() == e.has && (!e.has || C::id(*t) == e.id), 28); const T v = static_cast<const O&>(s[i]) | C::make(k); CK(C::id(v) == (m[i].has ? m[i].id : k), 128); } else done = false; break;
        case 29: if (MOVE && (!TRAIT || m[i].has != m[j].has)) { auto t = static_cast<const O&>(s[i]) ^ static_cast<const O&>(s[j]); const bool h = m[i].has != m[j].has; CK(t.has_value() == h && (!h || C::id(*t) == (m[i].has ? m[i].id : m[j].id)), 29); } else done = false; break;
        case 30: if (FILL) { if (i != j) { const bool was = m[i].has; s[i] |= static_cast<const O&>(s[j]); if (!was) m[i] = m[j]; } } else done = false; break;
        case 31: if constexpr (MOVE && !TRAIT) { auto t = opt::zip(static_cast<const O&>(s[i]), opt::option<int>(k)); CK(t.has_value() == m[i].has && (!m[i].has || (C::id(std::get<0>(*t)) == m[i].id && std::get<1>(*t) == k)), 31); } else done = false; break;
        case 32: { auto t = opt::zip_with([](const T& a, const T& b) -> long { return C::id(a) * 100 + C::id(b); }, static_cast<const O&>(s[i]), static_cast<const O&>(s[j])); const bool h = m[i].has && m[j].has; CK(t.has_value() == h && (!h || *t == m[i].id * 100 + m[j].id), 32); break; }
        case 33: CK(s[i].has_value_and([&](const T& v) { return C::id(v) > k; }) == (m[i].has && m[i].id > k), 33); break;
        case 34: { auto t = opt::make_option(C::make(k)); CK(t.has_value() && C::id(*t) == k, 34); auto d = opt::option(C::make(k)); CK(C::id(*d) == k, 134); O e(std::in_place, C::make(k)); CK(C::id(*e) == k, 234); break; }
        case 35: if (can) { const int e = m[i].has ? m[i].id : k; CK(C::id(s[i].try_emplace(C::make(k))) == e, 35); m[i] = {true, e}; } else done = false; break;
        case 36: if (m[i].has) { *s[i] = C::make(k); m[i].id = k; } else done = false; break;
        case 37: { auto p = opt::from_nullable(s[i].ptr_or_null()); CK(p.has_value() == m[i].has && (!m[i].has || &*p == &*s[i]), 37); opt::option<const T&> q = p; CK(q.has_value() == m[i].has && (!m[i].has || q.ptr_or_null() == s[i].ptr_or_null()), 137); p.reset(); CK(!p.has_value() && s[i].has_value() == m[i].has, 237); opt::option<const T&> z; z = q; opt::option<const T&> y; y.swap(z); CK(y == q && !z.has_value() && y.ptr_or_null() == s[i].ptr_or_null(), 337); auto w = y.map([](const T& v) { return C::id(v); }); CK(w.has_value() == m[i].has && (!m[i].has || *w == m[i].id), 437); break; }
        case 38: { std::array<int, 3> a{k, k + 1, k + 2}; auto x = opt::at(a, static_cast<std::size_t>(i + j)); CK(x.has_value() == (i + j < 3) && (i + j >= 3 || (*x == k + i + j && &*x == &a[static_cast<std::size_t>(i + j)])), 38); CK(*opt::at_front(a) == k && *opt::at_back(a) == k + 2, 138); break; }
        case 39: if (MOVE) { auto t = opt::option<std::pair<int, int>>(std::in_place, k, i); auto u = opt::unzip(t); CK(*u.first == k && *u.second == i, 39); auto e = opt::unzip(opt::option<std::pair<int, int>>()); CK(!e.first && !e.second, 139); opt::option<const int&> f = opt::get<1>(t); CK(f.has_value() && *f == i, 239); } else done = false; break;
        case 40: { auto t = s[i].map([](T& v) -> T& { return v; }); CK(t.has_value() == m[i].has && t.ptr_or_null() == s[i].ptr_or_null(), 40); break; }
        case 41: { opt::option<short> h = m[i].has ? opt::option<short>(static_cast<short>(m[i].id)) : opt::option<short>(); if (CX20 || !h) { opt::option<long> l(h); CK(l.has_value() == m[i].has && (!m[i].has || *l == m[i].id), 41); auto c = opt::option_cast<long long>(h); CK(c.has_value() == m[i].has && (!m[i].has || *c == m[i].id), 141); } opt::option<long> z(5); z = h; CK(z.has_value() == m[i].has && (!m[i].has || *z == m[i].id), 241); CK((z == h) && !(z < h), 341); break; }
        case 42: if (MOVE) { s[i] = static_cast<O&>(s[i]); CK(s[i].has_value() == m[i].has, 42); } else done = false; break;
        case 43: { T out_v = C::make(k); const bool b = static_cast<bool>(s[i]); CK(b == m[i].has, 43); if (b) out_v = *s[i]; CK(C::id(out_v) == (b ? m[i].id : k), 143); break; }
        // the same operations with operands of every category
        case 44: if (MOVE) { const M& e = m[i].has ? m[i] : m[j]; O a(s[i]), b(s[j]); { O t = static_cast<O&&>(a) | static_cast<const O&>(s[j]); CK(t.has_value() == e.has && (!e.has || C::id(*t) == e.id), 44); } { O t = static_cast<const O&>(s[i]) | static_cast<O&&>(b); CK(t.has_value() == e.has && (!e.has || C::id(*t) == e.id), 144); } O c(s[i]), d(s[j]); O t = static_cast<O&&>(c) | static_cast<O&&>(d); CK(t.has_value() == e.has && (!e.has || C::id(*t) == e.id), 244); O f(s[i]); const T v = static_cast<O&&>(f) | C::make(k); CK(C::id(v) == (m[i].has ? m[i].id : k), 344); } else done = false; break;
        case 45: if (MOVE && (!TRAIT || m[i].has != m[j].has)) { const bool h = m[i].has != m[j].has; const int e = m[i].has ? m[i].id : m[j].id; O a(s[i]), b(s[j]), c(s[i]), d(s[j]); auto x = static_cast<O&&>(a) ^ static_cast<const O&>(s[j]); CK(x.has_value() == h && (!h || C::id(*x) == e), 45); auto y = static_cast<const O&>(s[i]) ^ static_cast<O&&>(b); CK(y.has_value() == h && (!h || C::id(*y) == e), 145); auto z = static_cast<O&&>(c) ^ static_cast<O&&>(d); CK(z.has_value() == h && (!h || C::id(*z) == e), 245); } else done = false; break;
        case 46: if (MOVE && (!TRAIT || (m[i].has && m[j].has))) { const bool h = m[i].has && m[j].has; O x = static_cast<const O&>(s[i]) & static_cast<const O&>(s[j]); CK(x.has_value() == h && (!h || C::id(*x) == m[j].id), 46); O b(s[j]); O y = static_cast<const O&>(s[i]) & static_cast<O&&>(b); CK(y.has_value() == h && (!h || C::id(*y) == m[j].id), 146); } else done = false; break;
        case 47: if (FILL && MOVE) { O b(s[j]); s[i] |= static_cast<O&&>(b); if (!m[i].has) m[i] = m[j]; O c(s[i]); c |= C::make(k); CK(c.has_value() && C::id(*c) == (m[i].has ? m[i].id : k), 147); } else done = false; break;
        case 48: if (MOVE) { O a(s[i]), b(s[i]), c(s[i]), d(s[i]); { auto t = static_cast<O&&>(a).map([&](T&& v) -> long { return C::id(v) + k; }); CK(t.has_value() == m[i].has && (!t || *t == m[i].id + k), 48); } { auto t = static_cast<const O&>(s[i]).map([&](const T& v) -> long { return C::id(v) - k; }); CK(t.has_value() == m[i].has && (!t || *t == m[i].id - k), 148); } { auto t = static_cast<const O&&>(b).map([&](const T&& v) -> long { return C::id(v) * 2; }); CK(t.has_value() == m[i].has && (!t || *t == m[i].id * 2), 248); }
            { const long t = static_cast<O&&>(c).map_or(long(k), [](T&& v) -> long { return C::id(v) * 2; }); CK(t == (m[i].has ? m[i].id * 2 : k), 348); } { const long t = static_cast<const O&>(s[i]).map_or(long(k), [](const T& v) -> long { return C::id(v) * 4; }); CK(t == (m[i].has ? m[i].id * 4 : k), 448); } { const long t = static_cast<const O&&>(d).map_or(long(k), [](const T&& v) -> long { return C::id(v) * 5; }); CK(t == (m[i].has ? m[i].id * 5 : k), 548); } } else done = false; break;
        case 49: if (MOVE) { O a(s[i]), b(s[i]); { const long t = static_cast<O&&>(a).map_or_else([&]() -> long { return k; }, [](T&& v) -> long { return C::id(v) * 2; }); CK(t == (m[i].has ? m[i].id * 2 : k), 49); } { const long t = static_cast<const O&>(s[i]).map_or_else([&]() -> long { return k; }, [](const T& v) -> long { return C::id(v) * 4; }); CK(t == (m[i].has ? m[i].id * 4 : k), 149); } { const long t = static_cast<const O&&>(b).map_or_else([&]() -> long { return k; }, [](const T&& v) -> long { return C::id(v) * 5; }); CK(t == (m[i].has ? m[i].id * 5 : k), 249); } } else done = false; break;
        case 50: if (MOVE) { O a(s[i]), b(s[i]), c(s[i]); const bool hit = m[i].has && m[i].id > k; { auto t = static_cast<O&&>(a).and_then([&](T&& v) { return C::id(v) > k ? opt::option<int>(C::id(v)) : opt::option<int>(); }); CK(t.has_value() == hit && (!hit || *t == m[i].id), 50); } { auto t = static_cast<const O&>(b).and_then([&](const T& v) { return C::id(v) > k ? opt::option<long>(C::id(v)) : opt::option<long>(); }); CK(t.has_value() == hit && (!hit || *t == m[i].id), 150); } { auto t = static_cast<const O&&>(c).and_then([&](const T&& v) { return C::id(v) > k ? opt::option<short>(static_cast<short>(C::id(v))) : opt::option<short>(); }); CK(t.has_value() == hit && (!hit || *t == m[i].id), 250); } } else done = false; break;
        case 51: if (MOVE) { O a(s[i]), b(s[i]), c(s[i]); { O t = static_cast<O&&>(a).or_else([&] { return O(C::make(k)); }); CK(t.has_value() && C::id(*t) == (m[i].has ? m[i].id : k), 51); } if (!TRAIT || (m[i].has && m[i].id < k)) { O t = static_cast<O&&>(b).filter([&](const T& v) { return C::id(v) < k; }); const bool hit = m[i].has && m[i].id < k; CK(t.has_value() == hit && (!hit || C::id(*t) == m[i].id), 151); } } else done = false; break;
        case 52: if (MOVE) { O a(s[i]), b(s[i]); { const T t = static_cast<O&&>(a).value_or(C::make(k)); CK(C::id(t) == (m[i].has ? m[i].id : k), 52); } { const T t = static_cast<O&&>(b).value_or_construct(C::make(k)); CK(C::id(t) == (m[i].has ? m[i].id : k), 152); } } else done = false; break;
        case 53: if (m[i].has && MOVE) { O a(s[i]), b(s[i]), c(s[i]), d(s[i]), e(s[i]); const T t = static_cast<O&&>(a).value_or_throw(), u = static_cast<O&&>(b).value(), v = *static_cast<O&&>(c), w = static_cast<O&&>(d).get(), x = static_cast<O&&>(e).get_unchecked(); CK(C::id(t) == m[i].id && C::id(u) == m[i].id && C::id(v) == m[i].id && C::id(w) == m[i].id && C::id(x) == m[i].id, 53);
            const O f(s[i]); CK(C::id(static_cast<const O&&>(f).value_or_throw()) == m[i].id && C::id(static_cast<const O&&>(f).value()) == m[i].id && C::id(*static_cast<const O&&>(f)) == m[i].id && C::id(static_cast<const O&&>(f).get()) == m[i].id && C::id(static_cast<const O&&>(f).get_unchecked()) == m[i].id, 153); CK(C::id(s[i].value_or_throw()) == m[i].id && C::id(s[i].value()) == m[i].id && &s[i].get() == &*s[i] && &s[i].get_unchecked() == s[i].operator->(), 253); } else done = false; break;
        case 54: if (MOVE) { O a(s[i]), b(s[i]), c(s[i]); int n2 = 0; static_cast<O&&>(a).inspect([&](const T&) { ++n2; }); static_cast<const O&>(b).inspect([&](const T&) { ++n2; }); static_cast<const O&&>(c).inspect([&](const T&) { ++n2; }); CK(n2 == (m[i].has ? 3 : 0), 54); const bool hit = m[i].has && m[i].id > k; CK(static_cast<O&&>(a).has_value_and([&](T&& v) { return C::id(v) > k; }) == hit && static_cast<const O&>(b).has_value_and([&](const T& v) { return C::id(v) > k; }) == hit && static_cast<const O&&>(c).has_value_and([&](const T&& v) { return C::id(v) > k; }) == hit, 154); } else done = false; break;
        case 55: if constexpr (MOVE && !TRAIT) { O a(s[i]), b(s[j]); const bool h = m[i].has && m[j].has; auto t = opt::zip(static_cast<O&&>(a), static_cast<O&&>(b)); CK(t.has_value() == h && (!h || (C::id(std::get<0>(*t)) == m[i].id && C::id(std::get<1>(*t)) == m[j].id)), 55); auto u = opt::unzip(static_cast<opt::option<std::tuple<T, T>>&&>(t)); CK(std::get<0>(u).has_value() == h && std::get<1>(u).has_value() == h && (!h || (C::id(*std::get<0>(u)) == m[i].id && C::id(*std::get<1>(u)) == m[j].id)), 155);
            O c(s[i]), d(s[j]); auto w = opt::zip_with([](T&& x, T&& y) -> long { return C::id(x) * 100 + C::id(y); }, static_cast<O&&>(c), static_cast<O&&>(d)); CK(w.has_value() == h && (!h || *w == m[i].id * 100 + m[j].id), 255); } else done = false; break;
        case 56: { using H = opt::option<short>; H h = m[i].has ? H(static_cast<short>(m[i].id)) : H(); if (CX20 || !h) { opt::option<long> l(static_cast<H&&>(h)); CK(l.has_value() == m[i].has && (!m[i].has || *l == m[i].id), 56); auto c = opt::option_cast<long long>(static_cast<H&&>(h)); CK(c.has_value() == m[i].has && (!m[i].has || *c == m[i].id), 156); opt::option<int> e{static_cast<const H&>(h)}; CK((e == h) && !(e < h) && (e <= h) && (h >= e) && !(h > e) && !(h != e), 256); } opt::option<long> z(5); z = static_cast<H&&>(h); CK(z.has_value() == m[i].has && (!m[i].has || *z == m[i].id), 356); opt::option<long> y(5); y = short(k); CK(*y == k, 456); y.reset(); CK((y < z) == m[i].has && (y == opt::none), 556); break; }
        case 57: if constexpr (FILL && std::is_default_constructible_v<T> && (CX20 || std::is_trivially_move_assignable_v<T>)) { O a(std::in_place); a.emplace(); s[i].try_emplace(C::make(k)); if (!m[i].has) m[i] = {true, k}; CK(C::id(a.get()) == C::id(T()), 57); auto q = opt::make_option<T>(); CK(C::id(*q) == C::id(T()), 157); } else done = false; break;
        }
        if (done) { ++r.ops; if (op < 64) { bits |= 1ull << op; if (m[i].has) bits2 |= 1ull << op; } }
        for (int q = 0; q < 3; ++q) { CK(s[q].has_value() == m[q].has, 1000 + op); if (m[q].has) CK(C::id(*s[q]) == m[q].id, 2000 + op); r.digest = mixc(r.digest, mixc(static_cast<u64>(op), s[q].has_value() ? static_cast<u64>(C::id(*s[q])) + 1 : 0)); }
        r.digest = mixc(r.digest, out);
    }
    r.seen = bits; r.seen2 = bits2; return r;
}
// reference options over an array
template<class T> constexpr Res refs(u64 seed, int steps) {
    using C = Ct<T>; Res r; Rnd g{seed}; T a[4] = {C::make(0), C::make(10), C::make(20), C::make(30)}; int at[3] = {-1, 2, -1}; opt::option<T&> s[3] = {{}, {a[2]}, opt::none};
    for (int n = 0; n < steps; ++n) {
        const int op = g.below(16), i = g.below(3), j = g.below(3), k = g.below(4);
        switch (op) {
        case 0: s[i].reset(); at[i] = -1; break; case 1: s[i] = opt::none; at[i] = -1; break; case 2: s[i] = a[k]; at[i] = k; break; case 3: s[i].emplace(a[k]); at[i] = k; break;
        case 4: s[i] = s[j]; at[i] = at[j]; break; case 5: { auto c = s[j]; s[i] = static_cast<opt::option<T&>&&>(c); at[i] = at[j]; break; }
        case 6: if (CX20 || (at[i] < 0 && at[j] < 0)) { s[i].swap(s[j]); const int t = at[i]; at[i] = at[j]; at[j] = t; } break; case 7: { auto t = s[i].take(); CK(t.ptr_or_null() == (at[i] < 0 ? nullptr : a + at[i]) && !s[i], 7); at[i] = -1; break; }
        case 8: { opt::option<const T&> c = s[i]; CK(c.ptr_or_null() == s[i].ptr_or_null(), 8); break; } case 9: { auto t = s[i] | s[j]; CK(t.ptr_or_null() == (at[i] >= 0 ? a + at[i] : at[j] >= 0 ? a + at[j] : nullptr), 9); break; }
        case 10: { auto t = s[i].filter([&](const T& v) { return C::id(v) > 5; }); CK(t.ptr_or_null() == (at[i] > 0 ? a + at[i] : nullptr), 10); break; } case 11: { auto t = s[i].and_then([&](T& v) { return opt::option<T&>(v); }); CK(t.ptr_or_null() == s[i].ptr_or_null(), 11); break; }
        case 12: { auto t = s[i].map([](const T& v) { return C::id(v); }); CK(t.has_value() == (at[i] >= 0) && (!t || *t == 10 * at[i]), 12); break; } case 13: if (opt::option_traits<T>::max_level == 0 || at[i] >= 0) { opt::option<T> v = (CX20 && opt::option_traits<T>::max_level == 0) || at[i] < 0 ? opt::option<T>(s[i]) : opt::option<T>(*s[i]); CK(v.has_value() == (at[i] >= 0) && (!v || C::id(*v) == 10 * at[i]), 13); } break;
        case 14: { auto t = s[i].or_else([&] { return opt::option<T&>(a[k]); }); CK(t.ptr_or_null() == a + (at[i] >= 0 ? at[i] : k), 14); break; } case 15: { T& v = s[i].value_or(a[k]); CK(&v == a + (at[i] >= 0 ? at[i] : k), 15); break; }
        }
        ++r.ops; r.seen |= 1ull << op;
        for (int q = 0; q < 3; ++q) { CK(s[q].has_value() == (at[q] >= 0) && s[q].ptr_or_null() == (at[q] < 0 ? nullptr : a + at[q]), 1000 + op); r.digest = mixc(r.digest, static_cast<u64>(at[q] + 1)); }
    }
    for (int q = 0; q < 4; ++q) CK(C::id(a[q]) == 10 * q, 3000);
    return r;
}

enum { RUN, REFS };
template<int W, class T> constexpr Res go(u64 seed, int steps) { if constexpr (W == RUN) return run<T>(seed, steps); else return refs<T>(seed, steps); }
template<int W, class T, u64 S, int STEPS> inline constexpr Res compiled = go<W, T>(S * 0x9E3779B97F4A7C15ull + sizeof(T), STEPS);
volatile int v_steps; volatile u64 v_seed;
template<int W, class T, int STEPS, std::size_t... S> void compare(const char* name, std::index_sequence<S...>) {
    u64 seen = 0, seen2 = 0; (..., [&] {
        constexpr Res c = compiled<W, T, S, STEPS>; v_steps = STEPS; v_seed = S * 0x9E3779B97F4A7C15ull + sizeof(T); const Res r = go<W, T>(v_seed, v_steps);
        mon::context("%s, program %zu", name, S); mon::st().evaluations += static_cast<u64>(c.ops);
        MCHECK(c.err == 0, "C20-constant", "%s: the result of operation %d is wrong in constant evaluation", name, c.err); MCHECK(r.err == 0, "C20-runtime", "%s: the result of operation %d is wrong at run time", name, r.err);
        MCHECK(c.digest == r.digest && c.ops == r.ops && c.seen == r.seen, "C20-differ", "%s: constant evaluation and run time give different results (%d operations, %d operations)", name, c.ops, r.ops);
        seen |= c.seen; seen2 |= c.seen2; mon::seen(mon::mix(c.digest, mon::hash_str(name))); mon::count("operations evaluated by the compiler", static_cast<u64>(c.ops)); mon::count("programs compared");
    }());
    int ops = 0; for (int b = 0; b < 64; ++b) { ops += static_cast<int>(seen >> b & 1); if (seen >> b & 1) mon::seen(mon::mix(mon::hash_str(name), static_cast<u64>(b))); if (seen2 >> b & 1) mon::seen(mon::mix(mon::hash_str(name), static_cast<u64>(b + 100))); }
    mon::count(("kinds of operation: " + std::string(name)).c_str(), static_cast<u64>(ops));
    // more programs at run time only, against the model
    mon::Rng g(mon::st().seed); for (u64 k = 0; k < 50 * mon::st().scale; ++k) { const u64 sd = g.next(); mon::context("%s, run-time program %llu", name, static_cast<unsigned long long>(sd)); const Res r = go<W, T>(sd, 200); mon::st().evaluations += static_cast<u64>(r.ops); MCHECK(r.err == 0, "C20-runtime", "%s: the result of operation %d is wrong at run time", name, r.err); }
}
#define EACH(W, T, STEPS) compare<W, T, STEPS>(#W " " #T, std::make_index_sequence<SEEDS>{})
#if GROUP == 5
// Every remaining overload of the documented interface, once in a constant expression and once at run time
struct Lst { int s; constexpr Lst(std::initializer_list<int> l) : s(0) { for (int x : l) s += x; } constexpr Lst(std::initializer_list<int> l, int k) : s(k) { for (int x : l) s += x; } constexpr explicit Lst(int x) : s(x) {} constexpr Lst(int a, int b, int c) : s(a * 100 + b * 10 + c) {} };
struct Ag { int a; long b; };
struct MapLike { struct KV { int first; int second; }; using mapped_type = int; KV kv[3]{{1, 10}, {2, 20}, {3, 30}}; constexpr KV* begin() { return kv; } constexpr KV* end() { return kv + 3; } constexpr KV* find(int k) { for (auto& e : kv) if (e.first == k) return &e; return end(); } constexpr const KV* end() const { return kv + 3; } constexpr const KV* find(int k) const { for (auto& e : kv) if (e.first == k) return &e; return end(); } };
struct SetLike { int v[3]{4, 5, 6}; constexpr const int* end() const { return v + 3; } constexpr const int* find(int k) const { for (auto& e : v) if (e == k) return &e; return end(); } };
struct MemFn { int x; constexpr int get(int a) const { return x + a; } constexpr bool pos() const noexcept { return x > 0; } constexpr opt::option<int> half() const { return x % 2 ? opt::option<int>() : opt::option<int>(x / 2); } constexpr int& ref() & { return x; } };
constexpr int freef(int x) { return x * 2; }
struct Hsh { int v; };
template<class X> constexpr int catof(X&&) { return (std::is_lvalue_reference_v<X> ? 0 : 2) + (std::is_const_v<std::remove_reference_t<X>> ? 1 : 0); }
// gcc cannot fold the difference of two pointers into a member of a union
#ifdef __clang__
#define DIFF(a, b, n) ((a) - (b) == (n))
#else
#define DIFF(a, b, n) ((a) == (b) + (n))
#endif
#define CE(name, ...) do { constexpr auto f_ = []() constexpr -> bool { __VA_ARGS__ }; constexpr bool c_ = f_(); static volatile bool once_ = true; bool r_ = false; if (once_) r_ = f_(); mon::context("C20 interface: %s", name); MCHECK(c_, std::string("C20-interface-constant/") + name, "%s: wrong result in constant evaluation", name); MCHECK(r_, std::string("C20-interface-runtime/") + name, "%s: wrong result at run time", name); mon::seen(std::string(name)); mon::count("interface forms evaluated by both"); } while (0)
using O = opt::option<int>; using OL = opt::option<Lst>;
constexpr int g_obj[3] = {7, 8, 9}; inline constexpr int g_one = 5;
void interface_forms() {
    // initializer-list overloads
    CE("in_place ilist", OL a{std::in_place, {1, 2, 3}}; return a->s == 6;); CE("in_place ilist args", OL a{std::in_place, {1, 2, 3}, 10}; return a->s == 16;); CE("in_place args", OL a{std::in_place, 1, 2, 3}; return a.has_value() && (*a).s == 123;);
    CE("make_option ilist", auto a = opt::make_option<Lst>({4, 5}); return a->s == 9;); CE("make_option ilist args", auto a = opt::make_option<Lst>({4, 5}, 1); return a->s == 10;); CE("make_option args", auto a = opt::make_option<Lst>(3); return a->s == 3;); CE("make_option value", auto a = opt::make_option(3); return *a == 3;);
    CE("value_or_construct ilist const&", const OL e; const OL a{std::in_place, 7}; return e.value_or_construct({1, 2}).s == 3 && e.value_or_construct({1, 2}, 5).s == 8 && a.value_or_construct({1, 2}).s == 7 && a.value_or_construct({1, 2}, 3).s == 7;);
    CE("value_or_construct ilist &&", return OL{}.value_or_construct({1, 2}).s == 3 && OL{}.value_or_construct({1, 2}, 5).s == 8 && OL{std::in_place, 7}.value_or_construct({1, 2}).s == 7 && OL{std::in_place, 7}.value_or_construct({1, 2}, 3).s == 7;);
    CE("value_or_construct args", const OL e; return e.value_or_construct(4).s == 4 && OL{}.value_or_construct(1, 2, 3).s == 123 && O{}.value_or_construct() == 0;);
    CE("value_or_construct aggregate", opt::option<Ag> e; auto x = static_cast<const opt::option<Ag>&>(e).value_or_construct(1, 2L); auto y = opt::option<Ag>{}.value_or_construct(3); return x.a == 1 && x.b == 2 && y.a == 3 && y.b == 0;);
    CE("aggregate construction", opt::option<Ag> a{std::in_place, 1, 2L}; opt::option<Ag> b{Ag{3, 4}}; auto c = opt::make_option<Ag>(5, 6L); opt::option<Ag> d(1, 2L); return a->a == 1 && a->b == 2 && b->b == 4 && c->a == 5 && d->b == 2;);
#if CX20
    CE("emplace aggregate", opt::option<Ag> a; a.emplace(1, 2L); opt::option<Ag> b; b.try_emplace(3, 4L); b.try_emplace(5, 6L); return a->b == 2 && b->a == 3;);
#endif
    // functions over tuple-likes, containers, pointers, other options
    CE("get<I> forms", opt::option<std::pair<int, long>> p(std::in_place, 3, 4L); const auto& c = p; auto a = opt::get<0>(p); auto b = opt::get<1>(c); auto d = opt::get<1>(static_cast<opt::option<std::pair<int, long>>&&>(p)); auto e = opt::get<0>(static_cast<const opt::option<std::pair<int, long>>&&>(c)); static_assert(std::is_same_v<decltype(a), opt::option<int&>> && std::is_same_v<decltype(b), opt::option<const long&>> && std::is_same_v<decltype(d), opt::option<long&&>> && std::is_same_v<decltype(e), opt::option<const int&&>>); return &*a == &p->first && &*b == &p->second && d.ptr_or_null() == &p->second && e.ptr_or_null() == &p->first;);
    CE("get<I> empty", opt::option<std::pair<int, long>> p; return !opt::get<0>(p) && !opt::get<1>(static_cast<const opt::option<std::pair<int, long>>&>(p)) && !opt::get<1>(opt::option<std::tuple<int, int>>());); CE("get<I> array", opt::option<std::array<int, 3>> p(std::in_place, std::array<int, 3>{1, 2, 3}); opt::get<2>(p) = p->front(); *opt::get<1>(p) = 9; return (*p)[1] == 9;);
    CE("get<T>", opt::option<std::pair<int, long>> p(std::in_place, 3, 4L); auto a = opt::get<long>(p); auto b = opt::get<int>(static_cast<const decltype(p)&>(p)); return &*a == &p->second && *b == 3 && !opt::get<int>(opt::option<std::pair<int, long>>()););
    CE("at forms", std::array<int, 3> a{1, 2, 3}; const auto& c = a; auto x = opt::at(a, 1); auto y = opt::at(c, 2); auto z = opt::at(static_cast<std::array<int, 3>&&>(a), 0); auto w = opt::at(a, 3); static_assert(std::is_same_v<decltype(x), opt::option<int&>> && std::is_same_v<decltype(y), opt::option<const int&>> && std::is_same_v<decltype(z), opt::option<int&&>>); return &*x == &a[1] && &*y == &a[2] && z.ptr_or_null() == &a[0] && !w;);
    CE("at_front at_back", std::array<int, 3> a{1, 2, 3}; std::array<int, 0> e{}; const auto& c = a; return &*opt::at_front(a) == &a[0] && &*opt::at_back(c) == &a[2] && !opt::at_front(e) && !opt::at_back(e) && opt::at_back(static_cast<std::array<int, 3>&&>(a)).ptr_or_null() == &a[2];);
    CE("at string_view", constexpr std::string_view s = "abc"; return *opt::at(s, 1) == 'b' && !opt::at(s, 3) && *opt::at_front(s) == 'a' && *opt::at_back(s) == 'c' && !opt::at_front(std::string_view());); 
    CE("lookup map", MapLike m; const MapLike c; auto a = opt::lookup(m, 2); auto b = opt::lookup(c, 3); auto d = opt::lookup(m, 4); static_assert(std::is_same_v<decltype(a), opt::option<int&>>); return *a == 20 && *b == 30 && !d;); CE("lookup set", SetLike s; return *opt::lookup(s, 5) == 5 && !opt::lookup(s, 7););
    CE("from_nullable", int x = 3; int* n = nullptr; const int* p = &x; return &*opt::from_nullable(&x) == &x && !opt::from_nullable(n) && &*opt::from_nullable(p) == &x;);
    CE("option_cast", O a(3); return *opt::option_cast<long>(a) == 3 && *opt::option_cast<char>(O(65)) == 'A' && !opt::option_cast<long>(O()) && opt::option_cast<Lst>(a)->s == 3 && opt::option_cast<const int&>(opt::option<const int&>(g_one)).ptr_or_null() == &g_one;);
    CE("zip forms", O a(1); const opt::option<long> b(2); auto x = opt::zip(a, b, opt::option<short>(short(3))); auto y = opt::zip(a, O()); auto z = opt::zip(); return std::get<0>(*x) == 1 && std::get<1>(*x) == 2 && std::get<2>(*x) == 3 && !y && z.has_value(););
    CE("zip references", int v = 4; opt::option<int&> r(v); auto x = opt::zip(r, O(1)); return &std::get<0>(*x) == &v && std::get<1>(*x) == 1;);
    CE("zip_with forms", O a(1), b(2); const O c(3); const bool ok = *opt::zip_with([](int& x, const int& y, int&& z) { return x * 100 + y * 10 + z; }, a, c, static_cast<O&&>(b)) == 132; int n = 0; opt::zip_with([&](int, int) { ++n; }, a, c); opt::zip_with([&](int, int) { ++n; }, a, O()); return ok && n == 1 && !opt::zip_with([](int, int) { return 1; }, a, O()););
    CE("zip_with reference", O a(1); auto r = opt::zip_with([](int& x) -> int& { return x; }, a); static_assert(std::is_same_v<decltype(r), opt::option<int&>>); return &*r == &*a;); CE("zip_with member function", opt::option<MemFn> m(std::in_place, 3); return *opt::zip_with(&MemFn::get, m, O(4)) == 7 && !opt::zip_with(&MemFn::get, m, O());); CE("zip_with members", MemFn f{3}; opt::option<MemFn&> p(f); return *opt::zip_with(&MemFn::get, p, O(5)) == 8 && &*opt::zip_with(&MemFn::x, p) == &f.x && *opt::zip_with(freef, O(4)) == 8;);
    CE("unzip forms", using P = opt::option<std::pair<int, long>>; P p(std::in_place, 1, 2L); const P c(std::in_place, 3, 4L); auto a = opt::unzip(p); auto b = opt::unzip(c); auto d = opt::unzip(static_cast<P&&>(p)); auto e = opt::unzip(static_cast<const P&&>(c)); auto f = opt::unzip(P()); return *a.first == 1 && *b.second == 4 && *d.first == 1 && *e.second == 4 && !f.first && !f.second;);
    CE("unzip tuple array", auto t = opt::unzip(opt::option<std::tuple<int, char, long>>(std::in_place, 1, 'b', 3L)); auto a = opt::unzip(opt::option<std::array<int, 3>>(std::in_place, std::array<int, 3>{4, 5, 6})); auto e = opt::unzip(opt::option<std::array<int, 2>>()); auto z = opt::unzip(opt::option<std::tuple<>>()); (void)z; return *std::get<0>(t) == 1 && *std::get<1>(t) == 'b' && *std::get<2>(t) == 3 && *a[0] == 4 && *a[2] == 6 && !e[0] && !e[1];);
    // combinators with callables that are not function objects, each value category
    CE("map member pointers", opt::option<MemFn> m(std::in_place, 3); const auto& c = m; MemFn f{6}; opt::option<MemFn&> r(f); const opt::option<const MemFn&> p(f); return &*m.map(&MemFn::x) == &m->x && &*c.map(&MemFn::x) == &m->x && &*p.map(&MemFn::x) == &f.x && &*r.map(&MemFn::x) == &f.x && &*m.map(&MemFn::ref) == &m->x && *r.and_then(&MemFn::half) == 3 && !m.and_then(&MemFn::half) && m.has_value_and(&MemFn::pos) && m.filter(&MemFn::pos) && m.map_or(-1, &MemFn::x) == 3 && m.map_or_else([] { return false; }, &MemFn::pos););
    CE("map functions", return *O(4).map(freef) == 8 && *O(4).map(&freef) == 8 && !O().map(freef) && O(3).map_or(1, freef) == 6 && O().map_or(1, freef) == 1;);
    CE("map category", O a(1); const O c(1); auto f = [](auto&& x) { return catof(static_cast<decltype(x)&&>(x)); }; return *a.map(f) == 0 && *c.map(f) == 1 && *static_cast<O&&>(a).map(f) == 2 && *static_cast<const O&&>(c).map(f) == 3;);
    CE("and_then category", O a(1); const O c(1); auto f = [](auto&& x) { return O(catof(static_cast<decltype(x)&&>(x))); }; return *a.and_then(f) == 0 && *c.and_then(f) == 1 && *static_cast<O&&>(a).and_then(f) == 2 && *static_cast<const O&&>(c).and_then(f) == 3;);
    CE("map_or category", O a(1); const O c(1); auto f = [](auto&& x) { return catof(static_cast<decltype(x)&&>(x)); }; auto d = [] { return 9; }; return a.map_or(9, f) == 0 && c.map_or(9, f) == 1 && static_cast<O&&>(a).map_or(9, f) == 2 && static_cast<const O&&>(c).map_or(9, f) == 3 && a.map_or_else(d, f) == 0 && c.map_or_else(d, f) == 1 && static_cast<O&&>(a).map_or_else(d, f) == 2 && static_cast<const O&&>(c).map_or_else(d, f) == 3;);
    CE("inspect category", O a(1); const O c(1); int n = 0; auto f = [&](auto&& x) { n = n * 10 + catof(static_cast<decltype(x)&&>(x)); }; a.inspect(f); c.inspect(f); static_cast<O&&>(a).inspect(f); static_cast<const O&&>(c).inspect(f); return n == 123;);
    CE("has_value_and category", O a(1); const O c(1); auto f = [](int k) { return [k](auto&& x) { return catof(static_cast<decltype(x)&&>(x)) == k; }; }; return a.has_value_and(f(0)) && c.has_value_and(f(1)) && static_cast<O&&>(a).has_value_and(f(2)) && static_cast<const O&&>(c).has_value_and(f(3)) && !O().has_value_and(f(2)););
    CE("filter forms", O a(4); const O c(4); auto y = [](const int& x) { return x == 4; }; auto n = [](const int& x) { return x != 4; }; return *a.filter(y) == 4 && *c.filter(y) == 4 && *static_cast<O&&>(a).filter(y) == 4 && *static_cast<const O&&>(c).filter(y) == 4 && !a.filter(n) && !c.filter(n) && !O(4).filter(n););
    CE("or_else forms", const O e; return *e.or_else([] { return O(5); }) == 5 && *O(4).or_else([] { return O(5); }) == 4 && !e.or_else([] { return O(); }) && *O().or_else([] { return O(6); }) == 6;);
    CE("take take_if", O a(4); auto t = a.take(); O b(5); auto u = b.take_if([](int& x) { return ++x == 6; }); O c(5); auto v = c.take_if([](int) { return false; }); return *t == 4 && !a && *u == 6 && !b && !v && *c == 5;);
    // access in every form
    CE("get category", O a(1); const O c(1); return catof(a.get()) == 0 && catof(c.get()) == 1 && catof(static_cast<O&&>(a).get()) == 2 && catof(static_cast<const O&&>(c).get()) == 3 && catof(*a) == 0 && catof(*c) == 1 && catof(*static_cast<O&&>(a)) == 2 && catof(*static_cast<const O&&>(c)) == 3 && catof(a.value()) == 0 && catof(static_cast<O&&>(a).value()) == 2 && catof(c.value()) == 1 && catof(static_cast<const O&&>(c).value()) == 3 && catof(a.value_or_throw()) == 0 && catof(c.value_or_throw()) == 1 && catof(static_cast<O&&>(a).value_or_throw()) == 2 && catof(static_cast<const O&&>(c).value_or_throw()) == 3 && catof(a.get_unchecked()) == 0 && catof(c.get_unchecked()) == 1 && catof(static_cast<O&&>(a).get_unchecked()) == 2 && catof(static_cast<const O&&>(c).get_unchecked()) == 3;);
    CE("arrow pointer", opt::option<Ag> a(Ag{1, 2}); const auto& c = a; a->a = 5; return c->a == 5 && a.operator->() == a.ptr_or_null() && c.ptr_or_null() == &c.get() && opt::option<Ag>().ptr_or_null() == nullptr && static_cast<const opt::option<Ag>&>(opt::option<Ag>()).ptr_or_null() == nullptr;);
    CE("value_or forms", const O e; O l(3); const int d = 4; return e.value_or(d) == 4 && O().value_or(5) == 5 && l.value_or(6) == 3 && static_cast<O&&>(l).value_or(6) == 3 && e.value_or('a') == 'a';);
    // iterators
    CE("iterator arithmetic", O a(4); auto b = a.begin(), e = a.end(); auto i = b; ++i; auto j = i--; auto k = b; k += 1; auto l = e; l -= 1; auto p = b++; const bool post = p == a.begin() && b == e; b = a.begin(); --e; const bool dec = e == b; e = a.end(); return post && dec && j == a.end() && i == b && k == e && l == b && b + 1 == e && 1 + b == e && e - 1 == b && DIFF(e, b, 1) && DIFF(b, e, -1) && b[0] == 4 && e[-1] == 4 && b < e && e > b && b <= e && e >= b && b != e && !(b == e) && b <= b && b >= b && *b == 4 && b.operator->() == &*a;);
    CE("iterator const", O a(4); const O& c = a; decltype(c.begin()) i = a.begin(); return i == c.begin() && &*i == &*a && DIFF(c.end(), c.begin(), 1);); CE("iterator empty", O a; const O c; auto b = a.begin(); b += 0; b -= 0; return a.begin() == a.end() && c.begin() == c.end() && a.end() - a.begin() == 0 && b + 0 == a.end() && b <= a.end() && b >= a.end() && !(b < a.end()) && !(b > a.end()););
    CE("iterator default", decltype(O().begin()) a{}, b{}; return a == b && !(a != b) && a - b == 0;); CE("iterator reference option", int v = 3; opt::option<int&> r(v); int n = 0; for (int& x : r) { ++x; ++n; } opt::option<int&> e; for (int& x : e) { ++x; ++n; } return v == 4 && n == 1;); CE("iterator write", O a(4); for (auto& x : a) x = 9; *a.begin() += 1; return *a == 10;);
    // operators against every kind of operand
    CE("compare mixed", O a(3); opt::option<long> b(3), n; return a == b && !(a != b) && a <= b && a >= b && !(a < b) && !(a > b) && a != n && a > n && n < a && n <= a && a >= n && a == 3L && 3L == a && a != 4L && 2 < a && a < 4 && 3 <= a && a <= 3 && a > 2 && 4 > a && a >= 3 && 3 >= a;);
    CE("compare none", O a(3), e; return a != opt::none && e == opt::none && opt::none == e && opt::none != a && opt::none < a && a > opt::none && !(e < opt::none) && !(e > opt::none) && e <= opt::none && e >= opt::none && opt::none <= e && opt::none >= e && !(opt::none < e) && !(opt::none > e) && opt::none <= a && !(opt::none >= a) && !(a <= opt::none) && a >= opt::none;);
    CE("or forms", O a(3); const O c(4), e; return *(a | c) == 3 && *(e | c) == 4 && (e | 5) == 5 && (a | 5) == 3 && (O() | 6) == 6 && *(O() | c) == 4 && *(e | O(7)) == 7 && *(O() | O(8)) == 8 && !(e | e););
    CE("and forms", O a(3); const O e; return *(a & opt::option<long>(4)) == 4 && !(e & opt::option<long>(4)) && !(a & opt::option<long>()) && *(a & a) == 3;); CE("xor forms", O a(3); const O c(4), e; return *(a ^ e) == 3 && *(e ^ c) == 4 && !(a ^ c) && !(e ^ e) && *(O(5) ^ e) == 5 && *(e ^ O(6)) == 6 && *(O() ^ O(7)) == 7 && !(O(1) ^ O(2)););
#if CX20
    CE("or assign", O a, b(3); const O c(4); a |= c; b |= 9; O d; d |= 5; O f; f |= O(6); O g(1); g |= opt::none; O h; h |= opt::none; return *a == 4 && *b == 3 && *d == 5 && *f == 6 && *g == 1 && !h;);
    CE("converting", O a(3); opt::option<long> b(a), c(O(4)), d; d = a; d = O(5); d = short(6); opt::option<long> e(opt::option<short>{}); e = O(); return *b == 3 && *c == 4 && *d == 6 && !e;);
    CE("swap forms", O a(1), b; a.swap(b); opt::swap(a, b); using opt::swap; swap(a, b); O c(3), d(4); d.swap(c); return !a && *b == 1 && *c == 4 && *d == 3;);
    CE("reset and refill", O a(1); a.reset(); a = 2; a = opt::none; a.emplace(3); const int x = *a; a = {}; const int y = *a; a.reset(); a.try_emplace(4); a.try_emplace(5); return x == 3 && y == 0 && *a == 4;);
#endif
    // references
    CE("reference forms", int x = 1, y = 2; opt::option<int&> r(x), e; e = y; r = e; r.emplace(x); opt::option<const int&> c(r); auto m = r.map([](int& v) -> int& { return ++v; }); auto t = e.take(); opt::option<int&> z(opt::none); return &*c == &x && &*m == &x && x == 2 && &*t == &y && !e && !z && r.value_or(y) == 2 && &r.get() == &x && r.operator->() == &x && r == 2 && r != t.filter([](int) { return false; }););
    CE("rvalue reference", int x = 1; opt::option<int&&> r(static_cast<int&&>(x)); auto t = r.take(); return t.ptr_or_null() == &x && !r && catof(t.get()) == 0 && catof(static_cast<opt::option<int&&>&&>(t).get()) == 2;);
    CE("const object", const O a(3); constexpr O b(4), e; const opt::option<const int> k(5); return a && !e && *b == 4 && b.value_or(1) == 4 && e.value_or(1) == 1 && *k == 5 && b.map([](int v) { return v + 1; }) == 5 && *opt::zip_with([](int v, int w) { return v + w; }, a, b) == 7;);
    CE("deduction", opt::option a{3}; auto b = opt::option{4L}; opt::option c{a}; static_assert(std::is_same_v<decltype(a), O> && std::is_same_v<decltype(b), opt::option<long>> && std::is_same_v<decltype(c), O>); return *c == 3 && *b == 4;);
    CE("map to immovable", struct Im { int v; constexpr explicit Im(int x) : v(x) {} Im(const Im&) = delete; Im& operator=(const Im&) = delete; }; auto r = O(3).map([](int x) { return Im(x); }); return r->v == 3;);
    // own empty states in constant evaluation: values go in, come out, and the reserved ones read as empty
    CE("sentinel", opt::option<opt::sentinel<int, -1, -2>> a(5); opt::option<opt::sentinel<int, -1>> b(std::in_place, 6); const int v = *a; return v == 5 && int(*b) == 6 && *a == 5;);
}
#endif
} // namespace
int main(int argc, char** argv) {
    mon::init(argc, argv);
#if GROUP == 0
    EACH(RUN, int, 60); EACH(RUN, unsigned char, 60); EACH(RUN, long long, 60); EACH(REFS, int, 60);
#elif GROUP == 1
    EACH(RUN, Pt, 60); EACH(RUN, NoDefault, 60); EACH(RUN, short, 60); EACH(REFS, Pt, 60); EACH(REFS, NoDefault, 60);
#elif GROUP == 2
    EACH(RUN, Ctor, 60); EACH(REFS, Ctor, 60);
#if CX20
    using PIL = std::pair<int, long>; EACH(RUN, PIL, 60); using TIC = std::tuple<int, short>; EACH(RUN, TIC, 60); using A3 = std::array<int, 3>; EACH(RUN, A3, 60);
#endif
#elif GROUP == 3 && CX20
    EACH(RUN, Box, 60); EACH(RUN, Dtor, 60); EACH(REFS, Box, 60);
#endif
#if GROUP == 4
    EACH(RUN, Sent, 60); EACH(RUN, MyP, 60); EACH(RUN, Self, 60); EACH(RUN, Mem, 60); EACH(REFS, Sent, 60); EACH(REFS, MyP, 60);
#endif
#if GROUP == 5
    interface_forms();
#endif
    return mon::finish();
}
