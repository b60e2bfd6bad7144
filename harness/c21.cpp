// C21: an option's special members mirror those of its element; bytes of a trivially copyable option are its state.
#ifndef GROUP
#define GROUP 0
#endif
#include <array>
#include <cstring>
#include <functional>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>
#if GROUP >= 6
#include "types.hpp"
#else
#include <opt/option.hpp>
#include "mon.hpp"
#endif
namespace {
std::string g_name;
// ---- A: every combination of special members
struct Ev { int cc = 0, mc = 0, ca = 0, ma = 0, d = 0; } g_ev;
template<int D> struct Dt { }; // 1: trivial
template<> struct Dt<2> { Dt() = default; Dt(const Dt&) = default; Dt(Dt&&) = default; Dt& operator=(const Dt&) = default; Dt& operator=(Dt&&) = default; ~Dt() { ++g_ev.d; } };
template<> struct Dt<3> { Dt() = default; Dt(const Dt&) = default; Dt(Dt&&) = default; Dt& operator=(const Dt&) = default; Dt& operator=(Dt&&) = default; ~Dt() noexcept(false) { ++g_ev.d; } };
#define CC_0(N) N(const N&) = delete;
#define CC_1(N) N(const N&) = default;
#define CC_2(N) N(const N& o) noexcept : Dt<D>(), v(o.v) { ++g_ev.cc; }
#define CC_3(N) N(const N& o) : Dt<D>(), v(o.v) { ++g_ev.cc; }
#define MC_0(N) N(N&&) = delete;
#define MC_1(N) N(N&&) = default;
#define MC_2(N) N(N&& o) noexcept : Dt<D>(), v(o.v) { ++g_ev.mc; }
#define MC_3(N) N(N&& o) : Dt<D>(), v(o.v) { ++g_ev.mc; }
#define CA_0(N) N& operator=(const N&) = delete;
#define CA_1(N) N& operator=(const N&) = default;
#define CA_2(N) N& operator=(const N& o) noexcept { v = o.v; ++g_ev.ca; return *this; }
#define CA_3(N) N& operator=(const N& o) { v = o.v; ++g_ev.ca; return *this; }
#define MA_0(N) N& operator=(N&&) = delete;
#define MA_1(N) N& operator=(N&&) = default;
#define MA_2(N) N& operator=(N&& o) noexcept { v = o.v; ++g_ev.ma; return *this; }
#define MA_3(N) N& operator=(N&& o) { v = o.v; ++g_ev.ma; return *this; }
#define SM(cc, mc, ca, ma) template<int D, bool L> struct E##cc##mc##ca##ma : Dt<D> { static constexpr bool levels = L; static constexpr int kinds = cc * 1000 + mc * 100 + ca * 10 + ma, dtor = D; int v; explicit E##cc##mc##ca##ma(int x) : v(x) {} CC_##cc(E##cc##mc##ca##ma) MC_##mc(E##cc##mc##ca##ma) CA_##ca(E##cc##mc##ca##ma) MA_##ma(E##cc##mc##ca##ma) };
#define SM1(cc, mc, ca) SM(cc, mc, ca, 0) SM(cc, mc, ca, 1) SM(cc, mc, ca, 2) SM(cc, mc, ca, 3)
#define SM2(cc, mc) SM1(cc, mc, 0) SM1(cc, mc, 1) SM1(cc, mc, 2) SM1(cc, mc, 3)
#define SM3(cc) SM2(cc, 0) SM2(cc, 1) SM2(cc, 2) SM2(cc, 3)
#if GROUP < 4
#if GROUP == 0
SM3(0)
#elif GROUP == 1
SM3(1)
#elif GROUP == 2
SM3(2)
#else
SM3(3)
#endif
#endif
} // namespace
template<class T> struct opt::option_traits<T, std::enable_if_t<T::levels>> {
    static constexpr std::uintmax_t max_level = 5;
    static std::uintmax_t get_level(const T* p) noexcept { return p->v < 0 && p->v >= -5 ? static_cast<std::uintmax_t>(p->v + 5) : std::uintmax_t(-1); }
    static void set_level(T* p, std::uintmax_t l) noexcept { p->v = static_cast<int>(l) - 5; }
};
namespace {
// with clang the destructor of an option of a type with a throwing destructor is not noexcept (known finding; GCC makes it noexcept)
#if defined(__clang__)
#define SAMED(a, what) do { const bool x_ = (a); mon::st().evaluations++; if (!x_) { if (!std::is_nothrow_destructible_v<T>) mon::violation("C21-throwing-destructor-clang", "%s: %s of option<T> is 0, expected 1", g_name.c_str(), what); else mon::violation("C21-members/" what, "%s: %s of option<T> is 0, expected 1", g_name.c_str(), what); } } while (0)
#else
#define SAMED(a, what) SAME(a, true, what)
#endif
#define SAME(a, b, what) do { const bool x_ = (a), y_ = (b); mon::st().evaluations++; mon::seen(mon::mix(mon::hash_str(what), mon::mix(key, static_cast<std::uint64_t>(y_)))); if (x_ != y_) mon::violation("C21-members/" what, "%s: %s of option<T> is %d, expected %d", g_name.c_str(), what, x_, y_); } while (0)
template<class T, class O> void traits(std::uint64_t key) {
    constexpr bool cc = std::is_copy_constructible_v<T>, mc = std::is_move_constructible_v<T>, ca = cc && std::is_copy_assignable_v<T>, ma = mc && std::is_move_assignable_v<T>;
    constexpr bool tcc = std::is_trivially_copy_constructible_v<T>, tmc = std::is_trivially_move_constructible_v<T>, td = std::is_trivially_destructible_v<T>, tca = ca && tcc && td && std::is_trivially_copy_assignable_v<T>, tma = ma && tmc && td && std::is_trivially_move_assignable_v<T>;
    SAME(std::is_copy_constructible_v<O>, cc, "is_copy_constructible"); if (mc || !cc) SAME(std::is_move_constructible_v<O>, mc, "is_move_constructible"); SAME(std::is_copy_assignable_v<O>, ca, "is_copy_assignable"); if (ma || !ca) SAME(std::is_move_assignable_v<O>, ma, "is_move_assignable"); // a deleted move of a copyable type leaves the copy to be chosen
    SAME(std::is_nothrow_copy_constructible_v<O>, std::is_nothrow_copy_constructible_v<T>, "is_nothrow_copy_constructible"); if (mc || !cc) SAME(std::is_nothrow_move_constructible_v<O>, std::is_nothrow_move_constructible_v<T>, "is_nothrow_move_constructible");
    SAME(std::is_nothrow_copy_assignable_v<O>, ca && std::is_nothrow_copy_assignable_v<T> && std::is_nothrow_copy_constructible_v<T>, "is_nothrow_copy_assignable"); if (ma || !ca) SAME(std::is_nothrow_move_assignable_v<O>, ma && std::is_nothrow_move_assignable_v<T> && std::is_nothrow_move_constructible_v<T>, "is_nothrow_move_assignable");
    SAME(std::is_trivially_copy_constructible_v<O>, tcc, "is_trivially_copy_constructible"); if (mc || !cc) SAME(std::is_trivially_move_constructible_v<O>, tmc, "is_trivially_move_constructible"); SAME(std::is_trivially_copy_assignable_v<O>, tca, "is_trivially_copy_assignable"); if (ma || !ca) SAME(std::is_trivially_move_assignable_v<O>, tma, "is_trivially_move_assignable");
    SAME(std::is_trivially_destructible_v<O>, td, "is_trivially_destructible"); SAMED(std::is_nothrow_destructible_v<O>, "is_nothrow_destructible"); SAMED(std::is_nothrow_default_constructible_v<O>, "is_nothrow_default_constructible"); SAMED((std::is_nothrow_constructible_v<O, opt::none_t>), "is_nothrow_constructible from none"); SAME((std::is_nothrow_assignable_v<O&, opt::none_t>), true, "is_nothrow_assignable from none"); SAME((std::is_convertible_v<opt::none_t, O>), true, "is_convertible from none");
    if (tcc && tmc && tca && tma) SAME(std::is_trivially_copyable_v<O>, true, "is_trivially_copyable"); if (!td || (cc && !tcc) || (mc && !tmc) || (ca && !tca) || (ma && !tma)) SAME(std::is_trivially_copyable_v<O>, false, "is_trivially_copyable");
    if ((mc || !cc) && (ma || !ca)) SAME(std::is_swappable_v<O>, std::is_move_constructible_v<T> && (std::is_swappable_v<T> || (mc && ma)), "is_swappable");
    if constexpr (std::is_swappable_v<T> && std::is_move_constructible_v<T>) { SAME(noexcept(std::declval<O&>().swap(std::declval<O&>())), std::is_nothrow_move_constructible_v<T> && std::is_nothrow_swappable_v<T>, "noexcept of swap"); SAME(noexcept(opt::swap(std::declval<O&>(), std::declval<O&>())), std::is_nothrow_move_constructible_v<T> && std::is_nothrow_swappable_v<T>, "noexcept of opt::swap"); }
}
#define EVENTS(what, ecc, emc, eca, ema, ed) MCHECK(g_ev.cc == ((ecc) ? ucc : 0) && g_ev.mc == ((emc) ? umc : 0) && g_ev.ca == ((eca) ? uca : 0) && g_ev.ma == ((ema) ? uma : 0) && (!ud || g_ev.d == (ed)), "C21-events", "%s, %s: copies %d, moves %d, copy assignments %d, move assignments %d, destructions %d", g_name.c_str(), what, g_ev.cc, g_ev.mc, g_ev.ca, g_ev.ma, g_ev.d)
#define STATE(o, h, x, what) MCHECK((o).has_value() == (h) && (!(h) || (o)->v == (x)), "C21-state", "%s, %s: has_value %d", g_name.c_str(), what, (o).has_value())
// the option uses the element's own members, and no other
template<class T> void behaviour(std::uint64_t key) {
    using O = opt::option<T>; constexpr bool cc = std::is_copy_constructible_v<T>, mc = std::is_move_constructible_v<T>, ca = cc && std::is_copy_assignable_v<T>, ma = mc && std::is_move_assignable_v<T>;
    const int ucc = T::kinds / 1000 > 1, umc = T::kinds / 100 % 10 > 1, uca = T::kinds / 10 % 10 > 1, uma = T::kinds % 10 > 1, ud = T::dtor > 1;
    for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) {
        mon::context("%s, states %d %d", g_name.c_str(), a, b); mon::seen(mon::mix(key, static_cast<std::uint64_t>(a * 2 + b)));
        if constexpr (cc) if (b == 0) { O s; if (a) s.emplace(41); g_ev = {}; { O c(std::as_const(s)); STATE(c, a == 1, 41, "copy construction"); EVENTS("copy construction", a, 0, 0, 0, 0); } STATE(s, a == 1, 41, "source of copy construction"); EVENTS("copy construction and destruction", a, 0, 0, 0, a); }
        if constexpr (mc) if (b == 0) { O s; if (a) s.emplace(42); g_ev = {}; { O c(std::move(s)); STATE(c, a == 1, 42, "move construction"); EVENTS("move construction", 0, a, 0, 0, 0); } STATE(s, a == 1, 42, "source of move construction"); }
        if constexpr (ca) { O s, t; if (a) s.emplace(43); if (b) t.emplace(44); g_ev = {}; t = std::as_const(s); STATE(t, a == 1, 43, "copy assignment"); STATE(s, a == 1, 43, "source of copy assignment"); EVENTS("copy assignment", a && !b, 0, a && b, 0, !a && b); }
        if constexpr (ma) { O s, t; if (a) s.emplace(45); if (b) t.emplace(46); g_ev = {}; t = std::move(s); STATE(t, a == 1, 45, "move assignment"); STATE(s, a == 1, 45, "source of move assignment"); EVENTS("move assignment", 0, a && !b, 0, a && b, !a && b); }
        if (b == 0) { g_ev = {}; { O s; if (a) s.emplace(47); STATE(s, a == 1, 47, "construction"); s.reset(); STATE(s, false, 0, "reset"); } EVENTS("reset and destruction", 0, 0, 0, 0, a); }
        if constexpr (mc) if (b == 0) { O s; if (a) s.emplace(48); g_ev = {}; { O t = s.take(); STATE(t, a == 1, 48, "take"); STATE(s, false, 0, "source of take"); MCHECK(g_ev.cc == 0 && g_ev.ca == 0, "C21-events", "%s, take: copies %d, copy assignments %d", g_name.c_str(), g_ev.cc, g_ev.ca); } }
        if constexpr (std::is_trivially_copyable_v<O>) { // bytes are state
            alignas(O) unsigned char m1[sizeof(O)], m2[sizeof(O)]; O* x = ::new (static_cast<void*>(m1)) O; O* y = ::new (static_cast<void*>(m2)) O; if (a) x->emplace(49); if (b) y->emplace(50); std::memcpy(m2, m1, sizeof(O)); STATE(*y, a == 1, 49, "byte copy"); std::memmove(m1, m2, sizeof(O)); STATE(*x, a == 1, 49, "byte copy"); }
    }
}
template<class T> void both() {
    char b[64]; std::snprintf(b, sizeof b, "copy/move/copy=/move= %04d, destructor %d, levels %d", T::kinds, T::dtor, T::levels); const std::uint64_t key = mon::mix(static_cast<std::uint64_t>(T::kinds), static_cast<std::uint64_t>(T::dtor * 2 + T::levels));
    g_name = b; traits<T, opt::option<T>>(key); behaviour<T>(key); mon::count("element types");
    if constexpr (T::dtor != 3 && T::kinds % 3 == 0 && (T::kinds < 1000 || T::kinds / 100 % 10 != 0) && (T::kinds / 10 % 10 == 0 || T::kinds % 10 != 0)) { g_name = std::string(b) + ", nested"; traits<opt::option<T>, opt::option<opt::option<T>>>(key + 1); mon::count("nested options"); }
}
template<template<int, bool> class E> void all() { both<E<1, false>>(); both<E<2, false>>(); both<E<3, false>>(); both<E<1, true>>(); both<E<2, true>>(); both<E<3, true>>(); }
#undef SM
#define SM(cc, mc, ca, ma) all<E##cc##mc##ca##ma>();

#if GROUP == 4 || GROUP == 5
// ---- B: conversions
template<class... Ts> struct list {};
struct Src { int v = 1; }; struct ToInt { operator int() const { return 3; } }; struct ToIntX { explicit operator int() const { return 3; } }; struct ToIntRv { operator int() && { return 3; } };
struct Imp { int v; Imp(int x) : v(x) {} }; struct Exp { int v; explicit Exp(int x) : v(x) {} };
struct AnyT { template<class U, std::enable_if_t<!std::is_same_v<std::decay_t<U>, AnyT>, int> = 0> AnyT(U&&) {} };
struct AnyX { template<class U, std::enable_if_t<!std::is_same_v<std::decay_t<U>, AnyX>, int> = 0> explicit AnyX(U&&) {} };
struct RvOnly { RvOnly(Src&&) {} }; struct LvOnly { LvOnly(Src&) {} }; struct ClOnly { ClOnly(const Src&) {} ClOnly(Src&&) = delete; };
struct FromOpt { FromOpt(const opt::option<int>&) {} FromOpt(int) {} }; struct FromOptX { explicit FromOptX(opt::option<Src>&&) {} FromOptX(Src) {} };
struct Agg { int a; long b; }; struct NoAssign { NoAssign(Src) {} NoAssign(const NoAssign&) = default; NoAssign& operator=(const NoAssign&) = default; template<class U, std::enable_if_t<std::is_same_v<U, Src>, int> = 0> NoAssign& operator=(U) = delete; };
struct AssignOpt { AssignOpt(Src) {} AssignOpt& operator=(Src) { return *this; } AssignOpt& operator=(opt::option<Src>) { return *this; } AssignOpt(const AssignOpt&) = default; AssignOpt& operator=(const AssignOpt&) = default; };
struct Base { virtual ~Base() = default; int v = 0; }; struct Derived : Base {}; struct PrivDerived : private Base {}; enum class Ec { a, b }; enum Ep { pa, pb };
struct Fixed { const int v; Fixed(int x) : v(x) {} };
template<class T> struct is_opt : std::false_type { using of = void; }; template<class T> struct is_opt<opt::option<T>> : std::true_type { using of = T; };
template<bool, class T, class, class... X> struct list_init_ : std::false_type {}; template<class T, class... X> struct list_init_<true, T, decltype(T{std::declval<X>()...}, void()), X...> : std::true_type {};
template<class T, class V, class... X> struct list_init : list_init_<std::is_aggregate_v<T>, T, V, X...> {};
template<class T, class X> constexpr bool init = std::is_constructible_v<T, X>
#if __cplusplus < 202002L
    || (std::is_aggregate_v<T> && list_init<T, void, X>::value)
#endif
    ;
template<class T, class U> constexpr bool ctor_from = std::is_constructible_v<T, opt::option<U>&> || std::is_constructible_v<T, const opt::option<U>&> || std::is_constructible_v<T, opt::option<U>> || std::is_constructible_v<T, const opt::option<U>> || std::is_convertible_v<opt::option<U>&, T> || std::is_convertible_v<const opt::option<U>&, T> || std::is_convertible_v<opt::option<U>, T> || std::is_convertible_v<const opt::option<U>, T>;
template<class T, class U> constexpr bool assign_from = std::is_assignable_v<T&, opt::option<U>&> || std::is_assignable_v<T&, const opt::option<U>&> || std::is_assignable_v<T&, opt::option<U>> || std::is_assignable_v<T&, const opt::option<U>>;
template<class X> std::string type_name() { std::string f = __PRETTY_FUNCTION__; auto i = f.find("X = "); auto e = f.find_first_of(";]", i); return f.substr(i + 4, e - i - 4); }
#define CONV(a, b, what) do { const bool x_ = (a), y_ = (b); mon::st().evaluations++; mon::seen(mon::mix(mon::hash_str(what), mon::mix(mon::hash_str(tn.c_str()), mon::hash_str(xn.c_str())))); mon::count(y_ ? what " (expected yes)" : what " (expected no)"); if (x_ != y_) mon::violation("C21-conversion/" what, "option<%s> from %s: %s is %d, expected %d", tn.c_str(), xn.c_str(), what, x_, y_); } while (0)
// X: a type with reference and const as std::is_constructible takes it
template<class T, class X> void value_conversions() {
    using B = std::remove_cv_t<std::remove_reference_t<X>>; using O = opt::option<T>; static const std::string tn = type_name<T>(), xn = type_name<X>();
    if constexpr (std::is_same_v<B, O>) return; else {
        using U = typename is_opt<B>::of; constexpr bool boolean = std::is_same_v<std::remove_cv_t<T>, bool>;
        bool c_exp = false, c_imp = false, a = false; // an explicit, an implicit constructor, an assignment
        if constexpr (!is_opt<B>::value || !boolean) { constexpr bool i = init<T, X>; c_imp = i && std::is_convertible_v<X, T>; c_exp = i && !c_imp; a = i && std::is_assignable_v<T&, X>; }
        else a = init<T, X> && std::is_assignable_v<T&, X>;
        if constexpr (is_opt<B>::value) {
            if constexpr (!std::is_same_v<T, U>) {
                constexpr bool open = boolean || !ctor_from<T, U>, aopen = !ctor_from<T, U> && !assign_from<T, U>;
                auto path = [&](auto id) { using Q = typename decltype(id)::type; if constexpr (init<T, Q>) { if (open) { if (std::is_convertible_v<Q, T>) c_imp = true; else c_exp = true; } if (aopen && std::is_assignable_v<T&, Q>) a = true; } };
                struct L { using type = const U&; }; struct R { using type = U&&; };
                path(L{}); if constexpr (!std::is_lvalue_reference_v<X> && !std::is_const_v<std::remove_reference_t<X>>) path(R{});
            }
        }
        CONV((std::is_constructible_v<O, X>), c_imp || c_exp, "constructible");
        CONV((std::is_convertible_v<X, O>), c_imp, "convertible");
        CONV((std::is_assignable_v<O&, X>), a || (c_imp && (std::is_copy_assignable_v<O> || std::is_move_assignable_v<O>)), "assignable");
    }
}
template<class T, class U> void value_forms() {
    value_conversions<T, U&>(); value_conversions<T, const U&>(); value_conversions<T, U>(); value_conversions<T, const U>();
    if constexpr (!std::is_same_v<U, T>) { using P = opt::option<U>; value_conversions<T, P&>(); value_conversions<T, const P&>(); value_conversions<T, P>(); value_conversions<T, const P>(); }
}
template<class T, class... U> void value_row(list<U...>) { (value_forms<T, U>(), ...); mon::count("target types"); }
template<class... T, class L> void value_matrix(list<T...>, L l) { (value_row<T>(l), ...); }
// references
template<class T, class Y> constexpr bool can_bind = std::is_same_v<std::remove_reference_t<Y>, std::reference_wrapper<std::remove_const_t<std::remove_reference_t<T>>>> || std::is_same_v<std::remove_reference_t<Y>, std::reference_wrapper<std::remove_reference_t<T>>>
    || (std::is_convertible_v<std::remove_reference_t<Y>*, std::remove_reference_t<T>*> && std::is_lvalue_reference_v<T> == std::is_lvalue_reference_v<Y>);
template<class T, class X> void ref_conversions() { // X&& deduced from an expression: U& for lvalues, U for rvalues
    using B = std::remove_cv_t<std::remove_reference_t<X>>; using O = opt::option<T>; static const std::string tn = type_name<T>(), xn = type_name<X>();
    if constexpr (!is_opt<B>::value) { constexpr bool b = can_bind<T, X>; CONV((std::is_constructible_v<O, X>), b, "constructible"); CONV((std::is_convertible_v<X, O>), b, "convertible"); CONV((std::is_assignable_v<O&, X>), b, "assignable"); }
    else if constexpr (!std::is_same_v<B, O>) { using U = typename is_opt<B>::of; constexpr bool b = can_bind<T, U>; CONV((std::is_constructible_v<O, X>), b, "constructible"); CONV((std::is_convertible_v<X, O>), b, "convertible"); CONV((std::is_assignable_v<O&, X>), b, "assignable"); }
}
template<class T, class U> void ref_forms() {
    ref_conversions<T, U&>(); ref_conversions<T, const U&>(); ref_conversions<T, U>(); ref_conversions<T, const U>();
    auto opts = [](auto id) { using R = typename decltype(id)::type; using P = opt::option<R>; if constexpr (!std::is_same_v<R, T>) { ref_conversions<T, P&>(); ref_conversions<T, const P&>(); ref_conversions<T, P>(); ref_conversions<T, const P>(); } };
    struct L { using type = U&; }; struct CL { using type = const U&; }; struct R { using type = U&&; }; opts(L{}); opts(CL{}); opts(R{});
}
template<class T, class... U> void ref_row(list<U...>) { (ref_forms<T, U>(), ...); mon::count("referent types"); }
template<class... T, class L> void ref_matrix(list<T...>, L l) { (ref_row<T>(l), ...); }
// an option of a reference is as trivial as a pointer
template<class T> void ref_members() { using O = opt::option<T>; g_name = "reference option of " + type_name<T>(); const std::uint64_t key = mon::hash_str(g_name.c_str());
    SAME(std::is_trivially_copyable_v<O>, true, "is_trivially_copyable"); SAME(std::is_trivially_copy_constructible_v<O>, true, "is_trivially_copy_constructible"); SAME(std::is_trivially_move_constructible_v<O>, true, "is_trivially_move_constructible"); SAME(std::is_trivially_copy_assignable_v<O>, true, "is_trivially_copy_assignable"); SAME(std::is_trivially_move_assignable_v<O>, true, "is_trivially_move_assignable"); SAME(std::is_trivially_destructible_v<O>, true, "is_trivially_destructible"); SAME(std::is_nothrow_copy_assignable_v<O>, true, "is_nothrow_copy_assignable"); SAME(sizeof(O) == sizeof(void*), true, "size of a pointer"); }
#endif
#if GROUP >= 6
// ---- C: bytes are state, at any depth
using namespace ty;
template<class T, int D> struct nest { using type = opt::option<typename nest<T, D - 1>::type>; }; template<class T> struct nest<T, 0> { using type = T; }; template<class T, int D> using nest_t = typename nest<T, D>::type;
// the state as a number: how deep it holds, and the value
template<class E, int D, class O> int state(const O& o) { if constexpr (D == 0) return 1000 + Ad<E>::id(o); else if constexpr (D == 1) return o.has_value() ? state<E, 0>(*o) : 0; else { if (!o.has_value()) return 0; const int s = state<E, D - 1>(*o); return s >= 1000 ? s : 1 + s; } }
template<class E, int D, class O> void put(O& o, int depth, int id) { if constexpr (D == 1) { if (depth >= 1) o.emplace(Ad<E>::make(id)); else o.reset(); } else { if (depth == 0) { o.reset(); return; } o.emplace(); put<E, D - 1>(*o, depth - 1, id); } }
template<class E, int D> void bytes(int n) {
    using O = nest_t<E, D>; const auto st = [](const O& o) { return state<E, D>(o); }; char nm[96]; std::snprintf(nm, sizeof nm, "%s depth %d", Ad<E>::name, D); g_name = nm; const std::uint64_t key = mon::mix(mon::hash_str(nm), sizeof(E));
    constexpr bool all = std::is_trivially_copy_constructible_v<E> && std::is_trivially_move_constructible_v<E> && std::is_trivially_copy_assignable_v<E> && std::is_trivially_move_assignable_v<E> && std::is_trivially_destructible_v<E>;
    if (all) { MCHECK(std::is_trivially_copyable_v<O>, "C21-trivial", "the option of %s is not trivially copyable", nm); }
    MCHECK(std::is_trivially_destructible_v<O> == std::is_trivially_destructible_v<E> && std::is_trivially_copy_constructible_v<O> == std::is_trivially_copy_constructible_v<E>, "C21-trivial", "the option of %s is not as trivial as its element", nm);
    if constexpr (std::is_trivially_copyable_v<O>) {
        mon::count("trivially copyable options"); mon::Rng r(mon::mix(mon::st().seed, key)); O a[4], b[4];
        for (int k = 0; k < n; ++k) {
            const int i = static_cast<int>(r.below(4)), j = static_cast<int>(r.below(4)), d = static_cast<int>(r.below(D + 1)), id = static_cast<int>(r.below(static_cast<unsigned>(Ad<E>::N))); mon::context("%s: depth %d, value %d", nm, d, id);
            put<E, D>(a[i], d, id); const int sa = st(a[i]); MCHECK(sa == d || (d == D && sa >= 1000), "C21-bytes", "%s: state %d after emplacing %d", nm, sa, d);
            std::memcpy(static_cast<void*>(b + j), static_cast<const void*>(a + i), sizeof(O)); MCHECK(st(b[j]) == sa && st(a[i]) == sa, "C21-bytes", "%s: the bytes of state %d copied elsewhere are state %d", nm, sa, st(b[j]));
            { alignas(O) unsigned char raw[sizeof(O) + 16]; std::memset(raw, r.chance(1, 2) ? 0xFF : 0x5A, sizeof raw); std::memcpy(raw, static_cast<const void*>(a + i), sizeof(O)); O c; std::memcpy(static_cast<void*>(&c), raw, sizeof(O)); MCHECK(st(c) == sa, "C21-bytes", "%s: state %d through a buffer is %d", nm, sa, st(c)); c = b[j]; MCHECK(st(c) == sa, "C21-bytes", "%s: assignment of a byte copy", nm); }
            if (k % 16 == 0) { int all4[4]; for (int q = 0; q < 4; ++q) all4[q] = st(a[q]); std::memmove(static_cast<void*>(b), static_cast<const void*>(a), sizeof a); for (int q = 0; q < 4; ++q) MCHECK(st(b[q]) == all4[q], "C21-bytes", "%s: byte copy of an array", nm); std::vector<O> v(a, a + 4); v.insert(v.begin(), b[0]); v.reserve(64); for (int q = 0; q < 4; ++q) MCHECK(st(v[static_cast<std::size_t>(q) + 1]) == all4[q], "C21-bytes", "%s: vector of options", nm); }
            mon::seen(mon::mix(key, static_cast<std::uint64_t>(d * 64 + (d == D ? id % 64 : 0))));
        }
    }
}
template<class E> void depths(int n) { bytes<E, 1>(n); bytes<E, 2>(n); bytes<E, 3>(n); bytes<E, 5>(n); }
#endif

} // namespace
#if GROUP == 4
// swap between options of two types: what noexcept promises, and what happens when a step throws all the same
int g_throw = 0; // 1: moves, 2: swaps
template<int F, bool NM, bool NS> struct Mx { int v; explicit Mx(int x) : v(x) {}
    Mx(const Mx& o) noexcept(NM) : v(o.v) { if (!NM && g_throw == 1) throw 1; } Mx(Mx&& o) noexcept(NM) : v(o.v) { if (!NM && g_throw == 1) throw 1; } Mx& operator=(const Mx&) = default;
    template<bool NM2, bool NS2> explicit Mx(Mx<1 - F, NM2, NS2>&& o) noexcept(NM && NM2) : v(o.v) { if (!(NM && NM2) && g_throw == 1) throw 2; } };
template<int F, bool A, bool B> void swap(Mx<F, A, B>& a, Mx<F, A, B>& b) noexcept(B) { if (!B && g_throw == 2) throw 3; const int t = a.v; a.v = b.v; b.v = t; }
template<int F, int G, bool A, bool B, bool C, bool D, std::enable_if_t<F != G, int> = 0> void swap(Mx<F, A, B>& a, Mx<G, C, D>& b) noexcept(B && D) { if (!(B && D) && g_throw == 2) throw 3; const int t = a.v; a.v = b.v; b.v = t; }
template<class T, class U> void mixed_swap(bool nothrow, const char* name) {
    using O = opt::option<T>; using P = opt::option<U>; const std::uint64_t key = mon::hash_str(name); g_name = name;
    SAME(noexcept(std::declval<O&>().swap(std::declval<P&>())), nothrow, "noexcept of swap with an option of another type"); SAME(noexcept(opt::swap(std::declval<O&>(), std::declval<P&>())), nothrow, "noexcept of opt::swap with an option of another type");
    for (int t = 0; t < 3; ++t) for (int h = 0; h < 4; ++h) for (int how = 0; how < 2; ++how) {
        mon::context("%s, states %d, throwing %d", name, h, t); O x; P y; if (h & 1) x.emplace(1); if (h & 2) y.emplace(2); bool threw = false;
        g_throw = nothrow ? 0 : t; try { if (how) opt::swap(x, y); else x.swap(y); } catch (int) { threw = true; } g_throw = 0;
        if (threw) { MCHECK(t != 0 && !nothrow && x.has_value() == bool(h & 1) && y.has_value() == bool(h & 2) && (!(h & 1) || x->v == 1) && (!(h & 2) || y->v == 2), "C21-swap-throw", "%s: after a throwing swap the states are %d %d", name, x.has_value(), y.has_value()); }
        else { MCHECK(x.has_value() == bool(h & 2) && y.has_value() == bool(h & 1) && (!(h & 2) || x->v == 2) && (!(h & 1) || y->v == 1), "C21-swap-mixed", "%s: swap of states %d gave %d %d", name, h, x.has_value(), y.has_value()); }
        mon::seen(mon::mix(key, static_cast<std::uint64_t>(t * 8 + h * 2 + how)));
    }
}
template<int A, int B> void mixed_pairs() {
    constexpr bool an = A & 1, as = A & 2, bn = B & 1, bs = B & 2; char n[96]; std::snprintf(n, sizeof n, "swap of types with nothrow moves %d %d and nothrow swaps %d %d", an, bn, as, bs);
    mixed_swap<Mx<0, an, as>, Mx<1, bn, bs>>(an && bn && as && bs, n); mixed_swap<Mx<0, an, as>, Mx<0, an, as>>(an && as, n);
}
void mixed_swaps() {
    mixed_pairs<0, 0>(); mixed_pairs<0, 1>(); mixed_pairs<0, 2>(); mixed_pairs<0, 3>(); mixed_pairs<1, 0>(); mixed_pairs<1, 1>(); mixed_pairs<1, 2>(); mixed_pairs<1, 3>();
    mixed_pairs<2, 0>(); mixed_pairs<2, 1>(); mixed_pairs<2, 2>(); mixed_pairs<2, 3>(); mixed_pairs<3, 0>(); mixed_pairs<3, 1>(); mixed_pairs<3, 2>(); mixed_pairs<3, 3>();
}
#endif
int main(int argc, char** argv) {
    mon::init(argc, argv);
#if GROUP == 0
    SM3(0)
#elif GROUP == 1
    SM3(1)
#elif GROUP == 2
    SM3(2)
#elif GROUP == 3
    SM3(3)
#elif GROUP == 4
    mixed_swaps();
    { using S = list<int, short, bool, const char*, std::string, Src, ToInt, ToIntX, ToIntRv, Imp, Exp, Ec, Ep, Agg, Base*, Derived*, std::nullptr_t>;
      value_matrix(list<int, long, bool, double, const int, std::string, std::string_view, Imp, Exp, AnyT, AnyX, RvOnly, LvOnly, ClOnly, FromOpt, FromOptX, Agg, NoAssign, AssignOpt, Ec, Ep, Base*, Fixed>{}, S{}); }
#elif GROUP == 5
    { using S = list<int, const char*, std::string, std::string_view, Src, Base*, Derived*, std::nullptr_t, std::unique_ptr<Derived>, std::unique_ptr<Base>, std::shared_ptr<Derived>, std::vector<int>, std::optional<int>, std::variant<int, std::string>, Base, Derived, opt::option<int>, opt::option<Src>>;
      value_matrix(list<std::unique_ptr<Base>, std::shared_ptr<Base>, std::shared_ptr<const Base>, std::vector<int>, std::optional<int>, std::optional<long>, std::variant<int, std::string>, std::function<void()>, opt::option<int>, opt::option<long>, opt::option<bool>, opt::option<Imp>, opt::option<opt::option<long>>, Base, Derived, std::pair<int, int>, const std::string>{}, S{}); }
    { using S = list<int, long, Base, Derived, PrivDerived, Src, Base*, Derived*, std::string, std::reference_wrapper<Base>, std::reference_wrapper<const Base>, std::reference_wrapper<Derived>, std::reference_wrapper<int>, std::reference_wrapper<const int>>;
      ref_matrix(list<int&, const int&, int&&, const int&&, Base&, const Base&, Base&&, const Base&&, Derived&, const Derived&, std::string&, const std::string&, Base*&, Base* const&, Src&>{}, S{}); }
    ref_members<int&>(); ref_members<const int&>(); ref_members<int&&>(); ref_members<Base&>(); ref_members<std::unique_ptr<int>&>(); ref_members<const std::string&&>();
#elif GROUP == 6
    const int n = static_cast<int>(200 * mon::st().scale); depths<int>(n); depths<short>(n); depths<long long>(n); depths<bool>(n); depths<char>(n); depths<float>(n); depths<double>(n); depths<int*>(n); depths<const int*>(n); depths<EPlain>(n); depths<EU8>(n); depths<EU16>(n); depths<ESent>(n); depths<EStart>(n); depths<EStartEnd>(n); depths<MemPtr>(n); depths<MemFn>(n); depths<FnPtr>(n); depths<std::string_view>(n); depths<std::reference_wrapper<int>>(n); depths<std::complex<float>>(n); depths<PolyT>(n);
#elif GROUP == 7
    const int n = static_cast<int>(200 * mon::st().scale); depths<Agg>(n); depths<Pad>(n); depths<SentV>(n); depths<Sent3>(n); depths<Memb>(n); depths<Enf>(n); depths<TupLike>(n); depths<Empty>(n); depths<Over>(n); depths<AddrOf>(n); using A3 = std::array<float, 3>; depths<A3>(n); using A2 = std::array<bool, 2>; depths<A2>(n); using P = std::pair<int, bool>; depths<P>(n); depths<std::string>(n); depths<std::unique_ptr<int>>(n); using A1 = std::array<EU8, 5>; depths<A1>(n);
#define RUN(T) bytes<T, 1>(n); bytes<T, 3>(n);
    TY_EACH_M(RUN, 0, 0) TY_EACH_M(RUN, 1, 1) TY_EACH_M(RUN, 0, 1)
#endif
    return mon::finish();
}
