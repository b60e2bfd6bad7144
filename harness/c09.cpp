// C09: options of references: identity of the referent, referents never touched.
#ifndef GROUP
#define GROUP 0
#endif
#include <opt/option.hpp>
#include <array>
#include <functional>
#include <memory>
#include <string>
#include <variant>
#include "mon.hpp"
namespace {
std::uint64_t g_events = 0; // special-member calls of referents
struct Trk { // every special member is an event
    int v = 0; std::string s; Trk* self = this;
    Trk(int x = 0) : v(x), s(std::to_string(x)) {}
    Trk(const Trk& o) : v(o.v), s(o.s) { ++g_events; }
    Trk(Trk&& o) noexcept : v(o.v), s(std::move(o.s)) { ++g_events; }
    Trk& operator=(const Trk& o) { v = o.v; s = o.s; ++g_events; return *this; }
    Trk& operator=(Trk&& o) noexcept { v = o.v; s = std::move(o.s); ++g_events; return *this; }
    ~Trk() { ++g_events; v = -1; self = nullptr; }
    friend bool operator==(const Trk& a, const Trk& b) { return a.v == b.v; }
};
struct Pin { int v = 0; Pin(int x = 0) : v(x) {} Pin(const Pin&) = delete; Pin& operator=(const Pin&) = delete; ~Pin() { ++g_events; } };
struct Amp { int v = 0; Amp* operator&() { std::abort(); } const Amp* operator&() const { std::abort(); } Amp* operator->() { std::abort(); } };
struct Abs { virtual ~Abs() = default; virtual int id() const = 0; int v = 0; };
struct AbsI : Abs { AbsI(int x = 0) { v = x; } int id() const override { return v; } };
enum class En { a, b, c };
union Un { int i; float f; };
template<class X> const X* adr(const X& x) { return std::addressof(x); }
template<class X> struct Ref { // pool of referents
    using S = X;
    static constexpr int N = 6;
};
template<> struct Ref<Abs> { using S = AbsI; static constexpr int N = 6; };
template<class X> struct Mk { template<class S> static void set(S&, int) {} };
template<class S> void fill(S& s, int i) {
    if constexpr (std::is_arithmetic_v<S>) s = static_cast<S>(i + 1);
    else if constexpr (std::is_enum_v<S>) s = static_cast<S>(i % 3);
    else if constexpr (std::is_same_v<S, std::string>) s = std::string(static_cast<std::size_t>(5 * i), static_cast<char>('a' + i));
    else if constexpr (std::is_same_v<S, Trk> || std::is_same_v<S, Pin> || std::is_same_v<S, AbsI> || std::is_same_v<S, Amp>) s.v = i;
    else if constexpr (std::is_same_v<S, Un>) s.i = i;
    else if constexpr (std::is_array_v<S>) { for (auto& e : s) fill(e, i); }
    else if constexpr (std::is_same_v<S, std::unique_ptr<int>>) s.reset(new int(i));
    else if constexpr (std::is_pointer_v<S>) s = nullptr;
    else if constexpr (std::is_same_v<S, opt::option<int>>) { if (i & 1) s.emplace(i); else s.reset(); }
    else if constexpr (std::is_same_v<S, std::variant<int, std::string>>) s = i;
}
std::string g_type;
template<class X> struct Run {
    using S = typename Ref<X>::S; static constexpr int N = Ref<X>::N;
    using O = opt::option<X&>; using C = opt::option<const X&>;
    static constexpr bool isopt = opt::is_option_v<X>;
    S pool[N]{}; unsigned char snap[sizeof(S) * N];
    mon::Rng r{mon::st().seed};
    std::uint64_t ev = 0;
    Run() { for (int i = 0; i < N; ++i) fill(pool[i], i); std::memcpy(snap, static_cast<const void*>(pool), sizeof pool); ev = g_events; }
    X& at(int i) { return pool[i]; }
    int of(const volatile void* p) const { for (int i = 0; i < N; ++i) { const X& x = pool[i]; if (static_cast<const volatile void*>(std::addressof(x)) == p) return i; } return p ? -3 : -1; }
    void intact(const char* op) {
        MCHECK(std::memcmp(snap, static_cast<const void*>(pool), sizeof pool) == 0, std::string("C09-touched/") + op, "%s&: %s changed a referred object", g_type.c_str(), op);
        MCHECK(g_events == ev, std::string("C09-events/") + op, "%s&: %s copied, moved, assigned or destroyed a referred object (%llu calls)", g_type.c_str(), op, static_cast<unsigned long long>(g_events - ev)); ev = g_events;
    }
    void set(O& o, int i) { if constexpr (isopt) o.emplace(at(i)); else o = at(i); }
    // identity by every path; -1 = empty
    template<class Op> void check(Op& o, int want, const char* op) {
        const Op& co = o;
        MCHECK(o.has_value() == (want >= 0) && static_cast<bool>(o) == (want >= 0) && (o == opt::none) == (want < 0) && (o != opt::none) == (want >= 0), std::string("C09-state/") + op, "%s&: after %s has_value is %d, expected %d", g_type.c_str(), op, o.has_value(), want >= 0);
        MCHECK(of(o.ptr_or_null()) == want && of(co.ptr_or_null()) == want, std::string("C09-identity/") + op, "%s&: after %s the option refers to object %d, expected %d", g_type.c_str(), op, of(o.ptr_or_null()), want);
        if (want < 0 || !o.has_value()) return;
        auto same = [&](auto& x, const char* path) { MCHECK(of(std::addressof(x)) == want, std::string("C09-path/") + path, "%s&: after %s, %s designates object %d, expected %d", g_type.c_str(), op, path, of(std::addressof(x)), want); };
        same(o.get(), "get()&"); same(co.get(), "get() const&"); same(*o, "*"); same(*co, "* const"); same(o.get_unchecked(), "get_unchecked"); same(co.get_unchecked(), "get_unchecked const");
        same(o.value(), "value"); same(co.value_or_throw(), "value_or_throw const"); same(o.value_or_throw(), "value_or_throw"); same(*o.operator->(), "->"); same(*co.operator->(), "-> const");
        { auto&& x = std::move(o).get(); same(x, "get()&&"); } { auto&& x = std::move(co).get(); same(x, "get() const&&"); } { auto&& x = *std::move(o); same(x, "*&&"); } { auto&& x = std::move(o).value(); same(x, "value&&"); } { auto&& x = std::move(o).get_unchecked(); same(x, "get_unchecked&&"); }
        int n = 0; for (auto& x : o) { same(x, "iteration"); ++n; } for (auto& x : co) { same(x, "iteration const"); ++n; } MCHECK(n == 2, "C09-path/iteration", "%s&: iteration visited %d elements", g_type.c_str(), n);
        static_assert(std::is_same_v<decltype(*co), typename Op::value_type> || std::is_same_v<decltype(*co), typename Op::value_type&>, "constness of the referent must not depend on the option");
    }
    void step(O* v, int* m, C* c, int* cm) {
        enum { RESET, NONE, ASSIGN, EMPLACE, TRYEMPL, COPYA, MOVEA, SWAP, OSWAP, TAKE, TAKEIF, CCTOR, MCTOR, RWASSIGN, RWCTOR, CONVCTOR, CONVASSIGN, CONVMOVE, OROP, ZIP, FILTER, ORELSE, VALOR, MAP, ANDTHEN, INPLACE, MAKE, NULLABLE, FLATTEN, BINOPS, CVAL, CRW, INSPECT, SELF, MAPOR, HVA, RWOPT, OPS };
        static const char* const names[] = {"reset", "= none", "= referent", "emplace", "try_emplace", "copy assignment", "move assignment", "swap", "opt::swap", "take", "take_if", "copy construction", "move construction", "= reference_wrapper", "construction from reference_wrapper", "conversion to option of const reference", "assignment to option of const reference", "move assignment to option of const reference", "|=", "zip", "filter", "or_else", "value_or", "map", "and_then", "in_place construction", "make_option", "from_nullable", "flatten", "| & ^", "const reference = referent", "const reference = wrapper", "inspect", "self-assignment", "map_or", "has_value_and", "conversion from option of reference_wrapper"};
        const int a = static_cast<int>(r.below(3)); int b = static_cast<int>(r.below(3)); const int k = static_cast<int>(r.below(2)); const int i = static_cast<int>(r.below(N)); const int op = static_cast<int>(r.below(OPS)); const bool yes = r.chance(1, 2);
        const char* nm = names[op];
        mon::context("type=%s& op=%s a=%d b=%d same=%d i=%d yes=%d", g_type.c_str(), nm, m[a], m[b], a == b, i, yes);
        mon::seen(mon::mix(mon::hash_str(g_type.c_str()), static_cast<std::uint64_t>((((op * 8 + m[a] + 1) * 8 + m[b] + 1) * 8 + i) * 4 + (a == b) * 2 + yes)));
        O& A = v[a]; O& B = v[b]; X& x = at(i); const X& cx = x;
        auto isref = [&](const auto& o, int want, const char* what) { MCHECK(of(o.ptr_or_null()) == want, std::string("C09-result/") + nm, "%s&: %s of %s refers to object %d, expected %d", g_type.c_str(), what, nm, of(o.ptr_or_null()), want); };
        int calls = 0; auto arg = [&](auto& y) { ++calls; MCHECK(of(std::addressof(y)) == m[a], std::string("C09-arg/") + nm, "%s&: %s passed object %d, expected %d", g_type.c_str(), nm, of(std::addressof(y)), m[a]); };
        auto ncalls = [&](int want) { MCHECK(calls == want, std::string("C09-calls/") + nm, "%s&: %s called the callback %d times, expected %d", g_type.c_str(), nm, calls, want); };
        switch (op) {
        case RESET: A.reset(); m[a] = -1; break;
        case NONE: A = opt::none; m[a] = -1; break;
        case ASSIGN: if constexpr (!isopt) { O& ret = (A = x); MCHECK(adr(ret) == adr(A), "C09-ret", "assignment does not return the option"); m[a] = i; } break;
        case EMPLACE: { X& y = A.emplace(x); MCHECK(std::addressof(y) == std::addressof(x), "C09-ret", "emplace does not return the referent"); m[a] = i; break; }
        case TRYEMPL: { X& y = A.try_emplace(x); if (m[a] < 0) m[a] = i; MCHECK(of(std::addressof(y)) == m[a], "C09-ret", "try_emplace does not return the referent"); break; }
        case COPYA: A = std::as_const(B); m[a] = m[b]; break;
        case MOVEA: if (a != b) { A = std::move(B); m[a] = m[b]; } break;
        case SWAP: A.swap(B); std::swap(m[a], m[b]); break;
        case OSWAP: if constexpr (std::is_swappable_v<X>) opt::swap(A, B); else A.swap(B); std::swap(m[a], m[b]); break;
        case TAKE: { O t = A.take(); isref(t, m[a], "result"); m[a] = -1; break; }
        case TAKEIF: { const int was = m[a]; O t = A.take_if([&](auto& y) { arg(y); return yes; }); ncalls(was >= 0); isref(t, yes ? was : -1, "result"); if (yes) m[a] = -1; break; }
        case CCTOR: { O t(std::as_const(B)); isref(t, m[b], "result"); O t2{B}; isref(t2, m[b], "result"); break; }
        case MCTOR: { O t(std::move(B)); isref(t, m[b], "result"); break; }
        case RWASSIGN: if constexpr (!isopt) { A = std::ref(x); m[a] = i; } break;
        case RWCTOR: if constexpr (!isopt) { O t(std::ref(x)); isref(t, i, "result"); auto w = std::ref(x); O t2 = w; isref(t2, i, "result"); } break;
        case CONVCTOR: { C t = A; isref(t, m[a], "result"); C t2(std::move(A)); isref(t2, m[a], "result"); const O& ca = A; C t3{ca}; isref(t3, m[a], "result"); break; }
        case CONVASSIGN: c[k] = A; cm[k] = m[a]; break;
        case CONVMOVE: c[k] = std::move(A); cm[k] = m[a]; break;
        case OROP: A |= B; if (m[a] < 0) m[a] = m[b]; break;
        case ZIP: { auto z = opt::zip(A, B); static_assert(std::is_same_v<decltype(z), opt::option<std::tuple<X&, X&>>>); const bool h = m[a] >= 0 && m[b] >= 0; MCHECK(z.has_value() == h, "C09-result/zip", "%s&: zip holds %d, expected %d", g_type.c_str(), z.has_value(), h);
                if (h && z.has_value()) MCHECK(of(std::addressof(std::get<0>(*z))) == m[a] && of(std::addressof(std::get<1>(*z))) == m[b], "C09-result/zip", "%s&: zip refers to the wrong objects", g_type.c_str());
                opt::zip_with([&](auto& p, auto& q) { ++calls; MCHECK(of(std::addressof(p)) == m[a] && of(std::addressof(q)) == m[b], "C09-result/zip", "%s&: zip_with passed the wrong objects", g_type.c_str()); }, A, B); ncalls(h); break; }
        case FILTER: if constexpr (!isopt) { O t = A.filter([&](auto& y) { arg(y); return yes; }); ncalls(m[a] >= 0); isref(t, yes ? m[a] : -1, "result"); } break;
        case ORELSE: { O t = A.or_else([&]() -> O { ++calls; O q; q.emplace(x); return q; }); ncalls(m[a] < 0); isref(t, m[a] < 0 ? i : m[a], "result"); break; }
        case VALOR: { decltype(auto) y = A.value_or(x); static_assert(std::is_same_v<decltype(y), X&>); MCHECK(of(std::addressof(y)) == (m[a] < 0 ? i : m[a]), "C09-result/value_or", "%s&: value_or designates the wrong object", g_type.c_str()); decltype(auto) y2 = O(A).value_or(x); MCHECK(of(std::addressof(y2)) == (m[a] < 0 ? i : m[a]), "C09-result/value_or", "%s&: value_or designates the wrong object", g_type.c_str()); break; }
        case MAP: { auto t = A.map([&](auto& y) -> X& { arg(y); return y; }); static_assert(std::is_same_v<decltype(t), O>); ncalls(m[a] >= 0); isref(t, m[a], "result"); break; }
        case ANDTHEN: { auto t = A.and_then([&](X& y) { arg(y); O q; if (yes) q.emplace(y); return q; }); ncalls(m[a] >= 0); isref(t, yes ? m[a] : -1, "result"); break; }
        case INPLACE: { O t(std::in_place, x); isref(t, i, "result"); const O t2{std::in_place, x}; isref(t2, i, "result"); if constexpr (!isopt) { O t3(x); isref(t3, i, "result"); O t4 = x; isref(t4, i, "result"); C t5 = cx; isref(t5, i, "result"); C t6 = x; isref(t6, i, "result"); } break; }
        case MAKE: { auto t = opt::make_option<X&>(x); static_assert(std::is_same_v<decltype(t), O>); isref(t, i, "result"); break; }
        case NULLABLE: if constexpr (!isopt) { auto t = opt::from_nullable(yes ? std::addressof(x) : nullptr); static_assert(std::is_same_v<decltype(t), O>); isref(t, yes ? i : -1, "result"); auto t2 = opt::from_nullable(yes ? std::addressof(cx) : nullptr); static_assert(std::is_same_v<decltype(t2), C>); isref(t2, yes ? i : -1, "result"); } break;
        case FLATTEN: if constexpr (!isopt) { auto t = opt::flatten(A); static_assert(std::is_same_v<decltype(t), O>); isref(t, m[a], "result"); opt::option<O> n; if (yes) n.emplace(A); auto t2 = opt::flatten(n); static_assert(std::is_same_v<decltype(t2), O>); isref(t2, yes ? m[a] : -1, "result"); } break;
        case BINOPS: if constexpr (!isopt) { isref(A | B, m[a] >= 0 ? m[a] : m[b], "|"); isref(A & B, m[a] >= 0 ? m[b] : -1, "&"); isref(A ^ B, (m[a] >= 0) == (m[b] >= 0) ? -1 : m[a] >= 0 ? m[a] : m[b], "^"); isref(O(A) | O(B), m[a] >= 0 ? m[a] : m[b], "|"); isref(O(A) ^ B, (m[a] >= 0) == (m[b] >= 0) ? -1 : m[a] >= 0 ? m[a] : m[b], "^"); isref(A & O(B), m[a] >= 0 ? m[b] : -1, "&"); } break;
        case CVAL: if constexpr (!isopt) { c[k] = cx; cm[k] = i; if (yes) { c[k] = at(b); cm[k] = b; } } break;
        case CRW: if constexpr (!isopt) { c[k] = std::cref(cx); cm[k] = i; } break;
        case INSPECT: { O& ret = A.inspect([&](auto& y) { arg(y); }); ncalls(m[a] >= 0); MCHECK(adr(ret) == adr(A), "C09-ret", "inspect does not return the option"); break; }
        case SELF: { auto& al = A; A = al; break; }
        case MAPOR: { const int w = A.map_or(-7, [&](auto& y) { arg(y); return of(std::addressof(y)); }); ncalls(m[a] >= 0); MCHECK(w == (m[a] < 0 ? -7 : m[a]), "C09-result/map_or", "%s&: map_or gave %d", g_type.c_str(), w); break; }
        case HVA: { const bool w = A.has_value_and([&](auto& y) { arg(y); return yes; }); ncalls(m[a] >= 0); MCHECK(w == (m[a] >= 0 && yes), "C09-result/has_value_and", "%s&: has_value_and gave %d", g_type.c_str(), w); break; }
        case RWOPT: if constexpr (!isopt) { opt::option<std::reference_wrapper<X>> w; if (yes) w.emplace(x); O t(w); isref(t, yes ? i : -1, "result"); A = w; m[a] = yes ? i : -1; } break;
        }
        for (int q = 0; q < 3; ++q) check(v[q], m[q], nm);
        for (int q = 0; q < 2; ++q) check(c[q], cm[q], nm);
        intact(nm); mon::count("operations");
    }
    void go(int steps) {
        O* v = new O[3]; int m[3] = {-1, -1, -1}; C* c = new C[2]; int cm[2] = {-1, -1};
        static_assert(sizeof(O) == sizeof(void*) && std::is_trivially_copyable_v<O> && std::is_trivially_destructible_v<O> && std::is_nothrow_move_constructible_v<O> && std::is_nothrow_copy_assignable_v<O>);
        for (int i = 0; i < steps; ++i) step(v, m, c, cm);
        delete[] v; delete[] c; intact("destruction");
    }
};
template<class X> void run(const char* n) { g_type = n; Run<X>().go(6000 * static_cast<int>(mon::st().scale)); }

// derived-to-base with adjusted addresses
struct P1 { long a = 1; virtual ~P1() = default; }; struct P2 { long b = 2; virtual ~P2() = default; }; struct P3 { long c = 3; };
struct D1 : P1, P2, P3 { long d = 4; }; struct D2 : virtual P3, virtual P2 { long e = 5; }; struct D3 : D1 { long f = 6; }; struct Mid : D2 { long g = 7; };
template<class B, class D> void conv(const char* n) {
    g_type = n; D d[3]; unsigned char snap[sizeof d]; std::memcpy(snap, static_cast<const void*>(d), sizeof d);
    using OB = opt::option<B&>; using OD = opt::option<D&>; using CB = opt::option<const B&>;
    auto is = [&](const auto& o, const D* want, const char* how) { const B* w = want; MCHECK(o.has_value() == (want != nullptr) && o.ptr_or_null() == w, std::string("C09-base/") + how, "%s: %s designates %p, expected %p", n, how, static_cast<const void*>(o.ptr_or_null()), static_cast<const void*>(w)); };
    for (int i = -1; i < 3; ++i) for (int j = -1; j < 3; ++j) {
        mon::seen(mon::mix(mon::hash_str(n), static_cast<std::uint64_t>(i * 4 + j + 20)));
        D* const p = i < 0 ? nullptr : d + i; D* const q = j < 0 ? nullptr : d + j;
        OD od; if (p) od = *p; const OD cod = od; OB ob; if (q) ob = *q; is(ob, q, "assignment from derived object"); is(od, p, "own type");
        { OB t(od); is(t, p, "copy construction from option of derived"); } { OB t(cod); is(t, p, "copy construction from const option of derived"); } { OB t(OD{od}); is(t, p, "move construction from option of derived"); } { OB t = od; is(t, p, "implicit conversion"); }
        { OB t(ob); t = od; is(t, p, "assignment from option of derived"); } { OB t(ob); t = cod; is(t, p, "assignment from const option of derived"); } { OB t(ob); t = OD{od}; is(t, p, "move assignment from option of derived"); }
        { CB t(od); is(t, p, "conversion to option of const base"); t = ob; is(t, q, "assignment to option of const base"); t = od; is(t, p, "assignment to option of const base"); t = OD{cod}; is(t, p, "assignment to option of const base"); opt::option<const D&> cd = od; t = cd; is(t, p, "const derived"); CB t2(cd); is(t2, p, "const derived"); }
        if (p) { OB t(*p); is(t, p, "construction from derived object"); t.reset(); t.emplace(*p); is(t, p, "emplace from derived object"); t.reset(); t.try_emplace(*p); is(t, p, "try_emplace"); const D& c = *p; CB t2 = c; is(t2, p, "const derived object"); OB t3(std::in_place, *p); is(t3, p, "in_place"); t3.take(); OB t4 = opt::make_option<B&>(*p); is(t4, p, "make_option"); B& back = t3.emplace(*p); MCHECK(&back == static_cast<B*>(p), "C09-base/emplace result", "emplace result"); }
        { auto t = od.map([](D& x) -> B& { return x; }); static_assert(std::is_same_v<decltype(t), OB>); is(t, p, "map to base"); auto t2 = od.and_then([](D& x) -> OB { return x; }); is(t2, p, "and_then to base"); OB t3 = opt::option_cast<B&>(od); is(t3, p, "option_cast to base"); }
        { OB t = OB(od).or_else([&]() -> OB { return ob; }); is(t, p ? p : q, "or_else"); }
        MCHECK(std::memcmp(snap, static_cast<const void*>(d), sizeof d) == 0, "C09-touched/base", "%s: conversion changed an object", n);
    }
}
// options of rvalue references
template<class X> void rv(const char* n) {
    g_type = n; X p[3]; for (int i = 0; i < 3; ++i) fill(p[i], i + 1); unsigned char snap[sizeof p]; std::memcpy(snap, static_cast<const void*>(p), sizeof p); std::uint64_t ev = g_events;
    using O = opt::option<X&&>; using C = opt::option<const X&&>;
    auto is = [&](auto& o, int want, const char* how) { const X* w = want < 0 ? nullptr : p + want; const X* cw = w; MCHECK(o.has_value() == (want >= 0) && o.ptr_or_null() == cw, std::string("C09-rvalue/") + how, "%s&&: %s designates the wrong object", n, how);
        if (w && o.has_value()) { auto&& a = *o; auto&& b = *std::move(o); auto&& c = std::move(o).get(); auto&& e = std::move(o).value(); auto&& f = std::as_const(o).get(); MCHECK(&a == w && &b == w && &c == w && &e == w && &f == w, std::string("C09-rvalue/") + how, "%s&&: %s: accessors differ", n, how);
            static_assert(std::is_rvalue_reference_v<decltype(*std::move(o))> && std::is_lvalue_reference_v<decltype(*o)>); }
        MCHECK(std::memcmp(snap, static_cast<const void*>(p), sizeof p) == 0 && g_events == ev, std::string("C09-rvalue-touched/") + how, "%s&&: %s moved from or changed the object", n, how); };
    for (int i = -1; i < 3; ++i) for (int j = -1; j < 3; ++j) { mon::seen(mon::mix(mon::hash_str(n), static_cast<std::uint64_t>(i * 4 + j + 20)));
        O a; if (i >= 0) a = std::move(p[i]); is(a, i, "= rvalue"); O b; if (j >= 0) b.emplace(std::move(p[j])); is(b, j, "emplace");
        { O t(a); is(t, i, "copy"); O u(std::move(t)); is(u, i, "move"); u = b; is(u, j, "copy assignment"); u = std::move(a); is(u, i, "move assignment"); is(a, i, "moved-from"); u.swap(b); is(u, j, "swap"); is(b, i, "swap"); u.swap(b); u.reset(); is(u, -1, "reset"); u |= b; is(u, j, "|="); }
        { C t(std::move(a)); is(t, i, "to const"); t = O(b); is(t, j, "assignment to const"); t = std::move(a); is(t, i, "assignment to const"); }
        { O t = a.take(); is(t, i, "take"); is(a, -1, "take source"); a = t; }
        if (i >= 0) { O t(std::move(p[i])); is(t, i, "construction"); O u(std::in_place, std::move(p[i])); is(u, i, "in_place construction"); int n2 = 0; for (auto&& x : t) { MCHECK(&x == p + i, "C09-rvalue/iteration", "iteration"); ++n2; } MCHECK(n2 == 1, "C09-rvalue/iteration", "iteration"); }
        { auto t = std::move(a).map([](X&& x) -> X&& { return std::move(x); }); static_assert(std::is_same_v<decltype(t), O>); is(t, i, "map"); }
        { auto t = opt::zip(std::move(a), std::move(b)); MCHECK(t.has_value() == (i >= 0 && j >= 0) && (!t.has_value() || (&std::get<0>(*t) == p + i && &std::get<1>(*t) == p + j)), "C09-rvalue/zip", "%s&&: zip", n); }
    }
    MCHECK(g_events == ev, "C09-rvalue-touched/end", "%s&&: objects touched", n);
}
int fn0(int x) { return x + 1; } int fn1(int x) { return x + 2; }
struct Incomplete; struct HoldsInc { opt::option<Incomplete&> a; opt::option<const Incomplete&> b; }; struct Incomplete { int z = 3; HoldsInc h; };
void odd() {
    { using F = int(int); g_type = "function"; using O = opt::option<F&>; O a, b(fn0); MCHECK(!a.has_value() && b.has_value() && b.ptr_or_null() == &fn0 && (*b)(1) == 2, "C09-function", "option of function reference");
      a = fn1; MCHECK(a.has_value() && &*a == &fn1 && a.get()(1) == 3 && &a.get_unchecked() == &fn1 && &a.value() == &fn1, "C09-function", "option of function reference"); a.swap(b); MCHECK(&*a == &fn0 && &*b == &fn1, "C09-function", "option of function reference"); a.reset(); a |= b; MCHECK(&*a == &fn1, "C09-function", "|="); a.emplace(fn0); MCHECK(&*a == &fn0, "C09-function", "emplace"); O c = a.take(); MCHECK(!a && c && &*c == &fn0, "C09-function", "take"); const int r = c.map_or(9, [](F& f) { return f(4); }); MCHECK(r == 5, "C09-function", "map_or"); mon::seen("function"); }
    { g_type = "volatile int"; volatile int x[2] = {1, 2}; using O = opt::option<volatile int&>; O a(x[0]), b; MCHECK(&*a == x && !b.has_value(), "C09-volatile", "option of volatile reference"); b = x[1]; a.swap(b); MCHECK(&*a == x + 1 && &*b == x, "C09-volatile", "swap"); int y = 5; b = y; MCHECK(&*b == &y && x[0] == 1 && x[1] == 2, "C09-volatile", "assignment"); opt::option<int&> iy(y); O z = iy; MCHECK(&*z == &y, "C09-volatile", "conversion"); opt::option<const volatile int&> cv = a; MCHECK(&*cv == x + 1, "C09-volatile", "conversion"); mon::seen("volatile"); }
    { Incomplete i; i.h.a = i; i.h.b = i.h.a; MCHECK(&*i.h.a == &i && &*i.h.b == &i && i.h.b->z == 3, "C09-incomplete", "option of reference to a type completed later"); mon::seen("incomplete"); }
    { g_type = "reference_wrapper&"; int x = 1, y = 2; std::reference_wrapper<int> w(x), u(y); opt::option<std::reference_wrapper<int>&> a; a.emplace(w); MCHECK(&*a == &w && &a->get() == &x, "C09-wrapper", "option of reference to reference_wrapper"); a = u; MCHECK(&*a == &u && &w.get() == &x, "C09-wrapper", "assignment rebinds the option, not the wrapper"); mon::seen("rw"); }
    { g_type = "element of bitpattern type"; bool flags[3] = {true, false, true}; opt::option<bool&> a(flags[0]); a = flags[1]; MCHECK(flags[0] && !flags[1] && &*a == flags + 1, "C09-bool", "rebinding wrote the referent"); *a = true; MCHECK(flags[1], "C09-bool", "write through"); a.reset(); MCHECK(flags[1] == true && flags[0] && flags[2], "C09-bool", "reset wrote the referent"); mon::seen("bool"); }
    { g_type = "option&"; opt::option<int> x(1), y; opt::option<opt::option<int>&> a; a.emplace(x); MCHECK(a.has_value() && &*a == &x, "C09-option", "emplace"); a.emplace(y); MCHECK(a.has_value() && &*a == &y && !a->has_value() && x == 1, "C09-option", "emplace of empty"); a.reset(); MCHECK(!y.has_value() && x == 1, "C09-option", "reset"); mon::seen("option&"); }
    { // write through changes exactly the referent
      mon::Rng r(mon::st().seed); int p[5] = {0, 1, 2, 3, 4}; int want[5] = {0, 1, 2, 3, 4}; opt::option<int&> o; int cur = -1;
      for (int i = 0; i < 2000; ++i) { const int k = static_cast<int>(r.below(5)), v = static_cast<int>(r.next() & 0xffff); switch (r.below(4)) { case 0: o = p[k]; cur = k; break; case 1: if (cur >= 0) { *o = v; want[cur] = v; } break; case 2: if (cur >= 0) { std::move(o).get() = v; want[cur] = v; } break; case 3: for (auto& e : o) { e = v; want[cur] = v; } break; }
        MCHECK(std::memcmp(p, want, sizeof p) == 0, "C09-write", "writing through the reference changed something else"); mon::seen(static_cast<std::uint64_t>(i)); } }
}
} // namespace
int main(int argc, char** argv) {
    mon::init(argc, argv);
#if GROUP == 0
    run<Trk>("Trk"); run<Pin>("Pin"); run<int>("int"); run<Abs>("Abs");
#elif GROUP == 1
    run<std::string>("string"); run<bool>("bool"); run<double>("double"); run<Amp>("Amp");
#elif GROUP == 2
    run<std::unique_ptr<int>>("unique_ptr"); run<En>("En"); run<Un>("Un"); run<int*>("int*"); run<opt::option<int>>("option<int>"); run<std::variant<int, std::string>>("variant");
#elif GROUP == 3
    conv<P1, D1>("D1->P1"); conv<P2, D1>("D1->P2"); conv<P3, D1>("D1->P3"); conv<P3, D2>("D2->P3 virtual"); conv<P2, D2>("D2->P2 virtual"); conv<P2, D3>("D3->P2"); conv<P3, D3>("D3->P3"); conv<P3, Mid>("Mid->P3 virtual"); conv<D2, Mid>("Mid->D2"); conv<D1, D3>("D3->D1");
    rv<int>("int"); rv<std::string>("string"); rv<Trk>("Trk"); rv<std::unique_ptr<int>>("unique_ptr"); odd();
#endif
    return mon::finish();
}
