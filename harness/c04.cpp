// C04: how often, and from what, each operation copies and moves.
#ifndef GROUP
#define GROUP 0
#endif
#include "count.hpp"
using namespace cnt;
namespace {
std::string g_type;
constexpr int ANYN = -1;
struct Want { int cc = 0, mc = ANYN, ca = 0, ma = ANYN, conv_copy = 0; };
// Runs f; afterwards the log must agree with w.
template<class F> void probe(const char* what, const char* state, Want w, F&& f) {
    mon::context("C04 %s: %s, %s", g_type.c_str(), what, state);
    L() = Log{};
    f();
    const Log l = L();
    const bool ok = (w.cc == ANYN || l.cc == w.cc) && (w.mc == ANYN || l.mc == w.mc) && (w.ca == ANYN || l.ca == w.ca) && (w.ma == ANYN || l.ma == w.ma) && (w.conv_copy == ANYN || l.conv_copy == w.conv_copy);
    MCHECK(ok, std::string("C04-count/") + what, "%s, %s, of %s: copy ctor %d (want %d), move ctor %d (%d), copy assign %d (%d), move assign %d (%d), converting copies %d (%d)",
        what, state, g_type.c_str(), l.cc, w.cc, l.mc, w.mc, l.ca, w.ca, l.ma, w.ma, l.conv_copy, w.conv_copy);
    mon::seen(g_type + "/" + what + "/" + state);
    mon::count("operations");
    mon::digest(mon::mix(mon::hash_str(what), l.cc * 1000 + l.ca * 10 + l.conv_copy));
}
template<class T> bool is(const opt::option<T>& x, int id, bool moved = false) { return x.has_value() && V<T>::core(*x).id == id && V<T>::core(*x).moved == moved; }
template<class T> bool is(const T& x, int id, bool moved = false) { return V<T>::core(x).id == id && V<T>::core(x).moved == moved; }
#define OK(cond, what) MCHECK(cond, std::string("C04-state/") + what, "%s: wrong state or value afterwards: " #cond, what)

template<class T> opt::option<T> mk(bool has, int id) { opt::option<T> o; if (has) o.emplace(V<T>::make(id)); return o; }

template<class T> void rvalue_ops() {
    using O = opt::option<T>;
    for (int h = 0; h < 2; ++h) {
        const bool has = h; const char* st = has ? "holding" : "empty";
        { O a = mk<T>(has, 1); probe("move construct", st, {0, has ? 1 : 0, 0, 0}, [&] { O b(std::move(a)); OK(b.has_value() == has && (!has || is(b, 1)), "move construct"); }); OK(a.has_value() == has && (!has || is(a, 1, true)), "move construct source"); }
        { T v = V<T>::make(2); probe("construct from rvalue", st, {0, 1, 0, 0}, [&] { O b(std::move(v)); OK(is(b, 2), "construct from rvalue"); }); OK(is(v, 2, true), "construct from rvalue source"); }
        { T v = V<T>::make(2); probe("in_place rvalue", st, {0, 1, 0, 0}, [&] { O b(std::in_place, std::move(v)); OK(is(b, 2), "in_place rvalue"); }); }
        { T v = V<T>::make(2); probe("make_option(rvalue)", st, {0, ANYN, 0, 0}, [&] { auto b = opt::make_option(std::move(v)); if constexpr (!opt::is_option_v<T>) OK(is(b, 2), "make_option(rvalue)"); }); }
        { O a = mk<T>(has, 1); T v = V<T>::make(3); const T* p = a.ptr_or_null(); const int birth = has ? V<T>::core(*a).birth : 0;
          probe("assign rvalue", st, has ? Want{0, 0, 0, 1} : Want{0, 1, 0, 0}, [&] { a = std::move(v); });
          OK(is(a, 3) && is(v, 3, true), "assign rvalue"); if (has) OK(a.ptr_or_null() == p && V<T>::core(*a).birth == birth, "assign rvalue in place"); }
        { O a = mk<T>(has, 1); T v = V<T>::make(3); probe("emplace rvalue", st, {0, 1, 0, 0}, [&] { T& r = a.emplace(std::move(v)); OK(&r == a.ptr_or_null(), "emplace returns the value"); }); OK(is(a, 3), "emplace rvalue"); }
        { O a = mk<T>(has, 1); T v = V<T>::make(3); probe("try_emplace rvalue", st, {0, has ? 0 : 1, 0, 0}, [&] { T& r = a.try_emplace(std::move(v)); OK(&r == a.ptr_or_null(), "try_emplace returns the value"); }); OK(is(a, has ? 1 : 3) && is(v, 3, !has), "try_emplace rvalue"); }
        { O a = mk<T>(has, 1); probe("take", st, {0, ANYN, 0, 0}, [&] { O r = a.take(); OK(r.has_value() == has && (!has || is(r, 1)), "take"); }); OK(!a.has_value(), "take empties"); }
        for (int y = 0; y < 2; ++y) { O a = mk<T>(has, 1); probe("take_if", st, {0, has && y ? ANYN : 0, 0, 0}, [&] { O r = a.take_if([&](T&) { return y == 1; }); OK(r.has_value() == (has && y) && (!r || is(r, 1)), "take_if"); }); OK(a.has_value() == (has && !y) && (!a || is(a, 1)), "take_if source"); }
        for (int y = 0; y < 2; ++y) { O a = mk<T>(has, 1); probe("filter rvalue", st, {0, has && y ? ANYN : 0, 0, 0}, [&] { O r = std::move(a).filter([&](const T&) { return y == 1; }); OK(r.has_value() == (has && y) && (!r || is(r, 1)), "filter rvalue"); }); OK(a.has_value() == has && (!has || is(a, 1, y == 1)), "filter rvalue source"); }
        { O a = mk<T>(has, 1); int called = 0; probe("map rvalue", st, {0, has ? ANYN : 0, 0, 0}, [&] { auto r = std::move(a).map([&](T&& v) -> T { ++called; return std::move(v); }); OK(r.has_value() == has && called == has, "map rvalue"); if (has) OK(is(*r, 1), "map rvalue value"); }); }
        { O a = mk<T>(has, 1); probe("map to rvalue reference", st, {0, 0, 0, 0}, [&] { auto r = std::move(a).map([&](T&& v) -> T&& { return std::move(v); }); static_assert(std::is_same_v<decltype(r), opt::option<T&&>>); OK(r.has_value() == has && (!has || &r.get() == a.ptr_or_null()), "map to rvalue reference"); }); OK(a.has_value() == has && (!has || is(a, 1)), "map to rvalue reference source"); }
        { O a = mk<T>(has, 1); probe("and_then rvalue", st, {0, has ? ANYN : 0, 0, 0}, [&] { auto r = std::move(a).and_then([&](T&& v) { return O(std::move(v)); }); OK(r.has_value() == has && (!has || is(r, 1)), "and_then rvalue"); }); }
        { O a = mk<T>(has, 1); probe("or_else rvalue", st, {0, ANYN, 0, 0}, [&] { auto r = std::move(a).or_else([&] { return mk<T>(true, 4); }); OK(is(r, has ? 1 : 4), "or_else rvalue"); }); OK(a.has_value() == has && (!has || is(a, 1, true)), "or_else rvalue source"); }
        { O a = mk<T>(has, 1); T d = V<T>::make(5); probe("value_or rvalue, rvalue", st, {0, ANYN, 0, 0}, [&] { T r = std::move(a).value_or(std::move(d)); OK(is(r, has ? 1 : 5), "value_or rvalue"); }); OK(is(d, 5, !has), "value_or default"); OK(a.has_value() == has && (!has || is(a, 1, true)), "value_or source"); }
        { O a = mk<T>(has, 1); T d = V<T>::make(5); probe("rvalue | rvalue value", st, {0, ANYN, 0, 0}, [&] { if constexpr (!opt::is_option_v<T>) { T r = std::move(a) | std::move(d); OK(is(r, has ? 1 : 5), "| value"); } }); }
        if constexpr (V<T>::direct) { O a = mk<T>(has, 1); probe("value_or_construct rvalue", st, {0, ANYN, 0, 0}, [&] { T r = std::move(a).value_or_construct(6); OK(is(r, has ? 1 : 6), "value_or_construct rvalue"); }); }
        { O a = mk<T>(has, 1); T d = V<T>::make(5); probe("map_or rvalue", st, {0, ANYN, 0, 0}, [&] { T r = std::move(a).map_or(std::move(d), [](T&& v) { return T(std::move(v)); }); OK(is(r, has ? 1 : 5), "map_or rvalue"); }); OK(is(d, 5, !has), "map_or default"); }
        { O a = mk<T>(has, 1); probe("map_or_else rvalue", st, {0, ANYN, 0, 0}, [&] { T r = std::move(a).map_or_else([] { return V<T>::make(7); }, [](T&& v) { return T(std::move(v)); }); OK(is(r, has ? 1 : 7), "map_or_else rvalue"); }); }
        // pure observers and reference accessors on an rvalue neither copy nor move
        { O a = mk<T>(has, 1); probe("rvalue accessors", st, {0, 0, 0, 0}, [&] {
              (void)std::move(a).has_value_and([](T&&) { return true; }); std::move(a).inspect([](T&&) {});
              if (has) { T&& r1 = std::move(a).get(); T&& r2 = *std::move(a); T&& r3 = std::move(a).value(); T&& r4 = std::move(a).value_or_throw(); T&& r5 = std::move(a).get_unchecked(); OK(&r1 == &r2 && &r2 == &r3 && &r3 == &r4 && &r4 == &r5, "accessors agree"); } });
          OK(a.has_value() == has && (!has || is(a, 1)), "rvalue accessors source"); }
        { O a = mk<T>(has, 1); probe("flatten rvalue", st, {0, ANYN, 0, ANYN}, [&] { opt::option<O> n(std::in_place, std::move(a)); auto r = opt::flatten(std::move(n)); if constexpr (!opt::is_option_v<T>) OK(r.has_value() == has && (!has || is(r, 1)), "flatten rvalue"); }); }
        for (int h2 = 0; h2 < 2; ++h2) {
            const bool has2 = h2; char s2[40]; std::snprintf(s2, sizeof s2, "%s/%s", st, has2 ? "holding" : "empty");
            { O a = mk<T>(has, 1), b = mk<T>(has2, 2); const T* p = a.ptr_or_null(); const int birth = has ? V<T>::core(*a).birth : 0;
              probe("move assign", s2, !has2 ? Want{0, 0, 0, 0} : has ? Want{0, 0, 0, 1} : Want{0, 1, 0, 0}, [&] { a = std::move(b); });
              OK(a.has_value() == has2 && (!has2 || is(a, 2)), "move assign"); OK(b.has_value() == has2 && (!has2 || is(b, 2, true)), "move assign source");
              if (has && has2) OK(a.ptr_or_null() == p && V<T>::core(*a).birth == birth, "move assign in place"); }
            { O a = mk<T>(has, 1), b = mk<T>(has2, 2); probe("member swap", s2, {0, ANYN, 0, ANYN}, [&] { a.swap(b); }); OK(a.has_value() == has2 && b.has_value() == has && (!has2 || is(a, 2)) && (!has || is(b, 1)), "member swap"); }
            { O a = mk<T>(has, 1), b = mk<T>(has2, 2); probe("free swap", s2, {0, ANYN, 0, ANYN}, [&] { using opt::swap; swap(a, b); }); OK(a.has_value() == has2 && b.has_value() == has && (!has2 || is(a, 2)) && (!has || is(b, 1)), "free swap"); }
            { O a = mk<T>(has, 1), b = mk<T>(has2, 2); probe("rvalue | rvalue", s2, {0, ANYN, 0, 0}, [&] { O r = std::move(a) | std::move(b); OK(r.has_value() == (has || has2) && (!r || is(r, has ? 1 : 2)), "rvalue | rvalue"); }); OK(a.has_value() == has && b.has_value() == has2 && (!has || !has2 || is(b, 2)), "rvalue | rvalue operands"); }
            { O a = mk<T>(has, 1), b = mk<T>(has2, 2); probe("rvalue ^ rvalue", s2, {0, ANYN, 0, 0}, [&] { O r = std::move(a) ^ std::move(b); OK(r.has_value() == (has != has2) && (!r || is(r, has ? 1 : 2)), "rvalue ^ rvalue"); }); }
            { const O a = mk<T>(has, 1); O b = mk<T>(has2, 2); probe("lvalue & rvalue", s2, {0, has && has2 ? ANYN : 0, 0, 0}, [&] { O r = a & std::move(b); OK(r.has_value() == (has && has2) && (!r || is(r, 2)), "lvalue & rvalue"); }); OK(a.has_value() == has && (!has || is(a, 1)), "lvalue & rvalue left"); OK(has || b.has_value() == has2 && (!has2 || is(b, 2)), "lvalue & rvalue unused right"); }
            { O a = mk<T>(has, 1), b = mk<T>(has2, 2); probe("|= rvalue", s2, {0, ANYN, 0, 0}, [&] { a |= std::move(b); }); OK(a.has_value() == (has || has2) && (!a || is(a, has ? 1 : 2)), "|= rvalue"); OK(!has || (b.has_value() == has2 && (!has2 || is(b, 2))), "|= rvalue unused"); }
            { O a = mk<T>(has, 1), b = mk<T>(has2, 2); probe("zip rvalues", s2, {0, has && has2 ? ANYN : 0, 0, 0}, [&] { auto z = opt::zip(std::move(a), std::move(b)); OK(z.has_value() == (has && has2), "zip rvalues"); if (z) OK(is(std::get<0>(*z), 1) && is(std::get<1>(*z), 2), "zip rvalues values"); }); }
            { int cell = 4; const M mcell(6); O a = mk<T>(has, 1), b = mk<T>(has, 2), c = mk<T>(has, 3); opt::option<int&> ri; if (has2) ri = cell; opt::option<const M&> rm; if (has2) rm = mcell; const Want w{0, has && has2 ? ANYN : 0, 0, 0};
              probe("zip rvalue with references", s2, w, [&] { auto z = opt::zip(std::move(a), ri); OK(z.has_value() == (has && has2) && (!z || (is(std::get<0>(*z), 1) && &std::get<1>(*z) == &cell)), "zip rvalue with reference"); auto y = opt::zip(rm, std::move(b)); OK(y.has_value() == (has && has2) && (!y || (is(std::get<1>(*y), 2) && &std::get<0>(*y) == &mcell)), "zip reference with rvalue"); auto x = opt::zip(opt::option<int&>(ri), std::move(c), opt::option<const M&>(rm)); OK(x.has_value() == (has && has2) && (!x || (is(std::get<1>(*x), 3) && &std::get<0>(*x) == &cell && &std::get<2>(*x) == &mcell)), "zip three with references"); });
              for (O* q : {&a, &b, &c}) OK(q->has_value() == has && (!has || is(*q, q == &a ? 1 : q == &b ? 2 : 3, has && has2)), "zip with references: sources"); }
            { O a = mk<T>(has, 1), b = mk<T>(has, 2); opt::option<int> pi; if (has2) pi = 4; const Want w{0, has && has2 ? ANYN : 0, 0, 0};
              probe("zip rvalue with plain data", s2, w, [&] { auto z = opt::zip(std::move(a), pi); OK(z.has_value() == (has && has2) && (!z || (is(std::get<0>(*z), 1) && std::get<1>(*z) == 4)), "zip rvalue with an lvalue of plain data"); auto y = opt::zip(std::move(pi), std::move(b), opt::option<bool>(true)); OK(y.has_value() == (has && has2) && (!y || (is(std::get<1>(*y), 2) && std::get<0>(*y) == 4)), "zip plain data with rvalue"); });
              for (O* q : {&a, &b}) OK(q->has_value() == has && (!has || is(*q, q == &a ? 1 : 2, has && has2)), "zip with plain data: sources"); }
            { O a = mk<T>(has, 1); probe("zip of one rvalue", s2, {0, has ? ANYN : 0, 0, 0}, [&] { auto z = opt::zip(std::move(a)); OK(z.has_value() == has && (!z || is(std::get<0>(*z), 1)), "zip of one rvalue"); }); }
            { int cell = 4; O a = mk<T>(has, 1); opt::option<int&> ri; if (has2) ri = cell; probe("zip_with rvalue and reference", s2, {0, has && has2 ? ANYN : 0, 0, 0}, [&] { auto z = opt::zip_with([&](T&& x, int& y) { OK(&y == &cell, "zip_with reference argument"); return T(std::move(x)); }, std::move(a), ri); OK(z.has_value() == (has && has2) && (!z || is(*z, 1)), "zip_with rvalue and reference"); }); }
            { int cell = 4; opt::option<std::tuple<int&, T>> t; if (has) t.emplace(cell, V<T>::make(5)); probe("unzip rvalue with a reference", s2, {0, has ? ANYN : 0, 0, 0}, [&] { auto u = opt::unzip(std::move(t)); OK(std::get<0>(u).has_value() == has && std::get<1>(u).has_value() == has && (!has || (&*std::get<0>(u) == &cell && is(*std::get<1>(u), 5))), "unzip rvalue with a reference"); }); }
            { O a = mk<T>(has, 1), b = mk<T>(has2, 2); probe("zip_with rvalues", s2, {0, has && has2 ? ANYN : 0, 0, 0}, [&] { auto z = opt::zip_with([](T&& x, T&& y) { return std::pair<T, T>(std::move(x), std::move(y)); }, std::move(a), std::move(b)); OK(z.has_value() == (has && has2), "zip_with rvalues"); if (z) OK(is(z->first, 1) && is(z->second, 2), "zip_with rvalues values"); }); }
        }
        { opt::option<std::pair<T, M>> p; if (has) p.emplace(V<T>::make(8), M(9)); probe("unzip rvalue", st, {0, ANYN, 0, 0}, [&] { auto u = opt::unzip(std::move(p)); OK(u.first.has_value() == has && u.second.has_value() == has && (!has || (is(*u.first, 8) && u.second->id == 9)), "unzip rvalue"); }); }
        if constexpr (!opt::is_option_v<T>) { opt::option<std::pair<T, M>> p; if (has) p.emplace(V<T>::make(8), M(9)); probe("get of a tuple-like rvalue", st, {0, 0, 0, 0}, [&] { auto u = opt::get<0>(std::move(p)); static_assert(std::is_same_v<decltype(u), opt::option<T&&>>); OK(u.has_value() == has && (!has || &u.get() == &p->first), "get rvalue"); }); OK(!has || is(p->first, 8), "get rvalue source"); }
        if constexpr (V<T>::conv) {
            for (int h2 = 0; h2 < 2; ++h2) {
                const bool has2 = h2; char s2[40]; std::snprintf(s2, sizeof s2, "%s/%s", st, has2 ? "holding" : "empty");
                { O a = mk<T>(has, 1); opt::option<Src> s; if (has2) s.emplace(3); const T* p = a.ptr_or_null(); probe("assign option<Src>&&", s2, {0, 0, 0, 0, 0}, [&] { a = std::move(s); }); OK(a.has_value() == has2 && (!has2 || is(a, 3)) && s.has_value() == has2 && (!has2 || s->moved), "assign option<Src>&&"); if (has && has2) OK(a.ptr_or_null() == p, "assign option<Src>&& in place"); }
                { O a = mk<T>(has, 1); opt::option<Src> s; if (has2) s.emplace(3); probe("assign const option<Src>&", s2, {0, 0, 0, 0, has2}, [&] { const auto& cs = s; a = cs; }); OK(a.has_value() == has2 && (!has2 || is(a, 3)) && s.has_value() == has2 && (!has2 || !s->moved), "assign const option<Src>&"); }
            }
            { opt::option<Src> s; if (has) s.emplace(3); probe("construct from option<Src>&&", st, {0, 0, 0, 0, 0}, [&] { O a(std::move(s)); OK(a.has_value() == has && (!has || is(a, 3)), "construct from option<Src>&&"); }); OK(s.has_value() == has && (!has || s->moved), "construct from option<Src>&& source"); }
            { opt::option<Src> s; if (has) s.emplace(3); probe("construct from const option<Src>&", st, {0, 0, 0, 0, has}, [&] { const auto& cs = s; O a(cs); OK(a.has_value() == has && (!has || is(a, 3)), "construct from const option<Src>&"); }); OK(s.has_value() == has && (!has || !s->moved), "construct from const option<Src>& source"); }
            { O a = mk<T>(has, 1); Src s(4); const T* p = a.ptr_or_null(); probe("assign Src&&", st, {0, 0, 0, 0, 0}, [&] { a = std::move(s); }); OK(is(a, 4) && s.moved, "assign Src&&"); if (has) OK(p == a.ptr_or_null(), "assign Src&& in place"); }
            { O a = mk<T>(has, 1); const Src s(4); probe("assign const Src&", st, {0, 0, 0, 0, 1}, [&] { a = s; }); OK(is(a, 4) && !s.moved, "assign const Src&"); }
            { opt::option<Src> s; if (has) s.emplace(3); probe("option_cast rvalue", st, {0, has ? ANYN : 0, 0, 0, 0}, [&] { auto a = opt::option_cast<T>(std::move(s)); OK(a.has_value() == has && (!has || is(a, 3)), "option_cast rvalue"); }); }
            { opt::option<Src> s; if (has) s.emplace(3); probe("option_cast lvalue", st, {0, has ? ANYN : 0, 0, 0, has}, [&] { auto a = opt::option_cast<T>(s); OK(a.has_value() == has && (!has || is(a, 3)), "option_cast lvalue"); }); OK(s.has_value() == has && (!has || !s->moved), "option_cast lvalue source"); }
            { O a = mk<T>(has, 1); probe("emplace from arguments", st, {0, 0, 0, 0}, [&] { a.emplace(5); }); OK(is(a, 5), "emplace from arguments"); }
            { probe("in_place from arguments", st, {0, 0, 0, 0}, [&] { O a(std::in_place, 5); OK(is(a, 5), "in_place from arguments"); }); }
            { probe("make_option<T>(arguments)", st, {0, ANYN, 0, 0}, [&] { auto a = opt::make_option<T>(5); OK(is(a, 5), "make_option<T>(arguments)"); }); }
        }
    }
    // the result of map is constructed in place: not even movable types are needed
    for (int h = 0; h < 2; ++h) {
        O a = mk<T>(h, 1);
        probe("map to an immovable type", h ? "holding" : "empty", {0, 0, 0, 0}, [&] {
            auto r = a.map([](T& v) { return Imm(V<T>::core(v).id * 2); });
            auto q = std::move(a).map([](T&& v) { return Imm(V<T>::core(v).id * 3); });
            const O& c = a; auto s = c.map([](const T& v) { return Imm(V<T>::core(v).id * 4); });
            OK(r.has_value() == bool(h) && q.has_value() == bool(h) && s.has_value() == bool(h), "map to an immovable type"); if (h) OK(r->id == 2 && q->id == 3 && s->id == 4, "map to an immovable type value"); });
        OK(!h || is(a, 1), "map to an immovable type source");
    }
    // lvalue observers and reference accessors neither copy nor move (also for move-only types)
    for (int h = 0; h < 2; ++h) {
        const bool has = h; O a = mk<T>(has, 1); const O& c = a; const char* st = has ? "holding" : "empty";
        probe("lvalue accessors", st, {0, 0, 0, 0}, [&] {
            (void)a.has_value_and([](T&) { return true; }); (void)c.has_value_and([](const T&) { return true; }); (void)std::move(c).has_value_and([](const T&&) { return true; });
            a.inspect([](T&) {}); c.inspect([](const T&) {}); std::move(c).inspect([](const T&&) {});
            auto m1 = a.map([](T& v) -> T& { return v; }); auto m2 = c.map([](const T& v) -> const T& { return v; }); OK(m1.has_value() == has && m2.has_value() == has && (!has || (&*m1 == &*a && &*m2 == &*a)), "map to reference");
            (void)a.map_or(0, [](T&) { return 1; }); (void)c.map_or(0, [](const T&) { return 1; }); (void)c.map_or_else([] { return 0; }, [](const T&) { return 1; });
            (void)a.and_then([](T&) { return opt::option<int>(1); }); (void)c.and_then([](const T&) { return opt::option<int>(1); });
            for (auto& x : a) (void)x; for (auto& x : c) (void)x;
            if (has) { T& r1 = a.get(); T& r2 = *a; T& r3 = a.value(); const T& r4 = c.get(); const T& r5 = *c; const T& r6 = c.value(); T* r7 = a.operator->(); OK(&r1 == &r2 && &r2 == &r3 && &r3 == &r4 && &r4 == &r5 && &r5 == &r6 && &r6 == r7, "accessors"); }
            opt::zip_with([](T&, const T&) {}, a, c); if constexpr (V<T>::direct) { (void)(a == c); (void)(c < a); (void)(a >= c); (void)(a == opt::none); }
        });
        OK(a.has_value() == has && (!has || is(a, 1)), "lvalue accessors source");
    }
}

template<class T> void lvalue_ops() {
    using O = opt::option<T>;
    for (int h = 0; h < 2; ++h) {
        const bool has = h; const char* st = has ? "holding" : "empty";
        const int one = has;
        auto unchanged = [&](const O& a, const char* what) { OK(a.has_value() == has && (!has || (is(a, 1) && V<T>::core(*a).copies == 0)), what); };
        { O a = mk<T>(has, 1); probe("copy construct", st, {one, 0, 0, 0}, [&] { O b(a); OK(b.has_value() == has && (!has || is(b, 1)), "copy construct"); }); unchanged(a, "copy construct source"); }
        { const O a = mk<T>(has, 1); probe("copy construct from const&&", st, {one, 0, 0, 0}, [&] { O b(std::move(a)); OK(b.has_value() == has, "copy construct from const&&"); }); unchanged(a, "copy construct from const&& source"); }
        { T v = V<T>::make(2); probe("construct from lvalue", st, {1, 0, 0, 0}, [&] { O b(v); OK(is(b, 2), "construct from lvalue"); }); OK(is(v, 2), "construct from lvalue source"); }
        { const T v = V<T>::make(2); probe("construct from const lvalue", st, {1, 0, 0, 0}, [&] { O b(v); O c(std::in_place, v); OK(is(b, 2), "construct from const lvalue"); L().cc -= 1; }); OK(is(v, 2), "construct from const lvalue source"); }
        { const T v = V<T>::make(2); probe("construct from const rvalue", st, {1, 0, 0, 0}, [&] { O b(std::move(v)); OK(is(b, 2), "construct from const rvalue"); }); }
        { T v = V<T>::make(2); probe("make_option(lvalue)", st, {1, ANYN, 0, 0}, [&] { auto b = opt::make_option(v); (void)b; }); OK(is(v, 2), "make_option(lvalue) source"); }
        { O a = mk<T>(has, 1); T v = V<T>::make(3); const T* p = a.ptr_or_null(); const int birth = has ? V<T>::core(*a).birth : 0;
          probe("assign lvalue", st, has ? Want{0, 0, 1, 0} : Want{1, 0, 0, 0}, [&] { a = v; });
          OK(is(a, 3) && is(v, 3), "assign lvalue"); if (has) OK(a.ptr_or_null() == p && V<T>::core(*a).birth == birth, "assign lvalue in place"); }
        { O a = mk<T>(has, 1); const T v = V<T>::make(3); probe("assign const rvalue", st, has ? Want{0, 0, 1, 0} : Want{1, 0, 0, 0}, [&] { a = std::move(v); }); OK(is(a, 3) && is(v, 3), "assign const rvalue"); }
        { O a = mk<T>(has, 1); T v = V<T>::make(3); probe("emplace lvalue", st, {1, 0, 0, 0}, [&] { a.emplace(v); }); OK(is(a, 3) && is(v, 3), "emplace lvalue"); }
        { O a = mk<T>(has, 1); T v = V<T>::make(3); probe("try_emplace lvalue", st, {1 - one, 0, 0, 0}, [&] { a.try_emplace(v); }); OK(is(a, has ? 1 : 3) && is(v, 3), "try_emplace lvalue"); }
        for (int y = 0; y < 2; ++y) {
            { O a = mk<T>(has, 1); probe("filter lvalue", st, {one * y, ANYN, 0, 0}, [&] { O r = a.filter([&](T&) { return y == 1; }); OK(r.has_value() == (has && y) && (!r || is(r, 1)), "filter lvalue"); }); unchanged(a, "filter lvalue source"); }
            { const O a = mk<T>(has, 1); probe("filter const lvalue", st, {one * y, ANYN, 0, 0}, [&] { O r = a.filter([&](const T&) { return y == 1; }); OK(r.has_value() == (has && y) && (!r || is(r, 1)), "filter const lvalue"); }); unchanged(a, "filter const lvalue source"); }
            { const O a = mk<T>(has, 1); probe("filter const rvalue", st, {one * y, ANYN, 0, 0}, [&] { O r = std::move(a).filter([&](const T&) { return y == 1; }); OK(r.has_value() == (has && y), "filter const rvalue"); }); unchanged(a, "filter const rvalue source"); }
        }
        { O a = mk<T>(has, 1); probe("or_else lvalue", st, {one, ANYN, 0, 0}, [&] { O r = a.or_else([&] { return mk<T>(true, 4); }); OK(is(r, has ? 1 : 4), "or_else lvalue"); }); unchanged(a, "or_else lvalue source"); }
        { O a = mk<T>(has, 1); T d = V<T>::make(5); probe("value_or lvalue, lvalue", st, {1, ANYN, 0, 0}, [&] { T r = a.value_or(d); OK(is(r, has ? 1 : 5), "value_or lvalue"); }); unchanged(a, "value_or lvalue source"); OK(is(d, 5), "value_or lvalue default"); }
        { O a = mk<T>(has, 1); T d = V<T>::make(5); probe("value_or lvalue, rvalue", st, {one, ANYN, 0, 0}, [&] { T r = a.value_or(std::move(d)); OK(is(r, has ? 1 : 5), "value_or lvalue, rvalue"); }); unchanged(a, "value_or lvalue source"); OK(is(d, 5, !has), "value_or rvalue default"); }
        { O a = mk<T>(has, 1); T d = V<T>::make(5); probe("value_or rvalue, lvalue", st, {1 - one, ANYN, 0, 0}, [&] { T r = std::move(a).value_or(d); OK(is(r, has ? 1 : 5), "value_or rvalue, lvalue"); }); OK(is(d, 5), "value_or rvalue, lvalue default"); }
        { O a = mk<T>(has, 1); T d = V<T>::make(5); probe("lvalue | lvalue value", st, {1, ANYN, 0, 0}, [&] { if constexpr (!opt::is_option_v<T>) { T r = a | d; OK(is(r, has ? 1 : 5), "| value"); } else ++L().cc; }); unchanged(a, "| value source"); OK(is(d, 5), "| value default"); }
        if constexpr (V<T>::direct) { O a = mk<T>(has, 1); probe("value_or_construct lvalue", st, {one, ANYN, 0, 0}, [&] { T r = a.value_or_construct(6); OK(is(r, has ? 1 : 6), "value_or_construct lvalue"); }); unchanged(a, "value_or_construct lvalue source"); }
        { O a = mk<T>(has, 1); T d = V<T>::make(5); probe("map_or lvalue default", st, {1 - one, ANYN, 0, 0}, [&] { T r = a.map_or(d, [](T&) { return V<T>::make(9); }); OK(is(r, has ? 9 : 5), "map_or lvalue default"); }); unchanged(a, "map_or source"); OK(is(d, 5), "map_or default"); }
        { O a = mk<T>(has, 1); probe("flatten lvalue", st, {0, ANYN, 0, 0}, [&] { opt::option<O> n(std::in_place, std::move(a)); auto r = opt::flatten(n); OK(r.has_value() == has, "flatten lvalue"); if constexpr (!opt::is_option_v<T>) { static_assert(std::is_same_v<decltype(r), opt::option<T&>>); if (has) OK(&*r == &**n && is(*n, 1), "flatten lvalue value"); } }); }
        { opt::option<std::pair<T, C>> p; if (has) p.emplace(V<T>::make(8), C(9)); probe("unzip lvalue", st, {2 * one, ANYN, 0, 0}, [&] { auto u = opt::unzip(p); OK(u.first.has_value() == has && u.second.has_value() == has && (!has || (is(*u.first, 8) && u.second->id == 9)), "unzip lvalue"); }); OK(!has || (is(p->first, 8) && !p->second.moved), "unzip lvalue source"); }
        if constexpr (!opt::is_option_v<T>) { opt::option<std::pair<T, C>> p; if (has) p.emplace(V<T>::make(8), C(9)); probe("get of a tuple-like lvalue", st, {0, 0, 0, 0}, [&] { auto u = opt::get<0>(p); static_assert(std::is_same_v<decltype(u), opt::option<T&>>); OK(u.has_value() == has && (!has || &u.get() == &p->first), "get lvalue"); }); }
        for (int h2 = 0; h2 < 2; ++h2) {
            const bool has2 = h2; char s2[40]; std::snprintf(s2, sizeof s2, "%s/%s", st, has2 ? "holding" : "empty");
            auto both = [&](const O& a, const O& b, const char* what) { unchanged(a, what); OK(b.has_value() == has2 && (!has2 || (is(b, 2) && V<T>::core(*b).copies == 0)), what); };
            { O a = mk<T>(has, 1), b = mk<T>(has2, 2); const T* p = a.ptr_or_null(); const int birth = has ? V<T>::core(*a).birth : 0;
              probe("copy assign", s2, !has2 ? Want{0, 0, 0, 0} : has ? Want{0, 0, 1, 0} : Want{1, 0, 0, 0}, [&] { a = b; });
              OK(a.has_value() == has2 && (!has2 || is(a, 2)) && b.has_value() == has2 && (!has2 || is(b, 2)), "copy assign"); if (has && has2) OK(a.ptr_or_null() == p && V<T>::core(*a).birth == birth, "copy assign in place"); }
            { O a = mk<T>(has, 1), b = mk<T>(has2, 2); probe("lvalue | lvalue", s2, {has || has2, ANYN, 0, 0}, [&] { O r = a | b; OK(r.has_value() == (has || has2) && (!r || is(r, has ? 1 : 2)), "lvalue | lvalue"); }); both(a, b, "lvalue | lvalue operands"); }
            { O a = mk<T>(has, 1), b = mk<T>(has2, 2); probe("rvalue | lvalue", s2, {!has && has2, ANYN, 0, 0}, [&] { O r = std::move(a) | b; OK(r.has_value() == (has || has2) && (!r || is(r, has ? 1 : 2)), "rvalue | lvalue"); }); OK(b.has_value() == has2 && (!has2 || is(b, 2)), "rvalue | lvalue right"); }
            { O a = mk<T>(has, 1), b = mk<T>(has2, 2); probe("lvalue | rvalue", s2, {has, ANYN, 0, 0}, [&] { O r = a | std::move(b); OK(r.has_value() == (has || has2) && (!r || is(r, has ? 1 : 2)), "lvalue | rvalue"); }); unchanged(a, "lvalue | rvalue left"); OK(!has || (b.has_value() == has2 && (!has2 || is(b, 2))), "lvalue | rvalue unused right"); }
            { O a = mk<T>(has, 1), b = mk<T>(has2, 2); probe("lvalue ^ lvalue", s2, {has != has2, ANYN, 0, 0}, [&] { O r = a ^ b; OK(r.has_value() == (has != has2) && (!r || is(r, has ? 1 : 2)), "lvalue ^ lvalue"); }); both(a, b, "lvalue ^ lvalue operands"); }
            { O a = mk<T>(has, 1), b = mk<T>(has2, 2); probe("rvalue ^ lvalue", s2, {!has && has2, ANYN, 0, 0}, [&] { O r = std::move(a) ^ b; OK(r.has_value() == (has != has2) && (!r || is(r, has ? 1 : 2)), "rvalue ^ lvalue"); }); OK(b.has_value() == has2 && (!has2 || is(b, 2)), "rvalue ^ lvalue right"); }
            { O a = mk<T>(has, 1), b = mk<T>(has2, 2); probe("lvalue ^ rvalue", s2, {has && !has2, ANYN, 0, 0}, [&] { O r = a ^ std::move(b); OK(r.has_value() == (has != has2) && (!r || is(r, has ? 1 : 2)), "lvalue ^ rvalue"); }); unchanged(a, "lvalue ^ rvalue left"); }
            { O a = mk<T>(has, 1), b = mk<T>(has2, 2); probe("lvalue & lvalue", s2, {has && has2, ANYN, 0, 0}, [&] { O r = a & b; OK(r.has_value() == (has && has2) && (!r || is(r, 2)), "lvalue & lvalue"); }); both(a, b, "lvalue & lvalue operands"); }
            { O a = mk<T>(has, 1), b = mk<T>(has2, 2); probe("|= lvalue", s2, {!has && has2, ANYN, 0, 0}, [&] { O& r = (a |= b); OK(&r == &a, "|= returns left"); }); OK(a.has_value() == (has || has2) && (!a || is(a, has ? 1 : 2)) && b.has_value() == has2 && (!has2 || is(b, 2)), "|= lvalue"); }
            { O a = mk<T>(has, 1), b = mk<T>(has2, 2); probe("zip lvalues", s2, {has && has2 ? 2 : 0, ANYN, 0, 0}, [&] { auto z = opt::zip(a, b); OK(z.has_value() == (has && has2) && (!z || (is(std::get<0>(*z), 1) && is(std::get<1>(*z), 2))), "zip lvalues"); }); both(a, b, "zip lvalues operands"); }
            { O a = mk<T>(has, 1), b = mk<T>(has2, 2); probe("zip lvalue, rvalue", s2, {has && has2, ANYN, 0, 0}, [&] { auto z = opt::zip(a, std::move(b)); OK(z.has_value() == (has && has2) && (!z || (is(std::get<0>(*z), 1) && is(std::get<1>(*z), 2))), "zip lvalue, rvalue"); }); unchanged(a, "zip lvalue, rvalue left"); }
            { O a = mk<T>(has, 1), b = mk<T>(has2, 2); probe("zip rvalue, lvalue", s2, {has && has2, ANYN, 0, 0}, [&] { auto z = opt::zip(std::move(a), b); OK(z.has_value() == (has && has2) && (!z || (is(std::get<0>(*z), 1) && is(std::get<1>(*z), 2))), "zip rvalue, lvalue"); }); OK(b.has_value() == has2 && (!has2 || is(b, 2)), "zip rvalue, lvalue right"); }
            { O a = mk<T>(has, 1), b = mk<T>(has2, 2); probe("zip_with lvalue, rvalue", s2, {0, 0, 0, 0}, [&] { auto z = opt::zip_with([](T&, T&&) { return 3; }, a, std::move(b)); auto y = opt::zip_with([](T&&, const T&) { return 3; }, std::move(a), static_cast<const O&>(b)); OK(z.has_value() == (has && has2) && y.has_value() == z.has_value(), "zip_with mixed"); }); both(a, b, "zip_with operands"); }
        }
    }
    { std::vector<T> v; v.reserve(3); for (int i = 0; i < 3; ++i) v.push_back(V<T>::make(i)); const auto& cv = v;
      if constexpr (!opt::is_option_v<T>) probe("at/at_front/at_back", "container", {0, 0, 0, 0}, [&] { auto a = opt::at(v, 1); auto b = opt::at_front(v); auto c = opt::at_back(cv); auto d = opt::at(cv, 9); OK(&*a == &v[1] && &*b == &v[0] && &*c == &v[2] && !d, "at"); }); }
    if constexpr (!opt::is_option_v<T>) { std::variant<int, T> v(V<T>::make(3)); const auto& cv = v; probe("get of a variant", "holding", {0, 0, 0, 0}, [&] { auto a = opt::get<1>(v); auto b = opt::get<T>(cv); auto c = opt::get<int>(v); auto d = opt::get<1>(std::move(v)); OK(&*a == &std::get<1>(v) && &*b == &*a && !c && &*d == &*a, "get of a variant"); }); OK(is(std::get<1>(v), 3), "get of a variant source"); }
    if constexpr (!opt::is_option_v<T>) { std::map<int, T> m; m.emplace(1, V<T>::make(4)); const auto& cm = m; probe("lookup", "map", {0, 0, 0, 0}, [&] { auto a = opt::lookup(m, 1); auto b = opt::lookup(cm, 1); auto c = opt::lookup(m, 2); OK(&*a == &m.find(1)->second && &*b == &*a && !c, "lookup"); }); }
}
// predicates taking their argument by value, or overloaded on its category, must not be able to steal the contained object
template<class T> void by_value() {
    using O = opt::option<T>; g_type = V<T>::name();
    struct Ov { int* form; bool yes; bool operator()(T&) const { *form = 1; return yes; } bool operator()(const T&) const { *form = 2; return yes; } bool operator()(T&& x) const { *form = 3; T y(std::move(x)); (void)y; return yes; } bool operator()(const T&&) const { *form = 4; return yes; } };
    for (int h = 0; h < 2; ++h) for (int y = 0; y < 2; ++y) { const bool has = h, yes = y, hit = has && yes; const char* st = has ? "holding" : "empty";
        if constexpr (V<T>::copy) {
            { O a = mk<T>(has, 1); probe("filter rvalue, predicate by value", st, {has, ANYN, 0, 0}, [&] { O r = std::move(a).filter([&](T v) { return yes && V<T>::core(v).id == 1; }); OK(r.has_value() == hit && (!r || is(r, 1)), "filter rvalue, predicate by value"); }); OK(a.has_value() == has && (!has || is(a, 1, hit)), "filter rvalue, predicate by value, source"); }
            { O a = mk<T>(has, 1); probe("filter lvalue, predicate by value", st, {has + hit, ANYN, 0, 0}, [&] { O r = a.filter([&](T) { return yes; }); OK(r.has_value() == hit && (!r || is(r, 1)), "filter lvalue, predicate by value"); }); OK(a.has_value() == has && (!has || is(a, 1)), "filter lvalue, predicate by value, source"); }
            { const O a = mk<T>(has, 1); O r = std::move(a).filter([&](T) { return yes; }); OK(r.has_value() == hit && (!r || is(r, 1)) && a.has_value() == has && (!has || is(a, 1)), "filter const rvalue, predicate by value"); }
            { O a = mk<T>(has, 1); probe("take_if, predicate by value", st, {has, ANYN, 0, 0}, [&] { O r = a.take_if([&](T) { return yes; }); OK(r.has_value() == hit && (!r || is(r, 1)), "take_if, predicate by value"); }); OK(a.has_value() == (has && !yes) && (!a || is(a, 1)), "take_if, predicate by value, source"); }
            { O a = mk<T>(has, 1); OK(a.has_value_and([&](T) { return yes; }) == hit && (!has || is(a, 1)), "has_value_and lvalue by value"); a.inspect([](T) {}); OK(!has || is(a, 1), "inspect lvalue by value"); auto m = a.map([](T v) { return V<T>::core(v).id; }); OK(m.has_value() == has && (!has || (*m == 1 && is(a, 1))), "map lvalue by value"); (void)a.map_or(0, [](T) { return 1; }); (void)a.map_or_else([] { return 0; }, [](T) { return 1; }); (void)a.and_then([](T) { return opt::option<int>(1); }); OK(!has || is(a, 1), "lvalue by value"); (void)opt::zip_with([](T, T) { return 1; }, a, a); OK(!has || is(a, 1), "zip_with lvalue by value"); }
            { const O a = mk<T>(has, 1); (void)std::move(a).has_value_and([&](T) { return yes; }); std::move(a).inspect([](T) {}); (void)std::move(a).map([](T) { return 1; }); (void)std::move(a).map_or(0, [](T) { return 1; }); (void)std::move(a).map_or_else([] { return 0; }, [](T) { return 1; }); (void)std::move(a).and_then([](T) { return opt::option<int>(1); }); (void)opt::zip_with([](T, T) { return 1; }, std::move(a), std::move(a)); OK(!has || is(a, 1), "const rvalue by value"); }
        }
        int form = 0;
        { O a = mk<T>(has, 1); form = 0; O r = std::move(a).filter(Ov{&form, yes}); OK(r.has_value() == hit && (!r || is(r, 1)) && form == (has ? 1 : 0), "filter rvalue, overloaded predicate"); }
        { O a = mk<T>(has, 1); form = 0; O r = a.take_if(Ov{&form, yes}); OK(r.has_value() == hit && (!r || is(r, 1)) && a.has_value() == (has && !yes) && (!a || is(a, 1)) && form == (has ? 1 : 0), "take_if, overloaded predicate"); }
        { O a = mk<T>(has, 1); form = 0; const bool q = a.has_value_and(Ov{&form, yes}); OK(q == hit && form == (has ? 1 : 0) && (!has || is(a, 1)), "has_value_and lvalue, overloaded predicate"); form = 0; (void)std::as_const(a).has_value_and(Ov{&form, yes}); OK(form == (has ? 2 : 0), "has_value_and const"); form = 0; (void)std::move(std::as_const(a)).has_value_and(Ov{&form, yes}); OK(form == (has ? 4 : 0), "has_value_and const rvalue"); form = 0; (void)std::move(a).has_value_and(Ov{&form, yes}); OK(form == (has ? 3 : 0), "has_value_and rvalue"); }
    }
}
// trivially copyable classes with their own assignment from other types: assigned in place when holding, constructed when empty
template<bool SPARE> struct TC { int v; int writes; int tag; TC(int x) : v(x), writes(0), tag(7) {} TC(long x) : v(int(x)), writes(100), tag(7) {} TC& operator=(int x) { v = x; ++writes; return *this; } TC& operator=(const long& x) { v = int(x); writes += 10; return *this; } };
struct TAgg { int v; int writes; TAgg& operator=(int x) { v = x; ++writes; return *this; } operator int() const { return v; } };
} // namespace
template<> struct opt::option_traits<TC<true>> { static constexpr std::uintmax_t max_level = 2; static std::uintmax_t get_level(const TC<true>* p) noexcept { int t; std::memcpy(&t, &p->tag, sizeof t); return t == -1 ? 0 : t == -2 ? 1 : std::uintmax_t(-1); } static void set_level(TC<true>* p, std::uintmax_t l) noexcept { const int t = -1 - int(l); std::memcpy(&p->tag, &t, sizeof t); } };
namespace {
template<class T> void assigns(const char* name) {
    g_type = name; using O = opt::option<T>; static_assert(std::is_trivially_copyable_v<T>);
    for (int h = 0; h < 2; ++h) { const bool has = h; mon::seen(std::string(name) + (has ? "/holding" : "/empty"));
        auto mkT = [&] { O o; if (has) { o.emplace(T{1}); o->writes = 5; } return o; };
        { O o = mkT(); const T* p = o.ptr_or_null(); o = 2; OK(o.has_value() && o->v == 2 && o->writes == (has ? 6 : 0) && (!has || o.ptr_or_null() == p), "assign int"); const int c = 3; o = c; OK(o->v == 3 && o->writes == (has ? 7 : 1), "assign const int"); }
        if constexpr (std::is_constructible_v<T, long> && !std::is_aggregate_v<T>) { O o = mkT(); const long c = 3; o = c; OK(o.has_value() && o->v == 3 && o->writes == (has ? 15 : 100), "assign const long"); }
        if constexpr (!std::is_aggregate_v<T>) for (int s = 0; s < 2; ++s) { opt::option<int> src; if (s) src = 9; { O o = mkT(); o = src; OK(o.has_value() == bool(s) && (!s || (o->v == 9 && o->writes == (has ? 6 : 0))), "assign option<int>"); } { O o = mkT(); o = std::move(src); OK(o.has_value() == bool(s) && (!s || (o->v == 9 && o->writes == (has ? 6 : 0))), "assign option<int>&&"); } }
        { O o = mkT(); T t{4}; t.writes = 50; o = t; OK(o->v == 4 && o->writes == 50, "assign same type"); }
    }
}
// every combination of the compiler's and the user's own copy and move members: the member that the operation calls for is the one that runs
#if GROUP >= 9
struct SmLog { int cc = 0, mc = 0, ca = 0, ma = 0; } g_sm;
#define SC_0(N) N(const N&) = default;
#define SC_1(N) N(const N& o) : v(o.v) { ++g_sm.cc; }
#define SMV_0(N) N(N&&) = default;
#define SMV_1(N) N(N&& o) : v(o.v) { ++g_sm.mc; o.v = -o.v; }
#define SA_0(N) N& operator=(const N&) = default;
#define SA_1(N) N& operator=(const N& o) { v = o.v; ++g_sm.ca; return *this; }
#define SMA_0(N) N& operator=(N&&) = default;
#define SMA_1(N) N& operator=(N&& o) { v = o.v; ++g_sm.ma; if (&o != this) o.v = -o.v; return *this; }
#define SD_0(N)
#define SD_1(N) ~N() {}
#define SMIX(cc, mc, ca, ma, d, lv) struct X##cc##mc##ca##ma##d##lv { static constexpr int ucc = cc, umc = mc, uca = ca, uma = ma; static constexpr bool levels = lv; int v; explicit X##cc##mc##ca##ma##d##lv(int x) : v(x) {} SC_##cc(X##cc##mc##ca##ma##d##lv) SMV_##mc(X##cc##mc##ca##ma##d##lv) SA_##ca(X##cc##mc##ca##ma##d##lv) SMA_##ma(X##cc##mc##ca##ma##d##lv) SD_##d(X##cc##mc##ca##ma##d##lv) };
#if GROUP == 9
#define SM_E(cc, mc, ca, ma) SMIX(cc, mc, ca, ma, 0, 0)
#define SM_R(cc, mc, ca, ma) SM_run<X##cc##mc##ca##ma##00>(#cc #mc #ca #ma);
#elif GROUP == 10
#define SM_E(cc, mc, ca, ma) SMIX(cc, mc, ca, ma, 1, 1)
#define SM_R(cc, mc, ca, ma) SM_run<X##cc##mc##ca##ma##11>(#cc #mc #ca #ma " destructor levels");
#elif GROUP == 11
#define SM_E(cc, mc, ca, ma) SMIX(cc, mc, ca, ma, 1, 0)
#define SM_R(cc, mc, ca, ma) SM_run<X##cc##mc##ca##ma##10>(#cc #mc #ca #ma " destructor");
#else
#define SM_E(cc, mc, ca, ma) SMIX(cc, mc, ca, ma, 0, 1)
#define SM_R(cc, mc, ca, ma) SM_run<X##cc##mc##ca##ma##01>(#cc #mc #ca #ma " levels");
#endif
#define SM_ALL(X) X(0,0,0,0) X(0,0,0,1) X(0,0,1,0) X(0,0,1,1) X(0,1,0,0) X(0,1,0,1) X(0,1,1,0) X(0,1,1,1) X(1,0,0,0) X(1,0,0,1) X(1,0,1,0) X(1,0,1,1) X(1,1,0,0) X(1,1,0,1) X(1,1,1,0) X(1,1,1,1)
SM_ALL(SM_E)
#endif
} // namespace
#if GROUP >= 9
template<class T> struct opt::option_traits<T, std::enable_if_t<T::levels>> {
    static constexpr std::uintmax_t max_level = 5;
    static std::uintmax_t get_level(const T* p) noexcept { return p->v <= -1000 && p->v > -1005 ? static_cast<std::uintmax_t>(-1000 - p->v) : std::uintmax_t(-1); }
    static void set_level(T* p, std::uintmax_t l) noexcept { p->v = -1000 - static_cast<int>(l); }
};
#endif
namespace {
#if GROUP >= 9
// counts: copy constructions, move constructions, copy assignments, move assignments expected; where the member is the compiler's nothing is seen
#define SMC(what, wcc, wmc, wca, wma) do { MCHECK(g_sm.cc == (wcc) * T::ucc && g_sm.mc == (wmc) * T::umc && g_sm.ca == (wca) * T::uca && g_sm.ma == (wma) * T::uma, std::string("C04-members/") + what, "%s of %s (%d%d): own copy constructor ran %d times (want %d), move constructor %d (%d), copy assignment %d (%d), move assignment %d (%d)", what, g_type.c_str(), a, b, g_sm.cc, (wcc) * T::ucc, g_sm.mc, (wmc) * T::umc, g_sm.ca, (wca) * T::uca, g_sm.ma, (wma) * T::uma); mon::seen(g_type + "/" + what + std::to_string(a * 2 + b)); mon::count("operations over mixed members"); } while (0)
// no copy at all; at least one move where it would be seen
#define SMOV(what, moved) do { MCHECK(g_sm.cc == 0 && g_sm.ca == 0, std::string("C04-members/") + what, "%s of %s (%d%d) copied: %d copy constructions, %d copy assignments", what, g_type.c_str(), a, b, g_sm.cc, g_sm.ca); if ((moved) && T::umc && T::uma) MCHECK(g_sm.mc + g_sm.ma >= 1, std::string("C04-members/") + what, "%s of %s (%d%d) did not move", what, g_type.c_str(), a, b); if (!(moved)) MCHECK(g_sm.mc + g_sm.ma == 0, std::string("C04-members/") + what, "%s of %s (%d%d) moved", what, g_type.c_str(), a, b); mon::seen(g_type + "/" + what + std::to_string(a * 2 + b)); mon::count("operations over mixed members"); } while (0)
#define SV(o, x) MCHECK((o).has_value() && (o)->v == (x), "C04-members-state", "%s (%d%d): holds another value", g_type.c_str(), a, b)
template<class T> void SM_run(const char* name) {
    g_type = std::string("own members ") + name; using O = opt::option<T>;
    auto yes = [](const T&) { return true; };
    for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) {
        mon::context("C04 %s, target %d, source %d", g_type.c_str(), a, b);
        const auto two = [&](auto&& f) { O x, y; if (a) x.emplace(3); if (b) y.emplace(5); g_sm = {}; f(x, y); };
        two([&](O& x, O& y) { x = std::as_const(y); SMC("copy assignment", b && !a, 0, a && b, 0); MCHECK(x.has_value() == bool(b), "C04-members-state", "copy assignment"); if (b) { SV(x, 5); SV(y, 5); } });
        two([&](O& x, O& y) { x = std::move(y); SMC("move assignment", 0, b && !a, 0, a && b); if (b) SV(x, 5); });
        two([&](O&, O& y) { O z(std::as_const(y)); SMC("copy construction", b, 0, 0, 0); if (b) SV(z, 5); });
        two([&](O&, O& y) { O z(std::move(y)); SMC("move construction", 0, b, 0, 0); if (b) SV(z, 5); });
        two([&](O&, O& y) { O z = y.take(); SMOV("take", b); if (b) SV(z, 5); MCHECK(!y, "C04-members-state", "take"); });
        two([&](O&, O& y) { O z = y.take_if(yes); SMOV("take_if", b); if (b) SV(z, 5); MCHECK(!y, "C04-members-state", "take_if"); });
        two([&](O& x, O& y) { x.swap(y); SMOV("swap", a || b); if (b) SV(x, 5); if (a) SV(y, 3); });
        two([&](O& x, O& y) { opt::swap(x, y); SMOV("swap function", a || b); if (b) SV(x, 5); if (a) SV(y, 3); });
        two([&](O&, O& y) { O z = std::move(y).filter(yes); SMOV("filter rvalue", b); if (b) SV(z, 5); }); two([&](O&, O& y) { O z = std::as_const(y).filter(yes); if (b) { SV(z, 5); SV(y, 5); } MCHECK(g_sm.ca == 0 && g_sm.cc == b * T::ucc && g_sm.ma == 0, "C04-members/filter", "filter of %s", g_type.c_str()); });
        two([&](O& x, O& y) { O z = std::move(x).or_else([&] { return std::move(y); }); SMOV("or_else rvalue", a || b); if (a || b) SV(z, a ? 3 : 5); });
        two([&](O& x, O& y) { O z = std::move(x) | std::move(y); SMOV("or rvalues", a || b); if (a || b) SV(z, a ? 3 : 5); if (a && b) SV(y, 5); }); two([&](O& x, O& y) { O z = std::as_const(x) | std::as_const(y); SMC("or lvalues", a || b, 0, 0, 0); if (a || b) SV(z, a ? 3 : 5); });
        two([&](O& x, O& y) { O z = std::move(x) ^ std::move(y); SMOV("xor rvalues", a != b); if (a != b) SV(z, a ? 3 : 5); }); two([&](O& x, O& y) { O z = x & std::move(y); SMOV("and rvalue", a && b); if (a && b) SV(z, 5); if (a) SV(x, 3); }); two([&](O& x, O& y) { O z = std::move(x) | std::as_const(y); if (a) SMOV("or rvalue lvalue", true); if (b) SV(y, 5); if (a || b) SV(z, a ? 3 : 5); });
        two([&](O& x, O& y) { x |= std::move(y); SMC("or assign rvalue", 0, !a && b, 0, 0); if (a || b) SV(x, a ? 3 : 5); }); two([&](O& x, O& y) { x |= std::as_const(y); SMC("or assign lvalue", !a && b, 0, 0, 0); if (b) SV(y, 5); });
        two([&](O&, O& y) { if (b) { T z = *std::move(y); SMC("dereference rvalue", 0, 1, 0, 0); T w = std::move(z); (void)w; } }); two([&](O& x, O&) { T d(9); g_sm = {}; T z = std::move(x).value_or(std::move(d)); SMOV("value_or rvalue", true); MCHECK(z.v == (a ? 3 : 9), "C04-members-state", "value_or"); }); two([&](O& x, O&) { const T d(9); g_sm = {}; T z = std::as_const(x).value_or(d); SMC("value_or lvalue", 1, 0, 0, 0); MCHECK(z.v == (a ? 3 : 9), "C04-members-state", "value_or"); });
        two([&](O& x, O&) { T d(9); g_sm = {}; x = std::move(d); SMC("assign rvalue value", 0, !a, 0, a); SV(x, 9); }); two([&](O& x, O&) { const T d(9); g_sm = {}; x = d; SMC("assign lvalue value", !a, 0, a, 0); SV(x, 9); }); two([&](O& x, O&) { T d(9); g_sm = {}; x.emplace(std::move(d)); SMC("emplace rvalue", 0, 1, 0, 0); x.reset(); x.emplace(4); }); two([&](O& x, O&) { const T d(9); g_sm = {}; x.emplace(d); SMC("emplace lvalue", 1, 0, 0, 0); SV(x, 9); }); two([&](O& x, O&) { T d(9); g_sm = {}; x.try_emplace(std::move(d)); SMC("try_emplace rvalue", 0, !a, 0, 0); if (a) MCHECK(d.v == 9, "C04-members-state", "try_emplace touched its argument"); });
        two([&](O&, O& y) { auto z = std::move(y).map([](T&& t) { return T(std::move(t)); }); SMOV("map move out", b); if (b) SV(z, 5); }); two([&](O& x, O& y) { auto z = opt::zip(std::move(x), std::move(y)); SMOV("zip rvalues", a && b); if (a && b) { MCHECK(std::get<0>(*z).v == 3 && std::get<1>(*z).v == 5, "C04-members-state", "zip"); g_sm = {}; auto u = opt::unzip(std::move(z)); SMOV("unzip rvalue", true); SV(std::get<0>(u), 3); SV(std::get<1>(u), 5); } });
        two([&](O& x, O&) { opt::option<O> n(std::move(x)); SMC("wrap rvalue", 0, a, 0, 0); g_sm = {}; O f = opt::flatten(std::move(n)); SMOV("flatten rvalue", a); if (a) SV(f, 3); }); two([&](O& x, O&) { if (a) { auto m = opt::make_option(std::move(*x)); SMC("make_option rvalue", 0, 1, 0, 0); SV(m, 3); } });
        if (a == 0 && b == 1) { struct W { std::vector<O> v; } w; w.v.reserve(1); w.v.emplace_back(T(6)); g_sm = {}; O z = std::move(w.v[0]); SMC("from vector element", 0, 1, 0, 0); SV(z, 6); const auto make = [] { return T(8); }; g_sm = {}; auto m = O(T(1)).map([&](T&&) { return make(); }); SMC("map to prvalue", 0, 1, 0, 0); SV(m, 8); }
    }
    mon::count("types");
}
#endif
template<class T> void run() {
    g_type = V<T>::name();
    if (mon::st().only && g_type.find(mon::st().only) == std::string::npos) return;
    rvalue_ops<T>();
    if constexpr (V<T>::copy) lvalue_ops<T>();
    mon::count("types");
    mon::sample(g_type + ": every operation in each value category and state, copy/move counts compared with the exact expectation");
}
}
int main(int argc, char** argv) {
    mon::init(argc, argv);
#if GROUP == 0
    run<C>();
#elif GROUP == 1
    run<Cs>();
#elif GROUP == 2
    run<M>(); run<Ms>(); run<AggM>();
#elif GROUP == 3
    run<std::pair<C, bool>>(); run<std::pair<M, bool>>();
#elif GROUP == 4
    run<std::tuple<int, Cs>>(); run<std::tuple<int, M>>();
#elif GROUP == 5
    run<std::array<C, 1>>(); run<AggC>(); run<std::array<Ms, 1>>();
#elif GROUP == 6
    run<opt::option<C>>(); run<opt::option<M>>();
#elif GROUP == 7
    run<opt::option<Cs>>(); run<opt::option<std::pair<Ms, bool>>>(); run<std::pair<opt::option<Ms>, bool>>();
#elif GROUP == 8
    by_value<C>(); by_value<Cs>(); by_value<M>(); by_value<Ms>(); by_value<std::pair<C, bool>>(); by_value<std::pair<M, bool>>(); by_value<AggC>(); by_value<std::array<Ms, 1>>();
    assigns<TC<false>>("trivially copyable class"); assigns<TC<true>>("trivially copyable class with spare"); assigns<TAgg>("trivially copyable aggregate");
#elif GROUP >= 9
    SM_ALL(SM_R)
#endif
    return mon::finish();
}
