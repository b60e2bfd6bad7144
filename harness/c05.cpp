// C05: combinators, with callables that log each call, its argument and how they themselves were invoked.
#ifndef GROUP
#define GROUP 0
#endif
#include "types.hpp"
using namespace ty;
namespace {
std::string g_type;
enum { NONE = -1, L = 0, CL = 1, R = 2, CR = 3 };
const char* const catname[] = {"&", "const&", "&&", "const&&"};
template<class X> constexpr int cat() { return (std::is_lvalue_reference_v<X> ? 0 : 2) + (std::is_const_v<std::remove_reference_t<X>> ? 1 : 0); }
template<int I, class O> constexpr decltype(auto) as(O& o) {
    if constexpr (I == 0) return static_cast<O&>(o);
    else if constexpr (I == 1) return static_cast<const O&>(o);
    else if constexpr (I == 2) return static_cast<O&&>(o);
    else return static_cast<const O&&>(o);
}
struct Log {
    int calls = 0, nargs = -1, arg = NONE, own = NONE, id = UNKNOWN; const volatile void* addr = nullptr; bool holding = false;
    const void* opt = nullptr; bool (*probe)(const void*) = nullptr;
};
// A callable overloaded on everything; does not touch its argument
template<class Elem, class Ret>
struct Fn {
    Log* log; Ret (*ret)(int);
    template<int Own, class... A> Ret call(A&&... a) const {
        ++log->calls; log->own = Own; log->nargs = int(sizeof...(A));
        if constexpr (sizeof...(A) == 1) {
            ((log->arg = cat<A&&>(), log->addr = std::addressof(a), log->id = Ad<Elem>::id(a)), ...);
        }
        if (log->probe) log->holding = log->probe(log->opt);
        return ret(log->calls);
    }
    template<class... A> Ret operator()(A&&... a) & { return call<0>(static_cast<A&&>(a)...); }
    template<class... A> Ret operator()(A&&... a) const& { return call<1>(static_cast<A&&>(a)...); }
    template<class... A> Ret operator()(A&&... a) && { return call<2>(static_cast<A&&>(a)...); }
    template<class... A> Ret operator()(A&&... a) const&& { return call<3>(static_cast<A&&>(a)...); }
};
struct Boolish { bool v; explicit operator bool() const { return v; } };
struct BoolImp { bool v; operator bool() const { return v; } };
struct Imm { int v; explicit Imm(int x) : v(x) {} Imm(const Imm&) = delete; Imm& operator=(const Imm&) = delete; };
int g_cell[4];
template<class T> struct Under { using E = std::remove_cv_t<std::remove_reference_t<T>>; };

// the option under test, with the object a reference option refers to
template<class T> struct Holder {
    using E = typename Under<T>::E;
    static constexpr bool ref = std::is_reference_v<T>;
    std::conditional_t<ref, E, int> obj;
    opt::option<T> o;
    bool has; int id;
    static std::conditional_t<ref, E, int> mk_obj(int id) { if constexpr (ref) return Ad<E>::make(id); else return 0; }
    Holder(bool h, int i) : obj(mk_obj(i)), has(h), id(i) {
        if (!h) return;
        if constexpr (ref) o.emplace(static_cast<T&&>(obj));
        else o.emplace(Ad<E>::make(i));
    }
    const volatile void* where() { if constexpr (ref) return std::addressof(obj); else return std::addressof(o.get_unchecked()); }
    bool same() const { return o.has_value() == has && (!has || Ad<E>::id(*o) == id); }
};
template<class O> bool probe_has(const void* p) { return static_cast<const O*>(p)->has_value(); }
// The documented type of get() for receiver form I
template<class T, int I> using Got = std::conditional_t<I == 0, T&, std::conditional_t<I == 1, const T&, std::conditional_t<I == 2, T&&, const T&&>>>;
template<class T, int I> constexpr int want_cat() { return cat<Got<T, I>>(); }
template<class E> bool equiv(int a, int b) { return a == b; }

template<class T, int I, int K> struct One {
    using E = typename Under<T>::E; using O = opt::option<T>; using H = Holder<T>;
    // move-only contents cannot be taken from lvalues or const rvalues
    static constexpr bool can_take = std::is_rvalue_reference_v<T> ? I >= 2 : std::is_reference_v<T> || std::is_constructible_v<E, Got<T, I>>;
    const char* op; bool has; int id;
    // what every call must look like
    void verify(H& h, const Log& l, int want_calls, bool exact_cat = true, bool intact = true) {
        MCHECK(l.calls == want_calls, std::string("C05-calls/") + op, "%s on %s option of %s: callable ran %d times instead of %d", op, has ? "holding" : "empty", g_type.c_str(), l.calls, want_calls);
        if (l.calls && want_calls) {
            if (l.nargs == 1) {
                MCHECK(l.addr == h.where(), std::string("C05-identity/") + op, "%s of %s: callable was given an object other than the contained one", op, g_type.c_str());
                constexpr int wanted = want_cat<T, I>();
                MCHECK(exact_cat ? l.arg == wanted : (l.arg & 1) == (wanted & 1), std::string("C05-category/") + op, "%s on %s of %s: argument was %s instead of %s", op, catname[I], g_type.c_str(), catname[l.arg], catname[wanted]);
                MCHECK(l.id == id, std::string("C05-argvalue/") + op, "%s of %s: callable saw value id %d instead of %d", op, g_type.c_str(), l.id, id);
                MCHECK(l.holding, std::string("C05-during/") + op, "%s of %s: the option was not holding while the callable ran", op, g_type.c_str());
            } else {
                MCHECK(!l.holding, std::string("C05-during/") + op, "%s of %s: the option was holding while the default ran", op, g_type.c_str());
            }
            MCHECK(l.own == K, std::string("C05-callable-category/") + op, "%s of %s: callable given as %s was invoked as %s", op, g_type.c_str(), catname[K], catname[l.own]);
        }
        if (intact) MCHECK(h.same(), std::string("C05-unchanged/") + op, "%s on %s option of %s (id %d) changed it (has %d, id %d)", op, catname[I], g_type.c_str(), id, h.o.has_value(), h.o.has_value() ? Ad<E>::id(*h.o) : -9);
        mon::seen(g_type + "/" + op + catname[I] + catname[K] + (has ? "h" : "e") + std::to_string(id % 4));
        mon::digest(mon::mix(mon::hash_str(op), l.calls * 100 + I * 10 + K));
        mon::count("calls logged", l.calls);
    }
    Log log(H& h) { Log l; l.opt = &h.o; l.probe = &probe_has<O>; return l; }
    void begin(const char* name) { op = name; mon::context("C05 %s: %s option %s, %s id %d, callable %s", g_type.c_str(), op, catname[I], has ? "holding" : "empty", id, catname[K]); }

    void run(bool h_, int id_) {
        has = h_; id = id_;
        const int n = has ? 1 : 0;
        { begin("map"); H h(has, id); Log l = log(h); Fn<E, long> f{&l, [](int c) { return 70L + c; }};
          auto r = as<I>(h.o).map(as<K>(f)); static_assert(std::is_same_v<decltype(r), opt::option<long>>);
          verify(h, l, n); MCHECK(r.has_value() == has && (!has || *r == 71), "C05-result/map", "map of %s: wrong result", g_type.c_str()); }
        { begin("map to immovable"); H h(has, id); Log l = log(h); Fn<E, Imm> f{&l, [](int c) { return Imm(5 + c); }};
          auto r = as<I>(h.o).map(as<K>(f)); static_assert(std::is_same_v<decltype(r), opt::option<Imm>>);
          verify(h, l, n); MCHECK(r.has_value() == has && (!has || r->v == 6), "C05-result/map immovable", "map of %s: wrong result", g_type.c_str()); }
        { begin("map to const"); H h(has, id); Log l = log(h); Fn<E, const std::string> f{&l, [](int c) -> const std::string { return std::string(std::size_t(c), 'z'); }};
          auto r = as<I>(h.o).map(as<K>(f)); static_assert(std::is_same_v<decltype(r), opt::option<std::string>>);
          verify(h, l, n); MCHECK(r.has_value() == has && (!has || *r == "z"), "C05-result/map const", "map of %s: wrong result", g_type.c_str()); }
        { begin("map to reference"); H h(has, id); Log l = log(h); Fn<E, int&> f{&l, [](int c) -> int& { return g_cell[c]; }};
          auto r = as<I>(h.o).map(as<K>(f)); static_assert(std::is_same_v<decltype(r), opt::option<int&>>);
          verify(h, l, n); MCHECK(r.has_value() == has && (!has || &*r == &g_cell[1]), "C05-result/map ref", "map of %s: wrong referent", g_type.c_str()); }
        { begin("map to rvalue reference"); H h(has, id); Log l = log(h); Fn<E, const int&&> f{&l, [](int c) -> const int&& { return static_cast<const int&&>(g_cell[c]); }};
          auto r = as<I>(h.o).map(as<K>(f)); static_assert(std::is_same_v<decltype(r), opt::option<const int&&>>);
          verify(h, l, n); MCHECK(r.has_value() == has && (!has || r.ptr_or_null() == &g_cell[1]), "C05-result/map rref", "map of %s: wrong referent", g_type.c_str()); }
        { begin("map to option"); H h(has, id); Log l = log(h); const bool inner = id % 2; static bool s_inner; s_inner = inner; Fn<E, opt::option<int>> f{&l, [](int c) { return s_inner ? opt::option<int>(c + 3) : opt::option<int>(opt::none); }};
          auto r = as<I>(h.o).map(as<K>(f)); static_assert(std::is_same_v<decltype(r), opt::option<opt::option<int>>>);
          verify(h, l, n); MCHECK(r.has_value() == has && (!has || (r->has_value() == inner && (!inner || **r == 4))), "C05-result/map option", "map of %s: wrong nested result", g_type.c_str()); }
        { begin("map to bool"); H h(has, id); Log l = log(h); static bool s_b; s_b = id % 2; Fn<E, bool> f{&l, [](int) { return s_b; }};
          auto r = as<I>(h.o).map(as<K>(f)); static_assert(std::is_same_v<decltype(r), opt::option<bool>>);
          verify(h, l, n); MCHECK(r.has_value() == has && (!has || *r == s_b), "C05-result/map bool", "map of %s: wrong result", g_type.c_str()); }
        for (int inner = 0; inner < 2; ++inner) {
            static bool s_inner; s_inner = inner;
            { begin("and_then"); H h(has, id); Log l = log(h); Fn<E, opt::option<std::string>> f{&l, [](int c) { return s_inner ? opt::option<std::string>(std::string(std::size_t(40 + c), 'q')) : opt::none; }};
              auto r = as<I>(h.o).and_then(as<K>(f)); static_assert(std::is_same_v<decltype(r), opt::option<std::string>>);
              verify(h, l, n); MCHECK(r.has_value() == (has && inner) && (!r || r->size() == 41), "C05-result/and_then", "and_then of %s: wrong result", g_type.c_str()); }
            { begin("and_then to const&"); H h(has, id); Log l = log(h); static opt::option<int> src; src = s_inner ? opt::option<int>(8) : opt::none; Fn<E, const opt::option<int>&> f{&l, [](int) -> const opt::option<int>& { return src; }};
              auto r = as<I>(h.o).and_then(as<K>(f)); static_assert(std::is_same_v<decltype(r), opt::option<int>>);
              verify(h, l, n); MCHECK(r.has_value() == (has && inner) && (!r || *r == 8) && src.has_value() == s_inner, "C05-result/and_then const", "and_then of %s: wrong result", g_type.c_str()); }
            { begin("and_then to option<int&>"); H h(has, id); Log l = log(h); Fn<E, opt::option<int&>> f{&l, [](int c) { return s_inner ? opt::option<int&>(g_cell[c]) : opt::none; }};
              auto r = as<I>(h.o).and_then(as<K>(f)); static_assert(std::is_same_v<decltype(r), opt::option<int&>>);
              verify(h, l, n); MCHECK(r.has_value() == (has && inner) && (!r || &*r == &g_cell[1]), "C05-result/and_then ref", "and_then of %s: wrong result", g_type.c_str()); }
            { begin("and_then to nested"); H h(has, id); Log l = log(h); using N2 = opt::option<opt::option<bool>>; Fn<E, N2> f{&l, [](int) { return s_inner ? N2(opt::option<bool>(opt::none)) : N2(opt::none); }};
              auto r = as<I>(h.o).and_then(as<K>(f)); static_assert(std::is_same_v<decltype(r), N2>);
              verify(h, l, n); MCHECK(r.has_value() == (has && inner) && (!r || !r->has_value()), "C05-result/and_then nested", "and_then of %s: wrong result", g_type.c_str()); }
            { begin("has_value_and"); H h(has, id); Log l = log(h); Fn<E, bool> f{&l, [](int) { return s_inner; }};
              const bool r = as<I>(h.o).has_value_and(as<K>(f));
              verify(h, l, n); MCHECK(r == (has && inner), "C05-result/has_value_and", "has_value_and of %s gave %d", g_type.c_str(), r); }
            { begin("has_value_and (convertible)"); H h(has, id); Log l = log(h); Fn<E, BoolImp> f{&l, [](int) { return BoolImp{s_inner}; }};
              const bool r = as<I>(h.o).has_value_and(as<K>(f));
              verify(h, l, n); MCHECK(r == (has && inner), "C05-result/has_value_and", "has_value_and of %s gave %d", g_type.c_str(), r); }
            { begin("has_value_and (int)"); H h(has, id); Log l = log(h); Fn<E, int> f{&l, [](int) { return s_inner ? 2 : 0; }};
              const bool r = as<I>(h.o).has_value_and(as<K>(f));
              verify(h, l, n); MCHECK(r == (has && inner), "C05-result/has_value_and", "has_value_and of %s gave %d", g_type.c_str(), r); }
            if constexpr (can_take) {
                { begin("filter"); H h(has, id); Log l = log(h); Fn<E, bool> f{&l, [](int) { return s_inner; }};
                  auto r = as<I>(h.o).filter(as<K>(f)); static_assert(std::is_same_v<decltype(r), O>);
                  const bool out = has && inner;
                  verify(h, l, n, false, I != 2 || !out);
                  MCHECK(r.has_value() == out && (!out || Ad<E>::id(*r) == id), "C05-result/filter", "filter of %s: wrong result", g_type.c_str());
                  MCHECK(h.o.has_value() == has, "C05-unchanged/filter", "filter of %s changed whether the option holds", g_type.c_str());
                  if constexpr (std::is_reference_v<T>) MCHECK(!out || r.ptr_or_null() == h.where(), "C05-result/filter ref", "filter of %s: another referent", g_type.c_str()); }
                { begin("filter (explicit bool)"); H h(has, id); Log l = log(h); Fn<E, Boolish> f{&l, [](int) { return Boolish{s_inner}; }};
                  auto r = as<I>(h.o).filter(as<K>(f));
                  verify(h, l, n, false, I != 2 || !(has && inner));
                  MCHECK(r.has_value() == (has && inner) && (!r || Ad<E>::id(*r) == id), "C05-result/filter", "filter of %s: wrong result", g_type.c_str()); }
            }
            { begin("map_or_else"); H h(has, id); Log l = log(h), ld = log(h); Fn<E, std::string> f{&l, [](int c) { return "f" + std::to_string(c); }}; Fn<E, std::string> d{&ld, [](int c) { return "d" + std::to_string(c); }};
              auto r = inner ? as<I>(h.o).map_or_else(as<K>(d), as<K>(f)) : as<I>(h.o).map_or_else(as<K>(d), as<K>(f));
              static_assert(std::is_same_v<decltype(r), std::string>);
              verify(h, l, n); verify(h, ld, 1 - n); MCHECK(r == (has ? "f1" : "d1"), "C05-result/map_or_else", "map_or_else of %s gave %s", g_type.c_str(), r.c_str()); }
            { begin("map_or"); H h(has, id); Log l = log(h); Fn<E, const char*> f{&l, [](int) { return "mapped"; }};
              std::string def = "default"; std::string r;
              if (inner) { r = as<I>(h.o).map_or(def, as<K>(f)); MCHECK(def == "default", "C05-unchanged/map_or default", "map_or changed an lvalue default"); }
              else r = as<I>(h.o).map_or(std::move(def), as<K>(f));
              static_assert(std::is_same_v<decltype(as<I>(h.o).map_or(static_cast<const std::string&>(def), as<K>(f))), std::string>);
              if (!inner && has) MCHECK(def == "default", "C05-unchanged/map_or default", "map_or on a holding option took the default");
              verify(h, l, n); MCHECK(r == (has ? "mapped" : "default"), "C05-result/map_or", "map_or of %s gave %s", g_type.c_str(), r.c_str()); }
            { begin("map_or (converting)"); H h(has, id); Log l = log(h); Fn<E, double> f{&l, [](int) { return 2.75; }};
              auto r = as<I>(h.o).map_or(inner, as<K>(f)); static_assert(std::is_same_v<decltype(r), int>);
              verify(h, l, n); MCHECK(r == (has ? 2 : inner), "C05-result/map_or", "map_or of %s gave %d", g_type.c_str(), r); }
            if constexpr (I == 0 && (std::is_reference_v<T> || std::is_move_constructible_v<E>)) {
                { begin("take_if"); H h(has, id); Log l = log(h); Fn<E, bool> f{&l, [](int) { return s_inner; }};
                  auto r = as<I>(h.o).take_if(as<K>(f)); static_assert(std::is_same_v<decltype(r), O>);
                  const bool out = has && inner;
                  verify(h, l, n, false, !out);
                  MCHECK(r.has_value() == out && (!out || Ad<E>::id(*r) == id), "C05-result/take_if", "take_if of %s: wrong result", g_type.c_str());
                  MCHECK(h.o.has_value() == (has && !inner), "C05-result/take_if left", "take_if of %s: option left %d", g_type.c_str(), h.o.has_value()); }
                { begin("take_if (explicit bool)"); H h(has, id); Log l = log(h); Fn<E, Boolish> f{&l, [](int) { return Boolish{s_inner}; }};
                  auto r = as<I>(h.o).take_if(as<K>(f));
                  verify(h, l, n, false, !(has && inner));
                  MCHECK(r.has_value() == (has && inner) && h.o.has_value() == (has && !inner), "C05-result/take_if", "take_if of %s: wrong result", g_type.c_str()); }
            }
            if constexpr ((I == 1 || I == 2) && (std::is_reference_v<T> || can_take)) {
                begin("or_else"); H h(has, id); Log l = log(h); static int s_id; s_id = (id + 1) % Ad<E>::N; static H* other; H oth(true, s_id); other = &oth;
                Fn<E, O> f{&l, [](int) -> O { if (!s_inner) return opt::none; if constexpr (std::is_reference_v<T>) return O(static_cast<T&&>(other->obj)); else return O(Ad<E>::make(s_id)); }};
                auto r = as<I>(h.o).or_else(as<K>(f)); static_assert(std::is_same_v<decltype(r), O>);
                verify(h, l, 1 - n, true, I != 2 || !has);
                MCHECK(r.has_value() == (has || inner) && (!r || Ad<E>::id(*r) == (has ? id : s_id)), "C05-result/or_else", "or_else of %s: wrong result", g_type.c_str());
                MCHECK(h.o.has_value() == has, "C05-unchanged/or_else", "or_else of %s changed whether the option holds", g_type.c_str());
            }
        }
        { begin("inspect"); H h(has, id); Log l = log(h); Fn<E, int> f{&l, [](int) { return 0; }};
          decltype(auto) r = as<I>(h.o).inspect(as<K>(f));
          static_assert(std::is_same_v<decltype(r), std::conditional_t<I == 0 || I == 2, O&, const O&>>);
          verify(h, l, n); MCHECK(&r == &h.o, "C05-result/inspect", "inspect of %s did not return the option", g_type.c_str()); }
        { begin("inspect void"); H h(has, id); Log l = log(h); Fn<E, void> f{&l, [](int) {}}; as<I>(h.o).inspect(as<K>(f)); verify(h, l, n); }
    }
};
template<class T, int I> void forms(bool h, int id) { One<T, I, 0>{}.run(h, id); One<T, I, 1>{}.run(h, id); One<T, I, 2>{}.run(h, id); One<T, I, 3>{}.run(h, id); }
template<class T> void mutating() {
    using E = typename Under<T>::E; using H = Holder<T>;
    if constexpr (!std::is_const_v<std::remove_reference_t<T>> && std::is_move_assignable_v<E>) {
        const int a = 1 % Ad<E>::N, b = (Ad<E>::N > 2 ? 2 : 0);
        auto set = [&](E& x) -> int { x = Ad<E>::make(b); return 1; };
        const auto ok = [&](const char* op, H& h) { MCHECK(h.o.has_value() && Ad<E>::id(*h.o) == b, std::string("C05-mutate/") + op, "%s of %s: change made by the callable is not in the option", op, g_type.c_str()); mon::seen(g_type + "/mutating " + op); };
        { H h(true, a); (void)h.o.map(set); ok("map", h); }
        { H h(true, a); h.o.inspect(set); ok("inspect", h); }
        { H h(true, a); (void)h.o.has_value_and(set); ok("has_value_and", h); }
        { H h(true, a); (void)h.o.map_or(1, set); ok("map_or", h); }
        { H h(true, a); (void)h.o.map_or_else([] { return 3; }, set); ok("map_or_else", h); }
        { H h(true, a); (void)h.o.and_then([&](E& x) { set(x); return opt::option<int>(1); }); ok("and_then", h); }
        { H h(true, a); auto r = h.o.take_if([&](E& x) { set(x); return false; }); ok("take_if", h); MCHECK(!r, "C05-mutate/take_if result", "take_if of %s", g_type.c_str()); }
        { H h(true, a); auto r = h.o.take_if([&](E& x) { set(x); return true; }); MCHECK(!h.o && r && Ad<E>::id(*r) == b, "C05-mutate/take_if taken", "take_if of %s", g_type.c_str()); }
        if constexpr (One<T, 0, 0>::can_take) { H h(true, a); auto r = h.o.filter([&](E& x) { set(x); return true; }); ok("filter", h); MCHECK(r && Ad<E>::id(*r) == b, "C05-mutate/filter result", "filter of %s", g_type.c_str()); }
        if constexpr (!std::is_lvalue_reference_v<T>) { H h(true, a); auto r = std::move(h.o).map([&](E&& x) { return E(static_cast<E&&>(x)); }); MCHECK(r && Ad<E>::id(*r) == a && h.o.has_value(), "C05-mutate/map move out", "moving out in map of %s", g_type.c_str()); }
        { H h(false, a); (void)h.o.map(set); h.o.inspect(set); (void)h.o.has_value_and(set); (void)h.o.map_or(1, set); MCHECK(!h.o, "C05-mutate/empty", "callables ran on an empty option of %s", g_type.c_str()); }
        // the default of or_else / map_or_else may change the (empty) option itself
        if constexpr (!std::is_reference_v<T>) {
            H h(false, a); auto r = h.o.map_or_else([&] { h.o.emplace(Ad<E>::make(b)); return 5; }, [](const E&) { return 6; }); ok("map_or_else default", h); MCHECK(r == 5, "C05-mutate/map_or_else default", "map_or_else of %s", g_type.c_str());
        }
    }
}
// callables that are plain functions: one signature each, not overloaded, not a class, given as a function, a pointer, a const pointer and a temporary pointer
struct PF { static inline int calls = 0, id = -9, to = 0; static inline const volatile void* addr = nullptr; static inline bool ret = false; };
template<class E> struct Plain {
    static void rec(const volatile void* p, int id) { ++PF::calls; PF::addr = p; PF::id = id; }
    static bool lref(E& x) { rec(std::addressof(x), Ad<E>::id(x)); if constexpr (std::is_move_assignable_v<E>) x = Ad<E>::make(PF::to); return PF::ret; }
    static bool cref(const E& x) { rec(std::addressof(x), Ad<E>::id(x)); return PF::ret; }
    static bool cref_noex(const E& x) noexcept { rec(std::addressof(x), Ad<E>::id(x)); return PF::ret; }
    static bool rref(E&& x) { rec(std::addressof(x), Ad<E>::id(x)); return PF::ret; }
    static bool val(E x) { rec(nullptr, Ad<E>::id(x)); return PF::ret; }
    static opt::option<int> opt_lref(E& x) { return lref(x) ? opt::option<int>(4) : opt::none; }
};
template<class T> void plain_functions() {
    using E = typename Under<T>::E; using H = Holder<T>;
    constexpr bool is_const = std::is_const_v<std::remove_reference_t<T>>, rv = std::is_rvalue_reference_v<T>;
    using P = Plain<E>; int n = 0;
    const int a = 1 % Ad<E>::N; PF::to = Ad<E>::N > 2 ? 2 : 0;
    for (int has = 0; has < 2; ++has) for (int ret = 0; ret < 2; ++ret) {
        const auto each = [&](const char* name, auto f, bool changes, auto&& call) {
            H h(has, a); PF::calls = 0; PF::ret = ret; PF::addr = nullptr; mon::context("C05 %s: plain function %s, %s, returns %d", g_type.c_str(), name, has ? "holding" : "empty", ret);
            const volatile void* const w = has ? h.where() : nullptr;
            call(h, f);
            MCHECK(PF::calls == has, std::string("C05-plain-calls/") + name, "%s of %s: plain function ran %d times", name, g_type.c_str(), PF::calls);
            if (has) { MCHECK(PF::id == a, std::string("C05-plain-arg/") + name, "%s of %s: plain function saw %d", name, g_type.c_str(), PF::id); MCHECK(PF::addr == nullptr || PF::addr == w, std::string("C05-plain-identity/") + name, "%s of %s: plain function was given another object", name, g_type.c_str()); }
            if (has && h.o.has_value()) MCHECK(Ad<E>::id(*h.o) == (changes ? PF::to : a), std::string("C05-plain-left/") + name, "%s of %s: the option holds %d afterwards", name, g_type.c_str(), Ad<E>::id(*h.o));
            mon::seen(g_type + "/plain " + name + std::to_string(has * 2 + ret)); mon::count("plain function calls", PF::calls); ++n;
        };
        const auto all = [&](const char* kind, auto f, bool changes) {
            const std::string k = kind; const bool hv = has && ret;
            const auto nm = [&](const char* op) { return k + " " + op; };
            each(nm("map").c_str(), f, changes, [&](H& h, auto g) { auto r = h.o.map(g); MCHECK(r.has_value() == bool(has) && (!has || *r == bool(ret)), "C05-plain-result/map", "map of %s", g_type.c_str()); });
            each(nm("map tmp").c_str(), f, changes, [&](H& h, auto g) { auto r = h.o.map(+g); MCHECK(r.has_value() == bool(has) && (!has || *r == bool(ret)), "C05-plain-result/map", "map of %s", g_type.c_str()); });
            each(nm("map fn").c_str(), f, changes, [&](H& h, auto g) { auto r = h.o.map(*g); MCHECK(r.has_value() == bool(has) && (!has || *r == bool(ret)), "C05-plain-result/map", "map of %s", g_type.c_str()); });
            each(nm("inspect").c_str(), f, changes, [&](H& h, const auto g) { h.o.inspect(g); });
            each(nm("inspect fn").c_str(), f, changes, [&](H& h, auto g) { h.o.inspect(*g); });
            each(nm("has_value_and").c_str(), f, changes, [&](H& h, auto g) { MCHECK(h.o.has_value_and(g) == hv, "C05-plain-result/has_value_and", "has_value_and of %s", g_type.c_str()); });
            each(nm("has_value_and fn").c_str(), f, changes, [&](H& h, auto g) { MCHECK(h.o.has_value_and(*g) == hv, "C05-plain-result/has_value_and", "has_value_and of %s", g_type.c_str()); });
            each(nm("map_or").c_str(), f, changes, [&](H& h, auto g) { MCHECK(h.o.map_or(true, g) == (has ? bool(ret) : true), "C05-plain-result/map_or", "map_or of %s", g_type.c_str()); });
            each(nm("map_or_else").c_str(), f, changes, [&](H& h, auto g) { bool (*d)() = [] { return true; }; MCHECK(h.o.map_or_else(d, *g) == (has ? bool(ret) : true), "C05-plain-result/map_or_else", "map_or_else of %s", g_type.c_str()); });
            if constexpr (One<T, 0, 0>::can_take) {
                each(nm("filter").c_str(), f, changes, [&](H& h, auto g) { auto r = h.o.filter(g); MCHECK(r.has_value() == hv && (!hv || Ad<E>::id(*r) == (changes ? PF::to : a)) && h.o.has_value() == bool(has), "C05-plain-result/filter", "filter of %s", g_type.c_str()); });
                each(nm("filter fn").c_str(), f, changes, [&](H& h, auto g) { auto r = h.o.filter(*g); MCHECK(r.has_value() == hv && (!hv || Ad<E>::id(*r) == (changes ? PF::to : a)), "C05-plain-result/filter", "filter of %s", g_type.c_str()); });
            }
            if constexpr (std::is_reference_v<T> || std::is_move_constructible_v<E>) {
                each(nm("take_if").c_str(), f, changes, [&](H& h, auto g) { auto r = h.o.take_if(g); MCHECK(r.has_value() == hv && (!hv || Ad<E>::id(*r) == (changes ? PF::to : a)) && h.o.has_value() == (has && !ret), "C05-plain-result/take_if", "take_if of %s", g_type.c_str()); });
                each(nm("take_if fn").c_str(), f, changes, [&](H& h, auto g) { auto r = h.o.take_if(*g); MCHECK(r.has_value() == hv && (!hv || Ad<E>::id(*r) == (changes ? PF::to : a)) && h.o.has_value() == (has && !ret), "C05-plain-result/take_if", "take_if of %s", g_type.c_str()); });
            }
        };
        constexpr bool changes = std::is_move_assignable_v<E>;
        all("cref", &P::cref, false);
        all("cref noexcept", &P::cref_noex, false);
        if constexpr (!is_const && !rv) { all("lref", &P::lref, changes); each("lref and_then", &P::opt_lref, changes, [&](H& h, auto g) { auto r = h.o.and_then(g); MCHECK(r.has_value() == (has && ret), "C05-plain-result/and_then", "and_then of %s", g_type.c_str()); }); }
        if constexpr (std::is_copy_constructible_v<E>) all("value", &P::val, false);
        if constexpr (!is_const && !std::is_lvalue_reference_v<T>) {
            each("rref map", &P::rref, false, [&](H& h, auto g) { auto r = std::move(h.o).map(g); MCHECK(r.has_value() == bool(has), "C05-plain-result/map", "map of %s", g_type.c_str()); });
            each("rref has_value_and", &P::rref, false, [&](H& h, auto g) { MCHECK(std::move(h.o).has_value_and(*g) == (has && ret), "C05-plain-result/has_value_and", "has_value_and of %s", g_type.c_str()); });
            each("rref map_or", &P::rref, false, [&](H& h, auto g) { MCHECK(std::move(h.o).map_or(true, *g) == (has ? bool(ret) : true), "C05-plain-result/map_or", "map_or of %s", g_type.c_str()); });
            each("rref inspect", &P::rref, false, [&](H& h, auto g) { std::move(h.o).inspect(g); });
        }
    }
}
// random chains of combinators against the same chain over a plain pointer-like model
template<class T> void chains() {
    using E = typename Under<T>::E;
    if constexpr (std::is_copy_constructible_v<E> && !std::is_reference_v<T> && !std::is_const_v<T>) {
        mon::Rng rng(mon::st().seed * 31 + mon::hash_str(g_type.c_str()));
        using O = opt::option<T>;
        for (unsigned n = 0; n < 60 * mon::st().scale; ++n) {
            int m = rng.chance(1, 3) ? NONE : int(rng.below(Ad<E>::N)); // model: id or NONE
            O o; if (m != NONE) o.emplace(Ad<E>::make(m));
            std::string hist;
            for (int s = 0; s < 10; ++s) {
                const int k = int(rng.below(8)), x = int(rng.below(Ad<E>::N)); const bool p = rng.chance(2, 3);
                hist += std::to_string(k); mon::context("C05 %s: chain %s", g_type.c_str(), hist.c_str());
                int calls = 0; const int want = (k == 3 || k == 4) ? (m == NONE) : (k == 7 ? 1 : (m != NONE));
                const bool was = m != NONE;
                switch (k) {
                case 0: o = o.map([&](const E&) { ++calls; return Ad<E>::make(x); }); if (was) m = x; break;
                case 1: o = o.and_then([&](const E&) { ++calls; O r; if (p) r.emplace(Ad<E>::make(x)); return r; }); if (was) m = p ? x : NONE; break;
                case 2: o = std::move(o).filter([&](const E& e) { ++calls; return p && Ad<E>::id(e) == m; }); if (was && !p) m = NONE; break;
                case 3: o = std::move(o).or_else([&] { ++calls; O r; if (p) r.emplace(Ad<E>::make(x)); return r; }); if (!was && p) m = x; break;
                case 4: o = o.or_else([&] { ++calls; O r; if (p) r.emplace(Ad<E>::make(x)); return r; }); if (!was && p) m = x; break;
                case 5: { auto r = o.take_if([&](const E&) { ++calls; return p; }); MCHECK(r.has_value() == (was && p), "C05-chain/take_if", "%s", hist.c_str()); if (was && p) m = NONE; break; }
                case 6: { int v = o.map_or(-5, [&](const E& e) { ++calls; return Ad<E>::id(e); }); MCHECK(v == (was ? m : -5), "C05-chain/map_or", "%s", hist.c_str()); break; }
                case 7: { int v = o.map_or_else([&] { ++calls; return -6; }, [&](const E& e) { ++calls; return Ad<E>::id(e); }); MCHECK(v == (was ? m : -6), "C05-chain/map_or_else", "%s", hist.c_str()); break; }
                }
                MCHECK(calls == want, "C05-chain/calls", "%s: step %d of chain %s ran its callable %d times, not %d", g_type.c_str(), s, hist.c_str(), calls, want);
                MCHECK(o.has_value() == (m != NONE) && (m == NONE || Ad<E>::id(*o) == m), "C05-chain/state", "%s: chain %s left has=%d, expected id %d", g_type.c_str(), hist.c_str(), o.has_value(), m);
                mon::seen(mon::mix(mon::hash_str(g_type.c_str()), std::uint64_t(k) * 64 + (was ? 2 : 0) + p + 4 * (m + 1)));
            }
            mon::digest(m + 2);
        }
    }
}
template<class T> void run(const char* name) {
    using E = typename Under<T>::E;
    g_type = name;
    const int ids[] = {0, 1, 2, 5};
    for (int i : ids) if (i < Ad<E>::N) for (int h = 0; h < 2; ++h) { forms<T, 0>(h, i); forms<T, 1>(h, i); forms<T, 2>(h, i); forms<T, 3>(h, i); }
    mutating<T>();
    plain_functions<T>();
    chains<T>();
}
#define RUN(...) run<__VA_ARGS__>(#__VA_ARGS__);

// Callables that are not function objects: functions, pointers to members, in every form of object they accept
#if GROUP == 0
struct Base { int x; std::string s = "b"; explicit Base(int v) : x(v) {} virtual ~Base() = default;
    int lref() & { return x * 10 + 0; } int clref() const& { return x * 10 + 1; } int rref() && { return x * 10 + 2; } int crref() const&& { return x * 10 + 3; }
    int plain() const noexcept { return x * 10 + 4; } virtual int virt() const { return x * 10 + 5; } bool pos() const { return x > 0; } void inc() { ++x; ++incs; } static inline int incs = 0; int both() { ++x; return x; } bool up() { ++x; return x > 0; }
    opt::option<int> maybe() const { return x > 0 ? opt::option<int>(x) : opt::none; } static int stat(const Base& b) { return b.x * 10 + 6; } int& ref() & { return x; } };
struct Pre { long pad = 3; virtual ~Pre() = default; };
struct Derived : Pre, Base { using Base::Base; explicit Derived(int v) : Base(v) {} int virt() const override { return x * 10 + 7; } };
int free_fn(const Base& b) { return b.x * 10 + 8; }
int free_val(Base b) { return b.x * 10 + 9; }
#define EQ(expr, ...) do { mon::context("C05 member pointers: " #expr); auto got_ = (expr); MCHECK(got_ == (__VA_ARGS__), "C05-invoke/" #expr, "%s", #expr " gave another result"); mon::seen(std::string(#expr)); mon::count("member pointer and function forms"); } while (0)
template<class B> void members(int virtk) {
    opt::option<B> o(B(4)), e; const auto& c = o; B obj(4); opt::option<B&> r(obj), re; opt::option<const B&> rc(obj);
    opt::option<B*> p(&obj), pn; opt::option<const B*> pc(&obj); opt::option<std::unique_ptr<B>> u(std::make_unique<B>(4)), ue; opt::option<std::shared_ptr<B>> sp(std::make_shared<B>(4));
    opt::option<std::reference_wrapper<B>> w(std::ref(obj)); opt::option<std::reference_wrapper<const B>> wc(std::cref(obj));
    using I = opt::option<int>;
    // data members
    EQ(o.map(&Base::x).ptr_or_null(), &o->x); EQ(c.map(&Base::x).ptr_or_null(), &o->x); EQ(e.map(&Base::x).has_value(), false);
    EQ(r.map(&Base::x).ptr_or_null(), &obj.x); EQ(rc.map(&Base::x).ptr_or_null(), &obj.x); EQ(p.map(&Base::x).ptr_or_null(), &obj.x); EQ(pc.map(&Base::x).ptr_or_null(), &obj.x);
    EQ(u.map(&Base::x).ptr_or_null(), &(*u)->x); EQ(sp.map(&Base::x).ptr_or_null(), &(*sp)->x); EQ(w.map(&Base::x).ptr_or_null(), &obj.x); EQ(wc.map(&Base::x).ptr_or_null(), &obj.x);
    static_assert(std::is_same_v<decltype(o.map(&Base::x)), opt::option<int&>>); static_assert(std::is_same_v<decltype(c.map(&Base::x)), opt::option<const int&>>); static_assert(std::is_same_v<decltype(std::move(o).map(&Base::x)), opt::option<int&&>>);
    static_assert(std::is_same_v<decltype(pc.map(&Base::x)), opt::option<const int&>>); static_assert(std::is_same_v<decltype(wc.map(&Base::x)), opt::option<const int&>>); static_assert(std::is_same_v<decltype(rc.map(&Base::x)), opt::option<const int&>>);
    { opt::option<B> t(B(4)); auto m = std::move(t).map(&Base::s); MCHECK(m.ptr_or_null() == &t->s, "C05-invoke/rvalue member", "rvalue member"); }
    EQ(o.map_or(-1, &Base::x), 4); EQ(e.map_or(-1, &Base::x), -1); EQ(o.has_value_and(&Base::x), true); EQ(o.filter(&Base::x).has_value(), true);
    // member functions
    EQ(o.map(&Base::lref), I(40)); EQ(c.map(&Base::clref), I(41)); EQ(std::move(o).map(&Base::rref), I(42)); EQ(std::move(c).map(&Base::crref), I(43)); EQ(std::move(o).map(&Base::crref), I(43)); EQ(o.map(&Base::clref), I(41));
    EQ(o.map(&Base::plain), I(44)); EQ(e.map(&Base::plain), I(opt::none)); EQ(o.map(&Base::virt), I(40 + virtk)); EQ(p.map(&Base::virt), I(40 + virtk)); EQ(u.map(&Base::virt), I(40 + virtk)); EQ(w.map(&Base::virt), I(40 + virtk)); EQ(r.map(&Base::virt), I(40 + virtk)); EQ(wc.map(&Base::plain), I(44));
    EQ(p.map(&Base::lref), I(40)); EQ(u.map(&Base::lref), I(40)); EQ(sp.map(&Base::lref), I(40)); EQ(w.map(&Base::lref), I(40)); EQ(r.map(&Base::lref), I(40)); EQ(std::move(w).map(&Base::lref), I(40)); EQ(std::move(p).map(&Base::lref), I(40));
    EQ(o.and_then(&Base::maybe), I(4)); EQ(e.and_then(&Base::maybe), I(opt::none)); EQ(p.and_then(&Base::maybe), I(4)); EQ(w.and_then(&Base::maybe), I(4));
    EQ(o.filter(&Base::pos).has_value(), true); EQ(o.has_value_and(&Base::pos), true); EQ(e.has_value_and(&Base::pos), false); EQ(p.has_value_and(&Base::pos), true); EQ(p.filter(&Base::pos).has_value(), true); EQ(u.has_value_and(&Base::pos), true); EQ(wc.has_value_and(&Base::pos), true);
    EQ(o.map_or_else([] { return -2; }, &Base::plain), 44); EQ(e.map_or_else([] { return -2; }, &Base::plain), -2); EQ(w.map_or(-3, &Base::plain), 44); EQ(pn.map_or(-3, &Base::plain), -3); EQ(re.map_or(-3, &Base::plain), -3);
    EQ(o.map(&Base::ref).ptr_or_null(), &o->x); EQ(o.map(&Base::stat), I(46)); EQ(r.map(Base::stat), I(46));
    { const int before = o->x, b = Base::incs; o.inspect(&Base::inc); MCHECK(o->x == before + 1 && Base::incs == b + 1, "C05-invoke/inspect member", "inspect(&inc)"); e.inspect(&Base::inc); MCHECK(Base::incs == b + 1, "C05-invoke/inspect member", "inspect(&inc) on empty"); o->x = before; }
    { const int b = Base::incs; w.inspect(&Base::inc); p.inspect(&Base::inc); u.inspect(&Base::inc); r.inspect(&Base::inc); MCHECK(obj.x == 7 && (*u)->x == 5 && Base::incs == b + 4, "C05-invoke/inspect members", "inspect(&inc) through pointers"); obj.x = 4; }
    { auto t = o.take_if(&Base::pos); MCHECK(t && !o && t->x == 4, "C05-invoke/take_if member", "take_if(&pos)"); o = B(-4); t = o.take_if(&Base::pos); MCHECK(!t && o && o->x == -4, "C05-invoke/take_if member", "take_if(&pos) false"); o = B(4); }
    { auto t = o.take_if(&Base::up); MCHECK(t && !o && t->x == 5, "C05-invoke/take_if mutating member", "take_if(&up)"); o = B(4); auto f = o.filter(&Base::up); MCHECK(f && f->x == 5 && o->x == 5, "C05-invoke/filter mutating member", "filter(&up)"); MCHECK(o.has_value_and(&Base::up) && o->x == 6, "C05-invoke/has_value_and mutating member", "has_value_and(&up)"); MCHECK(p.has_value_and(&Base::up) && obj.x == 5, "C05-invoke/has_value_and mutating member", "has_value_and(&up) through a pointer"); obj.x = 4; o = B(4); }
    // functions, references and pointers to functions, std::function, wrapped callables
    EQ(o.map(free_fn), I(48)); EQ(o.map(&free_fn), I(48)); EQ(o.map(free_val), I(49)); int (&fr)(const Base&) = free_fn; int (*const fp)(const Base&) = free_fn; EQ(c.map(fr), I(48)); EQ(c.map(fp), I(48)); EQ(r.map(fp), I(48));
    std::function<int(const Base&)> sf = free_fn; EQ(o.map(sf), I(48)); EQ(o.map(std::cref(sf)), I(48)); EQ(o.map(std::mem_fn(&Base::plain)), I(44)); EQ(p.map(std::mem_fn(&Base::plain)), I(44));
    struct { int n = 0; int operator()(const Base&) { return ++n; } } st; (void)o.map(std::ref(st)); (void)o.map(st); (void)o.map(std::move(st)); EQ(st.n, 3);
    int k = 0; auto mut = [k](const Base&) mutable { return ++k; }; (void)o.map(mut); EQ(o.map(mut), I(2));
    opt::option<int(*)(int)> fo(+[](int v) { return v + 1; }); EQ(fo.map([](auto f) { return f(6); }), I(7));
}
void extra() { g_type = "member pointers"; members<Base>(5); members<Derived>(7); }
#else
void extra() {}
#endif
} // namespace
int main(int argc, char** argv) {
    mon::init(argc, argv);
    for (int i = 0; i < 4; ++i) g_cell[i] = 900 + i;
    extra();
#if GROUP == 0
    RUN(int) RUN(bool)
#elif GROUP == 1
    RUN(std::string) RUN(std::unique_ptr<int>) RUN(int*)
#elif GROUP == 2
    RUN(int&) RUN(const int&) RUN(int&&) RUN(std::string&)
#elif GROUP == 3
    RUN(opt::option<int>) RUN(std::pair<bool, int>) RUN(Poly)
#elif GROUP == 4
    RUN(const std::string) RUN(const int) RUN(const std::string&&) RUN(float)
#elif GROUP == 5
    RUN(Agg) RUN(ESent) RUN(Pad) RUN(Prof111111)
#elif GROUP == 6
    RUN(std::vector<int>) RUN(Sent3) RUN(Memb) RUN(opt::option<opt::option<bool>>)
#elif GROUP == 7
    RUN(std::unique_ptr<int>&) RUN(Poly&) RUN(std::tuple<int, std::unique_ptr<int>>) RUN(std::reference_wrapper<int>)
#endif
    return mon::finish();
}
