// C16: programs in ordinary user style, run with the library and with a plain reference optional, their observations compared within the build and (as a digest) across builds.
// GROUP 0, 1: written programs; GROUP 2..5: generated straight-line operation sequences, fully inlined so that wrong assumptions become wrong code.
#ifndef GROUP
#define GROUP 0
#endif
#include <algorithm>
#include <cmath>
#include <deque>
#include <numeric>
#include <set>
#include <sstream>
#include <unordered_map>
#include "types.hpp"
#include "mini.hpp"
using ty::Ad;

struct Real {
    template<class T> using o = opt::option<T>;
    static constexpr auto none() { return opt::none; }
    template<class... A> static auto zip(A&&... a) { return opt::zip(std::forward<A>(a)...); }
    template<class F, class... A> static auto zip_with(F&& f, A&&... a) { return opt::zip_with(std::forward<F>(f), std::forward<A>(a)...); }
    template<class A, class F> static auto map_or_else(const A& a, F d, F f) { return a.map_or_else(d, f); }
    template<class T> static std::size_t hash(const o<T>& x) { return x.has_value() ? std::hash<o<T>>{}(x) : 0; }
    template<class C> static auto at(C& c, std::size_t i) { return opt::at(c, i); }
    template<class M, class K> static auto lookup(M& m, const K& k) { return opt::lookup(m, k); }
    template<class T> static auto make(T&& v) { return opt::make_option(std::forward<T>(v)); }
    template<class T> static bool is_none(const o<T>& x) { return x == opt::none; }
    template<class T> static T take_or(o<T>& x, T d) { return x.take().value_or(std::move(d)); }
    template<class T> static std::string text(const o<T>& x) { std::ostringstream s; s << opt::io(x, "nothing"); return s.str(); }
    template<class A> static auto flatten(A&& a) { return opt::flatten(std::forward<A>(a)); }
    static constexpr bool real = true;
};
struct Mini {
    template<class T> using o = mini::option<T>;
    static constexpr auto none() { return mini::none; }
    template<class... A> static auto zip(A&&... a) { using T = std::tuple<typename std::decay_t<A>::value_type...>; o<T> r; if ((a.has_value() && ...)) r.emplace(*a...); return r; }
    template<class F, class... A> static auto zip_with(F&& f, A&&... a) { using T = decltype(f(*std::forward<A>(a)...)); o<T> r; if ((a.has_value() && ...)) r.emplace(f(*std::forward<A>(a)...)); return r; }
    template<class T> static std::size_t hash(const o<T>& x) { return x.has_value() ? std::hash<std::remove_const_t<T>>{}(*x) : 0; }
    template<class C> static auto at(C& c, std::size_t i) { o<std::remove_reference_t<decltype(c[i])>&> r; if (i < c.size()) r.emplace(c[i]); return r; }
    template<class M, class K> static auto lookup(M& m, const K& k) { auto it = m.find(k); o<std::remove_reference_t<decltype((it->second))>&> r; if (it != m.end()) r.emplace(it->second); return r; }
    template<class T> static auto make(T&& v) { return o<std::decay_t<T>>(std::forward<T>(v)); }
    template<class T> static bool is_none(const o<T>& x) { return !x.has_value(); }
    template<class T> static T take_or(o<T>& x, T d) { return x.take().value_or(std::move(d)); }
    template<class T> static std::string text(const o<T>& x) { if (!x) return "nothing"; std::ostringstream s; s << *x; return s.str(); }
    template<class A> static auto flatten(A&& a) { return std::forward<A>(a).flatten(); }
    static constexpr bool real = false;
};
struct Dig {
    std::uint64_t h = 7;
    void u(std::uint64_t v) { h = mon::mix(h, v); }
    void s(const std::string& t) { u(mon::hash_str(t.c_str())); u(t.size()); }
    template<class T> void v(const T& x) {
        if constexpr (std::is_same_v<T, std::string>) s(x);
        else if constexpr (std::is_enum_v<T> || std::is_integral_v<T>) u(static_cast<std::uint64_t>(x));
        else if constexpr (std::is_floating_point_v<T>) { std::uint64_t b = 0; std::memcpy(&b, &x, sizeof x < 8 ? sizeof x : 8); u(b); }
        else u(static_cast<std::uint64_t>(Ad<T>::id(x)) + 9);
    }
    template<class O> void o(const O& x) { u(x.has_value()); if (x.has_value()) v(*x); }
};

#if GROUP <= 1
enum class Mode : unsigned char { Idle, Run, Wait, Stop };
enum Plain { PA, PB, PC };
struct Rec { int id; bool flag; double w; };
template<class P> struct Fields { typename P::template o<bool> b; typename P::template o<double> d; typename P::template o<int*> p; typename P::template o<std::string> s; typename P::template o<Mode> m; char tail; };
template<class P> struct Node { int key; typename P::template o<Node*> left, right; typename P::template o<std::string> note; };
template<class P> struct List { int v; typename P::template o<std::unique_ptr<List>> next; };
template<class T> struct Id { using type = T; };

template<class P> typename P::template o<int> parse(const char*& p) {
    while (*p == ' ') ++p;
    bool neg = false; if (*p == '-') { neg = true; ++p; }
    if (*p < '0' || *p > '9') { if (*p && !neg) ++p; return P::none(); }
    int v = 0; while (*p >= '0' && *p <= '9') v = v * 10 + (*p++ - '0');
    return neg ? -v : v;
}
template<class P> void tokenizer(mon::Rng& r, Dig& d) {
    std::string text; const int n = 5 + int(r.below(20));
    for (int i = 0; i < n; ++i) { const char* bits[] = {"12", "-7", "x", "", "400", "-", "0", "99999"}; text += bits[r.below(8)]; text += ' '; }
    const char* p = text.c_str(); std::vector<typename P::template o<int>> v; while (*p) v.push_back(parse<P>(p));
    long sum = 0; int none = 0; typename P::template o<int> best;
    for (auto& x : v) { if (x) sum += *x; else ++none; if (x && (!best || *x > *best)) best = *x; sum += x.map([](int k) { return k % 3; }).value_or(-1); }
    d.u(sum); d.u(none); d.o(best);
    std::stable_sort(v.begin(), v.end()); for (auto& x : v) d.o(x);
    v.erase(std::remove_if(v.begin(), v.end(), [](auto& x) { return !x.has_value_and([](int k) { return k > 0; }); }), v.end()); d.u(v.size());
    for (auto& x : v) d.u(x.filter([](int k) { return k % 2; }).map_or(5L, [](int k) { return long(k) * 2; }));
}
template<class P> void cache(mon::Rng& r, Dig& d) {
    std::map<int, typename P::template o<std::string>> m; std::deque<int> order;
    for (int step = 0; step < 120; ++step) {
        const int k = int(r.below(12));
        auto hit = P::lookup(m, k);
        if (hit) { if (hit->has_value()) { d.s(**hit); if ((*hit)->size() > 20) hit->reset(); else **hit += "-again"; } else { d.u(404); if (r.below(2)) hit->emplace("filled" + std::to_string(step)); } }
        else { typename P::template o<std::string> fresh; if (r.below(3)) fresh = "value " + std::to_string(k * step); m.emplace(k, fresh); order.push_back(k); if (order.size() > 6) { auto it = m.find(order.front()); d.s(P::take_or(it->second, std::string("gone"))); d.u(it->second.has_value()); m.erase(it); order.pop_front(); } }
    }
    for (auto& kv : m) { d.u(kv.first); d.o(kv.second); d.u(kv.second.map(&std::string::size).value_or(1000)); }
}
template<class P> void tree(mon::Rng& r, Dig& d) {
    std::deque<Node<P>> pool; typename P::template o<Node<P>*> root;
    auto insert = [&](int k) { auto* at = &root; while (*at) { Node<P>* n = **at; if (n->key == k) { n->note = "dup" + std::to_string(k); return; } at = k < n->key ? &n->left : &n->right; } pool.push_back(Node<P>{k, {}, {}, {}}); *at = &pool.back(); };
    for (int i = 0; i < 60; ++i) insert(int(r.below(100)));
    auto find = [&](int k) { auto at = root; int steps = 0; while (at && (*at)->key != k) { ++steps; at = at.and_then([&](Node<P>* n) { return k < n->key ? n->left : n->right; }); } d.u(steps); return at; };
    for (int k = 0; k < 100; k += 3) { auto f = find(k); d.u(f.has_value()); d.u(f.map([](Node<P>* n) { return n->note.has_value(); }).value_or(false)); f.inspect([&](Node<P>* n) { d.o(n->note); }); }
}
template<class P> void sorting(mon::Rng& r, Dig& d) {
    std::vector<typename P::template o<std::string>> v; for (int i = 0; i < 40; ++i) { if (r.below(4)) v.emplace_back(ty::Ad<std::string>::make(int(r.below(20)))); else v.emplace_back(); }
    auto w = v; std::sort(v.begin(), v.end()); for (auto& x : v) d.o(x); d.u(std::is_sorted(v.begin(), v.end())); d.u(v == w);
    std::rotate(w.begin(), w.begin() + 7, w.end()); std::reverse(w.begin(), w.begin() + 11); std::swap_ranges(w.begin(), w.begin() + 9, w.begin() + 20); for (auto& x : w) d.o(x);
    std::set<typename P::template o<std::string>> s(w.begin(), w.end()); for (auto& x : s) d.o(x); d.u(s.size());
    v.erase(std::unique(v.begin(), v.end()), v.end()); d.u(v.size());
    std::vector<typename P::template o<double>> f; for (int i = 0; i < 30; ++i) if (r.below(3)) f.push_back(double(r.below(100)) / 8); else f.push_back(P::none());
    std::sort(f.begin(), f.end(), [](const auto& a, const auto& b) { return a > b; }); for (auto& x : f) d.o(x); d.u(std::count(f.begin(), f.end(), typename P::template o<double>())); d.u(std::count(f.begin(), f.end(), typename P::template o<double>(0.0)));
    auto mx = std::max_element(f.begin(), f.end()); d.o(*mx); auto mn = std::min_element(f.begin(), f.end()); d.o(*mn);
}
template<class P> void machine(mon::Rng& r, Dig& d) {
    typename P::template o<Mode> cur, prev; typename P::template o<Plain> aux; typename P::template o<bool> flag; int ticks = 0;
    for (int i = 0; i < 200; ++i) {
        switch (r.below(7)) {
        case 0: prev = cur; cur = static_cast<Mode>(r.below(4)); break;
        case 1: prev = cur.take(); break;
        case 2: cur.swap(prev); break;
        case 3: if (cur.has_value_and([](Mode m) { return m == Mode::Run; })) ++ticks; else flag = !flag.value_or(false); break;
        case 4: aux = cur.and_then([](Mode m) { return m == Mode::Stop ? typename P::template o<Plain>() : typename P::template o<Plain>(static_cast<Plain>(int(m))); }); break;
        case 5: if (aux) { if (*aux == PA) aux.reset(); else aux.emplace(PB); } else aux = PC; break;
        default: cur = prev.or_else([] { return typename P::template o<Mode>(Mode::Wait); }); flag.reset(); break;
        }
        d.u((cur ? unsigned(*cur) : 9u) * 100 + (prev ? unsigned(*prev) : 9u) * 10 + (aux ? unsigned(*aux) : 5u)); d.u(flag ? *flag ? 1 : 0 : 2);
    }
    d.u(ticks);
}
template<class P> void fields(mon::Rng& r, Dig& d) {
    static double cells[4]; static int ints[4]; (void)cells;
    std::vector<Fields<P>> v; 
    for (int i = 0; i < 25; ++i) {
        Fields<P> f{}; f.tail = char('a' + i);
        if (r.below(2)) f.b = bool(r.below(2));
        if (r.below(2)) f.d = r.below(5) ? double(r.below(50)) / 3 : std::numeric_limits<double>::quiet_NaN();
        if (r.below(2)) f.p = r.below(2) ? &ints[r.below(4)] : nullptr;
        if (r.below(2)) f.s = ty::Ad<std::string>::make(int(r.below(20)));
        if (r.below(2)) f.m = static_cast<Mode>(r.below(4));
        v.push_back(f); if (r.below(3) == 0) v.push_back(std::move(f));
        if (v.size() > 5 && r.below(2)) { auto k = r.below(v.size()); std::swap(v[k], v.back()); v[k].s.reset(); v[k / 2] = v[k]; }
    }
    for (auto& f : v) { d.u(f.tail); d.o(f.b); d.o(f.d); d.u(f.p ? (*f.p ? *f.p - ints + 2 : 1) : 0); d.o(f.s); d.o(f.m); }
    v.erase(v.begin() + 3, v.begin() + 5); double acc = 0; for (const auto& f : v) if (f.d && *f.d == *f.d) acc += *f.d; d.v(acc);
}
template<class P> void lists(mon::Rng& r, Dig& d) {
    using L = List<P>; typename P::template o<std::unique_ptr<L>> head;
    for (int i = 0; i < 30; ++i) {
        if (r.below(3)) { auto n = std::make_unique<L>(); n->v = i; n->next = head.take(); head = std::move(n); }
        else if (head) { auto n = head.take(); d.u((*n)->v); head = (*n)->next.take(); d.u(n.has_value()); }
        if (i % 7 == 0) { typename P::template o<std::unique_ptr<L>> rev; while (head) { auto n = *head.take(); head = n->next.take(); n->next = std::move(rev); rev = std::move(n); } head = std::move(rev); }
    }
    for (auto* p = &head; *p; p = &(**p)->next) d.u((**p)->v);
    while (head) { auto n = std::move(*head); head = std::move(n->next); }
}
template<class P> void nested(mon::Rng& r, Dig& d) {
    using S = typename P::template o<std::string>; using B = typename P::template o<bool>; using BB = typename P::template o<B>; using BBB = typename P::template o<BB>;
    std::map<std::string, typename P::template o<S>> conf;
    for (int i = 0; i < 20; ++i) { auto& c = conf["key" + std::to_string(r.below(8))]; switch (r.below(4)) { case 0: c = S(); break; case 1: c = S("text" + std::to_string(i)); break; case 2: c.reset(); break; default: if (c) *c = "again"; else c.emplace(); } }
    for (auto& kv : conf) { d.s(kv.first); d.u(kv.second ? *kv.second ? 2 : 1 : 0); d.o(P::flatten(kv.second)); }
    std::vector<BBB> v; for (int i = 0; i < 30; ++i) switch (r.below(5)) { case 0: v.emplace_back(); break; case 1: v.emplace_back(BB()); break; case 2: v.emplace_back(BB(B())); break; default: v.emplace_back(BB(B(bool(r.below(2))))); }
    auto code = [](const BBB& x) { return x ? *x ? **x ? ***x ? 4 : 3 : 2 : 1 : 0; };
    for (auto& x : v) d.u(code(x)); std::sort(v.begin(), v.end()); for (auto& x : v) { d.u(code(x)); if (x && *x) { (**x) = !(*x)->value_or(true); } else if (x) { *x = B(); } else { x = BB(); } d.u(code(x)); d.o(P::flatten(x)); }
}
template<class P> void pipes(mon::Rng& r, Dig& d) {
    for (int i = 0; i < 40; ++i) {
        typename P::template o<std::string> s; if (r.below(4)) s = ty::Ad<std::string>::make(int(r.below(30)));
        typename P::template o<int> n; if (r.below(3)) n = int(r.below(1000)) - 500;
        auto a = s.map([](const std::string& x) { return x.size(); }).filter([](std::size_t z) { return z % 2 == 0; }).map([](std::size_t z) { return double(z) / 4; }); d.o(a);
        auto b = n.and_then([](int x) { return x % 3 ? typename P::template o<long>(x * 7L) : typename P::template o<long>(); }).or_else([&] { return typename P::template o<long>(-i); }); d.o(b);
        auto c = P::zip_with([](const std::string& x, int y) { return x + std::to_string(y); }, s, n); d.o(c);
        auto e = P::zip(s, n); d.u(e.has_value()); if (e) { d.s(std::get<0>(*e)); d.u(std::get<1>(*e)); }
        d.u(n.map_or(-1, [](int x) { return x / 2; })); d.u(n.map_or_else([&] { return i * 3L; }, [](int x) { return long(x); }));
        auto moved = std::move(s).map([](std::string&& x) { return std::move(x) + "!"; }); d.o(moved); d.s(std::move(moved).value_or("none"));
        for (auto x : n) d.u(x); int* q = n.ptr_or_null(); d.u(q ? *q : 1); d.u(n == typename P::template o<int>(3)); d.u(n < b.map([](long x) { return int(x); })); d.s(P::text(n)); 
        auto t = P::make(i).take_if([](int x) { return x % 2; }); d.o(t);
    }
}
template<class P> void refs(mon::Rng& r, Dig& d) {
    std::vector<int> v(20); std::iota(v.begin(), v.end(), 5);
    typename P::template o<int&> big, small;
    for (int i = 0; i < 60; ++i) {
        auto x = P::at(v, r.below(26)); d.u(x.has_value());
        if (x) { *x += int(r.below(9)) - 4; if (!big || *x > *big) big.emplace(*x); if (!small || *x < *small) small.emplace(*x); }
        d.u(x.map_or(-100, [](int k) { return k * 2; })); if (i % 17 == 5) { auto t = big.take(); d.u(t.has_value() ? *t : 0); }
        d.u(big.has_value() ? big.ptr_or_null() - v.data() : 99); d.u(small == big);
    }
    for (int x : v) d.u(x);
}
template<class P> void records(mon::Rng& r, Dig& d) {
    using R = typename P::template o<Rec>; std::vector<R> v;
    for (int i = 0; i < 30; ++i) { R x; if (r.below(3)) { x.emplace(i, bool(r.below(2)), double(i) / 2); } v.push_back(x); if (x && x->flag) { x->flag = false; x->id = -i; v.insert(v.begin() + long(r.below(v.size())), std::move(x)); } }
    for (auto& x : v) { d.u(x.has_value()); if (x) { d.u(x->id); d.u(x->flag); d.v(x->w); } d.u(x.map_or(7, &Rec::id)); }
    std::partition(v.begin(), v.end(), [](const R& x) { return x.map_or(false, [](const Rec& y) { return y.id > 3; }); }); unsigned long acc = 0; for (auto& x : v) { acc = acc * 31 + static_cast<unsigned long>(x ? x->id : 77); R y = x; x.reset(); acc += y.has_value(); } d.u(acc);
    std::array<typename P::template o<std::pair<int, bool>>, 6> arr{}; for (int i = 0; i < 40; ++i) { auto& a = arr[r.below(6)]; if (a) { if (a->second) a->second = false; else a.reset(); } else a.emplace(i, bool(r.below(2))); for (auto& y : arr) d.u(y ? y->first * 2 + y->second : -1); }
}
template<class P> void memo(mon::Rng& r, Dig& d) {
    std::vector<typename P::template o<std::uint32_t>> m(64);
    struct F { static std::uint32_t fib(std::vector<typename P::template o<std::uint32_t>>& t, unsigned n) { if (n < 2) return n; if (t[n]) return *t[n]; const auto x = fib(t, n - 1) + fib(t, n - 2); t[n] = x; return x; } };
    for (int i = 0; i < 6; ++i) { d.u(F::fib(m, unsigned(r.below(64)))); for (int k = 0; k < 5; ++k) m[r.below(64)].reset(); }
    for (auto& x : m) d.o(x);
    std::unordered_map<int, typename P::template o<float>> g; for (int i = 0; i < 50; ++i) { auto& c = g[int(r.below(10))]; c = c.map_or(1.f, [](float f) { return f * 1.5f; }); if (*c > 20) c.reset(); } for (int i = 0; i < 10; ++i) if (g.count(i)) d.o(g[i]);
    float best = 0; typename P::template o<int> arg; for (int i = 0; i < 10; ++i) if (g.count(i) && g[i].has_value() && (!arg || *g[i] > best)) { best = *g[i]; arg = i; } d.o(arg); d.v(best);
    for (int i = 0; i < 20; ++i) { typename P::template o<int> x; if (r.below(2)) x = int(r.next()); d.u(P::hash(x)); }
}
#if defined(__cpp_exceptions)
template<class P> typename P::template o<int> risky(int k) { if (k % 5 == 0) throw k; if (k % 3 == 0) return P::none(); return k; }
template<class P> void exceptions(mon::Rng& r, Dig& d) {
    for (int i = 0; i < 40; ++i) { const int k = int(r.below(50)); typename P::template o<std::string> s("before"); try { auto x = risky<P>(k); s = x.map([&](int q) { if (q % 7 == 0) throw std::string("seven"); return std::to_string(q); }).value_or("none"); s.emplace(*s + "+"); } catch (int q) { d.u(q); } catch (const std::string& t) { d.s(t); s.reset(); } d.o(s); }
}
#endif
template<template<class> class F> void compare(const char* name, std::uint64_t n) {
    for (std::uint64_t i = 0; i < n; ++i) {
        mon::context("program %s, run %llu", name, (unsigned long long)i);
        const std::uint64_t s = mon::mix(mon::st().seed, mon::mix(mon::hash_str(name), i));
        mon::Rng a(s), b(s); Dig x, y; F<Real>::run(a, x); F<Mini>::run(b, y);
        MCHECK(x.h == y.h, std::string("C16-program/") + name, "program %s (seed %llu) observes something else with the library than with a plain optional", name, (unsigned long long)s);
        mon::digest(x.h); mon::seen(x.h);
    }
    mon::count("programs");
}
#define PROG(f) template<class P> struct F_##f { static void run(mon::Rng& r, Dig& d) { f<P>(r, d); } };
PROG(tokenizer) PROG(cache) PROG(tree) PROG(sorting) PROG(machine) PROG(fields) PROG(lists) PROG(nested) PROG(pipes) PROG(refs) PROG(records) PROG(memo)
#if defined(__cpp_exceptions)
PROG(exceptions)
#endif
#define RUN(f) compare<F_##f>(#f, 40 * mon::st().scale);
#else
// ---- generated straight-line sequences. Values are read through a volatile cell, everything else is visible to the optimiser.
static volatile int g_id;
template<class T> T val() { return Ad<T>::make(g_id); }
#define INL __attribute__((always_inline)) inline
constexpr unsigned OPS = 36;
template<unsigned K, class P, class T, class O> INL void apply(O& a, O& b, Dig& d) {
    if constexpr (K == 0) a = P::none();
    else if constexpr (K == 1) a.reset();
    else if constexpr (K == 2) a = val<T>();
    else if constexpr (K == 3) { const T t = val<T>(); a = t; }
    else if constexpr (K == 4) { if constexpr (std::is_copy_constructible_v<T>) a = b; }
    else if constexpr (K == 5) { O t(std::move(b)); b.reset(); a = std::move(t); }
    else if constexpr (K == 6) a.swap(b);
    else if constexpr (K == 7) { O t(a); d.u(t.has_value()); b = t; }
    else if constexpr (K == 8) a.emplace(val<T>());
    else if constexpr (K == 9) a.try_emplace(val<T>());
    else if constexpr (K == 10) { O t = a.take(); d.o(t); d.u(a.has_value()); }
    else if constexpr (K == 11) { O t = a.take_if([](const T& x) { return Ad<T>::id(x) % 2; }); d.o(t); }
    else if constexpr (K == 12) { if (a) d.v(*a); }
    else if constexpr (K == 13) { if (!a.has_value()) a = val<T>(); d.v(a.get()); }
    else if constexpr (K == 14) { if (a && b) { *a = *b; } }
    else if constexpr (K == 15) { for (auto& x : a) x = val<T>(); }
    else if constexpr (K == 16) { T* p = a.ptr_or_null(); if (p) { *p = val<T>(); d.v(*p); } else d.u(1); }
    else if constexpr (K == 17) { d.v(a.value_or(val<T>())); }
    else if constexpr (K == 18) { d.u(a.map([](const T& x) { return Ad<T>::id(x); }).value_or(-5)); }
    else if constexpr (K == 19) { b = a.filter([](const T& x) { return Ad<T>::id(x) > 1; }); }
    else if constexpr (K == 20) { b = a.or_else([] { return O(val<T>()); }); }
    else if constexpr (K == 21) { b = a.and_then([](const T& x) { return Ad<T>::id(x) ? O(x) : O(); }); }
    else if constexpr (K == 22) { d.u(a.map_or(4, [](const T& x) { return Ad<T>::id(x); })); }
    else if constexpr (K == 23) { d.u(a.has_value_and([](const T& x) { return Ad<T>::id(x) == 1; })); }
    else if constexpr (K == 24) { if (a.has_value() != b.has_value()) std::swap(a, b); }
    else if constexpr (K == 25) { O t; t = std::move(a); a = P::none(); d.o(t); if (t) a = *std::move(t); }
    else if constexpr (K == 26) { auto z = P::zip(a, b); d.u(z.has_value()); if (z) { d.v(std::get<0>(*z)); d.v(std::get<1>(*z)); } }
    else if constexpr (K == 27) { typename P::template o<O> n(a); d.u(n.has_value()); d.u(n->has_value()); n->reset(); d.u(n.has_value() * 2 + n->has_value()); *n = val<T>(); b = P::flatten(n); n.reset(); d.u(n.has_value()); }
    else if constexpr (K == 28) { O arr[3] = {a, O(), b}; std::reverse(arr, arr + 3); d.u(arr[0].has_value() * 4 + arr[1].has_value() * 2 + arr[2].has_value()); a = arr[0]; b = arr[2]; }
    else if constexpr (K == 29) { d.u(P::is_none(a) * 2 + P::is_none(b)); while (a && !b) b = a.take(); }
    else if constexpr (K == 30) { struct S { O x; char c; O y; } s{a, 'q', b}, t = s; t.x.reset(); std::swap(s, t); a = s.y; b = t.x; d.u(s.x.has_value() + s.c + t.c); }
    else if constexpr (K == 31) { const O& c = a; int n = 0; for (const auto& x : c) { ++n; d.v(x); } d.u(n); c.inspect([&](const T& x) { d.v(x); }); }
    else if constexpr (K == 32) { typename P::template o<std::pair<T, int>> q; if (a) q.emplace(*a, 3); d.u(q.has_value()); a.reset(); if (q) a = q->first; }
    else if constexpr (K == 33) { O* p = new O(b); O* q = new O(std::move(*p)); delete p; a = *q; delete q; }
    else if constexpr (K == 34) { a.reset(); if (b) a = val<T>(); else b.emplace(val<T>()); }
    else if constexpr (K == 35) { O t = a; a = a; d.u(a.has_value()); if (t) d.v(*a); }
}
constexpr std::uint64_t ch(std::uint64_t x) { x += 0x9E3779B97F4A7C15ull; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31); }
template<std::uint64_t S, class P, class T, std::size_t... I> INL void straight(mon::Rng& r, Dig& d, std::index_sequence<I...>) {
    typename P::template o<T> a, b;
    ((g_id = int(r.below(std::uint64_t(Ad<T>::N))), ch(S * 64 + I) & 1 ? apply<(ch(S * 64 + I) >> 8) % OPS, P, T>(a, b, d) : apply<(ch(S * 64 + I) >> 8) % OPS, P, T>(b, a, d), (I % 3 == 2 ? (d.o(a), d.o(b)) : void())), ...);
    d.o(a); d.o(b);
}
template<std::uint64_t S, class P, class T> __attribute__((noinline)) void seq(mon::Rng& r, Dig& d) { straight<S, P, T>(r, d, std::make_index_sequence<11>()); }
template<class T, std::size_t... S> void sequences(std::index_sequence<S...>) {
    using Fn = void (*)(mon::Rng&, Dig&);
    constexpr std::uint64_t base = GROUP * 1000;
    static constexpr Fn real[] = {&seq<base + S, Real, T>...}, plain[] = {&seq<base + S, Mini, T>...};
    for (std::size_t k = 0; k < sizeof...(S); ++k) for (std::uint64_t i = 0; i < 25 * mon::st().scale; ++i) {
        const std::uint64_t s = mon::mix(mon::st().seed, mon::mix(mon::hash_str(Ad<T>::name), mon::mix(k, i)));
        mon::context("sequence %u of option<%s>, inputs %llu", unsigned(base + k), Ad<T>::name, (unsigned long long)s);
        mon::Rng a(s), b(s); Dig x, y; real[k](a, x); plain[k](b, y);
        MCHECK(x.h == y.h, std::string("C16-sequence/") + Ad<T>::name, "operation sequence %u of option<%s> (inputs %llu) observes something else with the library than with a plain optional", unsigned(base + k), Ad<T>::name, (unsigned long long)s);
        mon::digest(x.h); mon::seen(x.h);
    }
    mon::count("sequences", sizeof...(S)); mon::count("types");
}
#ifndef SEQS
#define SEQS 16
#endif
template<class T> void sequences() { sequences<T>(std::make_index_sequence<SEQS>()); }
#endif

int main(int argc, char** argv) {
    mon::init(argc, argv);
    using namespace ty;
#if GROUP == 0
    RUN(tokenizer) RUN(cache) RUN(tree) RUN(sorting) RUN(machine) RUN(fields)
#elif GROUP == 1
    RUN(lists) RUN(nested) RUN(pipes) RUN(refs) RUN(records) RUN(memo)
#if defined(__cpp_exceptions)
    RUN(exceptions)
#endif
#elif GROUP == 2
    sequences<int>(); sequences<bool>(); sequences<double>(); sequences<int*>(); sequences<ESent>();
#elif GROUP == 3
    sequences<float>(); sequences<std::string>(); sequences<std::string_view>(); sequences<std::pair<bool, int>>(); sequences<EU8>();
#elif GROUP == 4
    sequences<Agg>(); sequences<Pad>(); sequences<Poly>(); sequences<SentV>(); sequences<Memb>();
#elif GROUP == 5
    sequences<std::vector<int>>(); sequences<std::shared_ptr<int>>(); sequences<std::variant<int, std::string>>(); sequences<Prof111111>(); sequences<Prof000000>();
#endif
    return mon::finish();
}
