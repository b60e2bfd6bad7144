// C12: container, key, tuple and variant lookups, and stream input/output.
#ifndef GROUP
#define GROUP 0
#endif
#include <deque>
#include <iomanip>
#include <list>
#include <set>
#include <sstream>
#include <unordered_map>
#include <unordered_set>
#include "types.hpp"
using namespace ty;
namespace {
std::string g_type;
template<class X> constexpr int cat() { return (std::is_lvalue_reference_v<X> ? 0 : 2) + (std::is_const_v<std::remove_reference_t<X>> ? 1 : 0); }
const char* const catname[] = {"&", "const&", "&&", "const&&"};
template<int I, class O> constexpr decltype(auto) as(O& o) {
    if constexpr (I == 0) return static_cast<O&>(o);
    else if constexpr (I == 1) return static_cast<const O&>(o);
    else if constexpr (I == 2) return static_cast<O&&>(o);
    else return static_cast<const O&&>(o);
}
#define SAME(...) static_assert(std::is_same_v<__VA_ARGS__>, "documented result type")
// The reference type an access `L` yields for a receiver in form I
template<class L, int I> using Want = std::conditional_t<(I < 2), std::remove_reference_t<L>&, std::remove_reference_t<L>&&>;

std::vector<std::size_t> indices(std::size_t n, mon::Rng& r) {
    std::vector<std::size_t> v;
    const std::size_t M = ~std::size_t(0);
    for (std::size_t i = 0; i < std::min<std::size_t>(n + 3, 70); ++i) v.push_back(i);
    for (std::size_t b : {n, n / 2, std::size_t(1) << 7, std::size_t(1) << 8, std::size_t(1) << 15, std::size_t(1) << 16, std::size_t(1) << 31, std::size_t(1) << 32, std::size_t(1) << 33, std::size_t(1) << 40, std::size_t(1) << 63, M})
        for (std::size_t d : {std::size_t(0), std::size_t(1), std::size_t(2), n ? n - 1 : 0, n}) { v.push_back(b + d); v.push_back(b - d); v.push_back(b * (d + 1)); }
    for (int k = 0; k < 40; ++k) { v.push_back(r.next()); v.push_back(r.below(n + 4)); v.push_back(M - r.below(n + 4)); v.push_back((r.below(1000) << 32) + r.below(n + 1)); }
    return v;
}
// ---- at, at_front, at_back on containers with real references
template<int I, class C> void at1(C& c, const C& ref, std::size_t idx) {
    using L = decltype(as<I>(c)[idx]);
    auto r = opt::at(as<I>(c), idx);
    SAME(decltype(r), opt::option<Want<L, I>>);
    const bool in = idx < ref.size();
    MCHECK(r.has_value() == in, "C12-at-state", "at(%s%s of size %zu, %zu): has_value is %d", g_type.c_str(), catname[I], ref.size(), idx, int(r.has_value()));
    if (r.has_value() && in) MCHECK(std::addressof(*r) == std::addressof(std::as_const(c)[idx]), "C12-at-element", "at(%s of size %zu, %zu) designates another element", g_type.c_str(), ref.size(), idx);
}
template<int I, class C> void ends1(C& c, const C& ref) {
    auto f = opt::at_front(as<I>(c)); auto b = opt::at_back(as<I>(c));
    SAME(decltype(f), opt::option<Want<decltype(as<I>(c).front()), I>>); SAME(decltype(b), opt::option<Want<decltype(as<I>(c).back()), I>>);
    const bool in = ref.size() != 0;
    MCHECK(f.has_value() == in && b.has_value() == in, "C12-ends-state", "at_front/at_back(%s%s of size %zu): has_value is %d/%d", g_type.c_str(), catname[I], ref.size(), int(f.has_value()), int(b.has_value()));
    if (in && f.has_value() && b.has_value()) MCHECK(std::addressof(*f) == std::addressof(std::as_const(c).front()) && std::addressof(*b) == std::addressof(std::as_const(c).back()), "C12-ends-element", "at_front/at_back(%s of size %zu) designate other elements", g_type.c_str(), ref.size());
    mon::seen(mon::mix(mon::hash_str(g_type.c_str()), 77 + ref.size() * 4 + I));
}
template<class C> bool equalc(const C& a, const C& b) { return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin()); }
template<class C> void container(const char* name, C c, const C& ref, mon::Rng& r, bool index = true) {
    g_type = name;
    const void* data = nullptr; if (c.size()) data = std::addressof(*std::as_const(c).begin());
    mon::context("%s of size %zu", name, ref.size());
    ends1<0>(c, ref); ends1<1>(c, ref); ends1<2>(c, ref); ends1<3>(c, ref);
    if constexpr (!std::is_same_v<C, std::list<int>>) if (index) for (std::size_t i : indices(ref.size(), r)) {
        at1<0>(c, ref, i); at1<1>(c, ref, i); at1<2>(c, ref, i); at1<3>(c, ref, i);
        mon::seen(mon::mix(mon::hash_str(name), mon::mix(ref.size(), i)));
    }
    MCHECK(equalc(c, ref) && (!c.size() || data == std::addressof(*std::as_const(c).begin())), "C12-at-source", "lookups changed a %s of size %zu", name, ref.size());
}
// A sequence of astronomical length: only the arithmetic on indices matters
struct Vast {
    std::size_t n; mutable std::size_t last = 0; mutable std::size_t calls = 0; mutable std::size_t bad = 0; mutable int cells[13] = {};
    std::size_t size() const { return n; }
    int& at_(std::size_t i) const { ++calls; last = i; if (i >= n) ++bad; return cells[i % 13]; }
    int& operator[](std::size_t i) { return at_(i); }
    const int& operator[](std::size_t i) const { return at_(i); }
    int& front() { return at_(0); } int& back() { return at_(n - 1); }
};
template<class Size> struct Narrow {    // size() of a narrow or signed type
    Size n; mutable std::size_t bad = 0; mutable int cells[256] = {};
    Size size() const { return n; }
    int& operator[](std::size_t i) { if (i >= static_cast<std::size_t>(n)) { ++bad; return cells[255]; } return cells[i]; }
    int& front() { if (!n) ++bad; return cells[0]; } int& back() { if (!n) ++bad; return cells[n ? n - 1 : 0]; }
};
struct Minimal {                        // only what at() is documented to use, ref-qualified so that the category is visible
    int used = 0; int v[4] = {};
    std::size_t size() const { return 4; }
    int& operator[](std::size_t i) & { used = 1; return v[i]; }
    const int& operator[](std::size_t i) const& { return v[i]; }
    int&& operator[](std::size_t i) && { used = 3; return static_cast<int&&>(v[i]); }
    int& front() & { used = 1; return v[0]; } int&& front() && { used = 3; return static_cast<int&&>(v[0]); }
    int& back() & { used = 1; return v[3]; } int&& back() && { used = 3; return static_cast<int&&>(v[3]); }
    Minimal* operator&() = delete;
};
struct ByValue { std::size_t n; std::size_t size() const { return n; } std::string operator[](std::size_t i) const { return str(int(i)); } std::string front() const { return str(0); } std::string back() const { return str(int(n) - 1); } };

// ---- lookup
struct Logged {                          // records how find was used
    using mapped_type = int; using key_type = std::string;
    std::map<std::string, int> m; int finds = 0; int keycat = -1;
    auto end() { return m.end(); } auto end() const { return m.end(); }
    template<class K> auto find(K&& k) { ++finds; keycat = cat<K&&>(); return m.find(k); }
};
template<class C, class K> void look1(C& c, const K& key, const char* name) {
    const C before = c;
    auto r = opt::lookup(c, key); auto rc = opt::lookup(std::as_const(c), key);
    auto it = std::as_const(c).find(key);
    const bool in = it != std::as_const(c).end();
    MCHECK(r.has_value() == in && rc.has_value() == in, "C12-lookup-state", "lookup in %s of size %zu: has_value is %d/%d, key is %s", name, before.size(), int(r.has_value()), int(rc.has_value()), in ? "present" : "absent");
    if (in && r.has_value() && rc.has_value()) {
        const void* want; if constexpr (opt::impl::has_mapped_type<C>) want = std::addressof(it->second); else want = std::addressof(*it);
        MCHECK(static_cast<const void*>(std::addressof(*r)) == want && static_cast<const void*>(std::addressof(*rc)) == want, "C12-lookup-element", "lookup in %s designates another element", name);
    }
    MCHECK(c == before, "C12-lookup-source", "lookup changed a %s (size %zu -> %zu)", name, before.size(), c.size());
    mon::seen(mon::mix(mon::hash_str(name), mon::mix(before.size(), in)));
}
template<class M, class MK, class MV> void maps(const char* name, mon::Rng& r, MK mk, MV mv) {
    for (unsigned long n = 0; n < 6 * mon::st().scale; ++n) {
        M m; const int sz = n % 6 == 0 ? 0 : int(r.below(n % 6 == 5 ? 300 : 12));
        for (int i = 0; i < sz; ++i) m.insert({mk(int(r.below(40))), mv(int(r.below(40)))});
        mon::context("lookup in %s size %zu", name, m.size());
        for (int k = -1; k < 42; ++k) look1(m, mk(k), name);
        using V = typename M::mapped_type;
        auto a = opt::lookup(m, mk(0)); SAME(decltype(a), opt::option<V&>); auto b = opt::lookup(std::as_const(m), mk(0)); SAME(decltype(b), opt::option<const V&>);
    }
}
template<class S, class MK> void sets(const char* name, mon::Rng& r, MK mk) {
    for (unsigned long n = 0; n < 6 * mon::st().scale; ++n) {
        S s; const int sz = n % 6 == 0 ? 0 : int(r.below(n % 6 == 5 ? 300 : 12));
        for (int i = 0; i < sz; ++i) s.insert(mk(int(r.below(40))));
        mon::context("lookup in %s size %zu", name, s.size());
        for (int k = -1; k < 42; ++k) look1(s, mk(k), name);
        auto a = opt::lookup(s, mk(0)); SAME(decltype(a), opt::option<const typename S::value_type&>);
    }
}
// ---- get
template<std::size_t K, int I, class Tup> void getI(bool has, Tup t, const char* name) {
    opt::option<Tup> o; if (has) o.emplace(std::move(t));
    const volatile void* want = nullptr; if (has) want = std::addressof(std::get<K>(std::as_const(*o)));
    auto r = opt::get<K>(as<I>(o));
    using L = decltype(std::get<K>(as<I>(o).get()));
    SAME(decltype(r), opt::option<Want<L, I>>);
    MCHECK(r.has_value() == has, "C12-get-state", "get<%zu>(%s option%s of %s): has_value is %d", K, has ? "holding" : "empty", catname[I], name, int(r.has_value()));
    if (has && r.has_value()) MCHECK(static_cast<const volatile void*>(std::addressof(*r)) == want, "C12-get-element", "get<%zu> of %s designates another element", K, name);
    MCHECK(o.has_value() == has, "C12-get-source", "get<%zu> of %s changed the option", K, name);
    mon::seen(mon::mix(mon::hash_str(name), 900 + K * 8 + I * 2 + has));
}
template<class A, int I, class Tup> void getT(bool has, Tup t, const char* name) {
    opt::option<Tup> o; if (has) o.emplace(std::move(t));
    const volatile void* want = nullptr; if (has) want = std::addressof(std::get<A>(std::as_const(*o)));
    auto r = opt::get<A>(as<I>(o));
    SAME(decltype(r), opt::option<Want<decltype(std::get<A>(as<I>(o).get())), I>>);
    MCHECK(r.has_value() == has && (!has || static_cast<const volatile void*>(std::addressof(*r)) == want), "C12-get-type", "get<T>(%s option of %s): wrong state or element", has ? "holding" : "empty", name);
    // through an option of a reference
    if (has) { opt::option<Tup&> ro; ro.emplace(*o); auto q = opt::get<A>(ro); MCHECK(q.has_value() && static_cast<const volatile void*>(std::addressof(*q)) == want, "C12-get-type", "get<T>(reference option of %s) designates another element", name); }
    mon::seen(mon::mix(mon::hash_str(name), 1900 + I * 2 + has));
}
template<std::size_t K, class Tup, class F> void getall(F mk, const char* name) {
    for (int has = 0; has < 2; ++has) {
        mon::context("get<%zu> of %s", K, name);
        getI<K, 0>(has, mk(), name); getI<K, 1>(has, mk(), name); getI<K, 2>(has, mk(), name); getI<K, 3>(has, mk(), name);
        Tup t = mk(); const volatile void* want = std::addressof(std::get<K>(std::as_const(t)));
        opt::option<Tup&> o; if (has) o.emplace(t); opt::option<const Tup&> co; if (has) co.emplace(t);
        auto r = opt::get<K>(o); auto rc = opt::get<K>(co); auto rr = opt::get<K>(std::as_const(o));
        MCHECK(r.has_value() == has && rc.has_value() == has && rr.has_value() == has && (!has || (static_cast<const volatile void*>(std::addressof(*r)) == want && static_cast<const volatile void*>(std::addressof(*rc)) == want && static_cast<const volatile void*>(std::addressof(*rr)) == want)), "C12-get-ref", "get<%zu> of a reference option of %s: wrong state or element", K, name);
    }
}
#define GET(K, T, e) getall<K, T>([]() -> T { return e; }, #T);
#define GETT(A, T, e) for (int has = 0; has < 2; ++has) { getT<A, 0, T>(has, e, #T); getT<A, 1, T>(has, e, #T); getT<A, 2, T>(has, e, #T); getT<A, 3, T>(has, e, #T); }
struct Boom { Boom() = default; Boom(int) { throw 1; } Boom(const Boom&) { throw 1; } Boom& operator=(const Boom&) { return *this; } int z = 0; };
template<std::size_t K, int I, class V> void var1(V& v, const char* name) {
    auto r = opt::get<K>(as<I>(v));
    using A = std::variant_alternative_t<K, V>;
    SAME(decltype(r), opt::option<Want<std::conditional_t<I % 2, const A, A>&, I>>);
    const void* want = std::get_if<K>(std::addressof(v));
    MCHECK(static_cast<const void*>(r.ptr_or_null()) == want && r.has_value() == (want != nullptr), "C12-variant-get", "get<%zu>(variant%s %s holding alternative %d): has_value is %d", K, catname[I], name, int(v.index()), int(r.has_value()));
    mon::seen(mon::mix(mon::hash_str(name), 2900 + K * 64 + I * 16 + v.index()));
    // an option of the variant, and an option of a reference to it
    if constexpr (std::is_copy_constructible_v<A>) {
        opt::option<V&> ro; auto e = opt::get<K>(ro); MCHECK(!e.has_value(), "C12-variant-option", "get<%zu>(empty option of variant&) holds", K);
        ro.emplace(v); auto q = opt::get<K>(as<I>(ro)); MCHECK(static_cast<const void*>(q.ptr_or_null()) == want, "C12-variant-option", "get<%zu>(option of variant& %s holding alternative %d): has_value is %d", K, name, int(v.index()), int(q.has_value()));
    }
}
template<std::size_t K, class V> void var(V& v, const char* name) { mon::context("get<%zu> of %s", K, name); var1<K, 0>(v, name); var1<K, 1>(v, name); var1<K, 2>(v, name); var1<K, 3>(v, name); }
template<class V, std::size_t... K> void vars(V& v, const char* name, std::index_sequence<K...>) {
    const auto i = v.index(); (var<K>(v, name), ...); MCHECK(v.index() == i, "C12-variant-source", "get changed a variant");
    if (!v.valueless_by_exception()) if constexpr ((std::is_nothrow_move_constructible_v<std::variant_alternative_t<K, V>> && ...)) {
        opt::option<V> o; { bool any = false; ((any = any || opt::get<K>(o).has_value()), ...); MCHECK(!any, "C12-variant-option", "get of an empty option of %s holds", name); }
        o.emplace(v);
        bool ok = true; ((ok = ok && static_cast<const void*>(opt::get<K>(o).ptr_or_null()) == std::get_if<K>(std::addressof(*o)) && static_cast<const void*>(opt::get<K>(std::as_const(o)).ptr_or_null()) == std::get_if<K>(std::addressof(*o)) && opt::get<K>(std::move(o)).has_value() == (K == i)), ...);
        MCHECK(ok, "C12-variant-option", "get<I>(option of %s holding alternative %d): wrong alternative reported", name, int(i));
        if constexpr (std::is_same_v<V, std::variant<int, std::string, double>>) {
            bool t = static_cast<const void*>(opt::get<int>(o).ptr_or_null()) == std::get_if<int>(&*o) && static_cast<const void*>(opt::get<std::string>(std::as_const(o)).ptr_or_null()) == std::get_if<std::string>(&*o) && opt::get<double>(std::move(o)).has_value() == (i == 2);
            MCHECK(t, "C12-variant-option", "get<T>(option of %s holding alternative %d): wrong alternative reported", name, int(i));
        }
    }
}
template<class V> void vari(V v, const char* name) { vars(v, name, std::make_index_sequence<std::variant_size_v<V>>{}); }
struct DerivedVar : std::variant<int, std::string> { using std::variant<int, std::string>::variant; };
namespace user {
    struct Pt { int x = 1; int y = 2; };
    template<std::size_t I> int& get(Pt& p) { return I ? p.y : p.x; } template<std::size_t I> const int& get(const Pt& p) { return I ? p.y : p.x; }
    template<std::size_t I> int&& get(Pt&& p) { return static_cast<int&&>(I ? p.y : p.x); } template<std::size_t I> const int&& get(const Pt&& p) { return static_cast<const int&&>(I ? p.y : p.x); }
}
// ---- io
struct Sink {                            // not a std stream: logs every use
    std::vector<std::string> log; std::vector<const void*> addr;
    Sink& operator<<(const int& v) { log.push_back("int " + std::to_string(v)); addr.push_back(&v); return *this; }
    Sink& operator<<(const std::string& v) { log.push_back("str " + v); addr.push_back(&v); return *this; }
    Sink& operator<<(const char* v) { log.push_back(std::string("lit ") + v); addr.push_back(v); return *this; }
    Sink& operator>>(int& v) { log.push_back("get int"); addr.push_back(&v); v = 4711; return *this; }
    Sink& operator>>(std::string& v) { log.push_back("get str"); addr.push_back(&v); v = "read"; return *this; }
};
template<class S> void setup(S& s, int how) {
    switch (how) {
    case 1: s << std::hex << std::showbase; break; case 2: s << std::setw(12) << std::setfill(s.widen('*')); break; case 3: s << std::boolalpha << std::fixed << std::setprecision(2); break;
    case 4: s << std::setw(9) << std::left; break; case 5: s.setstate(std::ios::failbit); break; case 6: s << std::scientific << std::uppercase << std::showpos; break; case 7: s.setstate(std::ios::eofbit); break;
    }
}
template<class S> bool same_stream(const S& a, const S& b) { return a.str() == b.str() && a.rdstate() == b.rdstate() && a.width() == b.width() && a.flags() == b.flags() && a.fill() == b.fill() && a.precision() == b.precision(); }
template<class S, class T, class N> void out1(const T& v, const N& none, const char* name) {
    for (int how = 0; how < 8; ++how) for (int has = 0; has < 2; ++has) for (int form = 0; form < 6; ++form) {
        mon::context("io of %s has %d how %d form %d", name, has, how, form);
        opt::option<T> o; if (has) o.emplace(v); const auto& co = o;
        T obj = v; opt::option<T&> ro; if (has) ro.emplace(obj);
        N nn = none; S a, b; setup(a, how); setup(b, how);
        a << 1; b << 1; setup(a, how); setup(b, how);
        switch (form) {
        case 0: { auto& q = (a << opt::io(o)); MCHECK(&q == &a, "C12-io-return", "writing io returns another stream"); break; }
        case 1: a << opt::io(co); break; case 2: a << opt::io(o, nn); break; case 3: a << opt::io(co, none); break; case 4: a << opt::io(ro, none); break; case 5: a << opt::io(ro); break;
        }
        if (has) b << v; else if (form >= 2 && form != 5) b << none;
        MCHECK(same_stream(a, b), "C12-io-write", "io form %d of a %s option of %s, format %d: stream differs from plain output", form, has ? "holding" : "empty", name, how);
        a << 77; b << 77; MCHECK(same_stream(a, b), "C12-io-after", "io form %d of %s, format %d: later output differs", form, name, how);
        MCHECK(o.has_value() == bool(has) && (!has || *o == v) && nn == none, "C12-io-source", "writing an option of %s changed it", name);
        mon::seen(mon::mix(mon::hash_str(name), 3900 + how * 32 + has * 8 + form));
    }
}
template<class T, class N> void in1(const char* text, T init, N ninit, const char* name) {
    for (int has = 0; has < 2; ++has) for (int fmt = 0; fmt < 3; ++fmt) {
        mon::context("io reading %s from \"%s\" has %d", name, text, has);
        opt::option<T> o; if (has) o.emplace(init); N n = ninit, pn = ninit; T pv = init;
        std::istringstream a(text), b(text); if (fmt == 1) { a >> std::hex; b >> std::hex; } if (fmt == 2) { a >> std::noskipws; b >> std::noskipws; }
        auto& q = (a >> opt::io(o, n)); if (has) b >> pv; else b >> pn;
        MCHECK(&q == &a, "C12-io-return", "reading io returns another stream");
        MCHECK(a.rdstate() == b.rdstate() && a.tellg() == b.tellg(), "C12-io-read-stream", "reading %s from \"%s\" (%s): stream state differs from plain input", name, text, has ? "holding" : "empty");
        MCHECK(o.has_value() == bool(has) && (!has || *o == pv), "C12-io-read-value", "reading %s from \"%s\": option %s", name, text, has ? "holds another value" : "gained a value");
        MCHECK(n == pn, "C12-io-read-none", "reading %s from \"%s\" (%s): replacement variable differs", name, text, has ? "holding" : "empty");
        mon::seen(mon::mix(mon::hash_str(name), mon::mix(mon::hash_str(text), has * 4 + fmt)));
    }
}
#if GROUP == 4
// elements that are options themselves: the result refers to the inner option, whether or not it holds a value
template<class X> void inner_options() {
    using OI = opt::option<X>; const X v = Ad<X>::make(Ad<X>::N > 1 ? 1 : 0); g_type = Ad<X>::name; mon::context("elements option<%s>", Ad<X>::name);
    for (int has = 0; has < 2; ++has) {
        auto mk = [&] { OI o; if (has) o.emplace(v); return o; };
        auto good = [&](const auto& r, const OI* at) { return r.has_value() && std::addressof(*r) == at && at->has_value() == bool(has); };
#define IN(NAME, COND) MCHECK(COND, "C12-inner-options/" NAME, NAME " over elements of type option<%s>, %s", Ad<X>::name, has ? "holding" : "empty"); mon::seen(std::string(Ad<X>::name) + NAME + char('0' + has));
        std::vector<OI> vec; vec.push_back(mk()); vec.push_back(mk()); vec.push_back(mk()); const auto& cvec = vec;
        IN("at", good(opt::at(vec, 1), &vec[1]) && good(opt::at(cvec, 2), &vec[2]) && !opt::at(vec, 3).has_value()) SAME(decltype(opt::at(vec, 1)), opt::option<OI&>); SAME(decltype(opt::at(cvec, 1)), opt::option<const OI&>);
        IN("at_front/at_back", good(opt::at_front(vec), &vec[0]) && good(opt::at_back(cvec), &vec[2]))
        std::map<int, OI> m; m.emplace(1, mk()); const auto& cm = m;
        IN("lookup", good(opt::lookup(m, 1), &m.begin()->second) && good(opt::lookup(cm, 1), &m.begin()->second) && !opt::lookup(m, 2).has_value())
        std::variant<int, OI> var(mk()), other(3);
        IN("get of a variant", good(opt::get<1>(var), &std::get<1>(var)) && good(opt::get<OI>(var), &std::get<1>(var)) && !opt::get<1>(other).has_value() && !opt::get<0>(var).has_value() && *opt::get<0>(other) == 3)
        opt::option<std::variant<int, OI>> ov(std::in_place, mk()), oo(std::in_place, 3), on;
        IN("get of an option of a variant", good(opt::get<1>(ov), &std::get<1>(*ov)) && good(opt::get<OI>(std::as_const(ov)), &std::get<1>(*ov)) && !opt::get<1>(oo).has_value() && !opt::get<0>(ov).has_value() && !opt::get<1>(on).has_value() && !opt::get<OI>(on).has_value())
        opt::option<std::tuple<int, OI>> ot(std::in_place, 4, mk()), tn; opt::option<std::pair<OI, int>> op(std::in_place, mk(), 5); opt::option<std::array<OI, 2>> oa(std::in_place, std::array<OI, 2>{{mk(), mk()}});
        IN("get of tuple-likes", good(opt::get<1>(ot), &std::get<1>(*ot)) && good(opt::get<OI>(std::as_const(ot)), &std::get<1>(*ot)) && good(opt::get<0>(op), &op->first) && good(opt::get<1>(oa), &(*oa)[1]) && !opt::get<1>(tn).has_value())
        OI x = mk(); OI* px = &x; OI* pn = nullptr;
        IN("from_nullable", good(opt::from_nullable(px), &x) && !opt::from_nullable(pn).has_value())
        opt::option<OI&> r(x), e, r2(std::in_place, x); opt::option<const OI&> rc(x); e = x; OI y;
        IN("reference", good(r, &x) && good(r2, &x) && good(rc, &x) && good(e, &x) && r.ptr_or_null() == &x && good(r.filter([](const OI&) { return true; }), &x) && std::addressof(r.value_or(y)) == &x && std::addressof(opt::option<OI&>().value_or(y)) == &y)
        IN("flatten", good(opt::flatten(r), &x))
        IN("zip_with", good(opt::zip_with([](OI& a, OI& b) -> OI& { (void)b; return a; }, r, r2), &x))
        if (r.has_value()) { r->reset(); IN("through the reference", !x.has_value() && r.has_value()) r->emplace(v); IN("emplace through the reference", x.has_value() && Ad<X>::id(*x) == Ad<X>::id(v)) }
    }
    mon::count("types");
}
#endif
} // namespace

int main(int argc, char** argv) {
    mon::init(argc, argv);
    mon::Rng r(mon::st().seed); (void)r;
    const unsigned long S = mon::st().scale; (void)S;
#if GROUP == 0
    std::vector<std::size_t> sizes{0, 1, 2, 3, 7, 8, 15, 16, 17, 63, 64, 65, 255, 256, 1000};
    for (unsigned long n = 0; n < S; ++n) { for (std::size_t z : sizes) {
        std::vector<int> v(z); for (auto& x : v) x = int(r.next()); v.shrink_to_fit(); container("std::vector<int>", v, v, r);
        std::vector<std::string> vs(z); for (auto& x : vs) x = str(int(r.below(50))); container("std::vector<std::string>", vs, vs, r);
        std::vector<char> vc(z, 'c'); container("std::vector<char>", vc, vc, r);
        std::deque<int> d(v.begin(), v.end()); container("std::deque<int>", d, d, r); std::list<int> l(v.begin(), v.end()); container("std::list<int>", l, l, r);
        std::string s(z, 'x'); container("std::string", s, s, r); std::wstring w(z, L'x'); container("std::wstring", w, w, r);
        { g_type = "std::string_view"; std::vector<char> raw(z, 'q'); std::string_view sv(raw.data(), z); for (std::size_t i : indices(z, r)) { auto a = opt::at(sv, i); auto b = opt::at(std::string_view(sv), i); SAME(decltype(a), opt::option<const char&>); MCHECK(a.has_value() == (i < z) && b.has_value() == (i < z) && (i >= z || (a.ptr_or_null() == raw.data() + i && b.ptr_or_null() == raw.data() + i)), "C12-at-state", "at(string_view of size %zu, %zu)", z, i); }
          auto f = opt::at_front(sv), b = opt::at_back(sv); MCHECK(f.has_value() == (z > 0) && b.has_value() == (z > 0) && (!z || (f.ptr_or_null() == raw.data() && b.ptr_or_null() == raw.data() + z - 1)), "C12-ends-state", "at_front/at_back(string_view of size %zu)", z); }
        { std::vector<bool> vb(z); for (std::size_t i = 0; i < z; ++i) vb[i] = r.below(2); const auto cp = vb; for (std::size_t i : indices(z, r)) { auto a = opt::at(vb, i); auto b = opt::at(std::as_const(vb), i); MCHECK(a.has_value() == (i < z) && b.has_value() == (i < z) && (i >= z || (bool(*a) == cp[i] && *b == cp[i])), "C12-at-state", "at(vector<bool> of size %zu, %zu)", z, i); if (i < z && a.has_value()) { *a = !cp[i]; MCHECK(vb[i] != cp[i], "C12-at-element", "at(vector<bool>) proxy designates another element"); vb[i] = cp[i]; } } MCHECK(vb == cp, "C12-at-source", "at changed a vector<bool>"); }
        { ByValue bv{z}; for (std::size_t i : indices(z, r)) { auto a = opt::at(bv, i); SAME(decltype(a), opt::option<std::string>); MCHECK(a.has_value() == (i < z) && (i >= z || *a == str(int(i))), "C12-at-state", "at(container returning by value of size %zu, %zu)", z, i); } auto f = opt::at_front(bv), b = opt::at_back(bv); MCHECK(f.has_value() == (z > 0) && b.has_value() == (z > 0), "C12-ends-state", "ends of a container returning by value"); }
    }
    { std::array<int, 0> a0; std::array<int, 1> a1{{4}}; std::array<std::string, 5> a5{{"a", "b", "c", "d", "e"}}; container("std::array<int, 0>", a0, a0, r); container("std::array<int, 1>", a1, a1, r); container("std::array<std::string, 5>", a5, a5, r); }
    { std::vector<std::unique_ptr<int>> u; for (int k = 0; k < 5; ++k) u.push_back(std::make_unique<int>(k)); for (std::size_t i : indices(5, r)) { auto a = opt::at(u, i); auto b = opt::at(std::move(u), i); MCHECK(a.has_value() == (i < 5) && b.has_value() == (i < 5) && (i >= 5 || (a.ptr_or_null() == &u[i] && b.ptr_or_null() == &u[i] && **a == int(i))), "C12-at-element", "at(vector<unique_ptr>, %zu)", i); } auto f = opt::at_front(std::move(u)); auto b = opt::at_back(std::move(u)); MCHECK(f.ptr_or_null() == &u.front() && b.ptr_or_null() == &u.back() && u.size() == 5 && u.front() && u.back(), "C12-ends-element", "at_front/at_back(vector<unique_ptr>&&) moved an element"); }
    for (std::size_t z : {std::size_t(1) << 31, (std::size_t(1) << 31) + 5, std::size_t(1) << 32, (std::size_t(1) << 32) + 7, std::size_t(1) << 40, std::size_t(1) << 62, (std::size_t(1) << 63) + 3, ~std::size_t(0), std::size_t(0), std::size_t(1)}) {
        Vast v{z}; for (std::size_t i : indices(z, r)) { v.calls = 0; auto a = opt::at(v, i); auto b = opt::at(std::as_const(v), i); MCHECK(a.has_value() == (i < z) && b.has_value() == (i < z) && v.bad == 0, "C12-at-state", "at(sequence of length %zu, %zu): has_value is %d/%d", z, i, int(a.has_value()), int(b.has_value())); if (i < z && a.has_value()) MCHECK(v.last == i && a.ptr_or_null() == &v.cells[i % 13], "C12-at-element", "at(sequence of length %zu, %zu) accessed %zu", z, i, v.last); mon::seen(mon::mix(z, i)); }
        auto f = opt::at_front(v), b = opt::at_back(v); MCHECK(f.has_value() == (z > 0) && b.has_value() == (z > 0) && v.bad == 0 && (!z || b.ptr_or_null() == &v.cells[(z - 1) % 13]), "C12-ends-state", "ends of a sequence of length %zu", z);
    }
    for (int z : {0, 1, 5, 127}) for (std::size_t i : indices(std::size_t(z), r)) {
        Narrow<signed char> a{static_cast<signed char>(z)}; Narrow<int> b{z}; Narrow<unsigned short> c{static_cast<unsigned short>(z)}; Narrow<long long> d{z};
        const bool in = i < std::size_t(z);
        MCHECK(opt::at(a, i).has_value() == in && opt::at(b, i).has_value() == in && opt::at(c, i).has_value() == in && opt::at(d, i).has_value() == in && !a.bad && !b.bad && !c.bad && !d.bad, "C12-at-state", "at(container with narrow size() %d, %zu)", z, i);
        MCHECK(opt::at_front(a).has_value() == (z > 0) && opt::at_back(b).has_value() == (z > 0) && opt::at_back(c).ptr_or_null() == (z ? &c.cells[z - 1] : nullptr) && !a.bad && !b.bad && !c.bad, "C12-ends-state", "ends of a container with narrow size() %d", z);
    }
    { Minimal m; auto a = opt::at(m, 2); MCHECK(m.used == 1 && a.ptr_or_null() == m.v + 2, "C12-at-forward", "at(lvalue) did not use the lvalue operator[]"); auto b = opt::at(std::move(m), 3); MCHECK(m.used == 3 && b.ptr_or_null() == m.v + 3, "C12-at-forward", "at(rvalue) did not use the rvalue operator[]"); auto c = opt::at_front(m); MCHECK(m.used == 1 && c.ptr_or_null() == m.v, "C12-at-forward", "at_front(lvalue)"); auto d = opt::at_back(std::move(m)); MCHECK(m.used == 3 && d.ptr_or_null() == m.v + 3, "C12-at-forward", "at_back(rvalue)"); m.used = 0; auto e = opt::at(m, 4); MCHECK(!e.has_value() && m.used == 0, "C12-at-forward", "at(out of range) called operator[]"); }
    }
#elif GROUP == 1
    auto ki = [](int k) { return k; }; auto ks = [](int k) { return std::string(static_cast<std::size_t>(k + 1) % 45, 'k') + std::to_string(k); }; auto vi = [](int k) { return k; }; auto vs = [](int k) { return str(k); };
    maps<std::map<int, int>>("map<int, int>", r, ki, vi); maps<std::map<std::string, std::string>>("map<string, string>", r, ks, vs); maps<std::multimap<int, std::string>>("multimap<int, string>", r, ki, vs);
    maps<std::unordered_map<int, std::string>>("unordered_map<int, string>", r, ki, vs); maps<std::unordered_multimap<std::string, int>>("unordered_multimap<string, int>", r, ks, vi); maps<std::map<std::string, bool, std::less<>>>("map<string, bool, less<>>", r, ks, [](int k) { return k % 2 == 0; });
    maps<std::map<int, int*, std::greater<int>>>("map<int, int*, greater>", r, ki, [](int k) -> int* { return k % 2 ? nullptr : &g_ints[1]; }); maps<std::map<int, double>>("map<int, double>", r, ki, [](int k) { return k * 1.5; } ) ;
    sets<std::set<int>>("set<int>", r, ki); sets<std::multiset<std::string>>("multiset<string>", r, ks); sets<std::unordered_set<std::string>>("unordered_set<string>", r, ks); sets<std::unordered_multiset<int>>("unordered_multiset<int>", r, ki); sets<std::set<std::string, std::less<>>>("set<string, less<>>", r, ks);
    { std::map<std::string, int, std::less<>> m{{"a", 1}, {"bb", 2}, {"", 3}}; for (const char* k : {"a", "bb", "", "c", "b"}) { auto a = opt::lookup(m, std::string_view(k)); auto b = opt::lookup(m, k); auto c = opt::lookup(m, std::string(k)); auto it = m.find(k); const int* want = it == m.end() ? nullptr : &it->second; MCHECK(a.ptr_or_null() == want && b.ptr_or_null() == want && c.ptr_or_null() == want && m.size() == 3, "C12-lookup-state", "heterogeneous lookup of \"%s\"", k); } }
    { Logged l; l.m["k"] = 5; std::string k = "k", z = "z"; auto a = opt::lookup(l, k); MCHECK(l.finds == 1 && l.keycat == 0 && a.ptr_or_null() == &l.m["k"], "C12-lookup-forward", "lookup(lvalue key): %d finds, key passed as %s", l.finds, catname[l.keycat & 3]); auto b = opt::lookup(l, std::move(z)); MCHECK(l.finds == 2 && l.keycat == 2 && !b.has_value() && l.m.size() == 1, "C12-lookup-forward", "lookup(rvalue key): key passed as %s", catname[l.keycat & 3]); auto c = opt::lookup(l, std::as_const(k)); MCHECK(l.finds == 3 && l.keycat == 1 && c.has_value(), "C12-lookup-forward", "lookup(const key)"); }
    { std::map<int, std::unique_ptr<int>> m; m[1] = std::make_unique<int>(5); m[2]; auto a = opt::lookup(m, 1), b = opt::lookup(m, 2), c = opt::lookup(m, 3); MCHECK(a.ptr_or_null() == &m.at(1) && b.has_value() && !*b && !c.has_value() && m.size() == 2, "C12-lookup-state", "lookup in map of unique_ptr"); }
#elif GROUP == 2
    for (unsigned long n = 0; n < S; ++n) {
    using P = std::pair<int, std::string>; GET(0, P, P(3, "x")) GET(1, P, P(3, "y"))
    using PP = std::pair<bool, bool>; GET(0, PP, PP(true, false)) GET(1, PP, PP(true, false))
    using T5 = std::tuple<int, std::string, bool, float, opt::impl::remove_cvref<double>>; GET(0, T5, T5(1, "q", true, 2.5f, 3.5)) GET(1, T5, T5(1, "q", true, 2.5f, 3.5)) GET(2, T5, T5(1, "q", true, 2.5f, 3.5)) GET(3, T5, T5(1, "q", true, 2.5f, 3.5)) GET(4, T5, T5(1, "q", true, 2.5f, 3.5))
    using A3 = std::array<std::string, 3>; GET(0, A3, (A3{{"a", "b", "c"}})) GET(1, A3, (A3{{"a", "b", "c"}})) GET(2, A3, (A3{{"a", "b", "c"}}))
    using T1 = std::tuple<int>; GET(0, T1, T1(1)) using TU = std::tuple<std::unique_ptr<int>, int>; GET(0, TU, TU(std::make_unique<int>(3), 4)) GET(1, TU, TU(nullptr, 4))
    using TC = std::tuple<const int, std::string>; GET(0, TC, TC(1, "z")) GET(1, TC, TC(1, "z"))
    static int cell = 4; using TR = std::tuple<int&, const int&>; GET(0, TR, TR(cell, cell)) GET(1, TR, TR(cell, cell))
    GETT(int, P, P(3, "x")) GETT(std::string, P, P(3, "y")) GETT(bool, T5, T5(1, "q", true, 2.5f, 3.5)) GETT(double, T5, T5(1, "q", true, 2.5f, 3.5)) GETT(std::string, T5, T5(1, "q", true, 2.5f, 3.5)) GETT(int, TU, TU(nullptr, 4))
    { opt::option<user::Pt> o(std::in_place), e; auto a = opt::get<0>(o); auto b = opt::get<1>(std::as_const(o)); auto c = opt::get<1>(std::move(o)); auto d = opt::get<0>(e); SAME(decltype(a), opt::option<int&>); SAME(decltype(b), opt::option<const int&>); SAME(decltype(c), opt::option<int&&>); MCHECK(a.ptr_or_null() == &o->x && b.ptr_or_null() == &o->y && c.ptr_or_null() == &o->y && !d.has_value(), "C12-get-adl", "get of a type with its own get"); }
    using V3 = std::variant<int, std::string, double>; vari(V3(1), "variant<int, string, double>"); vari(V3("s"), "variant<int, string, double>"); vari(V3(2.5), "variant<int, string, double>");
    using V2 = std::variant<std::monostate, bool>; vari(V2(), "variant<monostate, bool>"); vari(V2(false), "variant<monostate, bool>"); using VD = std::variant<int, int, int>; vari(VD(std::in_place_index<0>, 5), "variant<int, int, int>"); vari(VD(std::in_place_index<1>, 5), "variant<int, int, int>"); vari(VD(std::in_place_index<2>, 5), "variant<int, int, int>");
    using VB = std::variant<int, Boom>; { VB v(7); vari<VB>(VB(7), "variant<int, Boom>"); try { v.emplace<1>(3); } catch (int) {} MCHECK(v.valueless_by_exception(), "C12-harness", "not valueless"); vars(v, "valueless variant", std::make_index_sequence<2>{}); auto a = opt::get<int>(v); auto b = opt::get<Boom>(std::as_const(v)); auto c = opt::get<int>(std::move(v)); MCHECK(!a.has_value() && !b.has_value() && !c.has_value(), "C12-variant-get", "get<T> of a valueless variant holds a value"); }
    { opt::option<DerivedVar> o(DerivedVar(3)); auto a = opt::get<0>(o); auto b = opt::get<1>(o); auto c = opt::get<std::string>(o); MCHECK(a.has_value() && *a == 3 && !b.has_value() && !c.has_value(), "C12-variant-option", "get of an option of a class derived from a variant"); }
    { V3 v("abc"); auto a = opt::get<std::string>(v); auto b = opt::get<int>(v); auto c = opt::get<std::string>(std::as_const(v)); auto d = opt::get<std::string>(std::move(v)); auto e = opt::get<double>(static_cast<const V3&&>(v)); SAME(decltype(a), opt::option<std::string&>); SAME(decltype(c), opt::option<const std::string&>); SAME(decltype(d), opt::option<std::string&&>); SAME(decltype(e), opt::option<const double&&>); MCHECK(a.ptr_or_null() == std::get_if<1>(&v) && !b.has_value() && c.ptr_or_null() == std::get_if<1>(&v) && d.ptr_or_null() == std::get_if<1>(&v) && !e.has_value() && std::get<1>(v) == "abc", "C12-variant-get", "get<T>(variant)"); }
    }
#elif GROUP == 3
    out1<std::ostringstream>(42, std::string("none"), "int/string"); out1<std::ostringstream>(std::string("text with spaces"), 7, "string/int"); out1<std::ostringstream>(true, std::string("empty"), "bool/string"); out1<std::ostringstream>(false, 1.5, "bool/double"); out1<std::ostringstream>(2.71828, std::string(""), "double/empty string");
    out1<std::ostringstream>('c', 'n', "char/char"); out1<std::ostringstream>(static_cast<unsigned char>(200), 'n', "unsigned char/char"); out1<std::ostringstream>(-1LL, 0u, "long long/unsigned"); out1<std::ostringstream>(std::string(3000, 'z'), std::string(2, '\0'), "long string"); out1<std::ostringstream>(std::string_view("sv"), 3, "string_view/int"); out1<std::ostringstream>(static_cast<const void*>(&g_type), 3, "pointer/int");
    out1<std::wostringstream>(42, std::wstring(L"none"), "int/wstring"); out1<std::wostringstream>(std::wstring(L"wide"), 3, "wstring/int");
    { std::ostringstream s, p; opt::option<int> e, o(5); s << opt::io(e, "empty") << ' ' << opt::io(o, "empty") << ' ' << opt::io(e) << ' ' << opt::io(o) << std::flush; p << "empty" << ' ' << 5 << ' ' << ' ' << 5; MCHECK(same_stream(s, p), "C12-io-write", "chained output is \"%s\"", s.str().c_str()); }
    for (const char* t : {"12 rest", "abc", "", "   77", "99999999999999999999", "0x1f", "-5", "1.5e3x", " \n\t", "true", "12,3"}) { in1<int, int>(t, 3, 4, "int/int"); in1<double, int>(t, 3.0, 4, "double/int"); in1<std::string, std::string>(t, "old", "n", "string/string"); in1<char, std::string>(t, 'o', "n", "char/string"); in1<bool, int>(t, true, 4, "bool/int"); in1<unsigned long, double>(t, 3, 4, "ulong/double"); in1<float, float>(t, 3.f, 4.f, "float/float"); }
    { Sink k; opt::option<int> o(5), e; int n = 0; std::string s = "none"; const std::string cs = "cnone"; auto& q = (k << opt::io(o)); k << opt::io(e); k << opt::io(o, s) << opt::io(e, s) << opt::io(std::as_const(e), cs) << opt::io(e, "lit"); k >> opt::io(o, n) ; k >> opt::io(e, n) >> opt::io(e, s);
      MCHECK(&q == &k && k.log == (std::vector<std::string>{"int 5", "int 5", "str none", "str cnone", "lit lit", "get int", "get int", "get str"}), "C12-io-custom", "user stream saw %zu operations", k.log.size());
      if (k.addr.size() == 8) MCHECK(k.addr[0] == &*o && k.addr[1] == &*o && k.addr[2] == &s && k.addr[3] == &cs && k.addr[5] == &*o && k.addr[6] == &n && k.addr[7] == &s && *o == 4711 && n == 4711 && s == "read" && !e.has_value(), "C12-io-custom", "user stream was given another object");
      opt::option<int&> ro(n); opt::option<std::string&> re; std::string alt = "a"; k.log.clear(); k.addr.clear(); n = 1; k << opt::io(ro) << opt::io(re, alt); k >> opt::io(ro, alt) >> opt::io(re, alt); MCHECK(k.addr.size() == 4 && k.addr[0] == &n && k.addr[1] == &alt && k.addr[2] == &n && k.addr[3] == &alt && n == 4711 && alt == "read" && ro.ptr_or_null() == &n, "C12-io-custom", "user stream with reference options was given another object");
      opt::option<int&&> rv(std::move(n)); k.addr.clear(); k << opt::io(rv); MCHECK(k.addr.size() == 1 && k.addr[0] == &n, "C12-io-custom", "user stream with rvalue reference option"); }
#elif GROUP == 4
    inner_options<int>(); inner_options<bool>(); inner_options<std::string>(); inner_options<double>(); inner_options<std::vector<int>>(); inner_options<ty::ESent>(); inner_options<opt::option<int>>(); inner_options<ty::Agg>(); inner_options<ty::SentV>();
#endif
    return mon::finish();
}
