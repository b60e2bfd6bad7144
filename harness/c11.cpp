// C11: zip, zip_with, unzip, flatten, casts and conversions, each compared with what the documentation says it holds.
#ifndef GROUP
#define GROUP 0
#endif
#include <any>
#include <optional>
#include "types.hpp"
using namespace ty;
namespace {
std::string g_type;
const char* const catname[] = {"&", "const&", "&&", "const&&"};
template<class X> constexpr int cat() { return (std::is_lvalue_reference_v<X> ? 0 : 2) + (std::is_const_v<std::remove_reference_t<X>> ? 1 : 0); }
template<int I, class O> constexpr decltype(auto) as(O& o) {
    if constexpr (I == 0) return static_cast<O&>(o);
    else if constexpr (I == 1) return static_cast<const O&>(o);
    else if constexpr (I == 2) return static_cast<O&&>(o);
    else return static_cast<const O&&>(o);
}
template<class T> using Elem = std::remove_cv_t<std::remove_reference_t<T>>;
template<class T, int I> using Got = std::conditional_t<I == 0, T&, std::conditional_t<I == 1, const T&, std::conditional_t<I == 2, T&&, const T&&>>>;
#define SAME(...) static_assert(std::is_same_v<__VA_ARGS__>, "documented result type")

// An option and, for reference options, the object it designates
template<class T> struct Slot {
    using E = Elem<T>;
    static constexpr bool ref = std::is_reference_v<T>;
    E obj; opt::option<T> o; bool has; int id;
    Slot(bool h, int i) : Slot(std::pair<bool, int>(h, i)) {}
    Slot(const Slot&) = delete;
    Slot(std::pair<bool, int> hi) : obj(Ad<E>::make(hi.second)), has(hi.first), id(hi.second) {
        const int i = id; if (!has) return;
        if constexpr (ref) o.emplace(static_cast<T&&>(obj)); else o.emplace(Ad<E>::make(i));
    }
    const volatile void* where() { if constexpr (ref) return std::addressof(obj); else return std::addressof(o.get_unchecked()); }
    bool same() const { return o.has_value() == has && (!has || Ad<E>::id(*o) == id); }
};
// can a component of type T be made from the element of an option in form I
template<class T, int I> constexpr bool makeable = std::is_constructible_v<T, decltype(as<I>(std::declval<opt::option<T>&>()).get())>;

struct ToAgg { int v; operator Agg() const { return Agg{v, 3.5}; } bool operator==(const ToAgg& o) const { return v == o.v; } };
// ---- zip
template<std::size_t N, std::size_t... I> constexpr int digit_(int code, std::index_sequence<I...>) { int r = code; for (std::size_t k = 0; k < N; ++k) r /= 4; return r % 4; }
constexpr int digit(int code, int n) { for (int k = 0; k < n; ++k) code /= 4; return code % 4; }
struct ZLog { int calls = 0, own = -1; const volatile void* addr[6] = {}; int cats[6] = {}; int ids[6] = {}; };
template<class Ret, class... E> struct ZFn {
    ZLog* log; Ret (*ret)(int);
    template<int Own, class... A> Ret call(A&&... a) const {
        static_assert(sizeof...(A) == sizeof...(E));
        ++log->calls; log->own = Own; int k = 0;
        ((log->addr[k] = std::addressof(a), log->cats[k] = cat<A&&>(), log->ids[k] = Ad<E>::id(a), ++k), ...);
        return ret(log->calls);
    }
    template<class... A> Ret operator()(A&&... a) & { return call<0>(static_cast<A&&>(a)...); }
    template<class... A> Ret operator()(A&&... a) const& { return call<1>(static_cast<A&&>(a)...); }
    template<class... A> Ret operator()(A&&... a) && { return call<2>(static_cast<A&&>(a)...); }
    template<class... A> Ret operator()(A&&... a) const&& { return call<3>(static_cast<A&&>(a)...); }
};
int g_cells[8];
template<class Ret> Ret zret(int n);
template<> [[maybe_unused]] int zret<int>(int n) { return 4000 + n; }
template<> [[maybe_unused]] void zret<void>(int) {}
template<> [[maybe_unused]] int& zret<int&>(int n) { return g_cells[n]; }
template<> [[maybe_unused]] opt::option<int> zret<opt::option<int>>(int) { return opt::none; }
template<> [[maybe_unused]] std::unique_ptr<int> zret<std::unique_ptr<int>>(int n) { return std::make_unique<int>(n); }
template<> [[maybe_unused]] bool zret<bool>(int) { return false; }

template<class Ret, int Own, int Code, class... T, std::size_t... K>
void zipw(unsigned mask, const int (&ids)[6], std::index_sequence<K...>) {
    std::tuple<Slot<T>...> s{std::pair<bool, int>((mask >> K) & 1, ids[K])...};
    const bool all = (std::get<K>(s).has && ...);
    ZLog log; ZFn<Ret, Elem<T>...> fn{&log, &zret<Ret>};
    const volatile void* at[] = {nullptr, std::get<K>(s).where()...};
    if constexpr (std::is_void_v<Ret>) {
        SAME(decltype(opt::zip_with(as<Own>(fn), as<digit(Code, K)>(std::get<K>(s).o)...)), void);
        opt::zip_with(as<Own>(fn), as<digit(Code, K)>(std::get<K>(s).o)...);
    } else {
        auto r = opt::zip_with(as<Own>(fn), as<digit(Code, K)>(std::get<K>(s).o)...);
        SAME(decltype(r), opt::option<Ret>);
        MCHECK(r.has_value() == all, "C11-zip_with-state", "zip_with of %s, mask %u: has_value is %d", g_type.c_str(), mask, int(r.has_value()));
        if (r.has_value() && all) {
            if constexpr (std::is_same_v<Ret, int>) MCHECK(*r == 4001, "C11-zip_with-value", "zip_with of %s: result is %d", g_type.c_str(), *r);
            if constexpr (std::is_same_v<Ret, int&>) MCHECK(r.ptr_or_null() == &g_cells[1], "C11-zip_with-value", "zip_with of %s: reference result designates another object", g_type.c_str());
            if constexpr (std::is_same_v<Ret, opt::option<int>>) MCHECK(!r->has_value(), "C11-zip_with-value", "zip_with of %s: returned option changed", g_type.c_str());
            if constexpr (std::is_same_v<Ret, bool>) MCHECK(*r == false, "C11-zip_with-value", "zip_with of %s: returned bool changed", g_type.c_str());
            if constexpr (std::is_same_v<Ret, std::unique_ptr<int>>) MCHECK(*r && **r == 1, "C11-zip_with-value", "zip_with of %s: returned pointer changed", g_type.c_str());
        }
    }
    MCHECK(log.calls == int(all), "C11-zip_with-calls", "zip_with of %s, mask %u: callable ran %d times", g_type.c_str(), mask, log.calls);
    if (log.calls && all) {
        MCHECK(log.own == Own, "C11-zip_with-own", "zip_with of %s: callable passed as %s invoked as %s", g_type.c_str(), catname[Own], catname[log.own]);
        bool ok = true, okc = true, okv = true;
        ((ok = ok && log.addr[K] == at[K + 1], okc = okc && log.cats[K] == cat<Got<T, digit(Code, K)>>(), okv = okv && log.ids[K] == ids[K]), ...);
        MCHECK(ok, "C11-zip_with-args", "zip_with of %s: an argument is not the contained object at its position", g_type.c_str());
        MCHECK(okc, "C11-zip_with-category", "zip_with of %s (forms %d): an argument has another value category", g_type.c_str(), Code);
        MCHECK(okv, "C11-zip_with-value", "zip_with of %s: an argument has another value", g_type.c_str());
    }
    MCHECK((std::get<K>(s).same() && ...), "C11-zip_with-source", "zip_with of %s, mask %u: an operand changed although the callable did not touch it", g_type.c_str(), mask);
    mon::seen(mon::mix(mon::hash_str(g_type.c_str()), mon::mix(mask, Code * 64 + Own * 8 + 1)));
}
template<class T> constexpr bool moves_out = std::is_same_v<T, std::string> || std::is_same_v<T, std::vector<int>> || std::is_same_v<T, std::unique_ptr<int>>;
template<class T> bool moved_out(const T& v) { if constexpr (std::is_same_v<T, std::unique_ptr<int>>) return !v; else if constexpr (moves_out<T>) return v.empty(); else return true; }
template<int Code, class... T, std::size_t... K>
void zip1(unsigned mask, const int (&ids)[6], std::index_sequence<K...>) {
    if constexpr ((makeable<T, digit(Code, K)> && ...)) {
        std::tuple<Slot<T>...> s{std::pair<bool, int>((mask >> K) & 1, ids[K])...};
        const bool all = (std::get<K>(s).has && ...);
        auto r = opt::zip(as<digit(Code, K)>(std::get<K>(s).o)...);
        SAME(decltype(r), opt::option<std::tuple<T...>>);
        MCHECK(r.has_value() == all, "C11-zip-state", "zip of %s, mask %u, forms %d: has_value is %d", g_type.c_str(), mask, Code, int(r.has_value()));
        if (r.has_value() && all) {
            bool ok = true, oka = true;
            ((ok = ok && Ad<Elem<T>>::id(std::get<K>(*r)) == ids[K]), ...);
            ((oka = oka && (!std::is_reference_v<T> || static_cast<const volatile void*>(std::addressof(std::get<K>(*r))) == std::get<K>(s).where())), ...);
            MCHECK(ok, "C11-zip-value", "zip of %s, forms %d: a component differs from the element at its position", g_type.c_str(), Code);
            MCHECK(oka, "C11-zip-reference", "zip of %s: a reference component designates another object", g_type.c_str());
        }
        bool src = true, state = true;
        ((src = src && ((all && digit(Code, K) == 2) || std::get<K>(s).same())), ...);
        ((state = state && std::get<K>(s).o.has_value() == std::get<K>(s).has), ...);
        MCHECK(src, "C11-zip-source", "zip of %s, mask %u, forms %d: an operand passed as lvalue, or not used, changed", g_type.c_str(), mask, Code);
        MCHECK(state, "C11-zip-source", "zip of %s, mask %u, forms %d: an operand lost or gained a value", g_type.c_str(), mask, Code);
        if (all) { bool gone = true; ((gone = gone && (std::is_reference_v<T> || digit(Code, K) != 2 || !moves_out<Elem<T>> || moved_out(*std::get<K>(s).o))), ...); MCHECK(gone, "C11-zip-moved", "zip of %s, forms %d: an operand passed as rvalue was copied instead of moved", g_type.c_str(), Code); }
        mon::seen(mon::mix(mon::hash_str(g_type.c_str()), mon::mix(mask, Code * 64)));
    }
}
template<int Code, class... T> void zipc(mon::Rng& r) {
    constexpr auto seq = std::index_sequence_for<T...>{};
    for (unsigned mask = 0; mask < (1u << sizeof...(T)); ++mask) {
        for (int rep = 0; rep < 2; ++rep) {
            int ids[6] = {}; { int k = 0; ((ids[k++] = int(r.below(static_cast<unsigned>(Ad<Elem<T>>::N)))), ...); }
            mon::context("zip %s forms %d mask %u", g_type.c_str(), Code, mask);
            zip1<Code, T...>(mask, ids, seq);
            zipw<std::conditional_t<Code % 3 == 0, int, std::conditional_t<Code % 3 == 1, int&, opt::option<int>>>, Code % 4, Code, T...>(mask, ids, seq);
            if constexpr (Code % 5 == 0) zipw<void, (Code / 5) % 4, Code, T...>(mask, ids, seq);
            if constexpr (Code % 7 == 0) zipw<std::unique_ptr<int>, (Code / 7) % 4, Code, T...>(mask, ids, seq);
            if constexpr (Code % 11 == 0) zipw<bool, (Code / 11) % 4, Code, T...>(mask, ids, seq);
        }
    }
}
template<int Step, class... T, std::size_t... C> void zips(mon::Rng& r, const char* name, std::index_sequence<C...>) {
    g_type = name;
    for (unsigned long n = 0; n < mon::st().scale; ++n) (zipc<int(C) * Step, T...>(r), ...);
}
#define ZIP1(...) zips<1, __VA_ARGS__>(r, "<" #__VA_ARGS__ ">", std::make_index_sequence<4>{});
#define ZIP2(...) zips<1, __VA_ARGS__>(r, "<" #__VA_ARGS__ ">", std::make_index_sequence<16>{});
#define ZIP3(...) zips<3, __VA_ARGS__>(r, "<" #__VA_ARGS__ ">", std::make_index_sequence<22>{});
#define ZIP4(...) zips<17, __VA_ARGS__>(r, "<" #__VA_ARGS__ ">", std::make_index_sequence<16>{});
#define ZIP5(...) zips<85, __VA_ARGS__>(r, "<" #__VA_ARGS__ ">", std::make_index_sequence<13>{});

// ---- unzip
template<class Tup> struct Parts;
template<class... T> struct Parts<std::tuple<T...>> { using out = std::tuple<opt::option<T>...>; using types = std::tuple<T...>; };
template<class A, class B> struct Parts<std::pair<A, B>> { using out = std::pair<opt::option<A>, opt::option<B>>; };
template<class A, std::size_t N> struct Parts<std::array<A, N>> { using out = std::array<opt::option<A>, N>; };
template<class Tup, class O> struct UnzipSrc;
// Tup made component by component: references refer to objects of the holder
template<class Tup, std::size_t... K> struct Built {
    template<std::size_t I> using CT = std::tuple_element_t<I, Tup>;
    std::tuple<Elem<CT<K>>...> objs; int ids[6];
    explicit Built(const int (&i)[6]) : objs{Ad<Elem<CT<K>>>::make(i[K])...} { for (int k = 0; k < 6; ++k) ids[k] = i[k]; }
    template<std::size_t I> decltype(auto) part() {
        if constexpr (std::is_reference_v<CT<I>>) return static_cast<CT<I>>(std::get<I>(objs)); else return Ad<Elem<CT<I>>>::make(ids[I]);
    }
    Tup make() { return Tup{part<K>()...}; }
};
template<int I, bool CONST, class Tup, std::size_t... K>
void unzip1(bool has, const int (&ids)[6], std::index_sequence<K...>) {
    using O = opt::option<std::conditional_t<CONST, const Tup, Tup>>;
    using From = decltype(as<I>(std::declval<O&>()).get());
    if constexpr ((std::is_constructible_v<std::tuple_element_t<K, Tup>, decltype(std::get<K>(std::declval<From>()))> && ...)) {
        Built<Tup, K...> b(ids);
        O o; if (has) o.emplace(b.make());
        auto r = opt::unzip(as<I>(o));
        SAME(decltype(r), typename Parts<Tup>::out);
        bool st = true, val = true, addr = true;
        ((st = st && std::get<K>(r).has_value() == has), ...);
        MCHECK(st, "C11-unzip-state", "unzip of %s %s option<%s>: a component's has_value differs", has ? "holding" : "empty", catname[I], g_type.c_str());
        if (has && st) {
            ((val = val && Ad<Elem<std::tuple_element_t<K, Tup>>>::id(*std::get<K>(r)) == ids[K]), ...);
            ((addr = addr && (!std::is_reference_v<std::tuple_element_t<K, Tup>> || static_cast<const volatile void*>(std::addressof(*std::get<K>(r))) == std::addressof(std::get<K>(b.objs)))), ...);
            MCHECK(val, "C11-unzip-value", "unzip of %s option<%s>: a component has another value", catname[I], g_type.c_str());
            MCHECK(addr, "C11-unzip-reference", "unzip of option<%s>: a reference component designates another object", g_type.c_str());
        }
        MCHECK(o.has_value() == has, "C11-unzip-source", "unzip of option<%s>: the source lost or gained a value", g_type.c_str());
        if (has && I != 2 && o.has_value()) { bool same = true; ((same = same && Ad<Elem<std::tuple_element_t<K, Tup>>>::id(std::get<K>(*o)) == ids[K]), ...); MCHECK(same, "C11-unzip-source", "unzip of %s option<%s>: the source changed", catname[I], g_type.c_str()); }
        mon::seen(mon::mix(mon::hash_str(g_type.c_str()), 1000 + I * 2 + int(has)));
        // the same through an option of a reference to the tuple
        if constexpr (I == 0 || I == 1) {
            Tup t = b.make(); opt::option<std::conditional_t<I == 0, Tup&, const Tup&>> ro; if (has) ro.emplace(t);
            auto rr = opt::unzip(ro);
            SAME(decltype(rr), typename Parts<Tup>::out);
            bool ok = true; ((ok = ok && std::get<K>(rr).has_value() == has && (!has || Ad<Elem<std::tuple_element_t<K, Tup>>>::id(*std::get<K>(rr)) == ids[K])), ...);
            bool src = true; ((src = src && Ad<Elem<std::tuple_element_t<K, Tup>>>::id(std::get<K>(t)) == ids[K]), ...);
            MCHECK(ok && src, "C11-unzip-ref", "unzip of option<%s&>: wrong components or changed source", g_type.c_str());
        }
    }
}
template<class F, std::size_t... K> void each_index(F f, std::index_sequence<K...>) { f(std::integral_constant<std::size_t, K>{}...); }
template<class Tup> void unzips(mon::Rng& r, const char* name) {
    g_type = name;
    constexpr std::size_t N = std::tuple_size_v<Tup>; constexpr auto seq = std::make_index_sequence<N>{};
    for (unsigned long n = 0; n < 4 * mon::st().scale; ++n) for (int has = 0; has < 2; ++has) {
        int ids[6]; for (int& i : ids) i = int(r.below(2));
        if (n) { auto fill = [&](auto... k) { ((ids[k.value] = int(r.below(static_cast<unsigned>(Ad<Elem<std::tuple_element_t<k.value, Tup>>>::N)))), ...); }; each_index(fill, seq); }
        mon::context("unzip %s", name);
        unzip1<0, false, Tup>(has, ids, seq); unzip1<1, false, Tup>(has, ids, seq); unzip1<2, false, Tup>(has, ids, seq); unzip1<3, false, Tup>(has, ids, seq);
        unzip1<0, true, Tup>(has, ids, seq); unzip1<2, true, Tup>(has, ids, seq);
    }
}
#define UNZIP(...) unzips<__VA_ARGS__>(r, #__VA_ARGS__);

// ---- flatten
template<class T, int D> struct NestT { using type = opt::option<typename NestT<T, D - 1>::type>; };
template<class T> struct NestT<T, 0> { using type = T; };
template<class T, int D> using Nest = typename NestT<T, D>::type;
template<class T, int D, class A> Nest<T, D> build(int levels, A&& a) {   // `levels` engaged levels of D
    if constexpr (D == 1) { Nest<T, 1> o; if (levels > 0) o.emplace(static_cast<A&&>(a)); return o; }
    else { Nest<T, D> o; if (levels > 0) o.emplace(build<T, D - 1>(levels - 1, static_cast<A&&>(a))); return o; }
}
template<int D, class O> auto& innermost(O& o) { if constexpr (D == 0) return o; else return innermost<D - 1>(o.get()); }
template<int D, class O> int engaged(const O& o) { if constexpr (D == 0) return 0; else return o.has_value() ? 1 + engaged<D - 1>(o.get()) : 0; }
template<class T, int I> struct FlatT { using type = std::remove_cv_t<T>; };
template<class T, int D, int I> void flat1(int levels, int id) {
    using E = Elem<T>; using O = Nest<T, D>;
    constexpr bool ref = std::is_reference_v<T>;
    constexpr bool can = ref ? (std::is_lvalue_reference_v<T> || I != 3) : I < 2 || std::is_constructible_v<T, Got<T, I>>;
    if constexpr (can) {
        E obj = Ad<E>::make(id);
        O o = [&] { if constexpr (ref) return build<T, D>(levels, static_cast<T&&>(obj)); else return build<T, D>(levels, Ad<E>::make(id)); }();
        const bool full = levels == D;
        const volatile void* at = nullptr;
        if (full) at = std::addressof(innermost<D>(o));
        auto r = opt::flatten(as<I>(o));
        using R = std::conditional_t<ref, T, std::conditional_t<I == 0, T&, std::conditional_t<I == 1, const T&, T>>>;
        SAME(decltype(r), opt::option<R>);
        MCHECK(r.has_value() == full, "C11-flatten-state", "flatten(%s) of %d/%d engaged levels of %s: has_value is %d", catname[I], levels, D, g_type.c_str(), int(r.has_value()));
        if (full && r.has_value()) {
            if constexpr (std::is_reference_v<R>) MCHECK(static_cast<const volatile void*>(std::addressof(*r)) == at, "C11-flatten-identity", "flatten(%s) depth %d of %s designates another object", catname[I], D, g_type.c_str());
            MCHECK(Ad<E>::id(*r) == id, "C11-flatten-value", "flatten(%s) depth %d of %s: another value", catname[I], D, g_type.c_str());
        }
        if (I != 2 || !full || ref) {
            MCHECK(engaged<D>(o) == levels && (!full || Ad<E>::id(innermost<D>(o)) == id), "C11-flatten-source", "flatten(%s) of %d/%d levels of %s changed its argument", catname[I], levels, D, g_type.c_str());
        } else MCHECK(engaged<D>(o) == levels, "C11-flatten-source", "flatten(%s) of %s: argument has %d engaged levels instead of %d", catname[I], g_type.c_str(), engaged<D>(o), levels);
        mon::seen(mon::mix(mon::hash_str(g_type.c_str()), 2000 + ((D * 8 + levels) * 4 + I) * 64 + id));
    }
}
template<class T, int D> void flatD(mon::Rng& r) {
    for (int levels = 0; levels <= D; ++levels) for (int k = 0; k < 3; ++k) {
        const int id = k < 2 ? k % Ad<Elem<T>>::N : int(r.below(static_cast<unsigned>(Ad<Elem<T>>::N)));
        mon::context("flatten %s depth %d levels %d", g_type.c_str(), D, levels);
        flat1<T, D, 0>(levels, id); flat1<T, D, 1>(levels, id); flat1<T, D, 2>(levels, id); flat1<T, D, 3>(levels, id);
    }
}
template<class T> void flats(mon::Rng& r, const char* name) {
    g_type = name;
    for (unsigned long n = 0; n < mon::st().scale; ++n) { flatD<T, 1>(r); flatD<T, 2>(r); flatD<T, 3>(r); flatD<T, 4>(r); flatD<T, 5>(r); }
}
#define FLAT(...) flats<__VA_ARGS__>(r, #__VA_ARGS__);

// ---- option_cast
template<class To, class From, class Eq> void cast1(const char* name, const From& v, Eq eq) {
    mon::context("option_cast %s", name);
    using O = opt::option<From>;
    for (int has = 0; has < 2; ++has) {
        O o; if (has) o.emplace(v);
        const O c = o;
        auto a = opt::option_cast<To>(o); auto b = opt::option_cast<To>(c);
        SAME(decltype(a), opt::option<To>); SAME(decltype(b), opt::option<To>);
        auto src = o.has_value() == bool(has) && (!has || *o == v) && c.has_value() == bool(has) && (!has || *c == v);
        MCHECK(src, "C11-cast-source", "option_cast %s of an lvalue changed it", name);
        auto d = opt::option_cast<To>(std::move(o)); SAME(decltype(d), opt::option<To>);
        auto e = opt::option_cast<To>(static_cast<const O&&>(c)); SAME(decltype(e), opt::option<To>);
        for (auto* x : {&a, &b, &d, &e}) {
            MCHECK(x->has_value() == bool(has), "C11-cast-state", "option_cast %s of a %s option: has_value is %d", name, has ? "holding" : "empty", int(x->has_value()));
            if (has && x->has_value()) MCHECK(eq(**x), "C11-cast-value", "option_cast %s: another value", name);
        }
        mon::seen(std::string("cast ") + name + char('0' + has));
    }
}
struct B0 { int b = 1; virtual ~B0() = default; }; struct B1 { int c = 2; virtual ~B1() = default; }; struct DD : B0, B1 { int d = 3; };
struct Expl { int v; explicit Expl(int x) : v(x) {} explicit Expl(const std::string& s) : v(int(s.size())) {} explicit Expl(std::string&& s) : v(int(s.size()) + 1000) { s = "taken"; } };
struct OpInt { int v; operator int() const { return v; } explicit operator std::string() const { return std::string(static_cast<std::size_t>(v), 'o'); } bool operator==(const OpInt& o) const { return v == o.v; } };

// ---- conversions
template<class T, class U, class Src, class Exp> void conv_forms(const char* name, Src mk, Exp expect) {
    // mk(): a fresh option<U>; expect(const option<T>&) judges the result
    auto judge = [&](const opt::option<T>& t, const char* form) { MCHECK(expect(t), std::string("C11-conv/") + name, "%s: %s gives another result", name, form); };
    mon::context("conversion %s", name);
    using O = opt::option<U>; using R = opt::option<T>;
    constexpr bool cp = std::is_copy_constructible_v<O>;
    { R t(mk()); judge(t, "construction from an rvalue"); }
    { O u = mk(); R t(std::move(u)); judge(t, "construction from a moved lvalue"); }
    if constexpr (std::is_convertible_v<O&&, R>) { R t = mk(); judge(t, "implicit conversion from an rvalue"); }
    if constexpr (cp) {
        { O u = mk(); const bool h = u.has_value(); R t(u); judge(t, "construction from an lvalue"); MCHECK(u.has_value() == h && (!h || *u == *mk()), "C11-conv-source", "%s: construction from an lvalue changed it", name); }
        { const O u = mk(); R t(u); judge(t, "construction from a const lvalue"); }
        { const O u = mk(); R t(static_cast<const O&&>(u)); judge(t, "construction from a const rvalue"); }
        { O u = mk(); R t{u}; judge(t, "list construction from an lvalue"); }
        if constexpr (std::is_convertible_v<const O&, R>) { const O u = mk(); R t = u; judge(t, "implicit conversion from a const lvalue"); R s[2] = {u, u}; judge(s[1], "implicit conversion in an array"); }
    }
}
template<class T, class U, class Src, class Other, class Exp> void conv_assign(const char* name, Src mk, Other other, Exp expect) {
    auto judge = [&](const opt::option<T>& t, const char* form) { MCHECK(expect(t), std::string("C11-conv/") + name, "%s: %s gives another result", name, form); };
    using O = opt::option<U>; using R = opt::option<T>;
    for (int into = 0; into < 2; ++into) {
        auto dst = [&] { R t; if (into) other(t); return t; };
        { R t = dst(); auto& q = (t = mk()); judge(t, into ? "assignment from an rvalue to a holding option" : "assignment from an rvalue to an empty option"); MCHECK(&q == &t, "C11-conv-return", "%s: assignment returns another object", name); }
        if constexpr (std::is_copy_constructible_v<O>) {
            { R t = dst(); O u = mk(); const bool h = u.has_value(); t = u; judge(t, "assignment from an lvalue"); MCHECK(u.has_value() == h && (!h || *u == *mk()), "C11-conv-source", "%s: assignment from an lvalue changed it", name); }
            { R t = dst(); const O u = mk(); t = u; judge(t, "assignment from a const lvalue"); }
            { R t = dst(); const O u = mk(); t = static_cast<const O&&>(u); judge(t, "assignment from a const rvalue"); }
        }
    }
}
#define TN(...) __VA_ARGS__
// T from U: value u, image t, and another value for the destination; holding and empty
template<class T, class U, bool ASSIGN = true, class MU, class MT, class MO> void conv(const char* name, MU u, MT t, MO o) {
    for (int has = 0; has < 2; ++has) {
        auto mk = [&] { opt::option<U> r; if (has) r.emplace(u()); return r; };
        auto ex = [&](const opt::option<T>& r) { return r.has_value() == bool(has) && (!has || t(*r)); };
        conv_forms<T, U>(name, mk, ex);
        if constexpr (ASSIGN) conv_assign<T, U>(name, mk, [&](opt::option<T>& d) { d.emplace(o()); }, ex);
        mon::seen(std::string("conv ") + name + char('0' + has));
    }
}
#define CONV(T, U, u, t, o) conv<T, U>(#T " <- " #U, [&]() -> U { return u; }, [&](const std::remove_const_t<T>& x) { return t; }, [&]() -> T { return o; });
#define CONVC(T, U, u, t, o) conv<T, U, false>(#T " <- " #U, [&]() -> U { return u; }, [&](const std::remove_const_t<T>& x) { return t; }, [&]() -> T { return o; });

// ---- laws over random values
template<class A, class B, class C> void laws(mon::Rng& r, const char* name) {
    g_type = name;
    for (unsigned long n = 0; n < 200 * mon::st().scale; ++n) {
        const int ia = int(r.below(Ad<A>::N)), ib = int(r.below(Ad<B>::N)), ic = int(r.below(Ad<C>::N)); const unsigned m = unsigned(r.below(8));
        Slot<A> a(m & 1, ia); Slot<B> b((m >> 1) & 1, ib); Slot<C> c((m >> 2) & 1, ic);
        mon::context("laws %s mask %u ids %d %d %d", name, m, ia, ib, ic);
        auto z = opt::zip(a.o, b.o, c.o);
        auto u = opt::unzip(z);
        MCHECK(std::get<0>(u).has_value() == (m == 7) && std::get<1>(u).has_value() == (m == 7) && std::get<2>(u).has_value() == (m == 7), "C11-law-unzip-zip", "unzip(zip) of %s, mask %u: states differ", name, m);
        if (m == 7 && std::get<0>(u).has_value()) MCHECK(Ad<A>::id(*std::get<0>(u)) == ia && Ad<B>::id(*std::get<1>(u)) == ib && Ad<C>::id(*std::get<2>(u)) == ic, "C11-law-unzip-zip", "unzip(zip) of %s: values differ", name);
        // zip(unzip(x)) == x
        opt::option<std::pair<A, C>> pc; if (m & 1) pc.emplace(Ad<A>::make(ia), Ad<C>::make(ic));
        auto [pa, pb] = opt::unzip(pc); auto zz = opt::zip(pa, pb);
        MCHECK(zz.has_value() == pc.has_value() && (!zz.has_value() || (Ad<A>::id(std::get<0>(*zz)) == ia && Ad<C>::id(std::get<1>(*zz)) == ic)), "C11-law-zip-unzip", "zip(unzip) of pair of %s differs", name);
        // nested zip
        auto n1 = opt::zip(opt::zip(a.o, b.o), c.o);
        MCHECK(n1.has_value() == z.has_value() && (!n1.has_value() || (Ad<A>::id(std::get<0>(std::get<0>(*n1))) == ia && Ad<C>::id(std::get<1>(*n1)) == ic)), "C11-law-zip-assoc", "zip(zip(a, b), c) of %s, mask %u", name, m);
        // zip_with(make tuple) == zip
        auto w = opt::zip_with([](const A& x, const B& y, const C& q) { return std::tuple<A, B, C>(x, y, q); }, a.o, b.o, c.o);
        MCHECK(w.has_value() == z.has_value() && (!w.has_value() || (Ad<A>::id(std::get<0>(*w)) == ia && Ad<B>::id(std::get<1>(*w)) == ib && Ad<C>::id(std::get<2>(*w)) == ic)), "C11-law-zip_with", "zip_with(tuple) differs from zip of %s, mask %u", name, m);
        // zip_with returning options, flattened == chain of and_then
        if constexpr (!opt::is_option_v<C>) {
        auto f1 = opt::flatten(opt::zip_with([&](const A&, const B&) { return c.o; }, a.o, b.o));
        auto f2 = a.o.and_then([&](const A&) { return b.o.and_then([&](const B&) { return c.o; }); });
        MCHECK(f1.has_value() == f2.has_value() && f1.has_value() == (m == 7) && (!f1.has_value() || (Ad<C>::id(*f1) == ic && Ad<C>::id(*f2) == ic)), "C11-law-flatten", "flatten(zip_with) differs from and_then chain of %s, mask %u", name, m);
        }
        // wrapping and flattening
        if constexpr (!opt::is_option_v<A> && !opt::is_option_v<B>) {
        auto w1 = opt::flatten(opt::make_option(a.o)); auto w2 = opt::flatten(opt::make_option(opt::make_option(b.o)));
        MCHECK(w1.has_value() == a.has && (!a.has || Ad<A>::id(*w1) == ia), "C11-law-wrap", "flatten(make_option(a)) differs from a of %s, mask %u", name, m);
        MCHECK(w2.has_value() == b.has && (!b.has || Ad<B>::id(*w2) == ib), "C11-law-wrap", "flatten(make_option(make_option(b))) differs from b of %s, mask %u", name, m);
        }
        // pointer round trip
        if constexpr (!opt::is_option_v<A> && !opt::is_option_v<B>) {
        auto p = opt::from_nullable(a.o.ptr_or_null()); auto pcn = opt::from_nullable(std::as_const(b.o).ptr_or_null());
        MCHECK(p.ptr_or_null() == a.o.ptr_or_null() && p.has_value() == a.has, "C11-law-nullable", "from_nullable(ptr_or_null) of %s", name);
        MCHECK(pcn.ptr_or_null() == std::as_const(b.o).ptr_or_null() && pcn.has_value() == b.has, "C11-law-nullable", "from_nullable(ptr_or_null) of const %s", name);
        SAME(decltype(p), opt::option<A&>); SAME(decltype(pcn), opt::option<const B&>); }
        MCHECK(a.same() && b.same() && c.same(), "C11-law-source", "operands of %s changed, mask %u", name, m);
        mon::seen(mon::mix(mon::hash_str(name), mon::mix(m, mon::mix(ia, mon::mix(ib, ic)))));
    }
}
#define LAWS(...) laws<__VA_ARGS__>(r, "<" #__VA_ARGS__ ">");

struct my_type { int x; };
struct Many { int a; std::string b; double c; std::vector<int> v; Many(int x, std::string y, double z) : a(x), b(std::move(y)), c(z) {} Many(std::initializer_list<int> il, std::string y) : a(int(il.size())), b(std::move(y)), c(0), v(il) {} };
int plain_fn(int x) { return x + 1; }
} // namespace
template<> struct opt::option_traits<my_type> {
    static constexpr std::uintmax_t max_level = 3;
    static constexpr std::uintmax_t get_level(const my_type* const v) noexcept { return v->x >= 100 && v->x < 103 ? std::uintmax_t(v->x - 100) : std::uintmax_t(-1); }
    static constexpr void set_level(my_type* const v, std::uintmax_t l) noexcept { v->x = 100 + int(l); }
};
enum class EE : unsigned char { a, b, c, SENTINEL };

// zip_with of callables that are not function objects: functions and pointers to members, the first operand being any kind of object they accept
#if GROUP == 6
struct ZB { int x; std::string s = "b"; explicit ZB(int v) : x(v) {} virtual ~ZB() = default;
    int add(int a, int b) const { return x + a * 10 + b * 100; } int noex(int a) const noexcept { return x + a; } int lref(int a) & { return x * 10 + a; } int rref(int a) && { return x * 20 + a; } int clref(int a) const& { return x * 30 + a; } int crref(int a) const&& { return x * 40 + a; }
    virtual int virt(int a) const { return x + a; } void set(int& d) { d = ++x; } std::string take(std::string t, std::unique_ptr<int> p) { return s + t + std::to_string(*p); } int& ref(int) { return x; } bool both(const std::string& a, const ZB& b) const { return &b == this && a == s; }
    int vol(int a) volatile { return x + a; } int cnoex(int a) const& noexcept { return x + 2 * a; } int rnoex(int a) && noexcept { return x + 3 * a; } int five(int a, int b, int c, int d, int e) { return x + a + 2 * b + 3 * c + 4 * d + 5 * e; } };
struct ZP { long pad = 3; virtual ~ZP() = default; };
struct ZD : ZP, ZB { explicit ZD(int v) : ZB(v) {} int virt(int a) const override { return x * 7 + a; } };
int zfree(const ZB& b, int a) { return b.x * 10 + a; }
int znoex(int a, int b) noexcept { return a - b; }
#define ZW(want, ...) do { mon::context("C11 zip_with " #__VA_ARGS__); auto z_ = opt::zip_with(__VA_ARGS__); using R_ = decltype(z_); MCHECK(z_ == (R_(want)), "C11-zip_with-member", "%s", "zip_with(" #__VA_ARGS__ ") gave another result"); mon::seen(std::string(#__VA_ARGS__)); mon::count("zip_with of member pointers"); } while (0)
template<class B> void zmembers(int virtk) {
    opt::option<B> o(B(4)), e; const auto& c = o; B obj(4); opt::option<B&> r(obj), re; opt::option<const B&> rc(obj); opt::option<B*> p(&obj); opt::option<const B*> pc(&obj); opt::option<std::unique_ptr<B>> u(std::make_unique<B>(4)); opt::option<std::shared_ptr<B>> sp(std::make_shared<B>(4));
    opt::option<std::reference_wrapper<B>> w(std::ref(obj)); opt::option<std::reference_wrapper<const B>> wc(std::cref(obj)); opt::option<int> i(3), j(2), n; const auto& ci = i;
    ZW(234, &ZB::add, o, i, j); ZW(opt::none, &ZB::add, e, i, j); ZW(opt::none, &ZB::add, o, n, j); ZW(opt::none, &ZB::add, o, i, n); ZW(234, &ZB::add, c, ci, j); ZW(234, &ZB::add, r, i, j); ZW(234, &ZB::add, rc, i, j); ZW(234, &ZB::add, p, i, j); ZW(234, &ZB::add, pc, i, j); ZW(234, &ZB::add, u, i, j); ZW(234, &ZB::add, sp, i, j); ZW(234, &ZB::add, w, i, j); ZW(234, &ZB::add, wc, i, j); ZW(234, &ZB::add, std::move(o), std::move(i), j); ZW(opt::none, &ZB::add, re, i, j);
    ZW(7, &ZB::noex, o, i); ZW(7, &ZB::noex, p, i); ZW(7, &ZB::noex, w, i); ZW(10, &ZB::cnoex, o, i); ZW(13, &ZB::rnoex, std::move(o), i);
    ZW(43, &ZB::lref, o, i); ZW(83, &ZB::rref, std::move(o), i); ZW(123, &ZB::clref, c, i); ZW(123, &ZB::clref, o, i); ZW(163, &ZB::crref, std::move(c), i); ZW(163, &ZB::crref, std::move(o), i); ZW(43, &ZB::lref, std::move(p), i); ZW(43, &ZB::lref, std::move(w), i); ZW(43, &ZB::lref, u, i); ZW(43, &ZB::lref, r, std::move(i)); ZW(7, &ZB::vol, o, i);
    ZW(virtk + 3, &ZB::virt, o, i); ZW(virtk + 3, &ZB::virt, p, i); ZW(virtk + 3, &ZB::virt, u, i); ZW(virtk + 3, &ZB::virt, w, i); ZW(virtk + 3, &ZB::virt, r, i); ZW(4 + 3 + 4 + 9 + 8 + 15, &ZB::five, o, i, j, i, j, i); ZW(opt::none, &ZB::five, o, i, j, i, j, n); ZW(4 + 3 + 4 + 9 + 8 + 15, &ZB::five, w, i, j, i, j, i);
    { auto z = opt::zip_with(&ZB::ref, o, i); SAME(decltype(z), opt::option<int&>); MCHECK(z.ptr_or_null() == &o->x, "C11-zip_with-member", "zip_with of a member function returning a reference"); auto y = opt::zip_with(&ZB::ref, p, n); MCHECK(!y.has_value(), "C11-zip_with-member", "zip_with of a member function returning a reference, empty"); }
    { const int was = obj.x; opt::zip_with(&ZB::set, o, i); MCHECK(o->x == 5 && *i == 5, "C11-zip_with-member", "zip_with(&set, o, i)"); opt::zip_with(&ZB::set, w, i); opt::zip_with(&ZB::set, p, j); opt::zip_with(&ZB::set, r, j); opt::zip_with(&ZB::set, e, j); opt::zip_with(&ZB::set, o, n); MCHECK(obj.x == was + 3 && *i == was + 1 && *j == was + 3 && o->x == 5, "C11-zip_with-member", "zip_with(&set, ...) through pointers"); }
    { opt::option<std::string> t("tt"); opt::option<std::unique_ptr<int>> q(std::make_unique<int>(8)); auto z = opt::zip_with(&ZB::take, o, t, std::move(q)); MCHECK(z == opt::option<std::string>("btt8") && *t == "tt" && q.has_value() && !*q, "C11-zip_with-member", "zip_with moving an argument into a member function"); }
    { opt::option<std::string> t("b"); opt::option<const ZB&> same(*o); auto z = opt::zip_with(&ZB::both, o, t, same); MCHECK(z == opt::option<bool>(true), "C11-zip_with-member", "zip_with passed another object"); }
    { auto z = opt::zip_with(&ZB::s, o); SAME(decltype(z), opt::option<std::string&>); auto y = opt::zip_with(&ZB::s, w); auto x = opt::zip_with(&ZB::x, pc); SAME(decltype(x), opt::option<const int&>); auto v = opt::zip_with(&ZB::s, e); MCHECK(z.ptr_or_null() == &o->s && y.ptr_or_null() == &obj.s && x.ptr_or_null() == &obj.x && !v, "C11-zip_with-member", "zip_with of a data member"); }
    i = 3; j = 2; o = B(4); obj.x = 4;
    ZW(43, zfree, o, i); ZW(43, &zfree, r, i); ZW(opt::none, zfree, e, i); ZW(1, znoex, i, j); ZW(-1, &znoex, j, i); std::function<int(const ZB&, int)> sf = zfree; ZW(43, sf, o, i); ZW(43, std::cref(sf), o, i); ZW(43, std::move(sf), o, i); ZW(7, std::mem_fn(&ZB::noex), p, i); ZW(43, std::bind(&zfree, std::placeholders::_2, std::placeholders::_1), i, o);
}
// wide calls: many operands, one of them empty
template<std::size_t N, std::size_t... K> void zwide(std::index_sequence<K...>) {
    opt::option<int> v[N]; for (std::size_t k = 0; k < N; ++k) v[k] = int(k * 7 + 1);
    for (std::size_t hole = 0; hole <= N; ++hole) { if (hole < N) v[hole].reset();
        int calls = 0; auto w = opt::zip_with([&](auto&... a) { ++calls; std::vector<int> r; (r.push_back(a), ...); MCHECK(((&a == &*v[K]) && ...), "C11-zip_with-args", "wide zip_with passed other objects"); return r; }, v[K]...); auto z = opt::zip(v[K]...);
        MCHECK(w.has_value() == (hole == N) && z.has_value() == (hole == N) && calls == int(hole == N), "C11-zip-state", "zip of %zu operands, the one at %zu empty", N, hole);
        if (hole == N) { MCHECK(w->size() == N && ((std::get<K>(*z) == int(K * 7 + 1) && (*w)[K] == int(K * 7 + 1)) && ...), "C11-zip-value", "zip of %zu operands: a value moved", N); auto u = opt::unzip(z); MCHECK(((std::get<K>(u) == opt::option<int>(int(K * 7 + 1))) && ...), "C11-unzip-value", "unzip of %zu components", N); }
        else v[hole] = int(hole * 7 + 1);
        auto eu = opt::unzip(opt::option<std::tuple<decltype(int(K))...>>()); MCHECK((!std::get<K>(eu).has_value() && ...), "C11-unzip-state", "unzip of an empty wide tuple");
        mon::seen("zwide " + std::to_string(N) + " " + std::to_string(hole)); }
}
#endif

int main(int argc, char** argv) {
    mon::init(argc, argv);
    mon::Rng r(mon::st().seed); (void)r;
#if GROUP == 0
    { auto z = opt::zip(); SAME(decltype(z), opt::option<std::tuple<>>); MCHECK(z.has_value(), "C11-zip-state", "zip() is empty"); int n = 0; opt::zip_with([&] { ++n; }); auto v = opt::zip_with([&] { return ++n; }); MCHECK(n == 2 && v.has_value() && *v == 2, "C11-zip_with-calls", "zip_with of a nullary callable"); }
    ZIP1(int) ZIP1(std::string) ZIP1(bool) ZIP1(std::unique_ptr<int>) ZIP1(int&) ZIP1(const std::string&) ZIP1(opt::option<int>) ZIP1(std::tuple<int, short>) ZIP1(Empty) ZIP1(double)
    ZIP2(int, std::string) ZIP2(std::string&, double) ZIP2(bool, bool) ZIP2(std::unique_ptr<int>, std::string) ZIP2(opt::option<opt::option<std::string>>, int&) ZIP2(float, std::vector<int>) ZIP2(std::unique_ptr<int>, int&) ZIP2(const std::string&, std::unique_ptr<int>)
#elif GROUP == 1
    ZIP3(int, std::string, float) ZIP3(std::string, std::string, std::string) ZIP3(bool, int&, opt::option<int>) ZIP3(std::unique_ptr<int>, std::unique_ptr<int>, std::string) ZIP3(int&, std::string, const double&)
    ZIP4(int, int, int, int) ZIP4(std::string, bool, double&, EPlain) ZIP5(int, std::string, bool, opt::option<int>, float) ZIP5(std::string, std::string, std::string, std::string, std::string)
#elif GROUP == 2
    UNZIP(std::pair<int, std::string>) UNZIP(std::pair<bool, bool>) UNZIP(std::pair<std::string, std::unique_ptr<int>>) UNZIP(std::pair<int&, float>) UNZIP(std::pair<opt::option<int>, std::string>)
    UNZIP(std::tuple<>) UNZIP(std::tuple<int>) UNZIP(std::tuple<std::string>) UNZIP(std::tuple<int, double, std::string>) UNZIP(std::tuple<std::unique_ptr<int>, std::string, bool, int>) UNZIP(std::tuple<int&, const std::string&>)
    UNZIP(std::tuple<std::string, std::string, std::string, std::string, std::string>) UNZIP(std::tuple<std::tuple<int, short>, opt::option<opt::option<std::string>>>) UNZIP(std::tuple<std::tuple<int, short>>)
    UNZIP(std::array<int, 1>) UNZIP(std::array<std::string, 4>) UNZIP(std::array<bool, 5>) UNZIP(std::array<std::unique_ptr<int>, 2>) UNZIP(std::array<opt::option<int>, 3>) UNZIP(std::array<float, 3>)
#elif GROUP == 3
    FLAT(int) FLAT(bool) FLAT(std::string) FLAT(double) FLAT(int*) FLAT(std::unique_ptr<int>) FLAT(std::vector<int>) FLAT(Empty) FLAT(EPlain) FLAT(const int) FLAT(const std::string) FLAT(std::pair<int, std::string>)
    FLAT(int&) FLAT(const int&) FLAT(std::string&) FLAT(int&&) FLAT(Agg) FLAT(std::variant<int, std::string>) FLAT(Poly)
#elif GROUP == 4
    const std::string big(40, 'x');
    for (int v : {0, 1, -1, 77, std::numeric_limits<int>::max(), std::numeric_limits<int>::min()}) {
        cast1<long, int>("int->long", v, [&](long x) { return x == v; }); cast1<char, int>("int->char", v, [&](char x) { return x == char(v); }); cast1<bool, int>("int->bool", v, [&](bool x) { return x == (v != 0); });
        cast1<double, int>("int->double", v, [&](double x) { return x == v; }); cast1<EE, int>("int->enum", v & 1, [&](EE x) { return x == EE(v & 1); }); cast1<Expl, int>("int->explicit", v, [&](const Expl& x) { return x.v == v; });
        cast1<int, OpInt>("class->int", OpInt{v}, [&](int x) { return x == v; }); cast1<opt::option<int>, int>("int->option<int>", v, [&](const opt::option<int>& x) { return x.has_value() && *x == v; });
        cast1<std::variant<int, std::string>, int>("int->variant", v, [&](const auto& x) { return std::get<0>(x) == v; }); cast1<int, int>("int->int", v, [&](int x) { return x == v; });
        cast1<std::tuple<int>, int>("int->tuple", v, [&](const auto& x) { return std::get<0>(x) == v; }); cast1<const int, int>("int->const int", v, [&](int x) { return x == v; });
        cast1<bool, opt::option<int>>("option<int>->bool", opt::option<int>(v), [&](bool x) { return x; }); cast1<bool, opt::option<int>>("none->bool", opt::option<int>(), [&](bool x) { return !x; });
        cast1<opt::option<long>, opt::option<int>>("option<int>->option<long>", opt::option<int>(v), [&](const opt::option<long>& x) { return x.has_value() && *x == v; });
    }
    for (double v : {0.0, -0.0, 2.5, -7.9, 1e9}) { cast1<int, double>("double->int", v, [&](int x) { return x == int(v); }); cast1<float, double>("double->float", v, [&](float x) { return x == float(v); }); cast1<bool, double>("double->bool", v, [&](bool x) { return x == bool(v); }); }
    cast1<std::string, const char*>("char*->string", "hello", [](const std::string& x) { return x == "hello"; }); cast1<std::string, std::string_view>("sv->string", "hello", [](const std::string& x) { return x == "hello"; });
    cast1<std::string_view, std::string>("string->sv", big, [](std::string_view) { return true; });
    cast1<std::uintptr_t, const char*>("char*->uintptr", big.c_str(), [&](std::uintptr_t x) { return x == reinterpret_cast<std::uintptr_t>(big.c_str()); });
    { DD d; B1* pb = &d; cast1<B1*, DD*>("D*->B*", &d, [&](B1* x) { return x == pb; }); cast1<DD*, B1*>("B*->D*", pb, [&](DD* x) { return x == &d; }); cast1<const void*, DD*>("D*->void*", &d, [&](const void* x) { return x == &d; }); cast1<bool, DD*>("D*->bool", &d, [](bool x) { return x; });
      opt::option<DD&> od(d), on; auto b1 = opt::option_cast<B1&>(od); auto cb1 = opt::option_cast<const B1&>(std::as_const(od)); auto back = opt::option_cast<DD&>(b1); auto n1 = opt::option_cast<B1&>(on);
      SAME(decltype(b1), opt::option<B1&>); MCHECK(b1.ptr_or_null() == pb && cb1.ptr_or_null() == pb && back.ptr_or_null() == &d && !n1.has_value(), "C11-cast-reference", "option_cast between references to base and derived");
      auto val = opt::option_cast<DD>(back); MCHECK(val.has_value() && val->d == 3 && val.ptr_or_null() != &d, "C11-cast-reference", "option_cast from a reference to a value"); }
    // the rvalue form casts a moved value, the lvalue form does not touch it
    { opt::option<std::string> s(big); auto l = opt::option_cast<Expl>(s); MCHECK(l.has_value() && l->v == 40 && *s == big, "C11-cast-forward", "option_cast of an lvalue used the moving constructor"); auto m = opt::option_cast<Expl>(std::move(s)); MCHECK(m.has_value() && m->v == 1040 && s.has_value(), "C11-cast-forward", "option_cast of an rvalue did not move"); }
    { opt::option<std::unique_ptr<int>> u(std::make_unique<int>(5)); auto s = opt::option_cast<std::shared_ptr<int>>(std::move(u)); MCHECK(s.has_value() && *s && **s == 5, "C11-cast-value", "option_cast unique_ptr -> shared_ptr"); }
    // from_nullable
    { int x = 3; const int y = 4; int* np = nullptr; const int* cnp = nullptr; volatile int vx = 3; std::string s = "s"; auto a = opt::from_nullable(&x); auto b = opt::from_nullable(&y); auto c = opt::from_nullable(np); auto d = opt::from_nullable(cnp); auto e = opt::from_nullable(&vx); auto f = opt::from_nullable(&s);
      SAME(decltype(a), opt::option<int&>); SAME(decltype(b), opt::option<const int&>); SAME(decltype(e), opt::option<volatile int&>);
      MCHECK(a.ptr_or_null() == &x && b.ptr_or_null() == &y && !c.has_value() && !d.has_value() && e.ptr_or_null() == &vx && f.ptr_or_null() == &s, "C11-from_nullable", "from_nullable: wrong state or object"); *a = 9; MCHECK(x == 9, "C11-from_nullable", "from_nullable refers to a copy");
      struct AO { int v; AO* operator&() { return nullptr; } } ao{1}; auto g = opt::from_nullable(std::addressof(ao)); MCHECK(g.has_value() && std::addressof(*g) == std::addressof(ao), "C11-from_nullable", "from_nullable of a type with own operator&");
      mon::seen(std::string("from_nullable")); }
    // as_option: every value of some small domains; empty exactly for the value reserved for this option
    for (int v = -200; v <= 300; ++v) { my_type m{v}; auto o = opt::as_option(m); MCHECK(o.has_value() == (v != 100) || (v > 100 && v < 103), "C11-as_option", "as_option(%d): has_value is %d", v, int(o.has_value())); if (o.has_value() && !(v > 100 && v < 103)) MCHECK(o->x == v, "C11-as_option", "as_option(%d) holds %d", v, o->x); mon::seen("as_option " + std::to_string(v)); }
    for (float v : {0.f, -0.f, 1.f, std::numeric_limits<float>::infinity(), std::numeric_limits<float>::quiet_NaN(), std::numeric_limits<float>::denorm_min()}) { auto o = opt::as_option(v); MCHECK(o.has_value() && std::memcmp(&*o, &v, 4) == 0, "C11-as_option", "as_option(float %a)", double(v)); }
#if !defined(OPTION_USE_BUILTIN_TRAITS) || OPTION_USE_BUILTIN_TRAITS
    for (int v = 0; v < 3; ++v) { auto o = opt::as_option(EE(v)); MCHECK(o.has_value() && *o == EE(v), "C11-as_option", "as_option(enumerator %d)", v); }
    { int x; for (int* p : {(int*)nullptr, &x, g_cells}) { auto o = opt::as_option(p); MCHECK(o.has_value() && *o == p, "C11-as_option", "as_option(pointer)"); } for (bool b : {false, true}) { auto o = opt::as_option(b); MCHECK(o.has_value() && *o == b, "C11-as_option", "as_option(bool)"); } }
    { opt::option<float> f(2.f), fn; auto o = opt::as_option(f); auto on = opt::as_option(fn); SAME(decltype(o), opt::option<opt::option<float>>); MCHECK(o.has_value() && o->has_value() && **o == 2.f && on.has_value() && !on->has_value(), "C11-as_option", "as_option(option<float>)"); }
#endif
    { SentV sv = Ad<SentV>::make(3); auto o = opt::as_option(sv); MCHECK(o.has_value() && Ad<SentV>::id(*o) == 3, "C11-as_option", "as_option of a sentinel type"); opt::option<SentV> none; auto e = opt::as_option(none.get_unchecked()); MCHECK(!e.has_value(), "C11-as_option", "as_option of the reserved value holds a value"); }
    // make_option
    { int x = 5; const int cx = 6; int arr[3] = {1, 2, 3}; auto a = opt::make_option(x); auto b = opt::make_option(cx); auto c = opt::make_option("text"); auto d = opt::make_option(arr); auto e = opt::make_option(plain_fn); std::string s = big; auto f = opt::make_option(s); auto g = opt::make_option(std::move(s));
      SAME(decltype(a), opt::option<int>); SAME(decltype(b), opt::option<int>); SAME(decltype(c), opt::option<const char*>); SAME(decltype(d), opt::option<int*>); SAME(decltype(e), opt::option<int(*)(int)>); SAME(decltype(f), opt::option<std::string>); SAME(decltype(g), opt::option<std::string>);
      MCHECK(a.has_value() && *a == 5 && b.has_value() && *b == 6 && c.has_value() && std::string_view(*c) == "text" && d.has_value() && *d == arr && e.has_value() && (*e)(2) == 3 && f.has_value() && *f == big && g.has_value() && *g == big && s != big, "C11-make_option", "make_option(value): wrong result");
      auto h = opt::make_option<Many>(3, "abc", 2.5); auto i = opt::make_option<Many>({4, 5, 6}, "z"); auto j = opt::make_option<std::vector<int>>({7, 8}); auto k = opt::make_option<std::string>(std::size_t(3), 'c'); auto l = opt::make_option<int>(); auto m = opt::make_option<std::string>(); auto n = opt::make_option<std::unique_ptr<int>>(new int(4)); auto o = opt::make_option<opt::option<int>>(); auto p = opt::make_option<Agg>(1, 2.0); auto q = opt::make_option<int&>(x);
      MCHECK(h.has_value() && h->a == 3 && h->b == "abc" && h->c == 2.5 && i.has_value() && i->a == 3 && i->b == "z" && i->v == (std::vector<int>{4, 5, 6}) && j.has_value() && *j == (std::vector<int>{7, 8}) && k.has_value() && *k == "ccc" && l.has_value() && *l == 0 && m.has_value() && m->empty() && n.has_value() && **n == 4 && o.has_value() && !o->has_value() && p.has_value() && p->a == 1 && p->b == 2.0 && q.ptr_or_null() == &x, "C11-make_option", "make_option<T>(args...): wrong result");
      opt::option<int> none; auto w = opt::make_option(none); auto v = opt::make_option(opt::option<int>(3)); SAME(decltype(w), opt::option<opt::option<int>>); MCHECK(w.has_value() && !w->has_value() && v.has_value() && v->has_value() && **v == 3, "C11-make_option", "make_option(option)");
      auto vb = opt::make_option(false); MCHECK(vb.has_value() && !*vb, "C11-make_option", "make_option(false)"); auto pn = opt::make_option(static_cast<int*>(nullptr)); MCHECK(pn.has_value() && !*pn, "C11-make_option", "make_option(null pointer)"); auto nn = opt::make_option(nullptr); MCHECK(nn.has_value(), "C11-make_option", "make_option(nullptr)");
      mon::seen(std::string("make_option")); }
    // deduction guides
    { opt::option a{1}; opt::option b{2.f}; auto c = opt::option{opt::option{3.}}; opt::option d{std::string("q")}; opt::option e{"lit"}; SAME(decltype(a), opt::option<int>); SAME(decltype(b), opt::option<float>); SAME(decltype(c), opt::option<double>); SAME(decltype(d), opt::option<std::string>); SAME(decltype(e), opt::option<const char*>); MCHECK(*a == 1 && *b == 2.f && *c == 3. && *d == "q", "C11-deduction", "deduction guides"); }
#elif GROUP == 5
    const std::string big(40, 'y'); DD dd; struct Other { int z; } ; int xs[3] = {};
    for (int v : {0, 1, -1, 77, std::numeric_limits<int>::max(), std::numeric_limits<int>::min()}) {
        CONV(long, int, v, x == v, 12) CONV(double, int, v, x == v, 12) CONV(double, float, float(v), x == double(float(v)), 12) CONV(long double, double, double(v), x == v, 3)
        CONVC(const int, int, v, x == v, 5) CONV(int, const int, v, x == v, 5) CONVC(const long, int, v, x == v, 5)
        CONV(bool, int, v, x == (v != 0), true) CONV(bool, int, v, x == (v != 0), false)
        CONVC(Expl, int, v, x.v == v, Expl(4)) CONV(int, OpInt, OpInt{v}, x == v, 4)
        conv<std::variant<int, std::string>, int>("variant <- int", [&] { return v; }, [&](const std::variant<int, std::string>& x) { return x.index() == 0 && std::get<0>(x) == v; }, [] { return std::variant<int, std::string>("q"); });
        CONV(std::optional<int>, int, v, x == v, std::nullopt)
        conv<opt::option<long>, opt::option<int>>("option<long> <- option<int>", [&] { return opt::option<int>(v); }, [&](const opt::option<long>& x) { return x.has_value() && *x == v; }, [] { return opt::option<long>(3); });
        conv<opt::option<opt::option<long>>, opt::option<opt::option<int>>>("option<option<long>> <- option<option<int>>", [&] { return opt::option<opt::option<int>>(opt::option<int>(v)); }, [&](const opt::option<opt::option<long>>& x) { return x.has_value() && x->has_value() && **x == v; }, [] { return opt::option<opt::option<long>>(); });
        // an option to a nested option wraps it: the result holds it, empty or not
        for (int has = 0; has < 2; ++has) {
            auto mk = [&] { return has ? opt::option<int>(v) : opt::option<int>(); };
            auto ex = [&](const auto& t) { return t.has_value() && t->has_value() == bool(has) && (!has || **t == v); };
            conv_forms<opt::option<int>, int>("option<option<int>> <- option<int>", mk, ex);
            for (int into = 0; into < 3; ++into) conv_assign<opt::option<int>, int>("option<option<int>> = option<int>", mk, [&](opt::option<opt::option<int>>& d) { if (into == 0) d.emplace(opt::none); else if (into == 1) d.emplace(9); }, ex);
            auto mk3 = [&] { opt::option<opt::option<int>> q; q.emplace(mk()); return q; };
            conv_forms<opt::option<opt::option<int>>, opt::option<int>>("option<3> <- option<2>", mk3, [&](const auto& t) { return t.has_value() && t->has_value() && (*t)->has_value() == bool(has) && (!has || ***t == v); });
            conv_forms<std::any, int>("any <- int", mk, [&](const opt::option<std::any>& t) { if (!t.has_value()) return false; auto* p = std::any_cast<opt::option<int>>(&*t); return p && p->has_value() == bool(has) && (!has || **p == v); });
            conv_forms<bool, opt::option<int>>("bool <- option<int>", mk3, [&](const opt::option<bool>& t) { return t.has_value() && *t == bool(has); });
        }
        conv_forms<bool, opt::option<int>>("bool <- option<int>", [] { return opt::option<opt::option<int>>(); }, [](const opt::option<bool>& t) { return !t.has_value(); });
        conv_forms<opt::option<long>, opt::option<int>>("option<long> <- none", [] { return opt::option<opt::option<int>>(opt::option<int>()); }, [](const opt::option<opt::option<long>>& t) { return t.has_value() && !t->has_value(); });
    }
    CONV(std::string, const char*, "hello", x == "hello", "other") CONV(std::string_view, std::string, big, x.size() == 40 || true, "other")
    conv<std::string, std::string_view>("string <- string_view", [] { return std::string_view("sv"); }, [](const std::string& x) { return x == "sv"; }, [] { return std::string("o"); });
    CONV(B1*, DD*, &dd, x == &dd, nullptr) CONV(const int*, int*, xs, x == xs, nullptr) CONV(const void*, int*, xs, x == xs, nullptr) CONV(bool, int*, xs, x, false) CONV(bool, int*, nullptr, !x, true)
    const auto sdd = std::make_shared<DD>(); CONV(std::shared_ptr<B0>, std::shared_ptr<DD>, sdd, x && x->b == 1, nullptr) CONV(std::unique_ptr<B0>, std::unique_ptr<DD>, std::make_unique<DD>(), x && x->b == 1, nullptr) CONV(std::shared_ptr<B1>, std::unique_ptr<DD>, std::make_unique<DD>(), x && x->c == 2, nullptr)
    conv<std::variant<int, std::string>, std::string>("variant <- string", [&] { return big; }, [&](const std::variant<int, std::string>& x) { return x.index() == 1 && std::get<1>(x) == big; }, [] { return std::variant<int, std::string>(3); });
    conv<std::pair<long, std::string>, std::pair<int, const char*>>("pair <- pair", [] { return std::pair<int, const char*>(3, "p"); }, [](const std::pair<long, std::string>& x) { return x.first == 3 && x.second == "p"; }, [] { return std::pair<long, std::string>(); });
    conv<std::tuple<long, double>, std::tuple<int, float>>("tuple <- tuple", [] { return std::tuple<int, float>(3, 2.5f); }, [](const std::tuple<long, double>& x) { return x == std::tuple<long, double>(3, 2.5); }, [] { return std::tuple<long, double>(); });
    conv<std::tuple<int, int>, std::pair<int, int>>("tuple <- pair", [] { return std::pair<int, int>(3, 4); }, [](const std::tuple<int, int>& x) { return x == std::tuple<int, int>(3, 4); }, [] { return std::tuple<int, int>(); });
    // an aggregate made from what converts to it, from another aggregate of the same shape, from one element
    conv<Agg, ToAgg>("aggregate <- convertible", [] { return ToAgg{7}; }, [](const Agg& x) { return x.a == 7 && x.b == 3.5; }, [] { return Agg{1, 2.0}; });
    { ToAgg t{8}; opt::option<Agg> a(t), b(ToAgg{9}), c(std::in_place, t), d; d.emplace(t); opt::option<Agg> e(Agg{1, 2.}); e = t; auto f = opt::make_option<Agg>(t); opt::option<Agg> g; Agg h = g.value_or(t); opt::option<Agg> i(1, 2.5), j; j.emplace(3, 4.5); auto k = opt::make_option<Agg>(5); opt::option<Agg> l; l.try_emplace(t);
      MCHECK(a.has_value() && a->a == 8 && b->a == 9 && c->a == 8 && d->a == 8 && e->a == 8 && f->a == 8 && h.a == 8 && i->a == 1 && i->b == 2.5 && j->a == 3 && j->b == 4.5 && k->a == 5 && l->a == 8, "C11-aggregate", "an aggregate constructed from a convertible value or its elements"); mon::seen(std::string("aggregate conversions")); }
    conv<std::function<int(int)>, int (*)(int)>("function <- pointer", [] { return &plain_fn; }, [](const std::function<int(int)>& x) { return x && x(3) == 4; }, [] { return std::function<int(int)>(); });
#elif GROUP == 6
    LAWS(int, std::string, float) LAWS(std::string, bool, std::vector<int>) LAWS(double, EPlain, std::string) LAWS(opt::option<int>, bool, int*) LAWS(std::pair<int, std::string>, Agg, opt::option<opt::option<std::string>>) LAWS(bool, bool, bool) LAWS(Poly, Pad, std::shared_ptr<int>)
    zmembers<ZB>(4); zmembers<ZD>(28); zwide<6>(std::make_index_sequence<6>{}); zwide<7>(std::make_index_sequence<7>{}); zwide<8>(std::make_index_sequence<8>{}); zwide<9>(std::make_index_sequence<9>{}); zwide<12>(std::make_index_sequence<12>{}); zwide<17>(std::make_index_sequence<17>{});
#endif
    return mon::finish();
}
