// C17: custom empty states and the customisation protocol.
#ifndef GROUP
#define GROUP 0
#endif
#include <unordered_set>
#include "engine.hpp"
#include "constops.hpp"
using namespace ty;
namespace {
// ---- instrumented traits: the storage says what it is, and every call of the traits is judged by it
// (a trivial value leaves its mark behind in dead storage, so it has a mark of its own)
constexpr std::uint32_t ALIVE = 0xA11CE5u, BYTES = 0xB17E5u, GONE = 0xDEADu, LEVEL = 0x1EE00000u;
struct Calls { std::uint64_t get = 0, set = 0; std::uint64_t raw = 0; }; Calls g_calls;
struct Watch { volatile std::uint32_t magic; void is(std::uint32_t m) { magic = m; } };
inline std::string hex(std::uint32_t m) { char b[16]; std::snprintf(b, sizeof b, "%x", m); return b; }
// dead storage can read as anything, an old mark included: what is alive is kept in a register of its own
inline std::unordered_set<const volatile void*>& living() { static std::unordered_set<const volatile void*> s; return s; }
// MAX levels, RET what get_level says of a live value (0: the smallest allowed), SIZE more bytes
template<std::uintmax_t MAX, std::uintmax_t RET, int SIZE> struct Triv {
    static constexpr bool tracked = false; static constexpr std::uint32_t alive = BYTES; std::uint32_t magic; int v; unsigned char more[SIZE];
    Triv(int x = 0) : magic(BYTES), v(x) { for (auto& m : more) m = static_cast<unsigned char>(x); }
    Triv(const Triv&) = default; Triv& operator=(const Triv&) = default;
    std::uint32_t mark() const { return magic; } void mark(std::uint32_t m) { magic = m; }
};
template<std::uintmax_t MAX, std::uintmax_t RET, int SIZE> struct Full {
    static constexpr bool tracked = true; static constexpr std::uint32_t alive = ALIVE; volatile std::uint32_t magic; int v; unsigned char more[SIZE];
    void fill(int x) { v = x; for (auto& m : more) m = static_cast<unsigned char>(x); }
    void live(const char* what) const { MCHECK(magic == ALIVE && living().count(this) == 1, "C17-lifetime", "%s of an object that is not alive (%s)", what, hex(magic).c_str()); }
    Full(int x = 0) : magic(ALIVE) { living().insert(this); fill(x); }
    Full(const Full& o) : magic(ALIVE) { living().insert(this); o.live("copy"); fill(o.v); } Full(Full&& o) noexcept : magic(ALIVE) { living().insert(this); o.live("move"); fill(o.v); }
    Full& operator=(const Full& o) { live("assignment"); o.live("copy"); fill(o.v); return *this; } Full& operator=(Full&& o) noexcept { live("assignment"); o.live("move"); fill(o.v); return *this; }
    ~Full() { live("destruction"); living().erase(this); magic = GONE; v = -9; }
    std::uint32_t mark() const { return magic; } void mark(std::uint32_t m) { magic = m; }
};
template<class P, std::uintmax_t MAX, std::uintmax_t RET> struct Judge {
    static constexpr std::uintmax_t max_level = MAX;
    static std::uintmax_t get_level(const P* p) noexcept {
        ++g_calls.get; MCHECK(p != nullptr && reinterpret_cast<std::uintptr_t>(p) % alignof(P) == 0, "C17-pointer", "get_level of a null or misaligned pointer");
        const std::uint32_t m = p->mark();
        if (m == P::alive) return RET ? RET : MAX;
        const bool level = (m & 0xFFF00000u) == LEVEL;
        MCHECK(level, "C17-uninitialised", "get_level asked about storage that holds neither a value nor a level (%s)", hex(m).c_str());
        const std::uintmax_t l = m & 0xFFFFF; return level && l < MAX ? l : 0;
    }
    static void set_level(P* p, const std::uintmax_t l) noexcept {
        ++g_calls.set; MCHECK(p != nullptr && reinterpret_cast<std::uintptr_t>(p) % alignof(P) == 0, "C17-pointer", "set_level of a null or misaligned pointer");
        MCHECK(l < MAX, "C17-level-range", "set_level(%ju) where max_level is %ju", l, MAX);
        if (P::tracked) MCHECK(living().count(p) == 0, "C17-set-alive", "set_level(%ju) over an object that is still alive", l);
        p->mark(LEVEL + static_cast<std::uint32_t>(l & 0xFFFFF));
    }
};
// a disabled customisation: nothing may be asked
struct Off { int v; Off(int x) : v(x) {} };
// chosen by SFINAE
template<class X> struct Some { X x; Some(X v) : x(v) {} };
// the value decides about its own emptiness at any time
struct Self { int x, y; };
} // namespace
template<std::uintmax_t M, std::uintmax_t R, int S> struct opt::option_traits<Triv<M, R, S>> : Judge<Triv<M, R, S>, M, R> {};
template<std::uintmax_t M, std::uintmax_t R, int S> struct opt::option_traits<Full<M, R, S>> : Judge<Full<M, R, S>, M, R> {};
template<> struct opt::option_traits<Off> { static constexpr std::uintmax_t max_level = 0; };
template<class X> struct opt::option_traits<Some<X>, std::enable_if_t<!std::is_same_v<X, float>>> {
    static constexpr std::uintmax_t max_level = 1;
    static std::uintmax_t get_level(const Some<X>* v) noexcept { return static_cast<std::uintmax_t>(v->x + 1) ? 1 : 0; }
    static void set_level(Some<X>* v, std::uintmax_t) noexcept { v->x = static_cast<X>(-1); }
};
template<> struct opt::option_traits<Self> {
    static constexpr std::uintmax_t max_level = 100;
    static std::uintmax_t get_level(const Self* v) noexcept { return v->x == -1 ? static_cast<std::uintmax_t>(v->y) : std::uintmax_t(-1); }
    static void set_level(Self* v, std::uintmax_t l) noexcept { MCHECK(l < 100, "C17-level-range", "set_level(%ju) where max_level is 100", l); v->x = -1; v->y = static_cast<int>(l); }
};
namespace {
enum class Col : unsigned char { a, b, c };
struct Node { Col c; int* p; float f; opt::sentinel<short, -7, -8> s; int id; Node(int i = 0) : c(static_cast<Col>(i % 3)), p(nullptr), f(static_cast<float>(i)), s(short(i)), id(i) {} };
struct SF { std::int64_t v; SF(std::int64_t x = 0) : v(x) {} };
struct SFCompare { bool operator()(const SF& a, int k) const noexcept { MCHECK(k == 10 || k == 20 || k == 30, "C17-sentinel_f", "the comparison was asked about %d, which is not designated", k); return a.v == -1000 - k; } };
struct SFSet { void operator()(SF& a, int k) const noexcept { MCHECK(k == 10 || k == 20 || k == 30, "C17-sentinel_f", "the setter was given %d, which is not designated", k); a.v = -1000 - k; } };
using SentFn = opt::sentinel_f<SF, SFCompare, SFSet, 10, 20, 30>;
// an element type whose destructor leaves its mark, with setter and comparison of its own
struct Obj { volatile std::uint32_t magic; int v; Obj(int x = 0) : magic(ALIVE), v(x) { living().insert(this); } Obj(const Obj& o) : magic(ALIVE), v(o.v) { living().insert(this); o.live("copy"); } Obj& operator=(const Obj& o) { live("assignment"); o.live("copy"); v = o.v; return *this; } ~Obj() { live("destruction"); living().erase(this); magic = GONE; }
    void live(const char* what) const { MCHECK(magic == ALIVE && living().count(this) == 1, "C17-lifetime", "%s of an object that is not alive (%s)", what, hex(magic).c_str()); } };
struct ObjCompare { bool operator()(const Obj& a, unsigned k) const noexcept { const std::uint32_t m = a.magic; MCHECK(m == ALIVE || m == LEVEL + 1 || m == LEVEL + 2, "C17-uninitialised", "the comparison of sentinel_f was given uninitialised storage (%s)", hex(m).c_str()); return m == LEVEL + k; } };
struct ObjSet { void operator()(Obj& a, unsigned k) const noexcept { MCHECK(living().count(&a) == 0, "C17-set-alive", "the setter of sentinel_f was given a live object"); a.magic = LEVEL + k; } };
using SentObj = opt::sentinel_f<Obj, ObjCompare, ObjSet, 1u, 2u>;
struct VirtualBase { int pad = 1; }; struct Sub : VirtualBase { Triv<3, 0, 1> t; int id; Sub(int i = 0) : t(i), id(i) {} };
using MemT = opt::member<Sub, &Sub::t>;
struct HostF { int id; Full<4, 0, 3> f; HostF(int i = 0) : id(i), f(i) {} };
using MemF = opt::member<HostF, &HostF::f>;
struct TL { Full<2, 0, 1> a; Full<2, 77, 1> b; TL(int i) : a(i), b(i) {} template<std::size_t I> auto& get() { if constexpr (I == 0) return a; else return b; } template<std::size_t I> const auto& get() const { if constexpr (I == 0) return a; else return b; } };
struct AggP { int before; Triv<6, 0, 2> t; Full<3, 0, 1> f; char after; };
} // namespace
template<> struct std::tuple_size<TL> : std::integral_constant<std::size_t, 2> {};
template<> struct std::tuple_element<0, TL> { using type = Full<2, 0, 1>; };
template<> struct std::tuple_element<1, TL> { using type = Full<2, 77, 1>; };
namespace ty {
template<class P> struct AdP : AdBase<P> { static constexpr const char* name = P::tracked ? "instrumented traits, tracked" : "instrumented traits, trivial"; static P make(int i) { return P(i); } static int id(const P& p) { if (p.mark() != P::alive) return UNKNOWN; for (auto m : p.more) if (m != static_cast<unsigned char>(p.v)) return UNKNOWN; return p.v; } };
template<std::uintmax_t M, std::uintmax_t R, int S> struct Ad<Triv<M, R, S>> : AdP<Triv<M, R, S>> { using Conv = int; };
template<std::uintmax_t M, std::uintmax_t R, int S> struct Ad<Full<M, R, S>> : AdP<Full<M, R, S>> { using Conv = short; };
template<> struct Ad<Off> : AdBase<Off> { static constexpr const char* name = "disabled traits"; static Off make(int i) { return Off(i); } static int id(const Off& o) { return o.v; } };
template<class X> struct Ad<Some<X>> : AdBase<Some<X>> { static constexpr const char* name = "traits chosen by SFINAE"; static Some<X> make(int i) { return Some<X>(static_cast<X>(i)); } static int id(const Some<X>& o) { return static_cast<int>(o.x); } };
template<> struct Ad<Self> : AdBase<Self> { static constexpr const char* name = "two-field traits"; static Self make(int i) { return Self{i, ~i}; } static int id(const Self& o) { return o.y == ~o.x ? o.x : UNKNOWN; } };
template<class T, auto... V> struct Ad<opt::sentinel<T, V...>> : AdBase<opt::sentinel<T, V...>> {
    static constexpr const char* name = "sentinel"; static constexpr int N = 40; static opt::sentinel<T, V...> make(int i) { return opt::sentinel<T, V...>(static_cast<T>(i + 1)); } static int id(const opt::sentinel<T, V...>& s) { return static_cast<int>(static_cast<const T&>(s)) - 1; } };
template<> struct Ad<Sent3>; 
template<> struct Ad<SentFn> : AdBase<SentFn> { static constexpr const char* name = "sentinel_f"; static SentFn make(int i) { return SentFn(SF(i)); } static int id(const SentFn& s) { return static_cast<int>(s.m.v); } };
template<> struct Ad<SentObj> : AdBase<SentObj> { static constexpr const char* name = "sentinel_f, tracked"; static SentObj make(int i) { return SentObj(Obj(i)); } static int id(const SentObj& s) { return s.m.magic == ALIVE ? s.m.v : UNKNOWN; } };
template<> struct Ad<MemT> : AdBase<MemT> { static constexpr const char* name = "member with instrumented traits"; static MemT make(int i) { return MemT(Sub(i)); } static int id(const MemT& s) { return s.m.id == s.m.t.v ? s.m.id : UNKNOWN; } };
template<> struct Ad<MemF> : AdBase<MemF> { static constexpr const char* name = "member with instrumented traits, tracked"; static MemF make(int i) { return MemF(HostF(i)); } static int id(const MemF& s) { return s.m.id == s.m.f.v ? s.m.id : UNKNOWN; } };
template<class P> struct Ad<opt::enforce<P>> : AdBase<opt::enforce<P>> { static constexpr const char* name = "enforce"; static opt::enforce<P> make(int i) { return opt::enforce<P>(Ad<P>::make(i)); } static int id(const opt::enforce<P>& s) { return Ad<P>::id(s.m); } };
template<> struct Ad<Enf>;
template<> struct Ad<TL> : AdBase<TL> { static constexpr const char* name = "tuple-like with instrumented elements"; static TL make(int i) { return TL(i); } static int id(const TL& t) { return t.a.v == t.b.v && t.a.mark() == ALIVE && t.b.mark() == ALIVE ? t.a.v : UNKNOWN; } };
template<> struct Ad<AggP> : AdBase<AggP> { static constexpr const char* name = "aggregate with instrumented members"; static AggP make(int i) { return AggP{i, {i}, {i}, static_cast<char>(i)}; } static int id(const AggP& t) { return t.before == t.t.v && t.t.v == t.f.v && t.after == t.before ? t.before : UNKNOWN; } };
}
namespace {
std::string g_type;
template<class T> constexpr std::uintmax_t levels = opt::option_traits<T>::max_level;
template<class T, int D> struct nest { using type = opt::option<typename nest<T, D - 1>::type>; };
template<class T> struct nest<T, 0> { using type = T; };
template<class T, int D> using nest_t = typename nest<T, D>::type;

// the histories of C01 on D-fold options, then the const operations on a pool of them
template<class E, int D> void history(std::uint64_t h, std::uint64_t steps) {
    using T = nest_t<E, D - 1>; g_type = std::string(Ad<E>::name) + " depth " + std::to_string(D);
    const Calls before = g_calls; mon::context("%s", g_type.c_str());
    for (std::uint64_t k = 0; k < h; ++k) {
        eng::History<T> x(mon::mix(mon::st().seed, mon::mix(mon::hash_str(g_type.c_str()), mon::mix(sizeof(E), k))), "C17", static_cast<int>(k % 3));
        for (std::uint64_t s = 0; s < steps; ++s) if (!x.step()) break;
    }
    mon::Rng r(mon::mix(mon::st().seed, D)); using O = opt::option<T>; O pool[4]; std::vector<std::uint64_t> got;
    for (int round = 0; round < 3; ++round) {
        for (auto& o : pool) { if (r.chance(1, 3)) o.reset(); else Ad<T>::emplace(o, static_cast<int>(r.below(Ad<T>::N))); }
        for (std::uint64_t k = 0; k < steps; ++k) {
            const int op = static_cast<int>(r.below(cops::NOPS)), i = static_cast<int>(r.below(4)), j = static_cast<int>(r.below(4)), id = static_cast<int>(r.below(Ad<T>::N));
            mon::context("%s: const operation %d, states %d %d", g_type.c_str(), op, pool[i].has_value(), pool[j].has_value());
            const std::uint64_t a = cops::const_op<T>(op, pool[i], pool[j], id), b = cops::const_op<T>(op, pool[i], pool[j], id);
            MCHECK(a == b, "C17-const", "%s: const operation %d gives different results on the same options", g_type.c_str(), op);
        }
    }
    if (levels<E> >= static_cast<std::uintmax_t>(D)) MCHECK(sizeof(O) == sizeof(E), "C17-size", "%s: the option has %zu bytes, the element %zu, though %ju levels are offered", g_type.c_str(), sizeof(O), sizeof(E), levels<E>);
    mon::count("types"); mon::count("get_level calls", g_calls.get - before.get); mon::count("set_level calls", g_calls.set - before.set);
}
// the number of levels left at each depth, and which level each state of an option is
template<class E, int D> void depth_levels(int ids) {
    using O = nest_t<E, D>;
    const std::uintmax_t left = levels<E> > static_cast<std::uintmax_t>(D) ? levels<E> - D : 0;
    if (levels<E> >= static_cast<std::uintmax_t>(D)) MCHECK(opt::option_traits<O>::max_level == left, "C17-levels", "%d-fold option of %s offers %ju levels instead of %ju", D, Ad<E>::name, (std::uintmax_t)opt::option_traits<O>::max_level, left);
    (void)ids;
}
#define DEPTHS(E) history<E, 1>(H, S); history<E, 2>(H, S); history<E, 3>(H, S); depth_levels<E, 1>(3); depth_levels<E, 2>(3); depth_levels<E, 3>(3); depth_levels<E, 4>(3);

// ---- sentinels: which representation means what
template<class T> bool same(const T& a, const T& b) { return a == b; }
// every given value of the underlying type, read through options of depth 1 to 4
template<class W, class T> void reading(const std::vector<T>& designated, const std::vector<T>& values, const char* name) {
    using O1 = opt::option<W>; using O2 = opt::option<O1>; using O3 = opt::option<O2>;
    g_type = name; const std::size_t n = designated.size(); mon::count("sentinel types");
    MCHECK(levels<W> == n, "C17-sentinel-levels", "%s offers %ju levels instead of %zu", name, levels<W>, n);
    MCHECK(sizeof(O1) == sizeof(T) && (n < 2 || sizeof(O2) == sizeof(T)) && (n < 3 || sizeof(O3) == sizeof(T)), "C17-size", "options of %s are larger than the element", name);
    auto level_of = [&](const T& v) { for (std::size_t i = 0; i < n; ++i) if (same(v, designated[i])) return i; return std::size_t(1000); };
    { O1 o; MCHECK(!o.has_value() && same(static_cast<const T&>(o.get_unchecked().m), designated[0]), "C17-sentinel-empty", "an empty option of %s does not read as the first designated value", name);
      if (n >= 2) { O2 p; MCHECK(!p.has_value() && same(static_cast<const T&>(p.get_unchecked().get_unchecked().m), designated[1]), "C17-sentinel-empty", "an empty 2-fold option of %s does not read as the second designated value", name);
          p.emplace(); MCHECK(p.has_value() && !p->has_value() && same(static_cast<const T&>(p->get_unchecked().m), designated[0]), "C17-sentinel-empty", "an empty inner option of %s does not read as the first designated value", name); }
      if (n >= 3) { O3 p; MCHECK(!p.has_value() && same(static_cast<const T&>(p.get_unchecked().get_unchecked().get_unchecked().m), designated[2]), "C17-sentinel-empty", "an empty 3-fold option of %s does not read as the third designated value", name); } }
    for (const T& v : values) {
        const std::size_t l = level_of(v); ++mon::st().evaluations;
        const W w(v); MCHECK(same(static_cast<const T&>(w), v) && same(w.m, v), "C17-wrapper", "%s does not hold what it was made of", name);
        if constexpr (std::is_trivially_copyable_v<W>) { auto a = opt::as_option(w); MCHECK(a.has_value() == (l != 0), "C17-as_option", "as_option of a %s that reads as designated value %zd gives has_value %d", name, (ssize_t)l, a.has_value()); if (a.has_value()) MCHECK(same(static_cast<const T&>(a->m), v), "C17-as_option", "as_option changed the value"); }
        { O1 o; o.emplace(W(designated[0] == v ? values.back() : values.back())); o.get_unchecked().m = v; MCHECK(o.has_value() == (l != 0), "C17-reading", "an option of %s whose element was made to read as designated value %zd says has_value %d", name, (ssize_t)l, o.has_value()); }
        if (l == 1000) { O1 o(v); MCHECK(o.has_value() && same(static_cast<const T&>(o->m), v), "C17-value", "an option of %s lost a value that is not designated", name); o.reset(); o = w; MCHECK(o.has_value() && same(static_cast<const T&>(*o), v), "C17-value", "an option of %s lost an assigned value", name);
            O1 c(o), d(std::move(o)); c.swap(d); MCHECK(c.has_value() && same(static_cast<const T&>(*c), v), "C17-value", "an option of %s lost a copied value", name); }
        else if (l != 0) { O1 o{W(v)}; MCHECK(o.has_value() && same(static_cast<const T&>(o->m), v), "C17-value", "an option of %s is empty for a value that is designated for a deeper level only", name); }
        if (n >= 2) { O2 p; p.emplace().emplace(W(values.back())); p.get_unchecked().get_unchecked().m = v;
            MCHECK(p.has_value() == (l != 1), "C17-reading", "a 2-fold option of %s whose element was made to read as designated value %zd says has_value %d", name, (ssize_t)l, p.has_value());
            if (l != 1) MCHECK(p->has_value() == (l != 0), "C17-reading", "the inner option of %s whose element was made to read as designated value %zd says has_value %d", name, (ssize_t)l, p->has_value()); }
        if (n >= 3) { O3 p; p.emplace().emplace().emplace(W(values.back())); p.get_unchecked().get_unchecked().get_unchecked().m = v;
            MCHECK(p.has_value() == (l != 2) && (l == 2 || p->has_value() == (l != 1)) && (l == 2 || l == 1 || (*p)->has_value() == (l != 0)), "C17-reading", "a 3-fold option of %s whose element was made to read as designated value %zd is in another state", name, (ssize_t)l); }
        mon::seen(mon::mix(mon::hash_str(name), mon::mix(l, mon::st().evaluations % 4096)));
    }
}
template<class T> std::vector<T> all_of(long lo, long hi) { std::vector<T> v; for (long i = lo; i <= hi; ++i) v.push_back(static_cast<T>(i)); return v; }
template<class T, auto... V> void ints(const char* name, std::vector<T> values) { // the last value is never designated
    std::vector<T> d{static_cast<T>(V)...}; for (auto x : d) for (int k = -2; k <= 2; ++k) values.insert(values.begin(), static_cast<T>(static_cast<unsigned long long>(x) + static_cast<unsigned long long>(k))); reading<opt::sentinel<T, V...>, T>(d, values, name);
}
std::vector<long long> sampled(int n) { std::vector<long long> v; mon::Rng r(mon::st().seed); for (int i = 0; i < 64; ++i) { v.push_back(static_cast<long long>(1ull << i)); v.push_back(static_cast<long long>(~(1ull << i))); v.push_back(static_cast<long long>((1ull << i) - 1)); } for (int i = 0; i < n; ++i) v.push_back(static_cast<long long>(r.next() >> r.below(64))); v.push_back(77); return v; }
template<class T> std::vector<T> as(const std::vector<long long>& v) { std::vector<T> r; for (auto x : v) r.push_back(static_cast<T>(x)); return r; }
int g_objs[4], g_obj;
struct Logged { // equality comparable and assignable, with a log
    int v; static inline int compared = 0, assigned = 0; constexpr Logged(int x) : v(x) {} Logged(const Logged&) = default; Logged& operator=(const Logged& o) { ++assigned; v = o.v; return *this; }
    friend bool operator==(const Logged& a, const Logged& b) { ++compared; return a.v == b.v; }
};
} // namespace
template<> struct opt::sentinel_option_traits<Logged> { static constexpr Logged sentinel_value{-5}; };
namespace {
struct MyP { unsigned x; bool operator==(const MyP& o) const { return x == o.x; } };
struct Conv2 { long v; explicit Conv2(long x) : v(x) {} bool operator==(int k) const { return v == k; } Conv2& operator=(int k) { v = k; return *this; } Conv2(const Conv2&) = default; Conv2& operator=(const Conv2&) = default; };
}
template<> struct opt::sentinel_option_traits<MyP> { static constexpr MyP sentinel_value{0u}; };
template<> struct opt::sentinel_option_traits<Conv2> { static constexpr int sentinel_value = -3; };
namespace {
void sentinel_values(int n) {
    mon::Rng r(mon::st().seed);
    for (int k = 0; k < n; ++k) {
        const int v = k < 200 ? k - 100 : static_cast<int>(r.next());
        mon::context("sentinel_option_traits, value %d", v);
        { opt::option<Logged> o; MCHECK(!o.has_value() && o.get_unchecked().v == -5, "C17-sentinel_value/empty", "an empty option does not read as sentinel_value"); if (v != -5) { o = Logged(v); MCHECK(o.has_value() && o->v == v, "C17-sentinel_value/value", "value lost"); o->v = -5; MCHECK(!o.has_value(), "C17-sentinel_value/reading", "the element reads as sentinel_value and the option is not empty"); o.get_unchecked().v = v; MCHECK(o.has_value() && *o == Logged(v), "C17-sentinel_value/reading", "the element reads as another value and the option is empty"); o.reset(); MCHECK(!o.has_value() && o.get_unchecked().v == -5, "C17-sentinel_value/empty", "a reset option does not read as sentinel_value"); }
          const int a = Logged::assigned, c = Logged::compared; const bool h = opt::as_option(MyP{static_cast<unsigned>(v)}).has_value(); MCHECK(h == (v != 0) && a == Logged::assigned && c == Logged::compared, "C17-as_option", "as_option(%d)", v); }
        { opt::option<Conv2> o; if (v != -3) o.emplace(long(v)); MCHECK(o.has_value() == (v != -3), "C17-sentinel_value/converting", "sentinel_value of another type"); o.emplace(4L); o->v = v; MCHECK(o.has_value() == (v != -3), "C17-sentinel_value/reading", "sentinel_value of another type, reading"); opt::option<opt::option<Conv2>> p; MCHECK(!p.has_value(), "C17-sentinel_value/nested", "nested option not empty"); p.emplace(); MCHECK(p.has_value() && !p->has_value(), "C17-sentinel_value/nested", "nested option of an empty one"); p->emplace(7L); MCHECK(p.has_value() && p->has_value() && (*p)->v == 7, "C17-sentinel_value/nested", "nested option of a value"); p.reset(); MCHECK(!p.has_value(), "C17-sentinel_value/nested", "nested option after reset"); }
        { opt::option<Self> o(Self{v, 3}); if (v != -1) { MCHECK(o.has_value() && o->x == v && o->y == 3, "C17-guide", "value lost"); o->x = -1; o.get_unchecked().y = 0; MCHECK(!o.has_value(), "C17-guide", "the element reads as level 0 and the option is not empty"); o.get_unchecked().y = 5; MCHECK(o.has_value(), "C17-guide", "the element reads as level 5 and the option is empty"); }
          opt::option<opt::option<opt::option<Self>>> p; auto& raw = p.get_unchecked().get_unchecked().get_unchecked(); MCHECK(raw.x == -1 && raw.y == 2, "C17-guide", "an empty 3-fold option is at level %d", raw.y);
          p.emplace(); MCHECK(raw.x == -1 && raw.y == 1, "C17-guide", "an empty 2-fold option is at level %d", raw.y); p->emplace(); MCHECK(raw.x == -1 && raw.y == 0, "C17-guide", "an empty option is at level %d", raw.y); (*p)->emplace(Self{v == -1 ? 1 : v, 9}); MCHECK(raw.y == 9 && p.has_value() && p->has_value() && (*p)->has_value(), "C17-guide", "a value of a 3-fold option"); p->reset(); MCHECK(raw.x == -1 && raw.y == 1 && p.has_value() && !p->has_value(), "C17-guide", "level after reset of the middle option: %d", raw.y); }
        mon::seen(static_cast<std::uint64_t>(v) & 1023);
    }
    static_assert(sizeof(opt::option<Logged>) == sizeof(Logged) && sizeof(opt::option<MyP>) == sizeof(MyP) && sizeof(opt::option<Conv2>) == sizeof(Conv2) && sizeof(opt::option<opt::option<opt::option<Self>>>) == sizeof(Self));
    static_assert(levels<Logged> == 1 && levels<Self> == 100 && levels<opt::option<Self>> == 99);
    static_assert(sizeof(opt::option<Off>) > sizeof(Off) && sizeof(opt::option<Some<float>>) > sizeof(Some<float>) && sizeof(opt::option<Some<int>>) == sizeof(Some<int>) && sizeof(opt::option<Some<char>>) == 1);
}
// ---- members: the option is what the member says; the other members are left alone
template<auto MP, class Get> void member_reading(const char* name, int n, Get get) {
    using W = opt::member<Node, MP>; using M = std::remove_reference_t<decltype(std::declval<Node&>().*MP)>; using O = opt::option<W>;
    static_assert(levels<W> == levels<M>); static_assert(levels<M> == 0 || sizeof(O) == sizeof(Node));
    mon::count("member types"); (void)get;
    for (int i = 0; i < n; ++i) {
        mon::context("member %s, id %d", name, i);
        O o; MCHECK(!o.has_value(), "C17-member", "a default option of member %s has a value", name); o.emplace(i); MCHECK(o.has_value() && o->m.id == i && o->m.c == static_cast<Col>(i % 3), "C17-member", "an option of member %s lost its value", name);
        // a member made to read as empty empties the option, and the way back
        { opt::option<M> e; const M good = static_cast<const Node&>(*o).*MP; unsigned char img[sizeof(M)]; std::memcpy(img, static_cast<const void*>(std::addressof(e)), sizeof(M)); Node& raw = o->m; std::memcpy(static_cast<void*>(std::addressof(raw.*MP)), img, sizeof(M)); MCHECK(!o.has_value(), "C17-member", "the designated member %s reads as empty and the option is not", name); MCHECK(o.get_unchecked().m.id == i, "C17-member", "emptying member %s touched another", name); raw.*MP = good; MCHECK(o.has_value() && o->m.id == i, "C17-member", "the designated member %s reads as a value and the option is empty", name); }
        O c(o); o.reset(); MCHECK(!o.has_value() && c.has_value() && c->m.id == i, "C17-member", "copy of an option of member %s", name); o = std::move(c); MCHECK(o.has_value() && o->m.id == i, "C17-member", "assignment to an option of member %s", name);
        opt::option<O> p(o); MCHECK(p.has_value() && p->has_value() && (*p)->m.id == i, "C17-member", "nested option of member %s", name); p->reset(); MCHECK(p.has_value() && !p->has_value(), "C17-member", "nested option of member %s, inner reset", name); p.reset(); MCHECK(!p.has_value(), "C17-member", "nested option of member %s, reset", name); p.emplace(); MCHECK(p.has_value() && !p->has_value(), "C17-member", "nested option of member %s, inner empty", name);
        mon::seen(mon::mix(mon::hash_str(name), static_cast<unsigned>(i)));
    }
}
// ---- the wrappers mimic what they wrap
struct Thing { int a; std::string s; Thing() : a(1), s("d") {} Thing(int x, const char* y) : a(x), s(y) {} Thing(std::initializer_list<int> l) : a(static_cast<int>(l.size())), s("il") {} };
template<template<class> class W> void wrapper(const char* name, int n) {
    for (int i = 0; i < n; ++i) {
        mon::context("wrapper %s, %d", name, i);
        W<int> w(i); const W<int>& cw = w; int& r = w; const int& cr = cw; MCHECK(&r == &w.m && &cr == &w.m && r == i, "C17-wrapper", "%s: conversion to a reference", name);
        W<int> d{}; MCHECK(d.m == 0, "C17-wrapper", "%s: default value", name); d = i + 1; MCHECK(d.m == i + 1, "C17-wrapper", "%s: assignment of a value", name); d = w; MCHECK(d.m == i, "C17-wrapper", "%s: assignment of a wrapper", name); W<int> e(w), f = i; MCHECK(e.m == i && f.m == i, "C17-wrapper", "%s: copies", name); const int sum = w + e; MCHECK(sum == 2 * i, "C17-wrapper", "%s: arithmetic", name);
        W<std::string> s(std::string(40, 'q')); std::string moved = std::move(s); MCHECK(moved == std::string(40, 'q') && s.m != moved, "C17-wrapper", "%s: conversion of an rvalue does not move", name); s = std::string("x"); MCHECK(s.m == "x", "C17-wrapper", "%s: assignment", name);
        W<Thing> th(i, "hello"); MCHECK(th.m.a == i && th.m.s == "hello", "C17-wrapper", "%s: construction from arguments", name); W<Thing> td; MCHECK(td.m.a == 1, "C17-wrapper", "%s: default construction", name);
        mon::seen(mon::mix(mon::hash_str(name), 0));
    }
}
template<class T> using W_sent = opt::sentinel<T>; template<class T> using W_mem = opt::member<T, nullptr>;
template<class T> using W_f = opt::sentinel_f<T, int, int>;
#if GROUP == 7
// many empty states of one's own: every state of an option nested as deep as they reach, and past them
template<class W, int D> struct NestT { using type = opt::option<typename NestT<W, D - 1>::type>; }; template<class W> struct NestT<W, 0> { using type = W; };
template<class W, int D> using Nest = typename NestT<W, D>::type;
template<class W, int D> struct Deep {
    using O = Nest<W, D>;
    template<int K> static int rd(const Nest<W, K>& o) { if constexpr (K == 0) return 0; else return o.has_value() ? 1 + rd<K - 1>(*o) : 0; }
    template<int K> static void mk(Nest<W, K>& o, int e, int id) { if constexpr (K > 0) { if (e == 0) o.reset(); else { if constexpr (K == 1) o.emplace(Ad<W>::make(id)); else o.emplace(); mk<K - 1>(*o, e - 1, id); } } }
    template<int K> static void empty_at(Nest<W, K>& o, int k, int how) { if constexpr (K > 0) { if (k) empty_at<K - 1>(*o, k - 1, how); else if (how == 0) o.reset(); else if (how == 1) o = opt::none; else (void)o.take(); } }
    template<int K> static int leaf(const Nest<W, K>& o) { if constexpr (K == 0) return Ad<W>::id(o); else return leaf<K - 1>(*o); }
    static void run(const char* name) {
        g_type = name; mon::count("deeply nested types");
        MCHECK(sizeof(O) == sizeof(W) || static_cast<std::uintmax_t>(D) > levels<W>, "C17-deep/size", "%s with %ju levels nested %d deep takes %zu bytes instead of %zu", name, levels<W>, D, sizeof(O), sizeof(W));
        O v[3];
        for (int e = 0; e <= D; ++e) for (int k = 0; k <= D; ++k) {
            mon::context("%s nested %d deep, states %d and %d", name, D, e, k); mon::seen(mon::mix(mon::hash_str(name) + D, static_cast<unsigned>(e * 64 + k)));
            const auto is = [&](const O& o, int n, int id) { return rd<D>(o) == n && (n < D || leaf<D>(o) == id); };
            mk<D>(v[0], e, 3); MCHECK(is(v[0], e, 3), "C17-deep/write", "%s nested %d deep: state %d reads back as %d", name, D, e, rd<D>(v[0]));
            mk<D>(v[1], k, 5); v[2] = v[0]; MCHECK(is(v[2], e, 3), "C17-deep/assign", "%s nested %d deep: assigning state %d gave %d", name, D, e, rd<D>(v[2]));
            v[2] = std::move(v[1]); MCHECK(is(v[2], k, 5), "C17-deep/move-assign", "%s nested %d deep: move-assigning state %d to state %d gave %d", name, D, k, e, rd<D>(v[2]));
            O c(v[2]); c.swap(v[0]); MCHECK(is(c, e, 3) && is(v[0], k, 5), "C17-deep/swap", "%s nested %d deep: swapping states %d and %d gave %d and %d", name, D, k, e, rd<D>(c), rd<D>(v[0]));
            if (k <= e && k < D) { mk<D>(v[0], e, 7); empty_at<D>(v[0], k, (e + k) % 3); MCHECK(rd<D>(v[0]) == k, "C17-deep/reset", "%s nested %d deep: emptying depth %d of state %d gave state %d", name, D, k, e, rd<D>(v[0])); }
        }
    }
};
struct ManyCompare { bool operator()(const SF& a, int k) const noexcept { MCHECK(k >= 1 && k <= 12, "C17-sentinel_f", "the comparison was asked about %d, which is not designated", k); return a.v == -2000 - k; } };
struct ManySet { void operator()(SF& a, int k) const noexcept { MCHECK(k >= 1 && k <= 12, "C17-sentinel_f", "the setter was given %d, which is not designated", k); a.v = -2000 - k; } };
using ManyFn = opt::sentinel_f<SF, ManyCompare, ManySet, 12, 1, 11, 2, 10, 3, 9, 4, 8, 5, 7, 6>;
using Many12 = opt::sentinel<int, -1, -2, -3, -4, -5, -6, -7, -8, -9, -10, -11, -12>;
using Many18 = opt::sentinel<unsigned char, 255, 200, 254, 201, 253, 202, 252, 203, 251, 204, 250, 205, 249, 206, 248, 207, 247, 208>;
using Many9 = opt::sentinel<long long, 1000, 900, -1, 800, -2, 700, -3, 600, -4>;
struct HostM { char c; Many12 m; int id; HostM(int i = 0) : c(1), m(i), id(i) {} };
using MemM = opt::member<HostM, &HostM::m>;
#endif
} // namespace
#if GROUP == 7
namespace ty {
template<> struct Ad<ManyFn> : AdBase<ManyFn> { static constexpr const char* name = "sentinel_f of 12"; static ManyFn make(int i) { return ManyFn(SF(i)); } static int id(const ManyFn& s) { return static_cast<int>(s.m.v); } };
template<> struct Ad<MemM> : AdBase<MemM> { static constexpr const char* name = "member of 12"; static MemM make(int i) { return MemM(HostM(i)); } static int id(const MemM& s) { return s.m.id; } };
}
#endif
int main(int argc, char** argv) {
    mon::init(argc, argv);
    const std::uint64_t H = 6 * mon::st().scale, S = 90; (void)H; (void)S; const int R = static_cast<int>(300 * mon::st().scale); (void)R;
#if GROUP == 0
    using A = Triv<1, 0, 1>; using B = Triv<2, 0, 9>; using C = Triv<5, std::uintmax_t(-1), 3>; using D = Triv<3, 1000, 40>;
    DEPTHS(A) DEPTHS(B) DEPTHS(C) DEPTHS(D)
#elif GROUP == 1
    using A = Full<1, 0, 1>; using B = Full<2, std::uintmax_t(-1), 5>; using C = Full<3, 0, 17>; using D = Full<200, 201, 2>;
    DEPTHS(A) DEPTHS(B) DEPTHS(C) DEPTHS(D)
#elif GROUP == 2
    DEPTHS(Off) DEPTHS(Some<int>) DEPTHS(Some<float>) DEPTHS(Self) DEPTHS(SentFn) DEPTHS(SentObj)
#elif GROUP == 3
    DEPTHS(MemT) DEPTHS(MemF) using EF = opt::enforce<Full<2, 0, 1>>; using ET = opt::enforce<Triv<4, 0, 1>>; DEPTHS(EF) DEPTHS(ET) DEPTHS(TL)
#elif GROUP == 4
    using S1 = opt::sentinel<int, 0>; using S2 = opt::sentinel<unsigned char, 255, 254>; using S3 = opt::sentinel<long long, -1, -2, -3>; using S4 = opt::sentinel<short, 0, -1>;
    DEPTHS(S1) DEPTHS(S2) DEPTHS(S3) DEPTHS(S4)
    using P1 = Full<2, 0, 1>; using P2 = Triv<3, 0, 1>;
    { using X = std::pair<int, P1>; struct L { static X make(int i) { return X(i, P1(i)); } }; (void)sizeof(L);
      for (std::uint64_t k = 0; k < H * 20; ++k) { mon::context("pair<int, tracked>"); opt::option<X> a; MCHECK(!a.has_value() && sizeof a == sizeof(X), "C17-composite", "pair: default"); a.emplace(int(k), P1(int(k))); opt::option<X> b(a), c; c = std::move(b); b.reset(); a = opt::none; MCHECK(c.has_value() && c->first == int(k) && !a.has_value() && !b.has_value(), "C17-composite", "pair"); opt::option<opt::option<X>> n; n.emplace(); MCHECK(n.has_value() && !n->has_value(), "C17-composite", "nested pair"); n->emplace(1, P1(2)); n.reset(); MCHECK(!n.has_value(), "C17-composite", "nested pair"); a.swap(c); MCHECK(a.has_value() && !c.has_value() && a->second.v == int(k), "C17-composite", "pair swap"); }
      using Y = std::tuple<long, P2, P1, char>; for (std::uint64_t k = 0; k < H * 20; ++k) { mon::context("tuple<long, trivial, tracked, char>"); opt::option<Y> a; MCHECK(!a.has_value() && sizeof a == sizeof(Y), "C17-composite", "tuple: default"); a.emplace(long(k), P2(int(k)), P1(int(k)), 'c'); opt::option<Y> b(a), c; c = b; b.reset(); MCHECK(c.has_value() && std::get<0>(*c) == long(k) && std::get<1>(*c).v == int(k) && !b.has_value(), "C17-composite", "tuple"); auto t = c.take(); MCHECK(t.has_value() && !c.has_value(), "C17-composite", "tuple take"); opt::swap(t, c); MCHECK(!t.has_value() && c.has_value(), "C17-composite", "tuple swap"); }
      using Z = std::array<P1, 3>; for (std::uint64_t k = 0; k < H * 20; ++k) { mon::context("array<tracked, 3>"); opt::option<Z> a; MCHECK(!a.has_value() && sizeof a == sizeof(Z), "C17-composite", "array: default"); const int i = int(k); a.emplace(Z{P1(i), P1(i + 1), P1(i + 2)}); opt::option<opt::option<Z>> n(a); n->reset(); MCHECK(n.has_value() && !n->has_value() && a.has_value() && (*a)[2].v == i + 2, "C17-composite", "array"); n.reset(); MCHECK(!n.has_value(), "C17-composite", "array"); } }
    history<AggP, 1>(H, S); history<AggP, 2>(H, S);
#elif GROUP == 5
    { const auto v = sampled(R); const auto b8 = all_of<unsigned char>(0, 255); const auto i8 = all_of<signed char>(-128, 127);
      ints<unsigned char, 0>("sentinel<unsigned char, 0>", all_of<unsigned char>(0, 255)); ints<unsigned char, 3, 200, 7>("sentinel<unsigned char, 3, 200, 7>", b8); ints<signed char, -1, -128>("sentinel<signed char, -1, -128>", i8); ints<char, '\0', '\n', ' '>("sentinel<char, 0, nl, space>", all_of<char>(0, 127));
      ints<unsigned short, 65535, 65534, 0, 1>("sentinel<unsigned short, 65535, 65534, 0, 1>", all_of<unsigned short>(0, 65530)); ints<short, -32768>("sentinel<short, min>", all_of<short>(-32768, 32767));
      ints<int, -1>("sentinel<int, -1>", as<int>(v)); ints<int, -1, -2, -3, -4, -5, -6, -7, -8>("sentinel<int, -1..-8>", as<int>(v)); ints<int, 5, 3, 9>("sentinel<int, 5, 3, 9>", as<int>(v)); ints<unsigned, 0xFFFFFFFFu, 0u>("sentinel<unsigned, max, 0>", as<unsigned>(v));
      ints<long long, 0ll, -1>("sentinel<long long, 0ll, -1>", as<long long>(v)); ints<unsigned long long, 0xFFFFFFFFFFFFFFFFull, 0ull, 1ull << 32>("sentinel<unsigned long long, max, 0, 2^32>", as<unsigned long long>(v));
      reading<opt::sentinel<Col, Col::c, Col::a>, Col>({Col::c, Col::a}, {Col::a, Col::c, Col::b}, "sentinel<enum class>"); reading<opt::sentinel<bool, true>, bool>({true}, {true, false}, "sentinel<bool, true>");
      reading<opt::sentinel<int*, nullptr>, int*>({nullptr}, {nullptr, g_objs + 1, g_objs}, "sentinel<int*, nullptr>"); reading<opt::sentinel<const int*, &g_obj, nullptr>, const int*>({&g_obj, nullptr}, {nullptr, &g_obj, g_objs, g_objs + 2, g_objs + 1}, "sentinel<const int*, object, nullptr>");
      reading<opt::sentinel<double, -1, -2>, double>({-1.0, -2.0}, {-1.0, -2.0, 0.0, -0.0, 1e300, 0.5, -1.0000001, 3.0}, "sentinel<double, -1, -2>"); reading<opt::sentinel<float, 0>, float>({0.0f}, {0.0f, -0.0f, 1.0f, 1e-45f, 2.0f}, "sentinel<float, 0>");
      reading<opt::sentinel<Col*, nullptr>, Col*>({nullptr}, {nullptr, reinterpret_cast<Col*>(g_objs)}, "sentinel<enum*, nullptr>"); }
#elif GROUP == 6
    sentinel_values(3 * R);
    { const int n = R / 3; member_reading<&Node::p>("pointer", n, 0); member_reading<&Node::f>("float", n, 0); member_reading<&Node::s>("sentinel", n, 0); }
    wrapper<opt::enforce>("enforce", 20); wrapper<W_sent>("sentinel", 20); wrapper<W_mem>("member", 20); wrapper<W_f>("sentinel_f", 20);
    { mon::Rng r(mon::st().seed); for (int k = 0; k < R; ++k) { const int i = static_cast<int>(r.below(100000)); const std::int64_t v = k % 5 == 0 ? -1010 : k % 5 == 1 ? -1020 : k % 5 == 2 ? -1030 : i;
        opt::option<SentFn> o; MCHECK(!o.has_value() && o.get_unchecked().m.v == -1010, "C17-sentinel_f", "an empty option of sentinel_f does not read as the first value"); o = SentFn(SF(i)); MCHECK(o.has_value() && o->m.v == i, "C17-sentinel_f", "value lost"); o->m.v = v; MCHECK(o.has_value() == (v != -1010), "C17-sentinel_f", "reading %lld", (long long)v);
        opt::option<opt::option<SentFn>> p; MCHECK(!p.has_value() && p.get_unchecked().get_unchecked().m.v == -1020, "C17-sentinel_f", "an empty 2-fold option of sentinel_f does not read as the second value"); p.emplace().emplace(SF(i)); MCHECK(p.has_value() && p->has_value() && (*p)->m.v == i, "C17-sentinel_f", "value lost"); (*p)->m.v = v; MCHECK(p.has_value() == (v != -1020) && (v == -1020 || p->has_value() == (v != -1010)), "C17-sentinel_f", "2-fold, reading %lld", (long long)v); } }
#elif GROUP == 7
    Deep<Many12, 12>::run("sentinel of 12"); Deep<Many12, 14>::run("sentinel of 12"); Deep<Many18, 18>::run("sentinel of 18"); Deep<Many9, 9>::run("sentinel of 9"); Deep<Many9, 11>::run("sentinel of 9");
    Deep<ManyFn, 12>::run("sentinel_f of 12"); Deep<ManyFn, 13>::run("sentinel_f of 12"); Deep<MemM, 12>::run("member of 12"); Deep<MemM, 13>::run("member of 12");
    { using T20 = Triv<20, 0, 1>; using F20 = Full<20, 0, 1>; using T9 = Triv<9, std::uintmax_t(-1), 3>; using F10 = Full<10, 11, 5>; Deep<T20, 20>::run("trivial, 20 levels"); Deep<F20, 20>::run("tracked, 20 levels"); Deep<T9, 12>::run("trivial, 9 levels"); Deep<F10, 12>::run("tracked, 10 levels"); Deep<Self, 24>::run("two-field traits"); }
#endif
    return mon::finish();
}
