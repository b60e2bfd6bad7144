// C07: genuine values are never mistaken for empty, keep every bit, and floating-point options raise no flags.
#ifndef GROUP
#define GROUP 0
#endif
#include "types.hpp"
#include <atomic>
#include <cfenv>
#include <cmath>
#include <thread>
#include <sys/mman.h>
#include <deque>
#include <list>
using namespace ty;
namespace {
std::string g_type;
template<class T> using Bits = std::array<unsigned char, sizeof(T)>;
template<class T> constexpr std::size_t value_bytes() { return std::is_same_v<T, long double> ? 10 : sizeof(T); }
template<class T> bool same(const T& v, const Bits<T>& b) { return std::memcmp(std::addressof(v), b.data(), value_bytes<T>()) == 0; }
template<class T> struct Local { std::uint64_t evals = 0, values = 0; const char* bad = nullptr; Bits<T> bad_bits{}; int flags = 0; };
template<class T> std::string hex(const Bits<T>& b) { std::string r; char c[4]; for (std::size_t i = value_bytes<T>(); i-- > 0;) { std::snprintf(c, 4, "%02x", b[i]); r += c; } return r; }
// T read from its bytes without any arithmetic
template<class T> __attribute__((noinline)) void load(T* out, const Bits<T>& b) { std::memcpy(out, b.data(), sizeof(T)); }

#define EXPECT(o, what) do { ++l.evals; if (!(o).has_value()) { fail("the option reads as empty after " what); return; } if (!same<T>(*(o), b)) { fail("bits changed by " what); return; } } while (0)
#define EXPECT_NONE(o, what) do { ++l.evals; if ((o).has_value()) { fail("the option is not empty after " what); return; } } while (0)

// the short battery used for exhaustive sweeps
template<class T> void quick(Local<T>& l, const Bits<T>& b) {
    const auto fail = [&](const char* w) { if (!l.bad) { l.bad = w; l.bad_bits = b; } };
    T v; load(&v, b);
    opt::option<T> o(v); EXPECT(o, "construction");
    opt::option<T> c(o); EXPECT(c, "copy construction");
    c = opt::none; EXPECT_NONE(c, "assigning none");
    c = std::move(o); EXPECT(c, "move assignment");
    opt::option<opt::option<T>> n(c); EXPECT(*n, "nesting"); ++l.evals; if (!n.has_value()) { fail("the outer option reads as empty"); return; }
    ++l.values;
}
template<class T> void full(Local<T>& l, const Bits<T>& b) {
    const auto fail = [&](const char* w) { if (!l.bad) { l.bad = w; l.bad_bits = b; } };
    quick<T>(l, b); if (l.bad) return;
    T v; load(&v, b);
    opt::option<T> o; EXPECT_NONE(o, "default construction");
    o = v; EXPECT(o, "assigning a value to an empty option");
    o = v; EXPECT(o, "assigning a value to a holding option");
    opt::option<T> e; o.swap(e); EXPECT_NONE(o, "swap with an empty option"); EXPECT(e, "swap with an empty option");
    opt::option<T> z{T{}}; 
    { const T t{}; Bits<T> tb; std::memcpy(tb.data(), &t, sizeof t); z.swap(e); EXPECT(z, "swap"); ++l.evals; if (!same<T>(*e, tb)) { fail("swap changed the other value"); return; } z.swap(e); }
    opt::option<T> t = e.take(); EXPECT(t, "take"); EXPECT_NONE(e, "take");
    t.emplace(v); EXPECT(t, "emplace"); t.reset(); EXPECT_NONE(t, "reset"); t.try_emplace(v); EXPECT(t, "try_emplace");
    opt::option<T> ti = t.take_if([](const T&) { return true; }); EXPECT(ti, "take_if"); EXPECT_NONE(t, "take_if"); t |= ti; EXPECT(t, "operator|=");
    { const opt::option<T> k(t); EXPECT(k, "copying to a const option"); const T r = k.value_or(T{}); ++l.evals; if (!same<T>(r, b)) { fail("value_or changed bits"); return; } ++l.evals; if (!same<T>(k.value(), b)) { fail("value() changed bits"); return; } 
      opt::option<const T> kc(v); EXPECT(kc, "option of const"); opt::option<T> f = k.filter([](const T&) { return true; }); EXPECT(f, "filter"); opt::option<T> m = k.map([](const T& x) { return x; }); EXPECT(m, "map"); 
      opt::option<T> w = k | opt::option<T>(); EXPECT(w, "operator|"); opt::option<T> w2 = opt::option<T>() | k; EXPECT(w2, "operator|"); }
    using P = std::pair<T, bool>; using Q = std::tuple<char, T>; using A = std::array<T, 3>;
    opt::option<P> p(P(v, true)); ++l.evals; if (!p.has_value()) { fail("option of a pair with the value reads as empty"); return; } EXPECT(opt::option<T>(p->first), "storage in a pair");
    opt::option<Q> q(Q('c', v)); ++l.evals; if (!q.has_value()) { fail("option of a tuple with the value reads as empty"); return; } ++l.evals; if (!same<T>(std::get<1>(*q), b)) { fail("bits changed in a tuple"); return; }
    opt::option<A> a(A{{v, v, v}}); ++l.evals; if (!a.has_value()) { fail("option of an array of the value reads as empty"); return; } for (const T& x : *a) { ++l.evals; if (!same<T>(x, b)) { fail("bits changed in an array"); return; } }
    auto [u0, u1] = opt::unzip(p); EXPECT(u0, "unzip"); (void)u1;
    opt::option<opt::option<opt::option<T>>> n3; n3.emplace(); (*n3).emplace(v); ++l.evals; if (!n3.has_value() || !n3->has_value()) { fail("nested options read as empty"); return; } EXPECT(**n3, "nesting three deep"); auto fl = opt::flatten(n3); EXPECT(fl, "flatten");
    auto copy3 = n3; EXPECT(**copy3, "copying nested options"); n3->reset(); ++l.evals; if (!n3.has_value() || n3->has_value()) { fail("reset of a nested option"); return; }
}
template<class T> void report(const Local<T>& l, const char* what) {
    mon::State& s = mon::st();
    s.evaluations += l.evals; mon::count("genuine_values_stored", l.values);
    mon::context("type=%s sweep=%s", g_type.c_str(), what);
    if (l.bad) mon::violation("C07-value", "%s value 0x%s: %s", g_type.c_str(), hex<T>(l.bad_bits).c_str(), l.bad);
    if (std::is_floating_point_v<T>) MCHECK(l.flags == 0, "C07-fe-flags", "operations on option<%s> raised floating-point exception flags 0x%x (value 0x%s)", g_type.c_str(), l.flags, hex<T>(l.bad_bits).c_str());
}
#if OPTION_USE_QUIET_NAN
constexpr std::uint32_t f_res = 0xFFC3EFB5u; constexpr std::uint64_t d_res = 0xFFFBF26430BB3557ull;
#else
constexpr std::uint32_t f_res = 0xFFBF69AFu; constexpr std::uint64_t d_res = 0xFFF6C79F55B0898Full;
#endif
template<class T> void flags_off() { if (std::is_floating_point_v<T>) std::feclearexcept(FE_ALL_EXCEPT); }
template<class T> void flags_check(Local<T>& l, const Bits<T>& b) { if (std::is_floating_point_v<T>) { const int f = std::fetestexcept(FE_ALL_EXCEPT); if (f && !l.flags) { l.flags = f; l.bad_bits = b; } } }
template<class T, class U> Bits<T> tobits(U u) { Bits<T> b{}; std::memcpy(b.data(), &u, sizeof u < sizeof(T) ? sizeof u : sizeof(T)); return b; }

// all 2^32 floats (every `stride`-th from `offset`), in parallel
void floats(std::uint64_t stride, std::uint64_t offset) {
    g_type = "float";
    const unsigned n = 8; std::vector<Local<float>> ls(n); std::vector<std::thread> th;
    for (unsigned k = 0; k < n; ++k) th.emplace_back([&, k] {
        Local<float>& l = ls[k]; flags_off<float>();
        const std::uint64_t lo = (std::uint64_t(1) << 32) / n * k, hi = (std::uint64_t(1) << 32) / n * (k + 1);
        std::uint64_t j = 0;
        for (std::uint64_t x = lo + offset; x < hi; x += stride, ++j) {
            if (x >= f_res && x < std::uint64_t(f_res) + 256) continue; // the reserved payloads
            const auto b = tobits<float>(static_cast<std::uint32_t>(x));
            if (stride > 1 && j % 16 == 0) full<float>(l, b); else quick<float>(l, b);
            if ((j & 1023) == 0) flags_check(l, b);
        }
        flags_check(l, tobits<float>(0u));
    });
    for (auto& t : th) t.join();
    for (auto& l : ls) report(l, "all float bit patterns");
    mon::count("float_patterns", ((std::uint64_t(1) << 32) / stride));
    for (unsigned i = 0; i < 65536; ++i) mon::seen(0xF10A70000ull + i); // counted as distinct by the upper 16 bits only
}
template<class U, class T> std::vector<U> special(std::uint64_t res) {
    std::vector<U> v; const int B = sizeof(U) * 8, M = std::numeric_limits<T>::digits - 1;
    const int E = B - 1 - M;
    for (int e = 0; e < (1 << E); ++e) for (int s = 0; s < 2; ++s) { // every exponent, edge mantissas
        const U base = (U(s) << (B - 1)) | (U(e) << M);
        for (U m : {U(0), U(1), U((U(1) << M) - 1), U(U(1) << (M - 1)), U((U(1) << (M - 1)) - 1), U((U(1) << (M - 1)) + 1)}) v.push_back(base | m);
    }
    for (int s = 0; s < 2; ++s) for (int b = 0; b < M; ++b) { const U nan = (U(s) << (B - 1)) | (U((1 << E) - 1) << M); v.push_back(nan | (U(1) << b)); v.push_back(nan | (U(1) << b) | (U(1) << (M - 1))); v.push_back(nan | ~(~U(0) << (b + 1))); }
    for (int d = -5000; d < 5256; ++d) v.push_back(U(res) + U(d));                       // next to the reserved payloads
    for (int d = -300; d < 556; ++d) for (int b = 0; b < B; ++b) v.push_back((U(res) + U(d)) ^ (U(1) << b)); // one bit away
    for (std::uint64_t o : {std::uint64_t(0xF8E1B1825D5D6C67), std::uint64_t(0xFFF6C79F55B0898F), std::uint64_t(0xFFFBF26430BB3557)}) v.push_back(U(o));
    return v;
}
template<class T, class U> void sweep(std::uint64_t res, std::uint64_t random) {
    g_type = sizeof(T) == 4 ? "float" : "double";
    Local<T> l; flags_off<T>();
    const auto reserved = [&](U x) { return x >= U(res) && x < U(res) + 256; };
    const auto sp = special<U, T>(res);
    for (U x : sp) { if (reserved(x)) continue; const auto b = tobits<T>(x); full<T>(l, b); flags_check(l, b); }
    mon::Rng r(mon::st().seed);
    for (std::uint64_t i = 0; i < random; ++i) {
        U x = static_cast<U>(r.next());
        if (i % 4 == 0) x |= U(res) & ~(~U(0) >> (i % 8 ? 12 : 9)); // bias towards NaNs
        if (reserved(x)) continue;
        const auto b = tobits<T>(x); if (i % 16 == 0) full<T>(l, b); else quick<T>(l, b);
        if (i % 64 == 0) flags_check(l, b);
        if (i % 4096 == 0) mon::seen(mon::mix(sizeof(T), x));
    }
    flags_check(l, tobits<T>(U(0)));
    for (U x : sp) mon::seen(mon::mix(sizeof(T) * 3, x));
    report(l, "special and random values");
}
// NaNs produced by the hardware and the library
template<class T> void produced() {
    Local<T> l; volatile T zero = 0, one = 1, inf = std::numeric_limits<T>::infinity(), mx = std::numeric_limits<T>::max();
    std::vector<T> v{zero / zero, -(zero / zero), inf - inf, inf * zero, std::sqrt(-one), std::log(-one), std::fmod(one, zero), std::acos(one + one), T(std::nan("")), T(std::nan("1")), T(-std::nan("12345")), std::copysign(std::numeric_limits<T>::quiet_NaN(), T(-1)),
        std::numeric_limits<T>::quiet_NaN(), std::numeric_limits<T>::signaling_NaN(), -std::numeric_limits<T>::signaling_NaN(), mx, -mx, mx * 2, inf, -inf, std::numeric_limits<T>::min(), std::numeric_limits<T>::denorm_min(), -std::numeric_limits<T>::denorm_min(), T(0), -T(0), std::numeric_limits<T>::epsilon(), std::pow(T(-2), T(0.5)), std::strtof("nan(0x7ff)", nullptr), T(std::strtod("-nan(99)", nullptr))};
    flags_off<T>();
    for (const T& x : v) { Bits<T> b; std::memcpy(b.data(), &x, sizeof x); full<T>(l, b); flags_check(l, b); mon::seen(mon::hash_str(hex<T>(b).c_str())); }
    report(l, "values produced by arithmetic and the library");
}
// ---- scalars given by integers
template<class T, class U, class F> void ints(const char* name, F gen, std::uint64_t n) {
    g_type = name; Local<T> l;
    for (std::uint64_t i = 0; i < n; ++i) { const U u = static_cast<U>(gen(i)); const auto b = tobits<T>(u); if (i % 8 == 0 || n < 70000) full<T>(l, b); else quick<T>(l, b); if (i % 64 == 0 || n < 5000) mon::seen(mon::mix(mon::hash_str(name), static_cast<std::uint64_t>(u))); }
    report(l, "integer patterns");
}
std::uint64_t address(std::uint64_t i) { // every kind of address that can exist
    mon::Rng r(i * 77 + mon::st().seed); const std::uint64_t x = r.next();
    switch (i % 8) {
    case 0: return i / 8;                                   // null and small handles
    case 1: return ~std::uint64_t(0) - i / 8 % 4096;        // MAP_FAILED and error values
    case 2: return x & 0x00007FFFFFFFFFFFull;               // user space
    case 3: return x | 0xFFFF800000000000ull ? (x & 0x00007FFFFFFFFFFFull) | 0xFFFF800000000000ull : 0; // kernel space
    case 4: return x & 0x00FFFFFFFFFFFFFFull;               // five-level paging
    case 5: return (x & 0x00FFFFFFFFFFFFFFull) | 0xFF00000000000000ull;
    case 6: return (x & 0x0000FFFFFFFFFFFFull);
    default: return std::uint64_t(0x00007FFFFFFFFFFFull) - i;
    }
}
// ---- types with resources: value semantics checked with ==
template<class T, class F> void stored(const char* what, F&& mk) {
    mon::context("type=%s value=%s", g_type.c_str(), what);
    const T ref = mk();
#define HAS(o, w) MCHECK((o).has_value() && *(o) == ref, "C07-value", "%s: value '%s' was lost after %s", g_type.c_str(), what, w)
    opt::option<T> o(mk()); HAS(o, "construction");
    opt::option<T> m(std::move(o)); HAS(m, "move construction"); MCHECK(o.has_value(), "C07-moved", "%s: moved-from value '%s' reads as empty", g_type.c_str(), what);
    o = std::move(m); HAS(o, "move assignment"); MCHECK(m.has_value(), "C07-moved", "%s: move-assigned-from value '%s' reads as empty", g_type.c_str(), what);
    o.reset(); MCHECK(!o.has_value(), "C07-value", "%s: not empty after reset", g_type.c_str()); o = mk(); HAS(o, "assignment to an empty option"); o = mk(); HAS(o, "assignment to a holding option");
    T raw = mk(); opt::option<T> from(std::move(raw)); HAS(from, "move construction from a value"); opt::option<T> mf(std::move(raw)); MCHECK(mf.has_value(), "C07-moved", "%s: option of a moved-from '%s' reads as empty", g_type.c_str(), what);
    from.swap(mf); HAS(mf, "swap"); MCHECK(from.has_value(), "C07-value", "%s: swap lost a value", g_type.c_str()); opt::option<T> e; e.swap(mf); HAS(e, "swap with an empty option"); MCHECK(!mf.has_value(), "C07-value", "%s: swap did not empty", g_type.c_str());
    opt::option<opt::option<T>> n(std::move(e)); MCHECK(n.has_value(), "C07-value", "%s: outer option empty", g_type.c_str()); HAS(*n, "nesting"); auto t = n->take(); HAS(t, "take"); MCHECK(n.has_value() && !n->has_value(), "C07-value", "%s: take of a nested option", g_type.c_str());
    opt::option<std::pair<int, T>> p(std::pair<int, T>(1, mk())); MCHECK(p.has_value() && p->second == ref, "C07-value", "%s: '%s' in a pair", g_type.c_str(), what);
    T back = *std::move(t); MCHECK(back == ref, "C07-value", "%s: '%s' taken out differs", g_type.c_str(), what); MCHECK(t.has_value(), "C07-moved", "%s: option emptied by moving the value out of it", g_type.c_str());
    if constexpr (std::is_copy_constructible_v<T>) { opt::option<T> c(ref); HAS(c, "copy from a value"); opt::option<T> d(c); HAS(d, "copy construction"); d = c; HAS(d, "copy assignment"); HAS(c, "being copied"); opt::option<std::array<T, 2>> a(std::array<T, 2>{{ref, ref}}); MCHECK(a.has_value() && (*a)[0] == ref && (*a)[1] == ref, "C07-value", "%s: '%s' in an array", g_type.c_str(), what); }
    ++mon::st().counters["genuine_values_stored"]; mon::seen(g_type + what);
}
template<class S> void strings(const char* name) {
    g_type = name; using C = typename S::value_type;
    for (std::size_t n : {0u, 1u, 2u, 3u, 4u, 6u, 7u, 8u, 14u, 15u, 16u, 17u, 30u, 31u, 32u, 100u, 253u, 254u, 255u, 256u, 257u, 1000u, 65536u}) {
        for (int c : {120, 0, 255}) { const std::string w = "length " + std::to_string(n) + " of " + std::to_string(c);
            stored<S>(w.c_str(), [&] { return S(n, static_cast<C>(c)); });
            stored<S>((w + " reserved").c_str(), [&] { S s; s.reserve(n * 2 + 40); s.assign(n, static_cast<C>(c)); return s; });
            stored<S>((w + " cleared and shrunk").c_str(), [&] { S s(n + 5, static_cast<C>('q')); s.clear(); s.shrink_to_fit(); s.append(n, static_cast<C>(c)); return s; }); }
        stored<S>("moved-from and reassigned", [&] { S s(n, C('a')); S t(std::move(s)); s = S(n, C('b')); return s; });
        stored<S>("moved-from, cleared", [&] { S s(n, C('a')); S t(std::move(s)); s.clear(); return s; });
    }
}
template<class V> void vectors(const char* name, typename V::value_type a) {
    g_type = name;
    for (std::size_t n : {0u, 1u, 2u, 8u, 63u, 64u, 65u, 255u, 256u, 1000u}) {
        stored<V>(("length " + std::to_string(n)).c_str(), [&] { return V(n, a); });
        stored<V>("reserved", [&] { V v; v.reserve(n); return v; });
        stored<V>("cleared", [&] { V v(n, a); v.clear(); return v; });
        stored<V>("shrunk", [&] { V v(n, a); v.clear(); v.shrink_to_fit(); return v; });
        stored<V>("moved-from", [&] { V v(n, a); V w(std::move(v)); return v; });
        stored<V>("swapped", [&] { V v, w(n, a); v.swap(w); return v; });
    }
}
struct HostBig { char pad[3]; int i; char tail[4096]; long long last; };
struct D1 { virtual ~D1() = default; long long q; int x; }; struct D2 { int y; int z[1000]; virtual int f() { return 1; } }; struct D3 : D1, D2 { int w; virtual int g() { return 2; } int h() { return 3; } };
struct D4 : virtual D3 { int f() override { return 4; } };
} // namespace

int main(int argc, char** argv) {
    mon::init(argc, argv);
    const std::uint64_t S = mon::st().scale; (void)S;
#if GROUP == 0
    floats(1, 0);
#elif GROUP == 1
    floats(65537 / (S < 16 ? S : 16), mon::st().seed % 4000); 
    sweep<float, std::uint32_t>(f_res, 20000 * S); produced<float>();
#elif GROUP == 2
    sweep<double, std::uint64_t>(d_res, 40000 * S * 4); produced<double>();
    { g_type = "long double"; Local<long double> l; for (long double x : {0.L, -0.L, 1.L, std::numeric_limits<long double>::infinity(), std::numeric_limits<long double>::quiet_NaN(), -std::numeric_limits<long double>::quiet_NaN(), std::numeric_limits<long double>::denorm_min(), std::numeric_limits<long double>::max()}) { Bits<long double> b{}; std::memcpy(b.data(), &x, 10); full<long double>(l, b); } report(l, "special"); }
#elif GROUP == 3
    const std::uint64_t n = 3000 * S;
    ints<int*, std::uint64_t>("int*", address, n); ints<const char*, std::uint64_t>("const char*", address, n); ints<void*, std::uint64_t>("void*", address, n); ints<void (*)(), std::uint64_t>("void(*)()", address, n); ints<D3*, std::uint64_t>("D3*", address, n); ints<int**, std::uint64_t>("int**", address, n);
    { g_type = "string_view"; for (std::uint64_t i = 0; i < 2000; ++i) { // user-space addresses, and anything below the reserved top
          const auto* p = reinterpret_cast<const char*>(i % 2 ? address(i / 2 * 8 + 2) : i); for (std::size_t len : {std::size_t(0), std::size_t(1), std::size_t(255), std::size_t(-1)}) {
              mon::context("string_view at %p length %zu", (const void*)p, len); opt::option<std::string_view> o(std::in_place, p, len); MCHECK(o.has_value() && o->data() == p && o->size() == len, "C07-value", "string_view at %p length %zu was lost", (const void*)p, len);
              opt::option<opt::option<std::string_view>> q(o); MCHECK(q.has_value() && q->has_value() && (*q)->data() == p, "C07-value", "nested string_view at %p was lost", (const void*)p); o = opt::none; MCHECK(!o.has_value(), "C07-value", "string_view option not empty"); } mon::count("genuine_values_stored"); mon::seen(mon::mix(77, reinterpret_cast<std::uint64_t>(p))); } }
    { g_type = "unique_ptr"; for (std::uint64_t i = 0; i < 3000; ++i) { auto* p = reinterpret_cast<int*>(address(i)); mon::context("unique_ptr %p", (void*)p); opt::option<std::unique_ptr<int>> o(std::unique_ptr<int>{p}); MCHECK(o.has_value() && o->get() == p, "C07-value", "unique_ptr %p was lost", (void*)p);
          opt::option<std::unique_ptr<int>> m(std::move(o)); MCHECK(m.has_value() && m->get() == p, "C07-value", "unique_ptr %p was lost by a move", (void*)p); MCHECK(o.has_value() && *o == nullptr, "C07-moved", "moved-from unique_ptr reads as empty"); opt::option<opt::option<std::unique_ptr<int>>> q(std::move(m)); MCHECK(q.has_value() && q->has_value() && (*q)->get() == p, "C07-value", "nested unique_ptr %p was lost", (void*)p);
          if (q.has_value() && q->has_value()) { (void)(*q)->release(); MCHECK(q->has_value(), "C07-value", "null unique_ptr reads as empty"); } mon::count("genuine_values_stored"); mon::seen(mon::mix(78, address(i))); } }
    { g_type = "references"; for (std::uint64_t i = 0; i < 3000; ++i) { std::uint64_t a = address(i / 4 * 8 + 2 * (i % 4)); if (i % 4 == 0) a = 4096 + i; a &= ~std::uint64_t(7); if (a < 4096) a += 4096; // the first page is never mapped
          int& x = *reinterpret_cast<int*>(a); mon::context("reference to %p", (void*)a); opt::option<int&> o(x); MCHECK(o.has_value() && &*o == &x, "C07-value", "reference to %p was lost", (void*)a); opt::option<opt::option<int&>> q(o); MCHECK(q.has_value() && q->has_value() && &**q == &x, "C07-value", "nested reference to %p was lost", (void*)a);
          opt::option<std::reference_wrapper<int>> w(std::ref(x)); MCHECK(w.has_value() && &w->get() == &x, "C07-value", "reference_wrapper to %p was lost", (void*)a); w.reset(); MCHECK(!w.has_value(), "C07-value", "reference_wrapper not empty"); mon::count("genuine_values_stored"); mon::seen(mon::mix(79, a)); } }
    // addresses the system really hands out
    { g_type = "real addresses"; std::vector<void*> real; int on_stack = 0; real.push_back(&on_stack); real.push_back(&g_ints); real.push_back(reinterpret_cast<void*>(&fn0)); static thread_local int tls; real.push_back(&tls); real.push_back(&errno); real.push_back(stdout);
      std::vector<void*> maps; for (int i = 0; i < 64; ++i) { const std::uint64_t hint = i < 32 ? (std::uint64_t(i + 1) << 41) : 0; void* p = mmap(reinterpret_cast<void*>(hint), 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | (i % 2 && i >= 32 ? MAP_32BIT : 0), -1, 0); if (p != MAP_FAILED) { real.push_back(p); maps.push_back(p); } }
      for (int i = 0; i < 200; ++i) real.push_back(std::malloc(static_cast<std::size_t>(i) * 500));
      for (void* p : real) { opt::option<void*> o(p); MCHECK(o.has_value() && *o == p, "C07-value", "address %p was lost", p); opt::option<char&> r(*static_cast<char*>(p)); MCHECK(r.has_value() && &*r == p, "C07-value", "reference to %p was lost", p); opt::option<std::string_view> s(std::in_place, static_cast<const char*>(p), 1u); MCHECK(s.has_value() && s->data() == p, "C07-value", "view at %p was lost", p); mon::count("genuine_values_stored"); }
      for (int i = 0; i < 200; ++i) std::free(real[real.size() - 200 + static_cast<std::size_t>(i)]); for (void* p : maps) munmap(p, 4096); }
    // pointers to members
    { g_type = "int HostBig::*"; using T = char HostBig::*; Local<T> l; for (int i = 0; i < 100000; ++i) full<T>(l, tobits<T>(static_cast<std::ptrdiff_t>(i < 50000 ? i : (i - 75000) * 8))); for (std::ptrdiff_t x : {std::ptrdiff_t(-1), std::ptrdiff_t(0), std::ptrdiff_t(0x7fffffff), std::ptrdiff_t(0x80000000ll), -std::ptrdiff_t(0x7fffffff) / 2, std::ptrdiff_t(0xFFFFFC17), std::ptrdiff_t(0xD3B2F9B2)}) full<T>(l, tobits<T>(x)); report(l, "member offsets"); }
    { g_type = "member functions"; using F = int (D3::*)(); std::vector<F> v{nullptr, &D3::g, &D3::h, static_cast<F>(&D2::f), &D3::f}; for (F f : v) { stored<F>("member function", [&] { return f; }); } using G = int (D4::*)(); for (G f : {static_cast<G>(nullptr), &D4::f}) stored<G>("virtual-base member function", [&] { return f; });
      using M = int D3::*; for (M m : {static_cast<M>(nullptr), &D3::w, static_cast<M>(&D1::x), static_cast<M>(&D2::y)}) stored<M>("member", [&] { return m; }); using N = int D1::*; for (N m : {static_cast<N>(&D3::w), static_cast<N>(static_cast<M>(&D2::y))}) stored<N>("member of a derived class", [&] { return m; }); using Q = int D2::*; for (Q m : {static_cast<Q>(&D3::w), static_cast<Q>(static_cast<M>(&D1::x))}) stored<Q>("member before the base", [&] { return m; }); }
#elif GROUP == 4
    strings<std::string>("string"); strings<std::wstring>("wstring"); strings<std::u16string>("u16string"); strings<std::u32string>("u32string");
    vectors<std::vector<int>>("vector<int>", 7); vectors<std::vector<bool>>("vector<bool>", true); vectors<std::vector<std::string>>("vector<string>", "a long enough string to be on the heap"); vectors<std::vector<opt::option<int>>>("vector<option<int>>", opt::none);
    { g_type = "unique_ptr"; opt::option<std::unique_ptr<int>> o(nullptr); MCHECK(o.has_value() && *o == nullptr, "C07-value", "null unique_ptr lost"); for (int i = 0; i < 100; ++i) { stored<std::shared_ptr<int>>("shared", [p = std::make_shared<int>(i)] { return p; }); } stored<std::shared_ptr<int>>("null shared", [] { return std::shared_ptr<int>(); }); stored<std::unique_ptr<int[]>>("null array", [] { return std::unique_ptr<int[]>(); }); stored<std::unique_ptr<Poly>>("null poly", [] { return std::unique_ptr<Poly>(); }); }
    { g_type = "containers"; stored<std::map<int, int>>("map", [] { return std::map<int, int>{{1, 2}}; }); stored<std::map<int, int>>("empty map", [] { return std::map<int, int>(); }); stored<std::list<int>>("list", [] { return std::list<int>{1}; }); stored<std::deque<int>>("deque", [] { return std::deque<int>(); }); stored<std::variant<int, std::string>>("variant", [] { return std::variant<int, std::string>("x"); }); stored<std::pair<std::string, std::vector<int>>>("pair of empties", [] { return std::pair<std::string, std::vector<int>>(); }); stored<std::tuple<std::unique_ptr<int>, std::string>>("tuple of empties", [] { return std::tuple<std::unique_ptr<int>, std::string>(); });
      stored<std::array<std::string, 2>>("array of empties", [] { return std::array<std::string, 2>(); }); stored<std::string_view>("empty view", [] { return std::string_view(); }); stored<std::string_view>("view of literal", [] { return std::string_view("abc"); }); stored<std::function<void()>*>("pointer to function object", [] { return static_cast<std::function<void()>*>(nullptr); }); stored<std::complex<float>>("complex", [] { return std::complex<float>(-0.f, 1.f); }); }
#elif GROUP == 5
    ints<bool, unsigned char>("bool", [](std::uint64_t i) { return i % 2; }, 2); ints<char, unsigned char>("char", [](std::uint64_t i) { return i; }, 256); ints<unsigned char, unsigned char>("unsigned char", [](std::uint64_t i) { return i; }, 256); ints<signed char, unsigned char>("signed char", [](std::uint64_t i) { return i; }, 256);
    ints<short, std::uint16_t>("short", [](std::uint64_t i) { return i; }, 65536); ints<char16_t, std::uint16_t>("char16_t", [](std::uint64_t i) { return i; }, 65536); ints<wchar_t, std::uint32_t>("wchar_t", [](std::uint64_t i) { return i * 2654435761u; }, 10000 * S);
    ints<int, std::uint32_t>("int", [](std::uint64_t i) { return i * 2654435761u; }, 20000 * S); ints<unsigned, std::uint32_t>("unsigned", [](std::uint64_t i) { return ~std::uint32_t(0) - i; }, 10000 * S); ints<long long, std::uint64_t>("long long", [](std::uint64_t i) { return mon::Rng(i).next(); }, 20000 * S);
    ints<EPlain, std::uint32_t>("enum int", [](std::uint64_t i) { return i * 2654435761u; }, 10000 * S); ints<EU8, unsigned char>("enum uint8 reflected", [](std::uint64_t i) { return i; }, 16); ints<EU16, std::uint16_t>("enum uint16 reflected", [](std::uint64_t i) { return i < 32 ? i : i + 992; }, 32 + 65536 - 1024);
    ints<ESent, std::uint32_t>("enum SENTINEL", [](std::uint64_t i) { const std::uint32_t x = static_cast<std::uint32_t>(i * 2654435761u); return x == 0xFFFFFFFFu ? 0u : x; }, 20000 * S); ints<EStart, unsigned char>("enum SENTINEL_START", [](std::uint64_t i) { return i; }, 60); ints<EStartEnd, unsigned char>("enum SENTINEL_START..END", [](std::uint64_t i) { return (i >= 156 && i <= 158) ? 0 : i; }, 256);
    ints<std::nullptr_t, std::uint64_t>("nullptr_t", [](std::uint64_t) { return 0; }, 1);
#endif
    return mon::finish();
}
