// C14: memory confinement and independence from indeterminate bytes.
#ifndef GROUP
#define GROUP 0
#endif
#ifdef VG
#include <valgrind/memcheck.h>
#define ENG_UNDEFINED(p, n) (void)VALGRIND_MAKE_MEM_UNDEFINED(p, n)
#endif
#include "engine.hpp"
using ty::Ad;

// The same operations over storage with different previous contents must be observed to do the same.
template<class T> void run_type(std::uint64_t histories, std::uint64_t steps) {
    for (std::uint64_t h = 0; h < histories; ++h) {
        const std::uint64_t seed = mon::mix(mon::st().seed, mon::mix(mon::hash_str(Ad<T>::name), h));
        const int layout = static_cast<int>(h % 3);
#ifdef VG
        eng::History<T> x(seed, "C14", layout, 5);
        for (std::uint64_t s = 0; s < steps; ++s) if (!x.step()) break;
        mon::count("steps", steps);
#else
        constexpr int F = 5;
        std::unique_ptr<eng::History<T>> run[F];
        for (int f = 0; f < F; ++f) run[f] = std::make_unique<eng::History<T>>(seed, "C14", layout, f);
        for (std::uint64_t s = 0; s < steps; ++s) {
            bool ok = true;
            for (int f = 0; f < F; ++f) ok = run[f]->step() && ok;
            for (int f = 1; f < F; ++f) {
                MCHECK(run[f]->trace == run[0]->trace, std::string("C14-garbage/") + Ad<T>::name, "storage filled with pattern %d and with zeros: the same operations are observed to differ at step %llu", f, (unsigned long long)s);
                ok = ok && run[f]->trace == run[0]->trace;
            }
            mon::count("steps", F);
            if (!ok) break;
        }
        mon::digest(run[0]->trace);
#endif
    }
    mon::count("types"); mon::count("histories", histories);
}

// Members placed in the tail padding of an option (as a base class or a [[no_unique_address]] member) belong to someone else.
template<class T> struct Derived : opt::option<T> { unsigned char tail[3]; using opt::option<T>::option; using opt::option<T>::operator=; };
template<class T> struct NUA { [[no_unique_address]] opt::option<T> o; unsigned char tail[3]; };
template<class D, class T> void tail_ops(D& d, opt::option<T>& o, const char* kind) {
    using A = Ad<T>; mon::Rng r(mon::mix(mon::st().seed, mon::hash_str(A::name)));
    auto fill = [&] { for (int i = 0; i < 3; ++i) d.tail[i] = static_cast<unsigned char>(0xC0 + i + r.below(8) * 8); };
    const std::uint64_t n = 400 * mon::st().scale;
    bool has = false; int id = 0; fill();
    for (std::uint64_t k = 0; k < n; ++k) {
        unsigned char before[3]; fill(); std::memcpy(before, d.tail, 3);
        const int i = static_cast<int>(r.below(A::N)); const char* what = "?"; const bool h = r.chance(1, 2);
        opt::option<T> other; if (h) other.emplace(A::make(i));
        switch (r.below(16)) {
        case 0: what = "reset"; o.reset(); has = false; break;
        case 1: what = "= none"; o = opt::none; has = false; break;
        case 2: what = "emplace"; A::emplace(o, i); has = true; id = i; break;
        case 3: what = "try_emplace"; if (!has) { has = true; id = i; } A::try_emplace(o, i); break;
        case 4: what = "= value"; if constexpr (std::is_move_assignable_v<T>) { o = A::make(i); has = true; id = i; } break;
        case 5: what = "= const value"; if constexpr (A::copyable && std::is_copy_assignable_v<T>) { const T v = A::make(i); o = v; has = true; id = i; } break;
        case 6: what = "= option&&"; if constexpr (std::is_move_assignable_v<T>) { o = std::move(other); has = h; id = i; } break;
        case 7: what = "= const option&"; if constexpr (A::copyable && std::is_copy_assignable_v<T>) { o = static_cast<const opt::option<T>&>(other); has = h; id = i; } break;
        case 8: what = "take"; { auto t = o.take(); has = false; (void)t; } break;
        case 9: what = "take_if"; { auto t = o.take_if([&](const T&) { return h; }); if (h) has = false; } break;
        case 10: what = "swap"; o.swap(other); std::swap(has, const_cast<bool&>(h)); id = has ? i : id; break;
        case 11: what = "opt::swap"; opt::swap(o, other); std::swap(has, const_cast<bool&>(h)); id = has ? i : id; break;
        case 12: what = "opt::swap as second"; opt::swap(other, o); std::swap(has, const_cast<bool&>(h)); id = has ? i : id; break;
        case 13: what = "|="; if constexpr (std::is_move_assignable_v<T>) { o |= std::move(other); if (!has && h) { has = true; id = i; } } break;
        case 14: what = "std::swap"; if constexpr (std::is_move_assignable_v<T>) { std::swap(o, other); std::swap(has, const_cast<bool&>(h)); id = has ? i : id; } break;
        case 15: what = "move out"; { opt::option<T> t(std::move(o)); o.reset(); has = false; } break;
        }
        mon::context("%s %s: %s", kind, A::name, what);
        MCHECK(std::memcmp(before, d.tail, 3) == 0, std::string("C14-tail/") + A::name, "%s changed a member in the tail padding of the option (%s)", what, kind);
        MCHECK(o.has_value() == has && (!has || A::id(*o) == id), std::string("C14-tail-value/") + A::name, "after %s on an option with neighbours in its tail padding: wrong state", what);
        fill();
        MCHECK(o.has_value() == has && (!has || A::id(*o) == id), std::string("C14-tail-value/") + A::name, "writing a member in the tail padding of an option changed the option (%s)", kind);
        mon::seen(mon::mix(mon::hash_str(A::name), mon::mix(mon::hash_str(what), has * 64 + (has ? id : 0))));
    }
}
template<class T> void tail() {
    if (sizeof(Derived<T>) == sizeof(opt::option<T>)) mon::count("options whose tail padding holds a derived member");
    if (sizeof(NUA<T>) == sizeof(opt::option<T>)) mon::count("options whose tail padding holds a neighbour member");
    { Derived<T> d; tail_ops(d, static_cast<opt::option<T>&>(d), "base class"); }
    { NUA<T> d; tail_ops(d, d.o, "no_unique_address member"); }
    { auto d = std::make_unique<Derived<T>>(); tail_ops(*d, static_cast<opt::option<T>&>(*d), "base class on the heap"); }
    mon::count("types");
}
struct NonPod { int a; short b; NonPod(int x) : a(x), b(static_cast<short>(x + 1)) {} NonPod(const NonPod&) = default; NonPod& operator=(const NonPod&) = default; ~NonPod() {} };
struct NonPodB { double a; bool b; NonPodB(int x) : a(x), b(x & 1) {} };
struct alignas(16) Al { int v; char c; Al(int x) : v(x), c(static_cast<char>(x)) {} };
namespace ty {
template<class T> struct AdPlain : AdBase<T> { static T make(int id) { return T(id); } };
template<> struct Ad<NonPod> : AdPlain<NonPod> { static constexpr const char* name = "non-POD with tail padding"; static int id(const NonPod& v) { return v.b == v.a + 1 ? v.a : UNKNOWN; } };
template<> struct Ad<NonPodB> : AdPlain<NonPodB> { static constexpr const char* name = "double+bool with constructor"; static int id(const NonPodB& v) { return v.b == (int(v.a) & 1) ? int(v.a) : UNKNOWN; } };
template<> struct Ad<Al> : AdPlain<Al> { static constexpr const char* name = "alignas(16)"; static int id(const Al& v) { return v.c == v.v ? v.v : UNKNOWN; } };
}

#define RUN(...) run_type<__VA_ARGS__>(H, S);
int main(int argc, char** argv) {
    mon::init(argc, argv);
    using namespace ty;
#ifdef VG
    const std::uint64_t H = 3 * mon::st().scale, S = 60;
#else
    const std::uint64_t H = 6 * mon::st().scale, S = 100;
#endif
    (void)H; (void)S;
#if GROUP == 0
    RUN(int) RUN(bool) RUN(float) RUN(double) RUN(char) RUN(short) RUN(long long) RUN(int*) RUN(const int*)
    RUN(EPlain) RUN(EU8) RUN(EU16) RUN(ESent) RUN(EStart) RUN(EStartEnd) RUN(MemPtr) RUN(MemFn) RUN(FnPtr) RUN(NonPod) RUN(NonPodB) RUN(Al)
#elif GROUP == 1
    RUN(std::string) RUN(std::u16string) RUN(std::string_view) RUN(std::vector<int>) RUN(std::vector<bool>) RUN(std::vector<std::string>)
    RUN(std::unique_ptr<int>) RUN(std::shared_ptr<int>) RUN(std::reference_wrapper<int>) RUN(std::variant<int, std::string>) RUN(std::map<int, int>)
#elif GROUP == 2
    RUN(std::pair<int, std::string>) RUN(std::pair<bool, int>) RUN(std::pair<std::string, std::unique_ptr<int>>) RUN(std::tuple<int, double, std::string>)
    RUN(std::tuple<int, short>) RUN(std::array<float, 3>) RUN(std::array<std::string, 2>) RUN(std::complex<float>) RUN(std::complex<double>)
    RUN(std::tuple<int, std::unique_ptr<int>>) RUN(std::pair<int*, bool>)
#elif GROUP == 3
    RUN(Agg) RUN(AggB) RUN(Pad) RUN(PadS) RUN(Poly) RUN(PolyT) RUN(SentV) RUN(Sent3) RUN(SentF) RUN(Memb) RUN(Enf) RUN(TupLike) RUN(Empty) RUN(Over) RUN(AddrOf)
#elif GROUP == 4
    RUN(opt::option<int>) RUN(opt::option<bool>) RUN(opt::option<opt::option<std::string>>) RUN(opt::option<ESent>) RUN(opt::option<opt::option<EStartEnd>>)
    RUN(std::pair<opt::option<int>, bool>) RUN(std::tuple<opt::option<float>, std::string>) RUN(opt::option<std::unique_ptr<int>>) RUN(opt::option<std::pair<int, opt::option<bool>>>)
    RUN(opt::option<Prof111111>) RUN(opt::option<Prof111110>) RUN(opt::option<Prof101001>)
#elif GROUP == 5
    RUN(Prof000000) RUN(Prof000001) RUN(Prof000010) RUN(Prof000011) RUN(Prof010000) RUN(Prof100011) RUN(Prof111100) RUN(Prof111101) RUN(Prof111110) RUN(Prof111111) RUN(Prof001010) RUN(Prof110011)
#elif GROUP == 6
    tail<int>(); tail<short>(); tail<long long>(); tail<char>(); tail<bool>(); tail<double>(); tail<EPlain>(); tail<NonPod>(); tail<NonPodB>(); tail<Al>(); tail<Over>(); tail<Agg>(); tail<AggB>(); tail<Pad>(); tail<PadS>();
    tail<std::string>(); tail<std::string_view>(); tail<std::vector<int>>(); tail<std::unique_ptr<int>>(); tail<std::map<int, int>>(); tail<std::tuple<int, short>>(); tail<std::pair<bool, int>>(); tail<std::variant<int, std::string>>();
    tail<std::complex<float>>(); tail<std::array<float, 3>>(); tail<Poly>(); tail<PolyT>(); tail<Memb>(); tail<SentV>(); tail<Enf>(); tail<TupLike>(); tail<AddrOf>(); tail<Empty>();
    tail<Prof111111>(); tail<Prof000000>(); tail<Prof111110>(); tail<Prof000001>(); tail<Prof101010>();
#endif
    return mon::finish();
}
