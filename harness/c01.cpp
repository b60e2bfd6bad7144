// C01: random operation histories against a nullable model, for element types of group GROUP.
#ifndef GROUP
#define GROUP 0
#endif
#include "engine.hpp"
#if GROUP == 10
// options of const element types: everything but assignment to a holding option
namespace {
using namespace ty;
template<class T> void const_histories(std::uint64_t histories, std::uint64_t steps) {
    using A = Ad<T>; using O = opt::option<const T>; constexpr int NS = 4;
    static_assert(std::is_same_v<decltype(*std::declval<O&>()), const T&> && std::is_same_v<typename O::value_type, const T>, "");
    for (std::uint64_t h = 0; h < histories; ++h) {
        mon::Rng r(mon::mix(mon::st().seed, h * 977 + mon::hash_str(A::name)));
        O slot[NS]; int m[NS] = {-1, -1, -1, -1}; // -1: empty
        for (std::uint64_t k = 0; k < steps; ++k) {
            const std::size_t i = r.below(NS), j = r.below(NS); const int id = static_cast<int>(r.below(static_cast<std::uint64_t>(A::N))); O& a = slot[i]; const unsigned op = static_cast<unsigned>(r.below(18));
            mon::context("option<const %s> history %llu step %llu op %u", A::name, (unsigned long long)h, (unsigned long long)k, op);
            bool ret = true;
            switch (op) {
            case 0: { const T& x = a.emplace(A::make(id)); m[i] = id; ret = &x == a.ptr_or_null(); break; }
            case 1: { const T& x = a.try_emplace(A::make(id)); if (m[i] < 0) m[i] = id; ret = &x == a.ptr_or_null() && A::id(x) == m[i]; break; }
            case 2: a.reset(); m[i] = -1; break;
            case 3: a = opt::none; m[i] = -1; break;
            case 4: if constexpr (std::is_copy_constructible_v<T>) { O t(a); ret = t.has_value() == (m[i] >= 0) && (m[i] < 0 || A::id(*t) == m[i]); O u(std::move(t)); ret = ret && u.has_value() == (m[i] >= 0) && (m[i] < 0 || A::id(*u) == m[i]); break; } break;
            case 5: if constexpr (std::is_copy_constructible_v<T>) { O t = a.take(); ret = t.has_value() == (m[i] >= 0) && (m[i] < 0 || A::id(*t) == m[i]); m[i] = -1; break; } break;
            case 6: if constexpr (std::is_copy_constructible_v<T>) { const bool yes = (r.below(2) == 1); int calls = 0; O t = a.take_if([&](const T& x) { ++calls; (void)x; return yes; }); const bool was = m[i] >= 0; ret = calls == int(was) && t.has_value() == (was && yes) && (!t.has_value() || A::id(*t) == m[i]); if (was && yes) m[i] = -1; break; } break;
            case 7: { const O& c = a; ret = (c.has_value() ? A::id(c.get()) : -1) == m[i] && bool(c) == (m[i] >= 0) && (c == opt::none) == (m[i] < 0); break; }
            case 8: if constexpr (std::is_copy_constructible_v<T>) { const T d = A::make(id); const T x = a.value_or(d); ret = A::id(x) == (m[i] >= 0 ? m[i] : id); if constexpr (!opt::is_option_v<T>) { const T y = a | d; ret = ret && A::id(y) == A::id(x); } break; } break;
            case 9: { int n = 0; for (const T& x : a) { ++n; ret = ret && A::id(x) == m[i]; } ret = ret && n == int(m[i] >= 0); break; }
            case 10: if constexpr (std::is_copy_constructible_v<T>) { O t = slot[i] | slot[j]; const int w = m[i] >= 0 ? m[i] : m[j]; ret = t.has_value() == (w >= 0) && (w < 0 || A::id(*t) == w); O x = slot[i] ^ slot[j]; const int v = (m[i] >= 0) != (m[j] >= 0) ? w : -1; ret = ret && x.has_value() == (v >= 0) && (v < 0 || A::id(*x) == v); O y = slot[i] & slot[j]; ret = ret && y.has_value() == (m[i] >= 0 && m[j] >= 0) && (!y.has_value() || A::id(*y) == m[j]); break; } break;
            case 11: { auto t = a.map([](const T& x) { return A::id(x); }); ret = t.has_value() == (m[i] >= 0) && (m[i] < 0 || *t == m[i]); break; }
            case 12: { opt::option<const T&> t = opt::from_nullable(a.ptr_or_null()); ret = t.has_value() == (m[i] >= 0) && t.ptr_or_null() == a.ptr_or_null(); break; }
            case 13: if constexpr (std::is_copy_constructible_v<T> && !opt::is_option_v<T>) { opt::option<T> t(a); ret = t.has_value() == (m[i] >= 0) && (m[i] < 0 || A::id(*t) == m[i]); O u(t); ret = ret && u.has_value() == t.has_value() && (m[i] < 0 || A::id(*u) == m[i]); break; } break;
            case 14: if constexpr (std::is_copy_constructible_v<T>) { const T keep = A::make(id); a.reset(); new (&a) O(keep); m[i] = id; break; } break; // storage reuse
            case 15: { opt::option<O> n; ret = !n.has_value(); n.emplace(); ret = ret && n.has_value() && !n->has_value(); n->emplace(A::make(id)); ret = ret && n.has_value() && n->has_value() && A::id(**n) == id; n->reset(); ret = ret && n.has_value() && !n->has_value(); n.reset(); ret = ret && !n.has_value(); break; }
            case 16: if constexpr (std::is_copy_constructible_v<T>) { int calls = 0; O t = a.or_else([&]() -> O { ++calls; return O(A::make(id)); }); ret = calls == int(m[i] < 0) && t.has_value() && A::id(*t) == (m[i] < 0 ? id : m[i]); O f = a.filter([&](const T& x) { return A::id(x) % 2 == 0; }); ret = ret && f.has_value() == (m[i] >= 0 && m[i] % 2 == 0) && (!f.has_value() || A::id(*f) == m[i]); break; } break;
            default: { bool threw = false; try { ret = A::id(a.value_or_throw()) == m[i]; } catch (const opt::bad_access&) { threw = true; } ret = ret && threw == (m[i] < 0); break; }
            }
            MCHECK(ret, "C01-const-result", "option<const %s>: operation %u returned something else than the model", A::name, op);
            for (std::size_t q = 0; q < NS; ++q) {
                MCHECK(slot[q].has_value() == (m[q] >= 0), "C01-const-state", "option<const %s>: after operation %u on slot %zu, slot %zu has_value is %d", A::name, op, i, q, int(slot[q].has_value()));
                if (m[q] >= 0 && slot[q].has_value()) MCHECK(A::id(*slot[q]) == m[q], "C01-const-value", "option<const %s>: after operation %u on slot %zu, slot %zu holds another value", A::name, op, i, q);
            }
            mon::seen(mon::mix(mon::hash_str(A::name), op * 64 + unsigned(m[i] >= 0) * 2 + unsigned(m[j] >= 0)));
            mon::count("const_steps");
        }
    }
}
}
#endif
#define RUN(...) eng::run_type<__VA_ARGS__>("C01", H, S);
int main(int argc, char** argv) {
    mon::init(argc, argv);
    const std::uint64_t H = 30 * mon::st().scale, S = 120;
    using namespace ty;
#if GROUP == 0
    RUN(int) RUN(bool) RUN(float) RUN(double) RUN(char) RUN(short) RUN(long long) RUN(int*) RUN(const int*)
    RUN(EPlain) RUN(EU8) RUN(EU16) RUN(ESent) RUN(EStart) RUN(EStartEnd) RUN(MemPtr) RUN(MemFn) RUN(FnPtr)
#elif GROUP == 1
    RUN(std::string) RUN(std::u16string) RUN(std::string_view) RUN(std::vector<int>) RUN(std::vector<bool>) RUN(std::vector<std::string>)
    RUN(std::unique_ptr<int>) RUN(std::shared_ptr<int>) RUN(std::reference_wrapper<int>) RUN(std::variant<int, std::string>) RUN(std::map<int, int>)
#elif GROUP == 2
    RUN(std::pair<int, std::string>) RUN(std::pair<bool, int>) RUN(std::pair<std::string, std::unique_ptr<int>>) RUN(std::tuple<int, double, std::string>)
    RUN(std::tuple<int, short>) RUN(std::array<float, 3>) RUN(std::array<std::string, 2>) RUN(std::complex<float>) RUN(std::complex<double>)
    RUN(std::tuple<int, std::unique_ptr<int>>) RUN(std::pair<int*, bool>)
#elif GROUP == 3
    RUN(Agg) RUN(AggB) RUN(Pad) RUN(PadS) RUN(Poly) RUN(PolyT) RUN(SentV) RUN(Sent3) RUN(SentF) RUN(Memb) RUN(Enf) RUN(TupLike) RUN(Empty) RUN(Over) RUN(AddrOf)
#elif GROUP == 4
    RUN(opt::option<int>) RUN(opt::option<bool>) RUN(opt::option<opt::option<std::string>>) RUN(opt::option<ESent>) RUN(opt::option<opt::option<EStartEnd>>)
    RUN(std::pair<opt::option<int>, bool>) RUN(std::tuple<opt::option<float>, std::string>) RUN(opt::option<std::unique_ptr<int>>) RUN(opt::option<std::pair<int, opt::option<bool>>>)
    RUN(opt::option<Prof111111>) RUN(opt::option<Prof111110>) RUN(opt::option<Prof101001>)
#elif GROUP == 5
    TY_EACH_M(RUN, 0, 0)
#elif GROUP == 6
    TY_EACH_M(RUN, 0, 1)
#elif GROUP == 7
    TY_EACH_M(RUN, 1, 0)
#elif GROUP == 8
    TY_EACH_M(RUN, 1, 1)
#elif GROUP == 9
    RUN(Big) RUN(BigN) RUN(OwnNew) RUN(Greedy) RUN(long double) RUN(std::nullptr_t) RUN(__int128) RUN(std::tuple<int, short, bool, char, float, std::string>) RUN(std::array<std::string, 9>)
    RUN(std::pair<Big, std::pair<bool, BigN>>) RUN(opt::option<Big>) RUN(opt::option<opt::option<BigN>>) RUN(std::tuple<opt::option<Big>, OwnNew>)
#elif GROUP == 10
#define KR(...) const_histories<__VA_ARGS__>(H, S);
    KR(int) KR(bool) KR(double) KR(int*) KR(ESent) KR(EU8) KR(std::string) KR(std::vector<int>) KR(std::unique_ptr<int>) KR(std::string_view) KR(std::pair<int, std::string>) KR(std::tuple<int, double, std::string>) KR(std::array<float, 3>)
    KR(Agg) KR(AggB) KR(Pad) KR(PadS) KR(Poly) KR(PolyT) KR(SentV) KR(Sent3) KR(Memb) KR(Empty) KR(Over) KR(Big) KR(BigN) KR(OwnNew) KR(Greedy) KR(opt::option<int>) KR(opt::option<bool>)
#endif
    return mon::finish();
}
