// C14 under MemorySanitizer: the storage is poisoned before every construction; a branch on a poisoned byte, or a poisoned byte in a
// result, stops the program. Uses nothing of the (uninstrumented) C++ library at run time.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <array>
#include <complex>
#include <memory>
#include <string_view>
#include <tuple>
#include <utility>
#include <opt/option.hpp>
#include <sanitizer/msan_interface.h>
extern "C" void __sanitizer_set_death_callback(void (*)(void));
static unsigned long long evals, viols, distinct, steps, seed = 1, scale = 1;
static bool sn[64][20][4]; static int g_tn, g_opn;
static const char* g_type = ""; static const char* g_op = ""; static int g_state = 0;
static void death() { std::fprintf(stderr, "\n@CONTEXT %s: %s (state %d)\n", g_type, g_op, g_state); std::fflush(stderr); }
static std::uint64_t rs; static std::uint64_t rnd() { std::uint64_t z = (rs += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static void ck(bool ok, const char* what) { ++evals; if (!ok) { ++viols; if (viols < 20) std::printf("@V C14-msan-value/%s | after %s: %s | context: %s\n", g_type, g_op, what, g_type); } }

template<class T> struct Mk { static T make(int i) { return static_cast<T>(i); } static bool is(const T& v, int i) { return v == make(i); } static constexpr int N = 40; };
template<> struct Mk<bool> { static bool make(int i) { return i & 1; } static bool is(bool v, int i) { return v == (i & 1); } static constexpr int N = 2; };
template<class T> struct Mk<T*> { static T buf[64]; static T* make(int i) { return i ? buf + i : nullptr; } static bool is(T* const& p, int i) { return p == make(i); } static constexpr int N = 40; };
template<class T> T Mk<T*>::buf[64];
template<> struct Mk<std::complex<float>> { using T = std::complex<float>; static T make(int i) { return T(float(i), float(-i)); } static bool is(const T& v, int i) { return v.real() == i && v.imag() == -i; } static constexpr int N = 40; };
template<> struct Mk<std::complex<double>> { using T = std::complex<double>; static T make(int i) { return T(i, -i); } static bool is(const T& v, int i) { return v.real() == i && v.imag() == -i; } static constexpr int N = 40; };
template<class A, class B> struct Mk<std::pair<A, B>> { using T = std::pair<A, B>; static T make(int i) { return T(Mk<A>::make(i), Mk<B>::make(i)); } static bool is(const T& v, int i) { return Mk<A>::is(v.first, i) && Mk<B>::is(v.second, i); } static constexpr int N = 2; };
template<class A, class B, class C> struct Mk<std::tuple<A, B, C>> { using T = std::tuple<A, B, C>; static T make(int i) { return T(Mk<A>::make(i), Mk<B>::make(i), Mk<C>::make(i)); } static bool is(const T& v, int i) { return Mk<A>::is(std::get<0>(v), i) && Mk<B>::is(std::get<1>(v), i) && Mk<C>::is(std::get<2>(v), i); } static constexpr int N = 2; };
template<class A, std::size_t M> struct Mk<std::array<A, M>> { using T = std::array<A, M>; static T make(int i) { T r{}; for (auto& x : r) x = Mk<A>::make(i); return r; } static bool is(const T& v, int i) { for (auto& x : v) if (!Mk<A>::is(x, i)) return false; return true; } static constexpr int N = Mk<A>::N; };
template<> struct Mk<std::string_view> { using T = std::string_view; static T make(int i) { return T("0123456789012345678901234567890123456789", std::size_t(i)); } static bool is(const T& v, int i) { return v.size() == std::size_t(i); } static constexpr int N = 40; };
template<> struct Mk<std::unique_ptr<int>> { using T = std::unique_ptr<int>; static T make(int i) { return i ? T(new int(i)) : T(); } static bool is(const T& v, int i) { return i ? v && *v == i : !v; } static constexpr int N = 40; };
template<class A> struct Mk<opt::option<A>> { using T = opt::option<A>; static T make(int i) { return i ? T(Mk<A>::make(i - 1)) : T(); } static bool is(const T& v, int i) { return v.has_value() == (i != 0) && (!i || Mk<A>::is(*v, i - 1)); } static constexpr int N = Mk<A>::N + 1; };
enum class ES : int { a, SENTINEL = -1 }; enum class EB : unsigned char { a, b, c }; enum class EI : long {};
template<> struct Mk<EB> { using T = EB; static T make(int i) { return T(i); } static bool is(const T& v, int i) { return int(v) == i; } static constexpr int N = 3; };
struct Flag { int v; char c; }; struct Padd { long a; char b; }; struct Emp {}; struct alignas(32) Over { int v; };
template<> struct Mk<Flag> { using T = Flag; static T make(int i) { T t; t.v = i; t.c = char(i); return t; } static bool is(const T& v, int i) { return v.v == i && v.c == i; } static constexpr int N = 40; };
template<> struct Mk<Padd> { using T = Padd; static T make(int i) { T t; t.a = i; t.b = char(i); return t; } static bool is(const T& v, int i) { return v.a == i && v.b == i; } static constexpr int N = 40; };
template<> struct Mk<Emp> { static Emp make(int) { return {}; } static bool is(const Emp&, int) { return true; } static constexpr int N = 1; };
template<> struct Mk<Over> { static Over make(int i) { return {i}; } static bool is(const Over& o, int i) { return o.v == i; } static constexpr int N = 40; };
struct Ag { int v; bool b; std::string_view s; };
template<> struct Mk<Ag> { static Ag make(int i) { return {i, true, {}}; } static bool is(const Ag& o, int i) { return o.v == i && o.b && o.s.empty(); } static constexpr int N = 40; };
struct Vir { int v, w; Vir(int x) : v(x) { w = x; } virtual int f() const { return v; } virtual ~Vir() = default; };
template<> struct Mk<Vir> { static Vir make(int i) { return Vir(i); } static bool is(const Vir& o, int i) { return o.f() == i && o.w == i; } static constexpr int N = 40; };
struct NT { int v; int unset; NT(int x) : v(x) {} NT(const NT& o) : v(o.v) {} NT& operator=(const NT& o) { v = o.v; return *this; } ~NT() { v = -1; } }; // a member that is never initialised
template<> struct Mk<NT> { static NT make(int i) { return NT(i); } static bool is(const NT& o, int i) { return o.v == i; } static constexpr int N = 40; };
struct NTT { int v; bool unset; NTT(int x) : v(x) {} }; // trivially copyable, a member never initialised
template<> struct Mk<NTT> { static NTT make(int i) { return NTT(i); } static bool is(const NTT& o, int i) { return o.v == i; } static constexpr int N = 40; };
template<class T> constexpr T snt(int i) { return T(i); }
using Sen = opt::option<int>;

template<class T> void run(const char* name) {
    using O = opt::option<T>; g_type = name; ++g_tn; constexpr int K = 3;
    for (unsigned long long h = 0; h < 20 * scale; ++h) {
        struct alignas(O) S { unsigned char b[sizeof(O)]; } raw[K]; bool has[K]; int id[K];
        for (int i = 0; i < K; ++i) { __msan_allocated_memory(raw[i].b, sizeof(O)); ::new (static_cast<void*>(raw[i].b)) O(); has[i] = false; id[i] = 0; }
        auto o = [&](int i) -> O& { return *std::launder(reinterpret_cast<O*>(raw[i].b)); };
        auto fresh = [&](int i) { o(i).~O(); __msan_allocated_memory(raw[i].b, sizeof(O)); return static_cast<void*>(raw[i].b); };
        for (int s = 0; s < 100; ++s) {
            const int a = int(rnd() % K), b = int(rnd() % K), i = int(rnd() % Mk<T>::N); const bool y = rnd() & 1; g_state = has[a] * 2 + has[b];
            constexpr bool cp = std::is_copy_constructible_v<T>;
            auto swp = [&] { std::swap(has[a], has[b]); std::swap(id[a], id[b]); };
            switch (g_opn = int(rnd() % 19)) {
            case 0: g_op = "default construction"; ::new (fresh(a)) O(); has[a] = false; break;
            case 1: g_op = "construction from a value"; ::new (fresh(a)) O(Mk<T>::make(i)); has[a] = true; id[a] = i; break;
            case 2: g_op = "in-place construction"; ::new (fresh(a)) O(std::in_place, Mk<T>::make(i)); has[a] = true; id[a] = i; break;
            case 3: g_op = "copy construction"; if constexpr (cp) if (a != b) { ::new (fresh(a)) O(static_cast<const O&>(o(b))); has[a] = has[b]; id[a] = id[b]; } break;
            case 4: g_op = "move construction"; if (a != b) { ::new (fresh(a)) O(std::move(o(b))); has[a] = has[b]; id[a] = id[b]; o(b).reset(); has[b] = false; } break;
            case 5: g_op = "= value"; o(a) = Mk<T>::make(i); has[a] = true; id[a] = i; break;
            case 6: g_op = "= option"; if constexpr (cp) { o(a) = static_cast<const O&>(o(b)); has[a] = has[b]; id[a] = id[b]; } break;
            case 7: g_op = "= option&&"; if (a != b) { o(a) = std::move(o(b)); has[a] = has[b]; id[a] = id[b]; o(b) = opt::none; has[b] = false; } break;
            case 8: g_op = "= none"; o(a) = opt::none; has[a] = false; break;
            case 9: g_op = "reset"; o(a).reset(); has[a] = false; break;
            case 10: g_op = "emplace"; o(a).emplace(Mk<T>::make(i)); has[a] = true; id[a] = i; break;
            case 11: g_op = "try_emplace"; o(a).try_emplace(Mk<T>::make(i)); if (!has[a]) { has[a] = true; id[a] = i; } break;
            case 12: g_op = "take"; { O t = o(a).take(); ck(t.has_value() == has[a] && (!has[a] || Mk<T>::is(*t, id[a])), "wrong result"); has[a] = false; } break;
            case 13: g_op = "take_if"; { O t = o(a).take_if([&](const T&) { return y; }); ck(t.has_value() == (has[a] && y), "wrong result"); if (y) has[a] = false; } break;
            case 14: g_op = "swap"; o(a).swap(o(b)); swp(); break;
            case 15: g_op = "opt::swap"; opt::swap(o(a), o(b)); swp(); break;
            case 16: g_op = "value_or"; if constexpr (cp) { T v = o(a).value_or(Mk<T>::make(i)); ck(Mk<T>::is(v, has[a] ? id[a] : i), "wrong result"); } break;
            case 17: g_op = "map"; { auto m = o(a).map([&](const T& v) { return Mk<T>::is(v, id[a]); }); ck(m.has_value() == has[a] && (!has[a] || *m), "wrong result"); } break;
            case 18: g_op = "option of option"; if constexpr (cp) { opt::option<O> n(o(a)), m; ck(n.has_value() && n->has_value() == has[a] && !m.has_value(), "wrong state"); m = n; ck(m.has_value() && m->has_value() == has[a], "wrong state"); m = opt::none; n.swap(m); ck(!n.has_value() && m.has_value() && m->has_value() == has[a], "wrong state"); } break;
            }
            for (int k = 0; k < K; ++k) { ck(o(k).has_value() == has[k] && bool(o(k)) == has[k] && (o(k) == opt::none) == !has[k], "wrong state"); if (has[k]) ck(Mk<T>::is(*o(k), id[k]), "wrong value"); }
            ++steps; if (!sn[g_tn][g_opn][g_state]) { sn[g_tn][g_opn][g_state] = true; ++distinct; }
        }
        for (int i = 0; i < K; ++i) o(i).~O();
    }
}
#define RUN(...) run<__VA_ARGS__>(#__VA_ARGS__);
int main(int argc, char** argv) {
    for (int i = 1; i + 1 < argc; i += 2) { if (!std::strcmp(argv[i], "--seed")) seed = std::strtoull(argv[i + 1], nullptr, 10); if (!std::strcmp(argv[i], "--scale")) scale = std::strtoull(argv[i + 1], nullptr, 10); }
    rs = seed * 77777; __sanitizer_set_death_callback(&death);
    RUN(int) RUN(bool) RUN(char) RUN(float) RUN(double) RUN(long double) RUN(int*) RUN(char*) RUN(ES) RUN(EB) RUN(EI) RUN(Flag) RUN(Padd) RUN(Emp) RUN(Over) RUN(Vir) RUN(NT) RUN(NTT) RUN(Ag)
    RUN(std::complex<float>) RUN(std::complex<double>) RUN(std::pair<int, bool>) RUN(std::pair<char, long>) RUN(std::pair<bool, std::unique_ptr<int>>) RUN(std::tuple<char, short, int>) RUN(std::tuple<bool, double, int>) RUN(std::array<bool, 3>) RUN(std::array<float, 2>)
    RUN(std::string_view) RUN(std::unique_ptr<int>) RUN(opt::option<int>) RUN(opt::option<bool>) RUN(opt::option<opt::option<opt::option<char>>>) RUN(opt::option<opt::option<ES>>) RUN(opt::option<std::pair<int, opt::option<float>>>) RUN(opt::option<Vir>) RUN(opt::option<NT>) RUN(std::pair<opt::option<int>, bool>) RUN(opt::option<std::string_view>) RUN(opt::option<std::complex<double>>) RUN(opt::option<Over>)
    std::printf("@S {\"evaluations\": %llu, \"distinct\": %llu, \"violations\": %llu, \"digest\": \"0\", \"counters\": {\"steps with poisoned storage\": %llu}, \"samples\": []}\n", evals, distinct, viols, steps);
    return 0;
}
