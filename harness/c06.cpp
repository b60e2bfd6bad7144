// C06: documented number of levels, size of options at every nesting depth, and the level encoding itself.
#ifndef GROUP
#define GROUP 0
#endif
#ifndef DEPTH
#define DEPTH 8
#endif
#include "spare.hpp"
using namespace ty;
namespace {
enum class ERnd1 : unsigned char { a = 3, b = 20 };            // first free power of two: 32
enum class ESent8 : signed char { a, b, SENTINEL = -1 };
enum class ESentU64 : std::uint64_t { a, b, SENTINEL = 0xFFFFFFFFFFFFFFFFull };
enum class EStart64 : std::uint64_t { a, b, SENTINEL_START = 0xFFFFFFFFFFFFFF00ull };
enum class EStartI : int { a, b, SENTINEL_START = 2147483647 - 9 };
enum class EStartNeg : short { a = 0, b = 5, SENTINEL_START = 6 };
enum class ESE32 : unsigned { a, b, SENTINEL_START = 100, SENTINEL_END = 100 };
enum class ESEI : int { a = 0, SENTINEL_START = -2147483647 - 1, SENTINEL_END = -2147483647 + 300 };
enum class EBool : bool { no, yes };
enum ESmall { es_a, es_b, es_c };
enum EUnsc : unsigned char { eu_a, eu_b, eu_c = 100 };
struct Pad16 { int a = 0; std::uint16_t PADDING = 0; };
struct Pad64 { std::uint64_t PADDING = 0; char c = 0; };
struct PadFirst { std::uint8_t PADDING = 0; int a = 0; };
struct Fin final : std::allocator<int> { using value_type = int; template<class U> struct rebind { using other = std::allocator<U>; }; };
template<class T> struct StAlloc { // stateful allocator: strings and vectors using it have no documented spare levels
    using value_type = T; int st = 7;
    StAlloc() = default; template<class U> StAlloc(const StAlloc<U>& o) : st(o.st) {}
    T* allocate(std::size_t n) { return std::allocator<T>().allocate(n); }
    void deallocate(T* p, std::size_t n) { std::allocator<T>().deallocate(p, n); }
    friend bool operator==(const StAlloc&, const StAlloc&) { return true; }
    friend bool operator!=(const StAlloc&, const StAlloc&) { return false; }
};
template<class T> struct EmAlloc { // empty custom allocator
    using value_type = T;
    EmAlloc() = default; template<class U> EmAlloc(const EmAlloc<U>&) {}
    T* allocate(std::size_t n) { return std::allocator<T>().allocate(n); }
    void deallocate(T* p, std::size_t n) { std::allocator<T>().deallocate(p, n); }
    friend bool operator==(const EmAlloc&, const EmAlloc&) { return true; }
    friend bool operator!=(const EmAlloc&, const EmAlloc&) { return false; }
};
struct Base1 { virtual ~Base1() = default; int x = 0; }; struct Base2 { virtual int f() { return 1; } int y = 0; };
struct Virt : virtual Base1 { int z = 0; }; struct Multi : Base1, Base2 { int w = 0; }; struct VM : Virt, Base2 { int u = 0; };
struct Abs { virtual int f() = 0; virtual ~Abs() = default; }; struct Conc : Abs { int f() override { return 3; } };
struct Inc; // incomplete
} // namespace
namespace sp {
template<> struct Lv<ERnd1> { static constexpr std::uint64_t v = 256 - 32; };
template<> struct Lv<ESent8> { static constexpr std::uint64_t v = 1; };
template<> struct Lv<ESentU64> { static constexpr std::uint64_t v = 1; };
template<> struct Lv<EStart64> { static constexpr std::uint64_t v = 256; };
template<> struct Lv<EStartI> { static constexpr std::uint64_t v = 10; };
template<> struct Lv<EStartNeg> { static constexpr std::uint64_t v = 32767 - 6 + 1; };
template<> struct Lv<ESE32> { static constexpr std::uint64_t v = 1; };
template<> struct Lv<ESEI> { static constexpr std::uint64_t v = 302; };
template<> struct Lv<EUnsc> { static constexpr std::uint64_t v = 128; };
template<> struct Lv<Pad16> { static constexpr std::uint64_t v = 65535; };
template<> struct Lv<Pad64> { static constexpr std::uint64_t v = ~std::uint64_t(0); };
template<> struct Lv<PadFirst> { static constexpr std::uint64_t v = 255; };
}
namespace {
std::string g_type;
template<class T> const char* tname() { return __PRETTY_FUNCTION__; }
template<class T> void name(const char* n) { (void)n; std::string p = tname<T>(); auto a = p.find("T = "); g_type = a == std::string::npos ? p : p.substr(a + 4, p.size() - a - 5); if (g_type.size() > 120) g_type.resize(120); }

constexpr std::size_t GUARD = 64;
template<class T> struct Raw { // a T-sized hole between guard bytes
    alignas(T) alignas(64) unsigned char b[GUARD + ((sizeof(T) + 63) / 64) * 64 + GUARD];
    unsigned char ref[sizeof b];
    static constexpr std::size_t off = GUARD < alignof(T) ? alignof(T) : GUARD;
    T* at() { return reinterpret_cast<T*>(b + GUARD); }
    void fill(int how, std::uint64_t seed) {
        mon::Rng r(seed);
        for (std::size_t i = 0; i < sizeof b; ++i) b[i] = how == 0 ? 0 : how == 1 ? 0xFF : how == 2 ? 0xA5 : static_cast<unsigned char>(r.next());
        std::memcpy(ref, b, sizeof b);
    }
    bool guards() const { return std::memcmp(b, ref, GUARD) == 0 && std::memcmp(b + GUARD + sizeof(T), ref + GUARD + sizeof(T), sizeof b - GUARD - sizeof(T)) == 0; }
};

// levels to try: all if few, else a sample with every boundary
template<class F> void each_level(std::uint64_t ml, F f) {
    if (ml <= 1100) { for (std::uint64_t l = 0; l < ml; ++l) f(l); return; }
    for (std::uint64_t l = 0; l < 300; ++l) { f(l); f(ml - 1 - l); }
    for (int s = 8; s < 64; ++s) for (int d = -2; d <= 2; ++d) { const std::uint64_t l = (std::uint64_t(1) << s) + static_cast<std::uint64_t>(d); if (l < ml) f(l); }
    mon::Rng r(mon::st().seed + 5); for (int i = 0; i < 200; ++i) f(r.below(ml));
}
template<class T> constexpr bool assigns_raw = std::is_same_v<T, SentF>; // its own setter constructs an object: fine on raw bytes too

template<class T> void encoding() {
    using TR = opt::option_traits<T>;
    constexpr std::uint64_t ML = TR::max_level;
    if constexpr (ML > 0) {
        static Raw<T> raw;
        static_assert(Raw<T>::off == GUARD, "");
        for (int how = 0; how < 4; ++how) {
            std::set<std::string> images;
            std::uint64_t n = 0;
            each_level(ML, [&](std::uint64_t l) {
                raw.fill(how, l * 7 + mon::st().seed);
                mon::context("type=%s level=%llu fill=%d", g_type.c_str(), (unsigned long long)l, how);
                TR::set_level(raw.at(), l);
                MCHECK(raw.guards(), "C06-guard", "%s: set_level(%llu) wrote outside the object", g_type.c_str(), (unsigned long long)l);
                unsigned char before[sizeof(T)]; std::memcpy(before, raw.b + GUARD, sizeof(T));
                const std::uint64_t got = TR::get_level(raw.at());
                MCHECK(got == l, "C06-roundtrip", "%s: wrote level %llu, read level %llu", g_type.c_str(), (unsigned long long)l, (unsigned long long)got);
                MCHECK(std::memcmp(before, raw.b + GUARD, sizeof(T)) == 0, "C06-getlevel-writes", "%s: get_level modified the object", g_type.c_str());
                if (how == 0) { images.insert(std::string(reinterpret_cast<char*>(before), sizeof(T))); ++n; }
                // overwriting one level by another leaves no trace of the first
                const std::uint64_t l2 = (l * 31 + 1) % ML;
                TR::set_level(raw.at(), l2);
                MCHECK(std::uint64_t(TR::get_level(raw.at())) == l2, "C06-roundtrip", "%s: level %llu over level %llu reads back wrong", g_type.c_str(), (unsigned long long)l2, (unsigned long long)l);
                mon::seen(mon::mix(mon::hash_str(g_type.c_str()), l * 4 + static_cast<std::uint64_t>(how)));
                mon::count("levels_written_and_read");
            });
            if (how == 0 && ML <= 1100) MCHECK(images.size() == n, "C06-distinct", "%s: only %zu different representations for %llu levels", g_type.c_str(), images.size(), (unsigned long long)n);
        }
    }
}
// no genuine value reads as a level
template<class T> void genuine(const T& v, const char* what) {
    using TR = opt::option_traits<T>;
    if constexpr (TR::max_level > 0) {
        mon::context("type=%s genuine value: %s", g_type.c_str(), what);
        const std::uint64_t l = TR::get_level(std::addressof(v));
        MCHECK(l >= TR::max_level, "C06-genuine", "%s: a genuine value (%s) reads as level %llu", g_type.c_str(), what, (unsigned long long)l);
        mon::count("genuine_values");
    }
}
} // namespace

namespace {
template<class T> void advertised() {
    constexpr std::uint64_t ML = opt::option_traits<T>::max_level;
    constexpr std::uint64_t want = sp::Lv<T>::v;
    mon::context("type=%s max_level", g_type.c_str());
    MCHECK(ML == want, "C06-max-level", "%s advertises %llu levels, documented %llu", g_type.c_str(), (unsigned long long)ML, (unsigned long long)want);
    MCHECK(sizeof(opt::option<T>) == sizeof(T) || ML == 0, "C06-size", "option of %s has size %zu, the type has %zu and %llu levels", g_type.c_str(), sizeof(opt::option<T>), sizeof(T), (unsigned long long)ML);
    MCHECK(sizeof(opt::option<const T>) == sizeof(opt::option<T>), "C06-size-const", "option of const %s has size %zu, option of it %zu", g_type.c_str(), sizeof(opt::option<const T>), sizeof(opt::option<T>));
    MCHECK(alignof(opt::option<T>) == alignof(T), "C06-align", "option of %s is aligned to %zu instead of %zu", g_type.c_str(), alignof(opt::option<T>), alignof(T));
}
// ---- nested options: O is option^K<Base>
template<class Base> struct Make; // Make<Base>::make() -> a genuine Base, Make<Base>::is(const Base&)
template<class O, class Base> void build(O& o, int depth, Base* proto) { // `depth` engaged options, then none (or the value)
    if (depth == 0) { o = opt::none; return; }
    if constexpr (std::is_same_v<O, opt::option<Base>>) { Make<Base>::put(o); (void)proto; }
    else { o.emplace(); build(*o, depth - 1, proto); }
}
template<class O, class Base> int read(const O& o, Base* proto) {
    if (!o.has_value()) return 0;
    if constexpr (std::is_same_v<O, opt::option<Base>>) { (void)proto; return Make<Base>::is(*o) ? 1 : -1000; }
    else return 1 + read(*o, proto);
}
template<class O, class Base, int K> void nest() {
    constexpr std::uint64_t ML = sp::Lv<Base>::v;
    // levels left inside option^K
    constexpr bool free_ = std::uint64_t(K) <= ML;
    mon::context("type=%s depth=%d", g_type.c_str(), K);
    if (free_) MCHECK(sizeof(O) == sizeof(Base), "C06-nested-size", "%d nested options of %s (%llu levels) have size %zu, the type has %zu", K, g_type.c_str(), (unsigned long long)ML, sizeof(O), sizeof(Base));
    else if (std::uint64_t(K) <= ML + 255) MCHECK(sizeof(O) <= sizeof(Base) + alignof(Base), "C06-nested-size", "%d nested options of %s have size %zu: more than one flag was added to %zu", K, g_type.c_str(), sizeof(O), sizeof(Base));
    if constexpr (!std::is_reference_v<Base>) {
        constexpr std::uint64_t left = opt::option_traits<O>::max_level;
        MCHECK(left == sp::Lv<O>::v, "C06-nested-levels", "%d nested options of %s advertise %llu levels, expected %llu", K, g_type.c_str(), (unsigned long long)left, (unsigned long long)sp::Lv<O>::v);
    }
    {
        // each state, in storage with guards and garbage
        static Raw<O> raw;
        for (int j = 0; j <= K; ++j) {
            raw.fill(3, static_cast<std::uint64_t>(K * 1000 + j) + mon::st().seed);
            O* o = new (raw.at()) O;
            mon::context("type=%s depth=%d engaged=%d", g_type.c_str(), K, j);
            MCHECK(read(*o, static_cast<Base*>(nullptr)) == 0, "C06-nested-state", "%d nested options of %s default-construct to state %d", K, g_type.c_str(), read(*o, static_cast<Base*>(nullptr)));
            build(*o, j, static_cast<Base*>(nullptr));
            const int got = read(*o, static_cast<Base*>(nullptr));
            MCHECK(got == j, "C06-nested-state", "%d nested options of %s with %d engaged read as %d engaged", K, g_type.c_str(), j, got);
            genuine(*o, "nested option state");
            MCHECK(raw.guards(), "C06-guard", "%d nested options of %s wrote outside their storage", K, g_type.c_str());
            mon::seen(mon::mix(mon::hash_str(g_type.c_str()), 0x100000u + static_cast<unsigned>(K * 512 + j)));
            mon::count("nested_states");
            o->~O();
            MCHECK(raw.guards(), "C06-guard", "%d nested options of %s wrote outside their storage", K, g_type.c_str());
        }
    }
    if constexpr (K <= 3) { encoding<O>(); }
}
template<class Base, std::size_t D, class O = opt::option<Base>, int K = 1> void nests() {
    nest<O, Base, K>();
    if constexpr (K < int(D)) nests<Base, D, opt::option<O>, K + 1>();
}
template<class Base> struct MakeAd {
    static Base make() { return Ad<Base>::make(Ad<Base>::N - 1); }
    template<class O> static void put(O& o) { o.emplace(make()); }
    static bool is(const Base& b) { return Ad<Base>::id(b) == Ad<Base>::N - 1; }
};
template<class Base> struct Make : MakeAd<Base> {};

template<class T> void run_ad(int depth_unused = 0) {
    (void)depth_unused;
    name<T>(Ad<T>::name);
    advertised<T>();
    encoding<T>();
    for (int id = 0; id < Ad<T>::N; ++id) {
        T v = Ad<T>::make(id); genuine(v, "as made");
        T w(std::move(v)); genuine(v, "moved from by construction"); genuine(w, "move-constructed");
        T x = Ad<T>::make((id + 1) % Ad<T>::N);
        if constexpr (std::is_move_assignable_v<T>) { x = std::move(w); genuine(w, "moved from by assignment"); genuine(x, "move-assigned"); }
    }
    nests<T, DEPTH>();
}
// types without an adapter: a maker and an equality
template<class T> void run_x(const char* what) {
    (void)what;
    name<T>("");
    advertised<T>();
    encoding<T>();
    { T v = Make<T>::make(); genuine(v, "as made"); T w(std::move(v)); genuine(v, "moved from"); genuine(w, "moved"); }
    nests<T, DEPTH>();
}
#define MAKE(T, EXPR, TEST) \
    template<> struct Make<T> { static T make() { return EXPR; } template<class O> static void put(O& o) { o.emplace(make()); } static bool is(T const& b) { return TEST; } };
#define COMMA ,
#if GROUP == 0
#elif GROUP == 1
MAKE(ERnd1, ERnd1::b, b == ERnd1::b) MAKE(ESent8, ESent8::b, b == ESent8::b) MAKE(ESentU64, ESentU64::b, b == ESentU64::b)
MAKE(EStart64, EStart64::b, b == EStart64::b) MAKE(EStartI, EStartI::b, b == EStartI::b) MAKE(EStartNeg, EStartNeg::b, b == EStartNeg::b)
MAKE(ESE32, ESE32::b, b == ESE32::b) MAKE(ESEI, ESEI::a, b == ESEI::a) MAKE(EBool, EBool::yes, b == EBool::yes)
MAKE(EUnsc, eu_c, b == eu_c)
MAKE(Pad16, Pad16{}, b.PADDING == 0) MAKE(Pad64, Pad64{}, b.PADDING == 0) MAKE(PadFirst, PadFirst{}, b.PADDING == 0)
#elif GROUP == 2
using StStr = std::basic_string<char, std::char_traits<char>, StAlloc<char>>; using EmStr = std::basic_string<char, std::char_traits<char>, EmAlloc<char>>;
using StVec = std::vector<int, StAlloc<int>>; using EmVec = std::vector<int, EmAlloc<int>>;
MAKE(StStr, "abc", b == "abc") MAKE(EmStr, "abc", b == "abc") MAKE(StVec, StVec(3), b.size() == 3) MAKE(EmVec, EmVec(3), b.size() == 3)
MAKE(std::wstring, L"abc", b == L"abc") MAKE(std::u32string, U"abcdefghijklmnopqrstuvwxyz", b == U"abcdefghijklmnopqrstuvwxyz")
MAKE(std::wstring_view, L"abc", b == L"abc")
MAKE(std::unique_ptr<int[]>, std::make_unique<int[]>(4), b && b[3] == 0)
MAKE(std::unique_ptr<std::string>, std::make_unique<std::string>("z"), *b == "z")
MAKE(std::unique_ptr<const Base1>, std::make_unique<const Multi>(), b->x == 0)
MAKE(void*, nullptr, b == nullptr) MAKE(const volatile char*, nullptr, b == nullptr) MAKE(Inc*, nullptr, b == nullptr) MAKE(int**, nullptr, b == nullptr)
MAKE(Virt, Virt(), b.z == 0 && b.x == 0) MAKE(Multi, Multi(), b.w == 0 && b.y == 0) MAKE(VM, VM(), b.u == 0 && b.x == 0) MAKE(Conc, Conc(), true) MAKE(Base2, Base2(), b.y == 0)
MAKE(std::reference_wrapper<Inc>, *reinterpret_cast<Inc*>(g_ints + 4), (void*)&b.get() == (void*)(g_ints + 4))
#elif GROUP == 3 || GROUP == 4
using P1_ = std::pair<const double, int>; using P2_ = std::pair<int* const, bool>; using P3_ = std::pair<const std::string, int>;
using P4_ = std::pair<int, std::pair<int, std::pair<int, bool>>>; using P5_ = std::tuple<char, std::array<std::pair<int, float>, 2>, bool>;
using P6_ = std::array<std::array<bool, 3>, 2>; using P7_ = std::tuple<int, int, int*>; using P8_ = std::tuple<std::tuple<bool>, std::tuple<ESent>>;
using P9_ = std::pair<std::unique_ptr<int>, std::string>; using PA_ = std::tuple<>; using PB_ = std::array<bool, 0>; using PC_ = std::pair<ESent, EStartEnd>;
using PD_ = std::pair<opt::option<bool>, opt::option<int>>; using PE_ = std::tuple<opt::option<opt::option<ESent>>, int>; using PF_ = std::pair<int&, bool>; using PG_ = std::tuple<bool&>;
using PH_ = std::array<opt::option<float>, 2>; using PI_ = opt::option<std::pair<int, bool>>; using PJ_ = std::pair<double, double*>; using PK_ = std::tuple<bool, std::string, float>;
using PL_ = std::array<const bool, 2>; using PM_ = std::pair<std::array<ESent, 4>, int>; using PN_ = std::pair<long double, int>; using PO_ = long double;
bool g_b = true; int g_i = 5;
#if GROUP == 3
MAKE(P1_, P1_(2.5 COMMA 3), b.first == 2.5 && b.second == 3) MAKE(P2_, P2_(nullptr COMMA true), !b.first && b.second) MAKE(P3_, P3_("x" COMMA 1), b.first == "x")
MAKE(P4_, P4_(1 COMMA {2 COMMA {3 COMMA true}}), b.second.second.second) MAKE(P5_, P5_('a' COMMA {} COMMA true), std::get<2>(b)) MAKE(P6_, P6_{}, !b[0][0]) MAKE(P7_, P7_(1 COMMA 2 COMMA nullptr), !std::get<2>(b))
MAKE(P8_, P8_(), true) MAKE(P9_, P9_(nullptr COMMA ""), !b.first && b.second.empty()) MAKE(PA_, PA_(), true) MAKE(PB_, PB_{}, true) MAKE(PC_, PC_(), b.first == ESent::a)
#else
MAKE(PD_, PD_(true COMMA 3), *b.first && *b.second == 3) MAKE(PE_, PE_(opt::none COMMA 4), !std::get<0>(b).has_value()) MAKE(PF_, PF_(g_i COMMA true), &b.first == &g_i && b.second) MAKE(PG_, PG_(g_b), &std::get<0>(b) == &g_b)
MAKE(PH_, PH_{}, !b[0].has_value() && !b[1].has_value()) MAKE(PI_, PI_(std::pair<int COMMA bool>(1 COMMA true)), b->second) MAKE(PJ_, PJ_(), !b.second) MAKE(PK_, PK_(true COMMA "s" COMMA 1.f), std::get<1>(b) == "s")
MAKE(PM_, PM_(), b.second == 0) MAKE(PN_, PN_(1.L COMMA 2), b.first == 1.L) MAKE(PO_, 1.5L, b == 1.5L)
#endif
#elif GROUP == 7
struct X1 { int a; bool b; double c; }; struct X2 { char c; short s; }; struct X3 { X1 x; std::string s; }; struct X4 { int* const p; int q; }; struct X5 { opt::option<int> o; int* p; }; struct X6 { int i; std::pair<short, float> p; std::array<bool, 2> a; };
struct X7 { X1 a, b; int i; }; struct X8 { int i; struct { int z; } in; };
#define SPX(T, N) } namespace sp { template<> struct Lv<T> { static constexpr std::uint64_t v = N; }; } namespace {
struct X9 { int a; short b; char c; long d; bool e; int f; float* g; int h; }; struct XA { bool a; bool b; bool c; bool d; bool e; double f; }; struct XB { char a; char b; char c; char d; char e; char f; char g; ESent h; char i; char j; };
SPX(X9, 512) SPX(XA, 256) SPX(XB, 1) SPX(X1, 256) SPX(X2, 0) SPX(X3, 256) SPX(X4, 0) SPX(X5, 512) SPX(X6, 256) SPX(X7, 256)
MAKE(X1, (X1{1 COMMA true COMMA 2.0}), b.a == 1 && b.b && b.c == 2.0) MAKE(X2, X2{}, b.c == 0) MAKE(X3, (X3{{} COMMA "s"}), b.s == "s") MAKE(X4, (X4{nullptr COMMA 3}), b.q == 3)
MAKE(X9, (X9{1 COMMA 2 COMMA 'c' COMMA 4 COMMA true COMMA 6 COMMA nullptr COMMA 8}), b.a == 1 && b.b == 2 && b.c == 'c' && b.d == 4 && b.e && b.f == 6 && !b.g && b.h == 8) MAKE(XA, (XA{true COMMA false COMMA true COMMA false COMMA true COMMA 2.5}), b.a && !b.b && b.c && !b.d && b.e && b.f == 2.5) MAKE(XB, XB{}, b.j == 0 && b.h == ESent())
MAKE(X5, (X5{3 COMMA nullptr}), *b.o == 3) MAKE(X6, (X6{4 COMMA {} COMMA {}}), b.i == 4) MAKE(X7, (X7{{} COMMA {} COMMA 4}), b.i == 4)
#endif

#if GROUP == 9 // wide tuples, arrays and nests of them: the component with the spare patterns at every position
template<class T> constexpr T part(std::size_t i) {
    if constexpr (std::is_same_v<T, bool>) return i % 2 == 0; else if constexpr (std::is_pointer_v<T>) return nullptr; else if constexpr (std::is_arithmetic_v<T>) return static_cast<T>(i * 7 + 1); else return T{};
}
template<class T> bool same_part(const T& x, std::size_t i) { if constexpr (std::is_arithmetic_v<T> || std::is_pointer_v<T>) return x == part<T>(i); else { (void)x; (void)i; return true; } }
template<class... A> struct Make<std::tuple<A...>> {
    using T = std::tuple<A...>;
    template<std::size_t... I> static T mk(std::index_sequence<I...>) { return T(part<A>(I)...); }
    template<std::size_t... I> static bool cmp(const T& t, std::index_sequence<I...>) { return (same_part<A>(std::get<I>(t), I) && ...); }
    static T make() { return mk(std::index_sequence_for<A...>{}); }
    template<class O> static void put(O& o) { o.emplace(make()); }
    static bool is(const T& t) { return cmp(t, std::index_sequence_for<A...>{}); }
};
template<class E, std::size_t N> struct Make<std::array<E, N>> {
    using T = std::array<E, N>;
    static T make() { T t{}; for (std::size_t i = 0; i < N; ++i) t[i] = part<E>(i); return t; }
    template<class O> static void put(O& o) { o.emplace(make()); }
    static bool is(const T& t) { for (std::size_t i = 0; i < N; ++i) if (!same_part(t[i], i)) return false; return true; }
};
template<class S, std::size_t POS, class Q> struct WideImpl;
template<class S, std::size_t POS, std::size_t... I> struct WideImpl<S, POS, std::index_sequence<I...>> { using type = std::tuple<std::conditional_t<I == POS, S, std::conditional_t<I % 3 == 0, short, int>>...>; };
template<class S, std::size_t N, std::size_t POS> using Wide = typename WideImpl<S, POS, std::make_index_sequence<N>>::type;
template<class S, std::size_t N, std::size_t... P> void wides(std::index_sequence<P...>) { (run_x<Wide<S, N, P>>(""), ...); }
#endif

// ---- enumeration reflection, over every position of the last enumerator
template<unsigned V> struct En8 { enum class E : unsigned char { top = V }; };
template<unsigned V> struct Ef8 { enum class E : unsigned char { z = 0, f0 = 1, f1 = 2, mid = V / 2, top = V }; };
template<unsigned V> struct En16 { enum class E : std::uint16_t { top = V }; };
template<unsigned V> struct En32 { enum class E : std::uint32_t { a = 1, top = V }; };
template<unsigned V> struct En64 { enum E : std::uint64_t { a = 0, top = V }; };
// enumerations whose printed name contains commas, parentheses, brackets
enum class Strong : int {};
template<unsigned V> struct EnT { template<Strong, Strong> struct In { enum class E : unsigned char { a = 0, top = V }; }; using E = typename In<Strong{1}, Strong{2}>::E; };
template<unsigned V> struct EnT4 { template<class, Strong...> struct In { enum class E : std::uint16_t { a = 0, top = V }; }; using E = typename In<void(int, char(*)(int)), Strong{1}, Strong{2}, Strong{3}, Strong{4}>::E; };
template<unsigned V> struct EnC { template<auto...> struct In { enum class E : unsigned char { a = 0, top = V }; }; using E = typename In<'(', ',', ')', '>', '}', '{', ':'>::E; };
template<unsigned V> struct EnL { static auto f(int) { enum class E : unsigned char { a = 0, top = V }; return E::top; } using E = decltype(f(1)); };
constexpr std::uint64_t NO = ~std::uint64_t(0);
constexpr std::uint64_t ceil2(std::uint64_t n) { std::uint64_t r = 1; while (r < n) r *= 2; return r; }
template<class E> void enum_case(std::uint64_t top, std::uint64_t probe, std::uint64_t second = ~std::uint64_t(0)) {
    using TR = opt::option_traits<E>;
    // the search looks at the values below `probe` only; `second` is the next enumerator below top
    const std::uint64_t last = top < probe ? top : second;
    const std::uint64_t lo = last < probe ? ceil2(last + 1) : 0;        // values below lo may be enumerators or combinations of flags
    const std::uint64_t want = lo ? probe - lo : 0;
    const std::uint64_t ml = TR::max_level;
    mon::context("enum of size %zu whose last enumerator is %llu", sizeof(E), (unsigned long long)top);
    MCHECK(ml == want, "C06-enum-levels", "enum of size %zu with last enumerator %llu advertises %llu levels, documented %llu", sizeof(E), (unsigned long long)top, (unsigned long long)ml, (unsigned long long)want);
    if constexpr (TR::max_level > 0) {
        MCHECK(sizeof(opt::option<E>) == sizeof(E), "C06-size", "option of an enum with last enumerator %llu has size %zu", (unsigned long long)top, sizeof(opt::option<E>));
        for (std::uint64_t v = 0; v < lo; ++v) {
            const E e = static_cast<E>(v);
            MCHECK(TR::get_level(&e) >= ml, "C06-enum-genuine", "enum of size %zu with last enumerator %llu: value %llu reads as empty", sizeof(E), (unsigned long long)top, (unsigned long long)v);
            opt::option<E> o(e);
            MCHECK(o.has_value() && *o == e, "C06-enum-genuine", "option of an enum with last enumerator %llu lost value %llu", (unsigned long long)top, (unsigned long long)v);
        }
        each_level(ml, [&](std::uint64_t l) { E e{}; TR::set_level(&e, l); MCHECK(TR::get_level(&e) == l, "C06-roundtrip", "enum with last enumerator %llu: level %llu", (unsigned long long)top, (unsigned long long)l); });
    }
    { const E e = static_cast<E>(top); opt::option<E> o(e); MCHECK(o.has_value() && *o == e, "C06-enum-genuine", "option of an enum lost its enumerator %llu", (unsigned long long)top); o = opt::none; MCHECK(!o.has_value(), "C06-enum-genuine", "enum option not empty"); }
    mon::seen(mon::mix(sizeof(E) * 7919, top)); mon::count("enum_types");
}
template<template<unsigned> class En, unsigned From, unsigned Step, std::size_t... I> void enums(std::uint64_t probe, std::uint64_t second, std::index_sequence<I...>) { (enum_case<typename En<From + Step * I>::E>(From + Step * I, probe, second), ...); }
} // namespace

int main(int argc, char** argv) {
    mon::init(argc, argv);
    for (std::uint64_t rep = 0; rep < mon::st().scale; ++rep, ++mon::st().seed) {
#define A(...) run_ad<__VA_ARGS__>();
#define X(...) run_x<__VA_ARGS__>("");
#if GROUP == 0
    A(int) A(bool) A(float) A(double) A(char) A(int*) A(const int*) A(EPlain) A(EU8) A(EU16) A(ESent) A(EStart) A(EStartEnd) A(MemPtr) A(MemFn) A(FnPtr)
#elif GROUP == 1
    X(ERnd1) X(ESent8) X(ESentU64) X(EStart64) X(EStartI) X(EStartNeg) X(ESE32) X(ESEI) X(EBool) X(EUnsc) X(Pad16) X(Pad64) X(PadFirst)
    A(Pad) A(PadS) A(Poly) A(PolyT) A(SentV) A(Sent3) A(SentF) A(Memb) A(Enf) A(TupLike) A(Empty) A(Over) A(AddrOf)
#elif GROUP == 2
    A(std::string) A(std::u16string) A(std::string_view) A(std::vector<int>) A(std::vector<bool>) A(std::vector<std::string>) A(std::unique_ptr<int>) A(std::shared_ptr<int>) A(std::reference_wrapper<int>)
    X(StStr) X(EmStr) X(StVec) X(EmVec) X(std::wstring) X(std::u32string) X(std::wstring_view) X(std::unique_ptr<int[]>) X(std::unique_ptr<std::string>) X(std::unique_ptr<const Base1>)
    X(void*) X(const volatile char*) X(Inc*) X(int**) X(Virt) X(Multi) X(VM) X(Conc) X(Base2) X(std::reference_wrapper<Inc>)
#elif GROUP == 3
    A(std::pair<int, std::string>) A(std::pair<bool, int>) A(std::tuple<int, double, std::string>) A(std::tuple<int, short>) A(std::array<float, 3>) A(std::array<std::string, 2>) A(std::complex<float>) A(std::complex<double>) A(std::pair<int*, bool>)
    X(P1_) X(P2_) X(P3_) X(P4_) X(P5_) X(P6_) X(P7_) X(P8_) X(P9_) X(PA_) X(PB_) X(PC_)
#elif GROUP == 4
    X(PD_) X(PE_) X(PF_) X(PG_) X(PH_) X(PI_) X(PJ_) X(PK_) X(PM_) X(PN_) X(PO_)
    A(Prof000000) A(Prof000001) A(Prof111110) A(Prof111111) A(Agg) A(AggB)
#elif GROUP == 5
    enums<En8, 0, 1>(256, NO, std::make_index_sequence<128>{});
    enums<En16, 0, 1>(1024, NO, std::make_index_sequence<20>{}); enums<En16, 1021, 1>(1024, NO, std::make_index_sequence<6>{});
    enums<EnT, 1, 9>(256, 0, std::make_index_sequence<29>{}); enums<EnC, 2, 13>(256, 0, std::make_index_sequence<19>{}); enums<EnL, 3, 17>(256, 0, std::make_index_sequence<15>{});
    enums<Ef8, 4, 5>(256, 0, std::make_index_sequence<51>{});
#elif GROUP == 6
    enums<EnT4, 1, 79>(1024, 0, std::make_index_sequence<14>{});
    enums<En8, 128, 1>(256, NO, std::make_index_sequence<128>{});
    enums<En16, 31, 32>(1024, NO, std::make_index_sequence<34>{}); enums<En32, 60, 97>(1024, 1, std::make_index_sequence<12>{}); enums<En64, 15, 113>(1024, 0, std::make_index_sequence<10>{});
#elif GROUP == 7 // aggregates, with Boost.PFR
    A(Agg) A(AggB) X(X1) X(X2) X(X3) X(X4) X(X5) X(X6) X(X7) X(X9) X(XA) X(XB)
#elif GROUP == 9
    wides<bool, 4>(std::make_index_sequence<4>{}); wides<float, 5>(std::make_index_sequence<5>{}); wides<int*, 6>(std::make_index_sequence<6>{}); wides<ESent, 7>(std::make_index_sequence<7>{});
    wides<bool, 9>(std::index_sequence<0, 4, 7, 8>{}); wides<int*, 12>(std::index_sequence<0, 1, 6, 11>{}); wides<double, 17>(std::index_sequence<0, 8, 15, 16>{}); wides<std::string, 5>(std::index_sequence<0, 4>{}); wides<opt::option<float>, 8>(std::index_sequence<0, 3, 7>{});
    X(std::array<bool, 7>) X(std::array<double, 33>) X(std::array<int*, 64>) X(std::array<std::string, 5>) X(std::array<int, 9>) X(std::tuple<int, short, int, short, int, short>)
#elif GROUP == 8 // deep nesting
    A(bool) A(ESent) A(EStartEnd) A(int) A(Prof111111) A(std::string) A(std::unique_ptr<int>) A(double)
#endif
    }
    return mon::finish();
}
