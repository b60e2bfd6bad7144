// Element types and their adapters: how to make the id-th value, and how to recognise it again.
#pragma once
#include <array>
#include <complex>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>
#include <opt/option.hpp>
#include "mon.hpp"

namespace ty {

constexpr int ANY = -2;     // valid but unspecified
constexpr int UNKNOWN = -3; // not a value this harness ever stored
constexpr int MOVED = 77777;
constexpr int DEAD = 55555;

template<class T> struct Ad;

// Defaults: a move leaves the source as it was, any id in [0, N) is a distinct value.
template<class T>
struct AdBase {
    static constexpr int N = 50;
    static constexpr bool copyable = std::is_copy_constructible_v<T>;
    using Conv = void;                         // a type U for which option<U> -> option<T> is exercised
    static int moved_ctor(int id) { return id; }
    static int moved_assign(int id) { return id; }
    static int live(int) { return 0; }         // tracked objects inside one value
    template<class O> static void emplace(O& o, int id) { o.emplace(Ad<T>::make(id)); }
    template<class O> static void try_emplace(O& o, int id) { o.try_emplace(Ad<T>::make(id)); }
};
template<class T>
struct AdMovesOut : AdBase<T> {
    static int moved_ctor(int) { return ANY; }
    static int moved_assign(int) { return ANY; }
};
template<class T>
bool same_bytes(const T& a, const T& b) { return std::memcmp(&a, &b, sizeof(T)) == 0; }
// find by comparing representation with every value made
template<class T>
int id_by_bytes(const T& v) {
    for (int i = 0; i < Ad<T>::N; ++i) { const T m = Ad<T>::make(i); if (same_bytes(m, v)) return i; }
    return UNKNOWN;
}
template<class T>
int id_by_eq(const T& v) {
    for (int i = 0; i < Ad<T>::N; ++i) { if (v == Ad<T>::make(i)) return i; }
    return UNKNOWN;
}

// ---- scalars
template<class T> struct AdInt : AdBase<T> {
    static constexpr const char* name = "integer";
    static T make(int id) { return static_cast<T>(id * 3 - 1); }
    static int id(const T& v) { const int x = static_cast<int>(v) + 1; return (x >= 0 && x % 3 == 0 && x / 3 < 50) ? x / 3 : UNKNOWN; }
};
template<> struct Ad<int> : AdInt<int> { static constexpr const char* name = "int"; using Conv = short; };
template<> struct Ad<short> : AdInt<short> { static constexpr const char* name = "short"; };
template<> struct Ad<long long> : AdInt<long long> { static constexpr const char* name = "long long"; using Conv = int; };
template<> struct Ad<bool> : AdBase<bool> {
    static constexpr const char* name = "bool"; static constexpr int N = 2;
    static bool make(int id) { return id != 0; }
    static int id(const bool& v) { return v ? 1 : 0; }
};
template<> struct Ad<char> : AdBase<char> {
    static constexpr const char* name = "char";
    static char make(int id) { return static_cast<char>(id); }
    static int id(const char& v) { return v; }
};
inline double dbl(int id) {
    switch (id) {
    case 0: return 0.0; case 1: return -0.0; case 2: return std::numeric_limits<double>::infinity();
    case 3: return -std::numeric_limits<double>::infinity(); case 4: return std::numeric_limits<double>::quiet_NaN();
    case 5: return -std::numeric_limits<double>::quiet_NaN(); case 6: return double(std::numeric_limits<float>::denorm_min());
    case 7: return double((std::numeric_limits<float>::max)()); case 8: return double(std::numeric_limits<float>::lowest());
    default: return id * 1.5;
    }
}
inline float flt(int id) {
    switch (id) {
    case 0: return 0.0f; case 1: return -0.0f; case 2: return std::numeric_limits<float>::infinity();
    case 3: return -std::numeric_limits<float>::infinity(); case 4: return std::numeric_limits<float>::quiet_NaN();
    case 5: return -std::numeric_limits<float>::quiet_NaN(); case 6: return std::numeric_limits<float>::denorm_min();
    case 7: return std::numeric_limits<float>::max(); case 8: return std::numeric_limits<float>::lowest();
    default: return static_cast<float>(id) * 1.5f;
    }
}
template<> struct Ad<float> : AdBase<float> {
    static constexpr const char* name = "float";
    static float make(int id) { return flt(id); }
    static int id(const float& v) { return id_by_bytes(v); }
};
template<> struct Ad<double> : AdBase<double> {
    static constexpr const char* name = "double"; using Conv = float;
    static double make(int id) { return dbl(id); }
    static int id(const double& v) { return id_by_bytes(v); }
};
inline int g_ints[64];
template<> struct Ad<int*> : AdBase<int*> {
    static constexpr const char* name = "int*";
    static int* make(int id) { return id == 0 ? nullptr : &g_ints[id]; }
    static int id(int* const& v) { return v == nullptr ? 0 : static_cast<int>(v - g_ints); }
};
template<> struct Ad<const int*> : AdBase<const int*> {
    static constexpr const char* name = "const int*"; using Conv = int*;
    static const int* make(int id) { return Ad<int*>::make(id); }
    static int id(const int* const& v) { return v == nullptr ? 0 : static_cast<int>(v - g_ints); }
};
enum class EPlain : int { a = 0 };
enum class EU8 : unsigned char { a0, a1, a2, a3, a4, a9 = 9 };
enum class EU16 : unsigned short { a0, a1, a2, a3, b7 = 7, c30 = 30 };
enum class ESent : int { a = 0, SENTINEL = -1 };
enum class EStart : unsigned char { a = 0, SENTINEL_START = 60 };
enum class EStartEnd : signed char { a = 0, SENTINEL_START = -100, SENTINEL_END = -98 };
template<class E, int Count> struct AdEnum : AdBase<E> {
    static constexpr int N = Count;
    static E make(int id) { return static_cast<E>(id); }
    static int id(const E& v) { const int i = static_cast<int>(v); return i >= 0 && i < Count ? i : UNKNOWN; }
};
template<> struct Ad<EPlain> : AdEnum<EPlain, 50> { static constexpr const char* name = "enum int"; };
template<> struct Ad<EU8> : AdEnum<EU8, 5> { static constexpr const char* name = "enum uint8 reflected"; };
template<> struct Ad<EU16> : AdEnum<EU16, 4> { static constexpr const char* name = "enum uint16 reflected"; };
template<> struct Ad<ESent> : AdEnum<ESent, 50> { static constexpr const char* name = "enum SENTINEL"; };
template<> struct Ad<EStart> : AdEnum<EStart, 50> { static constexpr const char* name = "enum SENTINEL_START"; };
template<> struct Ad<EStartEnd> : AdEnum<EStartEnd, 50> { static constexpr const char* name = "enum SENTINEL_START..END"; };

struct Mem { int m[40]; int x0, x1, x2; int f0() { return 0; } int f1() { return 1; } virtual int g() { return 2; } virtual ~Mem() = default; };
using MemPtr = int Mem::*;
using MemFn = int (Mem::*)();
template<> struct Ad<MemPtr> : AdBase<MemPtr> {
    static constexpr const char* name = "int C::*"; static constexpr int N = 4;
    static MemPtr make(int id) { MemPtr t[] = {nullptr, &Mem::x0, &Mem::x1, &Mem::x2}; return t[id]; }
    static int id(const MemPtr& v) { return id_by_eq(v); }
};
template<> struct Ad<MemFn> : AdBase<MemFn> {
    static constexpr const char* name = "int (C::*)()"; static constexpr int N = 4;
    static MemFn make(int id) { MemFn t[] = {nullptr, &Mem::f0, &Mem::f1, &Mem::g}; return t[id]; }
    static int id(const MemFn& v) { return id_by_eq(v); }
};
inline int fn0() { return 0; } inline int fn1() { return 1; }
using FnPtr = int (*)();
template<> struct Ad<FnPtr> : AdBase<FnPtr> {
    static constexpr const char* name = "int(*)()"; static constexpr int N = 3;
    static FnPtr make(int id) { FnPtr t[] = {nullptr, &fn0, &fn1}; return t[id]; }
    static int id(const FnPtr& v) { return id_by_eq(v); }
};

// ---- std
inline std::string str(int id) { // empty, short (SSO), and heap strings
    if (id == 0) return {};
    std::string s = "s" + std::to_string(id);
    if (id % 2) s.append(40, 'x');
    return s;
}
inline int str_id(std::string_view s) {
    if (s.empty()) return 0;
    if (s[0] != 's') return UNKNOWN;
    int v = 0; std::size_t i = 1;
    while (i < s.size() && s[i] >= '0' && s[i] <= '9') v = v * 10 + (s[i++] - '0');
    if (std::string_view(str(v)) != s) return UNKNOWN;
    return v;
}
struct CStr { const char* p; operator const char*() const { return p; } };
template<> struct Ad<std::string> : AdMovesOut<std::string> {
    static constexpr const char* name = "string"; using Conv = std::string_view;
    static std::string make(int id) { return str(id); }
    static int id(const std::string& v) { return str_id(v); }
    template<class O> static void emplace(O& o, int id) { const std::string s = str(id); if (id % 3 == 0) o.emplace(s.begin(), s.end()); else if (id % 3 == 1) o.emplace(s.c_str()); else o.emplace(s, 0, std::string::npos); }
};
template<> struct Ad<std::u16string> : AdMovesOut<std::u16string> {
    static constexpr const char* name = "u16string";
    static std::u16string make(int id) { return std::u16string(static_cast<std::size_t>(id), u'q'); }
    static int id(const std::u16string& v) { for (char16_t c : v) if (c != u'q') return UNKNOWN; return static_cast<int>(v.size()); }
};
inline const std::vector<std::string>& sv_pool() { static const std::vector<std::string> p = [] { std::vector<std::string> v; for (int i = 0; i < 50; ++i) v.push_back(str(i)); return v; }(); return p; }
template<> struct Ad<std::string_view> : AdBase<std::string_view> {
    static constexpr const char* name = "string_view";
    static std::string_view make(int id) { if (id == 0) return {}; return sv_pool()[static_cast<std::size_t>(id)]; }
    static int id(const std::string_view& v) { return v.data() == nullptr ? 0 : str_id(v); }
};
template<> struct Ad<std::vector<int>> : AdMovesOut<std::vector<int>> {
    static constexpr const char* name = "vector<int>";
    static std::size_t len(int id) { return static_cast<std::size_t>(id == 0 ? 0 : id % 7 + 1); }
    static std::vector<int> make(int id) { return std::vector<int>(len(id), id); }
    static int id(const std::vector<int>& v) { if (v.empty()) return 0; for (int x : v) if (x != v[0]) return UNKNOWN; return len(v[0]) == v.size() ? v[0] : UNKNOWN; }
    template<class O> static void emplace(O& o, int id) { o.emplace(len(id), id); }
};
template<> struct Ad<std::vector<bool>> : AdMovesOut<std::vector<bool>> {
    static constexpr const char* name = "vector<bool>";
    static std::vector<bool> make(int id) { return std::vector<bool>(static_cast<std::size_t>(id * 5), true); }
    static int id(const std::vector<bool>& v) { for (bool b : v) if (!b) return UNKNOWN; return v.size() % 5 ? UNKNOWN : static_cast<int>(v.size() / 5); }
};
template<> struct Ad<std::vector<std::string>> : AdMovesOut<std::vector<std::string>> {
    static constexpr const char* name = "vector<string>";
    static std::vector<std::string> make(int id) { if (id == 0) return {}; return {str(id), str(id)}; }
    static int id(const std::vector<std::string>& v) { if (v.empty()) return 0; return v.size() == 2 && v[0] == v[1] ? str_id(v[0]) : UNKNOWN; }
};
template<> struct Ad<std::unique_ptr<int>> : AdBase<std::unique_ptr<int>> {
    static constexpr const char* name = "unique_ptr<int>";
    static std::unique_ptr<int> make(int id) { if (id == 0) return nullptr; return std::make_unique<int>(id); }
    static int id(const std::unique_ptr<int>& v) { return v ? *v : 0; }
    static int moved_ctor(int) { return 0; }
    static int moved_assign(int) { return 0; }
};
template<> struct Ad<std::shared_ptr<int>> : AdBase<std::shared_ptr<int>> {
    static constexpr const char* name = "shared_ptr<int>";
    static std::shared_ptr<int> make(int id) { if (id == 0) return nullptr; return std::make_shared<int>(id); }
    static int id(const std::shared_ptr<int>& v) { return v ? *v : 0; }
    static int moved_ctor(int) { return 0; }
    static int moved_assign(int) { return 0; }
};
template<class A, class B> struct Ad<std::pair<A, B>> : AdBase<std::pair<A, B>> {
    static constexpr const char* name = "pair";
    static constexpr int N = Ad<A>::N < Ad<B>::N ? Ad<A>::N : Ad<B>::N;
    static std::pair<A, B> make(int id) { return {Ad<A>::make(id), Ad<B>::make(id)}; }
    static int id(const std::pair<A, B>& v) { const int a = Ad<A>::id(v.first), b = Ad<B>::id(v.second); return a == b ? a : UNKNOWN; }
    static int moved_ctor(int id) { return Ad<A>::moved_ctor(id) == id && Ad<B>::moved_ctor(id) == id ? id : ANY; }
    static int moved_assign(int id) { return Ad<A>::moved_assign(id) == id && Ad<B>::moved_assign(id) == id ? id : ANY; }
    static int live(int id) { return Ad<A>::live(id) + Ad<B>::live(id); }
    template<class O> static void emplace(O& o, int id) { o.emplace(Ad<A>::make(id), Ad<B>::make(id)); }
};
template<class A, class... R> struct Ad<std::tuple<A, R...>> : AdMovesOut<std::tuple<A, R...>> {
    using T = std::tuple<A, R...>;
    static constexpr const char* name = "tuple";
    static constexpr int N = (std::min)({Ad<A>::N, Ad<R>::N...});
    static T make(int id) { return T(Ad<A>::make(id), Ad<R>::make(id)...); }
    static int id(const T& v) { const int a = Ad<A>::id(std::get<0>(v)); return std::apply([&](const A& x, const R&... r) { (void)x; return ((Ad<R>::id(r) == a) && ...); }, v) ? a : UNKNOWN; }
    static int live(int id) { return Ad<A>::live(id) + (Ad<R>::live(id) + ... + 0); }
    template<class O> static void emplace(O& o, int id) { o.emplace(Ad<A>::make(id), Ad<R>::make(id)...); }
};
template<class A, std::size_t K> struct Ad<std::array<A, K>> : AdMovesOut<std::array<A, K>> {
    using T = std::array<A, K>;
    static constexpr const char* name = "array";
    static constexpr int N = Ad<A>::N;
    template<std::size_t... I> static T mk(int id, std::index_sequence<I...>) { return T{{((void)I, Ad<A>::make(id))...}}; }
    static T make(int id) { return mk(id, std::make_index_sequence<K>{}); }
    static int id(const T& v) { const int a = Ad<A>::id(v[0]); for (auto& x : v) if (Ad<A>::id(x) != a) return UNKNOWN; return a; }
    static int live(int id) { return static_cast<int>(K) * Ad<A>::live(id); }
};
template<class F> struct Ad<std::complex<F>> : AdBase<std::complex<F>> {
    static constexpr const char* name = sizeof(F) == 4 ? "complex<float>" : "complex<double>";
    static std::complex<F> make(int id) { return {Ad<F>::make(id), Ad<F>::make((id + 1) % 50)}; }
    static int id(const std::complex<F>& v) { const F re = v.real(), im = v.imag(); const int a = Ad<F>::id(re), b = Ad<F>::id(im); return (a + 1) % 50 == b ? a : UNKNOWN; }
};
template<> struct Ad<std::reference_wrapper<int>> : AdBase<std::reference_wrapper<int>> {
    static constexpr const char* name = "reference_wrapper<int>";
    static std::reference_wrapper<int> make(int id) { return g_ints[id]; }
    static int id(const std::reference_wrapper<int>& v) { return static_cast<int>(&v.get() - g_ints); }
};
template<> struct Ad<std::variant<int, std::string>> : AdMovesOut<std::variant<int, std::string>> {
    using T = std::variant<int, std::string>;
    static constexpr const char* name = "variant<int,string>";
    static T make(int id) { if (id % 2) return T(id); return T(str(id)); }
    static int id(const T& v) { if (auto* p = std::get_if<int>(&v)) return *p % 2 ? *p : UNKNOWN; const int i = str_id(std::get<1>(v)); return i % 2 ? UNKNOWN : i; }
};
template<> struct Ad<std::map<int, int>> : AdMovesOut<std::map<int, int>> {
    using T = std::map<int, int>;
    static constexpr const char* name = "map<int,int>";
    static T make(int id) { T m; for (int i = 0; i < id % 5; ++i) m[i] = id; if (id % 5 == 0) m[99] = id; return m; }
    static int id(const T& v) { if (v.empty()) return UNKNOWN; const int x = v.begin()->second; return v == make(x) ? x : UNKNOWN; }
};

// ---- user types
struct Agg { int a; double b; };
template<> struct Ad<Agg> : AdBase<Agg> {
    static constexpr const char* name = "aggregate";
    static Agg make(int id) { return {id, id * 2.0}; }
    static int id(const Agg& v) { return v.b == v.a * 2.0 ? v.a : UNKNOWN; }
#if __cplusplus >= 202002L && !defined(__clang__)
    template<class O> static void emplace(O& o, int id) { o.emplace(id, id * 2.0); }
#endif
};
struct AggB { bool f; std::string s; };
template<> struct Ad<AggB> : AdMovesOut<AggB> {
    static constexpr const char* name = "aggregate{bool,string}";
    static AggB make(int id) { return {id % 2 == 1, str(id)}; }
    static int id(const AggB& v) { const int i = str_id(v.s); return v.f == (i % 2 == 1) ? i : UNKNOWN; }
};
struct Pad { short x; unsigned char PADDING = 0; unsigned char tail; Pad(int v = 0) : x(static_cast<short>(v)), tail(static_cast<unsigned char>(v)) {} };
template<> struct Ad<Pad> : AdBase<Pad> {
    static constexpr const char* name = "PADDING member"; using Conv = int;
    static Pad make(int id) { return Pad(id); }
    static int id(const Pad& v) { return v.PADDING == 0 && v.tail == static_cast<unsigned char>(v.x) ? v.x : UNKNOWN; }
};
struct PadS { std::string s; unsigned PADDING = 0; explicit PadS(int i) : s(str(i)) {} };
template<> struct Ad<PadS> : AdMovesOut<PadS> {
    static constexpr const char* name = "PADDING member beside string";
    static PadS make(int id) { return PadS(id); }
    static int id(const PadS& v) { return v.PADDING == 0 ? str_id(v.s) : UNKNOWN; }
    template<class O> static void emplace(O& o, int id) { o.emplace(id); }
};
struct Poly { int v; std::string s; explicit Poly(int x = 0) : v(x), s(str(x)) {} virtual ~Poly() { v = DEAD; } Poly(const Poly&) = default; Poly(Poly&&) = default; Poly& operator=(const Poly&) = default; Poly& operator=(Poly&&) = default; virtual int get() const { return v; } };
template<> struct Ad<Poly> : AdMovesOut<Poly> {
    static constexpr const char* name = "polymorphic";
    static Poly make(int id) { return Poly(id); }
    static int id(const Poly& v) { return v.get() == v.v && str_id(v.s) == v.v ? v.v : UNKNOWN; }
    template<class O> static void emplace(O& o, int id) { o.emplace(id); }
};
struct PolyT { int v; explicit PolyT(int x = 0) : v(x) {} virtual int get() const { return v + 1; } };
template<> struct Ad<PolyT> : AdBase<PolyT> {
    static constexpr const char* name = "polymorphic, trivial destructor";
    static PolyT make(int id) { return PolyT(id); }
    static int id(const PolyT& v) { return v.get() == v.v + 1 ? v.v : UNKNOWN; }
    template<class O> static void emplace(O& o, int id) { o.emplace(id); }
};
struct SentV { int v; friend constexpr bool operator==(const SentV& a, const SentV& b) { return a.v == b.v; } };
} // namespace ty
template<> struct opt::sentinel_option_traits<ty::SentV> { static constexpr ty::SentV sentinel_value{-123}; };
namespace ty {
template<> struct Ad<SentV> : AdBase<SentV> {
    static constexpr const char* name = "sentinel_option_traits";
    static SentV make(int id) { return SentV{id}; }
    static int id(const SentV& v) { return v.v; }
};
using Sent3 = opt::sentinel<int, -1, -2, -3>;
template<> struct Ad<Sent3> : AdBase<Sent3> {
    static constexpr const char* name = "sentinel<int,-1,-2,-3>";
    static Sent3 make(int id) { return Sent3(id * 2); }
    static int id(const Sent3& v) { const int x = v; return x % 2 == 0 && x >= 0 ? x / 2 : UNKNOWN; }
};
struct FCmp { bool operator()(const std::string& a, int c) const noexcept { return a.size() == 1 && a[0] == static_cast<char>(c); } };
struct FSet { void operator()(std::string& a, int c) const noexcept { new (&a) std::string(1, static_cast<char>(c)); } };
using SentF = opt::sentinel_f<std::string, FCmp, FSet, 1, 2>;
// Note: the setter writes a live one-character string whose destructor is trivial in effect (SSO).
template<> struct Ad<SentF> : AdMovesOut<SentF> {
    static constexpr const char* name = "sentinel_f<string>";
    static SentF make(int id) { return SentF(str(id)); }
    static int id(const SentF& v) { const std::string& s = v; return str_id(s); }
};
struct Inner { int pre; bool flag; int post; };
using Memb = opt::member<Inner, &Inner::flag>;
template<> struct Ad<Memb> : AdBase<Memb> {
    static constexpr const char* name = "member<T,&T::flag>";
    static Memb make(int id) { return Memb(Inner{id, id % 2 == 1, ~id}); }
    static int id(const Memb& w) { const Inner& v = w; return v.post == ~v.pre && v.flag == (v.pre % 2 == 1) ? v.pre : UNKNOWN; }
};
using Enf = opt::enforce<std::pair<int, bool>>;
template<> struct Ad<Enf> : AdBase<Enf> {
    static constexpr const char* name = "enforce<pair<int,bool>>";
    static Enf make(int id) { return Enf(std::pair<int, bool>(id, id % 2 == 1)); }
    static int id(const Enf& w) { const std::pair<int, bool>& v = w; return v.second == (v.first % 2 == 1) ? v.first : UNKNOWN; }
};
struct TupLike { int a; bool b; template<std::size_t I> auto& get() { if constexpr (I == 0) return a; else return b; } template<std::size_t I> const auto& get() const { if constexpr (I == 0) return a; else return b; } };
} // namespace ty
template<> struct std::tuple_size<ty::TupLike> : std::integral_constant<std::size_t, 2> {};
template<> struct std::tuple_element<0, ty::TupLike> { using type = int; };
template<> struct std::tuple_element<1, ty::TupLike> { using type = bool; };
namespace ty {
template<> struct Ad<TupLike> : AdBase<TupLike> {
    static constexpr const char* name = "custom tuple-like";
    static TupLike make(int id) { return {id, id % 2 == 1}; }
    static int id(const TupLike& v) { return v.b == (v.a % 2 == 1) ? v.a : UNKNOWN; }
};
struct Empty {};
template<> struct Ad<Empty> : AdBase<Empty> {
    static constexpr const char* name = "empty class"; static constexpr int N = 1;
    static Empty make(int) { return {}; }
    static int id(const Empty&) { return 0; }
};
struct alignas(64) Over { int v; char c[3]; Over(int x = 0) : v(x), c{1, 2, 3} {} };
template<> struct Ad<Over> : AdBase<Over> {
    static constexpr const char* name = "alignas(64)"; using Conv = int;
    static Over make(int id) { return Over(id); }
    static int id(const Over& v) { return reinterpret_cast<std::uintptr_t>(&v) % 64 == 0 && v.c[2] == 3 ? v.v : UNKNOWN; }
};
// large objects, and class features that generic code can trip over
struct Big { std::uint32_t w[41]; Big(int x = 0) { for (std::uint32_t i = 0; i < 41; ++i) w[i] = static_cast<std::uint32_t>(x) * 2654435761u + i; } };
template<> struct Ad<Big> : AdBase<Big> {
    static constexpr const char* name = "large trivially copyable class"; using Conv = int;
    static Big make(int id) { return Big(id); }
    static int id(const Big& v) { for (int k = 0; k < 50; ++k) if (v.w[0] == static_cast<std::uint32_t>(k) * 2654435761u) { for (std::uint32_t i = 1; i < 41; ++i) if (v.w[i] != v.w[0] + i) return UNKNOWN; return k; } return UNKNOWN; }
};
struct BigN { bool flag; char name[90]; std::string a, b; double d[9]; explicit BigN(int x) : flag(x % 2 == 1), a(str(x)), b(str((x + 3) % 50)) { std::memset(name, x, sizeof name); for (auto& y : d) y = x; } };
template<> struct Ad<BigN> : AdMovesOut<BigN> {
    static constexpr const char* name = "large class";
    static BigN make(int id) { return BigN(id); }
    static int id(const BigN& v) { const int i = str_id(v.a); if (i < 0 || v.flag != (i % 2 == 1) || str_id(v.b) != (i + 3) % 50) return UNKNOWN; for (char c : v.name) if (c != static_cast<char>(i)) return UNKNOWN; for (double y : v.d) if (y != i) return UNKNOWN; return i; }
};
class OwnNew final { // its own (unusable) operator new, overloaded comma and logical operators, final
    int v; std::string s;
public:
    explicit OwnNew(int x) : v(x), s(str(x)) {}
    static void* operator new(std::size_t) = delete; static void* operator new(std::size_t, void*) = delete; static void operator delete(void*) = delete;
    template<class U> friend void operator,(const OwnNew&, U&&) = delete; template<class U> friend void operator,(U&&, const OwnNew&) = delete;
    friend bool operator&&(const OwnNew&, bool) = delete; friend bool operator||(const OwnNew&, bool) = delete; bool operator!() const = delete;
    int get_id() const { return s == str(v) ? v : UNKNOWN; }
};
template<> struct Ad<OwnNew> : AdMovesOut<OwnNew> {
    static constexpr const char* name = "final class with deleted operator new";
    static OwnNew make(int id) { return OwnNew(id); }
    static int id(const OwnNew& v) { return v.get_id(); }
};
struct Greedy { // constructible and assignable from everything but options
    int v = -7;
    template<class U> static constexpr bool other = !std::is_same_v<std::decay_t<U>, Greedy> && !opt::is_option_v<std::decay_t<U>>;
    Greedy() = default;
    template<class U, std::enable_if_t<other<U> && std::is_convertible_v<U&&, int>, int> = 0> Greedy(U&& u) : v(static_cast<int>(u)) {}
    template<class U, std::enable_if_t<other<U> && !std::is_convertible_v<U&&, int>, int> = 0> Greedy(U&&) : v(-100) {}
    template<class U, std::enable_if_t<other<U> && std::is_convertible_v<U&&, int>, int> = 0> Greedy& operator=(U&& u) { v = static_cast<int>(u); return *this; }
};
template<> struct Ad<Greedy> : AdBase<Greedy> {
    static constexpr const char* name = "class constructible from anything"; using Conv = int;
    static Greedy make(int id) { return Greedy(id); }
    static int id(const Greedy& v) { return v.v; }
};
template<> struct Ad<long double> : AdBase<long double> {
    static constexpr const char* name = "long double";
    static long double make(int id) { return id + 0.5L; }
    static int id(const long double& v) { return static_cast<int>(v - 0.5L); }
};
template<> struct Ad<std::nullptr_t> : AdBase<std::nullptr_t> {
    static constexpr const char* name = "nullptr_t"; static constexpr int N = 1;
    static std::nullptr_t make(int) { return nullptr; }
    static int id(const std::nullptr_t&) { return 0; }
};
template<> struct Ad<__int128> : AdBase<__int128> {
    static constexpr const char* name = "__int128";
    static __int128 make(int id) { return static_cast<__int128>(id) * 1000000007 * 1000000007 * 1000000007; }
    static int id(const __int128& v) { for (int k = 0; k < 50; ++k) if (make(k) == v) return k; return UNKNOWN; }
};
struct AddrOf { int v; AddrOf(int x = 0) : v(x) {} AddrOf* operator&() = delete; const AddrOf* operator&() const = delete; };
template<> struct Ad<AddrOf> : AdBase<AddrOf> {
    static constexpr const char* name = "overloaded operator&"; using Conv = short;
    static AddrOf make(int id) { return AddrOf(id); }
    static int id(const AddrOf& v) { return v.v; }
};

// ---- nested options
template<class T> struct Ad<opt::option<T>> : AdBase<opt::option<T>> {
    static constexpr const char* name = "option<T>";
    static constexpr int N = Ad<T>::N + 1;
    static opt::option<T> make(int id) { if (id == 0) return opt::none; return opt::option<T>(Ad<T>::make(id - 1)); }
    static int id(const opt::option<T>& v) { if (!v.has_value()) return 0; const int i = Ad<T>::id(*v); return i < 0 ? i : i + 1; }
    static int moved_ctor(int id) { if (id <= 0) return id; const int i = Ad<T>::moved_ctor(id - 1); return i < 0 ? i : i + 1; }
    static int moved_assign(int id) { if (id <= 0) return id; const int a = moved_ctor(id), i = Ad<T>::moved_assign(id - 1); const int b = i < 0 ? i : i + 1; return a == b ? a : ANY; }
    static int live(int id) { return id == 0 ? 0 : Ad<T>::live(id == ANY ? ANY : id - 1); }
    template<class O> static void emplace(O& o, int id) { if (id == 0) o.emplace(); else if (id % 2) o.emplace(Ad<T>::make(id - 1)); else o.emplace(opt::option<T>(Ad<T>::make(id - 1))); }
};

// ---- every combination of trivial (0) / user-provided (1) copy ctor, copy assignment, move ctor, move assignment, destructor
struct prof_key {};
#define TY_CC_0(N) N(const N&) = default;
#define TY_CC_1(N) N(const N& o) : v(o.v), chk(~v), how(1) { o.verify("copy-construct from"); }
#define TY_CA_0(N) N& operator=(const N&) = default;
#define TY_CA_1(N) N& operator=(const N& o) { o.verify("copy-assign from"); verify("copy-assign to"); v = o.v; chk = ~v; how = 2; return *this; }
#define TY_MC_0(N) N(N&&) = default;
#define TY_MC_1(N) N(N&& o) noexcept : v(o.v), chk(~v), how(3) { o.verify("move-construct from"); o.v = MOVED; o.chk = ~MOVED; }
#define TY_MA_0(N) N& operator=(N&&) = default;
#define TY_MA_1(N) N& operator=(N&& o) noexcept { o.verify("move-assign from"); verify("move-assign to"); if (this != &o) { v = o.v; chk = ~v; how = 4; o.v = MOVED; o.chk = ~MOVED; } return *this; }
#define TY_D_0(N) ~N() = default;
#define TY_D_1(N) ~N() { verify("destroy"); v = DEAD; chk = 0; }
#define TY_PROF(CC, CA, MC, MA, D, TR) \
    struct Prof##CC##CA##MC##MA##D##TR : prof_key { \
        using Self = Prof##CC##CA##MC##MA##D##TR; \
        static constexpr bool mc = MC, ma = MA, cc = CC, ca = CA, d = D, tr = TR; \
        int v, chk, how; \
        explicit Prof##CC##CA##MC##MA##D##TR(int x) : v(x), chk(~x), how(0) {} \
        Prof##CC##CA##MC##MA##D##TR(short x) : Self(int(x)) {} \
        Self& operator=(short x) { verify("assign to"); v = x; chk = ~v; how = 5; return *this; } \
        TY_CC_##CC(Prof##CC##CA##MC##MA##D##TR) TY_CA_##CA(Prof##CC##CA##MC##MA##D##TR) \
        TY_MC_##MC(Prof##CC##CA##MC##MA##D##TR) TY_MA_##MA(Prof##CC##CA##MC##MA##D##TR) \
        TY_D_##D(Prof##CC##CA##MC##MA##D##TR) \
        void verify(const char* what) const { if (chk != ~v || v == DEAD) mon::violation("profile-dead-object", "%s a dead or torn object (v=%d) of " #CC #CA #MC #MA #D #TR, what, v); } \
        static constexpr const char* name = "profile cc" #CC " ca" #CA " mc" #MC " ma" #MA " d" #D " tr" #TR; \
    };
#define TY_PROF_D(CC, CA, MC, MA) TY_PROF(CC, CA, MC, MA, 0, 0) TY_PROF(CC, CA, MC, MA, 0, 1) TY_PROF(CC, CA, MC, MA, 1, 0) TY_PROF(CC, CA, MC, MA, 1, 1)
#define TY_PROF_M(CC, CA) TY_PROF_D(CC, CA, 0, 0) TY_PROF_D(CC, CA, 0, 1) TY_PROF_D(CC, CA, 1, 0) TY_PROF_D(CC, CA, 1, 1)
TY_PROF_M(0, 0) TY_PROF_M(0, 1) TY_PROF_M(1, 0) TY_PROF_M(1, 1)

template<class P> struct AdProf : AdBase<P> {
    static constexpr const char* name = P::name;
    using Conv = short;
    static P make(int id) { return P(id); }
    static int id(const P& p) { return p.chk == ~p.v ? p.v : UNKNOWN; }
    static int moved_ctor(int id) { return P::mc ? MOVED : id; }
    static int moved_assign(int id) { return P::ma ? MOVED : id; }
    template<class O> static void emplace(O& o, int id) { o.emplace(id); }
    template<class O> static void try_emplace(O& o, int id) { o.try_emplace(id); }
};
} // namespace ty
// profile types whose last digit is 1 have a spare representation: v in [-1000-2, -1000]
template<class P> struct opt::option_traits<P, std::enable_if_t<std::is_base_of_v<ty::prof_key, P> && P::tr>> {
    static constexpr std::uintmax_t max_level = 3;
    static std::uintmax_t get_level(const P* const p) noexcept {
        int v; std::memcpy(&v, &p->v, sizeof v);
        return (v <= -1000 && v > -1003) ? static_cast<std::uintmax_t>(-1000 - v) : static_cast<std::uintmax_t>(-1);
    }
    static void set_level(P* const p, const std::uintmax_t level) noexcept {
        const int v = -1000 - static_cast<int>(level); std::memcpy(&p->v, &v, sizeof v);
    }
};
namespace ty {
template<class T> struct prof_ad { };
#define TY_AD(CC, CA, MC, MA, D, TR) template<> struct Ad<Prof##CC##CA##MC##MA##D##TR> : AdProf<Prof##CC##CA##MC##MA##D##TR> {};
#define TY_AD_D(CC, CA, MC, MA) TY_AD(CC, CA, MC, MA, 0, 0) TY_AD(CC, CA, MC, MA, 0, 1) TY_AD(CC, CA, MC, MA, 1, 0) TY_AD(CC, CA, MC, MA, 1, 1)
#define TY_AD_M(CC, CA) TY_AD_D(CC, CA, 0, 0) TY_AD_D(CC, CA, 0, 1) TY_AD_D(CC, CA, 1, 0) TY_AD_D(CC, CA, 1, 1)
TY_AD_M(0, 0) TY_AD_M(0, 1) TY_AD_M(1, 0) TY_AD_M(1, 1)

// applies X(type) to all profile types with the given copy-constructor/copy-assignment digits
#define TY_EACH_D(X, CC, CA, MC, MA) X(ty::Prof##CC##CA##MC##MA##00) X(ty::Prof##CC##CA##MC##MA##01) X(ty::Prof##CC##CA##MC##MA##10) X(ty::Prof##CC##CA##MC##MA##11)
#define TY_EACH_M(X, CC, CA) TY_EACH_D(X, CC, CA, 0, 0) TY_EACH_D(X, CC, CA, 0, 1) TY_EACH_D(X, CC, CA, 1, 0) TY_EACH_D(X, CC, CA, 1, 1)
} // namespace ty
