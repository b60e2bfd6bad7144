// Tracked element types: a registry of live objects keyed by address, and an injectable fault at every user-code point.
#pragma once
#include <algorithm>
#include <array>
#include <cstring>
#include <map>
#include <ostream>
#include <tuple>
#include <utility>
#include <vector>
#include <opt/option.hpp>
#include "mon.hpp"

namespace trk {
struct Boom { unsigned serial; };
struct Reg {
    std::map<std::uintptr_t, unsigned> live; // address -> serial of the object
    unsigned serial = 0, booms = 0;
    std::uint64_t constructed = 0, destroyed = 0, copies = 0, moves = 0, assigns = 0;
    long countdown = -1;   // >= 0: the countdown-th point from now throws
    long points = 0;       // user-code points passed since arming
    const char* what = ""; // label of the last point
    std::string tag;       // property-specific key prefix
};
inline Reg& R() { static Reg* r = new Reg; return *r; }
inline std::string key(const char* k) { return R().tag + "-" + k; }
inline void point(const char* what) {
    Reg& r = R();
    ++r.points; r.what = what;
    if (r.countdown >= 0 && r.countdown-- == 0) throw Boom{++r.booms};
}
inline void born(const void* p, const char* how) {
    Reg& r = R(); ++r.constructed;
    ++mon::st().evaluations;
    if (!r.live.emplace(reinterpret_cast<std::uintptr_t>(p), ++r.serial).second)
        mon::violation(key("construct-over-live"), "%s: an object is constructed on top of a live one", how);
}
inline void alive(const void* p, const char* how) {
    ++mon::st().evaluations;
    if (!R().live.count(reinterpret_cast<std::uintptr_t>(p))) mon::violation(key("dead-object-used"), "%s: no live object there", how);
}
inline void died(const void* p) {
    Reg& r = R(); ++r.destroyed;
    ++mon::st().evaluations;
    if (!r.live.erase(reinterpret_cast<std::uintptr_t>(p))) mon::violation(key("double-destroy"), "a destructor ran on something that is not a live object");
}
constexpr int TAG = 0x600D, DEADTAG = 0x0DEAD, MOVED = -7;

// The other type: option<Src> converts to option<T>.
struct Src {
    int id;
    explicit Src(int i) : id(i) { point("Src ctor"); born(this, "Src ctor"); }
    Src(const Src& o) : id(o.id) { alive(&o, "Src copy from"); point("Src copy"); born(this, "Src copy"); }
    Src(Src&& o) : id(o.id) { alive(&o, "Src move from"); point("Src move"); o.id = MOVED; born(this, "Src move"); }
    Src& operator=(const Src& o) { alive(this, "Src assign"); alive(&o, "Src assign from"); point("Src assign"); id = o.id; return *this; }
    Src& operator=(Src&& o) { alive(this, "Src assign"); alive(&o, "Src assign from"); point("Src assign"); id = o.id; if (this != &o) o.id = MOVED; return *this; }
    ~Src() { died(this); id = -99; }
};

struct Core {
    int id; int tag; const void* self;
    explicit Core(int i, const char* how) : id(i), tag(TAG), self(this) { point(how); born(this, how); }
    struct nothrow {};
    Core(int i, const char* how, nothrow) noexcept : id(i), tag(TAG), self(this) { born(this, how); }
    ~Core() { died(this); if (self != this) mon::violation(key("relocated"), "an object was moved bytewise"); tag = DEADTAG; id = -98; self = nullptr; }
    Core(const Core&) = delete;
    Core& operator=(const Core&) = delete;
    void ck(const char* how) const { alive(this, how); }
};
#define TRK_HEAD(N) \
    static constexpr const char* name = #N; \
    explicit N(int i) : Core(i, "value ctor") {} \
    N(const Src& s) : Core((alive(&s, "convert from"), s.id), "convert ctor") {} \
    N(Src&& s) : Core((alive(&s, "convert from"), s.id), "convert-move ctor") { s.id = MOVED; } \
    N& operator=(const Src& s) { ck("assign Src"); alive(&s, "assign from"); point("assign Src"); id = s.id; return *this; } \
    N& operator=(Src&& s) { ck("assign Src&&"); alive(&s, "assign from"); point("assign Src&&"); id = s.id; s.id = MOVED; return *this; } \
    friend bool operator==(const N& a, const N& b) { a.ck("=="); b.ck("=="); point("=="); return a.id == b.id; } \
    friend bool operator!=(const N& a, const N& b) { a.ck("!="); b.ck("!="); point("!="); return a.id != b.id; } \
    friend bool operator<(const N& a, const N& b) { a.ck("<"); b.ck("<"); point("<"); return a.id < b.id; } \
    friend bool operator<=(const N& a, const N& b) { a.ck("<="); b.ck("<="); point("<="); return a.id <= b.id; } \
    friend bool operator>(const N& a, const N& b) { a.ck(">"); b.ck(">"); point(">"); return a.id > b.id; } \
    friend bool operator>=(const N& a, const N& b) { a.ck(">="); b.ck(">="); point(">="); return a.id >= b.id; }
#define TRK_COPY(N) \
    N(const N& o) : Core((o.ck("copy from"), o.id), "copy ctor") { ++R().copies; } \
    N& operator=(const N& o) { ck("copy assign to"); o.ck("copy assign from"); point("copy assign"); id = o.id; ++R().assigns; return *this; }
#define TRK_NOCOPY(N) N(const N&) = delete; N& operator=(const N&) = delete;
#define TRK_MOVE(N) \
    N(N&& o) : Core((o.ck("move from"), o.id), "move ctor") { o.id = MOVED; ++R().moves; } \
    N& operator=(N&& o) { ck("move assign to"); o.ck("move assign from"); point("move assign"); id = o.id; if (this != &o) o.id = MOVED; ++R().assigns; return *this; }
#define TRK_NMOVE(N) \
    N(N&& o) noexcept : Core((o.ck("move from"), o.id), "nothrow move ctor", nothrow{}) { o.id = MOVED; ++R().moves; } \
    N& operator=(N&& o) noexcept { ck("move assign to"); o.ck("move assign from"); id = o.id; if (this != &o) o.id = MOVED; ++R().assigns; return *this; }
#define TRK_NOMOVE(N) N(N&&) = delete; N& operator=(N&&) = delete;
struct key_spare {};
// full, move only, copy only, nothrow move, immovable; each without and with a spare representation
struct TA : Core { TRK_HEAD(TA) TRK_COPY(TA) TRK_MOVE(TA) };
struct TAs : Core { TRK_HEAD(TAs) TRK_COPY(TAs) TRK_MOVE(TAs) using spare = key_spare; };
struct TM : Core { TRK_HEAD(TM) TRK_NOCOPY(TM) TRK_MOVE(TM) };
struct TMs : Core { TRK_HEAD(TMs) TRK_NOCOPY(TMs) TRK_MOVE(TMs) using spare = key_spare; };
struct TC : Core { TRK_HEAD(TC) TRK_COPY(TC) };
struct TCs : Core { TRK_HEAD(TCs) TRK_COPY(TCs) using spare = key_spare; };
struct TN : Core { TRK_HEAD(TN) TRK_COPY(TN) TRK_NMOVE(TN) };
struct TNs : Core { TRK_HEAD(TNs) TRK_COPY(TNs) TRK_NMOVE(TNs) using spare = key_spare; };
struct TI : Core { TRK_HEAD(TI) TRK_NOCOPY(TI) TRK_NOMOVE(TI) };
struct TIs : Core { TRK_HEAD(TIs) TRK_NOCOPY(TIs) TRK_NOMOVE(TIs) using spare = key_spare; };
// default constructible: with a constructor that may throw, and one that may not
struct TD : Core { TRK_HEAD(TD) TRK_COPY(TD) TRK_MOVE(TD) TD() : Core(0, "default ctor") {} };
struct TDs : Core { TRK_HEAD(TDs) TRK_COPY(TDs) TRK_MOVE(TDs) TDs() : Core(0, "default ctor") {} using spare = key_spare; };
struct TDn : Core { TRK_HEAD(TDn) TRK_COPY(TDn) TRK_NMOVE(TDn) TDn() noexcept : Core(0, "nothrow default ctor", nothrow{}) {} };
struct TDns : Core { TRK_HEAD(TDns) TRK_COPY(TDns) TRK_NMOVE(TDns) TDns() noexcept : Core(0, "nothrow default ctor", nothrow{}) {} using spare = key_spare; };
// copy constructible, not assignable
struct TX : Core { TRK_HEAD(TX) TX(const TX& o) : Core((o.ck("copy from"), o.id), "copy ctor") { ++R().copies; } TX(TX&& o) : Core((o.ck("move from"), o.id), "move ctor") { o.id = MOVED; ++R().moves; } TX& operator=(const TX&) = delete; TX& operator=(TX&&) = delete; };
// trivially copyable and destructible, with a constructor that throws after having written its bytes
struct TP { int id; int tag; explicit TP(int i) : id(i), tag(TAG) { point("partial ctor"); } static constexpr const char* name = "TP"; };
struct TPs { int id; int tag; explicit TPs(int i) : id(i), tag(TAG) { point("partial ctor"); } using spare = key_spare; static constexpr const char* name = "TPs"; };
// trivially destructible, user-provided throwing copy and move
struct TQ { int id; int tag; explicit TQ(int i) : id(i), tag(TAG) { point("ctor"); } TQ(const TQ& o) : id(o.id), tag(TAG) { point("copy"); } TQ(TQ&& o) : id(o.id), tag(TAG) { point("move"); o.id = MOVED; } TQ& operator=(const TQ& o) { point("assign"); id = o.id; return *this; } TQ& operator=(TQ&& o) { point("assign"); id = o.id; if (this != &o) o.id = MOVED; return *this; } static constexpr const char* name = "TQ"; };
struct TQs { int id; int tag; explicit TQs(int i) : id(i), tag(TAG) { point("ctor"); } TQs(const TQs& o) : id(o.id), tag(TAG) { point("copy"); } TQs(TQs&& o) : id(o.id), tag(TAG) { point("move"); o.id = MOVED; } TQs& operator=(const TQs& o) { point("assign"); id = o.id; return *this; } TQs& operator=(TQs&& o) { point("assign"); id = o.id; if (this != &o) o.id = MOVED; return *this; } using spare = key_spare; static constexpr const char* name = "TQs"; };
// non-trivial destructor, all else trivial (a union cannot track it in the registry without constructors that register)
struct Agg { TA first; int second; static constexpr const char* name = "aggregate{TA,int}"; };
struct AggS { int first; bool second; TA third; static constexpr const char* name = "aggregate{int,bool,TA}"; };
} // namespace trk

template<class T> struct opt::option_traits<T, std::enable_if_t<std::is_same_v<typename T::spare, trk::key_spare>>> {
    static constexpr std::uintmax_t max_level = 3;
    static std::uintmax_t get_level(const T* p) noexcept { int t; std::memcpy(&t, &p->tag, sizeof t); return t <= -50 && t > -53 ? std::uintmax_t(-50 - t) : std::uintmax_t(-1); }
    static void set_level(T* p, std::uintmax_t level) noexcept { const int t = -50 - int(level); std::memcpy(&p->tag, &t, sizeof t); }
};

namespace trk {
// The id of a value, and the live tracked objects it consists of.
template<class T> struct V;
template<class T> struct VCore {
    static T make(int id) { return T(id); }
    static int id(const T& v) { return v.id; }
    static void collect(const T& v, std::vector<std::uintptr_t>& out) { if constexpr (std::is_base_of_v<Core, T> || std::is_same_v<T, Src>) out.push_back(reinterpret_cast<std::uintptr_t>(&v)); else (void)v, (void)out; }
    static const char* name() { return T::name; }
    static constexpr bool direct = true, conv = std::is_base_of_v<Core, T>;
    template<class O> static void emplace(O& o, int id) { o.emplace(id); }
    template<class O> static void try_emplace(O& o, int id) { o.try_emplace(id); }
};
template<class T> struct V : VCore<T> {};
template<class T> struct V<const T> : V<T> { static const char* name() { return "const T"; } static constexpr bool conv = false; };
template<> struct V<int> { static int make(int id) { return id; } static int id(const int& v) { return v; } static void collect(const int&, std::vector<std::uintptr_t>&) {} };
template<> struct V<bool> { static bool make(int id) { return id % 2 == 1; } static void collect(const bool&, std::vector<std::uintptr_t>&) {} };
template<class T> struct VComp {
    static constexpr bool direct = false, conv = false;
    template<class O> static void emplace(O& o, int id) { o.emplace(V<T>::make(id)); }
    template<class O> static void try_emplace(O& o, int id) { o.try_emplace(V<T>::make(id)); }
};
template<class T> struct V<opt::option<T>> : VComp<opt::option<T>> {
    using X = opt::option<T>;
    static X make(int id) { if (id % 4 == 0) return opt::none; return X(std::in_place, V<T>::make(id)); }
    static int id(const X& v) { return v.has_value() ? V<T>::id(*v) : 0; }
    static void collect(const X& v, std::vector<std::uintptr_t>& out) { if (v.has_value()) V<T>::collect(*v, out); }
    static const char* name() { return std::is_same_v<T, TA> ? "option<TA>" : std::is_same_v<T, TAs> ? "option<TAs>" : "option<...>"; }
};
template<class A, class B> struct V<std::pair<A, B>> : VComp<std::pair<A, B>> {
    using X = std::pair<A, B>;
    static X make(int id) { return X(V<A>::make(id), V<B>::make(id)); }
    static int id(const X& v) { if constexpr (std::is_same_v<A, bool>) return V<B>::id(v.second); else return V<A>::id(v.first); }
    static void collect(const X& v, std::vector<std::uintptr_t>& out) { V<A>::collect(v.first, out); V<B>::collect(v.second, out); }
    static const char* name() { return "pair"; }
};
template<class A, class B> struct V<std::tuple<A, B>> : VComp<std::tuple<A, B>> {
    using X = std::tuple<A, B>;
    static X make(int id) { return X(V<A>::make(id), V<B>::make(id)); }
    static int id(const X& v) { return V<A>::id(std::get<0>(v)); }
    static void collect(const X& v, std::vector<std::uintptr_t>& out) { V<A>::collect(std::get<0>(v), out); V<B>::collect(std::get<1>(v), out); }
    static const char* name() { return "tuple"; }
};
template<class A> struct V<std::array<A, 2>> : VComp<std::array<A, 2>> {
    using X = std::array<A, 2>;
    static X make(int id) { return X{{V<A>::make(id), V<A>::make(id + 1)}}; }
    static int id(const X& v) { return V<A>::id(v[0]); }
    static void collect(const X& v, std::vector<std::uintptr_t>& out) { V<A>::collect(v[0], out); V<A>::collect(v[1], out); }
    static const char* name() { return "array"; }
};
template<> struct V<Agg> : VComp<Agg> {
    static Agg make(int id) { return {TA(id), id}; }
    static int id(const Agg& v) { return v.first.id; }
    static void collect(const Agg& v, std::vector<std::uintptr_t>& out) { V<TA>::collect(v.first, out); }
    static const char* name() { return Agg::name; }
};
template<> struct V<AggS> : VComp<AggS> {
    static AggS make(int id) { return {id, true, TA(id)}; }
    static int id(const AggS& v) { return v.first == v.third.id || v.third.id == MOVED ? v.third.id : -1; }
    static void collect(const AggS& v, std::vector<std::uintptr_t>& out) { V<TA>::collect(v.third, out); }
    static const char* name() { return AggS::name; }
};

template<class O> std::vector<std::uintptr_t> objects_of(const O& o) {
    std::vector<std::uintptr_t> v;
    if (o.has_value()) V<std::remove_const_t<typename O::value_type>>::collect(o.get(), v);
    return v;
}
// Exactly the objects the option claims to hold are alive inside its storage.
template<class O> bool audit(const O& o, const char* when, const char* which) {
    std::vector<std::uintptr_t> want = objects_of(o), got;
    const auto lo = reinterpret_cast<std::uintptr_t>(std::addressof(o)), hi = lo + sizeof(O);
    for (auto it = R().live.lower_bound(lo); it != R().live.end() && it->first < hi; ++it) got.push_back(it->first);
    std::sort(want.begin(), want.end());
    bool inside = true;
    for (auto p : want) inside = inside && p >= lo && p < hi;
    ++mon::st().evaluations;
    if (want != got || !inside)
        mon::violation(key("state-vs-live"), "after %s: option %s claims to hold %zu tracked objects (has_value=%d), %zu are alive in its storage", when, which, want.size(), o.has_value(), got.size());
    return want == got && inside;
}
} // namespace trk
