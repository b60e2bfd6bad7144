// C08: nested options against a model "number of engaged levels + value".
#ifndef GROUP
#define GROUP 0
#endif
#include "types.hpp"
using namespace ty;
namespace {
std::string g_type;
int g_cells[64];
template<class B> struct Leaf { // the innermost value
    using T = B;
    static constexpr int N = Ad<B>::N < 6 ? Ad<B>::N : 6;
    static B make(int id) { return Ad<B>::make(id); }
    static int id(const B& v) { return Ad<B>::id(v); }
    static int moved(int i) { return Ad<B>::moved_ctor(i); }
    static int moved_a(int i) { return Ad<B>::moved_assign(i); }
    static constexpr bool copyable = Ad<B>::copyable;
};
template<> struct Leaf<int&> { using T = int&; static constexpr int N = 6; static int& make(int id) { return g_cells[id]; } static int id(int& v) { return static_cast<int>(&v - g_cells); } static int moved(int i) { return i; } static int moved_a(int i) { return i; } static constexpr bool copyable = true; };
template<class B> struct Leaf<const B> : Leaf<B> { using T = const B; };
template<class B, int D> struct NestT { using type = opt::option<typename NestT<B, D - 1>::type>; };
template<class B> struct NestT<B, 0> { using type = B; };
template<class B, int D> using Nest = typename NestT<B, D>::type;

// model: e engaged levels (0..D), and the value when e == D
struct St { int e = 0; int id = 0; bool operator==(const St& o) const { return e == o.e && (id == o.id); } };
template<class B, int D> struct Box {
    using O = Nest<B, D>; using L = Leaf<B>;
    // read the state through the public interface
    template<int K> static St read_(const Nest<B, K>& o) {
        if constexpr (K == 0) { return {0, L::id(const_cast<std::remove_const_t<std::remove_reference_t<B>>&>(o))}; }
        else {
            if (!o.has_value()) { MCHECK(!static_cast<bool>(o) && o == opt::none && !(o != opt::none) && o.ptr_or_null() == nullptr, "C08-agree", "%s: ways of asking for emptiness disagree", g_type.c_str()); return {0, 0}; }
            St s = read_<K - 1>(*o); if (K > 1 || true) ++s.e; return s;
        }
    }
    static St read(const O& o) { return read_<D>(o); }
    template<int K> static void make_(Nest<B, K>& o, St s) { // o is empty before
        if constexpr (K >= 1) {
            if (s.e == 0) return;
            if constexpr (K == 1) o.emplace(L::make(s.id)); else { o.emplace(); make_<K - 1>(*o, {s.e - 1, s.id}); }
        }
    }
    template<int K> static Nest<B, K> value(St s) { Nest<B, K> o; make_<K>(o, s); return o; }
    static bool match(St got, St want) { return got.e == want.e && (got.e < D || want.id < 0 || got.id == want.id); }
    // call f with the sub-option k levels down
    template<int K, class X, class F> static void on(X& o, int k, F&& f) { if (k == 0) { f(std::integral_constant<int, K>{}, o); return; } if constexpr (K > 1) on<K - 1>(*o, k - 1, f); }
    template<int K, class X, class F> static void on2(X& a, X& b, int k, F&& f) { if (k == 0) { f(std::integral_constant<int, K>{}, a, b); return; } if constexpr (K > 1) on2<K - 1>(*a, *b, k - 1, f); }
    static St sub(St s, int k) { return {s.e - k, s.id}; }
    static St with(int k, St s) { return {k + s.e, s.id}; }
};
// results of comparing two states
template<class B> struct Cmp { using L = Leaf<B>; template<class F> static int base(int a, int b, F f) { return f(L::make(a), L::make(b)); } };
template<class B, class = void> struct has_lt : std::false_type {};
template<class B> struct is_uniq : std::false_type {}; template<class T> struct is_uniq<std::unique_ptr<T>> : std::true_type {}; template<class T> struct is_uniq<std::shared_ptr<T>> : std::true_type {};
template<class B> struct has_lt<B, std::void_t<std::enable_if_t<!is_uniq<std::remove_cv_t<B>>::value>, decltype(std::declval<const B&>() < std::declval<const B&>()), decltype(std::declval<const B&>() == std::declval<const B&>()), decltype(std::declval<const B&>() >= std::declval<const B&>())>> : std::true_type {};
template<class B, class = void> struct has_hash : std::false_type {};
template<class B> struct has_hash<B, std::enable_if_t<std::is_default_constructible_v<std::hash<B>>>> : std::true_type {};

enum Op { RESET, NONE_A, EMPL, ASSIGN_VAL, COPY, MOVE, SWAP, OSWAP, TAKE, CONSTRUCT_COPY, CONSTRUCT_MOVE, COMPARE, OROP, SELF, TAKEIF, TRYEMPL, OPS };
const char* const opname[] = {"reset", "= none", "emplace", "= inner value", "copy assignment", "move assignment", "swap", "opt::swap", "take", "copy construction", "move construction", "comparison", "|=", "self-assignment", "take_if", "try_emplace"};

template<class B, int D> struct Run {
    using X = Box<B, D>; using O = typename X::O; using L = Leaf<B>;
    static constexpr bool cp = L::copyable;
    static St moved(St s) { if (s.e == D) s.id = L::moved(s.id); return s; }
    static St moved_any(St s) { if (s.e == D) { const int a = L::moved(s.id), b = L::moved_a(s.id); s.id = a == b ? a : ANY; } return s; }
    static void check(const O& o, St want, const char* op, const char* which) {
        const St got = X::read(o);
        MCHECK(X::match(got, want), std::string("C08-state/") + op, "%s nested %d deep: after %s the %s is engaged %d deep (value %d), expected %d (value %d)", g_type.c_str(), D, op, which, got.e, got.id, want.e, want.id);
    }
    // one operation at depth k of a (and of b, for binary operations)
    static void step(int op, int k, O& a, St& sa, O& b, St& sb, mon::Rng& r) {
        if (sa.e < k || k >= D) return;
        const bool two = op == COPY || op == MOVE || op == SWAP || op == OSWAP || op == CONSTRUCT_COPY || op == CONSTRUCT_MOVE || op == COMPARE || op == OROP;
        if (two && sb.e < k) return;
        const bool anyv = (sa.e == D && sa.id < 0) || (sb.e == D && sb.id < 0);
        mon::context("type=%s D=%d op=%s depth=%d a=(%d,%d) b=(%d,%d)", g_type.c_str(), D, opname[op], k, sa.e, sa.id, sb.e, sb.id);
        mon::seen(mon::mix(mon::hash_str(g_type.c_str()) + static_cast<unsigned>(D), static_cast<std::uint64_t>(((op * 32 + k) * 32 + sa.e) * 32 + sb.e) * 4 + (anyv ? 1u : 0u)));
        const int vid = static_cast<int>(r.below(static_cast<std::uint64_t>(L::N)));
        switch (op) {
        case RESET: X::template on<D>(a, k, [&](auto, auto& o) { o.reset(); }); sa = {k, 0}; break;
        case NONE_A: X::template on<D>(a, k, [&](auto, auto& o) { o = opt::none; }); sa = {k, 0}; break;
        case EMPL: case TRYEMPL: X::template on<D>(a, k, [&](auto K, auto& o) {
                if (op == TRYEMPL && o.has_value()) { if constexpr (K() == 1) o.try_emplace(L::make(vid)); else o.try_emplace(); return; }
                if constexpr (K() == 1) { if (op == EMPL) o.emplace(L::make(vid)); else o.try_emplace(L::make(vid)); sa = {D, vid}; } else { if (op == EMPL) o.emplace(); else o.try_emplace(); sa = {k + 1, 0}; } }); break;
        case ASSIGN_VAL: { const int e = static_cast<int>(r.below(static_cast<std::uint64_t>(D - k)));
                X::template on<D>(a, k, [&](auto K, auto& o) { constexpr int KK = K(); if constexpr (KK == 1) { if constexpr (!std::is_const_v<B>) { o = L::make(vid); sa = {D, vid}; } } else { if constexpr (!std::is_const_v<B>) { St s{e, e == KK - 1 ? vid : 0}; o = X::template value<KK - 1>(s); sa = {k + 1 + s.e, s.id}; } } }); break; }
        case COPY: if constexpr (cp && !std::is_const_v<B>) { X::template on2<D>(a, b, k, [&](auto, auto& x, auto& y) { x = std::as_const(y); }); sa = X::with(k, X::sub(sb, k)); } break;
        case MOVE: if constexpr (!std::is_const_v<B>) { const St os = sb; const bool both = sa.e == D && sb.e == D; X::template on2<D>(a, b, k, [&](auto, auto& x, auto& y) { x = std::move(y); }); sa = sb; sb = both ? (os.e == D ? St{D, L::moved_a(os.id)} : os) : moved(os); } break;
        case SWAP: case OSWAP: if constexpr (!std::is_const_v<B>) { X::template on2<D>(a, b, k, [&](auto, auto& x, auto& y) { if (op == SWAP) x.swap(y); else opt::swap(x, y); }); std::swap(sa, sb); } break;
        case TAKE: case TAKEIF: X::template on<D>(a, k, [&](auto K, auto& o) { constexpr int KK = K();
                auto t = op == TAKE ? o.take() : o.take_if([](const auto&) { return true; }); const St got = X::template read_<KK>(t), want = X::sub(sa, k);
                MCHECK(got.e == want.e && (got.e < KK || want.id < 0 || got.id == want.id), "C08-result/take", "%s nested %d deep: take at depth %d gave (%d,%d), expected (%d,%d)", g_type.c_str(), D, k, got.e, got.id, want.e, want.id); }); sa = {k, 0}; break;
        case CONSTRUCT_COPY: if constexpr (cp) { X::template on<D>(b, k, [&](auto K, auto& y) { constexpr int KK = K(); Nest<B, KK> c(std::as_const(y)); const St got = X::template read_<KK>(c), want = X::sub(sb, k);
                MCHECK(got.e == want.e && (got.e < KK || want.id < 0 || got.id == want.id), "C08-result/copy", "%s nested %d deep: copy at depth %d gave (%d,%d), expected (%d,%d)", g_type.c_str(), D, k, got.e, got.id, want.e, want.id); }); } break;
        case CONSTRUCT_MOVE: X::template on<D>(b, k, [&](auto K, auto& y) { constexpr int KK = K(); Nest<B, KK> c(std::move(y)); const St got = X::template read_<KK>(c), want = X::sub(sb, k);
                MCHECK(got.e == want.e && (got.e < KK || want.id < 0 || got.id == want.id), "C08-result/move", "%s nested %d deep: move at depth %d gave (%d,%d), expected (%d,%d)", g_type.c_str(), D, k, got.e, got.id, want.e, want.id); }); if constexpr (std::is_const_v<B>) { if (sb.e == D) sb.id = L::moved(sb.id) == sb.id ? sb.id : ANY; } else sb = moved(sb); break;
        case COMPARE: if constexpr (has_lt<B>::value) { if (anyv) break;
                const St p = X::sub(sa, k), q = X::sub(sb, k); const bool both = sa.e == D && sb.e == D; decltype(auto) va = L::make(sa.id); decltype(auto) vb = L::make(sb.id);
                const bool eq = both ? va == vb : p.e == q.e, lt = both ? va < vb : p.e < q.e, ge = both ? va >= vb : p.e >= q.e;
                X::template on2<D>(a, b, k, [&](auto, auto& x, auto& y) { MCHECK((x == y) == eq && (x != y) == (both ? va != vb : !eq) && (x < y) == lt && (x >= y) == ge && (y > x) == (both ? vb > va : lt) && (y <= x) == (both ? vb <= va : ge), "C08-compare", "%s nested %d deep: comparing states (%d,%d) and (%d,%d) at depth %d is wrong", g_type.c_str(), D, sa.e, sa.id, sb.e, sb.id, k);
                    if constexpr (has_hash<std::remove_cv_t<std::remove_reference_t<B>>>::value && !std::is_reference_v<B>) { using H = std::hash<std::decay_t<decltype(x)>>; if (eq) MCHECK(H{}(x) == H{}(y), "C08-hash", "%s nested %d deep: equal options hash differently", g_type.c_str(), D); } }); } break;
        case OROP: if constexpr (cp && !std::is_const_v<B>) { X::template on2<D>(a, b, k, [&](auto, auto& x, auto& y) { x |= y; }); if (sa.e == k) sa = sb; } break;
        case SELF: if constexpr (cp && !std::is_const_v<B>) { X::template on<D>(a, k, [&](auto, auto& o) { auto& alias = o; o = alias; }); } break;
        }
        check(a, sa, opname[op], "target"); check(b, sb, opname[op], "other");
        mon::count("operations");
    }
    static O build(St s) { return X::template value<D>(s); }
    static void exhaustive() { // every pair of states, depth and operation
        mon::Rng r(mon::st().seed);
        for (int op = 0; op < OPS; ++op) for (int k = 0; k < D; ++k) for (int ea = k; ea <= D; ++ea) for (int eb = 0; eb <= D; ++eb) for (int same = 0; same < 2; ++same) {
            St sa{ea, ea == D ? 1 % L::N : 0}, sb{eb, eb == D ? (same ? 1 % L::N : 2 % L::N) : 0};
            if (same && (ea < D || eb < D)) continue;
            alignas(O) unsigned char raw[2][sizeof(O)]; std::memset(raw, int(r.next() & 255), sizeof raw);
            O& a = *new (raw[0]) O(build(sa)); O& b = *new (raw[1]) O(build(sb));
            check(a, sa, "construction", "target");
            step(op, k, a, sa, b, sb, r);
            a.~O(); b.~O();
        }
    }
    static void random(int histories, int steps) {
        mon::Rng r(mon::st().seed * 977 + D);
        for (int h = 0; h < histories; ++h) {
            O v[3]; St s[3];
            for (int i = 0; i < steps; ++i) {
                const int x = static_cast<int>(r.below(3)); int y = static_cast<int>(r.below(3)); if (y == x) y = (x + 1) % 3;
                const int op = r.chance(1, 3) ? EMPL : static_cast<int>(r.below(OPS));
                const int k = r.chance(1, 2) ? std::min(s[x].e, D - 1) : static_cast<int>(r.below(D));
                step(op, k, v[x], s[x], v[y], s[y], r);
                const int z = 3 - x - y; check(v[z], s[z], opname[op], "bystander");
                // a moved-from leaf is unspecified for some types: overwrite it
                for (int q : {x, y}) if (s[q].e == D && s[q].id < 0) { v[q].reset(); s[q] = {0, 0}; }
            }
        }
    }
};
template<class B, int... D> void run(const char* name) {
    g_type = name; const int S = static_cast<int>(mon::st().scale);
    (Run<B, D>::exhaustive(), ...);
    (Run<B, D>::random(40 * S, 120), ...);
}
// one very deep option: every state, and every depth emptied or moved out from every state
template<class B, int D> struct DeepRun {
    using O = Nest<B, D>; using X = Box<B, D>;
    template<int K> static int rd(const Nest<B, K>& o) { if constexpr (K == 0) return 0; else return o.has_value() ? 1 + rd<K - 1>(*o) : 0; }
    template<int K> static void mk(Nest<B, K>& o, int e) { if constexpr (K > 0) { if (e == 0) o.reset(); else { if constexpr (K == 1) o.emplace(Leaf<B>::make(1)); else o.emplace(); mk<K - 1>(*o, e - 1); } } }
    template<int K> static void empty_at(Nest<B, K>& o, int k, int how) { if constexpr (K > 0) { if (k) empty_at<K - 1>(*o, k - 1, how); else if (how == 0) o.reset(); else o = opt::none; } }
    template<int K> static int leaf(const Nest<B, K>& o) { if constexpr (K == 0) return Leaf<B>::id(o); else return leaf<K - 1>(*o); }
    static void run() {
        O* v = new O[2];
        for (int e = 0; e <= D; ++e) {
            mon::context("type=%s D=%d e=%d", g_type.c_str(), D, e); mon::seen(mon::mix(mon::hash_str(g_type.c_str()) + D, static_cast<unsigned>(e)));
            mk<D>(v[0], e); MCHECK(rd<D>(v[0]) == e && (e < D || leaf<D>(v[0]) == 1), "C08-deep/write", "%s nested %d deep: state %d reads back as %d", g_type.c_str(), D, e, rd<D>(v[0]));
            O c(v[0]); MCHECK(rd<D>(c) == e && rd<D>(v[0]) == e, "C08-deep/copy", "%s nested %d deep: copy of state %d reads as %d", g_type.c_str(), D, e, rd<D>(c));
#ifdef DEEP_FULL
            const int f = (e * 7 + 3) % (D + 1); mk<D>(v[1], f); v[0].swap(v[1]); MCHECK(rd<D>(v[0]) == f && rd<D>(v[1]) == e, "C08-deep/swap", "%s nested %d deep: swapping states %d and %d gave %d and %d", g_type.c_str(), D, e, f, rd<D>(v[0]), rd<D>(v[1]));
            c = v[0]; MCHECK(rd<D>(c) == f, "C08-deep/assign", "%s nested %d deep: assigning state %d to state %d gave %d", g_type.c_str(), D, f, e, rd<D>(c));
#endif
            const int stride = mon::st().scale > 1 ? 1 : 37; for (int k = e % stride; k <= e && k < D; k += stride) { mk<D>(v[0], e); empty_at<D>(v[0], k, k & 1); MCHECK(rd<D>(v[0]) == k, "C08-deep/reset", "%s nested %d deep: emptying depth %d of state %d gave state %d", g_type.c_str(), D, k, e, rd<D>(v[0])); }
        }
        delete[] v;
    }
};
template<class B, int D> void deep(const char* name) { g_type = name; DeepRun<B, D>::run(); }
template<class T> const char* nm() { return Ad<T>::name; }
#define A(T, ...) run<T, __VA_ARGS__>(nm<T>());
} // namespace
int main(int argc, char** argv) {
    mon::init(argc, argv);
#if GROUP == 0
    A(bool, 2, 3, 5, 9) A(ESent, 1, 2, 3, 4) A(EStartEnd, 2, 3, 4, 5, 6) A(int, 2, 3, 5)
#elif GROUP == 1
    A(std::string, 2, 3, 5) A(std::unique_ptr<int>, 2, 3, 5) A(double, 2, 3, 5) A(int*, 2, 4) A(std::vector<int>, 2, 4)
#elif GROUP == 2
    A(Prof111111, 2, 3, 4, 5) A(Prof000001, 2, 4, 5) A(Prof111110, 2, 4) A(Prof000000, 2, 4) A(Prof100001, 2, 4)
#elif GROUP == 3
    A(Sent3, 2, 3, 4, 5) A(SentV, 2, 3) A(Memb, 2, 4) A(Enf, 2, 4) A(Pad, 2, 4) A(Poly, 2, 4) A(EU8, 2, 4)
#elif GROUP == 4
    using PB = std::pair<int, bool>; using TP = std::tuple<std::string, ESent>; using AB = std::array<ESent, 2>; using PN = std::pair<int, short>; using PO = std::pair<opt::option<int>, short>;
    run<PB, 2, 4>("pair<int,bool>"); 
    A(Empty, 2, 4) A(std::reference_wrapper<int>, 2, 4) A(std::string_view, 2, 4) A(std::complex<float>, 2, 3) A(TupLike, 2, 4)
    run<int&, 2, 3, 5>("int&"); run<const int, 2, 4>("const int"); run<const bool, 2, 4>("const bool"); run<const std::string, 2, 3>("const string");
    run<PN, 2, 3>("pair<int,short>"); run<PO, 2, 4>("pair<option<int>,short>");
#elif GROUP == 5 // past the last spare pattern of bool and of the flag
    deep<DEEP_TYPE, DEEP>(DEEP_NAME);
#endif
    return mon::finish();
}
