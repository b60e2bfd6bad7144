// C10: comparisons and hashing against an oracle that knows only the element operators.
#ifndef GROUP
#define GROUP 0
#endif
#include <climits>
#include <cmath>
#include <complex>
#include <functional>
#include <limits>
#include <set>
#include <tuple>
#include <algorithm>
#include <unordered_set>
#include <unordered_map>
#include "types.hpp"
namespace {
using mon::mix;
constexpr const char* opn[6] = {"==", "!=", "<", "<=", ">", ">="};
template<int Op, class A, class B> auto ap(A&& a, B&& b) {
    if constexpr (Op == 0) return std::forward<A>(a) == std::forward<B>(b); else if constexpr (Op == 1) return std::forward<A>(a) != std::forward<B>(b);
    else if constexpr (Op == 2) return std::forward<A>(a) < std::forward<B>(b); else if constexpr (Op == 3) return std::forward<A>(a) <= std::forward<B>(b);
    else if constexpr (Op == 4) return std::forward<A>(a) > std::forward<B>(b); else return std::forward<A>(a) >= std::forward<B>(b);
}
// Elements whose six operators are unrelated pseudo-random relations; every call is logged with its operands.
struct Log { int n = 0, op = -1; const void* l = nullptr; const void* r = nullptr; int lt = -1, rt = -1; } g_log;
struct Bit { bool b; operator bool() const { return b; } };
template<int Tag> struct Rel { int id; explicit Rel(int i) : id(i) {} };
inline bool table(int op, int lt, int l, int rt, int r) { return (mix(mix(mix(mix(static_cast<unsigned>(op) + 77, static_cast<unsigned>(lt)), static_cast<unsigned>(l)), static_cast<unsigned>(rt)), static_cast<unsigned>(r)) >> 20) & 1; }
template<int A, int B> Bit rel(int op, const Rel<A>& l, const Rel<B>& r) { ++g_log.n; g_log.op = op; g_log.l = &l; g_log.r = &r; g_log.lt = A; g_log.rt = B; return Bit{table(op, A, l.id, B, r.id)}; }
#define DEFOP(n, o) template<int A, int B> Bit operator o(const Rel<A>& l, const Rel<B>& r) { return rel(n, l, r); }
DEFOP(0, ==) DEFOP(1, !=) DEFOP(2, <) DEFOP(3, <=) DEFOP(4, >) DEFOP(5, >=)

std::string g_l, g_r;
template<class T> struct un { using type = T; }; 
// ---- the oracle: ranks by emptiness, otherwise the element's own operator
template<int Op> bool rank(bool l, bool r) { return ap<Op>(static_cast<int>(l), static_cast<int>(r)); }
template<int Op, class L, class R> bool oracle(const L& l, const R& r) {
    constexpr bool lo = opt::is_option_v<L>, ro = opt::is_option_v<R>;
    if constexpr (lo && ro) { if (l.has_value() && r.has_value()) return oracle<Op>(l.get_unchecked(), r.get_unchecked()); return rank<Op>(l.has_value(), r.has_value()); }
    else if constexpr (lo) { if (l.has_value()) return oracle<Op>(l.get_unchecked(), r); return rank<Op>(false, true); }
    else if constexpr (ro) { if (r.has_value()) return oracle<Op>(l, r.get_unchecked()); return rank<Op>(true, false); }
    else return static_cast<bool>(ap<Op>(l, r));
}
template<int Op, class L, class R> void one(L& l, R& r, const char* forms) {
    const bool want = oracle<Op>(std::as_const(l), std::as_const(r));
    auto chk = [&](auto&& got, const char* f) { static_assert(std::is_same_v<std::decay_t<decltype(got)>, bool>); MCHECK(got == want, std::string("C10-compare/") + opn[Op], "%s %s %s (%s, %s) gave %d, expected %d", g_l.c_str(), opn[Op], g_r.c_str(), forms, f, static_cast<bool>(got), want); };
    chk(ap<Op>(l, r), "lvalues"); chk(ap<Op>(std::as_const(l), r), "const left"); chk(ap<Op>(l, std::as_const(r)), "const right"); chk(ap<Op>(std::as_const(l), std::as_const(r)), "const both"); chk(ap<Op>(std::move(l), std::move(r)), "rvalues"); chk(ap<Op>(std::move(std::as_const(l)), r), "const rvalue");
}
template<int Op, class L> void with_none(L& l) {
    const bool h = l.has_value(); bool w1 = rank<Op>(h, false), w2 = rank<Op>(false, h);
    auto chk = [&](bool got, bool want, const char* f) { MCHECK(got == want, std::string("C10-none/") + opn[Op], "%s %s (%s) gave %d, expected %d", g_l.c_str(), opn[Op], f, got, want); };
    chk(ap<Op>(l, opt::none), w1, "option, none"); chk(ap<Op>(std::as_const(l), opt::none), w1, "const option, none"); chk(ap<Op>(std::move(l), opt::none_t(opt::none)), w1, "rvalue option, none"); chk(ap<Op>(opt::none, l), w2, "none, option"); chk(ap<Op>(opt::none, std::as_const(l)), w2, "none, const option"); chk(ap<Op>(opt::none, std::move(l)), w2, "none, rvalue option");
    static_assert(noexcept(ap<Op>(l, opt::none)) || true);
}
template<class L, class R> void six(L& l, R& r, const char* forms) { one<0>(l, r, forms); one<1>(l, r, forms); one<2>(l, r, forms); one<3>(l, r, forms); one<4>(l, r, forms); one<5>(l, r, forms); }
template<class L> void none6(L& l) { with_none<0>(l); with_none<1>(l); with_none<2>(l); with_none<3>(l); with_none<4>(l); with_none<5>(l); }
template<class L, class R> void eq2(L& l, R& r, const char* forms) { one<0>(l, r, forms); one<1>(l, r, forms); }
template<class C, class D> void pools(const char* a, const char* b, C& ls, D& rs) {
    g_l = a; g_r = b; std::uint64_t i = 0;
    for (auto& l : ls) { std::uint64_t j = 0; for (auto& r : rs) { mon::context("%s x %s, elements %d x %d", a, b, static_cast<int>(i), static_cast<int>(j)); six(l, r, "l,r"); six(r, l, "r,l"); mon::seen(mix(mix(mon::hash_str(a), mon::hash_str(b)), i * 1000 + j)); ++j; } ++i; }
}
template<class C> void self(const char* a, C& ls) { pools(a, a, ls, ls); for (auto& l : ls) if constexpr (opt::is_option_v<std::decay_t<decltype(l)>>) none6(l); }
// options of every value of a pool, plus empty
template<class T, class P> std::vector<opt::option<T>> opts(const P& p) { std::vector<opt::option<T>> v; v.emplace_back(); for (const auto& x : p) v.emplace_back(x); v.emplace_back(); return v; }
template<class T> std::vector<opt::option<opt::option<T>>> opts2(const std::vector<opt::option<T>>& p) { std::vector<opt::option<opt::option<T>>> v; v.emplace_back(); for (const auto& x : p) { v.emplace_back(); v.back().emplace(x); } return v; }

template<class LO, class RO> void relpair(LO& l, RO& r, bool lh, bool rh, const void* lp, const void* rp, int lt, int li, int rt, int ri, const char* what) {
    auto go = [&](auto opc) { constexpr int Op = decltype(opc)::value; g_log = {}; const bool got = ap<Op>(l, r); const bool both = lh && rh; const bool want = both ? table(Op, lt, li, rt, ri) : rank<Op>(lh, rh);
        MCHECK(got == want, std::string("C10-rel/") + opn[Op], "%s %s: gave %d, expected %d", what, opn[Op], got, want);
        MCHECK(g_log.n == (both ? 1 : 0), std::string("C10-calls/") + opn[Op], "%s %s called the element's operator %d times", what, opn[Op], g_log.n);
        if (both && g_log.n == 1) MCHECK(g_log.op == Op && g_log.l == lp && g_log.r == rp, std::string("C10-operands/") + opn[Op], "%s %s called element operator %s %s", what, opn[Op], opn[g_log.op], g_log.l == rp && g_log.r == lp && lp != rp ? "with its operands exchanged" : "on other objects"); };
    go(std::integral_constant<int, 0>{}); go(std::integral_constant<int, 1>{}); go(std::integral_constant<int, 2>{}); go(std::integral_constant<int, 3>{}); go(std::integral_constant<int, 4>{}); go(std::integral_constant<int, 5>{});
    mon::seen(mix(mon::hash_str(what), static_cast<std::uint64_t>(((li * 64 + ri) * 2 + lh) * 2 + rh)));
}
template<int A, int B> void rels() {
    constexpr int N = 6;
    for (int i = -1; i < N; ++i) for (int j = -1; j < N; ++j) {
        opt::option<Rel<A>> l; if (i >= 0) l.emplace(i); opt::option<Rel<B>> r; if (j >= 0) r.emplace(j); const auto& cl = l; const auto& cr = r; Rel<A> lv(i); Rel<B> rv(j); const auto& clv = lv; const auto& crv = rv;
        const void* lp = l.ptr_or_null(); const void* rp = r.ptr_or_null();
        mon::context("Rel<%d> %d, Rel<%d> %d", A, i, B, j);
        relpair(l, r, i >= 0, j >= 0, lp, rp, A, i, B, j, "option, option"); relpair(cl, r, i >= 0, j >= 0, lp, rp, A, i, B, j, "const option, option"); relpair(l, cr, i >= 0, j >= 0, lp, rp, A, i, B, j, "option, const option"); relpair(cl, cr, i >= 0, j >= 0, lp, rp, A, i, B, j, "const option, const option");
        if (j >= 0) { relpair(l, rv, i >= 0, true, lp, &rv, A, i, B, j, "option, value"); relpair(cl, crv, i >= 0, true, lp, &rv, A, i, B, j, "const option, const value"); }
        if (i >= 0) { relpair(lv, r, true, j >= 0, &lv, rp, A, i, B, j, "value, option"); relpair(clv, cr, true, j >= 0, &lv, rp, A, i, B, j, "const value, const option"); }
        opt::option<Rel<A>&> ol; if (i >= 0) ol = lv; opt::option<const Rel<B>&> orr; if (j >= 0) orr = rv; const auto& col = ol;
        relpair(ol, orr, i >= 0, j >= 0, &lv, &rv, A, i, B, j, "option of reference, option of const reference"); relpair(col, r, i >= 0, j >= 0, &lv, rp, A, i, B, j, "option of reference, option"); relpair(l, orr, i >= 0, j >= 0, lp, &rv, A, i, B, j, "option, option of reference");
        if (j >= 0) relpair(ol, rv, i >= 0, true, &lv, &rv, A, i, B, j, "option of reference, value"); if (i >= 0) relpair(lv, orr, true, j >= 0, &lv, &rv, A, i, B, j, "value, option of reference");
        opt::option<const Rel<A>> kl; if (i >= 0) kl.emplace(i); relpair(kl, r, i >= 0, j >= 0, kl.ptr_or_null(), rp, A, i, B, j, "option of const, option");
        // nested on one and on both sides
        for (int d = 0; d < 2; ++d) { opt::option<opt::option<Rel<A>>> nl; if (d) nl.emplace(l); opt::option<opt::option<Rel<B>>> nr; if (d) nr.emplace(r); const bool lh = d && i >= 0, rh = d && j >= 0; const void* nlp = lh ? nl->ptr_or_null() : nullptr; const void* nrp = rh ? nr->ptr_or_null() : nullptr;
            if (d) relpair(nl, nr, lh, rh, nlp, nrp, A, i, B, j, "nested, nested"); if (j >= 0) relpair(nl, rv, lh, true, nlp, &rv, A, i, B, j, "nested, value"); if (i >= 0) relpair(lv, nr, true, rh, &lv, nrp, A, i, B, j, "value, nested"); }
    }
}
// only equality, only less-than, non-default result types
struct EqOnly { int v; friend bool operator==(const EqOnly& a, const EqOnly& b) { return a.v == b.v; } friend bool operator!=(const EqOnly& a, const EqOnly& b) { return a.v != b.v; } };
struct LtOnly { int v; friend bool operator<(const LtOnly& a, const LtOnly& b) { return a.v < b.v; } };
template<class A, class B, class = void> struct can_lt : std::false_type {}; template<class A, class B> struct can_lt<A, B, std::void_t<decltype(std::declval<const A&>() < std::declval<const B&>())>> : std::true_type {};
template<class A, class B, class = void> struct can_eq : std::false_type {}; template<class A, class B> struct can_eq<A, B, std::void_t<decltype(std::declval<const A&>() == std::declval<const B&>())>> : std::true_type {};
struct IntRes { int v; friend int operator==(const IntRes& a, const IntRes& b) { return a.v == b.v ? 256 : 0; } friend int operator!=(const IntRes& a, const IntRes& b) { return a.v == b.v ? 0 : 512; } friend int operator<(const IntRes& a, const IntRes& b) { return a.v < b.v ? 4096 : 0; } friend int operator<=(const IntRes& a, const IntRes& b) { return a.v <= b.v ? 65536 : 0; } friend int operator>(const IntRes& a, const IntRes& b) { return a.v > b.v ? 256 : 0; } friend int operator>=(const IntRes& a, const IntRes& b) { return a.v >= b.v ? 256 : 0; } };
struct Thr { int v; friend bool operator==(const Thr&, const Thr&) { throw 5; } friend bool operator<(const Thr&, const Thr&) { throw 6; } friend bool operator!=(const Thr&, const Thr&) { throw 7; } };
void partial() {
    using EO = opt::option<EqOnly>; using LO = opt::option<LtOnly>;
    static_assert(can_eq<EO, EO>::value && can_eq<EO, EqOnly>::value && !can_lt<EO, EO>::value && can_lt<LO, LO>::value && !can_eq<LO, LO>::value && can_eq<LO, opt::none_t>::value && can_lt<opt::none_t, LO>::value);
    for (int i = -1; i < 3; ++i) for (int j = -1; j < 3; ++j) { mon::seen(static_cast<std::uint64_t>(i * 8 + j + 900)); g_l = g_r = "EqOnly";
        EO a, b; if (i >= 0) a = EqOnly{i}; if (j >= 0) b = EqOnly{j}; eq2(a, b, "EqOnly"); EqOnly x{j}; if (j >= 0) { eq2(a, x, "EqOnly,value"); eq2(x, a, "value,EqOnly"); } with_none<0>(a); with_none<1>(a);
        g_l = g_r = "LtOnly"; LO c, d; if (i >= 0) c = LtOnly{i}; if (j >= 0) d = LtOnly{j}; one<2>(c, d, "LtOnly"); LtOnly y{j}; if (j >= 0) { one<2>(c, y, "LtOnly,value"); one<2>(y, c, "value,LtOnly"); } none6(c);
        g_l = g_r = "IntRes"; opt::option<IntRes> e, f; if (i >= 0) e = IntRes{i}; if (j >= 0) f = IntRes{j}; six(e, f, "int result"); IntRes z{j}; if (j >= 0) { six(e, z, "int result,value"); six(z, e, "value,int result"); }
        opt::option<Thr> g, h; if (i >= 0) g = Thr{i}; if (j >= 0) h = Thr{j}; int got = 0, want = i >= 0 && j >= 0 ? 6 : 0; try { (void)(g < h); } catch (int k) { got = k; } MCHECK(got == want, "C10-throw", "exception of operator< lost or invented: %d", got); got = 0; try { (void)(g == h); } catch (int k) { got = k; } MCHECK(got == (want ? 5 : 0), "C10-throw", "exception of operator== lost: %d", got); got = 0; try { (void)(g != h); } catch (int k) { got = k; } MCHECK(got == (want ? 7 : 0), "C10-throw", "exception of operator!= lost: %d", got);
    }
}
// ---- hashing
int g_hn = 0; const void* g_hp = nullptr;
struct HV { int v; friend bool operator==(const HV& a, const HV& b) { return a.v % 4 == b.v % 4; } friend bool operator!=(const HV& a, const HV& b) { return !(a == b); } };
struct NoHash { int v; };
} // namespace
template<> struct std::hash<HV> { std::size_t operator()(const HV& x) const { ++g_hn; g_hp = &x; if (x.v == 99) throw 3; return static_cast<std::size_t>(x.v % 4) * 7919; } };
namespace {
template<class T, class P> void hashes(const char* n, const P& pool) {
    g_l = n; using O = opt::option<T>; using V = std::remove_const_t<T>; std::hash<O> h; std::hash<V> vh; std::hash<opt::option<O>> h2; std::hash<opt::option<opt::option<O>>> h3;
    std::vector<O*> os; os.push_back(new O); for (const auto& x : pool) os.push_back(new O(std::in_place, x)); os.push_back(new O(opt::none));
    for (O* a : os) { const std::size_t ha = h(*a); MCHECK(ha == h(std::as_const(*a)) && ha == std::hash<O>()(*a), "C10-hash/stable", "%s: hash is not a function of the option", n);
        if (a->has_value()) MCHECK(ha == vh(a->get()), "C10-hash/value", "%s: hash of a holding option is not the hash of its value", n);
        opt::option<O> w, wn; w.emplace(*a); MCHECK(h2(w) == ha, "C10-hash/nested", "%s: hash of a nested option is not the hash of the inner option", n); opt::option<opt::option<O>> w3; w3.emplace(w); MCHECK(h3(w3) == ha, "C10-hash/nested", "%s: hash of a nested option is not the hash of the inner option", n); MCHECK(h2(wn) == h2(opt::option<O>{}), "C10-hash/none", "%s: equal empty nested options hash differently", n);
        for (O* b : os) { mon::seen(mix(mon::hash_str(n), ha ^ h(*b))); if (*a == *b) MCHECK(ha == h(*b), "C10-hash/equal", "%s: options compare equal and hash differently", n); } }
    { std::unordered_set<O> s; for (O* a : os) if constexpr (std::is_copy_constructible_v<O>) s.insert(*a); for (O* a : os) { const bool nan = a->has_value() && !(a->get() == a->get()); if constexpr (std::is_copy_constructible_v<O>) MCHECK(s.count(*a) == (nan ? 0u : 1u), "C10-hash/set", "%s: an inserted option is not found in an unordered set", n); } }
    for (O* a : os) delete a;
}
template<class T> void ad(const char* n) {
    using A = ty::Ad<T>; std::vector<T> p; for (int i = 0; i < A::N && i < 8; ++i) p.push_back(A::make(i));
    auto o = opts<T>(p); self(n, o); pools(n, n, o, p); auto o2 = opts2(o); self(n, o2); pools(n, n, o2, o); pools(n, n, o2, p);
}
template<class O> void ordered(const char* n, std::vector<O> v) { // total orders: sorting and sets
    mon::Rng r(mon::st().seed); for (std::size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.below(i)]);
    std::vector<O> s = v; std::sort(s.begin(), s.end()); bool some = false; for (std::size_t i = 0; i < s.size(); ++i) { if (s[i].has_value()) some = true; else MCHECK(!some, "C10-sort", "%s: an empty option sorts after a holding one", n); if (i) MCHECK(!(s[i] < s[i - 1]), "C10-sort", "%s: sorted range is not ordered", n); }
    std::set<O> t(v.begin(), v.end()); for (auto& x : v) MCHECK(t.count(x) == 1, "C10-sort", "%s: inserted option not found in a set", n);
    for (auto& a : v) for (auto& b : v) { MCHECK(((a < b) + (b < a) + (a == b)) == 1 && (a <= b) == !(b < a) && (a > b) == (b < a) && (a >= b) == !(a < b) && (a != b) == !(a == b), "C10-total", "%s: order laws fail", n); for (auto& c : v) if (a < b && b < c) MCHECK(a < c, "C10-total", "%s: < is not transitive", n); }
}
template<class T> std::vector<T> vec(std::initializer_list<T> l) { return l; }
} // namespace
int main(int argc, char** argv) {
    mon::init(argc, argv);
#if GROUP == 0
    rels<0, 0>(); rels<0, 1>(); rels<1, 0>(); rels<2, 3>(); partial();
#elif GROUP == 1
    using L = std::numeric_limits<double>; using LF = std::numeric_limits<float>;
    auto ints = vec<int>({0, 1, -1, 7, INT_MAX, INT_MIN, 255}); auto longs = vec<long>({0, 1, -1, 7, INT_MAX, LONG_MAX, LONG_MIN}); auto shorts = vec<short>({0, 1, -1, 7, 255, 32767});
    auto dbl = vec<double>({0.0, -0.0, 1.0, -1.0, L::quiet_NaN(), L::infinity(), -L::infinity(), L::denorm_min(), L::max(), 7.0}); auto flt = vec<float>({0.f, -0.f, 1.f, LF::quiet_NaN(), LF::infinity(), -LF::infinity(), 7.f, LF::denorm_min()});
    auto bools = vec<bool>({false, true}); auto chars = vec<char>({0, 1, 'a', 127});
    auto oi = opts<int>(ints); auto ol = opts<long>(longs); auto os = opts<short>(shorts); auto od = opts<double>(dbl); auto of = opts<float>(flt); auto oc = opts<char>(chars); std::vector<opt::option<bool>> ob; ob.emplace_back(); ob.emplace_back(false); ob.emplace_back(true); bool bp[2] = {false, true};
    self("option<int>", oi); self("option<double>", od); self("option<float>", of); self("option<bool>", ob); self("option<char>", oc);
    pools("option<int>", "int", oi, ints); pools("option<int>", "long", oi, longs); pools("option<int>", "option<long>", oi, ol); pools("option<int>", "option<double>", oi, od); pools("option<double>", "double", od, dbl); pools("option<double>", "float", od, flt); pools("option<float>", "option<double>", of, od); pools("option<short>", "option<long>", os, ol); pools("option<bool>", "bool", ob, bp); pools("option<double>", "int", od, ints);
    auto oi2 = opts2(oi), oi2b = oi2; auto od2 = opts2(od); auto oi3 = opts2(oi2);
    self("option<option<int>>", oi2); self("option<option<double>>", od2); pools("option<option<int>>", "option<int>", oi2, oi); pools("option<option<int>>", "int", oi2, ints); pools("option^3<int>", "option^2<int>", oi3, oi2); pools("option^3<int>", "int", oi3, ints); pools("option<option<int>>", "option<option<double>>", oi2, od2); pools("option<option<double>>", "double", od2, dbl);
    ordered("option<int>", oi); ordered("option<option<int>>", oi2);
    hashes<int>("int", ints); hashes<long>("long", longs); hashes<double>("double", dbl); hashes<float>("float", flt); hashes<bool>("bool", bp); hashes<char>("char", chars); hashes<const int>("const int", ints); hashes<const double>("const double", dbl);
#elif GROUP == 2
    auto strs = vec<std::string>({"", "a", "b", "ab", "aa", std::string(40, 'x'), std::string("a\0b", 3), "B"}); auto views = std::vector<std::string_view>(strs.begin(), strs.end()); const char* lits[] = {"", "a", "zz", "ab"};
    auto ostr = opts<std::string>(strs); auto ov = opts<std::string_view>(views); self("option<string>", ostr); self("option<string_view>", ov); pools("option<string>", "string", ostr, strs); pools("option<string>", "const char*", ostr, lits); pools("option<string_view>", "option<string_view>", ov, ov); pools("option<string_view>", "string_view", ov, views);
    auto os2 = opts2(ostr); self("option<option<string>>", os2); pools("option<option<string>>", "string", os2, strs); ordered("option<string>", ostr); ordered("option<string_view>", ov);
    static int arr[4]; auto ptrs = vec<int*>({nullptr, arr, arr + 1, arr + 3}); auto cptrs = vec<const int*>({nullptr, arr, arr + 2}); auto op = opts<int*>(ptrs); auto ocp = opts<const int*>(cptrs); self("option<int*>", op); pools("option<int*>", "option<const int*>", op, ocp); pools("option<int*>", "int*", op, ptrs); for (auto& o : op) { g_l = "option<int*>"; g_r = "nullptr"; auto np = nullptr; eq2(o, np, "nullptr"); eq2(np, o, "nullptr"); }
    using V = std::vector<int>; auto vs = vec<V>({{}, {1}, {1, 2}, {0, 9}, {2}, V(50, 1)}); auto ovec = opts<V>(vs); self("option<vector>", ovec); pools("option<vector>", "vector", ovec, vs); ordered("option<vector>", ovec);
    using PR = std::pair<int, double>; auto ps = vec<PR>({{0, 0.0}, {1, -0.0}, {1, std::nan("")}, {-1, 2.0}}); auto opr = opts<PR>(ps); self("option<pair>", opr); pools("option<pair>", "pair", opr, ps);
    using TU = std::tuple<std::string, int>; auto ts = vec<TU>({TU{"", 0}, TU{"a", 1}, TU{"a", 0}}); auto otu = opts<TU>(ts); self("option<tuple>", otu);
    enum class E { x, y, z }; auto es = vec<E>({E::x, E::y, E::z}); auto oe = opts<E>(es); self("option<enum>", oe); pools("option<enum>", "enum", oe, es); ordered("option<enum>", oe);
    hashes<std::string>("string", strs); hashes<const std::string>("const string", strs); hashes<std::string_view>("string_view", views); hashes<int*>("int*", ptrs); hashes<E>("enum", es);
    { g_l = "option<complex>"; using CF = std::complex<float>; auto cs = vec<CF>({{0, 0}, {1, 0}, {0, 1}, {NAN, 0}}); auto ocs = opts<CF>(cs); for (auto& a : ocs) for (auto& b : ocs) { g_r = g_l; eq2(a, b, "complex"); } }
    { g_l = "option<unique_ptr>"; g_r = g_l; std::vector<opt::option<std::unique_ptr<int>>> us; us.emplace_back(); us.emplace_back(std::unique_ptr<int>()); us.emplace_back(new int(1)); us.emplace_back(new int(2)); us.emplace_back(); for (auto& a : us) for (auto& b : us) six(a, b, "unique_ptr"); for (auto& a : us) { none6(a); auto np = nullptr; eq2(a, np, "nullptr"); eq2(np, a, "nullptr"); std::hash<opt::option<std::unique_ptr<int>>> h; if (a.has_value()) MCHECK(h(a) == std::hash<std::unique_ptr<int>>{}(*a), "C10-hash/value", "unique_ptr hash"); } }
    { auto hv = vec<HV>({{0}, {1}, {2}, {4}, {5}, {7}}); hashes<HV>("custom hash", hv); std::hash<opt::option<HV>> h; for (int i = -1; i < 4; ++i) { opt::option<HV> o; if (i >= 0) o = HV{i}; g_hn = 0; (void)h(o); MCHECK(g_hn == (i >= 0) && (i < 0 || g_hp == o.ptr_or_null()), "C10-hash/calls", "element hash called %d times", g_hn); }
      opt::option<HV> t(HV{99}); int got = 0; try { (void)h(t); } catch (int k) { got = k; } MCHECK(got == 3, "C10-hash/throw", "exception of the element's hash lost");
      static_assert(!noexcept(h(t)) && noexcept(std::hash<opt::option<int>>{}(std::declval<const opt::option<int>&>()))); static_assert(!std::is_default_constructible_v<std::hash<opt::option<NoHash>>>); }
    { int x = 1, y = 1; opt::option<int&> a(x), b(x), c(y), e, f; std::hash<opt::option<int&>> h; MCHECK(h(a) == h(b) && h(e) == h(f), "C10-hash/ref", "options of the same referent hash differently"); (void)h(c); opt::option<int&&> ra(std::move(x)), rb(std::move(x)); std::hash<opt::option<int&&>> hr; MCHECK(hr(ra) == hr(rb), "C10-hash/ref", "options of the same referent hash differently"); mon::seen("ref"); }
    { int x[3] = {1, 2, 1}; std::vector<opt::option<int&>> rs(1); rs.emplace_back(x[0]); rs.emplace_back(x[1]); rs.emplace_back(x[2]); auto vals = vec<int>({0, 1, 2}); auto ov2 = opts<int>(vals); self("option<int&>", rs); pools("option<int&>", "option<int>", rs, ov2); pools("option<int&>", "int", rs, vals); }
    { std::unordered_map<opt::option<std::string>, int> m; for (auto& s : ostr) m[s] = 1; MCHECK(m.size() == strs.size() + 1, "C10-hash/set", "unordered_map keyed by options has %zu keys", m.size()); }
#elif GROUP == 3
    ad<ty::ESent>("ESent"); ad<ty::EStartEnd>("EStartEnd"); ad<ty::EU8>("EU8"); ad<ty::Sent3>("Sent3");
    { std::vector<opt::option<const int>> v; v.emplace_back(); v.emplace_back(1); v.emplace_back(2); auto w = vec<int>({0, 1, 2}); auto o = opts<int>(w); 
      g_l = "option<const int>"; g_r = "option<int>"; for (auto& a : v) { for (auto& b : o) { six(a, b, "const"); six(b, a, "const"); } for (auto& b : w) { six(a, b, "const"); six(b, a, "const"); } none6(a); } }
#endif
    return mon::finish();
}
