// C13: the operators |, |=, & and ^.
#ifndef GROUP
#define GROUP 0
#endif
#include "types.hpp"
#include "count.hpp"
using namespace ty;
namespace {
std::string g_type;
const char* const catname[] = {"&", "const&", "&&", "const&&"};
template<int I, class O> constexpr decltype(auto) as(O& o) {
    if constexpr (I == 0) return static_cast<O&>(o);
    else if constexpr (I == 1) return static_cast<const O&>(o);
    else if constexpr (I == 2) return static_cast<O&&>(o);
    else return static_cast<const O&&>(o);
}
template<class T> using Elem = std::remove_cv_t<std::remove_reference_t<T>>;
#define SAME(...) static_assert(std::is_same_v<__VA_ARGS__>, "documented result type")
template<class T> struct Slot {
    using E = Elem<T>; static constexpr bool ref = std::is_reference_v<T>;
    E obj; opt::option<T> o; bool has; int id;
    Slot(bool h, int i) : obj(Ad<E>::make(i)), has(h), id(i) { if (!h) return; if constexpr (ref) o.emplace(obj); else o.emplace(Ad<E>::make(i)); }
    Slot(const Slot&) = delete;
    bool same() const { return o.has_value() == has && (!has || Ad<E>::id(*o) == id) && (!ref || !has || static_cast<const void*>(std::addressof(*o)) == std::addressof(obj)); }
};
// `r` must be: the element of `from` (null: nothing)
template<class R, class T> void expect(const char* op, const opt::option<R>& r, const Slot<T>* from, const char* how) {
    const bool has = from != nullptr;
    MCHECK(r.has_value() == has, std::string("C13-state/") + op, "%s of %s (%s): has_value is %d", op, g_type.c_str(), how, int(r.has_value()));
    if (has && r.has_value()) {
        MCHECK(Ad<Elem<R>>::id(*r) == from->id, std::string("C13-value/") + op, "%s of %s (%s): holds value id %d instead of %d", op, g_type.c_str(), how, Ad<Elem<R>>::id(*r), from->id);
        if constexpr (std::is_reference_v<R>) MCHECK(static_cast<const void*>(std::addressof(*r)) == std::addressof(from->obj), std::string("C13-reference/") + op, "%s of %s designates another object", op, g_type.c_str());
    }
}
template<class T> void source(const char* op, int form, const Slot<T>& s, bool chosen) {
    if (form != 2 || !chosen || std::is_reference_v<T>) MCHECK(s.same(), std::string("C13-source/") + op, "%s of %s: an operand passed as %s %s changed", op, g_type.c_str(), catname[form], chosen ? "and chosen" : "but not chosen");
    else MCHECK(s.o.has_value() == s.has, std::string("C13-source/") + op, "%s of %s: the moved operand lost its value", op, g_type.c_str());
}
template<class T, int I> constexpr bool takeable = I == 2 || std::is_reference_v<T> || std::is_copy_constructible_v<T>;
template<class T, class U, int I, int J> void and1(int m, int ia, int ib) {
    if constexpr (takeable<U, J>) {
        Slot<T> a(m & 1, ia); Slot<U> b((m >> 1) & 1, ib);
        auto r = as<I>(a.o) & as<J>(b.o); SAME(decltype(r), opt::option<U>);
        expect("&", r, m == 3 ? &b : nullptr, catname[J]); source("&", I, a, false); source("&", J, b, (m & 1) != 0);
        mon::seen(mon::mix(mon::hash_str(g_type.c_str()), 100000 + ((m * 4 + I) * 4 + J)));
    }
}
template<class T, int I, int J> void pair1(int m, int ia, int ib) {
    mon::context("%s %s op %s, states %d, ids %d %d", g_type.c_str(), catname[I], catname[J], m, ia, ib);
    if constexpr (takeable<T, I> && takeable<T, J>) {
        { Slot<T> a(m & 1, ia), b((m >> 1) & 1, ib); auto r = as<I>(a.o) | as<J>(b.o); SAME(decltype(r), opt::option<T>);
          expect("|", r, (m & 1) ? &a : (m & 2) ? &b : nullptr, catname[I]); source("|", I, a, true); source("|", J, b, !(m & 1)); }
        { Slot<T> a(m & 1, ia), b((m >> 1) & 1, ib); auto r = as<I>(a.o) ^ as<J>(b.o); SAME(decltype(r), opt::option<T>);
          expect("^", r, m == 1 ? &a : m == 2 ? &b : nullptr, catname[J]); source("^", I, a, m == 1); source("^", J, b, m == 2); }
    }
    if constexpr (I == 0 && takeable<T, J> && !std::is_const_v<T> && (std::is_reference_v<T> || J == 2 || std::is_copy_assignable_v<T>)) {
        Slot<T> a(m & 1, ia), b((m >> 1) & 1, ib); const void* at = a.has ? std::addressof(*a.o) : nullptr;
        auto& q = (a.o |= as<J>(b.o));
        MCHECK(std::addressof(q) == std::addressof(a.o), "C13-return/|=", "|= of %s returns another object", g_type.c_str());
        expect("|=", a.o, (m & 1) ? &a : (m & 2) ? &b : nullptr, catname[J]); source("|=", J, b, !(m & 1));
        if (at) MCHECK(at == std::addressof(*a.o), "C13-identity/|=", "|= on a holding option of %s replaced the contained object", g_type.c_str());
    }
    and1<T, T, I, J>(m, ia, ib); and1<T, std::string, I, J>(m, ia, ib % 50); and1<opt::option<int>, T, I, J>(m, ia % 10, ib);
    mon::seen(mon::mix(mon::hash_str(g_type.c_str()), mon::mix((m * 4 + I) * 4 + J, ia == ib)));
}
template<class T, int I> void rows(int m, int a, int b) { pair1<T, I, 0>(m, a, b); pair1<T, I, 1>(m, a, b); pair1<T, I, 2>(m, a, b); pair1<T, I, 3>(m, a, b); }
// fallback values
template<class T, int I, int J> void fallback(int has, int ia, int ib) {
    using E = Elem<T>;
    if constexpr (takeable<T, I> && takeable<T, J> && !opt::is_option_v<E> && !std::is_const_v<T>) {
        Slot<T> a(has, ia); E v = Ad<E>::make(ib);
        mon::context("%s %s | value %s, has %d", g_type.c_str(), catname[I], catname[J], has);
        if constexpr (!std::is_reference_v<T>) {
            auto r = as<I>(a.o) | as<J>(v); SAME(decltype(r), T);
            MCHECK(Ad<E>::id(r) == (has ? ia : ib), "C13-value/|value", "option | value of %s %s: result is value id %d", g_type.c_str(), has ? "holding" : "empty", Ad<E>::id(r));
            source("|value", I, a, true); if (J != 2 || has) MCHECK(Ad<E>::id(v) == ib, "C13-source/|value", "option | value of %s: the fallback changed", g_type.c_str());
            if constexpr (I == 0 && (J == 2 || std::is_copy_assignable_v<T>)) { Slot<T> c(has, ia); E w = Ad<E>::make(ib); auto& q = (c.o |= as<J>(w)); MCHECK(std::addressof(q) == std::addressof(c.o) && c.o.has_value() && Ad<E>::id(*c.o) == (has ? ia : ib), "C13-value/|=value", "option |= value of %s %s: wrong result", g_type.c_str(), has ? "holding" : "empty"); if (J != 2 || has) MCHECK(Ad<E>::id(w) == ib, "C13-source/|=value", "option |= value of %s: the value changed", g_type.c_str()); }
        } else if constexpr (J == 0) {
            decltype(auto) r = as<I>(a.o) | v; SAME(decltype(r), T); MCHECK(std::addressof(r) == (has ? std::addressof(a.obj) : std::addressof(v)), "C13-reference/|value", "reference option | object of %s designates another object", g_type.c_str());
            a.o |= v; MCHECK(a.o.ptr_or_null() == (has ? std::addressof(a.obj) : std::addressof(v)) && Ad<E>::id(a.obj) == ia, "C13-reference/|=value", "reference option |= object of %s", g_type.c_str());
        }
    }
    if constexpr (I == 0 && J == 0 && !std::is_const_v<T>) { Slot<T> a(has, ia); a.o |= opt::none; MCHECK(a.same(), "C13-value/|=none", "%s |= none changed the option", g_type.c_str()); }
}
template<class T, int I> void fbrow(int h, int a, int b) { fallback<T, I, 0>(h, a, b); fallback<T, I, 1>(h, a, b); fallback<T, I, 2>(h, a, b); fallback<T, I, 3>(h, a, b); }
template<class T, class O> bool eq(const O& a, const O& b) { return a.has_value() == b.has_value() && (!a.has_value() || Ad<Elem<T>>::id(*a) == Ad<Elem<T>>::id(*b)); }
template<class T> void laws(mon::Rng& r) {
    if constexpr (std::is_copy_constructible_v<T> && !std::is_const_v<T>) for (int m = 0; m < 8; ++m) for (int k = 0; k < 4; ++k) {
        using E = Elem<T>; const unsigned N = static_cast<unsigned>(Ad<E>::N); const int i = int(r.below(N)), j = int(r.below(N)), l = int(r.below(N));
        Slot<T> A(m & 1, i), B((m >> 1) & 1, j), C((m >> 2) & 1, l); auto &a = A.o, &b = B.o, &c = C.o; const opt::option<T> z;
        mon::context("laws of %s, states %d ids %d %d %d", g_type.c_str(), m, i, j, l);
        auto law = [&](bool ok, const char* what) { MCHECK(ok, std::string("C13-law/") + what, "%s fails for %s, states %d", what, g_type.c_str(), m); };
        law(eq<T>((a | b) | c, a | (b | c)), "associativity of |"); law(eq<T>((a & b) & c, a & (b & c)), "associativity of &");
        law(eq<T>(a | z, a) && eq<T>(z | a, a), "identity of |"); law(!(a & z).has_value() && !(z & a).has_value(), "absorption of &"); law(eq<T>(a ^ z, a) && eq<T>(z ^ a, a), "identity of ^");
        law(eq<T>(a | a, a) && eq<T>(a & a, a) && !(a ^ a).has_value(), "idempotence"); law((a ^ b).has_value() == (b ^ a).has_value() && eq<T>(a ^ b, b ^ a), "commutativity of ^");
        law(eq<T>(a | b, a.or_else([&] { return b; })), "| and or_else"); law(eq<T>(a & b, a.has_value() ? b : z), "& and selection"); law(eq<T>(a ^ b, (a.has_value() == b.has_value()) ? z : (a | b)), "^ and |");
        law(eq<T>((a & b) | c, a.has_value() && b.has_value() ? b : c), "mixed"); law(eq<T>((a | b) & c, (a & c) | (b & c)), "distribution of & over |");
        { Slot<T> D(m & 1, i); if constexpr (std::is_copy_assignable_v<T> || std::is_reference_v<T>) { D.o |= D.o; law(D.same(), "self |="); opt::option<T> e = a; e |= b; law(eq<T>(e, a | b), "|= and |"); e |= c; law(eq<T>(e, a | b | c), "|= chain"); } }
        law(A.same() && B.same() && C.same(), "operands unchanged");
    }
}
template<class T> void run(const char* name, mon::Rng& r) {
    g_type = name; const int N = Ad<Elem<T>>::N;
    for (unsigned long n = 0; n < mon::st().scale; ++n) {
        for (int m = 0; m < 4; ++m) for (int k = 0; k < 4; ++k) {
            int a = int(r.below(unsigned(N))), b = int(r.below(unsigned(N))); if (k == 0) { a = 0; b = 1 % N; } else if (k == 1) b = a;
            rows<T, 0>(m, a, b); rows<T, 1>(m, a, b); rows<T, 2>(m, a, b); rows<T, 3>(m, a, b);
            if (m < 2) { fbrow<T, 0>(m, a, b); fbrow<T, 1>(m, a, b); fbrow<T, 2>(m, a, b); fbrow<T, 3>(m, a, b); }
        }
        laws<T>(r);
    }
}
#define RUN(...) run<__VA_ARGS__>(#__VA_ARGS__, r);
// copies and moves
template<class T, int I, int J> void counts() {
    using cnt::L; using V = cnt::V<T>; constexpr bool copy = V::copy;
    if constexpr (copy || (I == 2 && J == 2)) for (int m = 0; m < 4; ++m) for (int op = 0; op < 4; ++op) {
        opt::option<T> a, b; if (m & 1) a.emplace(V::make(1)); if (m & 2) b.emplace(V::make(2));
        mon::context("copies of %s op %d forms %s %s states %d", V::name().c_str(), op, catname[I], catname[J], m);
        int chosen = -1; L() = {};
        if (op == 0) { auto r = as<I>(a) | as<J>(b); chosen = (m & 1) ? I : (m & 2) ? J : -1; (void)r; }
        else if (op == 1) { auto r = as<I>(a) ^ as<J>(b); chosen = m == 1 ? I : m == 2 ? J : -1; (void)r; }
        else if (op == 2) { auto r = as<I>(a) & as<J>(b); chosen = m == 3 ? J : -1; (void)r; }
        else { if constexpr (I == 0 || !copy) { a |= as<J>(b); chosen = m == 2 ? J : -1; } else continue; }
        const auto& l = L(); const int copies = l.cc + l.ca, moves = l.mc + l.ma, want = chosen < 0 || chosen == 2 ? 0 : 1;
        MCHECK(copies == want, "C13-copies", "operator %s of %s (%s, %s, states %d): %d copies instead of %d", op == 0 ? "|" : op == 1 ? "^" : op == 2 ? "&" : "|=", V::name().c_str(), catname[I], catname[J], m, copies, want);
        MCHECK(chosen >= 0 || moves == 0, "C13-copies", "operator %d of %s (%s, %s, states %d) moved an element that is not the result", op, V::name().c_str(), catname[I], catname[J], m);
        mon::seen(mon::mix(mon::hash_str(V::name().c_str()), 500000 + ((m * 4 + op) * 4 + I) * 4 + J));
    }
}
template<class T> void countall() {
    counts<T, 0, 0>(); counts<T, 0, 1>(); counts<T, 0, 2>(); counts<T, 0, 3>(); counts<T, 1, 0>(); counts<T, 1, 1>(); counts<T, 1, 2>(); counts<T, 1, 3>();
    counts<T, 2, 0>(); counts<T, 2, 1>(); counts<T, 2, 2>(); counts<T, 2, 3>(); counts<T, 3, 0>(); counts<T, 3, 1>(); counts<T, 3, 2>(); counts<T, 3, 3>();
}
} // namespace
int main(int argc, char** argv) {
    mon::init(argc, argv);
    mon::Rng r(mon::st().seed); (void)r;
#if GROUP == 0
    RUN(int) RUN(bool) RUN(float) RUN(double) RUN(int*) RUN(EPlain) RUN(ESent) RUN(std::reference_wrapper<int>)
#elif GROUP == 1
    RUN(std::string) RUN(std::vector<int>) RUN(std::unique_ptr<int>) RUN(std::variant<int, std::string>) RUN(std::pair<int, std::string>) RUN(Agg)
#elif GROUP == 2
    RUN(std::tuple<int, double, std::string>) RUN(std::pair<bool, int>) RUN(std::array<std::string, 2>) RUN(Pad) RUN(Poly) RUN(Empty)
#elif GROUP == 3
    RUN(opt::option<int>) RUN(opt::option<opt::option<std::string>>) RUN(int&) RUN(const int&) RUN(std::string&) RUN(const std::string&) RUN(Poly&) RUN(const int) RUN(const std::string)
#elif GROUP == 4
    countall<cnt::C>(); countall<cnt::M>(); countall<cnt::Cs>(); countall<cnt::Ms>(); countall<std::pair<cnt::C, bool>>(); countall<std::tuple<int, cnt::M>>(); countall<cnt::AggC>(); countall<opt::option<cnt::C>>(); countall<std::array<cnt::Cs, 1>>();
    { using opt::option; option<std::string> s, t("t"); MCHECK((s | "lit") == "lit" && (t | "lit") == "t" && (option<std::string>() | std::string_view("v").data()) == "v" && (std::move(t) | "q") == "t", "C13-convert", "option<string> | const char*");
      option<int> i, j(5); MCHECK((i | 7L) == 7 && (j | 7L) == 5 && (i | 'a') == 'a' && (i | true) == 1, "C13-convert", "option<int> | other integers"); i |= 9L; MCHECK(i == 9, "C13-convert", "option<int> |= long"); i |= 10; MCHECK(i == 9, "C13-convert", "holding |= value"); i.reset(); i |= option<short>(short(3)); MCHECK(i == 3, "C13-convert", "|= option of another type"); i |= option<short>(short(4)); MCHECK(i == 3, "C13-convert", "holding |= option of another type"); i.reset(); i |= option<short>(); MCHECK(!i.has_value(), "C13-convert", "|= empty option of another type");
      s |= "text"; MCHECK(s == "text", "C13-convert", "option<string> |= const char*"); option<bool> b; b |= false; MCHECK(b.has_value() && !*b, "C13-convert", "|= false"); b |= true; MCHECK(b.has_value() && !*b, "C13-convert", "holding false |= true");
      option<option<int>> n; n |= option<int>(); MCHECK(n.has_value() && !n->has_value(), "C13-convert", "option<option<int>> |= option<int>"); n |= option<int>(3); MCHECK(n.has_value() && !n->has_value(), "C13-convert", "option<option<int>> holding none |= option<int>");
      option<const char*> e; option<long> f(1); MCHECK(!(f & e).has_value() && (e & f).has_value() == false, "C13-convert", "& of different types"); option<std::unique_ptr<int>> u; MCHECK(*(std::move(u) | std::make_unique<int>(4)) == 4, "C13-convert", "move-only fallback"); u |= std::make_unique<int>(6); MCHECK(u.has_value() && **u == 6, "C13-convert", "|= move-only value"); auto w = f & std::move(u); MCHECK(w.has_value() && **w == 6, "C13-convert", "& of a move-only option");
      struct D : Empty {}; int x = 1, y = 2; option<int&> rx(x), rn; option<const int&> cr; cr |= rx; MCHECK(cr.ptr_or_null() == &x, "C13-convert", "option<const int&> |= option<int&>"); rn |= y; rx |= y; MCHECK(rn.ptr_or_null() == &y && rx.ptr_or_null() == &x && x == 1, "C13-convert", "reference |= object"); (rn | x) = 7; MCHECK(y == 7, "C13-convert", "reference | object is assignable");
      auto chain = option<int>() | option<int>() | option<int>(3) | option<int>(4) | 9; MCHECK(chain == 3, "C13-convert", "chain of |"); auto& q = ((i |= option<int>()) |= 12) |= 13; MCHECK(&q == &i && i == 12, "C13-convert", "chain of |="); }
#endif
    return mon::finish();
}
