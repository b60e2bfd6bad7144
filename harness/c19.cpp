// C19: checked access and iteration.
#ifndef GROUP
#define GROUP 0
#endif
#include <algorithm>
#include <exception>
#include <iterator>
#include <list>
#include <numeric>
#include <set>
#if __cplusplus >= 202002L
#include <memory>
#include <ranges>
#include <span>
#endif
#include "types.hpp"
using namespace ty;
namespace {
std::string g_type;
const char* const catname[] = {"&", "const&", "&&", "const&&"};
template<int I, class O> constexpr decltype(auto) as(O& o) noexcept {
    if constexpr (I == 0) return static_cast<O&>(o);
    else if constexpr (I == 1) return static_cast<const O&>(o);
    else if constexpr (I == 2) return static_cast<O&&>(o);
    else return static_cast<const O&&>(o);
}
template<class T, int I> struct access { using type = std::conditional_t<I == 0, T&, std::conditional_t<I == 1, const T&, std::conditional_t<I == 2, T&&, const T&&>>>; };
template<class T, int I> struct access<T&, I> { using type = T&; };
template<class T, int I> using access_t = typename access<T, I>::type;
template<class T> const void* at(T&& r) { return static_cast<const volatile void*>(std::addressof(r)) == nullptr ? nullptr : const_cast<const void*>(static_cast<const volatile void*>(std::addressof(r))); }
#define TYPE(...) static_assert(std::is_same_v<__VA_ARGS__>, "documented type")
void key(const char* what) { mon::seen(mon::mix(mon::hash_str(g_type.c_str()), mon::hash_str(what))); }
#define SAMEAT(p, path) MCHECK((p) == want, std::string("C19-address/") + (path), "%s of %s designates another object (%+lld bytes away)", path, g_type.c_str(), (long long)((const char*)(p) - (const char*)want))

// every path to the contained object of an engaged option
template<int I, class T> void paths(opt::option<T>& o, const void* want) {
    using R = access_t<T, I>;
    TYPE(decltype(as<I>(o).get()), R); TYPE(decltype(*as<I>(o)), R); TYPE(decltype(as<I>(o).get_unchecked()), R);
    TYPE(decltype(as<I>(o).value()), R); TYPE(decltype(as<I>(o).value_or_throw()), R);
    static_assert(noexcept(as<I>(o).get()) && noexcept(*as<I>(o)) && noexcept(as<I>(o).get_unchecked()) && noexcept(as<I>(o).has_value()) && noexcept(static_cast<bool>(as<I>(o))));
    SAMEAT(at(as<I>(o).get()), "get"); SAMEAT(at(*as<I>(o)), "operator*"); SAMEAT(at(as<I>(o).get_unchecked()), "get_unchecked");
    try { SAMEAT(at(as<I>(o).value()), "value"); SAMEAT(at(as<I>(o).value_or_throw()), "value_or_throw"); }
    catch (...) { MCHECK(false, "C19-throw/engaged", "value of an engaged option<%s> %s threw", g_type.c_str(), catname[I]); }
    MCHECK(as<I>(o).has_value() && static_cast<bool>(as<I>(o)), "C19-state/engaged", "an engaged option<%s> %s says it is empty", g_type.c_str(), catname[I]);
    mon::seen(mon::mix(mon::hash_str(g_type.c_str()), 100 + I));
}
template<class T, class O> void pointers(O& o, const void* want) {
    using P = std::remove_reference_t<T>;
    using Q = std::conditional_t<std::is_reference_v<T> || !std::is_const_v<O>, P, const P>;
    TYPE(decltype(o.operator->()), Q*); TYPE(decltype(o.ptr_or_null()), Q*);
    static_assert(noexcept(o.operator->()) && noexcept(o.ptr_or_null()) && noexcept(o.begin()) && noexcept(o.end()));
    SAMEAT(static_cast<const void*>(o.operator->()), "operator->"); SAMEAT(static_cast<const void*>(o.ptr_or_null()), "ptr_or_null");
}
template<> void pointers<FnPtr>(opt::option<FnPtr>&, const void*) {}
template<> void pointers<FnPtr>(const opt::option<FnPtr>&, const void*) {}
template<> void pointers<MemFn>(opt::option<MemFn>&, const void*) {}
template<> void pointers<MemFn>(const opt::option<MemFn>&, const void*) {}

// iteration
template<class T, class O> void iterate(O& o, bool has, const void* want) {
    using It = decltype(o.begin()); using Tr = std::iterator_traits<It>; using V = std::remove_reference_t<decltype(*o.begin())>;
    TYPE(It, decltype(o.end())); static_assert(std::is_same_v<It, typename opt::option<T>::iterator> || std::is_same_v<It, typename opt::option<T>::const_iterator>);
    static_assert(std::is_base_of_v<std::random_access_iterator_tag, typename Tr::iterator_category>);
    TYPE(typename Tr::value_type, std::remove_cv_t<V>); TYPE(typename Tr::reference, V&); TYPE(typename Tr::difference_type, std::ptrdiff_t);
    static_assert(std::is_default_constructible_v<It> && std::is_copy_constructible_v<It> && std::is_copy_assignable_v<It> && std::is_trivially_copyable_v<It> && std::is_swappable_v<It>);
    if constexpr (!std::is_reference_v<T>) static_assert(std::is_const_v<V> == std::is_const_v<O>);
    const std::ptrdiff_t n = has ? 1 : 0;
    int visits = 0;
    for (auto&& x : o) { ++visits; SAMEAT(at(x), "range for"); }
    MCHECK(visits == n, "C19-visits/range-for", "range for over option<%s> visits %d elements instead of %td", g_type.c_str(), visits, n);
    visits = 0; for (auto it = o.begin(); it != o.end(); it++) { ++visits; SAMEAT(at(*it), "*it"); }
    MCHECK(visits == n, "C19-visits/forward", "option<%s>: %d elements visited instead of %td", g_type.c_str(), visits, n);
    visits = 0; for (auto it = o.end(); it != o.begin();) { --it; ++visits; SAMEAT(at(*it), "*--it"); if constexpr (!std::is_same_v<std::remove_cv_t<V>, FnPtr> && !std::is_same_v<std::remove_cv_t<V>, MemFn>) SAMEAT(static_cast<const void*>(it.operator->()), "it->"); }
    MCHECK(visits == n, "C19-visits/backward", "option<%s>: %d elements visited backwards instead of %td", g_type.c_str(), visits, n);
    visits = 0; for (auto it = std::make_reverse_iterator(o.end()); it != std::make_reverse_iterator(o.begin()); ++it) { ++visits; SAMEAT(at(*it), "reverse"); }
    MCHECK(visits == n, "C19-visits/reverse", "option<%s>: %d elements visited through reverse iterators instead of %td", g_type.c_str(), visits, n);
    MCHECK(std::distance(std::begin(o), std::end(o)) == n && std::distance(std::cbegin(o), std::cend(o)) == n, "C19-distance", "option<%s>: distance is not %td", g_type.c_str(), n);
    // arithmetic: position of an iterator against position of another
    for (std::ptrdiff_t p = 0; p <= n; ++p) for (std::ptrdiff_t q = 0; q <= n; ++q) {
        It a = o.begin(), b = o.end(); a += p; b -= n - q;
        mon::context("option<%s> %s: iterator positions %td %td", g_type.c_str(), has ? "engaged" : "empty", p, q);
        const bool e = p == q, l = p < q;
        MCHECK((a == b) == e && (a != b) == !e && (a < b) == l && (a > b) == (q < p) && (a <= b) == (p <= q) && (a >= b) == (p >= q), "C19-iterator/compare", "iterators of option<%s> at %td and %td compare wrongly", g_type.c_str(), p, q);
        MCHECK(a - b == p - q && b - a == q - p, "C19-iterator/difference", "iterators of option<%s> at %td and %td differ by %td", g_type.c_str(), p, q, a - b);
        MCHECK(a + (q - p) == b && (q - p) + a == b && b - (q - p) == a, "C19-iterator/plus", "iterator arithmetic of option<%s> from %td to %td is wrong", g_type.c_str(), p, q);
        It c = a; It& rc = (c += q - p); MCHECK(c == b && std::addressof(rc) == std::addressof(c), "C19-iterator/+=", "+= on an iterator of option<%s> is wrong", g_type.c_str());
        c = b; It& rd = (c -= q - p); MCHECK(c == a && std::addressof(rd) == std::addressof(c), "C19-iterator/-=", "-= on an iterator of option<%s> is wrong", g_type.c_str());
        c = a; std::advance(c, q - p); MCHECK(c == b && std::next(a, q - p) == b, "C19-iterator/advance", "advance on an iterator of option<%s> is wrong", g_type.c_str());
        It x = a, y = b; std::swap(x, y); MCHECK(x == b && y == a, "C19-iterator/swap", "swap of iterators");
        if (p == 0 && n == 1) {
            c = a; It pre = ++c; MCHECK(pre == c && c - a == 1, "C19-iterator/++", "++it of option<%s>", g_type.c_str());
            c = a; It post = c++; MCHECK(post == a && c - a == 1, "C19-iterator/post++", "it++ of option<%s>", g_type.c_str());
            c = o.end(); pre = --c; MCHECK(pre == c && c == a, "C19-iterator/--", "--it of option<%s>", g_type.c_str());
            c = o.end(); post = c--; MCHECK(post == o.end() && c == a, "C19-iterator/post--", "it-- of option<%s>", g_type.c_str());
            c = a; MCHECK(at(*c++) == want, "C19-iterator/*it++", "*it++ of option<%s>", g_type.c_str());
        }
        if (n == 1) SAMEAT(at(a[-p]), "it[n]");
        typename opt::option<T>::const_iterator k = a; MCHECK((k == b) == e && k - b == p - q && (k < b) == l, "C19-iterator/const", "const_iterator of option<%s> converted from iterator is another position", g_type.c_str());
        if (n == 1) SAMEAT(at(k[-p]), "const it[n]");
        mon::seen(mon::mix(mon::hash_str(g_type.c_str()), 1000 + static_cast<unsigned>(p * 4 + q * 2 + n) + (std::is_const_v<O> ? 50 : 0)));
    }
    It d{}, d2{}; MCHECK(d == d2 && !(d != d2) && d - d2 == 0 && d <= d2 && d >= d2 && !(d < d2), "C19-iterator/value-initialised", "value-initialised iterators of option<%s> are not equal", g_type.c_str());
    // algorithms
    MCHECK(std::count_if(o.begin(), o.end(), [&](const V& v) { return at(v) == want; }) == n && std::find_if(o.begin(), o.end(), [](const V&) { return false; }) == o.end(), "C19-algorithm", "algorithms over option<%s> see another range", g_type.c_str());
    std::vector<const void*> as_; std::transform(o.begin(), o.end(), std::back_inserter(as_), [](const V& v) { return at(v); });
    MCHECK(as_.size() == static_cast<std::size_t>(n) && (n == 0 || as_[0] == want), "C19-algorithm", "transform over option<%s> sees another range", g_type.c_str());
    if constexpr (std::is_copy_constructible_v<std::remove_cv_t<V>>) {
        std::list<std::remove_cv_t<V>> li(o.begin(), o.end());
        MCHECK(static_cast<std::ptrdiff_t>(li.size()) == n && (n == 0 || Ad<std::remove_cv_t<V>>::id(li.front()) == Ad<std::remove_cv_t<V>>::id(*o)), "C19-range-copy", "a container built from the range of option<%s> is different", g_type.c_str());
        if constexpr (!std::is_same_v<std::remove_cv_t<V>, bool>) { std::vector ve(o.begin(), o.end()); TYPE(decltype(ve), std::vector<std::remove_cv_t<V>>); MCHECK(static_cast<std::ptrdiff_t>(ve.size()) == n, "C19-range-copy", "a vector built from the range of option<%s> has %zu elements", g_type.c_str(), ve.size()); }
    }
#if __cplusplus >= 202002L
    static_assert(std::contiguous_iterator<It> && std::ranges::contiguous_range<O&> && std::ranges::sized_range<O&> && std::ranges::common_range<O&>);
    MCHECK(static_cast<std::ptrdiff_t>(std::ranges::size(o)) == n && std::ranges::empty(o) == !has, "C19-ranges/size", "ranges::size of option<%s> is wrong", g_type.c_str());
    if (has) SAMEAT(static_cast<const void*>(std::to_address(o.begin())), "to_address");
    if constexpr (!std::is_same_v<std::remove_cv_t<V>, FnPtr>) {
        std::span<V> sp(o); MCHECK(static_cast<std::ptrdiff_t>(sp.size()) == n, "C19-ranges/span", "span over option<%s> has %zu elements", g_type.c_str(), sp.size());
        if (has) SAMEAT(static_cast<const void*>(sp.data()), "span");
    }
    visits = 0; for (auto&& x : std::views::reverse(o)) { ++visits; SAMEAT(at(x), "views::reverse"); }
    MCHECK(visits == n, "C19-ranges/reverse", "views::reverse of option<%s> visits %d", g_type.c_str(), visits);
    MCHECK(std::ranges::distance(std::views::take(o, 5)) == n && std::ranges::distance(std::views::drop(o, 1)) == 0, "C19-ranges/take", "views over option<%s> see another range", g_type.c_str());
    MCHECK(std::ranges::count_if(o, [&](const V& v) { return at(v) == want; }) == n, "C19-ranges/count", "ranges algorithm over option<%s>", g_type.c_str());
#endif
}

template<int I, class T> void throws(opt::option<T>& o) {
    int caught = 0;
    auto probe = [&](auto&& f, const char* what) {
        try { f(); MCHECK(false, std::string("C19-throw/") + what, "%s of an empty option<%s> %s did not throw", what, g_type.c_str(), catname[I]); }
        catch (const opt::bad_access& e) { ++caught; const std::exception& b = e; MCHECK(b.what() != nullptr && *b.what(), "C19-throw/what", "bad_access has no message"); }
        catch (...) { MCHECK(false, std::string("C19-throw/") + what, "%s of an empty option<%s> %s threw something else than bad_access", what, g_type.c_str(), catname[I]); }
    };
    probe([&] { (void)as<I>(o).value(); }, "value");
    probe([&] { (void)as<I>(o).value_or_throw(); }, "value_or_throw");
    MCHECK(!as<I>(o).has_value() && !static_cast<bool>(as<I>(o)), "C19-state/empty", "an empty option<%s> %s says it has a value", g_type.c_str(), catname[I]);
    mon::seen(mon::mix(mon::hash_str(g_type.c_str()), 200 + I)); mon::count("bad_access observed", static_cast<unsigned>(caught));
}
static_assert(std::is_base_of_v<std::exception, opt::bad_access>);

template<class T> struct Lazy { int id; int* calls; operator T() const { ++*calls; return Ad<T>::make(id); } };
template<class T> struct LazyR { int id; int* calls; operator T() && { ++*calls; return Ad<T>::make(id); } };
template<int I, class T> void fallbacks(bool has, int i, int j) {
    using A = Ad<T>;
    if constexpr (A::copyable || I == 2) {
        auto fresh = [&](auto&& use, const char* what, bool builds) {
            opt::option<T> o; if (has) A::emplace(o, i);
            int calls = 0; const void* before = has ? at(*o) : nullptr;
            mon::context("%s of option<%s> %s, %s, ids %d %d", what, g_type.c_str(), catname[I], has ? "engaged" : "empty", i, j);
            const int got = use(o, &calls);
            MCHECK(got == (has ? i : j), std::string("C19-fallback/") + what, "%s of %s option<%s> %s gives value id %d instead of %d", what, has ? "an engaged" : "an empty", g_type.c_str(), catname[I], got, has ? i : j);
            if (builds) MCHECK(calls == (has ? 0 : 1), std::string("C19-lazy/") + what, "%s of %s option<%s> built the fallback %d times", what, has ? "an engaged" : "an empty", g_type.c_str(), calls);
            MCHECK(o.has_value() == has, std::string("C19-fallback-source/") + what, "%s changed the state of option<%s>", what, g_type.c_str());
            if (has && I != 2) MCHECK(A::id(*o) == i && at(*o) == before, std::string("C19-fallback-source/") + what, "%s changed the value of an option<%s> %s", what, g_type.c_str(), catname[I]);
            if (has && I == 2) { const int m = A::moved_ctor(i); MCHECK(m == ANY || A::id(*o) == m, std::string("C19-fallback-moved/") + what, "%s left value id %d in the moved option<%s>, one move would leave %d", what, A::id(*o), g_type.c_str(), m); }
            key(what);
        };
        fresh([&](auto& o, int*) { TYPE(decltype(as<I>(o).value_or(A::make(j))), T); return A::id(as<I>(o).value_or(A::make(j))); }, "value_or(T&&)", false);
        if constexpr (A::copyable) fresh([&](auto& o, int*) { const T v = A::make(j); const int r = A::id(as<I>(o).value_or(v)); MCHECK(A::id(v) == j, "C19-fallback-argument", "value_or of option<%s> changed the fallback it was lent", g_type.c_str()); return r; }, "value_or(const T&)", false);
        if constexpr (A::copyable) fresh([&](auto& o, int*) { T v = A::make(j); const int r = A::id(as<I>(o).value_or(std::move(v))); if (has) MCHECK(A::id(v) == j, "C19-fallback-argument", "value_or of an engaged option<%s> consumed the fallback", g_type.c_str()); return r; }, "value_or(move(v))", false);
        if constexpr (!std::is_same_v<T, bool> && std::is_constructible_v<T, Lazy<T>> && !std::is_same_v<T, AggB> && !std::is_same_v<T, Agg>) {
            fresh([&](auto& o, int* c) { return A::id(as<I>(o).value_or(Lazy<T>{j, c})); }, "value_or(convertible)", true);
            fresh([&](auto& o, int* c) { return A::id(as<I>(o).value_or(LazyR<T>{j, c})); }, "value_or(convertible rvalue)", true);
            if constexpr (std::is_convertible_v<Lazy<T>, T>) fresh([&](auto& o, int* c) { return A::id(as<I>(o).value_or_construct(Lazy<T>{j, c})); }, "value_or_construct(convertible)", true);
        }
        fresh([&](auto& o, int*) { TYPE(decltype(as<I>(o).value_or_construct(A::make(j))), T); return A::id(as<I>(o).value_or_construct(A::make(j))); }, "value_or_construct(T&&)", false);
        if constexpr (A::copyable) fresh([&](auto& o, int*) { T v = A::make(j); const int r = A::id(as<I>(o).value_or_construct(v)); MCHECK(A::id(v) == j, "C19-fallback-argument", "value_or_construct of option<%s> changed the argument it was lent", g_type.c_str()); return r; }, "value_or_construct(T&)", false);
    }
}

template<class T> struct Host { char before; opt::option<T> o; char after; };
template<class T> void run(int rounds) {
    using A = Ad<T>; mon::Rng r(mon::mix(mon::st().seed, mon::hash_str(A::name)));
    g_type = A::name; mon::count("types");
    for (int k = 0; k < rounds; ++k) {
        const bool has = k % 3 != 0; const int i = static_cast<int>(r.below(A::N)), j = static_cast<int>(r.below(A::N));
        mon::context("option<%s> %s, id %d", A::name, has ? "engaged" : "empty", i);
        auto look = [&](opt::option<T>& o) {
            const opt::option<T>& co = o;
            if (!o.has_value()) {
                throws<0>(o); throws<1>(o); throws<2>(o); throws<3>(o);
                MCHECK(o.ptr_or_null() == nullptr && co.ptr_or_null() == nullptr, "C19-null", "ptr_or_null of an empty option<%s> is not null", A::name);
            } else {
                const void* want = static_cast<const void*>(std::addressof(*co));
                const char* lo = reinterpret_cast<const char*>(std::addressof(o)); const char* p = static_cast<const char*>(want);
                MCHECK(p >= lo && p + sizeof(T) <= lo + sizeof o, "C19-inside", "the contained object of option<%s> is not inside the option", A::name);
                MCHECK(reinterpret_cast<std::uintptr_t>(want) % alignof(T) == 0, "C19-aligned", "the contained object of option<%s> is misaligned", A::name);
                paths<0>(o, want); paths<1>(o, want); paths<2>(o, want); paths<3>(o, want);
                pointers<T>(o, want); pointers<T>(co, want);
                MCHECK(A::id(*o) == i, "C19-value", "option<%s> holds value id %d instead of %d (looking at it changed it)", A::name, A::id(*o), i);
            }
            const void* w = co.has_value() ? static_cast<const void*>(std::addressof(*co)) : nullptr;
            iterate<T>(o, o.has_value(), w); iterate<T>(co, co.has_value(), w);
        };
        { opt::option<T> o; if (has) A::emplace(o, i); look(o);
          // the object stays where it is while it lives
          if (has) { const void* w = std::addressof(*o); auto it = o.begin(); const auto e = o.end();
            if constexpr (std::is_move_assignable_v<T>) { o = A::make(j); MCHECK(A::id(*o) == j, "C19-value", "assignment to option<%s> not seen through *", A::name); MCHECK(at(*it) == w && A::id(*it) == j, "C19-iterator/stale", "an iterator of option<%s> does not see the assigned value", A::name); *it = A::make(i); MCHECK(A::id(o.value()) == i, "C19-iterator/write", "a write through an iterator of option<%s> is not seen", A::name);
              for (auto& x : o) x = A::make(j);
              MCHECK(A::id(o.get()) == j && std::addressof(*o) == w, "C19-iterator/write", "a write through range for over option<%s> is not seen", A::name);
              *o.ptr_or_null() = A::make(i); MCHECK(A::id(o.get()) == i, "C19-ptr/write", "a write through ptr_or_null of option<%s> is not seen", A::name);
              o.value() = A::make(j); MCHECK(A::id(*o) == j, "C19-value/write", "a write through value of option<%s> is not seen", A::name); }
            MCHECK(it + 1 == e && e == o.end() && it == o.begin(), "C19-iterator/stale", "iterators of option<%s> changed with the value", A::name); } }
        { std::vector<opt::option<T>> v(3); if (has) A::emplace(v[1], i); if (has) A::emplace(v[2], j); look(v[1]);
          MCHECK(!v[0].has_value() && v[2].has_value() == has && (!has || A::id(*v[2]) == j), "C19-neighbour", "looking at an option<%s> changed its neighbour", A::name); }
        { auto h = std::make_unique<Host<T>>(); h->before = 11; h->after = 22; if (has) A::emplace(h->o, i); look(h->o);
          MCHECK(h->before == 11 && h->after == 22, "C19-neighbour", "looking at an option<%s> changed its neighbour", A::name); }
        { std::pair<opt::option<T>, bool> p; if (has) A::emplace(p.first, i); look(p.first); }
        fallbacks<0, T>(has, i, j); fallbacks<1, T>(has, i, j); fallbacks<2, T>(has, i, j); fallbacks<3, T>(has, i, j);
    }
}
template<class E> void run_ref(int rounds) {
    using A = Ad<std::remove_const_t<E>>; using T = E&; mon::Rng r(mon::mix(mon::st().seed, mon::hash_str(A::name)));
    g_type = std::string(A::name) + (std::is_const_v<E> ? " const&" : "&"); mon::count("types");
    for (int k = 0; k < rounds; ++k) {
        const bool has = k % 2; const int i = static_cast<int>(r.below(A::N)), j = static_cast<int>(r.below(A::N));
        std::remove_const_t<E> obj = A::make(i), other = A::make(j);
        opt::option<T> o; if (has) o.emplace(obj); const opt::option<T>& co = o; const void* want = has ? std::addressof(obj) : nullptr;
        mon::context("option<%s> %s, id %d", g_type.c_str(), has ? "engaged" : "empty", i);
        MCHECK(o.ptr_or_null() == want && co.ptr_or_null() == want, "C19-null", "ptr_or_null of option<%s>", g_type.c_str());
        if (has) { paths<0>(o, want); paths<1>(o, want); paths<2>(o, want); paths<3>(o, want); pointers<T>(o, want); pointers<T>(co, want); }
        else { throws<0>(o); throws<1>(o); throws<2>(o); throws<3>(o); }
        iterate<T>(o, has, want); iterate<T>(co, has, want);
        MCHECK(at(o.value_or(other)) == (has ? at(obj) : at(other)) && at(co.value_or(other)) == (has ? at(obj) : at(other)) && at(std::move(o).value_or(other)) == (has ? at(obj) : at(other)), "C19-fallback/reference", "value_or of option<%s> designates another object", g_type.c_str());
        MCHECK(A::id(obj) == i && A::id(other) == j && o.has_value() == has, "C19-value", "looking at option<%s> changed something", g_type.c_str());
    }
}

// fallbacks constructed in place: how many objects are made, from what
struct Count {
    static inline int made = 0, copied = 0, moved = 0; int v; std::string how;
    explicit Count(int a) : v(a), how("int") { ++made; } Count(int a, int b) : v(a + b), how("int,int") { ++made; }
    Count() : v(-7), how("default") { ++made; } Count(std::initializer_list<int> l, int b) : v(std::accumulate(l.begin(), l.end(), b)), how("ilist,int") { ++made; }
    Count(std::initializer_list<int> l) : v(std::accumulate(l.begin(), l.end(), 0)), how("ilist") { ++made; }
    Count(const Count& o) : v(o.v), how(o.how) { ++copied; } Count(Count&& o) noexcept : v(o.v), how(std::move(o.how)) { ++moved; o.v = MOVED; }
    Count& operator=(const Count&) = default;
    static void zero() { made = copied = moved = 0; }
};
struct Three { int a; double b; std::string c; };
template<int I> void construct1(bool has, int i, int j) {
    auto one = [&](const char* what, int value, const char* how, auto&& use) {
        opt::option<Count> o; if (has) o.emplace(i); Count::zero();
        mon::context("value_or_construct(%s) %s, %s", what, catname[I], has ? "engaged" : "empty");
        Count c = use(as<I>(o));
        MCHECK(c.v == (has ? i : value) && c.how == (has ? "int" : how), std::string("C19-construct/") + what, "value_or_construct(%s) gives %d made by %s", what, c.v, c.how.c_str());
        MCHECK(Count::made == (has ? 0 : 1) && Count::copied + Count::moved == (has ? 1 : 0) && Count::moved == (has && I == 2 ? 1 : 0), std::string("C19-construct-count/") + what, "value_or_construct(%s) of %s option %s: %d made, %d copied, %d moved", what, has ? "an engaged" : "an empty", catname[I], Count::made, Count::copied, Count::moved);
        mon::seen(mon::mix(mon::hash_str(what), mon::mix(I, has * 1000 + i % 8)));
    };
    one("int", j, "int", [&](auto&& o) { return static_cast<decltype(o)>(o).value_or_construct(j); });
    one("int,int", j + 5, "int,int", [&](auto&& o) { return static_cast<decltype(o)>(o).value_or_construct(j, 5); });
    one("", -7, "default", [&](auto&& o) { return static_cast<decltype(o)>(o).value_or_construct(); });
    one("ilist", j + 3, "ilist", [&](auto&& o) { return static_cast<decltype(o)>(o).value_or_construct({j, 1, 2}); });
    one("ilist,int", j + 7, "ilist,int", [&](auto&& o) { return static_cast<decltype(o)>(o).value_or_construct({j, 1, 2}, 4); });
    { opt::option<std::vector<int>> o; if (has) o.emplace(std::vector<int>{i, i}); auto v = as<I>(o).value_or_construct({j, 2, 3}); MCHECK((v == (has ? std::vector<int>{i, i} : std::vector<int>{j, 2, 3})), "C19-construct/vector-ilist", "vector fallback from a list"); }
    { opt::option<std::vector<int>> o; if (has) o.emplace(std::vector<int>{i, i}); auto v = as<I>(o).value_or_construct(std::size_t(j % 9), 6); MCHECK((v == (has ? std::vector<int>{i, i} : std::vector<int>(std::size_t(j % 9), 6))), "C19-construct/vector", "vector fallback from size and value"); }
    { opt::option<std::string> o; if (has) o.emplace("present"); auto s = as<I>(o).value_or_construct(std::size_t(j % 30), 'x'); MCHECK(s == (has ? "present" : std::string(std::size_t(j % 30), 'x')), "C19-construct/string", "string fallback"); }
    { opt::option<Three> o; if (has) o.emplace(Three{i, 2.5, "here"}); auto t = as<I>(o).value_or_construct(j, 0.5, "made"); MCHECK(t.a == (has ? i : j) && t.c == (has ? "here" : "made"), "C19-construct/aggregate", "aggregate fallback"); }
    { opt::option<std::pair<int, std::string>> o; if (has) o.emplace(i, "p"); auto t = as<I>(o).value_or_construct(j, "q"); MCHECK(t.first == (has ? i : j) && t.second == (has ? "p" : "q"), "C19-construct/pair", "pair fallback"); }
    if constexpr (I == 2) { opt::option<std::unique_ptr<int>> o; if (has) o.emplace(std::make_unique<int>(i)); int* raw = new int(j); auto p = as<I>(o).value_or_construct(raw); if (has) delete raw; MCHECK(*p == (has ? i : j), "C19-construct/unique_ptr", "unique_ptr fallback"); p.reset(); }
}
// iterators of an option inside generic algorithms that need arithmetic on values
template<class N> void numeric(bool has, int i) {
    opt::option<N> o; if (has) o = static_cast<N>(i % 50); const opt::option<N>& c = o; const long n = has ? 1 : 0;
    MCHECK(std::accumulate(c.begin(), c.end(), 100) == 100 + (has ? i % 50 : 0), "C19-numeric/accumulate", "accumulate");
    std::vector<N> out(2, N(9)); auto e = std::partial_sum(c.begin(), c.end(), out.begin()); MCHECK(e - out.begin() == n && (!has || out[0] == *c), "C19-numeric/partial_sum", "partial_sum");
    e = std::adjacent_difference(o.begin(), o.end(), out.begin()); MCHECK(e - out.begin() == n && (!has || out[0] == *o), "C19-numeric/adjacent_difference", "adjacent_difference");
    e = std::inclusive_scan(c.begin(), c.end(), out.begin()); MCHECK(e - out.begin() == n && (!has || out[0] == *o), "C19-numeric/inclusive_scan", "inclusive_scan");
    std::sort(o.begin(), o.end()); std::reverse(o.begin(), o.end()); std::rotate(o.begin(), o.end(), o.end()); std::stable_sort(o.begin(), o.end());
    MCHECK(o.has_value() == has && (!has || *o == static_cast<N>(i % 50)), "C19-numeric/sort", "sorting the range changed the option");
    MCHECK(std::binary_search(c.begin(), c.end(), static_cast<N>(i % 50)) == has, "C19-numeric/search", "binary_search"); MCHECK((std::max_element(c.begin(), c.end()) == c.end()) == !has && std::minmax_element(c.begin(), c.end()).first == c.begin(), "C19-numeric/max", "max_element");
    MCHECK(std::equal(o.begin(), o.end(), c.begin(), c.end()) && std::is_sorted(c.begin(), c.end()) && !std::lexicographical_compare(o.begin(), o.end(), c.begin(), c.end()), "C19-numeric/equal", "equal over the option's ranges");
    std::fill(o.begin(), o.end(), N(3)); MCHECK(o.has_value() == has && (!has || *o == N(3)), "C19-numeric/fill", "fill"); std::iota(o.begin(), o.end(), N(4)); MCHECK(!has || *o == N(4), "C19-numeric/iota", "iota");
    std::set<N> s; s.insert(c.begin(), c.end()); MCHECK(static_cast<long>(s.size()) == n, "C19-numeric/insert", "insertion of the range");
    std::vector<N> w{N(1), N(2)}; w.insert(w.begin() + 1, c.begin(), c.end()); MCHECK(static_cast<long>(w.size()) == 2 + n && w.back() == N(2) && (!has || w[1] == N(4)), "C19-numeric/insert", "insertion of the range into a vector");
    std::swap_ranges(o.begin(), o.end(), w.begin()); MCHECK(!has || *o == N(1), "C19-numeric/swap_ranges", "swap_ranges");
}
}
#define RUN(...) run<__VA_ARGS__>(R);
int main(int argc, char** argv) {
    mon::init(argc, argv);
    const int R = static_cast<int>(12 * mon::st().scale); (void)R;
#if GROUP == 0
    RUN(int) RUN(bool) RUN(float) RUN(double) RUN(char) RUN(short) RUN(long long) RUN(int*) RUN(const int*)
    RUN(EPlain) RUN(EU8) RUN(EU16) RUN(ESent) RUN(EStart) RUN(EStartEnd) RUN(MemPtr) RUN(MemFn) RUN(FnPtr)
#elif GROUP == 1
    RUN(std::string) RUN(std::u16string) RUN(std::string_view) RUN(std::vector<int>) RUN(std::vector<bool>) RUN(std::vector<std::string>)
    RUN(std::unique_ptr<int>) RUN(std::shared_ptr<int>) RUN(std::reference_wrapper<int>) RUN(std::variant<int, std::string>) RUN(std::map<int, int>)
#elif GROUP == 2
    RUN(std::pair<int, std::string>) RUN(std::pair<bool, int>) RUN(std::pair<std::string, std::unique_ptr<int>>) RUN(std::tuple<int, double, std::string>)
    RUN(std::tuple<int, short>) RUN(std::array<float, 3>) RUN(std::array<std::string, 2>) RUN(std::complex<float>) RUN(std::complex<double>)
    RUN(std::tuple<int, std::unique_ptr<int>>) RUN(std::pair<int*, bool>)
#elif GROUP == 3
    RUN(Agg) RUN(AggB) RUN(Pad) RUN(PadS) RUN(Poly) RUN(PolyT) RUN(SentV) RUN(Sent3) RUN(SentF) RUN(Memb) RUN(Enf) RUN(TupLike) RUN(Empty) RUN(Over) RUN(AddrOf)
#elif GROUP == 4
    RUN(opt::option<int>) RUN(opt::option<bool>) RUN(opt::option<opt::option<std::string>>) RUN(opt::option<ESent>) RUN(opt::option<std::unique_ptr<int>>)
    RUN(std::pair<opt::option<int>, bool>) RUN(std::tuple<opt::option<float>, std::string>) RUN(Prof000000) RUN(Prof111111) RUN(Prof111110) RUN(Prof101001)
#elif GROUP == 5
    run_ref<int>(R); run_ref<const int>(R); run_ref<std::string>(R); run_ref<const std::string>(R); run_ref<Poly>(R); run_ref<opt::option<int>>(R); run_ref<Agg>(R); run_ref<Over>(R); run_ref<std::unique_ptr<int>>(R); run_ref<Prof111111>(R); run_ref<double>(R);
    { mon::Rng r(mon::st().seed); for (int k = 0; k < 40 * R; ++k) { const bool h = k % 2; const int i = static_cast<int>(r.below(1000)), j = static_cast<int>(r.below(1000)); construct1<0>(h, i, j); construct1<1>(h, i, j); construct1<2>(h, i, j); construct1<3>(h, i, j);
      numeric<int>(h, i); numeric<float>(h, i); numeric<double>(h, i); numeric<short>(h, i); numeric<unsigned long long>(h, i); numeric<char>(h, i); } }
#endif
    return mon::finish();
}
