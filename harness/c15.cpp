// C15: every contract breach, in a child process, ends in the diagnostic before its result can be used; the same expression within the contract does not.
#ifndef GROUP
#define GROUP 0
#endif
#ifdef HOOK
// the user's own diagnostic
[[noreturn]] void user_diagnostic(const char* e, const char* m);
#define OPTION_VERIFY(expression, message) ((expression) ? (void)0 : user_diagnostic(#expression, message))
#endif
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
#include <algorithm>
#include <iterator>
#include <cerrno>
#if __cplusplus >= 202002L
#include <ranges>
#include <span>
#endif
#include "types.hpp"
using ty::Ad;
static int g_pipe = -1;
#ifdef HOOK
void user_diagnostic(const char* e, const char* m) { (void)!write(2, e, std::strlen(e)); (void)!write(2, m, std::strlen(m)); _exit(42); }
#endif
// the result of the operation escapes here: the diagnostic has to come before
static void use(const volatile void* p) { asm volatile("" : : "r"(p) : "memory"); (void)!write(g_pipe, "U", 1); }
template<class F> void child(F&& f, bool breach, const std::string& what) {
    int out[2], err[2]; if (pipe(out) || pipe(err)) { std::perror("pipe"); std::exit(3); }
    std::fflush(stdout);
    const pid_t pid = fork();
    if (pid < 0) { std::perror("fork"); std::exit(3); }
    if (pid == 0) {
        for (int s : {SIGILL, SIGTRAP, SIGABRT, SIGSEGV, SIGBUS, SIGFPE}) std::signal(s, SIG_DFL);
        struct rlimit no{0, 0}; setrlimit(RLIMIT_CORE, &no);
        g_pipe = out[1]; dup2(err[1], 2);
        f();
        (void)!write(out[1], "E", 1);
        _exit(0);
    }
    close(out[1]); close(err[1]);
    char ob[16], eb[2048]; ssize_t on = 0, en = 0, k;
    while ((k = read(out[0], ob + on, sizeof ob - on)) > 0) on += k;
    while (en < ssize_t(sizeof eb) - 1 && (k = read(err[0], eb + en, sizeof eb - 1 - en)) > 0) en += k;
    eb[en] = 0; char drop[512]; while (read(err[0], drop, sizeof drop) > 0) {}
    close(out[0]); close(err[0]);
    int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    const bool used = std::memchr(ob, 'U', on), ended = std::memchr(ob, 'E', on);
#ifdef HOOK
    const bool stopped = WIFEXITED(st) && WEXITSTATUS(st) == 42;
#else
    const bool stopped = WIFSIGNALED(st) && (WTERMSIG(st) == SIGTRAP || WTERMSIG(st) == SIGILL || WTERMSIG(st) == SIGABRT);
#endif
    if (char* nl = std::strchr(eb, '\n')) *nl = 0;
    mon::context("%s", what.c_str());
    mon::seen(what); mon::count(breach ? "breaches" : "conforming twins");
    if (breach) {
        MCHECK(!used && !ended, "C15-missed/" + what, "the contract breach went unnoticed (the result was used)");
        MCHECK(stopped && en > 0, "C15-diagnostic/" + what, "the contract breach did not end in the diagnostic: status %d, message '%s'", st, eb);
    } else {
        MCHECK(ended && WIFEXITED(st) && WEXITSTATUS(st) == 0, "C15-false-diagnostic/" + what, "the conforming expression did not run to its end: status %d, message '%s'", st, eb);
    }
}

enum State { DEFAULT, FROM_NONE, RESET, ASSIGNED_NONE, TAKEN, TAKEN_IF, COPY_OF_EMPTY, MOVED_EMPTY, SWAPPED, EMPTY_STATES, HOLDING = EMPTY_STATES, ASSIGNED, REFILLED, STATES };
static const char* const stname[] = {"default constructed", "from none", "reset", "assigned none", "taken", "taken by take_if", "copied from empty", "moved from empty", "swapped with empty", "holding", "assigned", "refilled"};
template<class T> void with_state(opt::option<T>& o, int s) {
    using A = Ad<T>; using O = opt::option<T>; auto v = [] { return A::make(A::N > 1 ? 1 : 0); };
    switch (s) {
    case DEFAULT: break;
    case FROM_NONE: o.~O(); new (&o) O(opt::none); break;
    case RESET: o.emplace(v()); o.reset(); break;
    case ASSIGNED_NONE: o.emplace(v()); o = opt::none; break;
    case TAKEN: o.emplace(v()); { auto t = o.take(); } break;
    case TAKEN_IF: o.emplace(v()); { auto t = o.take_if([](const T&) { return true; }); } break;
    case COPY_OF_EMPTY: if constexpr (std::is_copy_assignable_v<T> && std::is_copy_constructible_v<T>) { o.emplace(v()); const O e; o = e; } break;
    case MOVED_EMPTY: { O e; o.~O(); new (&o) O(std::move(e)); } break;
    case SWAPPED: { O e; o.emplace(v()); o.swap(e); } break;
    case HOLDING: o.emplace(v()); break;
    case ASSIGNED: if constexpr (std::is_move_assignable_v<T>) o = v(); else o.emplace(v()); break;
    case REFILLED: o.emplace(v()); o.reset(); o.emplace(v()); break;
    }
}
#define ACCESS(NAME, ...) child([&] { O& o = *po; const O& c = o; (void)c; __VA_ARGS__ }, empty, std::string(Ad<T>::name) + " " + stname[s] + " " NAME);
template<class T> void access() {
    using O = opt::option<T>;
    for (int s = 0; s < STATES; ++s) {
        if (std::is_same_v<T, ty::AddrOf> ) {}
        auto po = std::make_unique<O>(); with_state<T>(*po, s); const bool empty = s < EMPTY_STATES;
        ACCESS("get() &", use(std::addressof(o.get()));)
        ACCESS("get() const&", use(std::addressof(c.get()));)
        ACCESS("get() &&", auto&& r = std::move(o).get(); use(std::addressof(r));)
        ACCESS("get() const&&", auto&& r = std::move(c).get(); use(std::addressof(r));)
        ACCESS("* &", use(std::addressof(*o));)
        ACCESS("* const&", use(std::addressof(*c));)
        ACCESS("* &&", auto&& r = *std::move(o); use(std::addressof(r));)
        ACCESS("* const&&", auto&& r = *std::move(c); use(std::addressof(r));)
        ACCESS("->", use(o.operator->());)
        ACCESS("-> const", use(c.operator->());)
        if (s % 3 == 0) {
            ACCESS("*begin()", use(std::addressof(*o.begin()));)
            ACCESS("*begin() const", use(std::addressof(*c.begin()));)
            ACCESS("begin()->", use(o.begin().operator->());)
            ACCESS("begin()-> const", use(c.begin().operator->());)
            ACCESS("begin()[0]", use(std::addressof(o.begin()[0]));)
            ACCESS("begin()[0] const", use(std::addressof(c.begin()[0]));)
            ACCESS("++begin()", auto i = o.begin(); ++i; use(&i);)
            ACCESS("begin()++", auto i = c.begin(); auto j = i++; use(&i); use(&j);)
            ACCESS("--end()", auto i = o.end(); --i; use(&i);)
            ACCESS("end()--", auto i = c.end(); auto j = i--; use(&i); use(&j);)
            ACCESS("begin() += 1", auto i = o.begin(); i += 1; use(&i);)
            ACCESS("begin() + 1", auto i = c.begin() + 1; use(&i);)
            ACCESS("1 + begin()", auto i = 1 + o.begin(); use(&i);)
            ACCESS("end() -= 1", auto i = c.end(); i -= 1; use(&i);)
            ACCESS("end() - 1", auto i = o.end() - 1; use(&i);)
            ACCESS("std::next(begin())", auto i = std::next(o.begin()); use(&i);)
            ACCESS("*rbegin", auto r = std::make_reverse_iterator(o.end()); use(std::addressof(*r));)
        }
        // in any state: what stays within the range of zero or one elements
        if (s == RESET || s == HOLDING) { const bool breach_all = empty; (void)breach_all;
#define FINE(NAME, ...) child([&] { O& o = *po; const O& c = o; (void)c; __VA_ARGS__ }, false, std::string(Ad<T>::name) + " " + stname[s] + " " NAME);
            FINE("loop with <", int n = 0; for (auto i = o.begin(); i < o.end(); ++i) ++n; if (n != o.has_value()) _exit(9);)
            FINE("loop with >", int n = 0; for (auto i = c.begin(); c.end() > i; i++) ++n; if (n != o.has_value()) _exit(9);)
            FINE("loop with !=", int n = 0; for (auto& x : o) { ++n; use(std::addressof(x)); } if (n != o.has_value()) _exit(9);)
            FINE("<= and >=", if (!(o.begin() <= o.end()) || !(o.end() >= o.begin()) || (o.begin() >= o.end()) != empty) _exit(9);)
            FINE("begin() + has_value()", if (o.begin() + o.has_value() != o.end() || o.has_value() + c.begin() != c.end()) _exit(9);)
            FINE("end() - has_value()", auto i = c.end(); i -= c.has_value(); if (i != c.begin() || o.end() - o.has_value() != o.begin()) _exit(9); i += 0; auto j = o.begin(); j += o.has_value(); if (j != o.end()) _exit(9);)
            FINE("distance", if (o.end() - o.begin() != o.has_value() || std::distance(c.begin(), c.end()) != o.has_value()) _exit(9);)
            FINE("next by 0", if (std::next(o.begin(), 0) != o.begin() || std::prev(c.end(), 0) != c.end()) _exit(9);)
            FINE("algorithms", auto i = o.begin(); std::advance(i, o.has_value()); if (i != o.end() || std::count_if(c.begin(), c.end(), [](const auto&) { return true; }) != o.has_value()) _exit(9); std::reverse(o.begin(), o.end()); std::rotate(o.begin(), o.begin(), o.end()); std::for_each_n(c.begin(), c.has_value(), [](const auto& x) { use(std::addressof(x)); });)
            FINE("const iterator", typename O::const_iterator i = o.begin(), e = o.end(); if (e - i != o.has_value()) _exit(9);)
            FINE("ptr_or_null", if ((o.ptr_or_null() == nullptr) != empty || (c.ptr_or_null() == nullptr) != empty) _exit(9);)
            FINE("value()", bool threw = false; try { use(std::addressof(o.value())); } catch (const opt::bad_access&) { threw = true; } if (threw != empty) _exit(9); threw = false; try { auto&& r = std::move(c).value(); use(std::addressof(r)); } catch (const opt::bad_access&) { threw = true; } if (threw != empty) _exit(9);)
            FINE("combinators", int n = 0; c.inspect([&](const T&) { ++n; }); n += c.map_or(0, [](const T&) { return 1; }); n += c.has_value_and([](const T&) { return true; }); if (n != 3 * c.has_value()) _exit(9);)
#if __cplusplus >= 202002L
            FINE("ranges", if (std::ranges::distance(o) != o.has_value() || std::ranges::empty(o) != empty || (std::ranges::data(c) == nullptr) != empty || std::span<T>(o.begin(), o.end()).size() != o.has_value()) _exit(9);
                int n = 0; for (auto& x : std::views::take(o, 1)) { ++n; use(std::addressof(x)); } for (auto& x : std::views::drop(o, 0)) { ++n; use(std::addressof(x)); } for (auto& x : std::views::reverse(c)) { ++n; use(std::addressof(x)); } if (n != 3 * o.has_value()) _exit(9);)
#endif
        }
    }
    {   // value-initialised iterators
        const int s = 0; const bool empty = true; auto po = std::make_unique<O>();
        ACCESS("*iterator()", typename O::iterator i{}; use(std::addressof(*i));)
        ACCESS("const_iterator()->", typename O::const_iterator i{}; use(i.operator->());)
        ACCESS("++iterator()", typename O::iterator i{}; ++i; use(&i);)
        ACCESS("--const_iterator()", typename O::const_iterator i{}; --i; use(&i);)
        ACCESS("iterator()[0]", typename O::iterator i{}; use(std::addressof(i[0]));)
        ACCESS("const_iterator() + 1", typename O::const_iterator i{}; auto j = i + 1; use(&j);)
    }
    {   // inner options of a nested one
        using N = opt::option<O>; auto n = std::make_unique<N>(O());
        auto brk = [&](const char* w, auto f) { child(f, true, std::string(Ad<T>::name) + " empty inner option " + w); };
        brk("n->get()", [&] { use(std::addressof((*n)->get())); });
        brk("***n", [&] { use(std::addressof(***n)); });
        brk("n.get().get() const", [&] { const N& c = *n; use(std::addressof(c.get().get())); });
        n->reset();
        brk("*n of the outer", [&] { use(std::addressof(**n)); });
        brk("n->", [&] { use(n->operator->()); });
    }
    mon::count("types");
}
template<class R> void ref_access(const char* name) {
    using O = opt::option<R>; using E = std::remove_reference_t<R>; static std::remove_const_t<E> obj[2]; 
    for (int s = 0; s < 6; ++s) {
        const bool empty = s < 4; O o0, o1; if (s) o0.emplace(static_cast<R>(obj[0])); if (s == 1) o0.reset(); if (s == 2) o0 = opt::none; if (s == 3) { auto t = o0.take(); } if (s == 5) { o1.emplace(static_cast<R>(obj[1])); o0.swap(o1); }
        const O& c = o0; O& o = o0; auto run = [&](const char* w, auto f) { child(f, empty, std::string("option<") + name + "> state " + std::to_string(s) + " " + w); };
        run("get() &", [&] { use(std::addressof(o.get())); }); run("get() const&", [&] { use(std::addressof(c.get())); }); run("get() &&", [&] { auto&& r = std::move(o).get(); use(std::addressof(r)); }); run("get() const&&", [&] { auto&& r = std::move(c).get(); use(std::addressof(r)); });
        run("* &", [&] { use(std::addressof(*o)); }); run("* const&", [&] { use(std::addressof(*c)); }); run("* &&", [&] { auto&& r = *std::move(o); use(std::addressof(r)); }); run("* const&&", [&] { auto&& r = *std::move(c); use(std::addressof(r)); });
        run("->", [&] { use(o.operator->()); }); run("-> const", [&] { use(c.operator->()); });
    }
    mon::count("types");
}

// ---- storing a value that would read back as empty
template<class T> T reserved(std::uintmax_t level = 0) {
    // a live value whose bytes are then given an empty representation through the public customisation point
    T v = Ad<T>::make(Ad<T>::N > 1 ? 1 : 0);
    opt::option_traits<T>::set_level(std::addressof(v), level);
    return v;
}
template<class T> struct To { T v; operator const T&() const& { return v; } operator T() && { return v; } };
#define STORE(NAME, ...) for (int good = 0; good < 2; ++good) { const T& bad = good ? ok : res; child([&] { __VA_ARGS__ }, !good, std::string(Ad<T>::name) + (good ? " genuine" : " reserved") + " value, " NAME); }
template<class T> void stores(const T& res, const T& ok) {
    using O = opt::option<T>;
    STORE("construction from const&", O o(bad); use(&o);)
    STORE("construction from &&", T t(bad); O o(std::move(t)); use(&o);)
    STORE("construction in place", O o(std::in_place, bad); use(&o);)
    STORE("make_option", auto o = opt::make_option<T>(bad); use(&o);)
    STORE("deduction", opt::option o{bad}; use(&o);)
    STORE("emplace into empty", O o; o.emplace(bad); use(&o);)
    STORE("emplace into holding", O o(ok); o.emplace(bad); use(&o);)
    STORE("try_emplace into empty", O o; o.try_emplace(bad); use(&o);)
    STORE("= const& to empty", O o; o = bad; use(&o);)
    STORE("= const& to holding", O o(ok); o = bad; use(&o);)
    STORE("= && to empty", O o; T t(bad); o = std::move(t); use(&o);)
    STORE("= && to holding", O o(ok); T t(bad); o = std::move(t); use(&o);)
    STORE("= && to reset", O o(ok); o.reset(); T t(bad); o = std::move(t); use(&o);)
    STORE("converting construction const&", const opt::option<To<T>> u(std::in_place, To<T>{bad}); O o(u); use(&o);)
    STORE("converting construction &&", opt::option<To<T>> u(std::in_place, To<T>{bad}); O o(std::move(u)); use(&o);)
    STORE("converting = const& to empty", const opt::option<To<T>> u(std::in_place, To<T>{bad}); O o; o = u; use(&o);)
    STORE("converting = const& to holding", const opt::option<To<T>> u(std::in_place, To<T>{bad}); O o(ok); o = u; use(&o);)
    STORE("converting = && to empty", opt::option<To<T>> u(std::in_place, To<T>{bad}); O o; o = std::move(u); use(&o);)
    STORE("converting = && to holding", opt::option<To<T>> u(std::in_place, To<T>{bad}); O o(ok); o = std::move(u); use(&o);)
    STORE("mapped result", opt::option<int> i(1); auto o = i.map([&](int) { return bad; }); use(&o);)
    STORE("|= on empty", O o; o |= bad; use(&o);)
    STORE("zip_with result", opt::option<int> i(1); auto o = opt::zip_with([&](int) { return bad; }, i); use(&o);)
    STORE("emplace into the inner of a nested option", opt::option<O> n(std::in_place); n->emplace(bad); use(&n);)
    STORE("= to the inner of a nested option", opt::option<O> n(std::in_place); *n = bad; use(&n);)
    // what is not a breach: it never becomes a contained value
    STORE("try_emplace into empty and holding", O o; o.try_emplace(bad); O p(ok); p.try_emplace(bad); use(&o);)
    child([&] { O p(ok); p.try_emplace(res); if (!p.has_value()) _exit(9); p |= res; O e; auto v = e.value_or(res); use(&v); }, false, std::string(Ad<T>::name) + " reserved value never stored");
    mon::count("types stored");
}
template<class T> void stores() { stores<T>(reserved<T>(), Ad<T>::make(Ad<T>::N > 1 ? 1 : 0)); if (opt::option_traits<T>::max_level > 1) { const T ok = Ad<T>::make(0); (void)ok; } }
struct User { int v; short w; };
template<> struct opt::option_traits<User> { static constexpr std::uintmax_t max_level = 5; static std::uintmax_t get_level(const User* p) noexcept { return p->v == -9 ? static_cast<std::uintmax_t>(p->w) : std::uintmax_t(-1); } static void set_level(User* p, std::uintmax_t l) noexcept { ::new (static_cast<void*>(p)) User{-9, static_cast<short>(l)}; } };
using SentI = opt::sentinel<int, -1, -2>;
namespace ty {
template<> struct Ad<User> : AdBase<User> { static constexpr const char* name = "user traits"; static User make(int i) { return {i, 1}; } static int id(const User& u) { return u.v; } };
template<> struct Ad<SentI> : AdBase<SentI> { static constexpr const char* name = "sentinel<int, -1, -2>"; static SentI make(int i) { return SentI(i); } static int id(const SentI& u) { return u; } };
}
int main(int argc, char** argv) {
    mon::init(argc, argv);
    using namespace ty;
#if GROUP == 0
    access<int>(); access<bool>(); access<double>(); access<int*>(); access<ESent>(); access<EU8>(); access<std::string_view>(); access<MemFn>(); access<std::complex<float>>(); access<SentI>();
#elif GROUP == 1
    access<std::string>(); access<std::vector<int>>(); access<std::unique_ptr<int>>(); access<std::shared_ptr<int>>(); access<std::pair<bool, int>>(); access<std::tuple<int, short>>(); access<std::array<float, 3>>(); access<std::variant<int, std::string>>(); access<std::map<int, int>>();
#elif GROUP == 2
    access<Agg>(); access<Pad>(); access<Poly>(); access<PolyT>(); access<SentV>(); access<Memb>(); access<Enf>(); access<Empty>(); access<Over>(); access<User>(); access<opt::option<int>>(); access<opt::option<opt::option<bool>>>(); access<Prof111111>(); access<Prof000000>(); access<Prof000010>(); access<Prof111100>();
#elif GROUP == 3
    ref_access<int&>("int&"); ref_access<const int&>("const int&"); ref_access<std::string&>("string&"); ref_access<int&&>("int&&"); ref_access<Poly&>("Poly&"); ref_access<const Poly&>("const Poly&");
    stores<double>(); stores<float>(); stores<ESent>(); stores<EStart>(); stores<EStartEnd>(); stores<SentV>(); stores<SentI>(); stores<User>(); stores<Pad>(); stores<Memb>();
    stores<std::complex<double>>(); stores<std::array<float, 3>>(); stores<std::pair<double, int>>(); stores<std::tuple<float, short>>();
#if OPTION_USE_BUILTIN_TRAITS + 0
#endif
#endif
    return mon::finish();
}
