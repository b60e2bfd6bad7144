// C18: const operations on shared options and any operations on distinct options, from many threads.
#ifndef GROUP
#define GROUP 0
#endif
#define MON_THREADS
#include <atomic>
#include <mutex>
#include <sched.h>
#include <sstream>
#include <thread>
#include "engine.hpp"
#include "constops.hpp"
using namespace ty;
namespace {
constexpr int NT = 6;
// ---- threads, and the order in which their operations began
std::atomic<std::uint32_t> g_ticket{0};
struct Event { std::uint32_t ticket; std::uint8_t thread, op; };
struct Ctx {
    int me; mon::State state; std::vector<Event> log; mon::Rng delay{1}; std::uint64_t overlapped = 0; std::uint32_t last = 0;
    void begin(int op) { // relaxed: orders nothing
        const std::uint32_t t = g_ticket.fetch_add(1, std::memory_order_relaxed);
        if (t != last + 1) ++overlapped;
        last = t; if (log.size() < 200000) log.push_back({t, static_cast<std::uint8_t>(me), static_cast<std::uint8_t>(op)});
        if (delay.chance(1, 64)) sched_yield(); else if (delay.chance(1, 16)) for (volatile int i = static_cast<int>(delay.below(300)); i > 0; i = i - 1) {}
    }
};
thread_local Ctx* g_ctx = nullptr;
// a point inside user code that the library calls: the thread may lose the processor here
void preempt() { if (g_ctx && g_ctx->delay.chance(1, 8)) sched_yield(); }

struct Gate { std::atomic<int> n{0}; void wait() { n.fetch_add(1); while (n.load() < NT) sched_yield(); } };
template<class F> void threads(const char* what, F&& f) {
    std::vector<Ctx> c(NT); std::vector<std::thread> t; Gate g; g_ticket.store(1);
    for (int k = 0; k < NT; ++k) {
        c[k].me = k; c[k].state.seed = mon::root().seed; c[k].state.scale = mon::root().scale; c[k].delay = mon::Rng(mon::mix(mon::root().seed, 77 + k));
        t.emplace_back([&, k] { mon::tls = &c[k].state; g_ctx = &c[k]; mon::context("%s, thread %d", what, k); g.wait(); f(k, c[k]); if (mon::vs().evaluated) { mon::count("debug checks evaluated", mon::vs().evaluated); mon::vs().evaluated = 0; } mon::tls = nullptr; });
    }
    for (auto& x : t) x.join();
    std::vector<Event> all; std::uint64_t over = 0;
    for (auto& x : c) { mon::merge(mon::root(), x.state); all.insert(all.end(), x.log.begin(), x.log.end()); over += x.overlapped; }
    std::sort(all.begin(), all.end(), [](const Event& a, const Event& b) { return a.ticket < b.ticket; });
    for (std::size_t i = 0; i + 4 <= all.size(); ++i) { // who began what after whom
        std::uint64_t h = mon::hash_str(what); bool mixed = false;
        for (std::size_t j = i; j < i + 4; ++j) { h = mon::mix(h, all[j].thread * 256u + all[j].op); mixed = mixed || all[j].thread != all[i].thread; }
        if (mixed) mon::seen(h);
    }
    mon::count("operations begun by threads", all.size()); mon::count("operations begun right after another thread's", over); mon::count("multi-threaded phases");
}

// ---- element types whose user code gives way
struct Slow {
    int v; std::string s;
    Slow(int x = 0) : v(x), s(static_cast<std::size_t>(x % 30), 'a') {}
    Slow(const Slow& o) : v(o.v), s((preempt(), o.s)) { preempt(); } Slow(Slow&& o) noexcept : v(o.v), s(std::move(o.s)) { preempt(); o.v = MOVED; }
    Slow& operator=(const Slow& o) { v = o.v; preempt(); s = o.s; return *this; } Slow& operator=(Slow&& o) noexcept { if (this != &o) { v = o.v; preempt(); s = std::move(o.s); o.v = MOVED; } return *this; }
    ~Slow() { preempt(); }
    friend bool operator==(const Slow& a, const Slow& b) { preempt(); return a.v == b.v; } friend bool operator!=(const Slow& a, const Slow& b) { return !(a == b); }
    friend bool operator<(const Slow& a, const Slow& b) { preempt(); return a.v < b.v; } friend bool operator>(const Slow& a, const Slow& b) { return b < a; }
    friend bool operator<=(const Slow& a, const Slow& b) { return !(b < a); } friend bool operator>=(const Slow& a, const Slow& b) { return !(a < b); }
};
// its empty states are in a byte of its own
struct Lvl { int v; unsigned char state; Lvl(int x = 0) : v(x), state(0) {} friend bool operator==(const Lvl& a, const Lvl& b) { return a.v == b.v; } };
} // namespace
template<> struct opt::option_traits<Lvl> {
    static constexpr std::uintmax_t max_level = 200;
    static std::uintmax_t get_level(const Lvl* p) noexcept { const unsigned char s = p->state; return s == 0 ? std::uintmax_t(-1) : s - 1u; }
    static void set_level(Lvl* p, std::uintmax_t l) noexcept { p->state = static_cast<unsigned char>(l + 1); }
};
namespace ty {
template<> struct Ad<Slow> : AdBase<Slow> { static constexpr const char* name = "yielding"; using Conv = int; static Slow make(int id) { return Slow(id); } static int id(const Slow& v) { preempt(); return v.v; } static int moved_ctor(int) { return ANY; } static int moved_assign(int) { return ANY; } };
template<> struct Ad<Lvl> : AdBase<Lvl> { static constexpr const char* name = "own traits"; static Lvl make(int id) { return Lvl(id); } static int id(const Lvl& v) { return v.state == 0 ? v.v : UNKNOWN; } };
}
namespace {
template<class T> void shared(int steps) {
    using A = Ad<T>; using O = opt::option<T>; constexpr int K = 5;
    const std::string what = std::string("const operations on shared option<") + A::name + ">"; mon::context("%s", what.c_str());
    O pool[K]; mon::Rng r(mon::mix(mon::st().seed, mon::hash_str(A::name)));
    for (int i = 0; i < K; ++i) if (i % 3) A::emplace(pool[i], static_cast<int>(r.below(A::N)));
    const O(&cp)[K] = pool;
    auto body = [&](int k, Ctx* c, std::vector<std::uint64_t>& out) {
        mon::Rng q(mon::mix(mon::root().seed, static_cast<std::uint64_t>(k) + 500));
        for (int s = 0; s < steps; ++s) {
            const int op = static_cast<int>(q.below(cops::NOPS)), i = static_cast<int>(q.below(K)), j = static_cast<int>(q.below(K)), id = static_cast<int>(q.below(A::N));
            if (c) c->begin(op);
            out.push_back(cops::const_op<T>(op, cp[i], cp[j], id));
        }
    };
    std::vector<std::vector<std::uint64_t>> want(NT), got(NT);
    // the threads come first: what the library works out on first use, if anything, is worked out by several of them at once
    std::string bytes(reinterpret_cast<const char*>(pool), sizeof pool);
    threads(what.c_str(), [&](int k, Ctx& c) { body(k, &c, got[k]); });
    for (int k = 0; k < NT; ++k) body(k, nullptr, want[k]);
    for (int k = 0; k < NT; ++k) for (std::size_t s = 0; s < want[k].size(); ++s) {
        MCHECK(want[k][s] == got[k][s], std::string("C18-shared/") + A::name, "a const operation gives %llx in thread %d and %llx sequentially (step %zu)", (unsigned long long)got[k][s], k, (unsigned long long)want[k][s], s);
        if (want[k][s] != got[k][s]) break;
    }
    MCHECK(std::memcmp(bytes.data(), pool, sizeof pool) == 0, std::string("C18-shared-bytes/") + A::name, "const operations changed the bytes of a shared option");
    mon::count("types shared");
}
// ---- distinct options side by side, each thread a history of its own
template<class T> void distinct(int steps) {
    using O = opt::option<T>; using H = eng::History<T>;
    const std::string what = std::string("adjacent option<") + Ad<T>::name + ">"; mon::context("%s", what.c_str());
    constexpr std::size_t al = alignof(O) < 16 ? 16 : alignof(O);
    const std::size_t unit = sizeof(O), n = static_cast<std::size_t>(H::K) * NT;
    unsigned char* block = static_cast<unsigned char*>(::operator new(unit * n, std::align_val_t(al)));
    std::memset(block, 0, unit * n);
    threads(what.c_str(), [&](int k, Ctx& c) {
        unsigned char* slot[H::K]; for (int i = 0; i < H::K; ++i) slot[i] = block + unit * static_cast<std::size_t>(i * NT + k);
        H x(mon::mix(mon::root().seed, mon::mix(mon::hash_str(Ad<T>::name), static_cast<std::uint64_t>(k))), "C18", slot, -1);
        for (int s = 0; s < steps; ++s) { c.begin(s & 127); if (!x.step()) break; }
        mon::count("history steps", static_cast<unsigned>(steps));
    });
    ::operator delete(block, std::align_val_t(al)); mon::count("types adjacent");
}
// ---- members of one object, and members in each other's tail padding
template<class T> struct Tail : opt::option<T> { unsigned char tail[3]; using opt::option<T>::option; };
template<class T> void tails(int steps) {
    using A = Ad<T>; const std::string what = std::string("members in the tail padding of option<") + A::name + ">"; mon::context("%s", what.c_str());
    constexpr int P = NT / 2; std::vector<Tail<T>> d(P);
    threads(what.c_str(), [&](int k, Ctx& c) {
        Tail<T>& x = d[static_cast<std::size_t>(k / 2)]; opt::option<T>& o = x; mon::Rng r(mon::mix(mon::root().seed, static_cast<std::uint64_t>(k)));
        if (k % 2) { for (int s = 0; s < steps; ++s) { c.begin(1); const auto v = static_cast<unsigned char>(r.below(256)); for (auto& t : x.tail) t = v; preempt(); if (r.chance(1, 4)) sched_yield();
                for (auto& t : x.tail) { MCHECK(t == v, std::string("C18-tail/") + A::name, "a member in the tail padding of an option changed while another thread used the option"); } } }
        else { bool has = false; int id = 0;
            for (int s = 0; s < steps; ++s) { c.begin(2); const int i = static_cast<int>(r.below(A::N)); opt::option<T> other; const bool h = r.chance(1, 2); if (h) A::emplace(other, i);
                switch (r.below(7)) { case 0: o.reset(); has = false; break; case 1: A::emplace(o, i); has = true; id = i; break; case 2: o = opt::none; has = false; break;
                case 3: { auto t = o.take(); has = false; break; } case 4: if constexpr (std::is_move_assignable_v<T>) { o = std::move(other); has = h; id = i; } break; case 5: o.swap(other); { const bool b = has; has = h; if (h) id = i; (void)b; } break;
                default: if constexpr (std::is_move_assignable_v<T>) { o = A::make(i); has = true; id = i; } }
                MCHECK(o.has_value() == has && (!has || A::id(*o) == id), std::string("C18-tail-value/") + A::name, "an option changed while another thread used a member in its tail padding"); } }
    });
    mon::count("types with neighbours in their tail padding", sizeof(Tail<T>) == sizeof(opt::option<T>));
}
// several small options of different types in one object, one thread each
struct Many { opt::option<bool> a; opt::option<char> b; opt::option<bool> c; opt::option<EU8> d; opt::option<short> e; opt::option<char> f; opt::option<opt::option<bool>> g; opt::option<float> h; };
void members(int steps) {
    std::vector<Many> m(2);
    auto drive = [&](auto& o, Ctx& c, int salt) {
        using T = typename std::decay_t<decltype(o)>::value_type; mon::Rng r(mon::mix(mon::root().seed, static_cast<std::uint64_t>(salt))); bool has = false; int id = 0;
        for (int s = 0; s < steps; ++s) { c.begin(salt); const int i = static_cast<int>(r.below(Ad<T>::N));
            switch (r.below(5)) { case 0: o.reset(); has = false; break; case 1: Ad<T>::emplace(o, i); has = true; id = i; break; case 2: o = Ad<T>::make(i); has = true; id = i; break; case 3: o = opt::none; has = false; break; default: { auto t = o; o = std::move(t); } }
            MCHECK(o.has_value() == has && (!has || Ad<T>::id(*o) == id), "C18-members", "an option member changed while other threads used its neighbours"); }
    };
    threads("neighbouring members", [&](int k, Ctx& c) { Many& x = m[static_cast<std::size_t>(k % 2)]; switch (k / 2) { case 0: drive(x.a, c, 1); drive(x.d, c, 2); drive(x.g, c, 3); break; case 1: drive(x.b, c, 4); drive(x.e, c, 5); drive(x.h, c, 6); break; default: drive(x.c, c, 7); drive(x.f, c, 8); } });
    // a vector of options, one element each
    std::vector<opt::option<bool>> v(64); threads("vector of option<bool>", [&](int k, Ctx& c) { for (int i = k; i < 64; i += NT) drive(v[static_cast<std::size_t>(i)], c, 9); });
    std::array<opt::option<char>, 61> w; threads("array of option<char>", [&](int k, Ctx& c) { for (std::size_t i = static_cast<std::size_t>(k); i < 61; i += NT) drive(w[i], c, 10); });
}
// ---- reference options to one referent, each thread its own; and shared ones, read only
template<class T> void references(int steps) {
    using A = Ad<T>; const std::string what = std::string("reference options to one ") + A::name; mon::context("%s", what.c_str());
    const T one = A::make(1 % A::N), two = A::make(2 % A::N); const opt::option<const T&> everyone(one); T mine[NT * 2]; for (int i = 0; i < NT * 2; ++i) mine[i] = A::make(i % A::N); opt::option<T&> slots[NT];
    threads(what.c_str(), [&](int k, Ctx& c) {
        mon::Rng r(mon::mix(mon::root().seed, static_cast<std::uint64_t>(k))); opt::option<const T&> o; const T* at = nullptr; opt::option<T&>& s = slots[k]; T* st = nullptr;
        for (int n = 0; n < steps; ++n) { const int op = static_cast<int>(r.below(12)); c.begin(op);
            switch (op) {
            case 0: o = one; at = &one; break; case 1: o = two; at = &two; break; case 2: o.reset(); at = nullptr; break; case 3: o = everyone; at = &one; break;
            case 4: { auto t = o; o = opt::none; o = t; break; } case 5: { opt::option<const T&> t(two); o.swap(t); at = &two; break; }
            case 6: { auto v = everyone.map([](const T& x) { return A::id(x); }); MCHECK(v.has_value() && *v == 1 % A::N, "C18-reference", "a shared reference option read as something else"); break; }
            case 7: s = mine[k * 2]; st = &mine[k * 2]; break; case 8: s = mine[k * 2 + 1]; st = &mine[k * 2 + 1]; break; case 9: s.reset(); st = nullptr; break;
            case 10: if (s) *s = A::make(static_cast<int>(r.below(A::N))); break; default: { auto t = s; s = opt::none; s = t; } }
            MCHECK(o.ptr_or_null() == at && s.ptr_or_null() == st && everyone.ptr_or_null() == &one, "C18-reference", "a reference option changed while other threads used theirs");
            if (o) MCHECK(A::id(*o) == (at == &one ? 1 % A::N : 2 % A::N), "C18-reference", "the common referent changed");
        }
    });
    mon::count("referent types");
}
// ---- lookups in shared containers
void lookups(int steps) {
    const std::vector<int> v{1, 2, 3, 4, 5}; const std::map<int, std::string> m{{1, "one"}, {2, "two"}}; const std::array<double, 3> a{1, 2, 3}; const std::string text = "abc"; const std::variant<int, std::string> va(std::string("x")); const opt::option<std::variant<int, std::string>> ov(va); const std::tuple<int, std::string> tu(3, "t"); const opt::option<std::tuple<int, std::string>> ot(tu);
    threads("lookups in shared containers", [&](int k, Ctx& c) {
        mon::Rng r(mon::mix(mon::root().seed, static_cast<std::uint64_t>(k)));
        for (int n = 0; n < steps; ++n) { const int op = static_cast<int>(r.below(8)); c.begin(op); const std::size_t i = r.below(8); bool ok = true;
            switch (op) {
            case 0: { auto x = opt::at(v, i); ok = x.has_value() == (i < 5) && (i >= 5 || &*x == &v[i]); break; } case 1: { auto x = opt::lookup(m, static_cast<int>(i)); ok = x.has_value() == (i == 1 || i == 2); break; }
            case 2: { auto x = opt::at(a, i); ok = x.has_value() == (i < 3); break; } case 3: { auto x = opt::at_front(text); auto y = opt::at_back(text); ok = x && y && *x == 'a' && *y == 'c'; break; }
            case 4: { auto x = opt::get<std::string>(ov); ok = x.has_value() && *x == "x"; break; } case 5: { auto x = opt::get<1>(ot); ok = x.has_value() && *x == "t"; break; }
            case 6: { auto x = opt::get<int>(ov); ok = !x.has_value(); break; } default: { auto x = opt::make_option(v); ok = x->size() == 5; } }
            MCHECK(ok, "C18-lookup", "lookup %d in a shared container gives another result", op); }
    });
}
} // namespace
#define RUN(...) distinct<__VA_ARGS__>(S); shared<__VA_ARGS__>(S);
int main(int argc, char** argv) {
    mon::init(argc, argv);
    const int S = static_cast<int>(120 * mon::st().scale); (void)S;
#if GROUP == 0
    RUN(int) RUN(bool) RUN(float) RUN(double) RUN(char) RUN(short) RUN(long long) RUN(int*) RUN(EPlain) RUN(EU8) RUN(ESent) RUN(EStartEnd) RUN(MemPtr) RUN(MemFn) RUN(FnPtr) RUN(Slow) RUN(Lvl)
#elif GROUP == 1
    RUN(std::string) RUN(std::u16string) RUN(std::string_view) RUN(std::vector<int>) RUN(std::vector<std::string>) RUN(std::unique_ptr<int>) RUN(std::shared_ptr<int>) RUN(std::reference_wrapper<int>) RUN(std::variant<int, std::string>) RUN(std::map<int, int>)
#elif GROUP == 2
    RUN(std::pair<int, std::string>) RUN(std::pair<bool, int>) RUN(std::tuple<int, double, std::string>) RUN(std::array<float, 3>) RUN(std::complex<double>) RUN(std::pair<int*, bool>) RUN(Agg) RUN(Pad) RUN(Poly) RUN(SentV) RUN(Sent3) RUN(SentF) RUN(Memb) RUN(Enf) RUN(TupLike) RUN(Empty) RUN(Over)
#elif GROUP == 3
    RUN(opt::option<int>) RUN(opt::option<bool>) RUN(opt::option<opt::option<std::string>>) RUN(opt::option<opt::option<EStartEnd>>) RUN(std::pair<opt::option<int>, bool>) RUN(opt::option<Slow>) RUN(opt::option<opt::option<Lvl>>) RUN(std::pair<opt::option<bool>, opt::option<bool>>)
    RUN(Prof000000) RUN(Prof000011) RUN(Prof111100) RUN(Prof111111) RUN(opt::option<Prof111111>)
#elif GROUP == 4
    tails<int>(S); tails<short>(S); tails<char>(S); tails<bool>(S); tails<double>(S); tails<std::string>(S); tails<Agg>(S); tails<AggB>(S); tails<PadS>(S); tails<Poly>(S); tails<Memb>(S); tails<Over>(S); tails<Prof000000>(S); tails<Prof111111>(S); tails<Prof101010>(S); tails<Slow>(S); tails<std::tuple<int, short>>(S); tails<std::unique_ptr<int>>(S); tails<EPlain>(S);
    members(S); references<int>(S); references<std::string>(S); references<Agg>(S); references<double>(S); references<opt::option<int>>(S); references<bool>(S); lookups(3 * S);
#endif
    return mon::finish();
}
