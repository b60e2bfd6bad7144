// C02: random histories over tracked objects; the registry of live objects is audited after every operation.
// C03: with FAULT, every user-code point of every operation from every pre-state throws once.
#ifndef GROUP
#define GROUP 0
#endif
#include "ops.hpp"
using namespace trk;
using ops::Runner;

template<class O, class F> void expect_total(std::size_t base, const char* when, F&& each) {
    std::size_t want = base; each([&](const O& o) { want += objects_of(o).size(); });
    ++mon::st().evaluations;
    if (R().live.size() != want) mon::violation(key("leak-or-loss"), "after %s: %zu tracked objects are alive, the options hold %zu", when, R().live.size(), want);
}

template<class T> void histories(int H, int S) {
    using O = opt::option<T>;
    if (mon::st().only && !std::strstr(V<T>::name(), mon::st().only)) return;
    mon::Rng rng(mon::mix(mon::st().seed, mon::hash_str(V<T>::name())));
    R().live.clear();
    for (int h = 0; h < H; ++h) {
        constexpr int K = 3;
        alignas(O) unsigned char raw[K][sizeof(O)];
        for (auto& r : raw) { std::memset(r, int(rng.below(256)), sizeof r); ::new (static_cast<void*>(r)) O(); }
        auto at = [&](int i) -> O& { return *std::launder(reinterpret_cast<O*>(raw[i])); };
        std::string trail;
        for (int s = 0; s < S; ++s) {
            const int op = int(rng.below(ops::op_count)), a = int(rng.below(K)); int b = int(rng.below(K));
            if (a == b && !(ops::table[op].flags & ops::ALIAS)) b = (a + 1) % K;
            const int id = 1 + int(rng.below(40));
            const bool ha = at(a).has_value(), hb = at(b).has_value();
            const int ia = ha ? V<T>::id(*at(a)) : 0, ib = hb ? V<T>::id(*at(b)) : 0;
            const std::size_t mark = trail.size();
            trail += ops::table[op].name; trail += "(" + std::to_string(a) + "," + std::to_string(b) + "); ";
            mon::context("C02 %s: %s", V<T>::name(), trail.c_str());
            const auto c0 = R().constructed;
            if (!Runner<T>::run(op, at(a), at(b), id)) { trail.resize(mark); continue; }
            if (trail.size() > 1200) trail.erase(0, trail.find(';', 200) + 2);
            mon::count("operations");
            mon::count("objects constructed", R().constructed - c0);
            bool ok = true;
            for (int i = 0; i < K; ++i) ok = audit(at(i), ops::table[op].name, "in pool") && ok;
            expect_total<O>(0, ops::table[op].name, [&](auto f) { for (int i = 0; i < K; ++i) f(at(i)); });
            const unsigned fl = ops::table[op].flags;
            if (fl & ops::A_SAME) { const bool same = at(a).has_value() == ha && (!ha || V<T>::id(*at(a)) == ia); MCHECK(same, key("unchanged"), "%s changed its lvalue operand a", ops::table[op].name); }
            if (fl & ops::B_SAME) { const bool same = at(b).has_value() == hb && (!hb || V<T>::id(*at(b)) == ib); if (a != b) MCHECK(same, key("unchanged"), "%s changed its lvalue operand b", ops::table[op].name); }
            if (!ok) break;
            mon::seen(mon::mix(mon::mix(mon::hash_str(V<T>::name()), op), ha | hb << 1 | (a == b) << 2 | (ia == MOVED) << 3 | (ib == MOVED) << 4 | std::uint64_t(R().live.size()) << 8));
        }
        for (int i = 0; i < K; ++i) at(i).~O();
        MCHECK(R().live.empty(), key("leak"), "%zu tracked objects outlive every option", R().live.size());
        R().live.clear();
        if (h == 0) mon::sample(std::string(V<T>::name()) + ": " + trail.substr(0, 240));
    }
}

template<class T> void faults() {
    using O = opt::option<T>;
    using A = V<T>;
    if (mon::st().only && !std::strstr(V<T>::name(), mon::st().only)) return;
    R().live.clear();
    for (int op = 0; op < ops::op_count; ++op) {
        const unsigned fl = ops::table[op].flags;
        for (int pre = 0; pre < ((fl & ops::ALIAS) ? 6 : 4); ++pre) {
            const bool alias = pre >= 4;
            for (int fill = 0; fill < 3; ++fill)
            for (long k = 0; k < 400; ++k) {
                struct Slot { alignas(O) unsigned char raw[sizeof(O)]; bool up = false; };
                Slot s[2];
                for (auto& x : s) { std::memset(x.raw, fill == 0 ? 0 : fill == 1 ? 0xFF : 0x6B, sizeof x.raw); ::new (static_cast<void*>(x.raw)) O(); }
                O& a = *std::launder(reinterpret_cast<O*>(s[0].raw));
                O& b2 = *std::launder(reinterpret_cast<O*>(s[1].raw));
                O& b = alias ? a : b2;
                R().countdown = -1;
                if constexpr (std::is_move_constructible_v<T> || A::direct) {
                    if (pre & 1) A::emplace(a, 11);
                    if (!alias && (pre & 2)) A::emplace(b, 22);
                }
                const bool ha = a.has_value(), hb = b.has_value();
                const int ia = ha ? A::id(*a) : 0, ib = hb ? A::id(*b) : 0;
                mon::context("C03 %s: %s from a=%s b=%s%s, fault at user-code point %ld", A::name(), ops::table[op].name, ha ? "holding" : "empty", hb ? "holding" : "empty", alias ? " (same object)" : "", k);
                bool threw = false, exists = true;
                const unsigned before = R().booms;
                R().points = 0;
                R().countdown = k;
                try { exists = Runner<T>::run(op, a, b, 33); }
                catch (const Boom& e) { threw = true; MCHECK(e.serial == before + 1 && R().booms == before + 1, key("exception-identity"), "another exception came out than the one thrown"); }
                catch (...) { threw = true; mon::violation(key("exception-identity"), "the exception was replaced"); }
                const char* where = R().what;
                R().countdown = -1;
                if (!exists) { a.reset(); b.reset(); a.~O(); b2.~O(); R().live.clear(); k = 1000; fill = 3; break; }
                MCHECK(threw == (R().booms != before), key("exception-swallowed"), "%s: the exception of the user code did not come out", ops::table[op].name);
                mon::count("executions");
                if (threw) {
                    mon::count("injected exceptions");
                    mon::seen(mon::mix(mon::mix(mon::hash_str(A::name()), op * 8 + pre), k));
                    bool ok = audit(a, ops::table[op].name, "a"); if (!alias) ok = audit(b, ops::table[op].name, "b") && ok;
                    const bool na = a.has_value(), nb = b.has_value();
                    if (ok) expect_total<O>(0, "a throw", [&](auto f) { f(a); if (!alias) f(b); });
                    if (!ha && (fl & (ops::A_EMPTY | ops::A_SAME))) MCHECK(!na, key("empty-stays-empty"), "%s threw at '%s' and left the option that was empty non-empty", ops::table[op].name, where);
                    if (ha && (fl & (ops::A_HOLD | ops::A_SAME))) MCHECK(na, key("holding-stays-holding"), "%s threw at '%s' and left the option that was holding empty", ops::table[op].name, where);
                    if (!alias && hb && (fl & (ops::B_HOLD | ops::B_SAME))) MCHECK(nb, key("holding-stays-holding"), "%s threw at '%s' and left the holding operand empty", ops::table[op].name, where);
                    if (!alias && !hb && (fl & (ops::B_HOLD | ops::B_SAME))) MCHECK(!nb, key("empty-stays-empty"), "%s threw at '%s' and left the empty operand non-empty", ops::table[op].name, where);
                    if (ok && ha && na && (fl & ops::A_SAME)) MCHECK(A::id(*a) == ia, key("read-only-changed"), "%s threw at '%s' and changed an option it only reads", ops::table[op].name, where);
                    if (ok && !alias && hb && nb && (fl & ops::B_SAME)) MCHECK(A::id(*b) == ib, key("read-only-changed"), "%s threw at '%s' and changed an option it only reads", ops::table[op].name, where);
                    // continued use
                    if constexpr (std::is_move_constructible_v<T> || A::direct) {
                        A::try_emplace(a, 44); audit(a, "reuse after a throw", "a");
                        A::emplace(b, 45); MCHECK(b.has_value() && A::id(*b) == 45, key("reuse"), "emplace after a throw did not take effect");
                        audit(b, "reuse after a throw", "b");
                    }
                    if (k % 2) a.reset();
                }
                a.~O(); b2.~O();
                MCHECK(R().live.empty(), key("leak"), "%s: %zu tracked objects outlive every option after a throw at '%s'", ops::table[op].name, R().live.size(), where);
                R().live.clear();
                if (!threw) break;
            }
        }
    }
    mon::sample(std::string(A::name()) + ": every user-code point of every operation threw once, from each pre-state");
}

int main(int argc, char** argv) {
    mon::init(argc, argv);
#ifdef FAULT
    R().tag = "C03";
    #define RUN(...) faults<__VA_ARGS__>();
#else
    R().tag = "C02";
    const int H = 150 * int(mon::st().scale), S = 200;
    #define RUN(...) histories<__VA_ARGS__>(H, S);
#endif
#if GROUP == 0
    RUN(TA) RUN(TAs)
#elif GROUP == 1
    RUN(TM) RUN(TMs) RUN(TC) RUN(TCs)
#elif GROUP == 2
    RUN(TN) RUN(TNs) RUN(TI) RUN(TIs) RUN(TX)
#elif GROUP == 3
    RUN(TP) RUN(TPs) RUN(TQ) RUN(TQs)
#elif GROUP == 4
    RUN(opt::option<TA>) RUN(opt::option<TAs>) RUN(std::pair<TA, bool>) RUN(std::pair<TAs, int>)
#elif GROUP == 5
    RUN(std::tuple<TA, TAs>) RUN(std::array<TAs, 2>) RUN(Agg) RUN(AggS)
#elif GROUP == 6
    RUN(const TA) RUN(opt::option<opt::option<TA>>) RUN(opt::option<std::pair<bool, TM>>) RUN(std::pair<opt::option<TA>, int>)
#elif GROUP == 7
    RUN(TD) RUN(TDs) RUN(TDn) RUN(TDns) RUN(opt::option<TD>) RUN(opt::option<opt::option<TDns>>) RUN(std::pair<TDns, bool>) RUN(std::tuple<TD, TDs>) RUN(const TDn)
#endif
    return mon::finish();
}
