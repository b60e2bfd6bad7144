// History engine: drives a pool of opt::option<T> objects with random operations against a nullable-value model.
#pragma once
#include <algorithm>
#include <cstddef>
#include <new>
#include "mon.hpp"
#include "types.hpp"

#ifndef ENG_UNDEFINED
#define ENG_UNDEFINED(p, n) (void)0
#endif

namespace eng {
using ty::ANY; using ty::UNKNOWN; using ty::Ad;

struct M { bool has = false; int id = 0; };
inline bool operator==(const M& a, const M& b) { return a.has == b.has && (!a.has || a.id == b.id); }

template<class T>
struct History {
    using O = opt::option<T>;
    using A = Ad<T>;
    using Conv = typename A::Conv;
    static constexpr bool copyable = A::copyable;
    static constexpr bool has_conv = !std::is_void_v<Conv>;
    static constexpr bool assignable = std::is_move_assignable_v<T>;
    static constexpr int K = 4;
    // Where the options live: LAYOUT 0 apart with guard bytes between them, 1 adjacent elements of an array that fills its memory block exactly,
    // 2 members of structs packed between char members.
    struct alignas(alignof(O)) Cell { alignas(alignof(O)) unsigned char pre[64]; alignas(alignof(O)) unsigned char raw[sizeof(O)]; unsigned char post[64]; };
    struct Packed { char before; alignas(alignof(O)) unsigned char raw[sizeof(O)]; char after; };
    int layout, fill;
    std::size_t size;
    unsigned char* block;
    unsigned char* raw[K];
    std::vector<unsigned char> snap;
    M model[K];
    mon::Rng rng, grng;
    std::string trail;
    const char* suite;
    int last_a = 0, last_b = 0;
    std::uint64_t trace = 0; // what a user could observe of the last step

    O& o(int i) { return *std::launder(reinterpret_cast<O*>(raw[i])); }
    // What storage contains before an object is created in it: 0, 1, 2 fixed, 3 random, 4 whatever was there, 5 marked undefined for memcheck, -1 any of 0..4
    void garbage(int i) {
        const int mode = fill >= 0 ? fill : static_cast<int>(grng.below(5));
        if (mode == 4) return;
        for (std::size_t j = 0; j < sizeof(O); ++j) raw[i][j] = mode == 0 ? 0 : mode == 1 ? 0xFF : mode == 2 ? 0x01 : static_cast<unsigned char>(grng.next());
        if (mode == 5) ENG_UNDEFINED(raw[i], sizeof(O));
    }
    explicit History(std::uint64_t seed, const char* suite_, int layout_ = 0, int fill_ = -1) : layout(layout_), fill(fill_), rng(seed), grng(seed ^ 0x5555), suite(suite_) {
        const std::size_t unit = layout == 0 ? sizeof(Cell) : layout == 1 ? sizeof(O) : sizeof(Packed);
        const std::size_t offset = layout == 0 ? offsetof(Cell, raw) : layout == 1 ? 0 : offsetof(Packed, raw);
        size = unit * K;
        block = static_cast<unsigned char*>(::operator new(size, std::align_val_t(alignof(O) < 16 ? 16 : alignof(O))));
        for (std::size_t j = 0; j < size; ++j) block[j] = static_cast<unsigned char>(0xA5 ^ j);
        for (int i = 0; i < K; ++i) raw[i] = block + unit * static_cast<std::size_t>(i) + offset;
        for (int i = 0; i < K; ++i) { garbage(i); ::new (static_cast<void*>(raw[i])) O(); }
        snap.resize(size);
    }
    // The same over storage that belongs to others as well (no snapshots: the bytes in between are theirs).
    History(std::uint64_t seed, const char* suite_, unsigned char* const* slots, int fill_) : layout(3), fill(fill_), size(0), block(nullptr), rng(seed), grng(seed ^ 0x5555), suite(suite_) {
        for (int i = 0; i < K; ++i) { raw[i] = slots[i]; garbage(i); ::new (static_cast<void*>(raw[i])) O(); }
    }
    History(const History&) = delete;
    ~History() { for (int i = 0; i < K; ++i) o(i).~O(); if (block) ::operator delete(block, std::align_val_t(alignof(O) < 16 ? 16 : alignof(O))); }

    std::string key(const char* what) { return std::string(suite) + "-" + what + "/" + A::name; }
    static int rid(const O& x) { return x.has_value() ? A::id(*x) : -1; }

    bool match(const O& x, const M& m, const char* what, int i) {
        const bool h = x.has_value();
        MCHECK(h == m.has, key("state"), "after %s: option %d holds=%d, model holds=%d", what, i, h, m.has);
        MCHECK(static_cast<bool>(x) == m.has, key("bool"), "after %s: option %d bool conversion %d, model %d", what, i, static_cast<bool>(x), m.has);
        MCHECK((x == opt::none) == !m.has && (opt::none != x) == m.has, key("none"), "after %s: option %d comparison with none disagrees with the model (%d)", what, i, m.has);
        if (h != m.has) return false;
        if (h && m.id != ANY) {
            const int got = A::id(*x);
            MCHECK(got == m.id, key("value"), "after %s: option %d holds value #%d, model #%d", what, i, got, m.id);
            MCHECK(A::id(x.get()) == m.id, key("value-get"), "after %s: get() of option %d disagrees", what, i);
            if (got != m.id) return false;
        }
        return true;
    }
    // No byte of the block outside the two options a step works on may change.
    void take_snapshot() { if (fill != 5 && size) std::memcpy(snap.data(), block, size); }
    void check_neighbours(const char* what) {
        ++mon::st().evaluations;
        if (fill == 5) return;
        for (std::size_t j = 0; j < size; ++j) {
            if (block[j] == snap[j]) continue;
            const unsigned char* p = block + j;
            if ((p >= raw[last_a] && p < raw[last_a] + sizeof(O)) || (p >= raw[last_b] && p < raw[last_b] + sizeof(O))) continue;
            mon::violation(key("neighbour"), "%s wrote outside the option (layout %d, %d bytes from it)", what, layout, static_cast<int>(p - raw[last_a]));
            return;
        }
    }
    // The value comparisons of the model when the value is unspecified: learn it.
    void learn(int i) { if (model[i].has && model[i].id == ANY) { const int got = A::id(*o(i)); if (got >= 0) model[i].id = got; } }

    M moved_from_by_ctor(const M& m) { return m.has ? M{true, m.id == ANY ? ANY : A::moved_ctor(m.id)} : M{}; }
    M moved_from_by_assign(const M& src, const M& dst) {
        if (!src.has) return M{};
        if (src.id == ANY) return M{true, ANY};
        if (std::is_scalar_v<T>) return src;
        return M{true, dst.has ? A::moved_assign(src.id) : A::moved_ctor(src.id)};
    }
    void rebuild(int i) { o(i).~O(); garbage(i); }

    bool step() {
        const int a = static_cast<int>(rng.below(K));
        int b = static_cast<int>(rng.below(K));
        const int id = static_cast<int>(rng.below(static_cast<std::uint64_t>(A::N)));
        const unsigned op = static_cast<unsigned>(rng.below(38));
        const char* what = "";
        last_a = a; last_b = b; take_snapshot();
        const M before = model[a], other = model[b];
        const M val{true, id};
        switch (op) {
        case 0: what = "default construction"; rebuild(a); ::new (static_cast<void*>(raw[a])) O(); model[a] = M{}; break;
        case 1: what = "construction from none"; rebuild(a); ::new (static_cast<void*>(raw[a])) O(opt::none); model[a] = M{}; break;
        case 2: what = "construction from lvalue";
            if constexpr (copyable) { const T x = A::make(id); rebuild(a); ::new (static_cast<void*>(raw[a])) O(x); MCHECK(A::id(x) == id, key("arg-changed"), "%s changed its argument", what); model[a] = val; } break;
        case 3: what = "construction from rvalue"; rebuild(a); ::new (static_cast<void*>(raw[a])) O(A::make(id)); model[a] = val; break;
        case 4: what = "in-place construction"; rebuild(a); ::new (static_cast<void*>(raw[a])) O(std::in_place, A::make(id)); model[a] = val; break;
        case 5: what = "copy construction";
            if constexpr (copyable) { if (a != b) { rebuild(a); ::new (static_cast<void*>(raw[a])) O(static_cast<const O&>(o(b))); model[a] = model[b]; } } break;
        case 6: what = "move construction";
            if (a != b) { rebuild(a); ::new (static_cast<void*>(raw[a])) O(std::move(o(b))); model[a] = other; model[b] = moved_from_by_ctor(other); } break;
        case 7: what = "assignment of none"; { O& r = (o(a) = opt::none); MCHECK(&r == &o(a), key("ret"), "%s did not return *this", what); model[a] = M{}; } break;
        case 8: what = "assignment of lvalue";
            if constexpr (copyable && assignable) { const T x = A::make(id); O& r = (o(a) = x); MCHECK(&r == &o(a), key("ret"), "%s did not return *this", what); MCHECK(A::id(x) == id, key("arg-changed"), "%s changed its argument", what); model[a] = val; } break;
        case 9: what = "assignment of rvalue"; if constexpr (assignable) { o(a) = A::make(id); model[a] = val; } break;
        case 10: case 11: what = "copy assignment";
            if constexpr (copyable && assignable) { O& r = (o(a) = static_cast<const O&>(o(b))); MCHECK(&r == &o(a), key("ret"), "%s did not return *this", what); if (a != b) model[a] = model[b]; } break;
        case 12: case 13: what = "move assignment";
            if constexpr (assignable) {
                if (a != b) { o(a) = std::move(o(b)); model[a] = other; model[b] = moved_from_by_assign(other, before); }
                else if constexpr (std::is_base_of_v<ty::prof_key, T> || std::is_trivially_move_assignable_v<T>) { O& r = o(a); o(a) = std::move(r); }
            } break;
        case 14: what = "assignment from a temporary option"; if constexpr (assignable) { o(a) = O(A::make(id)); model[a] = val; } break;
        case 15: what = "assignment from const option of another type";
            if constexpr (has_conv && assignable) { const bool h = rng.chance(2, 3); const opt::option<Conv> u = h ? opt::option<Conv>(Ad_conv(id)) : opt::option<Conv>(opt::none); o(a) = u; model[a] = h ? val : M{}; MCHECK(u.has_value() == h, key("arg-changed"), "%s changed its argument", what); } break;
        case 16: what = "assignment from rvalue option of another type";
            if constexpr (has_conv && assignable) { const bool h = rng.chance(2, 3); opt::option<Conv> u; if (h) u.emplace(Ad_conv(id)); o(a) = std::move(u); model[a] = h ? val : M{}; } break;
        case 17: what = "assignment from a convertible value"; if constexpr (has_conv && assignable) { o(a) = Ad_conv(id); model[a] = val; } break;
        case 18: what = "construction from option of another type";
            if constexpr (has_conv) { const bool h = rng.chance(2, 3); opt::option<Conv> u; if (h) u.emplace(Ad_conv(id)); const opt::option<Conv>& cu = u; rebuild(a); if (id % 2) ::new (static_cast<void*>(raw[a])) O(cu); else ::new (static_cast<void*>(raw[a])) O(std::move(u)); model[a] = h ? val : M{}; } break;
        case 19: what = "reset"; o(a).reset(); model[a] = M{}; break;
        case 20: case 21: what = "emplace"; A::emplace(o(a), id); model[a] = val; break;
        case 22: what = "try_emplace"; A::try_emplace(o(a), id); if (!before.has) model[a] = val; break;
        case 23: what = "take";
            { O r = o(a).take(); match(r, before, "take (result)", a); model[a] = M{}; } break;
        case 24: what = "take_if";
            { const bool yes = rng.chance(1, 2); int calls = 0; bool arg_ok = true;
              O r = o(a).take_if([&](const T& x) { ++calls; arg_ok = arg_ok && (static_cast<const void*>(std::addressof(x)) == static_cast<const void*>(o(a).ptr_or_null())); return yes; });
              MCHECK(calls == (before.has ? 1 : 0), key("take_if-calls"), "take_if called the predicate %d times, option held=%d", calls, before.has);
              MCHECK(arg_ok, key("take_if-arg"), "take_if passed something else than the contained object");
              match(r, before.has && yes ? before : M{}, "take_if (result)", a); if (yes) model[a] = M{}; } break;
        case 25: case 26: what = "member swap"; o(a).swap(o(b)); std::swap(model[a], model[b]); if (a == b || (model[a].has && model[b].has)) fix_swap(a, b, before, other); break;
        case 27: what = "free swap"; opt::swap(o(a), o(b)); std::swap(model[a], model[b]); if (a == b || (model[a].has && model[b].has)) fix_swap(a, b, before, other); break;
        case 28: what = "std::swap"; if constexpr (assignable) { if (a != b) { std::swap(o(a), o(b)); std::swap(model[a], model[b]); } } break;
        case 29: what = "assignment through the accessor"; if constexpr (assignable && !std::is_const_v<T>) { if (before.has) { *o(a) = A::make(id); model[a] = val; } } break;
        case 30: what = "self-copy round trip"; if constexpr (copyable && assignable) { O tmp(o(a)); match(tmp, before, "copy (temporary)", a); o(a) = std::move(tmp); model[a] = before; } break;
        case 31: what = "reset after move out"; { O tmp(std::move(o(a))); match(tmp, before, "move (temporary)", a); model[a] = moved_from_by_ctor(before); if (id % 2) { o(a).reset(); model[a] = M{}; } } break;
        case 32: what = "make_option assignment"; if constexpr (assignable) { o(a) = opt::make_option<T>(A::make(id)); model[a] = val; } break;
        case 33: what = "vector churn"; churn(id); break;
        case 34: case 35: what = "emplace of nothing";
            if constexpr (std::is_default_constructible_v<T>) { const int d = A::id(T()); if (d >= 0) { auto& r = o(a).emplace(); MCHECK(static_cast<const void*>(std::addressof(r)) == static_cast<const void*>(o(a).ptr_or_null()), key("ret"), "%s did not return the contained object", what); model[a] = M{true, d}; } } break;
        case 36: what = "try_emplace of nothing";
            if constexpr (std::is_default_constructible_v<T>) { const int d = A::id(T()); if (d >= 0) { o(a).try_emplace(); if (!before.has) model[a] = M{true, d}; } } break;
        case 37: what = "in-place construction from nothing";
            if constexpr (std::is_default_constructible_v<T>) { const int d = A::id(T()); if (d >= 0) { rebuild(a); ::new (static_cast<void*>(raw[a])) O(std::in_place); model[a] = M{true, d}; } } break;
        default: break;
        }
        char buf[96];
        std::snprintf(buf, sizeof buf, "%s(%d,%d,#%d); ", what, a, b, id);
        if (trail.size() > 1400) trail.erase(0, trail.find(';', 300) + 2);
        trail += buf;
        mon::context("%s %s: %s", suite, A::name, trail.c_str());
        mon::seen(mon::mix(mon::mix(mon::hash_str(A::name), op), (before.has ? 1u : 0u) | (other.has ? 2u : 0u) | (a == b ? 4u : 0u)
            | static_cast<unsigned>((before.has ? before.id + 4 : 0) % 64) << 4 | static_cast<unsigned>((other.has ? other.id + 4 : 0) % 64) << 10));
        bool ok = true;
        check_neighbours(what);
        for (int i = 0; i < K; ++i) { ok = match(o(i), model[i], what, i) && ok; learn(i); }
        trace = mon::mix(op, ok);
        for (int i = 0; i < K; ++i) trace = mon::mix(trace, model[i].has ? static_cast<std::uint64_t>(model[i].id) + 10 : 1);
        mon::digest(op);
        for (int i = 0; i < K; ++i) mon::digest(static_cast<std::uint64_t>(rid(o(i))) + 10);
        return ok;
    }
    // After an element swap that goes through moves, the values are exchanged exactly.
    void fix_swap(int a, int b, const M& before, const M& other) { model[a] = other; model[b] = before; }

    static auto Ad_conv(int id) {
        if constexpr (std::is_same_v<Conv, std::string_view>) return Ad<std::string_view>::make(id);
        else if constexpr (std::is_same_v<T, const int*>) return Ad<int*>::make(id);
        else if constexpr (std::is_same_v<T, long long> || std::is_same_v<T, int> || std::is_same_v<T, double>) return static_cast<Conv>(A::make(id));
        else return static_cast<std::conditional_t<has_conv, Conv, int>>(id);
    }
    // options as container elements: relocation, rotation, removal
    void churn(int id) {
        std::vector<O> v; std::vector<M> m;
        const int n = 1 + static_cast<int>(rng.below(9));
        for (int i = 0; i < n; ++i) {
            const int x = (id + i) % A::N;
            if (rng.chance(1, 3)) { v.emplace_back(); m.push_back(M{}); }
            else { v.push_back(O(A::make(x))); m.push_back(M{true, x}); }
        }
        if constexpr (assignable) {
            const auto k = static_cast<std::ptrdiff_t>(rng.below(static_cast<std::uint64_t>(n)));
            switch (rng.below(4)) {
            case 0: std::rotate(v.begin(), v.begin() + k, v.end()); std::rotate(m.begin(), m.begin() + k, m.end()); break;
            case 1: std::reverse(v.begin(), v.end()); std::reverse(m.begin(), m.end()); break;
            case 2: v.erase(v.begin() + k); m.erase(m.begin() + k); break;
            default: v.insert(v.begin() + k, O()); m.insert(m.begin() + k, M{}); break;
            }
        }
        for (std::size_t i = 0; i < m.size(); ++i) match(v[i], m[i], "container operation", static_cast<int>(i));
    }
};

template<class T>
void run_type(const char* suite, std::uint64_t histories, std::uint64_t steps) {
    if (mon::st().only && !std::strstr(Ad<T>::name, mon::st().only)) return;
    mon::context("%s %s: start", suite, Ad<T>::name);
    std::uint64_t total = 0;
    for (std::uint64_t h = 0; h < histories; ++h) {
        auto hist = std::make_unique<History<T>>(mon::mix(mon::st().seed, mon::mix(mon::hash_str(Ad<T>::name), h)), suite);
        for (std::uint64_t s = 0; s < steps; ++s) { ++total; if (!hist->step()) break; }
        if (h == 0 && (mon::hash_str(Ad<T>::name) % 5) == 0) mon::sample(std::string(Ad<T>::name) + ": " + hist->trail.substr(0, 300));
    }
    mon::count("steps", total);
    mon::count("types");
    mon::count("histories", histories);
}
} // namespace eng
