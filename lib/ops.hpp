// The operations of opt::option over tracked types, each with what must still hold when it is cut short by an exception.
#pragma once
#include <algorithm>
#include <sstream>
#include <unordered_map>
#include "track.hpp"

namespace ops {
using namespace trk;
enum : unsigned {
    A_EMPTY = 1,  // if a was empty before, it is empty after a throw
    A_HOLD = 2,   // if a held before, it holds after a throw
    A_SAME = 4,   // a has the same value after a throw (and after a success)
    B_SAME = 8,   // b has the same value afterwards in any case
    B_HOLD = 16,  // if b held before, it holds after a throw
    ALIAS = 32,   // makes sense with a and b being the same object
};
struct Op { const char* name; unsigned flags; };
#define OPS_LIST(X) \
    X(copy_construct, A_SAME | B_SAME) X(move_construct, A_HOLD | A_EMPTY | B_SAME) X(from_lvalue, A_SAME | B_SAME) X(from_rvalue, A_SAME | B_SAME) \
    X(in_place, A_SAME | B_SAME) X(conv_construct_copy, A_SAME | B_SAME) X(conv_construct_move, A_SAME | B_SAME) \
    X(assign_none, B_SAME) X(assign_lvalue, A_EMPTY | A_HOLD | B_SAME) X(assign_rvalue, A_EMPTY | A_HOLD | B_SAME) \
    X(assign_copy, A_EMPTY | A_HOLD | B_SAME | ALIAS) X(assign_move, A_EMPTY | A_HOLD | B_HOLD) X(assign_temporary, A_EMPTY | A_HOLD | B_SAME) \
    X(assign_src_lvalue, A_EMPTY | A_HOLD | B_SAME) X(assign_src_rvalue, A_EMPTY | A_HOLD | B_SAME) \
    X(assign_optsrc_copy, A_EMPTY | A_HOLD | B_SAME) X(assign_optsrc_move, A_EMPTY | A_HOLD | B_SAME) X(assign_optsrc_none, B_SAME) \
    X(reset, B_SAME) X(emplace, A_EMPTY | B_SAME) X(emplace_copy_of_b, A_EMPTY | B_SAME) X(try_emplace, A_EMPTY | A_HOLD | B_SAME) \
    X(take, A_HOLD | A_EMPTY | B_SAME) X(take_if_yes, A_HOLD | A_EMPTY | B_SAME) X(take_if_no, A_SAME | B_SAME) \
    X(swap_member, A_EMPTY | A_HOLD | B_HOLD | ALIAS) X(swap_free, A_EMPTY | A_HOLD | B_HOLD | ALIAS) X(swap_std, 0) \
    X(map, A_SAME | B_SAME) X(map_to_ref, A_SAME | B_SAME) X(map_const, A_SAME | B_SAME) X(map_rvalue, A_HOLD | A_EMPTY | B_SAME) X(and_then, A_SAME | B_SAME) X(and_then_rvalue, A_HOLD | A_EMPTY | B_SAME) \
    X(or_else, A_SAME | B_SAME) X(or_else_rvalue, A_HOLD | A_EMPTY | B_SAME) X(filter_yes, A_SAME | B_SAME) X(filter_no, A_SAME | B_SAME) X(filter_rvalue, A_HOLD | A_EMPTY | B_SAME) \
    X(inspect, A_SAME | B_SAME) X(has_value_and, A_SAME | B_SAME) X(map_or, A_SAME | B_SAME) X(map_or_else, A_SAME | B_SAME) X(map_or_rvalue, A_HOLD | A_EMPTY | B_SAME) \
    X(value_or, A_SAME | B_SAME) X(value_or_rvalue, A_HOLD | A_EMPTY | B_SAME) X(value_or_construct, A_SAME | B_SAME) X(value_or_construct_rvalue, A_HOLD | A_EMPTY | B_SAME) X(value_or_throw, A_SAME | B_SAME) \
    X(or_ll, A_SAME | B_SAME | ALIAS) X(or_rl, A_HOLD | A_EMPTY | B_SAME) X(or_lr, A_SAME | B_HOLD) X(or_rr, A_HOLD | A_EMPTY | B_HOLD) \
    X(or_value, A_SAME | B_SAME) X(or_assign_l, A_EMPTY | A_HOLD | B_SAME) X(or_assign_r, A_EMPTY | A_HOLD | B_HOLD) X(or_assign_value, A_EMPTY | A_HOLD | B_SAME) \
    X(and_ll, A_SAME | B_SAME | ALIAS) X(and_lr, A_SAME | B_HOLD) X(xor_ll, A_SAME | B_SAME | ALIAS) X(xor_rl, A_HOLD | A_EMPTY | B_SAME) X(xor_lr, A_SAME | B_HOLD) X(xor_rr, A_HOLD | A_EMPTY | B_HOLD) \
    X(zip_ll, A_SAME | B_SAME | ALIAS) X(zip_rr, A_HOLD | A_EMPTY | B_HOLD) X(zip_with, A_SAME | B_SAME | ALIAS) X(zip_with_rvalue, A_HOLD | A_EMPTY | B_HOLD) X(zip_with_void, A_SAME | B_SAME) \
    X(unzip_l, A_SAME | B_SAME) X(unzip_r, A_HOLD | A_EMPTY | B_SAME) X(flatten_l, A_SAME | B_SAME) X(flatten_r, A_HOLD | A_EMPTY | B_SAME) \
    X(cast_l, A_SAME | B_SAME) X(cast_r, A_SAME | B_SAME) X(make_value, A_SAME | B_SAME) X(make_args, A_SAME | B_SAME) \
    X(compare, A_SAME | B_SAME | ALIAS) X(compare_value, A_SAME | B_SAME) X(iterate, A_SAME | B_SAME) X(vector_grow, A_SAME | B_SAME) X(nest_wrap, A_SAME | B_SAME) X(nest_emplace_throw, A_SAME | B_SAME) \
    X(emplace_nothing, A_EMPTY | B_SAME) X(try_emplace_nothing, A_EMPTY | A_HOLD | B_SAME) X(in_place_nothing, A_SAME | B_SAME) X(make_nothing, A_SAME | B_SAME) X(value_or_construct_nothing, A_SAME | B_SAME)
#define OPS_ENUM(N, F) op_##N,
enum Id { OPS_LIST(OPS_ENUM) op_count };
#define OPS_ENT(N, F) {#N, F},
inline const Op table[] = {OPS_LIST(OPS_ENT)};

// What the operation is expected to leave behind on success (-2: not checked here)
struct Expect { bool known = false; bool a = false, b = false; };

template<class T>
struct Runner {
    using O = opt::option<T>;
    using U = std::remove_const_t<T>;
    using A = V<T>;
    static constexpr bool cc = std::is_copy_constructible_v<T>, mc = std::is_move_constructible_v<T>;
    static constexpr bool ca = std::is_copy_assignable_v<T>, ma = std::is_move_assignable_v<T>;
    static constexpr bool dc = std::is_default_constructible_v<T>;
    static constexpr bool direct = A::direct, conv = A::conv;
    static constexpr bool cmp = std::is_base_of_v<Core, U>;

    template<class X> static void local(const X& x, const char* when) { audit(x, when, "(local)"); }
    // returns false when the operation does not exist for the type
    static bool run(int op, O& a, O& b, int id) {
        const char* nm = table[op].name; (void)nm;
        const O& ca_ = a; (void)ca_; const O& cb_ = b; (void)cb_;
        switch (op) {
        case op_copy_construct: if constexpr (cc) { O x(ca_); local(x, nm); return true; } return false;
        case op_move_construct: if constexpr (mc) { O x(std::move(a)); local(x, nm); return true; } return false;
        case op_from_lvalue: if constexpr (cc) { const U v(A::make(id)); O x(v); local(x, nm); return true; } return false;
        case op_from_rvalue: if constexpr (mc) { O x(A::make(id)); local(x, nm); return true; } return false;
        case op_in_place: if constexpr (direct) { O x(std::in_place, id); local(x, nm); return true; } else if constexpr (mc) { O x(std::in_place, A::make(id)); local(x, nm); return true; } return false;
        case op_conv_construct_copy: if constexpr (conv) { opt::option<Src> s(std::in_place, id); const opt::option<Src>& cs = s; O x(cs); local(x, nm); local(s, nm); opt::option<Src> e; const opt::option<Src>& ce = e; O y(ce); local(y, nm); return true; } return false;
        case op_conv_construct_move: if constexpr (conv) { opt::option<Src> s(std::in_place, id); O x(std::move(s)); local(x, nm); local(s, nm); O y{opt::option<Src>()}; local(y, nm); return true; } return false;
        case op_assign_none: a = opt::none; return true;
        case op_assign_lvalue: if constexpr (cc && ca) { const U v(A::make(id)); a = v; return true; } return false;
        case op_assign_rvalue: if constexpr (mc && ma) { a = A::make(id); return true; } return false;
        case op_assign_copy: if constexpr (cc && ca) { a = cb_; return true; } return false;
        case op_assign_move: if constexpr (mc && ma) { a = std::move(b); return true; } return false;
        case op_assign_temporary: if constexpr (mc && ma) { a = O(A::make(id)); return true; } return false;
        case op_assign_src_lvalue: if constexpr (conv) { const Src s(id); a = s; return true; } return false;
        case op_assign_src_rvalue: if constexpr (conv) { a = Src(id); return true; } return false;
        case op_assign_optsrc_copy: if constexpr (conv) { opt::option<Src> s(std::in_place, id); const opt::option<Src>& cs = s; a = cs; local(s, nm); return true; } return false;
        case op_assign_optsrc_move: if constexpr (conv) { opt::option<Src> s(std::in_place, id); a = std::move(s); local(s, nm); return true; } return false;
        case op_assign_optsrc_none: if constexpr (conv) { opt::option<Src> s; a = std::move(s); return true; } return false;
        case op_reset: a.reset(); return true;
        case op_emplace: if constexpr (mc || direct) { A::emplace(a, id); return true; } return false;
        case op_emplace_copy_of_b: if constexpr (cc) { if (&a != &b && b.has_value()) a.emplace(*cb_); return true; } return false;
        case op_try_emplace: if constexpr (mc || direct) { A::try_emplace(a, id); return true; } return false;
        case op_take: if constexpr (mc) { O x = a.take(); local(x, nm); return true; } return false;
        case op_take_if_yes: if constexpr (mc) { O x = a.take_if([](const T& v) { V<U>::id(v); point("predicate"); return true; }); local(x, nm); return true; } return false;
        case op_take_if_no: if constexpr (mc) { O x = a.take_if([](T&) { point("predicate"); return false; }); local(x, nm); return true; } return false;
        case op_swap_member: if constexpr (mc && ma) { a.swap(b); return true; } return false;
        case op_swap_free: if constexpr (mc && ma) { opt::swap(a, b); return true; } return false;
        case op_swap_std: if constexpr (mc && ma) { std::swap(a, b); return true; } return false;
        case op_map: { auto x = a.map([](T& v) { A::id(v); point("callback"); return TA(5); }); local(x, nm); return true; }
        case op_map_to_ref: { auto x = a.map([](T& v) -> T& { point("callback"); return v; }); ++mon::st().evaluations; if (x.has_value() != a.has_value() || (a.has_value() && &*x != a.ptr_or_null())) mon::violation(key("map-ref"), "map to a reference designates something else"); return true; }
        case op_map_const: { auto x = ca_.map([](const T& v) { A::id(v); point("callback"); return TAs(6); }); local(x, nm); return true; }
        case op_map_rvalue: if constexpr (mc && !std::is_const_v<T>) { auto x = std::move(a).map([](T&& v) { point("callback"); T w(std::move(v)); return w; }); local(x, nm); return true; } return false;
        case op_and_then: { auto x = ca_.and_then([](const T& v) { A::id(v); point("callback"); return opt::option<TAs>(std::in_place, 4); }); local(x, nm); return true; }
        case op_and_then_rvalue: if constexpr (mc && !std::is_const_v<T>) { auto x = std::move(a).and_then([](T&& v) { point("callback"); return O(std::move(v)); }); local(x, nm); return true; } return false;
        case op_or_else: if constexpr (cc) { auto x = ca_.or_else([&] { point("callback"); return O(std::in_place, A::make(id)); }); local(x, nm); return true; } return false;
        case op_or_else_rvalue: if constexpr (mc) { auto x = std::move(a).or_else([&] { point("callback"); return O(std::in_place, A::make(id)); }); local(x, nm); return true; } return false;
        case op_filter_yes: if constexpr (cc) { O x = ca_.filter([](const T& v) { A::id(v); point("predicate"); return true; }); local(x, nm); return true; } return false;
        case op_filter_no: if constexpr (cc) { O x = ca_.filter([](const T&) { point("predicate"); return false; }); local(x, nm); return true; } return false;
        case op_filter_rvalue: if constexpr (mc) { O x = std::move(a).filter([](const T&) { point("predicate"); return true; }); local(x, nm); return true; } return false;
        case op_inspect: { a.inspect([](T& v) { A::id(v); point("callback"); }); ca_.inspect([](const T&) { point("callback"); }); return true; }
        case op_has_value_and: { const bool r = a.has_value_and([](T& v) { A::id(v); point("predicate"); return true; }); ++mon::st().evaluations; if (r != a.has_value()) mon::violation(key("has_value_and"), "wrong result"); return true; }
        case op_map_or: { TA d(1); auto x = ca_.map_or(d, [](const T&) { point("callback"); return TA(2); }); (void)x; return true; }
        case op_map_or_else: { auto x = a.map_or_else([] { point("default"); return TA(1); }, [](T&) { point("callback"); return TA(2); }); (void)x; return true; }
        case op_map_or_rvalue: if constexpr (mc && !std::is_const_v<T>) { auto x = std::move(a).map_or(TA(1), [](T&& v) { T w(std::move(v)); point("callback"); return TA(2); }); (void)x; return true; } return false;
        case op_value_or: if constexpr (cc) { U d(A::make(id)); U x = ca_.value_or(d); (void)x; return true; } return false;
        case op_value_or_rvalue: if constexpr (mc) { U x = std::move(a).value_or(A::make(id)); (void)x; return true; } return false;
        case op_value_or_construct: if constexpr (cc && direct) { U x = ca_.value_or_construct(id); (void)x; return true; } return false;
        case op_value_or_construct_rvalue: if constexpr (mc && direct) { U x = std::move(a).value_or_construct(id); (void)x; return true; } return false;
        case op_value_or_throw: { const bool h = a.has_value(); bool threw = false; try { auto& v = a.value_or_throw(); A::id(v); (void)v; } catch (const opt::bad_access&) { threw = true; } ++mon::st().evaluations; if (threw == h) mon::violation(key("value_or_throw"), "threw=%d with has_value=%d", threw, h); return true; }
        case op_or_ll: if constexpr (cc) { O x = ca_ | cb_; local(x, nm); return true; } return false;
        case op_or_rl: if constexpr (cc && mc) { O x = std::move(a) | cb_; local(x, nm); return true; } return false;
        case op_or_lr: if constexpr (cc && mc) { O x = ca_ | std::move(b); local(x, nm); return true; } return false;
        case op_or_rr: if constexpr (mc) { O x = std::move(a) | std::move(b); local(x, nm); return true; } return false;
        case op_or_value: if constexpr (cc && !opt::is_option_v<U>) { U d(A::make(id)); U x = ca_ | d; (void)x; return true; } return false;
        case op_or_assign_l: if constexpr (cc && ca) { a |= cb_; return true; } return false;
        case op_or_assign_r: if constexpr (mc && ma) { a |= std::move(b); return true; } return false;
        case op_or_assign_value: if constexpr (mc && ma && !opt::is_option_v<U>) { a |= A::make(id); return true; } return false;
        case op_and_ll: if constexpr (cc) { O x = ca_ & cb_; local(x, nm); return true; } return false;
        case op_and_lr: if constexpr (mc) { O x = ca_ & std::move(b); local(x, nm); return true; } return false;
        case op_xor_ll: if constexpr (cc) { O x = ca_ ^ cb_; local(x, nm); return true; } return false;
        case op_xor_rl: if constexpr (cc && mc) { O x = std::move(a) ^ cb_; local(x, nm); return true; } return false;
        case op_xor_lr: if constexpr (cc && mc) { O x = ca_ ^ std::move(b); local(x, nm); return true; } return false;
        case op_xor_rr: if constexpr (mc) { O x = std::move(a) ^ std::move(b); local(x, nm); return true; } return false;
        case op_zip_ll: if constexpr (cc && !std::is_const_v<T>) { auto x = opt::zip(ca_, cb_); local(x, nm); return true; } return false;
        case op_zip_rr: if constexpr (mc && !std::is_const_v<T>) { auto x = opt::zip(std::move(a), std::move(b)); local(x, nm); return true; } return false;
        case op_zip_with: { auto x = opt::zip_with([](const T& p, const T& q) { A::id(p); A::id(q); point("callback"); return 3; }, ca_, cb_); (void)x; return true; }
        case op_zip_with_rvalue: if constexpr (mc && !std::is_const_v<T>) { auto x = opt::zip_with([](T&& p, T&& q) { T r(std::move(p)); point("callback"); T s(std::move(q)); return s; }, std::move(a), std::move(b)); local(x, nm); return true; } return false;
        case op_zip_with_void: { opt::zip_with([](T& p, const T& q) { A::id(p); A::id(q); point("callback"); }, a, cb_); return true; }
        case op_unzip_l: if constexpr (cc && !std::is_const_v<T>) { opt::option<std::pair<T, TA>> p; if (a.has_value()) p.emplace(*ca_, TA(3)); const auto& cp = p; auto x = opt::unzip(cp); local(x.first, nm); local(x.second, nm); local(p, nm); return true; } return false;
        case op_unzip_r: if constexpr (mc && !std::is_const_v<T>) { opt::option<std::pair<T, TA>> p; if (a.has_value()) p.emplace(std::move(*a), TA(3)); auto x = opt::unzip(std::move(p)); local(x.first, nm); local(x.second, nm); local(p, nm); return true; } return false;
        case op_flatten_l: if constexpr (cc && !std::is_const_v<T>) { opt::option<O> n(std::in_place, ca_); auto x = opt::flatten(n); ++mon::st().evaluations; if constexpr (!opt::is_option_v<T>) if (x.has_value() != a.has_value()) mon::violation(key("flatten"), "lost or invented a value"); local(n, nm); return true; } return false;
        case op_flatten_r: if constexpr (mc && !std::is_const_v<T>) { opt::option<O> n(std::in_place, std::move(a)); auto x = opt::flatten(std::move(n)); local(x, nm); local(n, nm); return true; } return false;
        case op_cast_l: if constexpr (conv) { opt::option<Src> s; if (a.has_value()) s.emplace(id); const auto& cs = s; if constexpr (mc) { auto x = opt::option_cast<U>(cs); local(x, nm); } local(s, nm); return true; } return false;
        case op_cast_r: if constexpr (conv) { opt::option<Src> s; if (a.has_value()) s.emplace(id); if constexpr (mc) { auto x = opt::option_cast<U>(std::move(s)); local(x, nm); } local(s, nm); return true; } return false;
        case op_make_value: if constexpr (mc) { auto x = opt::make_option(A::make(id)); local(x, nm); return true; } return false;
        case op_make_args: if constexpr (direct) { auto x = opt::make_option<T>(id); local(x, nm); return true; } return false;
        case op_compare: if constexpr (cmp) { const bool r = (ca_ == cb_) + (ca_ != cb_) == 1; ++mon::st().evaluations; if (!r) mon::violation(key("compare"), "== and != agree"); (void)(ca_ < cb_); (void)(ca_ <= cb_); (void)(ca_ > cb_); (void)(ca_ >= cb_); return true; } return false;
        case op_compare_value: if constexpr (cmp) { U d(id); (void)(ca_ == d); (void)(d != ca_); (void)(ca_ < d); (void)(d <= ca_); (void)(ca_ > d); (void)(d >= ca_); return true; } return false;
        case op_iterate: { int n = 0; for (auto& v : a) { A::id(v); point("loop body"); ++n; } for (auto& v : ca_) { A::id(v); point("loop body"); ++n; } ++mon::st().evaluations; if (n != 2 * a.has_value()) mon::violation(key("iterate"), "visited %d elements", n); return true; }
        case op_vector_grow: if constexpr (cc) { std::vector<O> v; for (int i = 0; i < 5; ++i) { v.push_back(ca_); v.push_back(cb_); } for (auto& x : v) local(x, nm); return true; } return false;
        case op_nest_wrap: if constexpr (cc && !std::is_const_v<T>) { opt::option<O> n(std::in_place, ca_); local(n, nm); if constexpr (ca) { n = opt::option<O>(std::in_place, cb_); local(n, nm); *n = ca_; local(n, nm); n->reset(); local(n, nm); n.reset(); local(n, nm); n = opt::option<O>(cb_); local(n, nm); } return true; } return false;
        case op_nest_emplace_throw: if constexpr (direct && !std::is_const_v<T>) {
                opt::option<O> n; n.emplace(); local(n, nm);
                try { n->emplace(id); } catch (const Boom&) { ++mon::st().evaluations; if (!n.has_value() || n->has_value()) mon::violation(key("nested-emplace"), "a throw in the inner emplace left outer=%d inner=%d", n.has_value(), n.has_value() && n->has_value()); audit(n, "throw in nested emplace", "(nested)"); throw; }
                local(n, nm); return true;
            } return false;
        case op_emplace_nothing: if constexpr (dc) { const auto c0 = R().constructed; auto& r = a.emplace(); fresh(a, nm); ++mon::st().evaluations; if (std::addressof(r) != a.ptr_or_null()) mon::violation(key("emplace-result"), "emplace() returned something else than the contained object"); if (direct && cmp && R().constructed != c0 + 1) mon::violation(key("emplace-result"), "emplace() constructed %d objects", int(R().constructed - c0)); return true; } return false;
        case op_try_emplace_nothing: if constexpr (dc) { const bool h = a.has_value(); const int i = h ? A::id(*a) : 0; auto& r = a.try_emplace(); if (!h) fresh(a, nm); ++mon::st().evaluations; if (!a.has_value() || std::addressof(r) != a.ptr_or_null() || A::id(*a) != i) mon::violation(key("emplace-result"), "try_emplace() replaced the value or returned something else"); return true; } return false;
        case op_in_place_nothing: if constexpr (dc) { O x(std::in_place); local(x, nm); fresh(x, nm); return true; } return false;
        case op_make_nothing: if constexpr (dc) { auto x = opt::make_option<T>(); local(x, nm); fresh(x, nm); return true; } return false;
        case op_value_or_construct_nothing: if constexpr (dc && cc) { const U v = ca_.value_or_construct(); ++mon::st().evaluations; if (A::id(v) != (a.has_value() ? A::id(*a) : 0)) mon::violation(key("emplace-result"), "value_or_construct() gave something else"); return true; } return false;
        default: return false;
        }
    }
    // holds a value constructed from nothing
    static void fresh(const O& x, const char* when) { ++mon::st().evaluations; if (!x.has_value() || A::id(*x) != 0) mon::violation(key("emplace-result"), "%s did not leave a value constructed from nothing", when); }
};
} // namespace ops
