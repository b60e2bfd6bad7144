// Element types that count how they are copied and moved, and remember where their value came from.
#pragma once
#include <algorithm>
#include <array>
#include <map>
#include <sstream>
#include <string>
#include <tuple>
#include <utility>
#include <variant>
#include <vector>
#include <opt/option.hpp>
#include "mon.hpp"

namespace cnt {
struct Log { int vc = 0, cc = 0, mc = 0, ca = 0, ma = 0, conv_copy = 0, conv_move = 0, dtor = 0, cmp = 0; };
inline Log& L() { static Log l; return l; }
inline int& births() { static int b = 0; return b; }

// Another type convertible to the counted ones
struct Src {
    int id; bool moved = false;
    explicit Src(int i) : id(i) { ++L().vc; }
    Src(const Src& o) : id(o.id), moved(o.moved) { ++L().cc; }
    Src(Src&& o) : id(o.id), moved(o.moved) { ++L().mc; o.moved = true; }
    Src& operator=(const Src& o) { id = o.id; moved = o.moved; ++L().ca; return *this; }
    Src& operator=(Src&& o) { id = o.id; moved = o.moved; o.moved = true; ++L().ma; return *this; }
};
template<bool COPY> struct Base;
template<> struct Base<true> {
    int id; bool moved = false; int birth; int copies = 0; int tag = 0;
    explicit Base(int i) : id(i), birth(++births()) { ++L().vc; }
    Base(const Base& o) : id(o.id), moved(o.moved), birth(++births()), copies(o.copies + 1) { ++L().cc; }
    Base(Base&& o) noexcept : id(o.id), moved(o.moved), birth(++births()), copies(o.copies) { ++L().mc; o.moved = true; }
    Base& operator=(const Base& o) { id = o.id; moved = o.moved; copies = o.copies + 1; ++L().ca; return *this; }
    Base& operator=(Base&& o) noexcept { id = o.id; moved = o.moved; copies = o.copies; ++L().ma; if (this != &o) o.moved = true; return *this; }
    Base(const Src& s) : id(s.id), moved(s.moved), birth(++births()), copies(1) { ++L().conv_copy; }
    Base(Src&& s) : id(s.id), moved(s.moved), birth(++births()) { ++L().conv_move; s.moved = true; }
    Base& operator=(const Src& s) { id = s.id; moved = s.moved; copies = 1; ++L().conv_copy; return *this; }
    Base& operator=(Src&& s) { id = s.id; moved = s.moved; copies = 0; ++L().conv_move; s.moved = true; return *this; }
    ~Base() { ++L().dtor; }
};
template<> struct Base<false> {
    int id; bool moved = false; int birth; int copies = 0; int tag = 0;
    explicit Base(int i) : id(i), birth(++births()) { ++L().vc; }
    Base(const Base&) = delete;
    Base(Base&& o) noexcept : id(o.id), moved(o.moved), birth(++births()) { ++L().mc; o.moved = true; }
    Base& operator=(const Base&) = delete;
    Base& operator=(Base&& o) noexcept { id = o.id; moved = o.moved; ++L().ma; if (this != &o) o.moved = true; return *this; }
    Base(const Src& s) : id(s.id), moved(s.moved), birth(++births()), copies(1) { ++L().conv_copy; }
    Base(Src&& s) : id(s.id), moved(s.moved), birth(++births()) { ++L().conv_move; s.moved = true; }
    Base& operator=(const Src& s) { id = s.id; moved = s.moved; copies = 1; ++L().conv_copy; return *this; }
    Base& operator=(Src&& s) { id = s.id; moved = s.moved; copies = 0; ++L().conv_move; s.moved = true; return *this; }
    ~Base() { ++L().dtor; }
};
template<bool A, bool B> bool operator==(const Base<A>& a, const Base<B>& b) { ++L().cmp; return a.id == b.id; }
template<bool A, bool B> bool operator!=(const Base<A>& a, const Base<B>& b) { ++L().cmp; return a.id != b.id; }
template<bool A, bool B> bool operator<(const Base<A>& a, const Base<B>& b) { ++L().cmp; return a.id < b.id; }
template<bool A, bool B> bool operator<=(const Base<A>& a, const Base<B>& b) { ++L().cmp; return a.id <= b.id; }
template<bool A, bool B> bool operator>(const Base<A>& a, const Base<B>& b) { ++L().cmp; return a.id > b.id; }
template<bool A, bool B> bool operator>=(const Base<A>& a, const Base<B>& b) { ++L().cmp; return a.id >= b.id; }
struct spare_key {};
struct C : Base<true> { using Base::Base; using Base::operator=; C(const C&) = default; C(C&&) = default; C& operator=(const C&) = default; C& operator=(C&&) = default; static constexpr const char* name = "copyable"; };
struct M : Base<false> { using Base::Base; using Base::operator=; M(M&&) = default; M& operator=(M&&) = default; static constexpr const char* name = "move-only"; };
struct Cs : Base<true> { using Base::Base; using Base::operator=; using spare = spare_key; Cs(const Cs&) = default; Cs(Cs&&) = default; Cs& operator=(const Cs&) = default; Cs& operator=(Cs&&) = default; static constexpr const char* name = "copyable with spare"; };
struct Ms : Base<false> { using Base::Base; using Base::operator=; using spare = spare_key; Ms(Ms&&) = default; Ms& operator=(Ms&&) = default; static constexpr const char* name = "move-only with spare"; };
struct Imm { int id; explicit Imm(int i) : id(i) {} Imm(const Imm&) = delete; Imm& operator=(const Imm&) = delete; };
struct AggC { C m; int x; };
struct AggM { int x; bool y; M m; };
} // namespace cnt
template<class T> struct opt::option_traits<T, std::enable_if_t<std::is_same_v<typename T::spare, cnt::spare_key>>> {
    static constexpr std::uintmax_t max_level = 4;
    static std::uintmax_t get_level(const T* p) noexcept { int t; std::memcpy(&t, &p->tag, sizeof t); return t <= -50 && t > -54 ? std::uintmax_t(-50 - t) : std::uintmax_t(-1); }
    static void set_level(T* p, std::uintmax_t level) noexcept { const int t = -50 - int(level); std::memcpy(&p->tag, &t, sizeof t); }
};
namespace cnt {
// uniform access: core(x) is the counted object of x
template<class T> struct V {
    static T make(int id) { return T(id); }
    static const T& core(const T& x) { return x; }
    static constexpr bool direct = true, conv = true, copy = std::is_copy_constructible_v<T>;
    static std::string name() { return T::name; }
};
template<class A> struct V<std::pair<A, bool>> {
    using T = std::pair<A, bool>;
    static T make(int id) { return T(V<A>::make(id), true); }
    static const auto& core(const T& x) { return V<A>::core(x.first); }
    static constexpr bool direct = false, conv = false, copy = V<A>::copy;
    static std::string name() { return "pair<" + V<A>::name() + ", bool>"; }
};
template<class A> struct V<std::tuple<int, A>> {
    using T = std::tuple<int, A>;
    static T make(int id) { return T(id, V<A>::make(id)); }
    static const auto& core(const T& x) { return V<A>::core(std::get<1>(x)); }
    static constexpr bool direct = false, conv = false, copy = V<A>::copy;
    static std::string name() { return "tuple<int, " + V<A>::name() + ">"; }
};
template<class A> struct V<std::array<A, 1>> {
    using T = std::array<A, 1>;
    static T make(int id) { return T{{V<A>::make(id)}}; }
    static const auto& core(const T& x) { return V<A>::core(x[0]); }
    static constexpr bool direct = false, conv = false, copy = V<A>::copy;
    static std::string name() { return "array<" + V<A>::name() + ", 1>"; }
};
template<class A> struct V<opt::option<A>> {
    using T = opt::option<A>;
    static T make(int id) { return T(std::in_place, V<A>::make(id)); }
    static const auto& core(const T& x) { return V<A>::core(*x); }
    static constexpr bool direct = false, conv = false, copy = V<A>::copy;
    static std::string name() { return "option<" + V<A>::name() + ">"; }
};
template<> struct V<AggC> {
    static AggC make(int id) { return AggC{C(id), id}; }
    static const auto& core(const AggC& x) { return x.m; }
    static constexpr bool direct = false, conv = false, copy = true;
    static std::string name() { return "aggregate{copyable, int}"; }
};
template<> struct V<AggM> {
    static AggM make(int id) { return AggM{id, true, M(id)}; }
    static const auto& core(const AggM& x) { return x.m; }
    static constexpr bool direct = false, conv = false, copy = false;
    static std::string name() { return "aggregate{int, bool, move-only}"; }
};
} // namespace cnt
