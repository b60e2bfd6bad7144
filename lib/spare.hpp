// The documented number of spare levels of a type, derived independently of the library's traits.
#pragma once
#include "types.hpp"
namespace sp {
constexpr std::uint64_t mx() { return 0; }
template<class... A> constexpr std::uint64_t mx(std::uint64_t a, A... r) { const std::uint64_t b = mx(r...); return a > b ? a : b; }
template<class T, class = void> struct Lv { static constexpr std::uint64_t v =
    std::is_const_v<T> || std::is_volatile_v<T> || std::is_reference_v<T> ? 0
    : std::is_pointer_v<T> ? 512 : std::is_member_pointer_v<T> ? 255
    : (std::is_floating_point_v<T> && sizeof(T) <= 8) ? 256
    : std::is_polymorphic_v<T> ? 255 : 0; };
template<> struct Lv<bool> { static constexpr std::uint64_t v = 254; };
template<class T> struct Lv<std::reference_wrapper<T>> { static constexpr std::uint64_t v = 256; };
template<class A, class B> struct Lv<std::pair<A, B>> { static constexpr std::uint64_t v = mx(Lv<A>::v, Lv<B>::v); };
template<class... A> struct Lv<std::tuple<A...>> { static constexpr std::uint64_t v = mx(Lv<A>::v...); };
template<class A, std::size_t K> struct Lv<std::array<A, K>> { static constexpr std::uint64_t v = K == 0 ? 0 : Lv<A>::v; };
template<class C, class TR> struct Lv<std::basic_string_view<C, TR>> { static constexpr std::uint64_t v = 255; };
template<class C, class TR, class A> struct Lv<std::basic_string<C, TR, A>> { static constexpr std::uint64_t v = std::is_empty_v<A> ? 255 : 0; };
template<class E, class A> struct Lv<std::vector<E, A>> { static constexpr std::uint64_t v = std::is_empty_v<A> ? 255 : 0; };
template<class E> struct Lv<std::unique_ptr<E>> { static constexpr std::uint64_t v = 255; };
template<class F> struct Lv<std::complex<F>> { static constexpr std::uint64_t v = Lv<F>::v; };
template<class T> struct Lv<opt::option<T>> { static constexpr std::uint64_t b = Lv<std::remove_cv_t<T>>::v, v = b > 0 ? b - 1 : 254; };
template<class T> struct Lv<opt::option<T&>> { static constexpr std::uint64_t v = 255; };   // at least (the implementation provides one more)
template<class T> struct Lv<opt::option<T&&>> { static constexpr std::uint64_t v = 255; };
// user types of types.hpp
template<> struct Lv<ty::ESent> { static constexpr std::uint64_t v = 1; };
template<> struct Lv<ty::EStart> { static constexpr std::uint64_t v = 255 - 60 + 1; };
template<> struct Lv<ty::EStartEnd> { static constexpr std::uint64_t v = 3; };
template<> struct Lv<ty::EU8> { static constexpr std::uint64_t v = 256 - 16; };
template<> struct Lv<ty::EU16> { static constexpr std::uint64_t v = 1024 - 32; };
template<> struct Lv<ty::Pad> { static constexpr std::uint64_t v = 255; };
template<> struct Lv<ty::PadS> { static constexpr std::uint64_t v = 0xFFFFFFFFu; };
template<> struct Lv<ty::SentV> { static constexpr std::uint64_t v = 1; };
template<> struct Lv<ty::Sent3> { static constexpr std::uint64_t v = 3; };
template<> struct Lv<ty::SentF> { static constexpr std::uint64_t v = 2; };
template<> struct Lv<ty::Memb> { static constexpr std::uint64_t v = 254; };
template<> struct Lv<ty::Enf> { static constexpr std::uint64_t v = 254; };
template<> struct Lv<ty::TupLike> { static constexpr std::uint64_t v = 254; };
#if defined(OPTION_USE_PFR) && OPTION_USE_PFR
template<> struct Lv<ty::Agg> { static constexpr std::uint64_t v = 256; };
template<> struct Lv<ty::AggB> { static constexpr std::uint64_t v = 255; };
#endif
template<class P> struct Lv<P, std::enable_if_t<std::is_base_of_v<ty::prof_key, P>>> { static constexpr std::uint64_t v = P::tr ? 3 : 0; };
} // namespace sp
