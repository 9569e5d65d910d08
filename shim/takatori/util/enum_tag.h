// Stand-in for the takatori library (absent here): the same interface as far as the sources of /repo under check use it.
#pragma once
#include <utility>
namespace takatori::util {
template <auto K> struct enum_tag_t { explicit constexpr enum_tag_t() = default; static constexpr auto value = K; };
template <auto K> inline constexpr enum_tag_t<K> enum_tag{};
template <auto K, class C, class... A> constexpr decltype(auto) enum_tag_callback(C&& c, A&&... a) { return std::forward<C>(c)(enum_tag<K>, std::forward<A>(a)...); }
}
