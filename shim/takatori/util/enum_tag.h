#pragma once
#include <takatori/util/prelude_.h>
namespace takatori::util {
template<auto V> struct enum_tag_t {
    explicit constexpr enum_tag_t() = default;
    using type = decltype(V);
    static constexpr type value = V;
    constexpr operator type() const noexcept { return V; }
    constexpr type operator()() const noexcept { return V; }
};
template<auto V> inline constexpr enum_tag_t<V> enum_tag {};
namespace impl {
template<class C, class E, auto V> struct dummy_ {};
}
} // namespace takatori::util
