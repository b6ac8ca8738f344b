#pragma once
#include <takatori/util/prelude_.h>
#include <type_traits>
namespace takatori::util {
template<class T> struct meta_type { using type = T; };
template<class T> inline constexpr meta_type<T> meta_type_v {};
template<class T, class U> inline constexpr bool operator==(meta_type<T>, meta_type<U>) noexcept { return std::is_same_v<T, U>; }
template<class T, class U> inline constexpr bool operator!=(meta_type<T>, meta_type<U>) noexcept { return !std::is_same_v<T, U>; }
} // namespace takatori::util
