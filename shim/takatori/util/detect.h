#pragma once
#include <takatori/util/prelude_.h>
#include <type_traits>
namespace takatori::util {
struct not_detected {
    not_detected() = delete; ~not_detected() = delete;
    not_detected(not_detected const&) = delete; not_detected& operator=(not_detected const&) = delete;
};
namespace impl {
template<class, class Default, template<class...> class Op, class... Args>
struct detector { using value_t = std::false_type; using type = Default; };
template<class Default, template<class...> class Op, class... Args>
struct detector<std::void_t<Op<Args...>>, Default, Op, Args...> { using value_t = std::true_type; using type = Op<Args...>; };
}
template<template<class...> class Op, class... Args>
using is_detected = typename impl::detector<void, not_detected, Op, Args...>::value_t;
template<template<class...> class Op, class... Args>
inline constexpr bool is_detected_v = is_detected<Op, Args...>::value;
template<template<class...> class Op, class... Args>
using detect_t = typename impl::detector<void, not_detected, Op, Args...>::type;
template<template<class...> class Op, class... Args>
using detected_t = detect_t<Op, Args...>;
template<class Default, template<class...> class Op, class... Args>
using detected_or_t = typename impl::detector<void, Default, Op, Args...>::type;
} // namespace takatori::util
