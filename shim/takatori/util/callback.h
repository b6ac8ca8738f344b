#pragma once
#include <type_traits>
#include <utility>
#include "downcast.h"
namespace takatori::util {
template<class T, class Callback, class E, class... Args>
inline auto polymorphic_callback(Callback&& callback, E&& object, Args&&... args) {
    using raw = std::remove_reference_t<E>;
    using target = std::conditional_t<std::is_const_v<raw>, T const, T>;
    if constexpr (std::is_lvalue_reference_v<E>) {
        return std::forward<Callback>(callback)(static_cast<target&>(unsafe_downcast<target>(object)), std::forward<Args>(args)...);
    } else {
        return std::forward<Callback>(callback)(std::move(unsafe_downcast<target>(object)), std::forward<Args>(args)...);
    }
}
} // namespace takatori::util
