#pragma once
#include <takatori/util/prelude_.h>
namespace takatori::util {
template<class... T>
inline std::size_t hash(T const&... v) {
    std::size_t r = 0;
    ((r = r * 31U + std::hash<std::decay_t<T>> {}(v)), ...);
    return r;
}
} // namespace takatori::util
