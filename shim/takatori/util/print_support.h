#pragma once
#include <takatori/util/prelude_.h>
namespace takatori::util {
template<class T> struct print_support {
    explicit constexpr print_support(T const& v) noexcept : value { v } {}
    T const& value;
    friend std::ostream& operator<<(std::ostream& out, print_support const& v) { return out << v.value; }
};
template<class T> print_support(T const&) -> print_support<T>;
} // namespace takatori::util
