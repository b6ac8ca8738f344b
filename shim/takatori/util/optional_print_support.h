#pragma once
#include <takatori/util/print_support.h>
namespace takatori::util {
template<class T> struct print_support<std::optional<T>> {
    explicit constexpr print_support(std::optional<T> const& v) noexcept : value { v } {}
    std::optional<T> const& value;
    friend std::ostream& operator<<(std::ostream& out, print_support const& v) { if (v.value) { return out << *v.value; } return out << "(empty)"; }
};
} // namespace takatori::util
