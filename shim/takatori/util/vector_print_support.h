#pragma once
#include <takatori/util/print_support.h>
namespace takatori::util {
template<class T, class A> struct print_support<std::vector<T, A>> {
    explicit constexpr print_support(std::vector<T, A> const& v) noexcept : value { v } {}
    std::vector<T, A> const& value;
    friend std::ostream& operator<<(std::ostream& out, print_support const& v) { out << "["; bool c = false; for (auto&& e : v.value) { if (c) { out << ", "; } c = true; out << e; } return out << "]"; }
};
} // namespace takatori::util
