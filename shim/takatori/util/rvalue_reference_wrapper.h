#pragma once
#include <memory>
#include <type_traits>
#include <utility>
namespace takatori::util {
template<class T>
class rvalue_reference_wrapper {
public:
    using type = T;
    using value_type = T;
    using pointer = T*;
    using reference = T&&;
    constexpr rvalue_reference_wrapper(T&& v) noexcept : p_ { std::addressof(v) } {}
    template<class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>>
    constexpr rvalue_reference_wrapper(rvalue_reference_wrapper<U> const& o) noexcept : p_ { std::addressof(o.get_lvalue()) } {}
    [[nodiscard]] constexpr T&& get() const noexcept { return std::move(*p_); }
    [[nodiscard]] constexpr T& get_lvalue() const noexcept { return *p_; }
    [[nodiscard]] constexpr T&& operator*() const noexcept { return std::move(*p_); }
    [[nodiscard]] constexpr T* operator->() const noexcept { return p_; }
    [[nodiscard]] constexpr operator T&&() const noexcept { return std::move(*p_); }
private:
    pointer p_;
};
template<class T, class = std::enable_if_t<!std::is_lvalue_reference_v<T>>>
[[nodiscard]] constexpr rvalue_reference_wrapper<T> rvalue(T&& v) noexcept { return rvalue_reference_wrapper<T> { std::move(v) }; }
} // namespace takatori::util
