#pragma once
#include <takatori/util/prelude_.h>
#include <cstddef>
#include <functional>
#include <memory>
#include <ostream>
#include <stdexcept>
#include <type_traits>
#include <utility>
namespace takatori::util {
template<class T>
class rvalue_ptr {
public:
    using value_type = T;
    using element_type = T;
    using pointer = T*;
    using reference = T&;
    using rvalue_reference = T&&;
    constexpr rvalue_ptr() noexcept = default;
    constexpr rvalue_ptr(std::nullptr_t) noexcept {}
    explicit constexpr rvalue_ptr(pointer p) noexcept : p_ { p } {}
    constexpr rvalue_ptr(T&& v) noexcept : p_ { std::addressof(v) } {}
    template<class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>>
    constexpr rvalue_ptr(rvalue_ptr<U> const& o) noexcept : p_ { o.get() } {}
    [[nodiscard]] constexpr pointer get() const noexcept { return p_; }
    [[nodiscard]] constexpr bool has_value() const noexcept { return p_ != nullptr; }
    [[nodiscard]] explicit constexpr operator bool() const noexcept { return has_value(); }
    [[nodiscard]] constexpr T&& operator*() const noexcept { return std::move(*p_); }
    [[nodiscard]] constexpr pointer operator->() const noexcept { return p_; }
    [[nodiscard]] constexpr T&& value() const { if (!p_) { throw std::logic_error("empty rvalue_ptr"); } return std::move(*p_); }
    constexpr void reset() noexcept { p_ = nullptr; }
private:
    pointer p_ {};
};
template<class T, class U> constexpr bool operator==(rvalue_ptr<T> a, rvalue_ptr<U> b) noexcept { return a.get() == b.get(); }
template<class T, class U> constexpr bool operator!=(rvalue_ptr<T> a, rvalue_ptr<U> b) noexcept { return a.get() != b.get(); }
} // namespace takatori::util
