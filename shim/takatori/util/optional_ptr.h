#pragma once
#include <cstddef>
#include <functional>
#include <memory>
#include <optional>
#include <ostream>
#include <stdexcept>
#include <type_traits>
#include <utility>
namespace takatori::util {
template<class T>
class optional_ptr {
public:
    using value_type = T;
    using element_type = T;
    using pointer = T*;
    using reference = T&;
    constexpr optional_ptr() noexcept = default;
    constexpr optional_ptr(std::nullptr_t) noexcept {}
    constexpr optional_ptr(std::nullopt_t) noexcept {}
    explicit constexpr optional_ptr(pointer p) noexcept : p_ { p } {}
    constexpr optional_ptr(reference v) noexcept : p_ { std::addressof(v) } {}
    template<class U, class = std::enable_if_t<std::is_convertible_v<U*, T*> && !std::is_same_v<U, T>>>
    constexpr optional_ptr(optional_ptr<U> const& o) noexcept : p_ { o.get() } {}
    constexpr optional_ptr& operator=(std::nullptr_t) noexcept { p_ = nullptr; return *this; }
    [[nodiscard]] constexpr pointer get() const noexcept { return p_; }
    [[nodiscard]] constexpr bool has_value() const noexcept { return p_ != nullptr; }
    [[nodiscard]] explicit constexpr operator bool() const noexcept { return has_value(); }
    [[nodiscard]] constexpr reference operator*() const { if (!p_) { throw std::logic_error("dereferencing empty optional_ptr"); } return *p_; }
    [[nodiscard]] constexpr pointer operator->() const { if (!p_) { throw std::logic_error("dereferencing empty optional_ptr"); } return p_; }
    [[nodiscard]] constexpr reference value() const { if (!p_) { throw std::logic_error("empty optional_ptr"); } return *p_; }
    constexpr void reset() noexcept { p_ = nullptr; }
    constexpr void reset(pointer p) noexcept { p_ = p; }
    constexpr void reset(reference v) noexcept { p_ = std::addressof(v); }
    template<class U, class... A> [[nodiscard]] T& value_or(U& alt) const noexcept { return p_ ? *p_ : alt; }
private:
    pointer p_ {};
};
template<class T> optional_ptr(T*) -> optional_ptr<T>;
template<class T> optional_ptr(T&) -> optional_ptr<T>;
template<class T, class U> constexpr bool operator==(optional_ptr<T> a, optional_ptr<U> b) noexcept { return a.get() == b.get(); }
template<class T, class U> constexpr bool operator!=(optional_ptr<T> a, optional_ptr<U> b) noexcept { return a.get() != b.get(); }
template<class T> constexpr bool operator==(optional_ptr<T> a, std::nullptr_t) noexcept { return !a; }
template<class T> constexpr bool operator!=(optional_ptr<T> a, std::nullptr_t) noexcept { return static_cast<bool>(a); }
template<class T> struct is_optional_ptr_ : std::false_type {};
template<class T> struct is_optional_ptr_<optional_ptr<T>> : std::true_type {};
template<class T, class U, class = std::enable_if_t<!is_optional_ptr_<U>::value && !std::is_same_v<U, std::nullptr_t>>> constexpr bool operator==(optional_ptr<T> a, U const& b) { return a && *a == b; }
template<class T, class U, class = std::enable_if_t<!is_optional_ptr_<U>::value && !std::is_same_v<U, std::nullptr_t>>> constexpr bool operator!=(optional_ptr<T> a, U const& b) { return !(a == b); }
template<class T> std::ostream& operator<<(std::ostream& out, optional_ptr<T> v) { if (v) { return out << *v; } return out << "(empty)"; }
} // namespace takatori::util
template<class T> struct std::hash<takatori::util::optional_ptr<T>> {
    std::size_t operator()(takatori::util::optional_ptr<T> const& o) const noexcept { return std::hash<T*> {}(o.get()); }
};
