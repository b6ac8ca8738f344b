#pragma once
#include <cstddef>
#include <functional>
#include <memory>
#include <ostream>
#include <stdexcept>
#include <type_traits>
#include <utility>
namespace takatori::util {
/// a smart pointer that may or may not own (share) the target.
template<class T>
class maybe_shared_ptr {
public:
    using element_type = T;
    using value_type = T;
    using pointer = T*;
    using reference = T&;
    using shared_pointer_type = std::shared_ptr<T>;
    constexpr maybe_shared_ptr() noexcept = default;
    constexpr maybe_shared_ptr(std::nullptr_t) noexcept {}
    constexpr maybe_shared_ptr(pointer p) noexcept : p_ { p } {}
    template<class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>>
    maybe_shared_ptr(std::shared_ptr<U> s) noexcept : s_ { std::move(s) }, p_ { s_.get() } {}
    template<class U, class D, class = std::enable_if_t<std::is_convertible_v<U*, T*>>>
    maybe_shared_ptr(std::unique_ptr<U, D>&& s) : s_ { std::move(s) }, p_ { s_.get() } {}
    template<class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>>
    maybe_shared_ptr(maybe_shared_ptr<U> const& o) noexcept : s_ { o.ownership() }, p_ { o.get() } {}
    [[nodiscard]] constexpr pointer get() const noexcept { return p_; }
    [[nodiscard]] constexpr bool has_value() const noexcept { return p_ != nullptr; }
    [[nodiscard]] explicit constexpr operator bool() const noexcept { return p_ != nullptr; }
    [[nodiscard]] constexpr reference operator*() const noexcept { return *p_; }
    [[nodiscard]] constexpr pointer operator->() const noexcept { return p_; }
    [[nodiscard]] constexpr reference value() const { if (!p_) { throw std::logic_error("empty maybe_shared_ptr"); } return *p_; }
    [[nodiscard]] std::shared_ptr<T> const& ownership() const noexcept { return s_; }
    [[nodiscard]] bool is_shared() const noexcept { return static_cast<bool>(s_); }
    explicit operator std::shared_ptr<T>() const noexcept { return s_ ? s_ : std::shared_ptr<T> { std::shared_ptr<T> {}, p_ }; }
    void reset() noexcept { s_.reset(); p_ = nullptr; }
    void reset(pointer p) noexcept { s_.reset(); p_ = p; }
    void swap(maybe_shared_ptr& o) noexcept { std::swap(s_, o.s_); std::swap(p_, o.p_); }
private:
    std::shared_ptr<T> s_ {};
    pointer p_ {};
};
template<class T> maybe_shared_ptr(T*) -> maybe_shared_ptr<T>;
template<class T> maybe_shared_ptr(std::shared_ptr<T>) -> maybe_shared_ptr<T>;
template<class T, class U> bool operator==(maybe_shared_ptr<T> const& a, maybe_shared_ptr<U> const& b) noexcept { return a.get() == b.get(); }
template<class T, class U> bool operator!=(maybe_shared_ptr<T> const& a, maybe_shared_ptr<U> const& b) noexcept { return a.get() != b.get(); }
template<class T> bool operator==(maybe_shared_ptr<T> const& a, std::nullptr_t) noexcept { return !a; }
template<class T> bool operator!=(maybe_shared_ptr<T> const& a, std::nullptr_t) noexcept { return static_cast<bool>(a); }
template<class T> bool operator==(std::nullptr_t, maybe_shared_ptr<T> const& a) noexcept { return !a; }
template<class T> bool operator!=(std::nullptr_t, maybe_shared_ptr<T> const& a) noexcept { return static_cast<bool>(a); }
template<class T> std::ostream& operator<<(std::ostream& out, maybe_shared_ptr<T> const& v) { if (v) { return out << *v; } return out << "(null)"; }
template<class T> [[nodiscard]] maybe_shared_ptr<T> wrap_maybe_shared(T const& v) { return &v; }
template<class T> [[nodiscard]] maybe_shared_ptr<T> wrap_maybe_shared(std::shared_ptr<T> v) { return v; }
template<class T, class U> [[nodiscard]] maybe_shared_ptr<T> static_pointer_cast(maybe_shared_ptr<U> const& p) {
    if (p.ownership()) { return std::static_pointer_cast<T>(p.ownership()); }
    return static_cast<T*>(p.get());
}
template<class T, class U> [[nodiscard]] maybe_shared_ptr<T> dynamic_pointer_cast(maybe_shared_ptr<U> const& p) {
    if (p.ownership()) { return std::dynamic_pointer_cast<T>(p.ownership()); }
    return dynamic_cast<T*>(p.get());
}
} // namespace takatori::util
template<class T> struct std::hash<takatori::util::maybe_shared_ptr<T>> {
    std::size_t operator()(takatori::util::maybe_shared_ptr<T> const& o) const noexcept { return std::hash<T*> {}(o.get()); }
};
