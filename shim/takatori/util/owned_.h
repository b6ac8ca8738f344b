#pragma once
#include <takatori/util/clonable.h>
namespace takatori::util {
/// a constructor argument which takes either an owner or a temporary (which is moved from).
template<class T>
struct owned {
    owned() = default;
    owned(std::nullptr_t) {}
    template<class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>> owned(std::unique_ptr<U> p) : p { std::move(p) } {}
    template<class U, class = std::enable_if_t<!std::is_reference_v<U> && !std::is_const_v<U> && std::is_base_of_v<T, U>>> owned(U&& v) : p { clone_unique(std::move(v)) } {}
    template<class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>> owned(rvalue_ptr<U> v) : p { v ? clone_unique(*v) : nullptr } {}
    std::unique_ptr<T> p {};
};
/// the same for shared, immutable objects.
template<class T>
struct shared_arg {
    shared_arg() = default;
    shared_arg(std::nullptr_t) {}
    template<class U, class = std::enable_if_t<std::is_convertible_v<U*, T const*>>> shared_arg(std::shared_ptr<U> p) : p { std::move(p) } {}
    template<class U, class = std::enable_if_t<std::is_convertible_v<U*, T const*>>> shared_arg(maybe_shared_ptr<U> v) : p { static_cast<std::shared_ptr<U>>(v) } {}
    template<class U, class = std::enable_if_t<!std::is_reference_v<U> && !std::is_const_v<U> && std::is_base_of_v<T, U>>, class = void> shared_arg(U&& v) : p { clone_shared(std::move(v)) } {}
    template<class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>> shared_arg(rvalue_ptr<U> v) : p { v ? clone_shared(*v) : nullptr } {}
    std::shared_ptr<T const> p {};
};
template<class T> [[nodiscard]] inline std::unique_ptr<T> clone_or_null(std::unique_ptr<T> const& p) { return p ? std::unique_ptr<T>(static_cast<T*>(std::as_const(*p).clone())) : nullptr; }
template<class T> [[nodiscard]] inline bool same_or_null(std::unique_ptr<T> const& a, std::unique_ptr<T> const& b) { return (!a && !b) || (a && b && *a == *b); }
} // namespace takatori::util
