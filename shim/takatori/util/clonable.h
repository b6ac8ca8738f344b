#pragma once
#include <memory>
#include <type_traits>
#include <utility>
#include "clone_tag.h"
#include "maybe_shared_ptr.h"
#include "optional_ptr.h"
#include "rvalue_ptr.h"
#include "rvalue_reference_wrapper.h"
namespace takatori::util {
template<class T, class = void> struct is_clonable : std::false_type {};
template<class T> struct is_clonable<T, std::void_t<decltype(std::declval<T const&>().clone())>> : std::true_type {};
template<class T> inline constexpr bool is_clonable_v = is_clonable<T>::value;
template<class T, class... A> struct is_clone_constructible_ : std::is_constructible<T, clone_tag_t, T const&, A...> {};
template<class T, class... A> inline constexpr bool is_clone_constructible_v = is_clone_constructible_<T, A...>::value;

namespace impl {
template<class T, class = void> struct is_pointer_like : std::false_type {};
template<class T> struct is_pointer_like<std::unique_ptr<T>> : std::true_type {};
template<class T> struct is_pointer_like<std::shared_ptr<T>> : std::true_type {};
template<class T> struct is_pointer_like<T*> : std::true_type {};
template<class T> struct is_pointer_like<rvalue_ptr<T>> : std::true_type {};
template<class T> struct is_pointer_like<optional_ptr<T>> : std::true_type {};
template<class T> struct is_pointer_like<maybe_shared_ptr<T>> : std::true_type {};
template<class T> struct is_pointer_like<rvalue_reference_wrapper<T>> : std::true_type {};
} // namespace impl

template<class T, class = std::enable_if_t<!impl::is_pointer_like<std::decay_t<T>>::value && is_clonable_v<std::decay_t<T>>>>
[[nodiscard]] inline auto clone_unique(T&& v) {
    using E = std::remove_const_t<std::remove_reference_t<T>>;
    return std::unique_ptr<E>(static_cast<E*>(std::forward<T>(v).clone()));
}
template<class T, class D>
[[nodiscard]] inline std::unique_ptr<std::remove_const_t<T>> clone_unique(std::unique_ptr<T, D> const& v) { if (!v) { return {}; } return clone_unique(std::as_const(*v)); }
template<class T, class D>
[[nodiscard]] inline std::unique_ptr<std::remove_const_t<T>> clone_unique(std::unique_ptr<T, D>& v) { return clone_unique(std::as_const(v)); }
template<class T, class D>
[[nodiscard]] inline std::unique_ptr<T, D> clone_unique(std::unique_ptr<T, D>&& v) { return std::move(v); }
template<class T>
[[nodiscard]] inline std::unique_ptr<std::remove_const_t<T>> clone_unique(T* v) { if (!v) { return {}; } return clone_unique(std::as_const(*v)); }
template<class T>
[[nodiscard]] inline std::unique_ptr<std::remove_const_t<T>> clone_unique(std::shared_ptr<T> const& v) { if (!v) { return {}; } return clone_unique(std::as_const(*v)); }
template<class T>
[[nodiscard]] inline std::unique_ptr<std::remove_const_t<T>> clone_unique(maybe_shared_ptr<T> const& v) { if (!v) { return {}; } return clone_unique(std::as_const(*v)); }
template<class T>
[[nodiscard]] inline std::unique_ptr<std::remove_const_t<T>> clone_unique(optional_ptr<T> v) { if (!v) { return {}; } return clone_unique(std::as_const(*v)); }
template<class T>
[[nodiscard]] inline std::unique_ptr<T> clone_unique(rvalue_ptr<T> v) { if (!v) { return {}; } return clone_unique(*v); }
template<class T>
[[nodiscard]] inline std::unique_ptr<T> clone_unique(rvalue_reference_wrapper<T> v) { return clone_unique(v.get()); }

template<class T, class = std::enable_if_t<!impl::is_pointer_like<std::decay_t<T>>::value && is_clonable_v<std::decay_t<T>>>>
[[nodiscard]] inline auto clone_shared(T&& v) {
    using E = std::remove_const_t<std::remove_reference_t<T>>;
    return std::shared_ptr<E>(static_cast<E*>(std::forward<T>(v).clone()));
}
template<class T> [[nodiscard]] inline std::shared_ptr<std::remove_const_t<T>> clone_shared(T* v) { if (!v) { return {}; } return clone_shared(std::as_const(*v)); }
template<class T, class D> [[nodiscard]] inline std::shared_ptr<std::remove_const_t<T>> clone_shared(std::unique_ptr<T, D> const& v) { if (!v) { return {}; } return clone_shared(std::as_const(*v)); }
template<class T, class D> [[nodiscard]] inline std::shared_ptr<T> clone_shared(std::unique_ptr<T, D>&& v) { return std::shared_ptr<T>(std::move(v)); }
template<class T> [[nodiscard]] inline std::shared_ptr<T> clone_shared(std::shared_ptr<T> v) { return v; }
template<class T> [[nodiscard]] inline std::shared_ptr<std::remove_const_t<T>> clone_shared(rvalue_ptr<T> v) { if (!v) { return {}; } return clone_shared(*v); }
} // namespace takatori::util
