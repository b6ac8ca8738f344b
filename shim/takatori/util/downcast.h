#pragma once
#include <memory>
#include <type_traits>
#include <utility>
#include "exception.h"
#include "maybe_shared_ptr.h"
#include "optional_ptr.h"
#include <typeinfo>
namespace takatori::util {
namespace impl {
// every "unsafe" downcast is checked in the verification build: a wrong one is a defect, not UB
template<class To, class From> To* checked_cast(From* p) {
    if (p == nullptr) { return nullptr; }
    auto* r = dynamic_cast<To*>(p);
    if (r == nullptr) { throw_exception(std::bad_cast {}); }
    return r;
}
}
template<class T, class U> [[nodiscard]] inline T* downcast(U* p) noexcept { return dynamic_cast<T*>(p); }
template<class T, class U> [[nodiscard]] inline T const* downcast(U const* p) noexcept { return dynamic_cast<T const*>(p); }
template<class T, class U, class = std::enable_if_t<!std::is_pointer_v<U>>> [[nodiscard]] inline T& downcast(U& r) { return dynamic_cast<T&>(r); }
template<class T, class U, class = std::enable_if_t<!std::is_pointer_v<U>>> [[nodiscard]] inline T const& downcast(U const& r) { return dynamic_cast<T const&>(r); }
template<class T, class U, class = std::enable_if_t<!std::is_reference_v<U> && !std::is_const_v<U> && !std::is_pointer_v<U>>> [[nodiscard]] inline T&& downcast(U&& r) { return dynamic_cast<T&&>(r); }
template<class T, class U> [[nodiscard]] inline T* unsafe_downcast(U* p) { return impl::checked_cast<T>(p); }
template<class T, class U> [[nodiscard]] inline T const* unsafe_downcast(U const* p) { return impl::checked_cast<T const>(p); }
template<class T, class U, class = std::enable_if_t<!std::is_pointer_v<U>>> [[nodiscard]] inline T& unsafe_downcast(U& r) { return *impl::checked_cast<T>(std::addressof(r)); }
template<class T, class U, class = std::enable_if_t<!std::is_pointer_v<U>>> [[nodiscard]] inline T const& unsafe_downcast(U const& r) { return *impl::checked_cast<T const>(std::addressof(r)); }
template<class T, class U, class = std::enable_if_t<!std::is_reference_v<U> && !std::is_const_v<U> && !std::is_pointer_v<U>>> [[nodiscard]] inline T&& unsafe_downcast(U&& r) { return std::move(*impl::checked_cast<T>(std::addressof(r))); }
template<class T, class U> [[nodiscard]] inline optional_ptr<T> downcast(optional_ptr<U> p) noexcept { return optional_ptr<T> { dynamic_cast<T*>(p.get()) }; }
template<class T, class U> [[nodiscard]] inline optional_ptr<T> unsafe_downcast(optional_ptr<U> p) { return optional_ptr<T> { impl::checked_cast<T>(p.get()) }; }
template<class T, class U> [[nodiscard]] inline std::shared_ptr<T> dynamic_shared_cast(std::shared_ptr<U> p) { return std::dynamic_pointer_cast<T>(p); }
template<class T, class U> [[nodiscard]] inline std::shared_ptr<T> downcast(std::shared_ptr<U> const& p) noexcept { return std::dynamic_pointer_cast<T>(p); }
template<class T, class U> [[nodiscard]] inline std::shared_ptr<T> unsafe_downcast(std::shared_ptr<U> const& p) { return std::static_pointer_cast<T>(p); }
template<class T, class U> [[nodiscard]] inline std::unique_ptr<T> unsafe_downcast(std::unique_ptr<U>&& p) { auto* r = impl::checked_cast<T>(p.get()); p.release(); return std::unique_ptr<T>(r); }
template<class T, class U> [[nodiscard]] inline std::unique_ptr<T> downcast(std::unique_ptr<U>&& p) { auto* r = dynamic_cast<T*>(p.get()); if (r) { p.release(); } return std::unique_ptr<T>(r); }
} // namespace takatori::util
