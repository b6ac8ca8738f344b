#pragma once
#include <takatori/util/prelude_.h>
#include <takatori/util/optional_ptr.h>
namespace takatori::util {
/// a reference to a slot owned by someone else (here: a unique_ptr member).
template<class T>
class ownership_reference {
public:
    using value_type = T;
    using pointer = T*;
    using reference = T&;
    using pointer_type = std::unique_ptr<std::remove_const_t<T>>;
    explicit ownership_reference(pointer_type& slot) noexcept : slot_ { std::addressof(slot) } {}
    [[nodiscard]] T& get() const { return **slot_; }
    [[nodiscard]] T* find() const noexcept { return slot_->get(); }
    [[nodiscard]] T& operator*() const { return **slot_; }
    [[nodiscard]] T* operator->() const { return slot_->get(); }
    [[nodiscard]] pointer_type& slot() const noexcept { return *slot_; }
    [[nodiscard]] bool has_value() const noexcept { return static_cast<bool>(*slot_); }
    explicit operator bool() const noexcept { return has_value(); }
    void set(pointer_type v) { *slot_ = std::move(v); }
    ownership_reference& operator=(pointer_type v) { set(std::move(v)); return *this; }
    [[nodiscard]] pointer_type exchange(pointer_type v) { std::swap(*slot_, v); return v; }
private:
    pointer_type* slot_;
};
template<class T> ownership_reference(std::unique_ptr<T>&) -> ownership_reference<T>;
} // namespace takatori::util
