#pragma once
#include <takatori/util/prelude_.h>
namespace takatori::util {
/// random access over unique_ptr storage, exposing references.
template<class T, class P>
class deref_iterator {
public:
    using iterator_category = std::random_access_iterator_tag;
    using value_type = std::remove_const_t<T>;
    using difference_type = std::ptrdiff_t;
    using pointer = T*;
    using reference = T&;
    deref_iterator() = default;
    explicit deref_iterator(P const* p) noexcept : p_ { p } {}
    reference operator*() const { return **p_; }
    pointer operator->() const { return p_->get(); }
    reference operator[](difference_type n) const { return *p_[n]; }
    deref_iterator& operator++() { ++p_; return *this; }
    deref_iterator operator++(int) { auto r = *this; ++p_; return r; }
    deref_iterator& operator--() { --p_; return *this; }
    deref_iterator& operator+=(difference_type n) { p_ += n; return *this; }
    friend deref_iterator operator+(deref_iterator a, difference_type n) { return a += n; }
    friend deref_iterator operator-(deref_iterator a, difference_type n) { return a += -n; }
    friend difference_type operator-(deref_iterator a, deref_iterator b) { return a.p_ - b.p_; }
    friend bool operator==(deref_iterator a, deref_iterator b) { return a.p_ == b.p_; }
    friend bool operator!=(deref_iterator a, deref_iterator b) { return a.p_ != b.p_; }
    friend bool operator<(deref_iterator a, deref_iterator b) { return a.p_ < b.p_; }
    P const* raw() const { return p_; }
private:
    P const* p_ {};
};
} // namespace takatori::util
