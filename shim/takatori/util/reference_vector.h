#pragma once
#include <takatori/util/prelude_.h>
#include <takatori/util/clonable.h>
#include <takatori/util/ownership_reference.h>
#include <takatori/util/reference_iterator_.h>
#include <takatori/util/rvalue_reference_wrapper.h>
namespace takatori::util {
/// a vector of polymorphic objects owned by the vector.
template<class T>
class reference_vector {
    using P = std::unique_ptr<T>;
public:
    using value_type = T;
    using pointer = std::unique_ptr<T>;
    using unique_pointer = std::unique_ptr<T>;
    using size_type = std::size_t;
    using iterator = deref_iterator<T, P>;
    using const_iterator = deref_iterator<T const, P>;
    reference_vector() = default;
    reference_vector(std::initializer_list<rvalue_reference_wrapper<T>> v) { for (auto& e : v) { push_back(clone_unique(e.get())); } }
    reference_vector(reference_vector const&) = delete;
    reference_vector& operator=(reference_vector const&) = delete;
    reference_vector(reference_vector&&) noexcept = default;
    reference_vector& operator=(reference_vector&&) noexcept = default;
    reference_vector(std::vector<P> v) : v_ { std::move(v) } {}
    reference_vector& operator=(std::vector<P> v) { v_ = std::move(v); return *this; }
    reference_vector& operator=(std::initializer_list<rvalue_reference_wrapper<T>> v) { return *this = reference_vector { v }; }
    [[nodiscard]] T& operator[](std::size_t i) { return *v_.at(i); }
    [[nodiscard]] T const& operator[](std::size_t i) const { return *v_.at(i); }
    [[nodiscard]] T& at(std::size_t i) { return *v_.at(i); }
    [[nodiscard]] T const& at(std::size_t i) const { return *v_.at(i); }
    [[nodiscard]] T& front() { return *v_.at(0); }
    [[nodiscard]] T const& front() const { return *v_.at(0); }
    [[nodiscard]] T& back() { return *v_.at(v_.size() - 1); }
    [[nodiscard]] T const& back() const { return *v_.at(v_.size() - 1); }
    [[nodiscard]] std::size_t size() const noexcept { return v_.size(); }
    [[nodiscard]] bool empty() const noexcept { return v_.empty(); }
    void reserve(std::size_t n) { v_.reserve(n); }
    void clear() { v_.clear(); }
    T& push_back(P p) { v_.emplace_back(std::move(p)); return *v_.back(); }
    T& push_back(T&& p) { return push_back(clone_unique(std::move(p))); }
    template<class U = T, class... A> U& emplace_back(A&&... a) { auto p = std::make_unique<U>(std::forward<A>(a)...); auto& r = *p; v_.emplace_back(std::move(p)); return r; }
    void pop_back() { v_.pop_back(); }
    [[nodiscard]] P release_back() { auto r = std::move(v_.back()); v_.pop_back(); return r; }
    template<class It> iterator insert(It pos, P p) { auto i = pos.raw() - v_.data(); v_.insert(v_.begin() + i, std::move(p)); return iterator { v_.data() + i }; }
    template<class It> iterator erase(It pos) { auto i = pos.raw() - v_.data(); v_.erase(v_.begin() + i); return iterator { v_.data() + i }; }
    [[nodiscard]] P release_at(std::size_t i) { auto r = std::move(v_.at(i)); v_.erase(v_.begin() + static_cast<std::ptrdiff_t>(i)); return r; }
    [[nodiscard]] P exchange(std::size_t i, P p) { std::swap(v_.at(i), p); return p; }
    [[nodiscard]] ownership_reference<T> ownership(std::size_t i) { return ownership_reference<T> { v_.at(i) }; }
    template<class U> [[nodiscard]] ownership_reference<T> ownership(deref_iterator<U, P> it) { return ownership_reference<T> { v_.at(static_cast<std::size_t>(it.raw() - v_.data())) }; }
    [[nodiscard]] std::vector<P> release_elements() { return std::move(v_); }
    [[nodiscard]] iterator begin() noexcept { return iterator { v_.data() }; }
    [[nodiscard]] iterator end() noexcept { return iterator { v_.data() + v_.size() }; }
    [[nodiscard]] const_iterator begin() const noexcept { return const_iterator { v_.data() }; }
    [[nodiscard]] const_iterator end() const noexcept { return const_iterator { v_.data() + v_.size() }; }
    [[nodiscard]] const_iterator cbegin() const noexcept { return begin(); }
    [[nodiscard]] const_iterator cend() const noexcept { return end(); }
    friend bool operator==(reference_vector const& a, reference_vector const& b) { return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin()); }
    friend bool operator!=(reference_vector const& a, reference_vector const& b) { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, reference_vector const& v) { out << "["; bool c = false; for (auto&& e : v) { if (c) { out << ", "; } c = true; out << e; } return out << "]"; }
private:
    std::vector<P> v_ {};
};
/// a view of a reference_vector.
template<class V> class reference_list_view {
public:
    using value_type = typename V::value_type;
    reference_list_view() = default;
    reference_list_view(V& v) noexcept : v_ { std::addressof(v) } {}
    [[nodiscard]] std::size_t size() const noexcept { return v_ ? v_->size() : 0; }
    [[nodiscard]] bool empty() const noexcept { return size() == 0; }
    [[nodiscard]] auto& operator[](std::size_t i) const { return (*v_)[i]; }
    [[nodiscard]] auto& front() const { return (*v_)[0]; }
    [[nodiscard]] auto& back() const { return (*v_)[size() - 1]; }
    [[nodiscard]] auto begin() const { return v_->begin(); }
    [[nodiscard]] auto end() const { return v_->end(); }
private:
    V* v_ {};
};
} // namespace takatori::util
