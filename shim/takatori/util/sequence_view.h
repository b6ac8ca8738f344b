#pragma once
#include <takatori/util/prelude_.h>
namespace takatori::util {
/// a view of a contiguous sequence.
template<class T>
class sequence_view {
public:
    using value_type = std::remove_const_t<T>;
    using element_type = T;
    using pointer = T*;
    using const_pointer = T const*;
    using reference = T&;
    using size_type = std::size_t;
    using iterator = T*;
    using const_iterator = T const*;
    constexpr sequence_view() noexcept = default;
    constexpr sequence_view(T* p, std::size_t n) noexcept : p_ { p }, n_ { n } {}
    constexpr sequence_view(T* b, T* e) noexcept : p_ { b }, n_ { static_cast<std::size_t>(e - b) } {}
    explicit constexpr sequence_view(T& v) noexcept : p_ { std::addressof(v) }, n_ { 1 } {}
    template<class C, class = std::enable_if_t<
            !std::is_same_v<std::decay_t<C>, sequence_view>
            && std::is_convertible_v<decltype(std::data(std::declval<C&>())), T*>>>
    constexpr sequence_view(C& c) noexcept : p_ { std::data(c) }, n_ { std::size(c) } {}
    template<class C, class = std::enable_if_t<
            !std::is_same_v<std::decay_t<C>, sequence_view>
            && std::is_convertible_v<decltype(std::data(std::declval<C const&>())), T*>>, class = void>
    constexpr sequence_view(C const& c) noexcept : p_ { std::data(c) }, n_ { std::size(c) } {}
    [[nodiscard]] constexpr reference operator[](std::size_t i) const { if (i >= n_) { throw std::out_of_range("sequence_view"); } return p_[i]; }
    [[nodiscard]] constexpr reference at(std::size_t i) const { return (*this)[i]; }
    [[nodiscard]] constexpr reference front() const { return (*this)[0]; }
    [[nodiscard]] constexpr reference back() const { return (*this)[n_ - 1]; }
    [[nodiscard]] constexpr T* data() const noexcept { return p_; }
    [[nodiscard]] constexpr std::size_t size() const noexcept { return n_; }
    [[nodiscard]] constexpr bool empty() const noexcept { return n_ == 0; }
    [[nodiscard]] constexpr T* begin() const noexcept { return p_; }
    [[nodiscard]] constexpr T* end() const noexcept { return p_ + n_; }
    [[nodiscard]] constexpr T const* cbegin() const noexcept { return p_; }
    [[nodiscard]] constexpr T const* cend() const noexcept { return p_ + n_; }
    [[nodiscard]] constexpr sequence_view subsequence(std::size_t pos, std::size_t n = static_cast<std::size_t>(-1)) const { if (pos > n_) { throw std::out_of_range("sequence_view"); } return { p_ + pos, std::min(n, n_ - pos) }; }
private:
    T* p_ {};
    std::size_t n_ {};
};
template<class T, class A> sequence_view(std::vector<T, A>&) -> sequence_view<T>;
template<class T, class A> sequence_view(std::vector<T, A> const&) -> sequence_view<T const>;
template<class T, class U> bool operator==(sequence_view<T> a, sequence_view<U> b) { return std::equal(a.begin(), a.end(), b.begin(), b.end()); }
template<class T, class U> bool operator!=(sequence_view<T> a, sequence_view<U> b) { return !(a == b); }
template<class T> std::ostream& operator<<(std::ostream& out, sequence_view<T> v) { out << "{"; bool c = false; for (auto&& e : v) { if (c) { out << ", "; } c = true; out << e; } return out << "}"; }
} // namespace takatori::util
