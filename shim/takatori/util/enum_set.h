#pragma once
#include <takatori/util/prelude_.h>
#include <bitset>
#include <cstddef>
#include <initializer_list>
#include <iterator>
#include <ostream>
#include <type_traits>
namespace takatori::util {
template<class E, E First, E Last>
class enum_set {
    static_assert(std::is_enum_v<E>);
    using u = std::underlying_type_t<E>;
public:
    static constexpr u min_value = static_cast<u>(First);
    static constexpr u max_value = static_cast<u>(Last);
    static constexpr std::size_t capacity_value = static_cast<std::size_t>(max_value) - static_cast<std::size_t>(min_value) + 1;
    using value_type = E;
    using size_type = std::size_t;
    class bits_type {
    public:
        constexpr bool test(std::size_t i) const { return (w_[i / 64] >> (i % 64)) & 1U; }
        constexpr void set(std::size_t i, bool v = true) { if (v) { w_[i / 64] |= (std::uint64_t { 1 } << (i % 64)); } else { reset(i); } }
        constexpr void reset(std::size_t i) { w_[i / 64] &= ~(std::uint64_t { 1 } << (i % 64)); }
        constexpr void flip(std::size_t i) { set(i, !test(i)); }
        constexpr void clear() { for (auto& w : w_) { w = 0; } }
        constexpr std::size_t count() const { std::size_t r = 0; for (std::size_t i = 0; i < capacity_value; ++i) { r += test(i) ? 1 : 0; } return r; }
        constexpr bool none() const { return count() == 0; }
        std::uint64_t w_[(capacity_value + 63) / 64] {};
    };
    class iterator {
    public:
        using iterator_category = std::forward_iterator_tag;
        using value_type = E;
        using difference_type = std::ptrdiff_t;
        using pointer = E const*;
        using reference = E;
        iterator() = default;
        iterator(bits_type const* b, std::size_t i) : b_ { b }, i_ { i } { adjust(); }
        E operator*() const { return static_cast<E>(static_cast<u>(i_ + static_cast<std::size_t>(min_value))); }
        iterator& operator++() { ++i_; adjust(); return *this; }
        iterator operator++(int) { auto r = *this; ++*this; return r; }
        friend bool operator==(iterator const& a, iterator const& b) { return a.i_ == b.i_; }
        friend bool operator!=(iterator const& a, iterator const& b) { return a.i_ != b.i_; }
    private:
        bits_type const* b_ {};
        std::size_t i_ {};
        void adjust() { while (i_ < capacity_value && !b_->test(i_)) { ++i_; } }
    };
    using const_iterator = iterator;
    class position {
    public:
        constexpr position(bits_type& b, std::size_t i) : b_ { &b }, i_ { i } {}
        constexpr position& operator=(bool v) { b_->set(i_, v); return *this; }
        operator bool() const { return b_->test(i_); }
        bool operator~() const { return !b_->test(i_); }
        constexpr position& flip() { b_->flip(i_); return *this; }
    private:
        bits_type* b_;
        std::size_t i_;
    };
    constexpr enum_set() = default;
    constexpr enum_set(std::initializer_list<E> v) { for (auto e : v) { insert(e); } }
    template<class... Es, class = std::enable_if_t<(std::is_same_v<Es, E> && ...)>>
    constexpr explicit enum_set(E e, Es... es) { insert(e); (insert(es), ...); }
    [[nodiscard]] constexpr bool empty() const noexcept { return bits_.none(); }
    [[nodiscard]] constexpr std::size_t size() const noexcept { return bits_.count(); }
    [[nodiscard]] static constexpr std::size_t capacity() noexcept { return capacity_value; }
    [[nodiscard]] constexpr bool contains(E e) const noexcept { return in(e) && bits_.test(ix(e)); }
    [[nodiscard]] constexpr bool operator[](E e) const { return contains(e); }
    [[nodiscard]] position operator[](E e) { return position { bits_, ix(e) }; }
    constexpr enum_set& clear() noexcept { bits_.clear(); return *this; }
    constexpr enum_set& insert(E e) { bits_.set(ix(e)); return *this; }
    constexpr enum_set& insert(std::initializer_list<E> es) { for (auto e : es) { insert(e); } return *this; }
    constexpr enum_set& erase(E e) { bits_.reset(ix(e)); return *this; }
    [[nodiscard]] iterator begin() const noexcept { return iterator { &bits_, 0 }; }
    [[nodiscard]] iterator end() const noexcept { return iterator { &bits_, capacity_value }; }
    [[nodiscard]] iterator cbegin() const noexcept { return begin(); }
    [[nodiscard]] iterator cend() const noexcept { return end(); }
    enum_set& operator&=(enum_set const& o) { for (std::size_t i = 0; i < std::size(bits_.w_); ++i) { bits_.w_[i] &= o.bits_.w_[i]; }; return *this; }
    enum_set& operator|=(enum_set const& o) { for (std::size_t i = 0; i < std::size(bits_.w_); ++i) { bits_.w_[i] |= o.bits_.w_[i]; }; return *this; }
    enum_set& operator^=(enum_set const& o) { for (std::size_t i = 0; i < std::size(bits_.w_); ++i) { bits_.w_[i] ^= o.bits_.w_[i]; }; return *this; }
    enum_set& operator-=(enum_set const& o) { for (std::size_t i = 0; i < std::size(bits_.w_); ++i) { bits_.w_[i] &= ~o.bits_.w_[i]; }; return *this; }
    enum_set operator~() const { enum_set r {}; for (std::size_t i = 0; i < capacity_value; ++i) { r.bits_.set(i, !bits_.test(i)); } return r; }
    enum_set& operator+=(enum_set const& o) { return *this |= o; }
    friend enum_set operator+(enum_set a, enum_set const& b) { return a |= b; }
    friend enum_set operator&(enum_set a, enum_set const& b) { return a &= b; }
    friend enum_set operator|(enum_set a, enum_set const& b) { return a |= b; }
    friend enum_set operator^(enum_set a, enum_set const& b) { return a ^= b; }
    friend enum_set operator-(enum_set a, enum_set const& b) { return a -= b; }
    friend bool operator==(enum_set const& a, enum_set const& b) { return std::equal(std::begin(a.bits_.w_), std::end(a.bits_.w_), std::begin(b.bits_.w_)); }
    friend bool operator!=(enum_set const& a, enum_set const& b) { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, enum_set const& v) {
        out << "{";
        bool cont = false;
        for (E e : v) { if (cont) { out << ", "; } cont = true; out << e; }
        return out << "}";
    }
private:
    bits_type bits_ {};
    static constexpr bool in(E e) noexcept { return static_cast<u>(e) >= min_value && static_cast<u>(e) <= max_value; }
    static constexpr std::size_t ix(E e) noexcept { return static_cast<std::size_t>(static_cast<u>(e)) - static_cast<std::size_t>(min_value); }
};
} // namespace takatori::util
