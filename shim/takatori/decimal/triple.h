#pragma once
#include <decimal.hh>
namespace takatori::decimal {
class triple {
public:
    constexpr triple() noexcept = default;
    triple(std::int64_t sign, std::uint64_t high, std::uint64_t low, std::int32_t exponent) noexcept : s_ { (high | low) == 0 ? 0 : (sign < 0 ? -1 : 1) }, h_ { high }, l_ { low }, e_ { exponent } {}
    triple(std::int64_t coefficient, std::int32_t exponent = 0) noexcept :
        triple(coefficient < 0 ? -1 : 1, 0, coefficient < 0 ? static_cast<std::uint64_t>(-(coefficient + 1)) + 1 : static_cast<std::uint64_t>(coefficient), exponent) {}
    explicit triple(::decimal::Decimal const& v) {
        if (v.isnan()) { throw std::invalid_argument("NaN"); }
        unsigned __int128 c = 0;
        for (char d : v.digits()) {
            auto n = c * 10 + static_cast<unsigned>(d - '0');
            if (c > (~static_cast<unsigned __int128>(0)) / 10 || n < c) { throw std::out_of_range("decimal coefficient"); }
            c = n;
        }
        h_ = static_cast<std::uint64_t>(c >> 64U); l_ = static_cast<std::uint64_t>(c);
        s_ = c == 0 ? 0 : v.sign(); e_ = static_cast<std::int32_t>(v.exponent());
    }
    explicit operator ::decimal::Decimal() const {
        unsigned __int128 c = (static_cast<unsigned __int128>(h_) << 64U) | l_;
        std::string d; do { d.insert(0, 1, static_cast<char>('0' + static_cast<int>(c % 10))); c /= 10; } while (c != 0);
        return ::decimal::Decimal { s_ < 0, d, e_ };
    }
    [[nodiscard]] std::int64_t sign() const noexcept { return s_; }
    [[nodiscard]] std::uint64_t coefficient_high() const noexcept { return h_; }
    [[nodiscard]] std::uint64_t coefficient_low() const noexcept { return l_; }
    [[nodiscard]] std::int32_t exponent() const noexcept { return e_; }
    friend bool operator==(triple const& a, triple const& b) noexcept { return a.s_ == b.s_ && a.h_ == b.h_ && a.l_ == b.l_ && a.e_ == b.e_; }
    friend bool operator!=(triple const& a, triple const& b) noexcept { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, triple const& v) {
        unsigned __int128 c = (static_cast<unsigned __int128>(v.h_) << 64U) | v.l_;
        std::string d; do { d.insert(0, 1, static_cast<char>('0' + static_cast<int>(c % 10))); c /= 10; } while (c != 0);
        return out << (v.s_ < 0 ? "-" : "") << d << "E" << v.e_;
    }
private:
    std::int64_t s_ {};
    std::uint64_t h_ {}, l_ {};
    std::int32_t e_ {};
};
} // namespace takatori::decimal
