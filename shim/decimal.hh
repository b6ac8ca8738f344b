#pragma once
// A minimal arbitrary-precision decimal, the part of libmpdec++ which the code under test uses.
#include <takatori/util/prelude_.h>
using mpd_ssize_t = std::int64_t;
inline constexpr mpd_ssize_t MPD_MAX_PREC = 999999999999999999LL;
inline constexpr mpd_ssize_t MPD_MAX_EMAX = 999999999999999999LL;
inline constexpr mpd_ssize_t MPD_MIN_EMIN = -999999999999999999LL;
namespace decimal {
inline constexpr std::uint32_t DecInexact = 0x40U;
inline constexpr std::uint32_t DecRounded = 0x1000U;
inline constexpr std::uint32_t DecConversionSyntax = 0x2U;
class Context {
public:
    explicit Context(mpd_ssize_t prec = 38, mpd_ssize_t emax = MPD_MAX_EMAX, mpd_ssize_t emin = MPD_MIN_EMIN) : prec_ { prec } { (void) emax; (void) emin; }
    [[nodiscard]] std::uint32_t status() const { return status_; }
    void add_status(std::uint32_t f) { status_ |= f; }
    void clear_status() { status_ = 0; }
    [[nodiscard]] mpd_ssize_t prec() const { return prec_; }
private:
    mpd_ssize_t prec_;
    std::uint32_t status_ {};
};
struct ValueError : std::invalid_argument { using std::invalid_argument::invalid_argument; };
class Decimal {
public:
    Decimal() = default;
    Decimal(std::int64_t v) : neg_ { v < 0 } { digits_ = std::to_string(v); if (neg_) { digits_.erase(0, 1); } }
    explicit Decimal(std::string_view s) { Context c { MPD_MAX_PREC }; parse(s, c); }
    explicit Decimal(char const* s) : Decimal(std::string_view { s }) {}
    Decimal(std::string_view s, Context& c) { parse(s, c); }
    Decimal(std::string const& s, Context& c) { parse(s, c); }
    Decimal(bool neg, std::string digits, std::int64_t exp) : neg_ { neg }, digits_ { std::move(digits) }, exp_ { exp } { strip(); }
    [[nodiscard]] std::int64_t exponent() const { return exp_; }
    [[nodiscard]] bool iszero() const { return !nan_ && digits_ == "0"; }
    [[nodiscard]] bool isnan() const { return nan_; }
    [[nodiscard]] int sign() const { return neg_ ? -1 : 1; }
    [[nodiscard]] bool issigned() const { return neg_; }
    [[nodiscard]] bool isnormal(Context const&) const { return !nan_ && !iszero(); }
    [[nodiscard]] std::string number_class(Context const&) const { if (nan_) { return "NaN"; } return std::string { neg_ ? "-" : "+" } + (iszero() ? "Zero" : "Normal"); }
    [[nodiscard]] Decimal minus(Context& c) const { Decimal r { *this }; r.neg_ = iszero() ? false : !neg_; r.round(c); return r; }
    [[nodiscard]] Decimal coeff() const { return Decimal { false, digits_, 0 }; }
    [[nodiscard]] std::int64_t adjexp() const { return exp_ + static_cast<std::int64_t>(digits_.size()) - 1; }
    [[nodiscard]] std::string const& digits() const { return digits_; }
    [[nodiscard]] bool isinteger() const {
        if (nan_) { return false; }
        if (exp_ >= 0 || iszero()) { return true; }
        auto frac = static_cast<std::size_t>(-exp_);
        return frac < digits_.size() && digits_.find_first_not_of('0', digits_.size() - frac) == std::string::npos;
    }
    [[nodiscard]] std::int64_t i64() const { return to_int(std::numeric_limits<std::int64_t>::min(), std::numeric_limits<std::int64_t>::max()); }
    [[nodiscard]] std::int32_t i32() const { return static_cast<std::int32_t>(to_int(std::numeric_limits<std::int32_t>::min(), std::numeric_limits<std::int32_t>::max())); }
    friend std::ostream& operator<<(std::ostream& out, Decimal const& v) { return out << (v.nan_ ? "NaN" : v.to_sci()); }
    [[nodiscard]] std::string to_sci() const { return (neg_ ? "-" : "") + digits_ + "E" + std::to_string(exp_); }
private:
    bool neg_ {}, nan_ {};
    std::string digits_ { "0" };
    std::int64_t exp_ {};
    [[nodiscard]] std::int64_t to_int(std::int64_t lo, std::int64_t hi) const {
        if (!isinteger()) { throw ValueError { "not an integer" }; }
        if (iszero()) { return 0; }
        std::string d = digits_;
        if (exp_ < 0) { d.resize(d.size() - static_cast<std::size_t>(-exp_)); }
        else { if (exp_ > 20) { throw ValueError { "out of range" }; } d.append(static_cast<std::size_t>(exp_), '0'); }
        __int128 r = 0;
        for (char c : d) { r = r * 10 + (c - '0'); if (r > static_cast<__int128>(hi) + 1) { throw ValueError { "out of range" }; } }
        if (neg_) { r = -r; }
        if (r < lo || r > hi) { throw ValueError { "out of range" }; }
        return static_cast<std::int64_t>(r);
    }
    void strip() { auto p = digits_.find_first_not_of('0'); digits_ = p == std::string::npos ? "0" : digits_.substr(p); }
    void parse(std::string_view s, Context& c) {
        std::size_t i = 0;
        std::string d;
        bool any = false;
        std::int64_t e = 0;
        if (i < s.size() && (s[i] == '+' || s[i] == '-')) { neg_ = s[i++] == '-'; }
        for (; i < s.size() && s[i] >= '0' && s[i] <= '9'; ++i) { d += s[i]; any = true; }
        if (i < s.size() && s[i] == '.') { for (++i; i < s.size() && s[i] >= '0' && s[i] <= '9'; ++i) { d += s[i]; --e; any = true; } }
        if (any && i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
            ++i; bool n = false; std::int64_t x = 0; bool a = false;
            if (i < s.size() && (s[i] == '+' || s[i] == '-')) { n = s[i++] == '-'; }
            for (; i < s.size() && s[i] >= '0' && s[i] <= '9'; ++i) { x = std::min<std::int64_t>(x * 10 + (s[i] - '0'), 100000000); a = true; }
            any = a; e += n ? -x : x;
        }
        if (!any || i != s.size()) { nan_ = true; c.add_status(DecConversionSyntax); return; }
        digits_ = d; exp_ = e; strip(); round(c);
    }
    void round(Context& c) {
        auto p = static_cast<std::size_t>(c.prec());
        if (digits_.size() <= p) { return; }
        auto drop = digits_.size() - p;
        auto tail = digits_.substr(p);
        digits_.resize(p);
        exp_ += static_cast<std::int64_t>(drop);
        c.add_status(DecRounded);
        if (tail.find_first_not_of('0') != std::string::npos) { c.add_status(DecInexact); }
        bool up = tail[0] > '5' || (tail[0] == '5' && (tail.find_first_not_of('0', 1) != std::string::npos || (digits_.back() - '0') % 2 == 1));
        if (up) {
            std::size_t i = digits_.size();
            while (i > 0 && digits_[i - 1] == '9') { digits_[--i] = '0'; }
            if (i == 0) { digits_.insert(0, 1, '1'); digits_.pop_back(); ++exp_; } else { ++digits_[i - 1]; }
        }
    }
};
} // namespace decimal
