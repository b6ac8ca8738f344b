#pragma once
#include <takatori/util/prelude_.h>
#include <chrono>
namespace takatori::datetime {
namespace impl {
inline std::int64_t days_from_civil(std::int64_t y, unsigned m, unsigned d) noexcept {
    y -= m <= 2 ? 1 : 0;
    std::int64_t era = (y >= 0 ? y : y - 399) / 400;
    auto yoe = static_cast<unsigned>(y - era * 400);
    unsigned doy = (153 * (m + (m > 2 ? -3U : 9U)) + 2) / 5 + d - 1;
    unsigned doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097 + static_cast<std::int64_t>(doe) - 719468;
}
inline bool valid_date(std::int64_t y, unsigned m, unsigned d) noexcept {
    if (m < 1 || m > 12 || d < 1) { return false; }
    static constexpr unsigned n[] { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
    bool leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    return d <= n[m - 1] + (m == 2 && leap ? 1U : 0U);
}
}
class date {
public:
    using difference_type = std::int64_t;
    constexpr date() noexcept = default;
    explicit constexpr date(std::int64_t days) noexcept : days_ { days } {}
    date(std::int32_t y, std::uint32_t m, std::uint32_t d) : days_ { impl::days_from_civil(y, m, d) } { if (!impl::valid_date(y, m, d)) { throw std::invalid_argument("date"); } }
    [[nodiscard]] std::int64_t days_since_epoch() const noexcept { return days_; }
    friend bool operator==(date a, date b) noexcept { return a.days_ == b.days_; }
    friend bool operator!=(date a, date b) noexcept { return a.days_ != b.days_; }
    friend std::ostream& operator<<(std::ostream& out, date v) { return out << "date(" << v.days_ << ")"; }
private:
    std::int64_t days_ {};
};
class time_of_day {
public:
    using time_unit = std::chrono::nanoseconds;
    constexpr time_of_day() noexcept = default;
    explicit constexpr time_of_day(time_unit v) noexcept : v_ { v } {}
    time_of_day(std::uint32_t h, std::uint32_t m, std::uint32_t s, time_unit ns = time_unit::zero()) : v_ { std::chrono::hours { h } + std::chrono::minutes { m } + std::chrono::seconds { s } + ns } {
        if (h > 23 || m > 59 || s > 59) { throw std::invalid_argument("time_of_day"); }
    }
    [[nodiscard]] time_unit time_since_epoch() const noexcept { return v_; }
    friend bool operator==(time_of_day a, time_of_day b) noexcept { return a.v_ == b.v_; }
    friend bool operator!=(time_of_day a, time_of_day b) noexcept { return a.v_ != b.v_; }
    friend std::ostream& operator<<(std::ostream& out, time_of_day v) { return out << "time(" << v.v_.count() << ")"; }
private:
    time_unit v_ {};
};
class time_point {
public:
    using offset_type = std::chrono::seconds;
    using difference_type = std::chrono::nanoseconds;
    using subsecond_unit = std::chrono::nanoseconds;
    constexpr time_point() noexcept = default;
    time_point(date d, time_of_day t) noexcept {
        auto s = std::chrono::duration_cast<offset_type>(t.time_since_epoch());
        sec_ = offset_type { d.days_since_epoch() * 86400 } + s; sub_ = t.time_since_epoch() - s;
    }
    time_point(std::int32_t y, std::uint32_t mo, std::uint32_t d, std::uint32_t h = 0, std::uint32_t mi = 0, std::uint32_t s = 0, subsecond_unit ns = {}) : time_point(date { y, mo, d }, time_of_day { h, mi, s, ns }) {}
    [[nodiscard]] offset_type seconds_since_epoch() const noexcept { return sec_; }
    [[nodiscard]] subsecond_unit subsecond() const noexcept { return sub_; }
    template<class R, class P> time_point& operator-=(std::chrono::duration<R, P> d) { return *this += -d; }
    template<class R, class P> time_point& operator+=(std::chrono::duration<R, P> d) {
        auto s = std::chrono::duration_cast<offset_type>(d);
        sec_ += s; sub_ += std::chrono::duration_cast<subsecond_unit>(d - s);
        while (sub_.count() < 0) { sub_ += std::chrono::seconds { 1 }; sec_ -= offset_type { 1 }; }
        while (sub_ >= std::chrono::seconds { 1 }) { sub_ -= std::chrono::seconds { 1 }; sec_ += offset_type { 1 }; }
        return *this;
    }
    friend bool operator==(time_point a, time_point b) noexcept { return a.sec_ == b.sec_ && a.sub_ == b.sub_; }
    friend bool operator!=(time_point a, time_point b) noexcept { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, time_point v) { return out << "time_point(" << v.sec_.count() << "," << v.sub_.count() << ")"; }
private:
    offset_type sec_ {};
    subsecond_unit sub_ {};
};
struct date_info { std::int32_t year {}; std::uint32_t month {}; std::uint32_t day {}; };
struct time_info { std::uint32_t hour {}; std::uint32_t minute {}; std::uint32_t second {}; std::chrono::nanoseconds subsecond {}; };
struct zone_offset_info { bool plus {}; std::uint32_t hour {}; std::uint32_t minute {}; };
struct datetime_info { date_info date {}; time_info time {}; std::optional<zone_offset_info> offset {}; };
template<class T> class conversion_result {
public:
    conversion_result(T v) : v_ { std::move(v) } {}
    conversion_result(std::string e) : e_ { std::move(e) } {}
    [[nodiscard]] bool is_success() const noexcept { return v_.has_value(); }
    [[nodiscard]] explicit operator bool() const noexcept { return is_success(); }
    [[nodiscard]] T const& value() const { return v_.value(); }
    [[nodiscard]] T const& operator*() const { return v_.value(); }
    [[nodiscard]] T const* operator->() const { return &v_.value(); }
    [[nodiscard]] std::string_view error() const { return e_; }
private:
    std::optional<T> v_ {};
    std::string e_ {};
};
namespace impl {
struct reader {
    std::string_view s; std::size_t i {};
    bool digits(std::size_t min, std::size_t max, std::uint64_t& v) { std::size_t n = 0; v = 0; while (i < s.size() && n < max && s[i] >= '0' && s[i] <= '9') { v = v * 10 + static_cast<unsigned>(s[i] - '0'); ++i; ++n; } return n >= min; }
    bool lit(char c) { if (i < s.size() && s[i] == c) { ++i; return true; } return false; }
    bool eof() const { return i == s.size(); }
    bool date(date_info& r) {
        bool neg = lit('-'); if (!neg) { (void) lit('+'); }
        std::uint64_t y {}, m {}, d {};
        if (!digits(1, 6, y) || !lit('-') || !digits(1, 2, m) || !lit('-') || !digits(1, 2, d)) { return false; }
        r = { static_cast<std::int32_t>(neg ? -static_cast<std::int64_t>(y) : static_cast<std::int64_t>(y)), static_cast<std::uint32_t>(m), static_cast<std::uint32_t>(d) };
        return valid_date(r.year, r.month, r.day);
    }
    bool time(time_info& r) {
        std::uint64_t h {}, m {}, sec {}, ns {};
        if (!digits(1, 2, h) || !lit(':') || !digits(1, 2, m) || !lit(':') || !digits(1, 2, sec)) { return false; }
        if (lit('.')) { auto b = i; if (!digits(1, 9, ns)) { return false; } for (auto n = i - b; n < 9; ++n) { ns *= 10; } }
        r = { static_cast<std::uint32_t>(h), static_cast<std::uint32_t>(m), static_cast<std::uint32_t>(sec), std::chrono::nanoseconds { ns } };
        return h < 24 && m < 60 && sec < 60;
    }
};
}
inline conversion_result<date_info> parse_date(std::string_view s) { impl::reader r { s }; date_info v {}; if (r.date(v) && r.eof()) { return v; } return std::string { "invalid date" }; }
inline conversion_result<time_info> parse_time(std::string_view s) { impl::reader r { s }; time_info v {}; if (r.time(v) && r.eof()) { return v; } return std::string { "invalid time" }; }
inline conversion_result<datetime_info> parse_datetime(std::string_view s) {
    impl::reader r { s }; datetime_info v {};
    if (!r.date(v.date)) { return std::string { "invalid date" }; }
    if (!r.lit(' ') && !r.lit('T')) { return std::string { "invalid separator" }; }
    if (!r.time(v.time)) { return std::string { "invalid time" }; }
    if (r.eof()) { return v; }
    if (r.lit('Z')) { v.offset = zone_offset_info { true, 0, 0 }; }
    else {
        zone_offset_info z {}; if (r.lit('+')) { z.plus = true; } else if (!r.lit('-')) { return std::string { "invalid offset" }; }
        std::uint64_t h {}, m {};
        if (!r.digits(1, 2, h)) { return std::string { "invalid offset" }; }
        if (r.lit(':') && !r.digits(1, 2, m)) { return std::string { "invalid offset" }; }
        z.hour = static_cast<std::uint32_t>(h); z.minute = static_cast<std::uint32_t>(m);
        v.offset = z;
    }
    if (!r.eof()) { return std::string { "garbage" }; }
    return v;
}
} // namespace takatori::datetime
