#pragma once
#include <takatori/decimal/triple.h>
#include <takatori/impl_/datetime.h>
#include <takatori/util/clonable.h>
#include <takatori/util/downcast.h>
namespace takatori::value {
enum class value_kind { boolean, int4, int8, float4, float8, decimal, character, octet, bit, date, time_of_day, time_point, datetime_interval, array, record, unknown, extension };
inline constexpr std::string_view to_string_view(value_kind k) noexcept {
    switch (k) {
        case value_kind::boolean: return "boolean"; case value_kind::int4: return "int4"; case value_kind::int8: return "int8"; case value_kind::float4: return "float4";
        case value_kind::float8: return "float8"; case value_kind::decimal: return "decimal"; case value_kind::character: return "character"; case value_kind::octet: return "octet";
        case value_kind::bit: return "bit"; case value_kind::date: return "date"; case value_kind::time_of_day: return "time_of_day"; case value_kind::time_point: return "time_point";
        case value_kind::datetime_interval: return "datetime_interval"; case value_kind::array: return "array"; case value_kind::record: return "record"; case value_kind::unknown: return "unknown";
        case value_kind::extension: return "extension";
    }
    return "?";
}
inline std::ostream& operator<<(std::ostream& out, value_kind k) { return out << to_string_view(k); }
class data {
public:
    constexpr data() noexcept = default;
    virtual ~data() = default;
    data(data const&) = default;
    data& operator=(data const&) = default;
    [[nodiscard]] virtual value_kind kind() const noexcept = 0;
    [[nodiscard]] virtual data* clone() const& = 0;
    [[nodiscard]] virtual data* clone() && = 0;
    [[nodiscard]] virtual std::size_t hash() const noexcept { return static_cast<std::size_t>(kind()); }
    friend bool operator==(data const& a, data const& b) noexcept { return a.equals(b); }
    friend bool operator!=(data const& a, data const& b) noexcept { return !a.equals(b); }
    friend std::ostream& operator<<(std::ostream& out, data const& v) { return v.print_to(out); }
protected:
    [[nodiscard]] virtual bool equals(data const& o) const noexcept = 0;
    virtual std::ostream& print_to(std::ostream& out) const = 0;
};
namespace impl { template<class E> struct view_of { using type = E; }; template<> struct view_of<std::string> { using type = std::string_view; }; }
template<value_kind K, class E> class simple_value : public data {
public:
    using entity_type = E;
    using view_type = typename impl::view_of<E>::type;
    static constexpr value_kind tag = K;
    simple_value() = default;
    explicit simple_value(E v) : v_ { std::move(v) } {}
    template<class... A, class = std::enable_if_t<(sizeof...(A) >= 1) && std::is_constructible_v<E, A...>
            && !(sizeof...(A) == 1 && (std::is_same_v<std::decay_t<A>, simple_value> || ...))>>
    explicit simple_value(A&&... a) : v_ ( std::forward<A>(a)... ) {}
    [[nodiscard]] value_kind kind() const noexcept override { return K; }
    [[nodiscard]] view_type get() const noexcept { return v_; }
    [[nodiscard]] simple_value* clone() const& override { return new simple_value(*this); }
    [[nodiscard]] simple_value* clone() && override { return new simple_value(std::move(*this)); }
    friend bool operator==(simple_value const& a, simple_value const& b) noexcept { return a.v_ == b.v_; }
    friend bool operator!=(simple_value const& a, simple_value const& b) noexcept { return !(a.v_ == b.v_); }
protected:
    [[nodiscard]] bool equals(data const& o) const noexcept override { return o.kind() == K && v_ == static_cast<simple_value const&>(o).v_; }
    std::ostream& print_to(std::ostream& out) const override { return out << K << "(" << v_ << ")"; }
private:
    E v_ {};
};
enum class unknown_kind { null, unset };
inline std::ostream& operator<<(std::ostream& out, unknown_kind k) { return out << (k == unknown_kind::null ? "null" : "unset"); }
using boolean = simple_value<value_kind::boolean, bool>;
using int4 = simple_value<value_kind::int4, std::int32_t>;
using int8 = simple_value<value_kind::int8, std::int64_t>;
using float4 = simple_value<value_kind::float4, float>;
using float8 = simple_value<value_kind::float8, double>;
using unknown = simple_value<value_kind::unknown, unknown_kind>;
using character = simple_value<value_kind::character, std::string>;
using octet = simple_value<value_kind::octet, std::string>;
using date = simple_value<value_kind::date, datetime::date>;
using time_of_day = simple_value<value_kind::time_of_day, datetime::time_of_day>;
using time_point = simple_value<value_kind::time_point, datetime::time_point>;
class decimal : public simple_value<value_kind::decimal, ::takatori::decimal::triple> {
public:
    using simple_value::simple_value;
    explicit decimal(std::string_view s) : simple_value(::takatori::decimal::triple { ::decimal::Decimal { s } }) {}
    explicit decimal(char const* s) : decimal(std::string_view { s }) {}
    [[nodiscard]] decimal* clone() const& override { return new decimal(*this); }
    [[nodiscard]] decimal* clone() && override { return new decimal(std::move(*this)); }
};
inline ::takatori::datetime::conversion_result<std::size_t> parse_octet(std::string_view s, std::string& destination) {
    auto hex = [](char c) -> int { if (c >= '0' && c <= '9') { return c - '0'; } if (c >= 'a' && c <= 'f') { return c - 'a' + 10; } if (c >= 'A' && c <= 'F') { return c - 'A' + 10; } return -1; };
    int pending = -1;
    std::size_t n = 0;
    for (char c : s) {
        if (c == ' ') { continue; }
        int d = hex(c);
        if (d < 0) { return std::string { "invalid character" }; }
        if (pending < 0) { pending = d; } else { destination.push_back(static_cast<char>(pending * 16 + d)); pending = -1; ++n; }
    }
    if (pending >= 0) { return std::string { "odd digits" }; }
    return n;
}
} // namespace takatori::value
template<> struct std::hash<takatori::value::data> { std::size_t operator()(takatori::value::data const& d) const noexcept { return d.hash(); } };
