#pragma once
#include <yugawara/impl_/schema.h>
namespace yugawara::type {
using takatori::type::data;
using takatori::type::type_kind;
using ptr = std::shared_ptr<data const>;
enum class family { boolean, number, character, octet, temporal, other, unknown };
inline family family_of(data const& t) {
    switch (t.kind()) {
        case type_kind::boolean: return family::boolean;
        case type_kind::int1: case type_kind::int2: case type_kind::int4: case type_kind::int8: case type_kind::float4: case type_kind::float8: case type_kind::decimal: return family::number;
        case type_kind::character: return family::character;
        case type_kind::octet: return family::octet;
        case type_kind::date: case type_kind::time_of_day: case type_kind::time_point: case type_kind::datetime_interval: return family::temporal;
        case type_kind::unknown: return family::unknown;
        default: return family::other;
    }
}
inline int rank_of(type_kind k) {
    switch (k) { case type_kind::int1: return 1; case type_kind::int2: return 2; case type_kind::int4: return 3; case type_kind::int8: return 4; case type_kind::decimal: return 5; case type_kind::float4: return 6; case type_kind::float8: return 7; default: return 0; }
}
/// int1 and int2 are promoted to int4, float4 to float8.
inline ptr unary_promotion(ptr t) {
    switch (t->kind()) { case type_kind::int1: case type_kind::int2: return std::make_shared<takatori::type::int4>(); case type_kind::float4: return std::make_shared<takatori::type::float8>(); case type_kind::decimal: return t; default: return t; }
}
inline ptr binary_promotion(ptr a, ptr b) {
    if (a->kind() == type_kind::unknown) { return b; }
    if (b->kind() == type_kind::unknown) { return a; }
    if (family_of(*a) != family::number || family_of(*b) != family::number) { return {}; }
    auto ra = rank_of(a->kind());
    auto rb = rank_of(b->kind());
    if (ra >= 6 || rb >= 6) { return std::make_shared<takatori::type::float8>(); }
    if (ra == 5 && rb == 5) {
        auto& x = static_cast<takatori::type::decimal const&>(*a);
        auto& y = static_cast<takatori::type::decimal const&>(*b);
        if (x == y) { return a; }
        auto scale = x.scale() && y.scale() ? std::optional<std::size_t> { std::max(*x.scale(), *y.scale()) } : std::nullopt;
        return std::make_shared<takatori::type::decimal>(std::nullopt, scale);
    }
    if (ra == 5 || rb == 5) { return std::make_shared<takatori::type::decimal>(std::nullopt, (ra == 5 ? static_cast<takatori::type::decimal const&>(*a) : static_cast<takatori::type::decimal const&>(*b)).scale()); }
    return unary_promotion(ra >= rb ? a : b);
}
/// the type which can hold values of both types, or empty.
inline ptr unify(ptr a, ptr b) {
    if (a->kind() == type_kind::unknown) { return b; }
    if (b->kind() == type_kind::unknown) { return a; }
    if (*a == *b) { return a; }
    auto f = family_of(*a);
    if (f != family_of(*b)) {
        if (a->kind() == type_kind::date && b->kind() == type_kind::time_point) { return b; }
        return {};
    }
    auto longer = [](auto const& x, auto const& y) { return x.length() && y.length() ? std::optional<std::size_t> { std::max(*x.length(), *y.length()) } : std::nullopt; };
    switch (f) {
        case family::number: return binary_promotion(a, b);
        case family::character: { auto& x = static_cast<takatori::type::character const&>(*a); auto& y = static_cast<takatori::type::character const&>(*b); return std::make_shared<takatori::type::character>(takatori::type::varying, longer(x, y)); }
        case family::octet: { auto& x = static_cast<takatori::type::octet const&>(*a); auto& y = static_cast<takatori::type::octet const&>(*b); return std::make_shared<takatori::type::octet>(takatori::type::varying, longer(x, y)); }
        default: return {};
    }
}
inline util::ternary is_parameter_application_convertible(data const& a, data const& p) {
    if (a.kind() == type_kind::unknown || a == p) { return util::ternary::yes; }
    auto f = family_of(a);
    if (f != family_of(p)) { return util::ternary::no; }
    switch (f) {
        case family::number: return util::ternary_of(rank_of(a.kind()) <= rank_of(p.kind()));
        case family::character: case family::octet: case family::boolean: return util::ternary::yes;
        default: return util::ternary::no;
    }
}
inline util::ternary is_assignment_convertible(data const& a, data const& p) {
    if (a.kind() == type_kind::unknown || a == p) { return util::ternary::yes; }
    return util::ternary_of(family_of(a) == family_of(p) || (a.kind() == type_kind::date && p.kind() == type_kind::time_point));
}
} // namespace yugawara::type
