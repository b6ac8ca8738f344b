#pragma once
#include <takatori/util/clonable.h>
#include <takatori/util/downcast.h>
#include <takatori/util/hash.h>
#include <takatori/util/prelude_.h>
namespace takatori::type {

enum class type_kind {
    boolean, int1, int2, int4, int8, float4, float8, decimal, character, octet, bit, date, time_of_day, time_point,
    datetime_interval, blob, clob, array, record, table, unknown, row_reference, row_id, declared, extension,
};
inline constexpr char const* to_string_view_(type_kind k) noexcept {
    switch (k) {
        case type_kind::boolean: return "boolean"; case type_kind::int1: return "int1"; case type_kind::int2: return "int2";
        case type_kind::int4: return "int4"; case type_kind::int8: return "int8"; case type_kind::float4: return "float4";
        case type_kind::float8: return "float8"; case type_kind::decimal: return "decimal"; case type_kind::character: return "character";
        case type_kind::octet: return "octet"; case type_kind::bit: return "bit"; case type_kind::date: return "date";
        case type_kind::time_of_day: return "time_of_day"; case type_kind::time_point: return "time_point";
        case type_kind::datetime_interval: return "datetime_interval"; case type_kind::blob: return "blob"; case type_kind::clob: return "clob";
        case type_kind::array: return "array"; case type_kind::record: return "record"; case type_kind::table: return "table";
        case type_kind::unknown: return "unknown"; case type_kind::row_reference: return "row_reference"; case type_kind::row_id: return "row_id";
        case type_kind::declared: return "declared"; case type_kind::extension: return "extension";
    }
    return "?";
}
inline constexpr std::string_view to_string_view(type_kind k) noexcept { return to_string_view_(k); }
inline std::ostream& operator<<(std::ostream& out, type_kind k) { return out << to_string_view_(k); }

class data {
public:
    constexpr data() noexcept = default;
    virtual ~data() = default;
    data(data const&) = default;
    data& operator=(data const&) = default;
    [[nodiscard]] virtual type_kind kind() const noexcept = 0;
    [[nodiscard]] virtual data* clone() const& = 0;
    [[nodiscard]] virtual data* clone() && = 0;
    friend bool operator==(data const& a, data const& b) noexcept { return a.equals(b); }
    friend bool operator!=(data const& a, data const& b) noexcept { return !a.equals(b); }
    friend std::ostream& operator<<(std::ostream& out, data const& v) { return v.print_to(out); }
    [[nodiscard]] virtual std::size_t hash() const noexcept { return static_cast<std::size_t>(kind()); }
protected:
    [[nodiscard]] virtual bool equals(data const& o) const noexcept = 0;
    virtual std::ostream& print_to(std::ostream& out) const = 0;
};

template<class D, type_kind K> class data_base : public data {
public:
    static constexpr type_kind tag = K;
    [[nodiscard]] type_kind kind() const noexcept override { return K; }
    [[nodiscard]] data* clone() const& override { return new D(static_cast<D const&>(*this)); }
    [[nodiscard]] data* clone() && override { return new D(std::move(static_cast<D&>(*this))); }
protected:
    [[nodiscard]] bool equals(data const& o) const noexcept override { return o.kind() == K && static_cast<D const&>(*this).same(static_cast<D const&>(o)); }
    std::ostream& print_to(std::ostream& out) const override { out << to_string_view_(K); static_cast<D const&>(*this).print_params(out); return out; }
};

template<type_kind K> class simple_type final : public data_base<simple_type<K>, K> {
public:
    [[nodiscard]] bool same(simple_type const&) const noexcept { return true; }
    void print_params(std::ostream&) const {}
};
using boolean = simple_type<type_kind::boolean>;
using int1 = simple_type<type_kind::int1>;
using int2 = simple_type<type_kind::int2>;
using int4 = simple_type<type_kind::int4>;
using int8 = simple_type<type_kind::int8>;
using float4 = simple_type<type_kind::float4>;
using float8 = simple_type<type_kind::float8>;
using date = simple_type<type_kind::date>;
using unknown = simple_type<type_kind::unknown>;
using row_reference = simple_type<type_kind::row_reference>;
using row_id = simple_type<type_kind::row_id>;
using datetime_interval = simple_type<type_kind::datetime_interval>;
using blob = simple_type<type_kind::blob>;
using clob = simple_type<type_kind::clob>;

struct varying_t {
    constexpr explicit varying_t(bool v) noexcept : enabled { v } {}
    constexpr varying_t operator~() const noexcept { return varying_t { !enabled }; }
    constexpr explicit operator bool() const noexcept { return enabled; }
    bool enabled;
};
inline constexpr varying_t varying { true };
struct with_time_zone_t {
    constexpr explicit with_time_zone_t(bool v) noexcept : enabled { v } {}
    constexpr with_time_zone_t operator~() const noexcept { return with_time_zone_t { !enabled }; }
    constexpr explicit operator bool() const noexcept { return enabled; }
    bool enabled;
};
inline constexpr with_time_zone_t with_time_zone { true };

class decimal final : public data_base<decimal, type_kind::decimal> {
public:
    using size_type = std::size_t;
    static constexpr size_type default_scale = 0;
    explicit decimal(std::optional<size_type> precision, std::optional<size_type> scale = default_scale) : p_ { precision }, s_ { scale } {}
    decimal() = default;
    [[nodiscard]] std::optional<size_type> precision() const noexcept { return p_; }
    [[nodiscard]] std::optional<size_type> scale() const noexcept { return s_; }
    [[nodiscard]] bool same(decimal const& o) const noexcept { return p_ == o.p_ && s_ == o.s_; }
    void print_params(std::ostream& out) const { out << "("; if (p_) { out << *p_; } else { out << "*"; } out << ","; if (s_) { out << *s_; } else { out << "*"; } out << ")"; }
private:
    std::optional<size_type> p_ {}, s_ {};
};

namespace impl {
template<class D, type_kind K> class varying_type : public data_base<D, K> {
public:
    using size_type = std::size_t;
    explicit varying_type(size_type length) : v_ { false }, n_ { length } {}
    explicit varying_type(varying_t v, std::optional<size_type> length = {}) : v_ { v.enabled }, n_ { length } {}
    [[nodiscard]] bool varying() const noexcept { return v_; }
    [[nodiscard]] std::optional<size_type> length() const noexcept { return n_; }
    [[nodiscard]] bool same(D const& o) const noexcept { return v_ == o.varying() && n_ == o.length(); }
    void print_params(std::ostream& out) const { if (v_) { out << " varying"; } out << "("; if (n_) { out << *n_; } else { out << "*"; } out << ")"; }
private:
    bool v_;
    std::optional<size_type> n_;
};
template<class D, type_kind K> class tz_type : public data_base<D, K> {
public:
    tz_type() noexcept = default;
    explicit tz_type(with_time_zone_t v) noexcept : tz_ { v.enabled } {}
    [[nodiscard]] bool with_time_zone() const noexcept { return tz_; }
    [[nodiscard]] bool same(D const& o) const noexcept { return tz_ == o.with_time_zone(); }
    void print_params(std::ostream& out) const { if (tz_) { out << " with time zone"; } }
private:
    bool tz_ {};
};
} // namespace impl
class character final : public impl::varying_type<character, type_kind::character> { public: using varying_type::varying_type; };
class octet final : public impl::varying_type<octet, type_kind::octet> { public: using varying_type::varying_type; };
class bit final : public impl::varying_type<bit, type_kind::bit> { public: using varying_type::varying_type; };
class time_of_day final : public impl::tz_type<time_of_day, type_kind::time_of_day> { public: using tz_type::tz_type; };
class time_point final : public impl::tz_type<time_point, type_kind::time_point> { public: using tz_type::tz_type; };

class table final : public data_base<table, type_kind::table> {
public:
    class column_type {
    public:
        column_type(std::string name, std::shared_ptr<data const> type) : name_ { std::move(name) }, type_ { std::move(type) } {}
        column_type(std::string_view name, data&& type) : name_ { name }, type_ { util::clone_shared(std::move(type)) } {}
        [[nodiscard]] std::string_view name() const noexcept { return name_; }
        [[nodiscard]] data const& type() const noexcept { return *type_; }
        [[nodiscard]] std::shared_ptr<data const> const& shared_type() const noexcept { return type_; }
        friend bool operator==(column_type const& a, column_type const& b) noexcept { return a.name_ == b.name_ && *a.type_ == *b.type_; }
        friend bool operator!=(column_type const& a, column_type const& b) noexcept { return !(a == b); }
        friend std::ostream& operator<<(std::ostream& out, column_type const& v) { return out << v.name_ << ":" << *v.type_; }
    private:
        std::string name_;
        std::shared_ptr<data const> type_;
    };
    table(std::initializer_list<column_type> v) : v_ { v } {}
    explicit table(std::vector<column_type> v) : v_ { std::move(v) } {}
    [[nodiscard]] std::vector<column_type> const& columns() const noexcept { return v_; }
    [[nodiscard]] bool same(table const& o) const noexcept { return v_ == o.v_; }
    void print_params(std::ostream& out) const { out << "("; for (auto& c : v_) { out << c << ","; } out << ")"; }
private:
    std::vector<column_type> v_;
};
using column_type = table::column_type;
} // namespace takatori::type
template<> struct std::hash<takatori::type::data> { std::size_t operator()(takatori::type::data const& d) const noexcept { return d.hash(); } };
