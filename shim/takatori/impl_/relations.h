#pragma once
#include <takatori/impl_/scalars.h>
#include <takatori/util/sequence_view.h>
namespace takatori::relation {
using util::owned;
using util::optional_ptr;
using util::sequence_view;
using util::ownership_reference;

enum class expression_kind { find, scan, values, join_find, join_scan, apply, project, filter, buffer, identify, emit, write,
    intermediate_join, intermediate_aggregate, intermediate_distinct, intermediate_limit, intermediate_union, intermediate_intersection, intermediate_difference, intermediate_escape, intermediate_extension };
inline constexpr std::string_view to_string_view(expression_kind v) noexcept {
    constexpr std::string_view n[] { "find", "scan", "values", "join_find", "join_scan", "apply", "project", "filter", "buffer", "identify", "emit", "write",
        "join", "aggregate", "distinct", "limit", "union", "intersection", "difference", "escape", "extension" };
    return n[static_cast<std::size_t>(v)];
}
inline std::ostream& operator<<(std::ostream& out, expression_kind v) { return out << to_string_view(v); }
#define TSHIM_ENUM(E, ...) \
enum class E { __VA_ARGS__ }; \
inline std::ostream& operator<<(std::ostream& out, E v) { return out << #E "#" << static_cast<int>(v); }
enum class sort_direction { ascendant, descendant };
inline constexpr std::string_view to_string_view(sort_direction v) noexcept { return v == sort_direction::ascendant ? "ascendant" : "descendant"; }
inline std::ostream& operator<<(std::ostream& out, sort_direction v) { return out << to_string_view(v); }
inline constexpr sort_direction operator~(sort_direction v) noexcept { return v == sort_direction::ascendant ? sort_direction::descendant : sort_direction::ascendant; }
enum class set_quantifier { all, distinct };
inline constexpr std::string_view to_string_view(set_quantifier v) noexcept { return v == set_quantifier::all ? "all" : "distinct"; }
inline std::ostream& operator<<(std::ostream& out, set_quantifier v) { return out << to_string_view(v); }
enum class join_kind { inner, left_outer, left_outer_at_most_one, full_outer, semi, anti };
inline constexpr std::string_view to_string_view(join_kind v) noexcept {
    constexpr std::string_view n[] { "inner", "left_outer", "left_outer_at_most_one", "full_outer", "semi", "anti" };
    return n[static_cast<std::size_t>(v)];
}
inline std::ostream& operator<<(std::ostream& out, join_kind v) { return out << to_string_view(v); }
enum class apply_kind { cross, outer };
inline constexpr std::string_view to_string_view(apply_kind v) noexcept { return v == apply_kind::cross ? "cross" : "outer"; }
inline std::ostream& operator<<(std::ostream& out, apply_kind v) { return out << to_string_view(v); }
enum class write_kind { insert, insert_skip, insert_overwrite, update, delete_ };
inline constexpr std::string_view to_string_view(write_kind v) noexcept {
    constexpr std::string_view n[] { "insert", "insert_skip", "insert_overwrite", "update", "delete" };
    return n[static_cast<std::size_t>(v)];
}
inline std::ostream& operator<<(std::ostream& out, write_kind v) { return out << to_string_view(v); }
enum class endpoint_kind { unbound, inclusive, exclusive, prefixed_inclusive, prefixed_exclusive };
inline std::ostream& operator<<(std::ostream& out, endpoint_kind v) { return out << static_cast<int>(v); }

class expression;
class input_port;
class output_port {
public:
    using opposite_type = input_port;
    output_port(expression& owner, std::size_t index) : owner_ { &owner }, index_ { index } {}
    output_port(output_port const&) = delete;
    output_port& operator=(output_port const&) = delete;
    ~output_port() { disconnect_all(); }
    [[nodiscard]] expression& owner() noexcept { return *owner_; }
    [[nodiscard]] expression const& owner() const noexcept { return *owner_; }
    [[nodiscard]] std::size_t index() const noexcept { return index_; }
    [[nodiscard]] optional_ptr<input_port> opposite() noexcept { return optional_ptr<input_port> { o_ }; }
    [[nodiscard]] optional_ptr<input_port const> opposite() const noexcept { return optional_ptr<input_port const> { o_ }; }
    [[nodiscard]] bool is_connected() const noexcept { return o_ != nullptr; }
    inline void connect_to(input_port& o);
    inline void disconnect_from(input_port& o);
    inline void disconnect_all();
    friend bool operator==(output_port const& a, output_port const& b) noexcept { return &a == &b; }
    friend bool operator!=(output_port const& a, output_port const& b) noexcept { return &a != &b; }
private:
    friend class input_port;
    expression* owner_;
    std::size_t index_;
    input_port* o_ {};
};
class input_port {
public:
    using opposite_type = output_port;
    input_port(expression& owner, std::size_t index) : owner_ { &owner }, index_ { index } {}
    input_port(input_port const&) = delete;
    input_port& operator=(input_port const&) = delete;
    ~input_port() { disconnect_all(); }
    [[nodiscard]] expression& owner() noexcept { return *owner_; }
    [[nodiscard]] expression const& owner() const noexcept { return *owner_; }
    [[nodiscard]] std::size_t index() const noexcept { return index_; }
    [[nodiscard]] optional_ptr<output_port> opposite() noexcept { return optional_ptr<output_port> { o_ }; }
    [[nodiscard]] optional_ptr<output_port const> opposite() const noexcept { return optional_ptr<output_port const> { o_ }; }
    [[nodiscard]] bool is_connected() const noexcept { return o_ != nullptr; }
    void connect_to(output_port& o) { o.connect_to(*this); }
    void disconnect_from(output_port& o) { o.disconnect_from(*this); }
    void disconnect_all() { if (o_) { o_->disconnect_from(*this); } }
    friend bool operator==(input_port const& a, input_port const& b) noexcept { return &a == &b; }
    friend bool operator!=(input_port const& a, input_port const& b) noexcept { return &a != &b; }
private:
    friend class output_port;
    expression* owner_;
    std::size_t index_;
    output_port* o_ {};
};
// a port accepts at most one opposite: connecting a connected port is an error
inline void output_port::connect_to(input_port& o) {
    if (o_ == &o) { return; }
    if (o_ != nullptr || o.o_ != nullptr) { util::throw_exception(std::domain_error("port is already connected")); }
    o_ = &o; o.o_ = this;
}
inline void output_port::disconnect_from(input_port& o) { if (o_ == &o) { o_ = nullptr; o.o_ = nullptr; } }
inline void output_port::disconnect_all() { if (o_) { disconnect_from(*o_); } }
inline output_port& operator>>(output_port& a, input_port& b) { a.connect_to(b); return a; }
inline input_port& operator<<(input_port& a, output_port& b) { b.connect_to(a); return a; }

template<class P> class port_list_view {
public:
    port_list_view(std::vector<P*> v) : v_ { std::move(v) } {}
    [[nodiscard]] std::size_t size() const noexcept { return v_.size(); }
    [[nodiscard]] bool empty() const noexcept { return v_.empty(); }
    [[nodiscard]] P& operator[](std::size_t i) const { return *v_.at(i); }
    [[nodiscard]] P& at(std::size_t i) const { return *v_.at(i); }
    [[nodiscard]] P& front() const { return *v_.at(0); }
    [[nodiscard]] P& back() const { return *v_.at(v_.size() - 1); }
    struct iterator { using value_type = P; using reference = P&; using pointer = P*; using difference_type = std::ptrdiff_t; using iterator_category = std::forward_iterator_tag;
        P* const* p; P& operator*() const { return **p; } P* operator->() const { return *p; } iterator& operator++() { ++p; return *this; } bool operator!=(iterator const& o) const { return p != o.p; } bool operator==(iterator const& o) const { return p == o.p; } };
    [[nodiscard]] iterator begin() const { return { v_.data() }; }
    [[nodiscard]] iterator end() const { return { v_.data() + v_.size() }; }
private:
    std::vector<P*> v_;
};

class graph;
class expression {
public:
    using input_port_type = input_port;
    using output_port_type = output_port;
    using graph_type = graph;
    expression() = default;
    virtual ~expression() = default;
    expression(expression const&) = delete;
    expression& operator=(expression const&) = delete;
    [[nodiscard]] virtual expression_kind kind() const noexcept = 0;
    [[nodiscard]] document::region& region() noexcept { return region_; }
    [[nodiscard]] document::region const& region() const noexcept { return region_; }
    [[nodiscard]] port_list_view<input_port> input_ports() { return { inputs_() }; }
    [[nodiscard]] port_list_view<input_port const> input_ports() const { auto v = const_cast<expression*>(this)->inputs_(); return { std::vector<input_port const*>(v.begin(), v.end()) }; }
    [[nodiscard]] port_list_view<output_port> output_ports() { return { outputs_() }; }
    [[nodiscard]] port_list_view<output_port const> output_ports() const { auto v = const_cast<expression*>(this)->outputs_(); return { std::vector<output_port const*>(v.begin(), v.end()) }; }
    /// copies this node without its connections.
    [[nodiscard]] virtual expression* clone() const& = 0;
    [[nodiscard]] virtual expression* clone() && = 0;
    friend bool operator==(expression const& a, expression const& b) noexcept { return &a == &b || (a.kind() == b.kind() && a.text_() == b.text_()); }
    friend bool operator!=(expression const& a, expression const& b) noexcept { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, expression const& v) { return v.print_to(out); }
protected:
    virtual std::vector<input_port*> inputs_() { return {}; }
    virtual std::vector<output_port*> outputs_() { return {}; }
    virtual std::ostream& print_to(std::ostream& out) const = 0;
private:
    document::region region_ {};
    [[nodiscard]] std::string text_() const { std::ostringstream s; print_to(s); return s.str(); }
};

class graph {
    using P = std::unique_ptr<expression>;
public:
    using value_type = expression;
    using pointer = std::unique_ptr<expression>;
    using iterator = util::deref_iterator<expression, P>;
    using const_iterator = util::deref_iterator<expression const, P>;
    graph() = default;
    graph(graph&&) noexcept = default;
    graph& operator=(graph&& o) noexcept { v_.clear(); v_ = std::move(o.v_); o.v_.clear(); return *this; }
    template<class T> T& insert(std::unique_ptr<T> p) { auto& r = *p; v_.emplace_back(std::move(p)); return r; }
    template<class T> std::decay_t<T>& insert(T&& n, std::enable_if_t<std::is_base_of_v<expression, std::decay_t<T>>>* = nullptr) { return insert(util::clone_unique(std::forward<T>(n))); }
    template<class T, class... A> T& emplace(A&&... a) { return insert(std::make_unique<T>(std::forward<A>(a)...)); }
    [[nodiscard]] bool contains(expression const& e) const { return std::any_of(v_.begin(), v_.end(), [&](auto& p) { return p.get() == &e; }); }
    [[nodiscard]] std::size_t size() const noexcept { return v_.size(); }
    [[nodiscard]] bool empty() const noexcept { return v_.empty(); }
    void clear() { v_.clear(); }
    void reserve(std::size_t n) { v_.reserve(n); }
    [[nodiscard]] P release(expression const& e) { for (auto it = v_.begin(); it != v_.end(); ++it) { if (it->get() == &e) { auto p = std::move(*it); v_.erase(it); return p; } } return {}; }
    bool erase(expression const& e) { return static_cast<bool>(release(e)); }
    [[nodiscard]] iterator begin() noexcept { return iterator { v_.data() }; }
    [[nodiscard]] iterator end() noexcept { return iterator { v_.data() + v_.size() }; }
    [[nodiscard]] const_iterator begin() const noexcept { return const_iterator { v_.data() }; }
    [[nodiscard]] const_iterator end() const noexcept { return const_iterator { v_.data() + v_.size() }; }
    [[nodiscard]] const_iterator cbegin() const noexcept { return begin(); }
    [[nodiscard]] const_iterator cend() const noexcept { return end(); }
    void merge(graph&& from) { for (auto& p : from.v_) { v_.emplace_back(std::move(p)); } from.v_.clear(); }
    friend std::ostream& operator<<(std::ostream& out, graph const& g) { out << "{"; for (auto&& e : g) { out << e << ";"; } return out << "}"; }
private:
    std::vector<P> v_ {};
};
using graph_type = graph;
/// appends a copy of all the nodes with their mutual connections.
inline void merge_into(graph const& from, graph& to) {
    std::unordered_map<expression const*, expression*> map {};
    for (auto&& e : from) { auto* c = e.clone(); c->region() = e.region(); map[&e] = &to.insert(std::unique_ptr<expression> { c }); }
    for (auto&& e : from) {
        for (std::size_t i = 0, n = e.output_ports().size(); i < n; ++i) {
            if (auto o = e.output_ports()[i].opposite()) {
                if (auto it = map.find(&o->owner()); it != map.end()) { map[&e]->output_ports()[i].connect_to(it->second->input_ports()[o->index()]); }
            }
        }
    }
}
inline void merge_into(graph&& from, graph& to) { to.merge(std::move(from)); }

namespace details {
using scalar::details::print_seq;
/// (source, destination) or (destination, source) pair of variables.
class mapping_element {
public:
    mapping_element(descriptor::variable source, descriptor::variable destination) : s_ { std::move(source) }, d_ { std::move(destination) } {}
    [[nodiscard]] descriptor::variable& source() { return s_; }
    [[nodiscard]] descriptor::variable const& source() const { return s_; }
    [[nodiscard]] descriptor::variable& destination() { return d_; }
    [[nodiscard]] descriptor::variable const& destination() const { return d_; }
    friend bool operator==(mapping_element const& a, mapping_element const& b) { return a.s_ == b.s_ && a.d_ == b.d_; }
    friend bool operator!=(mapping_element const& a, mapping_element const& b) { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, mapping_element const& v) { return out << v.s_ << "->" << v.d_; }
private:
    descriptor::variable s_, d_;
};
class search_key_element {
public:
    search_key_element(descriptor::variable v, owned<scalar::expression> e) : v_ { std::move(v) }, value_ { std::move(e.p) } {}
    search_key_element(search_key_element&&) noexcept = default;
    search_key_element(search_key_element const& o) : v_ { o.v_ }, value_ { util::clone_or_null(o.value_) } {}
    search_key_element& operator=(search_key_element&&) noexcept = default;
    [[nodiscard]] descriptor::variable& variable() { return v_; }
    [[nodiscard]] descriptor::variable const& variable() const { return v_; }
    [[nodiscard]] scalar::expression& value() { return *value_; }
    [[nodiscard]] scalar::expression const& value() const { return *value_; }
    friend bool operator==(search_key_element const& a, search_key_element const& b) { return a.v_ == b.v_ && *a.value_ == *b.value_; }
    friend bool operator!=(search_key_element const& a, search_key_element const& b) { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, search_key_element const& v) { return out << v.v_ << "=" << *v.value_; }
private:
    descriptor::variable v_;
    std::unique_ptr<scalar::expression> value_;
};
class range_endpoint {
public:
    using key = search_key_element;
    using kind_type = endpoint_kind;
    range_endpoint() = default;
    range_endpoint(kind_type k, std::vector<key> keys) : k_ { k }, keys_ { std::move(keys) } {}
    [[nodiscard]] kind_type kind() const noexcept { return k_; }
    [[nodiscard]] std::vector<key>& keys() noexcept { return keys_; }
    [[nodiscard]] std::vector<key> const& keys() const noexcept { return keys_; }
    [[nodiscard]] explicit operator bool() const noexcept { return k_ != kind_type::unbound; }
    friend bool operator==(range_endpoint const& a, range_endpoint const& b) { return a.k_ == b.k_ && a.keys_ == b.keys_; }
    friend bool operator!=(range_endpoint const& a, range_endpoint const& b) { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, range_endpoint const& v) { out << v.k_; return print_seq(out, v.keys_); }
private:
    kind_type k_ { endpoint_kind::unbound };
    std::vector<key> keys_ {};
};
} // namespace details

#define TSHIM_REL(D, K) \
    static constexpr expression_kind tag = expression_kind::K; \
    [[nodiscard]] expression_kind kind() const noexcept override { return tag; } \
    [[nodiscard]] D* clone() const& override { auto* r = copy_(); r->region() = region(); return r; } \
    [[nodiscard]] D* clone() && override { auto* r = copy_(); r->region() = region(); return r; }
#define TSHIM_OUT \
    [[nodiscard]] output_port& output() noexcept { return output_; } \
    [[nodiscard]] output_port const& output() const noexcept { return output_; } \
    std::vector<output_port*> outputs_() override { return { &output_ }; }
#define TSHIM_IN \
    [[nodiscard]] input_port& input() noexcept { return input_; } \
    [[nodiscard]] input_port const& input() const noexcept { return input_; } \
    std::vector<input_port*> inputs_() override { return { &input_ }; }
#define TSHIM_IN2 \
    [[nodiscard]] input_port& left() noexcept { return left_; } \
    [[nodiscard]] input_port const& left() const noexcept { return left_; } \
    [[nodiscard]] input_port& right() noexcept { return right_; } \
    [[nodiscard]] input_port const& right() const noexcept { return right_; } \
    std::vector<input_port*> inputs_() override { return { &left_, &right_ }; }
#define TSHIM_ACC(T, name) \
    [[nodiscard]] T& name() noexcept { return name##_; } \
    [[nodiscard]] T const& name() const noexcept { return name##_; }

class scan final : public expression {
public:
    using column = details::mapping_element;
    using endpoint = details::range_endpoint;
    using key = details::search_key_element;
    scan(descriptor::relation source, std::vector<column> columns, endpoint lower = {}, endpoint upper = {}, std::optional<std::size_t> limit = {}) :
        source_ { std::move(source) }, columns_ { std::move(columns) }, lower_ { std::move(lower) }, upper_ { std::move(upper) }, limit_ { limit } {}
    scan(scan&& o) : scan(o.source_, std::move(o.columns_), std::move(o.lower_), std::move(o.upper_), o.limit_) {}
    TSHIM_REL(scan, scan) TSHIM_OUT
    TSHIM_ACC(descriptor::relation, source) TSHIM_ACC(std::vector<column>, columns) TSHIM_ACC(endpoint, lower) TSHIM_ACC(endpoint, upper)
    [[nodiscard]] std::optional<std::size_t> const& limit() const noexcept { return limit_; }
protected:
    std::ostream& print_to(std::ostream& out) const override { out << "scan(" << source_ << ","; return details::print_seq(out, columns_) << "," << lower_ << "," << upper_ << ")"; }
private:
    output_port output_ { *this, 0 };
    descriptor::relation source_;
    std::vector<column> columns_;
    endpoint lower_, upper_;
    std::optional<std::size_t> limit_;
    scan* copy_() const { return new scan(source_, columns_, endpoint { lower_ }, endpoint { upper_ }, limit_); }
};

class values final : public expression {
public:
    using column = descriptor::variable;
    class row {
    public:
        explicit row(util::reference_vector<scalar::expression> e) : e_ { std::move(e) } {}
        row(std::initializer_list<util::rvalue_reference_wrapper<scalar::expression>> e) : e_ { e } {}
        row(row&&) noexcept = default;
        row& operator=(row&&) noexcept = default;
        row(row const& o) : e_ { scalar::details::clone_elements(o.e_) } {}
        [[nodiscard]] util::reference_vector<scalar::expression>& elements() { return e_; }
        [[nodiscard]] util::reference_vector<scalar::expression> const& elements() const { return e_; }
        friend std::ostream& operator<<(std::ostream& out, row const& v) { return out << v.e_; }
    private:
        util::reference_vector<scalar::expression> e_;
    };
    values(std::vector<column> columns, std::vector<row> rows) : columns_ { std::move(columns) }, rows_ { std::move(rows) } {}
    TSHIM_REL(values, values) TSHIM_OUT
    TSHIM_ACC(std::vector<column>, columns) TSHIM_ACC(std::vector<row>, rows)
protected:
    std::ostream& print_to(std::ostream& out) const override { out << "values("; details::print_seq(out, columns_) << ","; return details::print_seq(out, rows_) << ")"; }
private:
    output_port output_ { *this, 0 };
    std::vector<column> columns_;
    std::vector<row> rows_;
    values* copy_() const { return new values(columns_, std::vector<row> { rows_ }); }
};

class project final : public expression {
public:
    class column {
    public:
        column(descriptor::variable v, owned<scalar::expression> value) : v_ { std::move(v) }, value_ { std::move(value.p) } {}
        column(owned<scalar::expression> value, descriptor::variable v) : v_ { std::move(v) }, value_ { std::move(value.p) } {}
        column(column&&) noexcept = default;
        column& operator=(column&&) noexcept = default;
        column(column const& o) : v_ { o.v_ }, value_ { util::clone_or_null(o.value_) } {}
        [[nodiscard]] descriptor::variable& variable() { return v_; }
        [[nodiscard]] descriptor::variable const& variable() const { return v_; }
        [[nodiscard]] scalar::expression& value() { return *value_; }
        [[nodiscard]] scalar::expression const& value() const { return *value_; }
        [[nodiscard]] ownership_reference<scalar::expression> ownership_value() { return ownership_reference<scalar::expression> { value_ }; }
        [[nodiscard]] std::unique_ptr<scalar::expression> release_value() { return std::move(value_); }
        friend std::ostream& operator<<(std::ostream& out, column const& v) { out << v.v_ << "="; if (v.value_) { out << *v.value_; } return out; }
    private:
        descriptor::variable v_;
        std::unique_ptr<scalar::expression> value_;
    };
    explicit project(std::vector<column> columns) : columns_ { std::move(columns) } {}
    TSHIM_REL(project, project) TSHIM_OUT TSHIM_IN
    TSHIM_ACC(std::vector<column>, columns)
protected:
    std::ostream& print_to(std::ostream& out) const override { out << "project("; return details::print_seq(out, columns_) << ")"; }
private:
    input_port input_ { *this, 0 };
    output_port output_ { *this, 0 };
    std::vector<column> columns_;
    project* copy_() const { return new project(std::vector<column> { columns_ }); }
};

class filter final : public expression {
public:
    explicit filter(owned<scalar::expression> condition) : condition_ { std::move(condition.p) } {}
    TSHIM_REL(filter, filter) TSHIM_OUT TSHIM_IN
    [[nodiscard]] scalar::expression& condition() { return *condition_; }
    [[nodiscard]] scalar::expression const& condition() const { return *condition_; }
    [[nodiscard]] std::unique_ptr<scalar::expression> release_condition() { return std::move(condition_); }
    [[nodiscard]] ownership_reference<scalar::expression> ownership_condition() { return ownership_reference<scalar::expression> { condition_ }; }
protected:
    std::ostream& print_to(std::ostream& out) const override { return out << "filter(" << *condition_ << ")"; }
private:
    input_port input_ { *this, 0 };
    output_port output_ { *this, 0 };
    std::unique_ptr<scalar::expression> condition_;
    filter* copy_() const { return new filter(util::clone_or_null(condition_)); }
};

class emit final : public expression {
public:
    class column {
    public:
        column(descriptor::variable source, std::optional<std::string> name = {}) : s_ { std::move(source) }, n_ { std::move(name) } {}
        [[nodiscard]] descriptor::variable& source() { return s_; }
        [[nodiscard]] descriptor::variable const& source() const { return s_; }
        [[nodiscard]] std::optional<std::string> const& name() const noexcept { return n_; }
        friend std::ostream& operator<<(std::ostream& out, column const& v) { return out << v.s_ << " as " << v.n_.value_or("?"); }
    private:
        descriptor::variable s_;
        std::optional<std::string> n_;
    };
    explicit emit(std::vector<column> columns) : columns_ { std::move(columns) } {}
    TSHIM_REL(emit, emit) TSHIM_IN
    TSHIM_ACC(std::vector<column>, columns)
protected:
    std::ostream& print_to(std::ostream& out) const override { out << "emit("; return details::print_seq(out, columns_) << ")"; }
private:
    input_port input_ { *this, 0 };
    std::vector<column> columns_;
    emit* copy_() const { return new emit(columns_); }
};

class write final : public expression {
public:
    using key = details::mapping_element;
    using column = details::mapping_element;
    write(write_kind k, descriptor::relation destination, std::vector<key> keys, std::vector<column> columns) : k_ { k }, destination_ { std::move(destination) }, keys_ { std::move(keys) }, columns_ { std::move(columns) } {}
    TSHIM_REL(write, write) TSHIM_IN
    [[nodiscard]] write_kind operator_kind() const noexcept { return k_; }
    TSHIM_ACC(descriptor::relation, destination) TSHIM_ACC(std::vector<key>, keys) TSHIM_ACC(std::vector<column>, columns)
protected:
    std::ostream& print_to(std::ostream& out) const override { out << "write(" << k_ << "," << destination_ << ","; details::print_seq(out, keys_) << ","; return details::print_seq(out, columns_) << ")"; }
private:
    input_port input_ { *this, 0 };
    write_kind k_;
    descriptor::relation destination_;
    std::vector<key> keys_;
    std::vector<column> columns_;
    write* copy_() const { return new write(k_, destination_, keys_, columns_); }
};

namespace details {
class apply_column {
public:
    apply_column(std::size_t position, descriptor::variable v) : p_ { position }, v_ { std::move(v) } {}
    [[nodiscard]] std::size_t position() const noexcept { return p_; }
    [[nodiscard]] descriptor::variable& variable() { return v_; }
    [[nodiscard]] descriptor::variable const& variable() const { return v_; }
    friend std::ostream& operator<<(std::ostream& out, apply_column const& v) { return out << v.p_ << ":" << v.v_; }
private:
    std::size_t p_;
    descriptor::variable v_;
};
}
class apply final : public expression {
public:
    using operator_kind_type = apply_kind;
    using column_type = details::apply_column;
    apply(apply_kind k, descriptor::function f, util::reference_vector<scalar::expression> a, std::vector<column_type> c) : k_ { k }, function_ { std::move(f) }, arguments_ { std::move(a) }, columns_ { std::move(c) } {}
    apply(descriptor::function f, util::reference_vector<scalar::expression> a, std::vector<column_type> c) : apply(apply_kind::cross, std::move(f), std::move(a), std::move(c)) {}
    apply(apply_kind k, descriptor::function f, std::vector<std::unique_ptr<scalar::expression>> a, std::vector<column_type> c) : apply(k, std::move(f), util::reference_vector<scalar::expression> { std::move(a) }, std::move(c)) {}
    TSHIM_REL(apply, apply) TSHIM_OUT TSHIM_IN
    [[nodiscard]] apply_kind operator_kind() const noexcept { return k_; }
    TSHIM_ACC(descriptor::function, function) TSHIM_ACC(util::reference_vector<scalar::expression>, arguments) TSHIM_ACC(std::vector<column_type>, columns)
protected:
    std::ostream& print_to(std::ostream& out) const override { out << "apply(" << k_ << "," << function_ << "," << arguments_ << ","; return details::print_seq(out, columns_) << ")"; }
private:
    input_port input_ { *this, 0 };
    output_port output_ { *this, 0 };
    apply_kind k_;
    descriptor::function function_;
    util::reference_vector<scalar::expression> arguments_;
    std::vector<column_type> columns_;
    apply* copy_() const { return new apply(k_, function_, scalar::details::clone_elements(arguments_), columns_); }
};

namespace intermediate {
class join final : public expression {
public:
    using operator_kind_type = join_kind;
    using endpoint = details::range_endpoint;
    using key = details::search_key_element;
    explicit join(join_kind k, owned<scalar::expression> condition = {}) : k_ { k }, condition_ { std::move(condition.p) } {}
    join(join_kind k, endpoint lower, endpoint upper, owned<scalar::expression> condition = {}) : k_ { k }, lower_ { std::move(lower) }, upper_ { std::move(upper) }, condition_ { std::move(condition.p) } {}
    TSHIM_REL(join, intermediate_join) TSHIM_OUT TSHIM_IN2
    [[nodiscard]] join_kind operator_kind() const noexcept { return k_; }
    TSHIM_ACC(endpoint, lower) TSHIM_ACC(endpoint, upper)
    [[nodiscard]] optional_ptr<scalar::expression> condition() { return optional_ptr<scalar::expression> { condition_.get() }; }
    [[nodiscard]] optional_ptr<scalar::expression const> condition() const { return optional_ptr<scalar::expression const> { condition_.get() }; }
    [[nodiscard]] std::unique_ptr<scalar::expression> release_condition() { return std::move(condition_); }
    join& condition(std::unique_ptr<scalar::expression> v) { condition_ = std::move(v); return *this; }
    [[nodiscard]] ownership_reference<scalar::expression> ownership_condition() { return ownership_reference<scalar::expression> { condition_ }; }
protected:
    std::ostream& print_to(std::ostream& out) const override { out << "join(" << k_; if (condition_) { out << "," << *condition_; } return out << ")"; }
private:
    input_port left_ { *this, 0 };
    input_port right_ { *this, 1 };
    output_port output_ { *this, 0 };
    join_kind k_;
    endpoint lower_ {}, upper_ {};
    std::unique_ptr<scalar::expression> condition_;
    join* copy_() const { return new join(k_, endpoint { lower_ }, endpoint { upper_ }, util::clone_or_null(condition_)); }
};

class aggregate final : public expression {
public:
    class column {
    public:
        column(descriptor::aggregate_function f, std::vector<descriptor::variable> a, descriptor::variable d) : f_ { std::move(f) }, a_ { std::move(a) }, d_ { std::move(d) } {}
        [[nodiscard]] descriptor::aggregate_function& function() { return f_; }
        [[nodiscard]] descriptor::aggregate_function const& function() const { return f_; }
        [[nodiscard]] std::vector<descriptor::variable>& arguments() { return a_; }
        [[nodiscard]] std::vector<descriptor::variable> const& arguments() const { return a_; }
        [[nodiscard]] descriptor::variable& destination() { return d_; }
        [[nodiscard]] descriptor::variable const& destination() const { return d_; }
        friend std::ostream& operator<<(std::ostream& out, column const& v) { out << v.d_ << "=" << v.f_; return details::print_seq(out, v.a_); }
    private:
        descriptor::aggregate_function f_;
        std::vector<descriptor::variable> a_;
        descriptor::variable d_;
    };
    aggregate(std::vector<descriptor::variable> keys, std::vector<column> columns) : group_keys_ { std::move(keys) }, columns_ { std::move(columns) } {}
    TSHIM_REL(aggregate, intermediate_aggregate) TSHIM_OUT TSHIM_IN
    TSHIM_ACC(std::vector<descriptor::variable>, group_keys) TSHIM_ACC(std::vector<column>, columns)
protected:
    std::ostream& print_to(std::ostream& out) const override { out << "aggregate("; details::print_seq(out, group_keys_) << ","; return details::print_seq(out, columns_) << ")"; }
private:
    input_port input_ { *this, 0 };
    output_port output_ { *this, 0 };
    std::vector<descriptor::variable> group_keys_;
    std::vector<column> columns_;
    aggregate* copy_() const { return new aggregate(group_keys_, columns_); }
};

class distinct final : public expression {
public:
    explicit distinct(std::vector<descriptor::variable> keys) : group_keys_ { std::move(keys) } {}
    TSHIM_REL(distinct, intermediate_distinct) TSHIM_OUT TSHIM_IN
    TSHIM_ACC(std::vector<descriptor::variable>, group_keys)
protected:
    std::ostream& print_to(std::ostream& out) const override { out << "distinct("; return details::print_seq(out, group_keys_) << ")"; }
private:
    input_port input_ { *this, 0 };
    output_port output_ { *this, 0 };
    std::vector<descriptor::variable> group_keys_;
    distinct* copy_() const { return new distinct(group_keys_); }
};

class limit final : public expression {
public:
    using size_type = std::size_t;
    class sort_key {
    public:
        sort_key(descriptor::variable v, sort_direction d = sort_direction::ascendant) : v_ { std::move(v) }, d_ { d } {}
        [[nodiscard]] descriptor::variable& variable() { return v_; }
        [[nodiscard]] descriptor::variable const& variable() const { return v_; }
        [[nodiscard]] sort_direction direction() const noexcept { return d_; }
        friend bool operator==(sort_key const& a, sort_key const& b) { return a.v_ == b.v_ && a.d_ == b.d_; }
        friend bool operator!=(sort_key const& a, sort_key const& b) { return !(a == b); }
        friend std::ostream& operator<<(std::ostream& out, sort_key const& v) { return out << v.v_ << ":" << v.d_; }
    private:
        descriptor::variable v_;
        sort_direction d_;
    };
    explicit limit(std::optional<size_type> count, std::vector<descriptor::variable> group_keys = {}, std::vector<sort_key> sort_keys = {}) : count_ { count }, group_keys_ { std::move(group_keys) }, sort_keys_ { std::move(sort_keys) } {}
    TSHIM_REL(limit, intermediate_limit) TSHIM_OUT TSHIM_IN
    [[nodiscard]] std::optional<size_type> const& count() const noexcept { return count_; }
    limit& count(std::optional<size_type> v) noexcept { count_ = v; return *this; }
    TSHIM_ACC(std::vector<descriptor::variable>, group_keys) TSHIM_ACC(std::vector<sort_key>, sort_keys)
protected:
    std::ostream& print_to(std::ostream& out) const override { out << "limit(" << (count_ ? std::to_string(*count_) : std::string { "*" }) << ","; details::print_seq(out, group_keys_) << ","; return details::print_seq(out, sort_keys_) << ")"; }
private:
    input_port input_ { *this, 0 };
    output_port output_ { *this, 0 };
    std::optional<size_type> count_;
    std::vector<descriptor::variable> group_keys_;
    std::vector<sort_key> sort_keys_;
    limit* copy_() const { return new limit(count_, group_keys_, sort_keys_); }
};

class union_ final : public expression {
public:
    using quantifier_kind = set_quantifier;
    class mapping {
    public:
        mapping(std::optional<descriptor::variable> l, std::optional<descriptor::variable> r, descriptor::variable d) : l_ { std::move(l) }, r_ { std::move(r) }, d_ { std::move(d) } {}
        [[nodiscard]] std::optional<descriptor::variable>& left() { return l_; }
        [[nodiscard]] std::optional<descriptor::variable> const& left() const { return l_; }
        [[nodiscard]] std::optional<descriptor::variable>& right() { return r_; }
        [[nodiscard]] std::optional<descriptor::variable> const& right() const { return r_; }
        [[nodiscard]] descriptor::variable& destination() { return d_; }
        [[nodiscard]] descriptor::variable const& destination() const { return d_; }
        friend std::ostream& operator<<(std::ostream& out, mapping const& v) { if (v.l_) { out << *v.l_; } out << "|"; if (v.r_) { out << *v.r_; } return out << "->" << v.d_; }
    private:
        std::optional<descriptor::variable> l_, r_;
        descriptor::variable d_;
    };
    union_(set_quantifier q, std::vector<mapping> m) : q_ { q }, mappings_ { std::move(m) } {}
    TSHIM_REL(union_, intermediate_union) TSHIM_OUT TSHIM_IN2
    [[nodiscard]] set_quantifier quantifier() const noexcept { return q_; }
    TSHIM_ACC(std::vector<mapping>, mappings)
protected:
    std::ostream& print_to(std::ostream& out) const override { out << "union(" << q_ << ","; return details::print_seq(out, mappings_) << ")"; }
private:
    input_port left_ { *this, 0 };
    input_port right_ { *this, 1 };
    output_port output_ { *this, 0 };
    set_quantifier q_;
    std::vector<mapping> mappings_;
    union_* copy_() const { return new union_(q_, mappings_); }
};

#define TSHIM_SETOP(D) \
class D final : public expression { \
public: \
    using quantifier_kind = set_quantifier; \
    class key { \
    public: \
        key(descriptor::variable l, descriptor::variable r) : l_ { std::move(l) }, r_ { std::move(r) } {} \
        [[nodiscard]] descriptor::variable& left() { return l_; } \
        [[nodiscard]] descriptor::variable const& left() const { return l_; } \
        [[nodiscard]] descriptor::variable& right() { return r_; } \
        [[nodiscard]] descriptor::variable const& right() const { return r_; } \
        friend std::ostream& operator<<(std::ostream& out, key const& v) { return out << v.l_ << "=" << v.r_; } \
    private: \
        descriptor::variable l_, r_; \
    }; \
    using group_key_pair = key; \
    using key_pair_type = key; \
    D(set_quantifier q, std::vector<key> keys) : q_ { q }, group_key_pairs_ { std::move(keys) } {} \
    TSHIM_REL(D, intermediate_##D) TSHIM_OUT TSHIM_IN2 \
    [[nodiscard]] set_quantifier quantifier() const noexcept { return q_; } \
    TSHIM_ACC(std::vector<key>, group_key_pairs) \
protected: \
    std::ostream& print_to(std::ostream& out) const override { out << #D "(" << q_ << ","; return details::print_seq(out, group_key_pairs_) << ")"; } \
private: \
    input_port left_ { *this, 0 }; \
    input_port right_ { *this, 1 }; \
    output_port output_ { *this, 0 }; \
    set_quantifier q_; \
    std::vector<key> group_key_pairs_; \
    D* copy_() const { return new D(q_, group_key_pairs_); } \
};
TSHIM_SETOP(intersection)
TSHIM_SETOP(difference)

class extension : public expression {
public:
    static constexpr expression_kind tag = expression_kind::intermediate_extension;
    using extension_id_type = std::size_t;
    static constexpr extension_id_type min_unused_id = 1000;
    [[nodiscard]] expression_kind kind() const noexcept final { return tag; }
    [[nodiscard]] virtual extension_id_type extension_id() const noexcept = 0;
};
} // namespace intermediate
} // namespace takatori::relation
