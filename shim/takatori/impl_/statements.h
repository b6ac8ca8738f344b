#pragma once
#include <takatori/impl_/relations.h>
#include <takatori/util/enum_set.h>
namespace takatori::statement {
using util::owned;
enum class statement_kind { execute, write, create_table, drop_table, create_index, drop_index, grant_table, revoke_table, truncate_table, rename_table, rename_index, rename_column, empty, extension };
inline constexpr std::string_view to_string_view(statement_kind v) noexcept {
    constexpr std::string_view n[] { "execute", "write", "create_table", "drop_table", "create_index", "drop_index", "grant_table", "revoke_table", "truncate_table", "rename_table", "rename_index", "rename_column", "empty", "extension" };
    return n[static_cast<std::size_t>(v)];
}
inline std::ostream& operator<<(std::ostream& out, statement_kind v) { return out << to_string_view(v); }
using write_kind = relation::write_kind;
enum class table_action_kind { control, select, insert, update, delete_ };
inline constexpr std::string_view to_string_view(table_action_kind v) noexcept {
    constexpr std::string_view n[] { "control", "select", "insert", "update", "delete" };
    return n[static_cast<std::size_t>(v)];
}
inline std::ostream& operator<<(std::ostream& out, table_action_kind v) { return out << to_string_view(v); }
enum class authorization_user_kind { specified, all_users, current_user };
inline constexpr std::string_view to_string_view(authorization_user_kind v) noexcept {
    constexpr std::string_view n[] { "specified", "all_users", "current_user" };
    return n[static_cast<std::size_t>(v)];
}
inline std::ostream& operator<<(std::ostream& out, authorization_user_kind v) { return out << to_string_view(v); }
enum class truncate_table_option_kind { restart_identity };
inline std::ostream& operator<<(std::ostream& out, truncate_table_option_kind) { return out << "restart_identity"; }

class statement {
public:
    virtual ~statement() = default;
    [[nodiscard]] virtual statement_kind kind() const noexcept = 0;
    [[nodiscard]] virtual statement* clone() const& = 0;
    [[nodiscard]] virtual statement* clone() && = 0;
    [[nodiscard]] document::region& region() noexcept { return r_; }
    [[nodiscard]] document::region const& region() const noexcept { return r_; }
    friend bool operator==(statement const& a, statement const& b) { return a.kind() == b.kind() && a.equals(b); }
    friend bool operator!=(statement const& a, statement const& b) { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, statement const& v) { out << v.kind() << "("; v.print(out); return out << ")"; }
protected:
    [[nodiscard]] virtual bool equals(statement const& o) const noexcept = 0;
    virtual void print(std::ostream& out) const = 0;
private:
    document::region r_ {};
};
namespace impl_ {
template<class D, statement_kind K>
class base : public statement {
public:
    static constexpr statement_kind tag = K;
    [[nodiscard]] statement_kind kind() const noexcept override { return K; }
    [[nodiscard]] statement* clone() const& override { return static_cast<D const*>(this)->copy(); }
    [[nodiscard]] statement* clone() && override { return static_cast<D const*>(this)->copy(); }
    friend bool operator==(D const& a, D const& b) { return a.same(b); }
    friend bool operator!=(D const& a, D const& b) { return !a.same(b); }
protected:
    [[nodiscard]] bool equals(statement const& o) const noexcept override { return static_cast<D const*>(this)->same(static_cast<D const&>(o)); }
};
template<class T> void print_list(std::ostream& out, std::vector<T> const& v) {
    out << "["; bool c = false;
    for (auto&& e : v) { if (c) { out << ", "; } c = true; out << e; }
    out << "]";
}
} // namespace impl_

namespace details {
class table_privilege_action {
public:
    table_privilege_action(table_action_kind k) noexcept : k_ { k } {}
    [[nodiscard]] table_action_kind action_kind() const noexcept { return k_; }
    friend bool operator==(table_privilege_action const& a, table_privilege_action const& b) noexcept { return a.k_ == b.k_; }
    friend bool operator!=(table_privilege_action const& a, table_privilege_action const& b) noexcept { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, table_privilege_action const& v) { return out << v.k_; }
private:
    table_action_kind k_;
};
class table_authorization_entry {
public:
    table_authorization_entry(authorization_user_kind k, std::string id, std::vector<table_privilege_action> p) : k_ { k }, id_ { std::move(id) }, p_ { std::move(p) } {}
    explicit table_authorization_entry(std::string id, std::vector<table_privilege_action> p) : k_ { authorization_user_kind::specified }, id_ { std::move(id) }, p_ { std::move(p) } {}
    [[nodiscard]] authorization_user_kind user_kind() const noexcept { return k_; }
    [[nodiscard]] std::string_view authorization_identifier() const noexcept { return id_; }
    [[nodiscard]] std::vector<table_privilege_action>& privileges() noexcept { return p_; }
    [[nodiscard]] std::vector<table_privilege_action> const& privileges() const noexcept { return p_; }
    friend bool operator==(table_authorization_entry const& a, table_authorization_entry const& b) noexcept { return a.k_ == b.k_ && a.id_ == b.id_ && a.p_ == b.p_; }
    friend bool operator!=(table_authorization_entry const& a, table_authorization_entry const& b) noexcept { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, table_authorization_entry const& v) { out << v.k_ << ":" << v.id_ << ":"; impl_::print_list(out, v.p_); return out; }
private:
    authorization_user_kind k_;
    std::string id_;
    std::vector<table_privilege_action> p_;
};
class table_privilege_element {
public:
    table_privilege_element(descriptor::storage t, std::vector<table_privilege_action> d, std::vector<table_authorization_entry> e) : t_ { std::move(t) }, d_ { std::move(d) }, e_ { std::move(e) } {}
    [[nodiscard]] descriptor::storage& table() noexcept { return t_; }
    [[nodiscard]] descriptor::storage const& table() const noexcept { return t_; }
    [[nodiscard]] std::vector<table_privilege_action>& default_privileges() noexcept { return d_; }
    [[nodiscard]] std::vector<table_privilege_action> const& default_privileges() const noexcept { return d_; }
    [[nodiscard]] std::vector<table_authorization_entry>& authorization_entries() noexcept { return e_; }
    [[nodiscard]] std::vector<table_authorization_entry> const& authorization_entries() const noexcept { return e_; }
    friend bool operator==(table_privilege_element const& a, table_privilege_element const& b) noexcept { return a.t_ == b.t_ && a.d_ == b.d_ && a.e_ == b.e_; }
    friend bool operator!=(table_privilege_element const& a, table_privilege_element const& b) noexcept { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, table_privilege_element const& v) { out << v.t_ << "/"; impl_::print_list(out, v.d_); out << "/"; impl_::print_list(out, v.e_); return out; }
private:
    descriptor::storage t_;
    std::vector<table_privilege_action> d_;
    std::vector<table_authorization_entry> e_;
};
class write_tuple {
public:
    using elements_type = util::reference_vector<scalar::expression>;
    explicit write_tuple(elements_type e) : e_ { std::move(e) } {}
    explicit write_tuple(std::vector<std::unique_ptr<scalar::expression>> e) : e_ { std::move(e) } {}
    write_tuple(std::initializer_list<util::rvalue_reference_wrapper<scalar::expression>> e) : e_ { e } {}
    write_tuple(write_tuple const& o) { for (auto&& x : o.e_) { e_.push_back(util::clone_unique(x)); } }
    write_tuple(write_tuple&&) noexcept = default;
    write_tuple& operator=(write_tuple const&) = delete;
    write_tuple& operator=(write_tuple&&) noexcept = default;
    [[nodiscard]] elements_type& elements() noexcept { return e_; }
    [[nodiscard]] elements_type const& elements() const noexcept { return e_; }
    friend bool operator==(write_tuple const& a, write_tuple const& b) { return a.e_ == b.e_; }
    friend bool operator!=(write_tuple const& a, write_tuple const& b) { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, write_tuple const& v) { return out << v.e_; }
private:
    elements_type e_ {};
};
} // namespace details

class write : public impl_::base<write, statement_kind::write> {
public:
    using operator_kind_type = write_kind;
    using column = descriptor::variable;
    using tuple = details::write_tuple;
    write(write_kind k, descriptor::relation d, std::vector<column> c, std::vector<tuple> t) : k_ { k }, d_ { std::move(d) }, c_ { std::move(c) }, t_ { std::move(t) } {}
    [[nodiscard]] write_kind operator_kind() const noexcept { return k_; }
    [[nodiscard]] descriptor::relation& destination() noexcept { return d_; }
    [[nodiscard]] descriptor::relation const& destination() const noexcept { return d_; }
    [[nodiscard]] std::vector<column>& columns() noexcept { return c_; }
    [[nodiscard]] std::vector<column> const& columns() const noexcept { return c_; }
    [[nodiscard]] std::vector<tuple>& tuples() noexcept { return t_; }
    [[nodiscard]] std::vector<tuple> const& tuples() const noexcept { return t_; }
    [[nodiscard]] write* copy() const { auto* r = new write { k_, d_, c_, t_ }; r->region() = region(); return r; }
    [[nodiscard]] bool same(write const& o) const { return k_ == o.k_ && d_ == o.d_ && c_ == o.c_ && t_ == o.t_; }
    void print(std::ostream& out) const override { out << k_ << ", " << d_ << ", "; impl_::print_list(out, c_); out << ", "; impl_::print_list(out, t_); }
private:
    write_kind k_;
    descriptor::relation d_;
    std::vector<column> c_;
    std::vector<tuple> t_;
};
#define TSHIM_ST2(N, T1, n1, T2, n2) \
class N : public impl_::base<N, statement_kind::N> { \
public: \
    N(T1 a, T2 b) : a_ { std::move(a) }, b_ { std::move(b) } {} \
    [[nodiscard]] T1& n1() noexcept { return a_; } \
    [[nodiscard]] T1 const& n1() const noexcept { return a_; } \
    [[nodiscard]] T2& n2() noexcept { return b_; } \
    [[nodiscard]] T2 const& n2() const noexcept { return b_; } \
    [[nodiscard]] N* copy() const { auto* r = new N { a_, b_ }; r->region() = region(); return r; } \
    [[nodiscard]] bool same(N const& o) const { return a_ == o.a_ && b_ == o.b_; } \
    void print(std::ostream& out) const override { out << a_ << ", " << b_; } \
private: \
    T1 a_; T2 b_; \
};
#define TSHIM_ST3(N, T1, n1, T2, n2, T3, n3) \
class N : public impl_::base<N, statement_kind::N> { \
public: \
    N(T1 a, T2 b, T3 c) : a_ { std::move(a) }, b_ { std::move(b) }, c_ { std::move(c) } {} \
    [[nodiscard]] T1& n1() noexcept { return a_; } \
    [[nodiscard]] T1 const& n1() const noexcept { return a_; } \
    [[nodiscard]] T2& n2() noexcept { return b_; } \
    [[nodiscard]] T2 const& n2() const noexcept { return b_; } \
    [[nodiscard]] T3& n3() noexcept { return c_; } \
    [[nodiscard]] T3 const& n3() const noexcept { return c_; } \
    [[nodiscard]] N* copy() const { auto* r = new N { a_, b_, c_ }; r->region() = region(); return r; } \
    [[nodiscard]] bool same(N const& o) const { return a_ == o.a_ && b_ == o.b_ && c_ == o.c_; } \
    void print(std::ostream& out) const override { out << a_ << ", " << b_ << ", " << c_; } \
private: \
    T1 a_; T2 b_; T3 c_; \
};
#define TSHIM_PRIV(N) \
class N : public impl_::base<N, statement_kind::N> { \
public: \
    using element_type = details::table_privilege_element; \
    explicit N(std::vector<element_type> e) : e_ { std::move(e) } {} \
    [[nodiscard]] std::vector<element_type>& elements() noexcept { return e_; } \
    [[nodiscard]] std::vector<element_type> const& elements() const noexcept { return e_; } \
    [[nodiscard]] N* copy() const { auto* r = new N { e_ }; r->region() = region(); return r; } \
    [[nodiscard]] bool same(N const& o) const { return e_ == o.e_; } \
    void print(std::ostream& out) const override { impl_::print_list(out, e_); } \
private: \
    std::vector<element_type> e_; \
};
TSHIM_ST3(create_table, descriptor::schema, schema, descriptor::storage, definition, descriptor::relation, primary_key)
TSHIM_ST2(create_index, descriptor::schema, schema, descriptor::relation, definition)
TSHIM_ST2(drop_table, descriptor::schema, schema, descriptor::storage, target)
TSHIM_ST2(drop_index, descriptor::schema, schema, descriptor::relation, target)
TSHIM_ST3(rename_table, descriptor::schema, schema, descriptor::storage, target, std::string, replacement)
TSHIM_ST3(rename_index, descriptor::schema, schema, descriptor::relation, target, std::string, replacement)
TSHIM_ST3(rename_column, descriptor::storage, table, descriptor::variable, target, std::string, replacement)
TSHIM_PRIV(grant_table)
TSHIM_PRIV(revoke_table)
#undef TSHIM_ST2
#undef TSHIM_ST3
#undef TSHIM_PRIV
class truncate_table : public impl_::base<truncate_table, statement_kind::truncate_table> {
public:
    using option_set_type = util::enum_set<truncate_table_option_kind, truncate_table_option_kind::restart_identity, truncate_table_option_kind::restart_identity>;
    truncate_table(descriptor::storage t, option_set_type o) : t_ { std::move(t) }, o_ { o } {}
    [[nodiscard]] descriptor::storage& target() noexcept { return t_; }
    [[nodiscard]] descriptor::storage const& target() const noexcept { return t_; }
    [[nodiscard]] option_set_type& options() noexcept { return o_; }
    [[nodiscard]] option_set_type const& options() const noexcept { return o_; }
    [[nodiscard]] truncate_table* copy() const { auto* r = new truncate_table { t_, o_ }; r->region() = region(); return r; }
    [[nodiscard]] bool same(truncate_table const& o) const { return t_ == o.t_ && o_.size() == o.o_.size(); }
    void print(std::ostream& out) const override { out << t_ << ", " << o_.size(); }
private:
    descriptor::storage t_;
    option_set_type o_;
};
class empty : public impl_::base<empty, statement_kind::empty> {
public:
    [[nodiscard]] empty* copy() const { auto* r = new empty {}; r->region() = region(); return r; }
    [[nodiscard]] bool same(empty const&) const { return true; }
    void print(std::ostream&) const override {}
};
} // namespace takatori::statement
