#pragma once
#include <takatori/impl_/types.h>
#include <takatori/impl_/values.h>
#include <takatori/impl_/relations.h>
#include <takatori/util/enum_set.h>
#include <takatori/util/exception.h>
#include <takatori/util/maybe_shared_ptr.h>
#include <takatori/util/optional_ptr.h>
#include <takatori/util/owned_.h>
#include <takatori/util/reference_vector.h>
#include <takatori/util/sequence_view.h>
#include <map>
namespace yugawara::util {
enum class ternary { yes, no, unknown };
inline constexpr ternary ternary_of(bool v) noexcept { return v ? ternary::yes : ternary::no; }
inline constexpr ternary operator~(ternary v) noexcept { return v == ternary::yes ? ternary::no : (v == ternary::no ? ternary::yes : v); }
inline std::ostream& operator<<(std::ostream& out, ternary v) { return out << (v == ternary::yes ? "yes" : (v == ternary::no ? "no" : "unknown")); }
/// interns immutable objects.
template<class T>
class object_repository {
public:
    object_repository() = default;
    explicit object_repository(bool) {}
    template<class U>
    [[nodiscard]] std::shared_ptr<std::remove_cv_t<std::remove_reference_t<U>> const> get(U&& v) {
        using R = std::remove_cv_t<std::remove_reference_t<U>>;
        for (auto& e : v_) {
            if (*e == v) {
                if constexpr (std::is_same_v<R, T>) { return e; }
                else if (auto p = std::dynamic_pointer_cast<R const>(e)) { return p; }
            }
        }
        std::shared_ptr<R const> r {};
        if constexpr (std::is_same_v<R, T>) { r = takatori::util::clone_shared(v); }
        else { r = std::make_shared<R>(std::forward<U>(v)); }
        v_.emplace_back(r);
        return r;
    }
    void clear() noexcept { v_.clear(); }
private:
    std::vector<std::shared_ptr<T const>> v_ {};
};
} // namespace yugawara::util
namespace yugawara::impl_ {
using takatori::util::maybe_shared_ptr;
using takatori::util::optional_ptr;
using takatori::util::reference_vector;
using takatori::util::shared_arg;
using takatori::util::enum_set;
using id_type = std::size_t;
/// name -> declaration table.
template<class T> using table_of = std::map<std::string, std::shared_ptr<T const>, std::less<>>;
template<class T> std::shared_ptr<T const> lookup(table_of<T> const& t, std::string_view k) { if (auto it = t.find(k); it != t.end()) { return it->second; } return {}; }
}

namespace yugawara::variable {
class nullity {
public:
    constexpr explicit nullity(bool n) noexcept : n_ { n } {}
    [[nodiscard]] constexpr bool nullable() const noexcept { return n_; }
    constexpr nullity operator~() const noexcept { return nullity { !n_ }; }
    friend constexpr bool operator==(nullity a, nullity b) noexcept { return a.n_ == b.n_; }
    friend constexpr bool operator!=(nullity a, nullity b) noexcept { return a.n_ != b.n_; }
    friend std::ostream& operator<<(std::ostream& out, nullity v) { return out << (v.n_ ? "NULLABLE" : "~NULLABLE"); }
private:
    bool n_;
};
inline constexpr nullity nullable { true };
class criteria {
public:
    criteria() noexcept = default;
    criteria(class nullity n) noexcept : n_ { n } {}
    [[nodiscard]] class nullity nullity() const noexcept { return n_; }
    criteria& nullity(class nullity n) noexcept { n_ = n; return *this; }
    friend std::ostream& operator<<(std::ostream& out, criteria const& v) { return out << v.n_; }
private:
    class nullity n_ { nullable };
};
class declaration {
public:
    using definition_id_type = impl_::id_type;
    declaration(std::optional<definition_id_type> id, std::string name, takatori::util::shared_arg<takatori::type::data> type, class criteria c = {}, std::string desc = {}) : id_ { id }, name_ { std::move(name) }, type_ { std::move(type.p) }, c_ { c }, desc_ { std::move(desc) } {}
    declaration(std::string_view name, takatori::util::shared_arg<takatori::type::data> type, class criteria c = {}) : declaration(std::nullopt, std::string { name }, std::move(type), c) {}
    [[nodiscard]] std::optional<definition_id_type> definition_id() const noexcept { return id_; }
    [[nodiscard]] std::string_view name() const noexcept { return name_; }
    [[nodiscard]] takatori::type::data const& type() const { return *type_; }
    [[nodiscard]] takatori::type::data const* optional_type() const noexcept { return type_.get(); }
    [[nodiscard]] std::shared_ptr<takatori::type::data const> const& shared_type() const noexcept { return type_; }
    [[nodiscard]] class criteria const& criteria() const noexcept { return c_; }
    [[nodiscard]] class criteria& criteria() noexcept { return c_; }
    [[nodiscard]] std::string const& description() const noexcept { return desc_; }
    [[nodiscard]] bool is_resolved() const noexcept { return static_cast<bool>(type_); }
    [[nodiscard]] explicit operator bool() const noexcept { return is_resolved(); }
    friend std::ostream& operator<<(std::ostream& out, declaration const& v) { return out << "variable(" << v.name_ << ")"; }
private:
    std::optional<definition_id_type> id_; std::string name_; std::shared_ptr<takatori::type::data const> type_; class criteria c_; std::string desc_;
};
class provider {
public:
    virtual ~provider() = default;
    using consumer_type = std::function<void(std::shared_ptr<declaration const> const&)>;
    virtual void each(consumer_type const& c) const = 0;
    [[nodiscard]] virtual std::shared_ptr<declaration const> find(std::string_view name) const = 0;
};
class configurable_provider : public provider {
public:
    explicit configurable_provider(std::shared_ptr<provider const> parent = {}) : parent_ { std::move(parent) } {}
    using provider::each;
    void each(consumer_type const& c) const override { for (auto& e : t_) { c(e.second); } if (parent_) { parent_->each(c); } }
    [[nodiscard]] std::shared_ptr<declaration const> find(std::string_view name) const override { if (auto r = impl_::lookup(t_, name)) { return r; } return parent_ ? parent_->find(name) : nullptr; }
    template<class U, class = std::enable_if_t<std::is_convertible_v<U*, declaration const*>>> std::shared_ptr<U> add(std::shared_ptr<U> v, bool = true) { t_[std::string { v->name() }] = v; return v; }
    std::shared_ptr<declaration> add(declaration&& v, bool = true) { return add(std::make_shared<declaration>(std::move(v))); }
    bool remove(std::string_view name) { auto it = t_.find(name); if (it == t_.end()) { return false; } t_.erase(it); return true; }
private:
    std::shared_ptr<provider const> parent_; impl_::table_of<declaration> t_ {};
};
} // namespace yugawara::variable

namespace yugawara::function {
enum class function_feature { scalar_function, table_valued_function };
inline constexpr std::string_view to_string_view(function_feature v) noexcept { return v == function_feature::scalar_function ? "scalar_function" : "table_valued_function"; }
inline std::ostream& operator<<(std::ostream& out, function_feature v) { return out << to_string_view(v); }
using function_feature_set = takatori::util::enum_set<function_feature, function_feature::scalar_function, function_feature::table_valued_function>;
} // namespace yugawara::function
namespace yugawara::impl_ {
/// the common part of scalar and set functions.
class callable {
public:
    using definition_id_type = std::size_t;
    using type_pointer = std::shared_ptr<takatori::type::data const>;
    static constexpr definition_id_type unresolved_definition_id = 0;
    static constexpr definition_id_type minimum_system_function_id = 1;
    static constexpr definition_id_type minimum_builtin_function_id = 10'000;
    static constexpr definition_id_type minimum_user_function_id = 20'000;
    callable(definition_id_type id, std::string name, type_pointer ret, std::vector<type_pointer> params, std::string desc) : id_ { id }, name_ { std::move(name) }, ret_ { std::move(ret) }, params_ { std::move(params) }, desc_ { std::move(desc) } {}
    virtual ~callable() = default;
    [[nodiscard]] definition_id_type definition_id() const noexcept { return id_; }
    [[nodiscard]] bool is_defined() const noexcept { return id_ != unresolved_definition_id; }
    [[nodiscard]] explicit operator bool() const noexcept { return is_defined(); }
    [[nodiscard]] std::string_view name() const noexcept { return name_; }
    [[nodiscard]] takatori::type::data const& return_type() const { return *ret_; }
    [[nodiscard]] type_pointer const& shared_return_type() const noexcept { return ret_; }
    [[nodiscard]] std::vector<type_pointer> const& shared_parameter_types() const noexcept { return params_; }
    [[nodiscard]] std::string const& description() const noexcept { return desc_; }
    friend bool operator==(callable const& a, callable const& b) {
        return a.id_ == b.id_ && a.name_ == b.name_ && *a.ret_ == *b.ret_
            && std::equal(a.params_.begin(), a.params_.end(), b.params_.begin(), b.params_.end(), [](auto& x, auto& y) { return *x == *y; });
    }
    friend bool operator!=(callable const& a, callable const& b) { return !(a == b); }
protected:
    static std::vector<type_pointer> types(std::initializer_list<takatori::util::rvalue_reference_wrapper<takatori::type::data>> v) { std::vector<type_pointer> r; for (auto& e : v) { r.emplace_back(takatori::util::clone_shared(e.get())); } return r; }
private:
    definition_id_type id_; std::string name_; type_pointer ret_; std::vector<type_pointer> params_; std::string desc_;
};
template<class D> class callable_provider {
public:
    virtual ~callable_provider() = default;
    using consumer_type = std::function<void(std::shared_ptr<D const> const&)>;
    virtual void each(consumer_type const& c) const = 0;
    virtual void each(std::string_view name, std::size_t count, consumer_type const& c) const = 0;
};
template<class D> class configurable_callable_provider : public callable_provider<D> {
public:
    using typename callable_provider<D>::consumer_type;
    void each(consumer_type const& c) const override { for (auto& e : t_) { c(e); } }
    void each(std::string_view name, std::size_t count, consumer_type const& c) const override { for (auto& e : t_) { if (e->name() == name && e->shared_parameter_types().size() == count) { c(e); } } }
    template<class U, class = std::enable_if_t<std::is_convertible_v<U*, D const*>>> std::shared_ptr<U> add(std::shared_ptr<U> v, bool = true) { t_.emplace_back(v); return v; }
    std::shared_ptr<D> add(D&& v, bool = true) { return add(std::make_shared<D>(std::move(v))); }
private:
    std::vector<std::shared_ptr<D const>> t_ {};
};
} // namespace yugawara::impl_
namespace yugawara::function {
class declaration : public impl_::callable {
public:
    using feature_set_type = function_feature_set;
    using type_vector = std::vector<type_pointer>;
    declaration(definition_id_type id, std::string name, type_pointer ret, type_vector params, feature_set_type f = { function_feature::scalar_function }, std::string desc = {}) : callable(id, std::move(name), std::move(ret), std::move(params), std::move(desc)), f_ { f } {}
    declaration(definition_id_type id, std::string_view name, takatori::type::data&& ret, std::initializer_list<takatori::util::rvalue_reference_wrapper<takatori::type::data>> params, feature_set_type f = { function_feature::scalar_function }, std::string desc = {}) : callable(id, std::string { name }, takatori::util::clone_shared(std::move(ret)), types(params), std::move(desc)), f_ { f } {}
    [[nodiscard]] feature_set_type& features() noexcept { return f_; }
    [[nodiscard]] feature_set_type const& features() const noexcept { return f_; }
    friend std::ostream& operator<<(std::ostream& out, declaration const& v) { return out << "function(" << v.name() << "#" << v.definition_id() << ")"; }
private:
    feature_set_type f_;
};
using provider = impl_::callable_provider<declaration>;
using configurable_provider = impl_::configurable_callable_provider<declaration>;
} // namespace yugawara::function
namespace yugawara::aggregate {
class declaration : public impl_::callable {
public:
    using type_vector = std::vector<type_pointer>;
    static constexpr std::string_view name_suffix_distinct { "$distinct" };
    declaration(definition_id_type id, std::string name, type_pointer ret, type_vector params, bool incremental, std::string desc = {}) : callable(id, std::move(name), std::move(ret), std::move(params), std::move(desc)), i_ { incremental } {}
    declaration(definition_id_type id, std::string_view name, takatori::type::data&& ret, std::initializer_list<takatori::util::rvalue_reference_wrapper<takatori::type::data>> params, bool incremental = false, std::string desc = {}) : callable(id, std::string { name }, takatori::util::clone_shared(std::move(ret)), types(params), std::move(desc)), i_ { incremental } {}
    [[nodiscard]] bool incremental() const noexcept { return i_; }
    friend std::ostream& operator<<(std::ostream& out, declaration const& v) { return out << "aggregate(" << v.name() << "#" << v.definition_id() << ")"; }
private:
    bool i_;
};
using provider = impl_::callable_provider<declaration>;
using configurable_provider = impl_::configurable_callable_provider<declaration>;
} // namespace yugawara::aggregate

namespace yugawara::storage {
class provider;
class sequence {
public:
    using definition_id_type = impl_::id_type;
    using value_type = std::int64_t;
    sequence(std::optional<definition_id_type> id, std::string name, value_type initial, value_type inc, value_type min, value_type max, bool cycle = true, std::string desc = {}) : id_ { id }, name_ { std::move(name) }, initial_ { initial }, inc_ { inc }, min_ { min }, max_ { max }, cycle_ { cycle }, desc_ { std::move(desc) } {}
    [[nodiscard]] std::optional<definition_id_type> definition_id() const noexcept { return id_; }
    [[nodiscard]] std::string_view simple_name() const noexcept { return name_; }
    [[nodiscard]] value_type initial_value() const noexcept { return initial_; }
    [[nodiscard]] value_type increment_value() const noexcept { return inc_; }
    [[nodiscard]] value_type min_value() const noexcept { return min_; }
    [[nodiscard]] value_type max_value() const noexcept { return max_; }
    [[nodiscard]] bool cycle() const noexcept { return cycle_; }
private:
    std::optional<definition_id_type> id_; std::string name_; value_type initial_, inc_, min_, max_; bool cycle_; std::string desc_;
};
enum class column_value_kind { nothing, immediate, function, sequence };
inline std::ostream& operator<<(std::ostream& out, column_value_kind v) { constexpr char const* n[] { "nothing", "immediate", "function", "sequence" }; return out << n[static_cast<std::size_t>(v)]; }
class column_value {
    template<column_value_kind K> static auto type_of() {
        if constexpr (K == column_value_kind::immediate) { return std::shared_ptr<takatori::value::data const> {}; }
        else if constexpr (K == column_value_kind::function) { return std::shared_ptr<yugawara::function::declaration const> {}; }
        else { return std::shared_ptr<storage::sequence const> {}; }
    }
public:
    template<column_value_kind K> using element_type = typename decltype(type_of<K>())::element_type;
    column_value() = default;
    column_value(std::nullptr_t) {}
    column_value(std::shared_ptr<takatori::value::data const> v) { if (v) { v_ = std::move(v); } }
    template<class U, class = std::enable_if_t<!std::is_reference_v<U> && std::is_base_of_v<takatori::value::data, U>>> column_value(U&& v) : column_value(std::shared_ptr<takatori::value::data const> { takatori::util::clone_shared(std::move(v)) }) {}
    template<class U, class = std::enable_if_t<std::is_convertible_v<U*, takatori::value::data const*> && !std::is_same_v<U, takatori::value::data const>>, class = void> column_value(std::shared_ptr<U> v) : column_value(std::shared_ptr<takatori::value::data const> { std::move(v) }) {}
    column_value(std::shared_ptr<yugawara::function::declaration const> v) { if (v) { v_ = std::move(v); } }
    column_value(std::shared_ptr<storage::sequence const> v) { if (v) { v_ = std::move(v); } }
    [[nodiscard]] column_value_kind kind() const noexcept { return static_cast<column_value_kind>(v_.index()); }
    [[nodiscard]] explicit operator bool() const noexcept { return kind() != column_value_kind::nothing; }
    template<column_value_kind K> [[nodiscard]] auto const& element() const { return std::get<static_cast<std::size_t>(K)>(v_); }
    friend bool operator==(column_value const& a, column_value const& b) {
        if (a.kind() != b.kind()) { return false; }
        if (a.kind() == column_value_kind::immediate) { return *std::get<1>(a.v_) == *std::get<1>(b.v_); }
        return a.v_ == b.v_;
    }
    friend bool operator!=(column_value const& a, column_value const& b) { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, column_value const& v) { return out << v.kind(); }
private:
    std::variant<std::monostate, std::shared_ptr<takatori::value::data const>, std::shared_ptr<yugawara::function::declaration const>, std::shared_ptr<storage::sequence const>> v_ {};
};
enum class column_feature { synthesized, hidden, read_only };
inline constexpr std::string_view to_string_view(column_feature v) noexcept { return v == column_feature::synthesized ? "synthesized" : (v == column_feature::hidden ? "hidden" : "read_only"); }
inline std::ostream& operator<<(std::ostream& out, column_feature v) { return out << to_string_view(v); }
using column_feature_set = takatori::util::enum_set<column_feature, column_feature::synthesized, column_feature::read_only>;

class relation;
class column {
public:
    column(std::string name, takatori::util::shared_arg<takatori::type::data> type, variable::criteria c = {}, column_value dv = {}, column_feature_set f = {}, std::string desc = {}) : name_ { std::move(name) }, type_ { std::move(type.p) }, c_ { c }, dv_ { std::move(dv) }, f_ { f }, desc_ { std::move(desc) } {}
    column(std::string_view name, takatori::util::shared_arg<takatori::type::data> type, variable::criteria c = {}, column_value dv = {}, column_feature_set f = {}, std::string desc = {}) : column(std::string { name }, std::move(type), c, std::move(dv), f, std::move(desc)) {}
    column(char const* name, takatori::util::shared_arg<takatori::type::data> type, variable::criteria c = {}, column_value dv = {}, column_feature_set f = {}, std::string desc = {}) : column(std::string { name }, std::move(type), c, std::move(dv), f, std::move(desc)) {}
    column(char const* name, takatori::util::shared_arg<takatori::type::data> type, variable::nullity n, column_value dv = {}, column_feature_set f = {}, std::string desc = {}) : column(std::string { name }, std::move(type), variable::criteria { n }, std::move(dv), f, std::move(desc)) {}
    [[nodiscard]] std::string_view simple_name() const noexcept { return name_; }
    friend bool operator==(column const& a, column const& b) noexcept { return std::addressof(a) == std::addressof(b); }
    friend bool operator!=(column const& a, column const& b) { return !(a == b); }
    [[nodiscard]] takatori::type::data const& type() const { return *type_; }
    [[nodiscard]] takatori::type::data const* optional_type() const noexcept { return type_.get(); }
    [[nodiscard]] std::shared_ptr<takatori::type::data const> const& shared_type() const noexcept { return type_; }
    [[nodiscard]] variable::criteria& criteria() noexcept { return c_; }
    [[nodiscard]] variable::criteria const& criteria() const noexcept { return c_; }
    [[nodiscard]] column_value& default_value() noexcept { return dv_; }
    [[nodiscard]] column_value const& default_value() const noexcept { return dv_; }
    [[nodiscard]] column_feature_set& features() noexcept { return f_; }
    [[nodiscard]] column_feature_set const& features() const noexcept { return f_; }
    [[nodiscard]] std::string const& description() const noexcept { return desc_; }
    [[nodiscard]] takatori::util::optional_ptr<relation const> optional_owner() const noexcept { return takatori::util::optional_ptr<relation const> { owner_ }; }
    [[nodiscard]] relation const& owner() const { if (!owner_) { takatori::util::throw_exception(std::logic_error("orphaned column")); } return *owner_; }
    [[nodiscard]] column* clone() const& { return new column(*this); }
    [[nodiscard]] column* clone() && { return new column(std::move(*this)); }
    friend std::ostream& operator<<(std::ostream& out, column const& v) { return out << "column(" << v.name_ << ")"; }
private:
    friend class table;
    std::string name_; std::shared_ptr<takatori::type::data const> type_; variable::criteria c_; column_value dv_; column_feature_set f_; std::string desc_; relation const* owner_ {};
};
enum class relation_kind { table, view };
inline std::ostream& operator<<(std::ostream& out, relation_kind v) { return out << (v == relation_kind::table ? "table" : "view"); }
class relation {
public:
    using column_list_view = takatori::util::reference_list_view<takatori::util::reference_vector<column> const>;
    virtual ~relation() = default;
    [[nodiscard]] virtual relation_kind kind() const noexcept = 0;
    [[nodiscard]] virtual std::string_view simple_name() const noexcept = 0;
    [[nodiscard]] virtual column_list_view columns() const noexcept = 0;
    [[nodiscard]] takatori::util::optional_ptr<provider const> owner() const noexcept { return takatori::util::optional_ptr<provider const> { owner_ }; }
    friend bool operator==(relation const& a, relation const& b) noexcept { return std::addressof(a) == std::addressof(b); }
    friend bool operator!=(relation const& a, relation const& b) noexcept { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, relation const& v) { return out << v.kind() << "(" << v.simple_name() << ")"; }
protected:
    relation() = default;
    void owner_of_(provider const* p) const noexcept { owner_ = p; }
private:
    friend class configurable_provider;
    mutable provider const* owner_ {};
};
class table final : public relation {
public:
    static constexpr relation_kind tag = relation_kind::table;
    using definition_id_type = impl_::id_type;
    table(std::optional<definition_id_type> id, std::string name, takatori::util::reference_vector<column> columns, std::string desc = {}) : id_ { id }, name_ { std::move(name) }, columns_ { std::move(columns) }, desc_ { std::move(desc) } { adopt(); }
    table(std::string_view name, std::initializer_list<column> columns, std::string desc = {}) : name_ { name }, desc_ { std::move(desc) } { for (auto& c : columns) { columns_.emplace_back(c); } adopt(); }
    table(table&& o) noexcept : id_ { o.id_ }, name_ { std::move(o.name_) }, columns_ { std::move(o.columns_) }, desc_ { std::move(o.desc_) } { adopt(); }
    table& operator=(table&&) = delete;
    [[nodiscard]] relation_kind kind() const noexcept override { return tag; }
    [[nodiscard]] std::optional<definition_id_type> definition_id() const noexcept { return id_; }
    [[nodiscard]] std::string_view simple_name() const noexcept override { return name_; }
    table& simple_name(std::string v) { name_ = std::move(v); return *this; }
    [[nodiscard]] column_list_view columns() const noexcept override { return columns_; }
    [[nodiscard]] takatori::util::reference_vector<column>& columns() noexcept { return columns_; }
    [[nodiscard]] std::string const& description() const noexcept { return desc_; }
private:
    std::optional<definition_id_type> id_ {}; std::string name_; takatori::util::reference_vector<column> columns_ {}; std::string desc_;
    void adopt() { for (auto& c : columns_) { c.owner_ = this; } }
};
namespace details {
class index_key_element {
public:
    using direction_type = takatori::relation::sort_direction;
    index_key_element(storage::column const& c, direction_type d = direction_type::ascendant) noexcept : c_ { std::addressof(c) }, d_ { d } {}
    [[nodiscard]] storage::column const& column() const noexcept { return *c_; }
    [[nodiscard]] direction_type direction() const noexcept { return d_; }
    friend bool operator==(index_key_element const& a, index_key_element const& b) noexcept { return a.c_ == b.c_ && a.d_ == b.d_; }
    friend bool operator!=(index_key_element const& a, index_key_element const& b) noexcept { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, index_key_element const& v) { return out << "key(" << *v.c_ << " " << v.d_ << ")"; }
private:
    storage::column const* c_; direction_type d_;
};
}
enum class index_feature { primary, find, scan, unique, unique_constraint };
inline constexpr std::string_view to_string_view(index_feature v) noexcept { constexpr std::string_view n[] { "primary", "find", "scan", "unique", "unique_constraint" }; return n[static_cast<std::size_t>(v)]; }
inline std::ostream& operator<<(std::ostream& out, index_feature v) { return out << to_string_view(v); }
using index_feature_set = takatori::util::enum_set<index_feature, index_feature::primary, index_feature::unique_constraint>;
class index {
public:
    using definition_id_type = impl_::id_type;
    using key = details::index_key_element;
    using column_ref = std::reference_wrapper<column const>;
    using feature_set_type = index_feature_set;
    index(std::optional<definition_id_type> id, std::shared_ptr<storage::table const> table, std::string name, std::vector<key> keys, std::vector<column_ref> values, index_feature_set f, std::string desc = {}) : id_ { id }, table_ { std::move(table) }, name_ { std::move(name) }, keys_ { std::move(keys) }, values_ { std::move(values) }, f_ { f }, desc_ { std::move(desc) } {}
    index(std::shared_ptr<storage::table const> table, std::string name, std::vector<key> keys = {}, std::vector<column_ref> values = {}, index_feature_set f = { index_feature::find, index_feature::scan }) : index(std::nullopt, std::move(table), std::move(name), std::move(keys), std::move(values), f) {}
    index(std::shared_ptr<storage::table const> table, std::string_view name, std::initializer_list<key> keys = {}, std::initializer_list<column_ref> values = {}, index_feature_set f = { index_feature::find, index_feature::scan }) : index(std::nullopt, std::move(table), std::string { name }, std::vector<key> { keys }, std::vector<column_ref> { values }, f) {}
    index(std::shared_ptr<storage::table const> table, char const* name, std::initializer_list<key> keys = {}, std::initializer_list<column_ref> values = {}, index_feature_set f = { index_feature::find, index_feature::scan }) : index(std::nullopt, std::move(table), std::string { name }, std::vector<key> { keys }, std::vector<column_ref> { values }, f) {}
    [[nodiscard]] std::optional<definition_id_type> definition_id() const noexcept { return id_; }
    [[nodiscard]] storage::table const& table() const { return *table_; }
    [[nodiscard]] std::shared_ptr<storage::table const> const& shared_table() const noexcept { return table_; }
    [[nodiscard]] std::string_view simple_name() const noexcept { return name_; }
    [[nodiscard]] std::vector<key>& keys() noexcept { return keys_; }
    [[nodiscard]] std::vector<key> const& keys() const noexcept { return keys_; }
    [[nodiscard]] std::vector<column_ref>& values() noexcept { return values_; }
    [[nodiscard]] std::vector<column_ref> const& values() const noexcept { return values_; }
    [[nodiscard]] index_feature_set& features() noexcept { return f_; }
    [[nodiscard]] index_feature_set const& features() const noexcept { return f_; }
    [[nodiscard]] std::string const& description() const noexcept { return desc_; }
    friend bool operator==(index const& a, index const& b) noexcept { return std::addressof(a) == std::addressof(b); }
    friend bool operator!=(index const& a, index const& b) noexcept { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, index const& v) { return out << "index(" << v.name_ << ")"; }
private:
    std::optional<definition_id_type> id_ {}; std::shared_ptr<storage::table const> table_; std::string name_; std::vector<key> keys_; std::vector<column_ref> values_; index_feature_set f_; std::string desc_;
};
class provider {
public:
    virtual ~provider() = default;
    using relation_consumer_type = std::function<void(std::string_view, std::shared_ptr<relation const> const&)>;
    using index_consumer_type = std::function<void(std::string_view, std::shared_ptr<index const> const&)>;
    virtual void each_relation(relation_consumer_type const& c) const = 0;
    virtual void each_index(index_consumer_type const& c) const = 0;
    [[nodiscard]] virtual std::shared_ptr<relation const> find_relation(std::string_view name) const = 0;
    [[nodiscard]] virtual std::shared_ptr<index const> find_index(std::string_view name) const = 0;
    [[nodiscard]] std::shared_ptr<table const> find_table(std::string_view name) const { return std::dynamic_pointer_cast<table const>(find_relation(name)); }
    [[nodiscard]] virtual std::shared_ptr<index const> find_primary_index(table const& t) const {
        std::shared_ptr<index const> r {};
        each_index([&](std::string_view, std::shared_ptr<index const> const& i) { if (!r && i->table() == t && i->features().contains(index_feature::primary)) { r = i; } });
        return r;
    }
    [[nodiscard]] virtual std::shared_ptr<sequence const> find_sequence(std::string_view) const { return {}; }
    void each_table_index(table const& t, index_consumer_type const& c) const { each_index([&](std::string_view n, std::shared_ptr<index const> const& i) { if (i->table() == t) { c(n, i); } }); }
};
class configurable_provider : public provider {
public:
    explicit configurable_provider(std::shared_ptr<provider const> parent = {}) : parent_ { std::move(parent) } {}
    ~configurable_provider() override { for (auto& e : relations_) { if (e.second->owner_ == this) { e.second->owner_of_(nullptr); } } }
    void each_relation(relation_consumer_type const& c) const override { for (auto& e : relations_) { c(e.first, e.second); } if (parent_) { parent_->each_relation(c); } }
    void each_index(index_consumer_type const& c) const override { for (auto& e : indices_) { c(e.first, e.second); } if (parent_) { parent_->each_index(c); } }
    [[nodiscard]] std::shared_ptr<relation const> find_relation(std::string_view name) const override { if (auto r = impl_::lookup(relations_, name)) { return r; } return parent_ ? parent_->find_relation(name) : nullptr; }
    [[nodiscard]] std::shared_ptr<index const> find_index(std::string_view name) const override { if (auto r = impl_::lookup(indices_, name)) { return r; } return parent_ ? parent_->find_index(name) : nullptr; }
    std::shared_ptr<relation const> add_relation(std::shared_ptr<relation const> v, bool = true) { v->owner_of_(this); relations_[std::string { v->simple_name() }] = v; return v; }
    std::shared_ptr<table const> add_table(std::shared_ptr<table const> v, bool = true) { add_relation(v); return v; }
    std::shared_ptr<table> add_table(table&& v, bool = true) { auto p = std::make_shared<table>(std::move(v)); add_relation(p); return p; }
    std::shared_ptr<index const> add_index(std::shared_ptr<index const> v, bool = true) { indices_[std::string { v->simple_name() }] = v; return v; }
    std::shared_ptr<index> add_index(index&& v, bool = true) { auto p = std::make_shared<index>(std::move(v)); add_index(p); return p; }
    std::shared_ptr<index const> add_index(std::shared_ptr<index> v, bool = true) { return add_index(std::shared_ptr<index const> { std::move(v) }); }
    bool remove_relation(std::string_view name) { auto it = relations_.find(name); if (it == relations_.end()) { return false; } relations_.erase(it); return true; }
    bool remove_index(std::string_view name) { auto it = indices_.find(name); if (it == indices_.end()) { return false; } indices_.erase(it); return true; }
private:
    std::shared_ptr<provider const> parent_; impl_::table_of<relation> relations_ {}; impl_::table_of<index> indices_ {};
};
} // namespace yugawara::storage

namespace yugawara::schema {
class declaration {
public:
    using definition_id_type = impl_::id_type;
    template<class T> using maybe = takatori::util::maybe_shared_ptr<T const>;
    declaration(std::optional<definition_id_type> id, std::string name, maybe<storage::provider> s = {}, maybe<variable::provider> v = {}, maybe<function::provider> f = {}, maybe<aggregate::provider> a = {}, std::string desc = {}) : id_ { id }, name_ { std::move(name) }, s_ { std::move(s) }, v_ { std::move(v) }, f_ { std::move(f) }, a_ { std::move(a) }, desc_ { std::move(desc) } { fill(); }
    declaration(std::string_view name, std::optional<definition_id_type> id = {}, std::shared_ptr<storage::provider const> s = {}, std::shared_ptr<variable::provider const> v = {}, std::shared_ptr<function::provider const> f = {}, std::shared_ptr<aggregate::provider const> a = {}) : declaration(id, std::string { name }, std::move(s), std::move(v), std::move(f), std::move(a)) {}
    [[nodiscard]] std::optional<definition_id_type> definition_id() const noexcept { return id_; }
    [[nodiscard]] std::string_view name() const noexcept { return name_; }
    [[nodiscard]] storage::provider const& storage_provider() const noexcept { return *s_; }
    [[nodiscard]] maybe<storage::provider> const& shared_storage_provider() const noexcept { return s_; }
    [[nodiscard]] variable::provider const& variable_provider() const noexcept { return *v_; }
    [[nodiscard]] maybe<variable::provider> const& shared_variable_provider() const noexcept { return v_; }
    [[nodiscard]] function::provider const& function_provider() const noexcept { return *f_; }
    [[nodiscard]] maybe<function::provider> const& shared_function_provider() const noexcept { return f_; }
    [[nodiscard]] aggregate::provider const& set_function_provider() const noexcept { return *a_; }
    [[nodiscard]] maybe<aggregate::provider> const& shared_set_function_provider() const noexcept { return a_; }
    [[nodiscard]] std::string const& description() const noexcept { return desc_; }
    friend bool operator==(declaration const& a, declaration const& b) noexcept { return std::addressof(a) == std::addressof(b); }
    friend bool operator!=(declaration const& a, declaration const& b) noexcept { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, declaration const& v) { return out << "schema(" << v.name_ << ")"; }
private:
    std::optional<definition_id_type> id_; std::string name_; maybe<storage::provider> s_; maybe<variable::provider> v_; maybe<function::provider> f_; maybe<aggregate::provider> a_; std::string desc_;
    void fill() {
        static storage::configurable_provider const s; static variable::configurable_provider const v; static function::configurable_provider const f; static aggregate::configurable_provider const a;
        if (!s_) { s_ = &s; } if (!v_) { v_ = &v; } if (!f_) { f_ = &f; } if (!a_) { a_ = &a; }
    }
};
class provider {
public:
    virtual ~provider() = default;
    using consumer_type = std::function<void(std::shared_ptr<declaration const> const&)>;
    virtual void each(consumer_type const& c) const = 0;
    [[nodiscard]] virtual std::shared_ptr<declaration const> find(std::string_view name) const = 0;
};
class configurable_provider : public provider {
public:
    void each(consumer_type const& c) const override { for (auto& e : t_) { c(e.second); } }
    [[nodiscard]] std::shared_ptr<declaration const> find(std::string_view name) const override { return impl_::lookup(t_, name); }
    template<class U, class = std::enable_if_t<std::is_convertible_v<U*, declaration const*>>> std::shared_ptr<U> add(std::shared_ptr<U> v, bool = true) { t_[std::string { v->name() }] = v; return v; }
    std::shared_ptr<declaration> add(declaration&& v, bool = true) { return add(std::make_shared<declaration>(std::move(v))); }
private:
    impl_::table_of<declaration> t_ {};
};
class catalog {
public:
    using definition_id_type = impl_::id_type;
    catalog(std::optional<definition_id_type> id, std::string name, takatori::util::maybe_shared_ptr<provider const> p = {}) : id_ { id }, name_ { std::move(name) }, p_ { std::move(p) } { fill(); }
    catalog(std::string_view name, std::optional<definition_id_type> id = {}, std::shared_ptr<provider const> p = {}) : catalog(id, std::string { name }, takatori::util::maybe_shared_ptr<provider const> { std::move(p) }) {}
    [[nodiscard]] std::optional<definition_id_type> definition_id() const noexcept { return id_; }
    [[nodiscard]] std::string_view name() const noexcept { return name_; }
    [[nodiscard]] provider const& schema_provider() const noexcept { return *p_; }
private:
    std::optional<definition_id_type> id_; std::string name_; takatori::util::maybe_shared_ptr<provider const> p_;
    void fill() { static configurable_provider const p; if (!p_) { p_ = &p; } }
};
class search_path {
public:
    using element_pointer = takatori::util::maybe_shared_ptr<declaration const>;
    using vector_type = std::vector<element_pointer>;
    search_path() = default;
    search_path(vector_type v) : v_ { std::move(v) } {}
    search_path(std::initializer_list<std::shared_ptr<declaration const>> v) { for (auto& e : v) { v_.emplace_back(e); } }
    [[nodiscard]] vector_type& elements() noexcept { return v_; }
    [[nodiscard]] vector_type const& elements() const noexcept { return v_; }
private:
    vector_type v_ {};
};
} // namespace yugawara::schema
