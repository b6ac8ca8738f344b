#pragma once
#include <takatori/impl_/descriptors.h>
#include <yugawara/impl_/schema.h>
namespace yugawara::binding {
namespace descriptor = ::takatori::descriptor;
enum class variable_info_kind { table_column, external_variable, exchange_column, frame_variable, stream_variable, local_variable };
inline constexpr std::string_view to_string_view(variable_info_kind v) noexcept { constexpr std::string_view n[] { "table_column", "external_variable", "exchange_column", "frame_variable", "stream_variable", "local_variable" }; return n[static_cast<std::size_t>(v)]; }
inline std::ostream& operator<<(std::ostream& out, variable_info_kind v) { return out << to_string_view(v); }
class variable_info : public descriptor::variable::entity_type {
public:
    [[nodiscard]] virtual variable_info_kind kind() const noexcept = 0;
};
/// a descriptor entity which refers a declaration.
template<class Base, class T>
class declaration_info : public Base {
public:
    explicit declaration_info(takatori::util::maybe_shared_ptr<T const> v) : v_ { std::move(v) } {}
    [[nodiscard]] T const& declaration() const { return *v_; }
    [[nodiscard]] takatori::util::maybe_shared_ptr<T const> const& maybe_shared_declaration() const { return v_; }
    [[nodiscard]] std::shared_ptr<T const> shared_declaration() const { return static_cast<std::shared_ptr<T const>>(v_); }
    [[nodiscard]] bool equals(typename Base::base_entity_ const& o) const noexcept override { auto p = dynamic_cast<declaration_info const*>(&o); return p != nullptr && p->v_.get() == v_.get(); }
    [[nodiscard]] std::size_t hash() const noexcept override { return std::hash<T const*> {}(v_.get()); }
    std::ostream& print_to(std::ostream& out) const override { return v_ ? out << *v_ : out << "(null)"; }
private:
    takatori::util::maybe_shared_ptr<T const> v_;
};
template<class D> struct entity_base_ : D::entity_type { using base_entity_ = typename D::entity_type; };
template<class D, class T> using info_of = declaration_info<entity_base_<D>, T>;
template<variable_info_kind K> struct variable_base_ : variable_info { using base_entity_ = descriptor::variable::entity_type; static constexpr variable_info_kind tag = K; [[nodiscard]] variable_info_kind kind() const noexcept override { return K; } };
using table_column_info = declaration_info<variable_base_<variable_info_kind::table_column>, storage::column>;
using external_variable_info = declaration_info<variable_base_<variable_info_kind::external_variable>, variable::declaration>;
template<variable_info_kind K> class labeled_info : public variable_base_<K> {
public:
    explicit labeled_info(std::string label = {}) : l_ { std::move(label) } {}
    [[nodiscard]] std::string_view label() const noexcept { return l_; }
    std::ostream& print_to(std::ostream& out) const override { return out << to_string_view(K) << "(" << l_ << "@" << static_cast<void const*>(this) << ")"; }
private:
    std::string l_;
};
using stream_variable_info = labeled_info<variable_info_kind::stream_variable>;
using local_variable_info = labeled_info<variable_info_kind::local_variable>;
using frame_variable_info = labeled_info<variable_info_kind::frame_variable>;
[[nodiscard]] inline variable_info const& unwrap(descriptor::variable const& v) { return dynamic_cast<variable_info const&>(v.entity()); }
[[nodiscard]] inline variable_info_kind kind_of(descriptor::variable const& v) { return unwrap(v).kind(); }
inline std::string label_of_(descriptor::variable const& v) {
    if (!v) { return {}; }
    auto e = v.optional_entity();
    if (auto p = dynamic_cast<stream_variable_info const*>(e)) { return std::string { p->label() }; }
    if (auto p = dynamic_cast<local_variable_info const*>(e)) { return std::string { p->label() }; }
    if (auto p = dynamic_cast<frame_variable_info const*>(e)) { return std::string { p->label() }; }
    if (auto p = dynamic_cast<table_column_info const*>(e)) { return std::string { p->declaration().simple_name() }; }
    return {};
}

class factory {
    template<class T> using maybe = takatori::util::maybe_shared_ptr<T const>;
public:
    [[nodiscard]] descriptor::variable table_column(storage::column const& c) const { return std::make_shared<table_column_info>(maybe<storage::column> { std::addressof(c) }); }
    [[nodiscard]] descriptor::variable table_column(maybe<storage::column> c) const { return std::make_shared<table_column_info>(std::move(c)); }
    [[nodiscard]] descriptor::variable external_variable(maybe<variable::declaration> c) const { return std::make_shared<external_variable_info>(std::move(c)); }
    [[nodiscard]] descriptor::variable stream_variable(std::string_view label = {}) const { return std::make_shared<stream_variable_info>(std::string { label }); }
    [[nodiscard]] descriptor::variable stream_variable(descriptor::variable const& v) const { return stream_variable(label_of_(v)); }
    [[nodiscard]] descriptor::variable local_variable(std::string_view label = {}) const { return std::make_shared<local_variable_info>(std::string { label }); }
    [[nodiscard]] descriptor::variable local_variable(descriptor::variable const& v) const { return local_variable(label_of_(v)); }
    [[nodiscard]] descriptor::variable frame_variable(std::string_view label = {}) const { return std::make_shared<frame_variable_info>(std::string { label }); }
    [[nodiscard]] descriptor::variable frame_variable(descriptor::variable const& v) const { return frame_variable(label_of_(v)); }
    [[nodiscard]] descriptor::relation index(maybe<storage::index> v) const { return std::make_shared<info_of<descriptor::relation, storage::index>>(std::move(v)); }
    [[nodiscard]] descriptor::relation index(storage::index const& v) const { return index(maybe<storage::index> { std::addressof(v) }); }
    [[nodiscard]] descriptor::storage storage(maybe<storage::table> v) const { return std::make_shared<info_of<descriptor::storage, storage::table>>(std::move(v)); }
    [[nodiscard]] descriptor::schema schema(maybe<schema::declaration> v) const { return std::make_shared<info_of<descriptor::schema, schema::declaration>>(std::move(v)); }
    [[nodiscard]] descriptor::function function(maybe<function::declaration> v) const { return std::make_shared<info_of<descriptor::function, function::declaration>>(std::move(v)); }
    [[nodiscard]] descriptor::aggregate_function aggregate_function(maybe<aggregate::declaration> v) const { return std::make_shared<info_of<descriptor::aggregate_function, aggregate::declaration>>(std::move(v)); }

    [[nodiscard]] descriptor::variable operator()(storage::column const& c) const { return table_column(c); }
    [[nodiscard]] descriptor::relation operator()(storage::index const& v) const { return index(v); }
    template<class P, class E = std::remove_const_t<typename P::element_type>> [[nodiscard]] auto operator()(P v) const { return of_(maybe<E> { std::shared_ptr<E const> { std::move(v) } }); }
    template<class P> [[nodiscard]] auto operator()(P* v) const { return of_(maybe<std::remove_const_t<P>> { static_cast<P const*>(v) }); }

    [[nodiscard]] descriptor::variable of_(maybe<storage::column> v) const { return table_column(std::move(v)); }
    [[nodiscard]] descriptor::variable of_(maybe<variable::declaration> v) const { return external_variable(std::move(v)); }
    [[nodiscard]] descriptor::relation of_(maybe<storage::index> v) const { return index(std::move(v)); }
    [[nodiscard]] descriptor::storage of_(maybe<storage::table> v) const { return storage(std::move(v)); }
    [[nodiscard]] descriptor::schema of_(maybe<schema::declaration> v) const { return schema(std::move(v)); }
    [[nodiscard]] descriptor::function of_(maybe<function::declaration> v) const { return function(std::move(v)); }
    [[nodiscard]] descriptor::aggregate_function of_(maybe<aggregate::declaration> v) const { return aggregate_function(std::move(v)); }
};

template<class D> struct default_target_;
template<> struct default_target_<descriptor::relation> { using type = storage::index; };
template<> struct default_target_<descriptor::storage> { using type = storage::table; };
template<> struct default_target_<descriptor::schema> { using type = schema::declaration; };
template<> struct default_target_<descriptor::function> { using type = function::declaration; };
template<> struct default_target_<descriptor::aggregate_function> { using type = aggregate::declaration; };
template<class T, descriptor::descriptor_kind K> auto info_cast_(descriptor::element<K> const& d) {
    if constexpr (K == descriptor::descriptor_kind::variable) {
        if constexpr (std::is_same_v<T, storage::column>) { return dynamic_cast<table_column_info const*>(d.optional_entity()); }
        else { return dynamic_cast<external_variable_info const*>(d.optional_entity()); }
    } else { return dynamic_cast<info_of<descriptor::element<K>, T> const*>(d.optional_entity()); }
}
template<class T, descriptor::descriptor_kind K> [[nodiscard]] T const& extract(descriptor::element<K> const& d) { auto p = info_cast_<T>(d); if (!p) { takatori::util::throw_exception(std::bad_cast {}); } return p->declaration(); }
template<descriptor::descriptor_kind K> [[nodiscard]] auto const& extract(descriptor::element<K> const& d) { return extract<typename default_target_<descriptor::element<K>>::type>(d); }
template<class T, descriptor::descriptor_kind K> [[nodiscard]] std::shared_ptr<T const> extract_shared(descriptor::element<K> const& d) { auto p = info_cast_<T>(d); if (!p) { takatori::util::throw_exception(std::bad_cast {}); } return p->shared_declaration(); }
template<descriptor::descriptor_kind K> [[nodiscard]] auto extract_shared(descriptor::element<K> const& d) { return extract_shared<typename default_target_<descriptor::element<K>>::type>(d); }
template<class T, descriptor::descriptor_kind K> [[nodiscard]] takatori::util::optional_ptr<T const> extract_if(descriptor::element<K> const& d) { auto p = info_cast_<T>(d); if (!p) { return {}; } return p->declaration(); }
template<descriptor::descriptor_kind K> [[nodiscard]] auto extract_if(descriptor::element<K> const& d) { return extract_if<typename default_target_<descriptor::element<K>>::type>(d); }
} // namespace yugawara::binding
