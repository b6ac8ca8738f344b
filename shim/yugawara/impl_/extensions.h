#pragma once
#include <takatori/impl_/scalars.h>
#include <takatori/impl_/relations.h>
#include <yugawara/impl_/binding.h>
namespace yugawara::extension {
namespace descriptor = ::takatori::descriptor;
namespace impl_ {
inline takatori::relation::graph_type copy_graph(takatori::relation::graph_type const& g) { takatori::relation::graph_type r {}; takatori::relation::merge_into(g, r); return r; }
/// finds the sole output port which is not connected.
template<class G> auto find_output(G& g) {
    using P = std::conditional_t<std::is_const_v<G>, takatori::relation::output_port const, takatori::relation::output_port>;
    P* r = nullptr;
    for (auto&& e : g) { auto ports = e.output_ports(); for (auto&& p : ports) { if (!p.opposite()) { if (r != nullptr) { return takatori::util::optional_ptr<P> {}; } r = std::addressof(p); } } }
    return takatori::util::optional_ptr<P> { r };
}
}
enum class scalar_extension_id : std::size_t { subquery = 101, exists, quantified_compare, aggregate_function_call };
using mapping_element = takatori::relation::details::mapping_element;
} // namespace yugawara::extension
namespace yugawara::extension::scalar {
using tbase = takatori::scalar::extension;
using takatori::scalar::expression;
using parameter_ = mapping_element;
#define TSHIM_EXT(D) \
    static constexpr extension_id_type extension_tag = static_cast<extension_id_type>(scalar_extension_id::D); \
    static constexpr auto tag_ = scalar_extension_id::D; \
    [[nodiscard]] extension_id_type extension_id() const noexcept override { return extension_tag; } \
    [[nodiscard]] D* clone() const& override { auto* r = copy_(); r->region() = region(); return r; } \
    [[nodiscard]] D* clone() && override { auto* r = copy_(); r->region() = region(); return r; } \
    static bool is_instance(tbase const& e) { return e.extension_id() == extension_tag; }
class subquery final : public tbase {
public:
    using parameter_type = parameter_;
    using graph_type = takatori::relation::graph_type;
    TSHIM_EXT(subquery)
    subquery(graph_type g, std::vector<parameter_type> p, descriptor::variable out) : g_ { std::move(g) }, p_ { std::move(p) }, o_ { std::move(out) } {}
    subquery(graph_type g, descriptor::variable out) : subquery(std::move(g), {}, std::move(out)) {}
    [[nodiscard]] graph_type& query_graph() noexcept { return g_; }
    [[nodiscard]] graph_type const& query_graph() const noexcept { return g_; }
    [[nodiscard]] std::vector<parameter_type>& parameters() noexcept { return p_; }
    [[nodiscard]] std::vector<parameter_type> const& parameters() const noexcept { return p_; }
    [[nodiscard]] descriptor::variable& output_column() noexcept { return o_; }
    [[nodiscard]] descriptor::variable const& output_column() const noexcept { return o_; }
    [[nodiscard]] auto find_output_port() noexcept { return impl_::find_output(g_); }
    [[nodiscard]] auto find_output_port() const noexcept { return impl_::find_output(g_); }
protected:
    [[nodiscard]] bool same_extension(tbase const& o) const noexcept override { return this == &o; }
    std::ostream& print_to(std::ostream& out) const override { return out << "subquery(" << g_ << ", " << o_ << ")"; }
private:
    graph_type g_; std::vector<parameter_type> p_; descriptor::variable o_;
    subquery* copy_() const { return new subquery(impl_::copy_graph(g_), p_, o_); }
};
class exists final : public tbase {
public:
    using parameter_type = parameter_;
    using graph_type = takatori::relation::graph_type;
    TSHIM_EXT(exists)
    explicit exists(graph_type g, std::vector<parameter_type> p = {}) : g_ { std::move(g) }, p_ { std::move(p) } {}
    [[nodiscard]] graph_type& query_graph() noexcept { return g_; }
    [[nodiscard]] graph_type const& query_graph() const noexcept { return g_; }
    [[nodiscard]] std::vector<parameter_type>& parameters() noexcept { return p_; }
    [[nodiscard]] std::vector<parameter_type> const& parameters() const noexcept { return p_; }
    [[nodiscard]] auto find_output_port() noexcept { return impl_::find_output(g_); }
    [[nodiscard]] auto find_output_port() const noexcept { return impl_::find_output(g_); }
protected:
    [[nodiscard]] bool same_extension(tbase const& o) const noexcept override { return this == &o; }
    std::ostream& print_to(std::ostream& out) const override { return out << "exists(" << g_ << ")"; }
private:
    graph_type g_; std::vector<parameter_type> p_;
    exists* copy_() const { return new exists(impl_::copy_graph(g_), p_); }
};
class quantified_compare final : public tbase {
public:
    using parameter_type = parameter_;
    using graph_type = takatori::relation::graph_type;
    using operator_kind_type = takatori::scalar::comparison_operator;
    using quantifier_type = takatori::scalar::quantifier;
    TSHIM_EXT(quantified_compare)
    quantified_compare(operator_kind_type op, quantifier_type q, takatori::util::owned<expression> left, graph_type g, std::vector<parameter_type> p, descriptor::variable rc) : op_ { op }, q_ { q }, left_ { std::move(left.p) }, g_ { std::move(g) }, p_ { std::move(p) }, r_ { std::move(rc) } {}
    [[nodiscard]] operator_kind_type operator_kind() const noexcept { return op_; }
    [[nodiscard]] quantifier_type quantifier() const noexcept { return q_; }
    [[nodiscard]] expression& left() { return *left_; }
    [[nodiscard]] expression const& left() const { return *left_; }
    [[nodiscard]] takatori::util::ownership_reference<expression> ownership_left() { return takatori::util::ownership_reference<expression> { left_ }; }
    [[nodiscard]] std::unique_ptr<expression> release_left() { return std::move(left_); }
    [[nodiscard]] graph_type& query_graph() noexcept { return g_; }
    [[nodiscard]] graph_type const& query_graph() const noexcept { return g_; }
    [[nodiscard]] std::vector<parameter_type>& parameters() noexcept { return p_; }
    [[nodiscard]] std::vector<parameter_type> const& parameters() const noexcept { return p_; }
    [[nodiscard]] descriptor::variable& right_column() noexcept { return r_; }
    [[nodiscard]] descriptor::variable const& right_column() const noexcept { return r_; }
    [[nodiscard]] auto find_output_port() noexcept { return impl_::find_output(g_); }
    [[nodiscard]] auto find_output_port() const noexcept { return impl_::find_output(g_); }
    void each_operand_(std::function<void(expression const&)> const& f) const override { if (left_) { f(*left_); } }
protected:
    [[nodiscard]] bool same_extension(tbase const& o) const noexcept override { return this == &o; }
    std::ostream& print_to(std::ostream& out) const override { return out << "quantified_compare(" << op_ << " " << q_ << ", " << *left_ << ", " << g_ << ", " << r_ << ")"; }
private:
    operator_kind_type op_; quantifier_type q_; std::unique_ptr<expression> left_; graph_type g_; std::vector<parameter_type> p_; descriptor::variable r_;
    quantified_compare* copy_() const { return new quantified_compare(op_, q_, takatori::util::clone_or_null(left_), impl_::copy_graph(g_), p_, r_); }
};
class aggregate_function_call final : public tbase {
public:
    TSHIM_EXT(aggregate_function_call)
    explicit aggregate_function_call(descriptor::aggregate_function f, takatori::util::reference_vector<expression> a = {}) : f_ { std::move(f) }, a_ { std::move(a) } {}
    aggregate_function_call(descriptor::aggregate_function f, std::vector<std::unique_ptr<expression>> a) : f_ { std::move(f) }, a_ { std::move(a) } {}
    aggregate_function_call(descriptor::aggregate_function f, std::initializer_list<takatori::util::rvalue_reference_wrapper<expression>> a) : f_ { std::move(f) }, a_ { a } {}
    aggregate_function_call(aggregate_function_call const& o) : f_ { o.f_ } { for (auto&& e : o.a_) { a_.push_back(std::unique_ptr<expression> { e.clone() }); } region() = o.region(); }
    [[nodiscard]] descriptor::aggregate_function& function() noexcept { return f_; }
    [[nodiscard]] descriptor::aggregate_function const& function() const noexcept { return f_; }
    [[nodiscard]] takatori::util::reference_vector<expression>& arguments() noexcept { return a_; }
    [[nodiscard]] takatori::util::reference_vector<expression> const& arguments() const noexcept { return a_; }
    void each_operand_(std::function<void(expression const&)> const& f) const override { for (auto&& e : a_) { f(e); } }
protected:
    [[nodiscard]] bool same_extension(tbase const& o) const noexcept override { if (o.extension_id() != extension_tag) { return false; } auto& v = static_cast<aggregate_function_call const&>(o); return f_ == v.f_ && a_ == v.a_; }
    std::ostream& print_to(std::ostream& out) const override { return out << "aggregate_function_call(" << f_ << ", " << a_ << ")"; }
private:
    descriptor::aggregate_function f_; takatori::util::reference_vector<expression> a_ {};
    aggregate_function_call* copy_() const { return new aggregate_function_call(*this); }
};
#undef TSHIM_EXT
} // namespace yugawara::extension::scalar
namespace yugawara::extension::relation {
class subquery final : public takatori::relation::intermediate::extension {
public:
    using mapping_type = mapping_element;
    using graph_type = takatori::relation::graph_type;
    using output_port_type = takatori::relation::output_port;
    static constexpr extension_id_type extension_tag = 201;
    [[nodiscard]] extension_id_type extension_id() const noexcept override { return extension_tag; }
    subquery(graph_type g, std::vector<mapping_type> m, bool is_clone = false) : g_ { std::move(g) }, m_ { std::move(m) }, c_ { is_clone }, output_ { *this, 0 } {}
    [[nodiscard]] subquery* clone() const& override { auto* r = new subquery(impl_::copy_graph(g_), m_, true); r->region() = region(); return r; }
    [[nodiscard]] subquery* clone() && override { auto* r = new subquery(std::move(g_), std::move(m_), c_); r->region() = region(); return r; }
    [[nodiscard]] graph_type& query_graph() noexcept { return g_; }
    [[nodiscard]] graph_type const& query_graph() const noexcept { return g_; }
    [[nodiscard]] std::vector<mapping_type>& mappings() noexcept { return m_; }
    [[nodiscard]] std::vector<mapping_type> const& mappings() const noexcept { return m_; }
    [[nodiscard]] bool is_clone() const noexcept { return c_; }
    [[nodiscard]] output_port_type& output() noexcept { return output_; }
    [[nodiscard]] output_port_type const& output() const noexcept { return output_; }
    [[nodiscard]] auto find_output_port() noexcept { return impl_::find_output(g_); }
    [[nodiscard]] auto find_output_port() const noexcept { return impl_::find_output(g_); }
protected:
    std::vector<output_port_type*> outputs_() override { return { &output_ }; }
    std::ostream& print_to(std::ostream& out) const override { out << "subquery(" << g_ << ", ["; for (auto& e : m_) { out << e << ","; } return out << "])"; }
private:
    graph_type g_; std::vector<mapping_type> m_; bool c_; output_port_type output_;
};
} // namespace yugawara::extension::relation
