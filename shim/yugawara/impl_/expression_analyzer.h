#pragma once
#include <takatori/impl_/relations.h>
#include <takatori/impl_/scalars.h>
#include <yugawara/impl_/binding.h>
#include <yugawara/impl_/diagnostic.h>
#include <yugawara/impl_/extensions.h>
#include <yugawara/impl_/type_rules.h>
namespace yugawara::analyzer {
namespace tscalar_ = ::takatori::scalar;
namespace trelation_ = ::takatori::relation;
namespace ttype_ = ::takatori::type;
enum class expression_analyzer_code { unknown, unsupported_type, ambiguous_type, inconsistent_type, unresolved_variable, inconsistent_elements, inconsistent_function_type };
inline constexpr std::string_view to_string_view(expression_analyzer_code v) noexcept { constexpr std::string_view n[] { "unknown", "unsupported_type", "ambiguous_type", "inconsistent_type", "unresolved_variable", "inconsistent_elements", "inconsistent_function_type" }; return n[static_cast<std::size_t>(v)]; }
inline std::ostream& operator<<(std::ostream& out, expression_analyzer_code v) { return out << to_string_view(v); }
class variable_resolution {
public:
    variable_resolution() = default;
    variable_resolution(std::shared_ptr<ttype_::data const> t) : t_ { std::move(t) } {}
    template<class T, class = std::enable_if_t<std::is_base_of_v<ttype_::data, T>>> variable_resolution(std::shared_ptr<T> t) : t_ { std::move(t) } {}
    variable_resolution(ttype_::data&& t) : t_ { takatori::util::clone_shared(std::move(t)) } {}
    variable_resolution(storage::column const& c) : t_ { c.shared_type() } {}
    variable_resolution(variable::declaration const& c) : t_ { c.shared_type() } {}
    [[nodiscard]] bool is_resolved() const noexcept { return static_cast<bool>(t_); }
    [[nodiscard]] explicit operator bool() const noexcept { return is_resolved(); }
    [[nodiscard]] std::shared_ptr<ttype_::data const> const& shared_type_() const noexcept { return t_; }
private:
    std::shared_ptr<ttype_::data const> t_ {};
};
class expression_resolution {
public:
    expression_resolution() = default;
    explicit expression_resolution(std::shared_ptr<ttype_::data const> t) : t_ { std::move(t) } {}
    [[nodiscard]] bool is_resolved() const noexcept { return static_cast<bool>(t_); }
    [[nodiscard]] explicit operator bool() const noexcept { return is_resolved(); }
    [[nodiscard]] ttype_::data const& type() const { return *t_; }
    [[nodiscard]] std::shared_ptr<ttype_::data const> const& shared_type_() const noexcept { return t_; }
private:
    std::shared_ptr<ttype_::data const> t_ {};
};
class variable_mapping {
public:
    using descriptor_ = takatori::descriptor::variable;
    [[nodiscard]] variable_resolution find(descriptor_ const& v) const { if (auto it = m_.find(v); it != m_.end()) { return it->second; } return {}; }
    variable_resolution const& bind(descriptor_ const& v, variable_resolution r, bool overwrite = false) {
        auto it = m_.find(v);
        if (it != m_.end()) { if (!overwrite) { takatori::util::throw_exception(std::domain_error("rebind variable")); } it->second = std::move(r); return it->second; }
        return m_.emplace(v, std::move(r)).first->second;
    }
    void unbind(descriptor_ const& v) { m_.erase(v); }
    void clear() noexcept { m_.clear(); }
    [[nodiscard]] std::size_t size_() const noexcept { return m_.size(); }
private:
    std::unordered_map<descriptor_, variable_resolution> m_ {};
};
/// resolutions by the addresses of the expressions.
class expression_mapping {
    struct entry { expression_resolution r {}; std::shared_ptr<tscalar_::life_mark> m {}; };
public:
    expression_mapping() = default;
    expression_mapping(expression_mapping const&) = delete;
    expression_mapping& operator=(expression_mapping const&) = delete;
    ~expression_mapping() { clear(); }
    [[nodiscard]] expression_resolution find(tscalar_::expression const& e) const {
        if (auto it = m_.find(&e); it != m_.end() && it->second.m->alive) { return it->second.r; }
        if (*dead_ > 0) { ++tscalar_::stale_resolutions_; }
        return {};
    }
    void bind(tscalar_::expression const& e, expression_resolution r, bool = false) {
        unbind(e);
        if (!e.mark_) { e.mark_ = std::make_shared<tscalar_::life_mark>(); }
        e.mark_->dead = dead_.get();
        m_[&e] = { std::move(r), e.mark_ };
    }
    void unbind(tscalar_::expression const& e) {
        auto it = m_.find(&e);
        if (it == m_.end()) { return; }
        if (!it->second.m->alive) { --*dead_; }
        it->second.m->dead = nullptr;
        m_.erase(it);
    }
    void clear() noexcept {
        for (auto& [e, x] : m_) { (void) e; x.m->dead = nullptr; }
        m_.clear();
        *dead_ = 0;
    }
    [[nodiscard]] std::size_t size_() const noexcept { return m_.size(); }
private:
    std::unordered_map<tscalar_::expression const*, entry> m_ {};
    std::unique_ptr<std::size_t> dead_ { std::make_unique<std::size_t>(0) };
};

class expression_analyzer {
public:
    using code = expression_analyzer_code;
    using diagnostic_type = diagnostic<code>;
    using type_ptr = std::shared_ptr<ttype_::data const>;
    using type_repository = util::object_repository<ttype_::data>;
    [[nodiscard]] variable_mapping& variables() noexcept { return *v_; }
    [[nodiscard]] variable_mapping const& variables() const noexcept { return *v_; }
    [[nodiscard]] takatori::util::maybe_shared_ptr<variable_mapping> shared_variables() const { return v_; }
    [[nodiscard]] expression_mapping& expressions() noexcept { return *e_; }
    [[nodiscard]] expression_mapping const& expressions() const noexcept { return *e_; }
    [[nodiscard]] takatori::util::maybe_shared_ptr<expression_mapping> shared_expressions() const { return e_; }
    [[nodiscard]] bool allow_unresolved() const noexcept { return allow_; }
    expression_analyzer& allow_unresolved(bool v) noexcept { allow_ = v; return *this; }
    [[nodiscard]] bool has_diagnostics() const noexcept { return !d_.empty(); }
    [[nodiscard]] std::vector<diagnostic_type> const& diagnostics() const noexcept { return d_; }
    void clear_diagnostics() noexcept { d_.clear(); }

    [[nodiscard]] type_ptr resolve(tscalar_::expression const& e, bool validate, type_repository& repo) {
        if (!validate) { if (auto r = e_->find(e)) { return r.shared_type_(); } }
        auto before = d_.size();
        auto t = compute(e, validate, repo);
        if (!t) { if (d_.size() == before) { error(code::unknown, "cannot resolve type", e.region()); } return {}; }
        t = repo.get(*t);
        e_->bind(e, expression_resolution { t }, true);
        return t;
    }
    [[nodiscard]] bool resolve(trelation_::expression const& e, bool validate, bool recursive, type_repository& repo) {
        (void) recursive;
        auto before = d_.size();
        auto r = relation(e, validate, repo);
        return r && d_.size() == before;
    }
private:
    std::shared_ptr<variable_mapping> v_ { std::make_shared<variable_mapping>() };
    std::shared_ptr<expression_mapping> e_ { std::make_shared<expression_mapping>() };
    std::vector<diagnostic_type> d_ {};
    bool allow_ { false };

    std::nullptr_t error(code c, std::string m, takatori::document::region r) { d_.emplace_back(c, std::move(m), r); return nullptr; }
    type_ptr boolean() { return std::make_shared<ttype_::boolean>(); }
    type_ptr of(takatori::descriptor::variable const& v, takatori::document::region const& at) {
        if (auto r = v_->find(v)) { return r.shared_type_(); }
        auto* e = v.optional_entity();
        if (auto p = dynamic_cast<binding::table_column_info const*>(e)) { return p->declaration().shared_type(); }
        if (auto p = dynamic_cast<binding::external_variable_info const*>(e)) { return p->declaration().shared_type(); }
        if (allow_) { return std::make_shared<ttype_::unknown>(); }
        std::ostringstream s; s << "unresolved variable: " << v;
        return error(code::unresolved_variable, s.str(), at);
    }
    template<class... F> bool in(ttype_::data const& t, F... f) { auto x = type::family_of(t); return x == type::family::unknown || ((x == f) || ...); }
    type_ptr compute(tscalar_::expression const& e, bool validate, type_repository& repo) {
        using k = tscalar_::expression_kind;
        using fam = type::family;
        using code_ = code;
        auto sub = [&](tscalar_::expression const& x) { return resolve(x, validate, repo); };
        auto bad = [&](std::string m) -> type_ptr { return error(code_::inconsistent_type, std::move(m), e.region()); };
        switch (e.kind()) {
            case k::immediate: return static_cast<tscalar_::immediate const&>(e).shared_type();
            case k::variable_reference: { auto& x = static_cast<tscalar_::variable_reference const&>(e); return of(x.variable(), e.region()); }
            case k::unary: {
                auto& x = static_cast<tscalar_::unary const&>(e);
                using uo = tscalar_::unary_operator;
                auto kd = x.operator_kind();
                if (!validate && kd != uo::plus && kd != uo::sign_inversion && kd != uo::length) { return boolean(); } // the type is known without the operand
                auto t = sub(x.operand());
                if (!t) { return {}; }
                using o = tscalar_::unary_operator;
                switch (x.operator_kind()) {
                    case o::plus: case o::sign_inversion: if (!in(*t, fam::number) && t->kind() != ttype_::type_kind::datetime_interval) { return bad("unary numeric"); } return type::unary_promotion(t);
                    case o::conditional_not: if (!in(*t, fam::boolean)) { return bad("not"); } return boolean();
                    case o::length: if (!in(*t, fam::character, fam::octet)) { return bad("length"); } return std::make_shared<ttype_::int4>();
                    case o::is_null: return boolean();
                    default: if (!in(*t, fam::boolean)) { return bad("is <truth>"); } return boolean();
                }
            }
            case k::cast: { auto& x = static_cast<tscalar_::cast const&>(e); if (!sub(x.operand())) { return {}; } return repo.get(x.type()); }
            case k::binary: {
                auto& x = static_cast<tscalar_::binary const&>(e);
                if (!validate && (x.operator_kind() == tscalar_::binary_operator::conditional_and || x.operator_kind() == tscalar_::binary_operator::conditional_or)) { return boolean(); }
                auto l = sub(x.left());
                auto r = sub(x.right());
                if (!l || !r) { return {}; }
                using o = tscalar_::binary_operator;
                switch (x.operator_kind()) {
                    case o::conditional_and: case o::conditional_or: if (!in(*l, fam::boolean) || !in(*r, fam::boolean)) { return bad("logical operator"); } return boolean();
                    case o::concat: {
                        if (!(in(*l, fam::character) && in(*r, fam::character)) && !(in(*l, fam::octet) && in(*r, fam::octet))) { return bad("concatenation"); }
                        if (in(*l, fam::character) && in(*r, fam::character)) { return std::make_shared<ttype_::character>(ttype_::varying); }
                        return std::make_shared<ttype_::octet>(ttype_::varying);
                    }
                    default: {
                        if (in(*l, fam::temporal) && in(*r, fam::temporal) && (l->kind() == ttype_::type_kind::datetime_interval || r->kind() == ttype_::type_kind::datetime_interval || x.operator_kind() == o::subtract)) { return l; }
                        auto t = type::binary_promotion(l, r);
                        if (!t) { return bad("arithmetic operator"); }
                        return t;
                    }
                }
            }
            case k::compare: {
                if (!validate) { return boolean(); }
                auto& x = static_cast<tscalar_::compare const&>(e);
                auto l = sub(x.left());
                auto r = sub(x.right());
                if (!l || !r) { return {}; }
                if (!type::unify(l, r)) { return bad("comparison"); }
                return boolean();
            }
            case k::match: {
                if (!validate) { return boolean(); }
                auto& x = static_cast<tscalar_::match const&>(e);
                auto a = sub(x.input());
                auto b = sub(x.pattern());
                if (!a || !b) { return {}; }
                if (!in(*a, fam::character) || !in(*b, fam::character)) { return bad("match"); }
                if (auto esc = x.optional_escape()) { auto c = sub(*esc); if (!c) { return {}; } if (!in(*c, fam::character)) { return bad("match"); } }
                return boolean();
            }
            case k::conditional: {
                auto& x = static_cast<tscalar_::conditional const&>(e);
                type_ptr r = std::make_shared<ttype_::unknown>();
                for (auto&& a : x.alternatives()) {
                    auto c = sub(a.condition());
                    auto b = sub(a.body());
                    if (!c || !b) { return {}; }
                    if (!in(*c, fam::boolean)) { return bad("condition"); }
                    r = type::unify(r, b);
                    if (!r) { return bad("conditional"); }
                }
                if (auto de = x.default_expression()) { auto b = sub(*de); if (!b) { return {}; } r = type::unify(r, b); if (!r) { return bad("conditional"); } }
                return r;
            }
            case k::coalesce: {
                auto& x = static_cast<tscalar_::coalesce const&>(e);
                type_ptr r = std::make_shared<ttype_::unknown>();
                for (auto&& a : x.alternatives()) { auto b = sub(a); if (!b) { return {}; } r = type::unify(r, b); if (!r) { return bad("coalesce"); } }
                return r;
            }
            case k::let: {
                auto& x = static_cast<tscalar_::let const&>(e);
                for (auto&& d : x.variables()) { auto t = sub(d.value()); if (!t) { return {}; } v_->bind(d.variable(), t, true); }
                return sub(x.body());
            }
            case k::function_call: {
                auto& x = static_cast<tscalar_::function_call const&>(e);
                auto f = binding::extract_if<function::declaration>(x.function());
                if (!f) { return bad("function"); }
                return call(*f, x.arguments(), e, validate, repo);
            }
            case k::extension: return extension(static_cast<tscalar_::extension const&>(e), validate, repo);
        }
        return {};
    }
    template<class A> type_ptr call(impl_::callable const& f, A const& args, tscalar_::expression const& e, bool validate, type_repository& repo) {
        if (args.size() != f.shared_parameter_types().size()) { return error(code::inconsistent_elements, "argument count", e.region()); }
        std::size_t i = 0;
        for (auto&& a : args) {
            auto t = resolve(a, validate, repo);
            if (!t) { return {}; }
            if (validate && type::is_parameter_application_convertible(*t, *f.shared_parameter_types()[i]) == util::ternary::no) { return error(code::inconsistent_function_type, "argument type", e.region()); }
            ++i;
        }
        return f.shared_return_type();
    }
    type_ptr extension(tscalar_::extension const& e, bool validate, type_repository& repo) {
        namespace x = yugawara::extension::scalar;
        if (auto p = dynamic_cast<x::subquery const*>(&e)) { return of(p->output_column(), e.region()); }
        if (dynamic_cast<x::exists const*>(&e)) { return boolean(); }
        if (auto p = dynamic_cast<x::quantified_compare const*>(&e)) {
            if (!validate) { return boolean(); }
            auto l = resolve(p->left(), validate, repo);
            auto r = of(p->right_column(), e.region());
            if (!l || !r) { return {}; }
            if (!type::unify(l, r)) { return error(code::inconsistent_type, "quantified comparison", e.region()); }
            return boolean();
        }
        if (auto p = dynamic_cast<x::aggregate_function_call const*>(&e)) {
            auto f = binding::extract_if<aggregate::declaration>(p->function());
            if (!f) { return error(code::inconsistent_type, "aggregate function", e.region()); }
            return call(*f, p->arguments(), e, validate, repo);
        }
        return error(code::unsupported_type, "unknown extension", e.region());
    }
    bool condition(tscalar_::expression const& e, bool validate, type_repository& repo) {
        auto t = resolve(e, validate, repo);
        if (!t) { return false; }
        if (!in(*t, type::family::boolean)) { error(code::inconsistent_type, "condition must be boolean", e.region()); return false; }
        return true;
    }
    bool relation(trelation_::expression const& e, bool validate, type_repository& repo) {
        using k = trelation_::expression_kind;
        namespace im = trelation_::intermediate;
        switch (e.kind()) {
            case k::scan: {
                for (auto&& c : static_cast<trelation_::scan const&>(e).columns()) { auto t = of(c.source(), e.region()); if (!t) { return false; } v_->bind(c.destination(), t, true); }
                return true;
            }
            case k::values: {
                auto& x = static_cast<trelation_::values const&>(e);
                std::vector<type_ptr> ts(x.columns().size(), std::make_shared<ttype_::unknown>());
                for (auto&& r : x.rows()) {
                    if (r.elements().size() != ts.size()) { error(code::inconsistent_elements, "number of elements of rows", e.region()); return false; }
                    for (std::size_t i = 0; i < ts.size(); ++i) {
                        auto t = resolve(r.elements()[i], validate, repo);
                        if (!t) { return false; }
                        ts[i] = type::unify(ts[i], t);
                        if (!ts[i]) { error(code::inconsistent_type, "elements of values", r.elements()[i].region()); return false; }
                    }
                }
                for (std::size_t i = 0; i < ts.size(); ++i) { v_->bind(x.columns()[i], repo.get(*ts[i]), true); }
                return true;
            }
            case k::project: {
                for (auto&& c : static_cast<trelation_::project const&>(e).columns()) { auto t = resolve(c.value(), validate, repo); if (!t) { return false; } v_->bind(c.variable(), t, true); }
                return true;
            }
            case k::filter: return condition(static_cast<trelation_::filter const&>(e).condition(), validate, repo);
            case k::apply: {
                auto& x = static_cast<trelation_::apply const&>(e);
                auto f = binding::extract_if<function::declaration>(x.function());
                if (!f || f->return_type().kind() != ttype_::type_kind::table) { error(code::inconsistent_type, "table function", e.region()); return false; }
                auto& t = static_cast<ttype_::table const&>(f->return_type());
                for (auto&& a : x.arguments()) { if (!resolve(a, validate, repo)) { return false; } }
                for (auto&& c : x.columns()) { v_->bind(c.variable(), t.columns().at(c.position()).shared_type(), true); }
                return true;
            }
            case k::intermediate_join: {
                auto& x = static_cast<im::join const&>(e);
                if (auto c = x.condition(); c) { return condition(*c, validate, repo); }
                return true;
            }
            case k::intermediate_aggregate: {
                for (auto&& c : static_cast<im::aggregate const&>(e).columns()) {
                    auto f = binding::extract_if<aggregate::declaration>(c.function());
                    if (!f) { error(code::inconsistent_type, "aggregate function", e.region()); return false; }
                    v_->bind(c.destination(), f->shared_return_type(), true);
                }
                return true;
            }
            case k::intermediate_union: {
                for (auto&& m : static_cast<im::union_ const&>(e).mappings()) {
                    type_ptr t = std::make_shared<ttype_::unknown>();
                    if (m.left()) { auto l = of(*m.left(), e.region()); if (!l) { return false; } t = l; }
                    if (m.right()) { auto r = of(*m.right(), e.region()); if (!r) { return false; } t = type::unify(t, r); }
                    if (!t) { error(code::inconsistent_type, "union", e.region()); return false; }
                    v_->bind(m.destination(), repo.get(*t), true);
                }
                return true;
            }
            case k::intermediate_intersection: return pairs(static_cast<im::intersection const&>(e).group_key_pairs(), e);
            case k::intermediate_difference: return pairs(static_cast<im::difference const&>(e).group_key_pairs(), e);
            case k::intermediate_extension: {
                if (auto p = dynamic_cast<yugawara::extension::relation::subquery const*>(&e)) {
                    for (auto&& m : p->mappings()) {
                        if (!v_->find(m.source())) { for (auto&& inner : p->query_graph()) { if (!relation(inner, validate, repo)) { return false; } } break; }
                    }
                    for (auto&& m : p->mappings()) { auto t = of(m.source(), e.region()); if (!t) { return false; } v_->bind(m.destination(), t, true); }
                    return true;
                }
                return false;
            }
            default: return true;
        }
    }
    template<class P> bool pairs(P const& ps, trelation_::expression const& e) {
        for (auto&& p : ps) { auto l = of(p.left(), e.region()); auto r = of(p.right(), e.region()); if (!l || !r) { return false; } if (!type::unify(l, r)) { error(code::inconsistent_type, "set operation", e.region()); return false; } }
        return true;
    }
};
} // namespace yugawara::analyzer
namespace yugawara {
class compiled_info {
public:
    compiled_info() = default;
    compiled_info(std::shared_ptr<analyzer::expression_mapping const> e, std::shared_ptr<analyzer::variable_mapping const> v) : e_ { std::move(e) }, v_ { std::move(v) } {}
    [[nodiscard]] analyzer::expression_mapping const& expressions() const { return *e_; }
    [[nodiscard]] analyzer::variable_mapping const& variables() const { return *v_; }
    [[nodiscard]] takatori::type::data const& type_of(takatori::scalar::expression const& e) const { return e_->find(e).type(); }
    [[nodiscard]] takatori::type::data const& type_of(takatori::descriptor::variable const& v) const { return *v_->find(v).shared_type_(); }
private:
    std::shared_ptr<analyzer::expression_mapping const> e_; std::shared_ptr<analyzer::variable_mapping const> v_;
};
}
