// Reads a real syntax tree through its public accessors into a neutral tree.
// Uses the dynamic C++ type only: dispatch(), node_kind(), serialize() and operator== are not relied on.
#pragma once
#include <stdexcept>
#include <typeindex>
#include <typeinfo>
#include <unordered_map>

#include "ast_all.h"
#include "tree.h"

namespace mc {
namespace A = ::mizugaki::ast;

class Reader {
public:
    bool check_kinds = true; // node_kind() must agree with the dynamic type

    T read(A::compilation_unit const& u) {
        T t("compilation_unit");
        t.add("statements", vec(u.statements()));
        std::vector<T> c;
        for (auto r : u.comments()) { T x("#comment"); pos(x, r); c.push_back(std::move(x)); }
        t.add("comments", list(std::move(c)));
        return t;
    }

    template<class N> T read_ptr(std::unique_ptr<N> const& p) { return p ? read(*p) : T {}; }

    // ---- names, types, literals
    T read(A::name::name const& n) {
        if (auto* p = dynamic_cast<A::name::simple const*>(&n)) return read(*p);
        auto* q = dynamic_cast<A::name::qualified const*>(&n);
        if (!q) fail("name");
        T t = node("name.qualified", n, q->node_kind() == A::name::kind::qualified);
        t.add("qualifier", read_ptr(q->qualifier()));
        t.add("last", read_ptr(q->last()));
        return t;
    }
    T read(A::name::simple const& s) {
        T t = node("name.simple", s, s.node_kind() == A::name::kind::simple);
        t.add("identifier", leaf(s.identifier()));
        t.add("identifier_kind", en(s.identifier_kind()));
        return t;
    }
    T read(A::type::type const& x) {
        using namespace A::type;
        auto& ti = typeid(x);
        auto K = [&](kind k) { return x.node_kind() == k; };
        if (ti == typeid(simple)) {
            T t = node("type.simple", x, true);
            t.add("kind", en(x.node_kind()));
            return t;
        }
        if (ti == typeid(character_string)) {
            auto& v = static_cast<character_string const&>(x);
            T t = node("type.character_string", x, K(*v.type_kind()));
            t.add("type_kind", ren(v.type_kind()));
            t.add("length", size(v.length()));
            if (v.is_varying() != (*v.type_kind() == kind::character_varying)) bad("is_varying");
            if (v.is_flexible_length() != (v.length() && *v.length() == std::size_t(-1))) bad("is_flexible_length");
            return t;
        }
        if (ti == typeid(octet_string)) {
            auto& v = static_cast<octet_string const&>(x);
            T t = node("type.octet_string", x, K(*v.type_kind()));
            t.add("type_kind", ren(v.type_kind()));
            t.add("length", size(v.length()));
            if (v.is_varying() != (*v.type_kind() == kind::octet_varying)) bad("is_varying");
            if (v.is_flexible_length() != (v.length() && *v.length() == std::size_t(-1))) bad("is_flexible_length");
            return t;
        }
        if (ti == typeid(bit_string)) {
            auto& v = static_cast<bit_string const&>(x);
            T t = node("type.bit_string", x, K(*v.type_kind()));
            t.add("type_kind", ren(v.type_kind()));
            t.add("length", size(v.length()));
            if (v.is_varying() != (*v.type_kind() == kind::bit_varying)) bad("is_varying");
            if (v.is_flexible_length() != (v.length() && *v.length() == std::size_t(-1))) bad("is_flexible_length");
            return t;
        }
        if (ti == typeid(decimal)) {
            auto& v = static_cast<decimal const&>(x);
            T t = node("type.decimal", x, K(*v.type_kind()));
            t.add("type_kind", ren(v.type_kind()));
            t.add("precision", size(v.precision()));
            t.add("scale", size(v.scale()));
            if (v.is_flexible_precision() != (v.precision() && *v.precision() == std::size_t(-1))) bad("is_flexible_precision");
            if (v.is_flexible_scale() != (v.scale() && *v.scale() == std::size_t(-1))) bad("is_flexible_scale");
            return t;
        }
        if (ti == typeid(binary_numeric)) {
            auto& v = static_cast<binary_numeric const&>(x);
            T t = node("type.binary_numeric", x, K(*v.type_kind()));
            t.add("type_kind", ren(v.type_kind()));
            t.add("precision", size(v.precision()));
            return t;
        }
        if (ti == typeid(datetime)) {
            auto& v = static_cast<datetime const&>(x);
            T t = node("type.datetime", x, K(*v.type_kind()));
            t.add("type_kind", ren(v.type_kind()));
            if (v.has_time_zone()) t.add("has_time_zone", rb(*v.has_time_zone()));
            return t;
        }
        if (ti == typeid(interval)) return node("type.interval", x, K(kind::interval));
        if (ti == typeid(row)) {
            auto& v = static_cast<row const&>(x);
            T t = node("type.row", x, K(kind::row));
            t.add("elements", vec(v.elements()));
            return t;
        }
        if (ti == typeid(user_defined)) {
            auto& v = static_cast<user_defined const&>(x);
            T t = node("type.user_defined", x, K(kind::user_defined));
            t.add("name", read_ptr(v.name()));
            return t;
        }
        if (ti == typeid(collection)) {
            auto& v = static_cast<collection const&>(x);
            T t = node("type.collection", x, K(kind::collection));
            t.add("element", read_ptr(v.element()));
            t.add("length", size(v.length()));
            if (v.is_flexible_length() != (v.length() && *v.length() == std::size_t(-1))) bad("is_flexible_length");
            return t;
        }
        fail("type");
    }
    T read(A::type::field_definition const& f) {
        T t = elem("type.field_definition", f);
        t.add("name", read_ptr(f.name()));
        t.add("type", read_ptr(f.type()));
        t.add("collation", read_ptr(f.collation()));
        return t;
    }
    T read(A::literal::literal const& x) {
        using namespace A::literal;
        auto& ti = typeid(x);
        if (ti == typeid(boolean)) {
            auto& v = static_cast<boolean const&>(x);
            T t = node("literal.boolean", x, x.node_kind() == kind::boolean);
            t.add("value", en(v.value()));
            return t;
        }
        if (ti == typeid(numeric)) {
            auto& v = static_cast<numeric const&>(x);
            T t = node("literal.numeric", x, x.node_kind() == v.value_kind());
            t.add("value_kind", en(v.value_kind()));
            if (v.sign()) t.add("sign", ren(*v.sign()));
            t.add("unsigned_value", leaf_r(v.unsigned_value()));
            return t;
        }
        if (ti == typeid(string)) {
            auto& v = static_cast<string const&>(x);
            T t = node("literal.string", x, x.node_kind() == *v.value_kind());
            t.add("value_kind", ren(v.value_kind()));
            t.add("value", rtext(v.value()));
            std::vector<T> c;
            for (auto& e : v.concatenations()) c.push_back(rtext(e));
            t.add("concatenations", list(std::move(c)));
            return t;
        }
        if (ti == typeid(datetime)) {
            auto& v = static_cast<datetime const&>(x);
            T t = node("literal.datetime", x, x.node_kind() == *v.value_kind());
            t.add("value_kind", ren(v.value_kind()));
            t.add("value", rtext(v.value()));
            return t;
        }
        if (ti == typeid(interval)) {
            auto& v = static_cast<interval const&>(x);
            T t = node("literal.interval", x, x.node_kind() == kind::interval);
            if (v.sign()) t.add("sign", ren(*v.sign()));
            t.add("value", rtext(v.value()));
            return t;
        }
        if (ti == typeid(null)) return node("literal.null", x, x.node_kind() == kind::null);
        if (ti == typeid(empty)) return node("literal.empty", x, x.node_kind() == kind::empty);
        if (ti == typeid(default_)) return node("literal.default", x, x.node_kind() == kind::default_);
        fail("literal");
    }

    // ---- common
    T read(A::common::sort_element const& s) {
        T t = elem("sort_element", s);
        t.add("key", read_ptr(s.key()));
        t.add("collation", read_ptr(s.collation()));
        if (s.direction()) t.add("direction", ren(*s.direction()));
        if (s.null_location()) t.add("null_location", ren(*s.null_location()));
        return t;
    }
    T read(A::common::target_element const& s) {
        T t = elem("target_element", s);
        t.add("target", read_ptr(s.target()));
        t.add("indicator", read_ptr(s.indicator()));
        return t;
    }

    // ---- scalar
    T read(A::scalar::case_when_clause const& w) {
        T t = elem("case_when_clause", w);
        t.add("when", read_ptr(w.when()));
        t.add("result", read_ptr(w.result()));
        return t;
    }
    T read(A::scalar::expression const& x) {
        using namespace A::scalar;
        auto& ti = typeid(x);
        auto K = [&](kind k) { return x.node_kind() == k; };
#define MC_CASE(C) if (ti == typeid(C)) { auto& v = static_cast<C const&>(x); (void) v; T t = node("scalar." #C, x, K(kind::C));
#define MC_END return t; }
        MC_CASE(literal_expression) t.add("value", read_ptr(v.value())); MC_END
        MC_CASE(variable_reference) t.add("name", read_ptr(v.name())); MC_END
        MC_CASE(host_parameter_reference) t.add("name", read_ptr(v.name())); MC_END
        MC_CASE(placeholder_reference) t.add("index", leaf(std::to_string(v.index()))); MC_END
        MC_CASE(field_reference) t.add("operator_kind", ren(v.operator_kind())); t.add("value", read_ptr(v.value())); t.add("name", read_ptr(v.name())); MC_END
        MC_CASE(unary_expression) t.add("operator_kind", ren(v.operator_kind())); t.add("operand", read_ptr(v.operand())); MC_END
        MC_CASE(binary_expression) t.add("left", read_ptr(v.left())); t.add("operator_kind", ren(v.operator_kind())); t.add("right", read_ptr(v.right())); MC_END
        MC_CASE(comparison_predicate) t.add("left", read_ptr(v.left())); t.add("operator_kind", ren(v.operator_kind())); t.add("right", read_ptr(v.right())); MC_END
        MC_CASE(quantified_comparison_predicate) t.add("left", read_ptr(v.left())); t.add("operator_kind", ren(v.operator_kind())); t.add("quantifier", ren(v.quantifier())); t.add("right", read_ptr(v.right())); MC_END
        MC_CASE(between_predicate) t.add("target", read_ptr(v.target())); t.add("is_not", rb(v.is_not())); if (v.operator_kind()) t.add("operator_kind", ren(*v.operator_kind())); t.add("left", read_ptr(v.left())); t.add("right", read_ptr(v.right())); MC_END
        MC_CASE(in_predicate) t.add("left", read_ptr(v.left())); t.add("is_not", rb(v.is_not())); t.add("right", read_ptr(v.right())); MC_END
        MC_CASE(pattern_match_predicate) t.add("match_value", read_ptr(v.match_value())); t.add("is_not", rb(v.is_not())); t.add("operator_kind", ren(v.operator_kind())); t.add("pattern", read_ptr(v.pattern())); t.add("escape", read_ptr(v.escape())); MC_END
        MC_CASE(table_predicate) t.add("operator_kind", ren(v.operator_kind())); t.add("operand", read_ptr(v.operand())); MC_END
        MC_CASE(value_constructor) t.add("operator_kind", ren(v.operator_kind())); t.add("elements", vec(v.elements())); MC_END
        MC_CASE(subquery) t.add("query", read_ptr(v.query())); t.add("context_kind", en(v.context_kind())); MC_END
        MC_CASE(cast_expression) t.add("operator_kind", ren(v.operator_kind())); t.add("operand", read_ptr(v.operand())); t.add("type", read_ptr(v.type())); MC_END
        MC_CASE(case_expression) t.add("operand", read_ptr(v.operand())); t.add("when_clauses", vec(v.when_clauses())); t.add("default_result", read_ptr(v.default_result())); MC_END
        MC_CASE(extract_expression) t.add("field", ren(v.field())); if (v.subsecond_digits()) t.add("subsecond_digits", size(v.subsecond_digits())); t.add("operand", read_ptr(v.operand())); MC_END
        MC_CASE(trim_expression) if (v.specification()) t.add("specification", ren(*v.specification())); t.add("character", read_ptr(v.character())); t.add("source", read_ptr(v.source())); MC_END
        MC_CASE(builtin_function_invocation) t.add("function", ren(v.function())); t.add("arguments", vec(v.arguments())); MC_END
        MC_CASE(builtin_set_function_invocation) t.add("function", ren(v.function())); if (v.quantifier()) t.add("quantifier", ren(*v.quantifier())); t.add("arguments", vec(v.arguments())); MC_END
        MC_CASE(function_invocation) t.add("name", read_ptr(v.name())); t.add("arguments", vec(v.arguments())); MC_END
        MC_CASE(method_invocation) t.add("value", read_ptr(v.value())); t.add("operator_kind", ren(v.operator_kind())); t.add("name", read_ptr(v.name())); t.add("arguments", vec(v.arguments())); MC_END
        MC_CASE(static_method_invocation) t.add("type", read_ptr(v.type())); t.add("name", read_ptr(v.name())); t.add("arguments", vec(v.arguments())); MC_END
        MC_CASE(new_invocation) t.add("type", read_ptr(v.type())); t.add("arguments", vec(v.arguments())); MC_END
        MC_CASE(current_of_cursor) t.add("name", read_ptr(v.name())); MC_END
#undef MC_CASE
        fail("scalar");
    }

    // ---- query
    T read(A::query::select_element const& x) {
        using namespace A::query;
        if (typeid(x) == typeid(select_asterisk)) {
            auto& v = static_cast<select_asterisk const&>(x);
            T t = node("query.select_asterisk", x, x.node_kind() == select_element_kind::asterisk);
            t.add("qualifier", read_ptr(v.qualifier()));
            return t;
        }
        if (typeid(x) == typeid(select_column)) {
            auto& v = static_cast<select_column const&>(x);
            T t = node("query.select_column", x, x.node_kind() == select_element_kind::column);
            t.add("value", read_ptr(v.value()));
            t.add("name", read_ptr(v.name()));
            return t;
        }
        fail("select_element");
    }
    T read(A::query::grouping_element const& x) {
        using namespace A::query;
        if (typeid(x) == typeid(grouping_column)) {
            auto& v = static_cast<grouping_column const&>(x);
            T t = node("query.grouping_column", x, x.node_kind() == grouping_element_kind::column);
            t.add("column", read_ptr(v.column()));
            t.add("collation", read_ptr(v.collation()));
            return t;
        }
        fail("grouping_element");
    }
    T read(A::query::group_by_clause const& g) {
        T t = elem("query.group_by_clause", g);
        t.add("elements", vec(g.elements()));
        return t;
    }
    T read(A::query::corresponding_clause const& g) {
        T t = elem("query.corresponding_clause", g);
        t.add("column_names", vec(g.column_names()));
        return t;
    }
    T read(A::query::with_element const& g) {
        T t = elem("query.with_element", g);
        t.add("name", read_ptr(g.name()));
        t.add("column_names", vec(g.column_names()));
        t.add("expression", read_ptr(g.expression()));
        return t;
    }
    T read(A::query::expression const& x) {
        auto& ti = typeid(x);
        auto K = [&](A::query::kind k) { return x.node_kind() == k; };
        using namespace A::query;
        if (ti == typeid(A::query::query)) {
            auto& v = static_cast<A::query::query const&>(x);
            T t = node("query.query", x, K(kind::query));
            if (v.quantifier()) t.add("quantifier", ren(*v.quantifier()));
            t.add("elements", vec(v.elements()));
            t.add("from", vec(v.from()));
            t.add("where", read_ptr(v.where()));
            if (v.group_by()) t.add("group_by", read(*v.group_by()));
            t.add("having", read_ptr(v.having()));
            t.add("order_by", vec(v.order_by()));
            t.add("limit", read_ptr(v.limit()));
            return t;
        }
        if (ti == typeid(A::query::table_reference)) {
            auto& v = static_cast<A::query::table_reference const&>(x);
            T t = node("query.table_reference", x, K(kind::table_reference));
            t.add("name", read_ptr(v.name()));
            return t;
        }
        if (ti == typeid(table_value_constructor)) {
            auto& v = static_cast<table_value_constructor const&>(x);
            T t = node("query.table_value_constructor", x, K(kind::table_value_constructor));
            t.add("elements", vec(v.elements()));
            return t;
        }
        if (ti == typeid(binary_expression)) {
            auto& v = static_cast<binary_expression const&>(x);
            T t = node("query.binary_expression", x, K(kind::binary_expression));
            t.add("left", read_ptr(v.left()));
            t.add("operator_kind", ren(v.operator_kind()));
            if (v.quantifier()) t.add("quantifier", ren(*v.quantifier()));
            if (v.corresponding()) t.add("corresponding", read(*v.corresponding()));
            t.add("right", read_ptr(v.right()));
            return t;
        }
        if (ti == typeid(with_expression)) {
            auto& v = static_cast<with_expression const&>(x);
            T t = node("query.with_expression", x, K(kind::with_expression));
            t.add("is_recursive", rb(v.is_recursive()));
            t.add("elements", vec(v.elements()));
            t.add("expression", read_ptr(v.expression()));
            return t;
        }
        fail("query");
    }

    // ---- table
    T read(A::table::correlation_clause const& c) {
        T t = elem("table.correlation_clause", c);
        t.add("correlation_name", read_ptr(c.correlation_name()));
        t.add("column_names", vec(c.column_names()));
        return t;
    }
    T read(A::table::join_specification const& x) {
        using namespace A::table;
        if (typeid(x) == typeid(join_condition)) {
            auto& v = static_cast<join_condition const&>(x);
            T t = node("table.join_condition", x, x.node_kind() == join_specification_kind::condition);
            t.add("expression", read_ptr(v.expression()));
            return t;
        }
        if (typeid(x) == typeid(join_columns)) {
            auto& v = static_cast<join_columns const&>(x);
            T t = node("table.join_columns", x, x.node_kind() == join_specification_kind::columns);
            t.add("columns", vec(v.columns()));
            return t;
        }
        fail("join_specification");
    }
    T read(A::table::expression const& x) {
        using namespace A::table;
        auto& ti = typeid(x);
        auto K = [&](A::table::kind k) { return x.node_kind() == k; };
        if (ti == typeid(A::table::table_reference)) {
            auto& v = static_cast<A::table::table_reference const&>(x);
            T t = node("table.table_reference", x, K(kind::table_reference));
            t.add("is_only", rb(v.is_only()));
            t.add("name", read_ptr(v.name()));
            if (v.correlation()) t.add("correlation", read(*v.correlation()));
            return t;
        }
        if (ti == typeid(A::table::subquery)) {
            auto& v = static_cast<A::table::subquery const&>(x);
            T t = node("table.subquery", x, K(kind::subquery));
            t.add("is_lateral", rb(v.is_lateral()));
            t.add("expression", read_ptr(v.expression()));
            t.add("correlation", read(v.correlation()));
            return t;
        }
        if (ti == typeid(unnest)) {
            auto& v = static_cast<unnest const&>(x);
            T t = node("table.unnest", x, K(kind::unnest));
            t.add("expression", read_ptr(v.expression()));
            t.add("with_ordinality", rb(v.with_ordinality()));
            t.add("correlation", read(v.correlation()));
            return t;
        }
        if (ti == typeid(join)) {
            auto& v = static_cast<join const&>(x);
            T t = node("table.join", x, K(kind::join));
            t.add("left", read_ptr(v.left()));
            t.add("operator_kind", ren(v.operator_kind()));
            t.add("right", read_ptr(v.right()));
            t.add("specification", read_ptr(v.specification()));
            return t;
        }
        if (ti == typeid(apply)) {
            auto& v = static_cast<apply const&>(x);
            T t = node("table.apply", x, K(kind::apply));
            t.add("operand", read_ptr(v.operand()));
            if (v.operator_kind()) t.add("operator_kind", ren(*v.operator_kind()));
            t.add("name", read_ptr(v.name()));
            t.add("arguments", vec(v.arguments()));
            t.add("correlation", read(v.correlation()));
            return t;
        }
        fail("table");
    }

    // ---- statement parts
    T read(A::statement::storage_parameter const& p) {
        T t = elem("storage_parameter", p);
        t.add("name", read_ptr(p.name()));
        t.add("value", read_ptr(p.value()));
        return t;
    }
    T read(A::statement::set_element const& p) {
        T t = elem("set_element", p);
        t.add("target", read_ptr(p.target()));
        t.add("value", read_ptr(p.value()));
        return t;
    }
    T read(A::statement::privilege_action const& p) {
        T t = elem("privilege_action", p);
        t.add("action_kind", ren(p.action_kind()));
        return t;
    }
    T read(A::statement::privilege_object const& p) {
        T t = elem("privilege_object", p);
        if (p.object_kind()) t.add("object_kind", ren(*p.object_kind()));
        t.add("object_name", read_ptr(p.object_name()));
        return t;
    }
    T read(A::statement::privilege_user const& p) {
        T t = elem("privilege_user", p);
        t.add("user_kind", en(p.user_kind()));
        t.add("authorization_identifier", read_ptr(p.authorization_identifier()));
        return t;
    }
    T read(A::statement::constraint const& x) {
        using namespace A::statement;
        auto& ti = typeid(x);
        if (ti == typeid(simple_constraint)) {
            auto& v = static_cast<simple_constraint const&>(x);
            T t = node("constraint.simple", x, x.node_kind() == *v.constraint_kind());
            t.add("constraint_kind", ren(v.constraint_kind()));
            return t;
        }
        if (ti == typeid(expression_constraint)) {
            auto& v = static_cast<expression_constraint const&>(x);
            T t = node("constraint.expression", x, x.node_kind() == *v.constraint_kind());
            t.add("constraint_kind", ren(v.constraint_kind()));
            t.add("expression", read_ptr(v.expression()));
            return t;
        }
        if (ti == typeid(key_constraint)) {
            auto& v = static_cast<key_constraint const&>(x);
            T t = node("constraint.key", x, x.node_kind() == *v.constraint_kind());
            t.add("constraint_kind", ren(v.constraint_kind()));
            t.add("key", vec(v.key()));
            t.add("values", vec(v.values()));
            t.add("parameters", vec(v.parameters()));
            return t;
        }
        if (ti == typeid(referential_constraint)) {
            auto& v = static_cast<referential_constraint const&>(x);
            T t = node("constraint.referential", x, x.node_kind() == constraint_kind::referential);
            t.add("columns", vec(v.columns()));
            t.add("target", read_ptr(v.target()));
            t.add("target_columns", vec(v.target_columns()));
            if (v.on_update()) t.add("on_update", ren(*v.on_update()));
            if (v.on_delete()) t.add("on_delete", ren(*v.on_delete()));
            return t;
        }
        if (ti == typeid(identity_constraint)) {
            auto& v = static_cast<identity_constraint const&>(x);
            T t = node("constraint.identity", x, x.node_kind() == constraint_kind::identity_column);
            t.add("generation", ren(v.generation()));
            t.add("initial_value", read_ptr(v.initial_value()));
            t.add("increment_value", read_ptr(v.increment_value()));
            t.add("min_value", read_ptr(v.min_value()));
            t.add("max_value", read_ptr(v.max_value()));
            if (v.cycle()) t.add("cycle", rb(*v.cycle()));
            return t;
        }
        fail("constraint");
    }
    T read(A::statement::column_constraint_definition const& c) {
        T t = elem("column_constraint_definition", c);
        t.add("name", read_ptr(c.name()));
        t.add("body", read_ptr(c.body()));
        return t;
    }
    T read(A::statement::table_element const& x) {
        using namespace A::statement;
        if (typeid(x) == typeid(column_definition)) {
            auto& v = static_cast<column_definition const&>(x);
            T t = node("column_definition", x, x.node_kind() == table_element_kind::column_definition);
            t.add("name", read_ptr(v.name()));
            t.add("type", read_ptr(v.type()));
            t.add("constraints", vec(v.constraints()));
            desc(t, v.description());
            return t;
        }
        if (typeid(x) == typeid(table_constraint_definition)) {
            auto& v = static_cast<table_constraint_definition const&>(x);
            T t = node("table_constraint_definition", x, x.node_kind() == table_element_kind::constraint_definition);
            t.add("name", read_ptr(v.name()));
            t.add("body", read_ptr(v.body()));
            return t;
        }
        fail("table_element");
    }
    T read(A::statement::alter_table_action const& x) {
        using namespace A::statement;
        if (typeid(x) == typeid(rename_table_action)) {
            auto& v = static_cast<rename_table_action const&>(x);
            T t = node("rename_table_action", x, x.node_kind() == alter_table_action_kind::rename_table);
            t.add("replacement", read_ptr(v.replacement()));
            return t;
        }
        if (typeid(x) == typeid(rename_column_action)) {
            auto& v = static_cast<rename_column_action const&>(x);
            T t = node("rename_column_action", x, x.node_kind() == alter_table_action_kind::rename_column);
            t.add("if_exists", rb(v.if_exists()));
            t.add("column_name", read_ptr(v.column_name()));
            t.add("replacement", read_ptr(v.replacement()));
            return t;
        }
        fail("alter_table_action");
    }
    T read(A::statement::alter_index_action const& x) {
        using namespace A::statement;
        if (typeid(x) == typeid(rename_index_action)) {
            auto& v = static_cast<rename_index_action const&>(x);
            T t = node("rename_index_action", x, x.node_kind() == alter_index_action_kind::rename_index);
            t.add("replacement", read_ptr(v.replacement()));
            return t;
        }
        fail("alter_index_action");
    }
    T read(A::statement::statement const& x) {
        using namespace A::statement;
        auto& ti = typeid(x);
        auto K = [&](kind k) { return x.node_kind() == k; };
#define MC_CASE(C) if (ti == typeid(C)) { auto& v = static_cast<C const&>(x); (void) v; T t = node("statement." #C, x, K(kind::C));
        MC_CASE(select_statement) t.add("expression", read_ptr(v.expression())); t.add("targets", vec(v.targets())); MC_END
        MC_CASE(insert_statement) t.add("table_name", read_ptr(v.table_name())); t.add("columns", vec(v.columns())); t.add("expression", read_ptr(v.expression())); t.add("options", opts(v.options())); MC_END
        MC_CASE(update_statement) t.add("table_name", read_ptr(v.table_name())); t.add("alias_name", read_ptr(v.alias_name())); t.add("elements", vec(v.elements())); t.add("where", read_ptr(v.where())); MC_END
        MC_CASE(delete_statement) t.add("table_name", read_ptr(v.table_name())); t.add("alias_name", read_ptr(v.alias_name())); t.add("where", read_ptr(v.where())); MC_END
        MC_CASE(table_definition) t.add("name", read_ptr(v.name())); t.add("elements", vec(v.elements())); t.add("options", opts(v.options())); t.add("parameters", vec(v.parameters())); desc(t, v.description()); MC_END
        MC_CASE(index_definition) t.add("name", read_ptr(v.name())); t.add("table_name", read_ptr(v.table_name())); t.add("keys", vec(v.keys())); t.add("values", vec(v.values())); t.add("predicate", read_ptr(v.predicate())); t.add("options", opts(v.options())); t.add("parameters", vec(v.parameters())); desc(t, v.description()); MC_END
        MC_CASE(view_definition) t.add("name", read_ptr(v.name())); t.add("columns", vec(v.columns())); t.add("query", read_ptr(v.query())); t.add("options", opts(v.options())); t.add("parameters", vec(v.parameters())); desc(t, v.description()); MC_END
        MC_CASE(sequence_definition) t.add("name", read_ptr(v.name())); t.add("type", read_ptr(v.type())); t.add("initial_value", read_ptr(v.initial_value())); t.add("increment_value", read_ptr(v.increment_value())); t.add("min_value", read_ptr(v.min_value())); t.add("max_value", read_ptr(v.max_value())); t.add("owner", read_ptr(v.owner())); t.add("options", opts(v.options())); desc(t, v.description()); MC_END
        MC_CASE(schema_definition) t.add("name", read_ptr(v.name())); t.add("user_name", read_ptr(v.user_name())); t.add("elements", vec(v.elements())); t.add("options", opts(v.options())); desc(t, v.description()); MC_END
        MC_CASE(alter_table_statement) t.add("if_exists", rb(v.if_exists())); t.add("name", read_ptr(v.name())); t.add("action", read_ptr(v.action())); MC_END
        MC_CASE(alter_index_statement) t.add("if_exists", rb(v.if_exists())); t.add("name", read_ptr(v.name())); t.add("action", read_ptr(v.action())); MC_END
        MC_CASE(truncate_table_statement) t.add("name", read_ptr(v.name())); if (v.identity_column_option()) t.add("identity_column_option", ren(*v.identity_column_option())); MC_END
        MC_CASE(grant_privilege_statement) t.add("actions", vec(v.actions())); t.add("objects", vec(v.objects())); t.add("users", vec(v.users())); MC_END
        MC_CASE(revoke_privilege_statement) t.add("actions", vec(v.actions())); t.add("objects", vec(v.objects())); t.add("users", vec(v.users())); MC_END
        MC_CASE(empty_statement) MC_END
#undef MC_CASE
#undef MC_END
        if (ti == typeid(drop_statement)) {
            auto& v = static_cast<drop_statement const&>(x);
            T t = node("statement.drop_statement", x, K(*v.statement_kind()));
            t.add("statement_kind", ren(v.statement_kind()));
            t.add("name", read_ptr(v.name()));
            t.add("options", opts(v.options()));
            return t;
        }
        fail("statement");
    }

    std::vector<std::string> problems; // inconsistencies between redundant accessors

private:
    [[noreturn]] void fail(char const* what) { throw std::runtime_error(std::string("unknown node class: ") + what); }
    void bad(char const* what) { problems.push_back(what); }
    static void pos(T& t, A::node_region r) {
        if (r.begin != A::node_region::npos || r.end != A::node_region::npos) t.at(long(r.begin), long(r.end));
    }
    template<class N> T node(char const* name, N const& n, bool kind_ok) {
        T t(name);
        t.node = true;
        pos(t, n.region());
        if (check_kinds && !kind_ok) problems.push_back(std::string("node_kind of ") + name);
        return t;
    }
    template<class N> T elem(char const* name, N const& n) {
        T t(name);
        pos(t, n.region());
        return t;
    }
    template<class E> T en(E v) { return leaf(std::string(to_string_view(v))); }
    template<class R> T ren(R const& r) {
        T t = leaf(std::string(to_string_view(r.value())));
        pos(t, r.region());
        return t;
    }
    template<class R> T rb(R const& r) {
        T t = leaf(r.value() ? "true" : "false");
        pos(t, r.region());
        return t;
    }
    template<class R> T rtext(R const& r) {
        T t = leaf(r.value());
        pos(t, r.region());
        return t;
    }
    template<class R> T leaf_r(R const& r) {
        if constexpr (std::is_same_v<std::decay_t<R>, std::string>) return leaf(r);
        else return rtext(r);
    }
    template<class O> T size(O const& o) {
        if (!o) return T {};
        T t = leaf(o->value() == std::size_t(-1) ? std::string("*") : std::to_string(o->value()));
        pos(t, o->region());
        return t;
    }
    template<class E> T vec(std::vector<std::unique_ptr<E>> const& v) {
        std::vector<T> r;
        for (auto& e : v) { if (e) r.push_back(read(*e)); else r.push_back(T("#null")); }
        return list(std::move(r));
    }
    template<class E> T vec(std::vector<E> const& v) {
        std::vector<T> r;
        for (auto& e : v) r.push_back(read(e));
        return list(std::move(r));
    }
    template<class E> T opts(std::vector<E> const& v) {
        std::vector<T> r;
        for (auto& e : v) r.push_back(ren(e));
        return list(std::move(r));
    }
    static void desc(T& t, A::node_region r) {
        if (r) { T x("#description"); pos(x, r); t.add("description", std::move(x)); }
    }
};

} // namespace mc
