// A catalog for the analyzer, and one way to run statements through parser and analyzer against it.
#pragma once
#include "plan.h"
#include "parse_util.h"
#include <mizugaki/analyzer/sql_analyzer.h>
#include <mizugaki/analyzer/sql_analyzer_code.h>
#include <mizugaki/analyzer/sql_analyzer_result.h>
#include <mizugaki/placeholder_map.h>
#include <yugawara/schema/catalog.h>
#include <yugawara/schema/configurable_provider.h>
#include <yugawara/schema/declaration.h>
#include <yugawara/schema/search_path.h>
#include <yugawara/storage/configurable_provider.h>
#include <yugawara/storage/index.h>
#include <yugawara/storage/table.h>
#include <yugawara/function/configurable_provider.h>
#include <yugawara/aggregate/configurable_provider.h>
#include <yugawara/variable/configurable_provider.h>
#include <takatori/type/primitive.h>
#include <takatori/type/character.h>
#include <takatori/type/table.h>

namespace an {

namespace ttype = ::takatori::type;
using mizugaki::analyzer::sql_analyzer;
using mizugaki::analyzer::sql_analyzer_options;
using mizugaki::analyzer::sql_analyzer_result;
using mizugaki::analyzer::sql_analyzer_result_kind;
using mizugaki::analyzer::sql_analyzer_code;
using diagnostic_type = sql_analyzer_result::diagnostic_type;
using Type = std::shared_ptr<ttype::data const>;
template<class X> Type type(X x) { return std::make_shared<X>(std::move(x)); }
inline Type int8() { return type(ttype::int8 {}); }
inline Type int4() { return type(ttype::int4 {}); }
inline Type boolean() { return type(ttype::boolean {}); }
inline Type text() { return type(ttype::character { ttype::varying }); }

struct Column {
    std::string name;
    Type type = int8();
    bool nullable = true;
    char kind = 0; // 'h': hidden, 's': made by the system
};

/// one schema
struct Schema {
    std::shared_ptr<::yugawara::storage::configurable_provider> storages = std::make_shared<::yugawara::storage::configurable_provider>();
    std::shared_ptr<::yugawara::variable::configurable_provider> variables = std::make_shared<::yugawara::variable::configurable_provider>();
    std::shared_ptr<::yugawara::function::configurable_provider> functions = std::make_shared<::yugawara::function::configurable_provider>();
    std::shared_ptr<::yugawara::aggregate::configurable_provider> aggregates = std::make_shared<::yugawara::aggregate::configurable_provider>();
    std::shared_ptr<::yugawara::schema::declaration> declaration;
    explicit Schema(std::string name) :
        declaration { std::make_shared<::yugawara::schema::declaration>(std::move(name), std::nullopt, storages, variables, functions, aggregates) }
    {}
    /// a table whose primary key is the first columns
    std::shared_ptr<::yugawara::storage::table const> table(std::string name, std::vector<Column> columns, std::size_t keys = 1, std::string simple_name = {}, std::string index_name = {}) {
        std::vector<std::size_t> k;
        for (std::size_t i = 0; i < keys; ++i) k.push_back(i);
        return table_with(std::move(name), std::move(columns), std::move(k), keys > 0, std::move(simple_name), std::move(index_name));
    }
    /// a table with the key columns in this order
    std::shared_ptr<::yugawara::storage::table const> table_with(std::string name, std::vector<Column> columns, std::vector<std::size_t> keys, bool index = true, std::string simple_name = {}, std::string index_name = {}) {
        using feature = ::yugawara::storage::column_feature;
        ::takatori::util::reference_vector<::yugawara::storage::column> list;
        for (auto& c : columns) {
            ::yugawara::storage::column_feature_set f {};
            if (c.kind) f.insert(feature::hidden);
            if (c.kind == 's') f.insert(feature::synthesized);
            list.push_back(::yugawara::storage::column { c.name, std::shared_ptr<ttype::data const>(c.type), ::yugawara::variable::criteria { ::yugawara::variable::nullity { c.nullable } }, ::yugawara::storage::column_value {}, f });
        }
        auto t = storages->add_table(std::make_shared<::yugawara::storage::table>(std::nullopt, simple_name.empty() ? name : simple_name, std::move(list)));
        std::vector<::yugawara::storage::index::key> ks;
        for (auto i : keys) ks.emplace_back(t->columns()[i]);
        std::vector<::yugawara::storage::index::column_ref> values;
        if (index) storages->add_index(std::make_shared<::yugawara::storage::index>(std::nullopt, t, index_name.empty() ? name : index_name, std::move(ks), std::move(values),
            ::yugawara::storage::index_feature_set { ::yugawara::storage::index_feature::find, ::yugawara::storage::index_feature::scan, ::yugawara::storage::index_feature::primary, ::yugawara::storage::index_feature::unique }));
        return t;
    }
    void function(std::size_t id, std::string name, Type ret, std::vector<Type> params) {
        functions->add(std::make_shared<::yugawara::function::declaration>(id, std::move(name), std::move(ret), std::move(params)));
    }
    void table_function(std::size_t id, std::string name, std::vector<Column> columns, std::vector<Type> params) {
        std::vector<ttype::table::column_type> cs;
        for (auto& c : columns) cs.emplace_back(c.name, c.type);
        functions->add(std::make_shared<::yugawara::function::declaration>(id, std::move(name), std::make_shared<ttype::table>(std::move(cs)), std::move(params),
            ::yugawara::function::function_feature_set { ::yugawara::function::function_feature::table_valued_function }));
    }
    void aggregate(std::size_t id, std::string name, Type ret, std::vector<Type> params) {
        aggregates->add(std::make_shared<::yugawara::aggregate::declaration>(id, std::move(name), std::move(ret), std::move(params), true));
    }
};

constexpr std::size_t builtin = ::yugawara::function::declaration::minimum_builtin_function_id;
constexpr std::size_t user = ::yugawara::function::declaration::minimum_user_function_id;

struct Env {
    std::shared_ptr<::yugawara::schema::configurable_provider> schemas = std::make_shared<::yugawara::schema::configurable_provider>();
    std::shared_ptr<::yugawara::schema::catalog> catalog = std::make_shared<::yugawara::schema::catalog>("cat", std::nullopt, schemas);
    std::shared_ptr<::yugawara::schema::search_path> path = std::make_shared<::yugawara::schema::search_path>(::yugawara::schema::search_path::vector_type {});
    std::map<std::string, std::unique_ptr<Schema>> all;
    Schema& schema(std::string const& name, bool in_path = true) {
        auto& s = all[name];
        if (!s) {
            s = std::make_unique<Schema>(name);
            schemas->add(s->declaration);
            if (in_path) path->elements().emplace_back(s->declaration);
        }
        return *s;
    }
    sql_analyzer_options options(std::string const& default_schema = "pub") {
        return sql_analyzer_options { catalog, path, schema(default_schema).declaration };
    }
};

/// what came out for one statement
struct Outcome {
    bool parsed = false;
    std::size_t stale = 0; // how often the analysis met what it kept of expressions which were gone
    std::string parse_error;
    bool has_result = false;
    sql_analyzer_result result {};
    std::unique_ptr<mizugaki::ast::compilation_unit> unit;
    std::string thrown;

    bool ok() const { return has_result && result.kind() != sql_analyzer_result_kind::diagnostics; }
    bool is_plan() const { return has_result && result.kind() == sql_analyzer_result_kind::execution_plan; }
    bool is_statement() const { return has_result && result.kind() == sql_analyzer_result_kind::statement; }
    std::vector<diagnostic_type> const& diagnostics() const { return result.element<sql_analyzer_result_kind::diagnostics>(); }
    ::takatori::relation::graph_type const& graph() const { return result.element<sql_analyzer_result_kind::execution_plan>(); }
    ::takatori::statement::statement const& statement() const { return result.element<sql_analyzer_result_kind::statement>(); }
    std::string why() const {
        if (!parsed) return "syntax error: " + parse_error;
        if (!thrown.empty()) return "throws " + thrown;
        if (ok()) return "accepted";
        std::string o;
        for (auto& d : diagnostics()) { std::ostringstream s; s << d.code() << " (" << d.message() << ") "; o += s.str(); }
        return o.empty() ? std::string("no diagnostics") : o;
    }
    bool has(sql_analyzer_code c) const { if (ok() || !has_result) return false; for (auto& d : diagnostics()) if (d.code() == c) return true; return false; }
};

inline Outcome run(
        sql_analyzer& analyzer, sql_analyzer_options const& options, std::string const& sql,
        mizugaki::placeholder_map const& placeholders = {},
        ::takatori::util::optional_ptr<::yugawara::variable::provider const> host = {}) {
    static thread_local mizugaki::parser::sql_parser parser;
    Outcome o;
    auto r = parser("t", sql);
    if (!r.has_value()) { o.parse_error = std::string(r.diagnostic().message()); return o; }
    o.parsed = true;
    o.unit = std::move(r.value());
    if (o.unit->statements().size() != 1) { o.parsed = false; o.parse_error = "not one statement"; return o; }
    auto stale = ::takatori::scalar::stale_resolutions_;
    try {
        o.result = analyzer(options, *o.unit->statements()[0], *o.unit, placeholders, host);
        o.has_result = true;
    }
    catch (std::exception const& e) { o.thrown = e.what(); if (o.thrown.empty()) o.thrown = "?"; }
    o.stale = ::takatori::scalar::stale_resolutions_ - stale;
    if (o.stale && getenv("STALE")) fprintf(stderr, "STALE %zu %s\n", o.stale, sql.c_str());
    return o;
}

} // namespace an
