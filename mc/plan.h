// Runs the plans which the analyzer makes, and checks that they are well formed.
// This is an interpreter of the plan language (relational operators and scalar expressions), written from
// what the operators mean: it knows nothing about SQL.
#pragma once
#include <takatori/relation/graph.h>
#include <takatori/impl_/relations.h>
#include <takatori/impl_/scalars.h>
#include <takatori/impl_/statements.h>
#include <yugawara/impl_/extensions.h>
#include <yugawara/impl_/binding.h>
#include <map>
#include <optional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <set>
#include <functional>

namespace plan {
namespace tr = ::takatori::relation;
namespace ts = ::takatori::scalar;
namespace td = ::takatori::descriptor;
namespace tt = ::takatori::type;
namespace tv = ::takatori::value;
namespace yb = ::yugawara::binding;
namespace ye = ::yugawara::extension;

/// the plan itself is wrong, whatever the data are
struct Malformed : std::runtime_error { using runtime_error::runtime_error; };
/// evaluation has no value for these data (e.g. a scalar subquery with two rows)
struct NoValue : std::runtime_error { using runtime_error::runtime_error; };
/// the interpreter does not know the operator
struct Unknown : std::runtime_error { using runtime_error::runtime_error; };

struct Val {
    enum K { Null, Bool, Int, Str, Other } k = Null;
    std::int64_t i = 0;
    std::string s;
    static Val null() { return {}; }
    static Val boolean(bool b) { Val v; v.k = Bool; v.i = b; return v; }
    static Val integer(std::int64_t i) { Val v; v.k = Int; v.i = i; return v; }
    static Val str(std::string s) { Val v; v.k = Str; v.s = std::move(s); return v; }
    static Val other(std::string s) { Val v; v.k = Other; v.s = std::move(s); return v; }
    bool is_null() const { return k == Null; }
    friend bool operator==(Val const& a, Val const& b) { return a.k == b.k && a.i == b.i && a.s == b.s; }
    friend bool operator!=(Val const& a, Val const& b) { return !(a == b); }
    friend bool operator<(Val const& a, Val const& b) { return std::tie(a.k, a.i, a.s) < std::tie(b.k, b.i, b.s); }
};
inline std::string to_string(Val const& v) {
    switch (v.k) {
        case Val::Null: return "NULL";
        case Val::Bool: return v.i ? "true" : "false";
        case Val::Int: return std::to_string(v.i);
        case Val::Str: return "'" + v.s + "'";
        case Val::Other: return v.s;
    }
    return "?";
}
using Row = std::vector<Val>;
using Rows = std::vector<Row>;
inline std::string to_string(Row const& r) { std::string o = "("; for (auto& v : r) { if (o.size() > 1) o += ","; o += to_string(v); } return o + ")"; }
inline std::string to_string(Rows const& r) { std::string o = "{"; for (auto& v : r) { o += to_string(v); } return o + "}"; }

/// table name -> rows (in the order of the declared columns)
struct Db {
    std::map<std::string, Rows, std::less<>> tables;
    std::map<std::size_t, std::function<Val(Row const&)>> functions;
    std::map<std::size_t, std::function<Val(Rows const&)>> aggregates; // a row of arguments for each input
    std::map<std::size_t, std::function<Rows(Row const&)>> table_functions;
    std::map<std::string, Val, std::less<>> externals;
    std::map<void const*, Rows> of; // of a table, where names do not tell tables apart
    std::map<void const*, Val> external_of;
};
inline std::string to_string(Db const& d) { std::string o; for (auto& t : d.tables) o += t.first + "=" + to_string(t.second) + " "; return o; }

template<class X> std::string text(X const& v) { std::ostringstream s; s << v; return s.str(); }

struct Rel {
    std::vector<td::variable> cols;
    Rows rows;
};

struct Binding { td::variable var; Val val; };
struct Env {
    Rel const* rel = nullptr;
    Row const* row = nullptr;
    std::vector<Binding> const* frame = nullptr;
    std::vector<Binding> lets;
};

inline int index_of(std::vector<td::variable> const& cols, td::variable const& v) {
    auto* e = v.optional_entity();
    for (std::size_t i = 0; i < cols.size(); ++i) if (cols[i].optional_entity() == e) return int(i);
    for (std::size_t i = 0; i < cols.size(); ++i) if (cols[i] == v) return int(i);
    return -1;
}

inline Val literal(tv::data const& v, tt::data const&) {
    switch (v.kind()) {
        case tv::value_kind::unknown: return {};
        case tv::value_kind::boolean: return Val::boolean(static_cast<tv::boolean const&>(v).get());
        case tv::value_kind::int4: return Val::integer(static_cast<tv::int4 const&>(v).get());
        case tv::value_kind::int8: return Val::integer(static_cast<tv::int8 const&>(v).get());
        case tv::value_kind::character: return Val::str(std::string(static_cast<tv::character const&>(v).get()));
        case tv::value_kind::decimal: {
            auto t = static_cast<tv::decimal const&>(v).get();
            if (t.exponent() == 0 && t.coefficient_high() == 0) return Val::integer(std::int64_t(t.coefficient_low()) * (t.sign() < 0 ? -1 : 1));
            return Val::other(text(v));
        }
        default: return Val::other(text(v));
    }
}

/// -1, 0, 1 of two values other than NULL
inline int order(Val const& a, Val const& b) {
    if (a.k != b.k) throw Unknown("compares " + to_string(a) + " with " + to_string(b));
    if (a.k == Val::Str || a.k == Val::Other) return a.s < b.s ? -1 : (b.s < a.s ? 1 : 0);
    return a.i < b.i ? -1 : (b.i < a.i ? 1 : 0);
}
inline Val compare(ts::comparison_operator op, Val const& a, Val const& b) {
    if (a.is_null() || b.is_null()) return {};
    int c = order(a, b);
    using k = ts::comparison_operator;
    switch (op) {
        case k::equal: return Val::boolean(c == 0);
        case k::not_equal: return Val::boolean(c != 0);
        case k::less: return Val::boolean(c < 0);
        case k::less_equal: return Val::boolean(c <= 0);
        case k::greater: return Val::boolean(c > 0);
        case k::greater_equal: return Val::boolean(c >= 0);
    }
    throw Unknown("comparison");
}
inline Val not3(Val const& a) { return a.is_null() ? a : Val::boolean(!a.i); }
inline Val and3(Val const& a, Val const& b) {
    if ((!a.is_null() && !a.i) || (!b.is_null() && !b.i)) return Val::boolean(false);
    if (a.is_null() || b.is_null()) return {};
    return Val::boolean(true);
}
inline Val or3(Val const& a, Val const& b) { return not3(and3(not3(a), not3(b))); }
inline bool holds(Val const& a) {
    if (a.k != Val::Null && a.k != Val::Bool) throw Malformed("condition is not boolean: " + to_string(a));
    return a.k == Val::Bool && a.i;
}
/// SQL LIKE; an empty escape means no escape character
inline bool like(std::string const& s, std::string const& p, std::string const& esc, std::size_t i = 0, std::size_t j = 0) {
    if (j == p.size()) return i == s.size();
    if (!esc.empty() && p[j] == esc[0]) {
        if (j + 1 >= p.size()) throw NoValue("escape at the end");
        return i < s.size() && s[i] == p[j + 1] && like(s, p, esc, i + 1, j + 2);
    }
    if (p[j] == '%') {
        for (std::size_t n = i; n <= s.size(); ++n) if (like(s, p, esc, n, j + 1)) return true;
        return false;
    }
    return i < s.size() && (p[j] == '_' || p[j] == s[i]) && like(s, p, esc, i + 1, j + 1);
}

class Exec {
public:
    Db const& db;
    explicit Exec(Db const& d) : db(d) {}
    std::size_t steps = 0;
    std::vector<Binding> const no_frame {};

    Val eval(ts::expression const& e, Env& env) {
        ++steps;
        switch (e.kind()) {
            case ts::expression_kind::immediate: { auto& x = static_cast<ts::immediate const&>(e); return literal(x.value(), x.type()); }
            case ts::expression_kind::variable_reference: return read(static_cast<ts::variable_reference const&>(e).variable(), env);
            case ts::expression_kind::unary: {
                auto& x = static_cast<ts::unary const&>(e);
                Val v = eval(x.operand(), env);
                using k = ts::unary_operator;
                switch (x.operator_kind()) {
                    case k::plus: return v;
                    case k::sign_inversion: if (v.is_null()) return v; need(v, Val::Int); return Val::integer(-v.i);
                    case k::conditional_not: if (v.is_null()) return v; need(v, Val::Bool); return Val::boolean(!v.i);
                    case k::is_null: return Val::boolean(v.is_null());
                    case k::is_true: if (!v.is_null()) need(v, Val::Bool); return Val::boolean(!v.is_null() && v.i);
                    case k::is_false: if (!v.is_null()) need(v, Val::Bool); return Val::boolean(!v.is_null() && !v.i);
                    case k::is_unknown: if (!v.is_null()) need(v, Val::Bool); return Val::boolean(v.is_null());
                    default: throw Unknown("unary operator");
                }
            }
            case ts::expression_kind::cast: {
                auto& x = static_cast<ts::cast const&>(e);
                Val v = eval(x.operand(), env);
                if (v.is_null()) return v;
                switch (x.type().kind()) {
                    case tt::type_kind::int4: case tt::type_kind::int8: if (v.k == Val::Int) return v; break;
                    case tt::type_kind::boolean: if (v.k == Val::Bool) return v; break;
                    case tt::type_kind::decimal: if (v.k == Val::Int) return v; break;
                    case tt::type_kind::character: {
                        auto& c = static_cast<tt::character const&>(x.type());
                        std::string s = v.k == Val::Str ? v.s : v.k == Val::Int ? std::to_string(v.i) : std::string("?");
                        if (s == "?" && v.k != Val::Str) break;
                        if (c.length() && s.size() > *c.length()) { if (x.loss_policy() == ts::cast_loss_policy::error) throw NoValue("the value is too long"); s.resize(*c.length()); }
                        if (!c.varying() && c.length()) s.resize(*c.length(), ' ');
                        return Val::str(s);
                    }
                    default: break;
                }
                throw Unknown("cast to " + text(x.type()) + " from " + to_string(v));
            }
            case ts::expression_kind::binary: {
                auto& x = static_cast<ts::binary const&>(e);
                using k = ts::binary_operator;
                auto op = x.operator_kind();
                Val a = eval(x.left(), env);
                if (op == k::conditional_and || op == k::conditional_or) {
                    if (!a.is_null()) need(a, Val::Bool);
                    if (!a.is_null() && bool(a.i) == (op == k::conditional_or)) return a;
                    Val b = eval(x.right(), env);
                    if (!b.is_null()) need(b, Val::Bool);
                    return op == k::conditional_and ? and3(a, b) : or3(a, b);
                }
                Val b = eval(x.right(), env);
                if (a.is_null() || b.is_null()) return {};
                if (op == k::concat) { need(a, Val::Str); need(b, Val::Str); return Val::str(a.s + b.s); }
                need(a, Val::Int);
                need(b, Val::Int);
                switch (op) {
                    case k::add: return Val::integer(a.i + b.i);
                    case k::subtract: return Val::integer(a.i - b.i);
                    case k::multiply: return Val::integer(a.i * b.i);
                    case k::divide: if (b.i == 0) throw NoValue("division by zero"); return Val::integer(a.i / b.i);
                    case k::remainder: if (b.i == 0) throw NoValue("division by zero"); return Val::integer(a.i % b.i);
                    default: throw Unknown("binary operator");
                }
            }
            case ts::expression_kind::compare: {
                auto& x = static_cast<ts::compare const&>(e);
                Val a = eval(x.left(), env);
                Val b = eval(x.right(), env);
                return compare(x.operator_kind(), a, b);
            }
            case ts::expression_kind::match: {
                auto& x = static_cast<ts::match const&>(e);
                Val a = eval(x.input(), env), p = eval(x.pattern(), env), c = eval(x.escape(), env);
                if (x.operator_kind() != ts::match_operator::like) throw Unknown("match operator");
                if (a.is_null() || p.is_null() || c.is_null()) return {};
                need(a, Val::Str); need(p, Val::Str); need(c, Val::Str);
                if (c.s.size() > 1) throw NoValue("escape is not a character");
                return Val::boolean(like(a.s, p.s, c.s));
            }
            case ts::expression_kind::conditional: {
                auto& x = static_cast<ts::conditional const&>(e);
                for (auto& a : x.alternatives()) if (holds(eval(a.condition(), env))) return eval(a.body(), env);
                if (x.default_expression()) return eval(*x.default_expression(), env);
                return {};
            }
            case ts::expression_kind::coalesce: {
                for (auto&& a : static_cast<ts::coalesce const&>(e).alternatives()) { Val v = eval(a, env); if (!v.is_null()) return v; }
                return {};
            }
            case ts::expression_kind::let: {
                auto& x = static_cast<ts::let const&>(e);
                auto n = env.lets.size();
                for (auto& v : x.variables()) { Val r = eval(v.value(), env); env.lets.push_back({v.variable(), r}); }
                Val r = eval(x.body(), env);
                env.lets.erase(env.lets.begin() + long(n), env.lets.end());
                return r;
            }
            case ts::expression_kind::function_call: {
                auto& x = static_cast<ts::function_call const&>(e);
                Row args;
                for (auto&& a : x.arguments()) args.push_back(eval(a, env));
                auto id = yb::extract<::yugawara::function::declaration>(x.function()).definition_id();
                auto it = db.functions.find(id);
                if (it == db.functions.end()) throw Unknown("function");
                return it->second(args);
            }
            case ts::expression_kind::extension: return extension(static_cast<ts::extension const&>(e), env);
        }
        throw Unknown("scalar expression");
    }

    Rel run(tr::input_port const& in, std::vector<Binding> const& frame) {
        auto o = in.opposite();
        if (!o) throw Malformed("input port is not connected");
        return run(*o, frame);
    }
    Rel run(tr::output_port const& out, std::vector<Binding> const& frame) { return run(out.owner(), frame); }

    Rel run(tr::expression const& op, std::vector<Binding> const& frame) {
        Rel r = rows_of(op, frame);
        using k = tr::expression_kind;
        // operators which keep no order: their rows may come in any
        switch (op.kind()) {
            case k::intermediate_join: case k::intermediate_aggregate: case k::intermediate_distinct: case k::intermediate_union:
            case k::intermediate_intersection: case k::intermediate_difference: std::reverse(r.rows.begin(), r.rows.end()); break;
            default: break;
        }
        return r;
    }
    Rel rows_of(tr::expression const& op, std::vector<Binding> const& frame) {
        ++steps;
        switch (op.kind()) {
            case tr::expression_kind::scan: {
                auto& x = static_cast<tr::scan const&>(op);
                if (x.lower() || x.upper() || x.limit()) throw Unknown("scan with a range");
                auto& idx = yb::extract<::yugawara::storage::index>(x.source());
                auto& table = idx.table();
                auto of = db.of.find(&table);
                auto it = db.tables.find(table.simple_name());
                if (of == db.of.end() && it == db.tables.end()) throw Unknown("table " + std::string(table.simple_name()));
                auto& content = of == db.of.end() ? it->second : of->second;
                Rel r;
                std::vector<std::size_t> pos;
                for (auto& c : x.columns()) {
                    auto& col = yb::extract<::yugawara::storage::column>(c.source());
                    std::size_t p = 0;
                    bool found = false;
                    for (auto&& tc : table.columns()) { if (&tc == &col) { found = true; break; } ++p; }
                    if (!found) throw Malformed("scan reads a column of another table: " + text(c.source()));
                    pos.push_back(p);
                    r.cols.push_back(c.destination());
                }
                for (auto& row : content) { Row n; for (auto p : pos) n.push_back(row.at(p)); r.rows.push_back(std::move(n)); }
                return r;
            }
            case tr::expression_kind::values: {
                auto& x = static_cast<tr::values const&>(op);
                Rel r;
                r.cols = x.columns();
                Env env;
                env.frame = &frame;
                for (auto& row : x.rows()) {
                    if (row.elements().size() != r.cols.size()) throw Malformed("a row of values has a wrong number of elements");
                    Row n;
                    for (auto&& e : row.elements()) n.push_back(eval(e, env));
                    r.rows.push_back(std::move(n));
                }
                return r;
            }
            case tr::expression_kind::apply: {
                auto& x = static_cast<tr::apply const&>(op);
                Rel in = run(x.input(), frame);
                Rel r;
                r.cols = in.cols;
                for (auto& c : x.columns()) r.cols.push_back(c.variable());
                auto id = yb::extract<::yugawara::function::declaration>(x.function()).definition_id();
                auto it = db.table_functions.find(id);
                if (it == db.table_functions.end()) throw Malformed("applies what is not a table function");
                for (auto& row : in.rows) {
                    Env env;
                    env.rel = &in; env.row = &row; env.frame = &frame;
                    Row args;
                    for (auto&& a : x.arguments()) args.push_back(eval(a, env));
                    Rows got = it->second(args);
                    for (auto& g : got) { Row n = row; for (auto& c : x.columns()) n.push_back(g.at(c.position())); r.rows.push_back(n); }
                    if (got.empty() && x.operator_kind() == tr::apply_kind::outer) { Row n = row; n.resize(r.cols.size()); r.rows.push_back(n); }
                }
                return r;
            }
            case tr::expression_kind::project: {
                auto& x = static_cast<tr::project const&>(op);
                Rel in = run(x.input(), frame);
                // a column sees the ones before it
                for (auto& c : x.columns()) {
                    Rows rows;
                    for (auto& row : in.rows) {
                        Env env;
                        env.rel = &in; env.row = &row; env.frame = &frame;
                        Row n = row;
                        n.push_back(eval(c.value(), env));
                        rows.push_back(std::move(n));
                    }
                    in.cols.push_back(c.variable());
                    in.rows = std::move(rows);
                }
                return in;
            }
            case tr::expression_kind::filter: {
                auto& x = static_cast<tr::filter const&>(op);
                Rel in = run(x.input(), frame);
                Rows rows;
                for (auto& row : in.rows) {
                    Env env;
                    env.rel = &in; env.row = &row; env.frame = &frame;
                    if (holds(eval(x.condition(), env))) rows.push_back(row);
                }
                in.rows = std::move(rows);
                return in;
            }
            case tr::expression_kind::intermediate_join: return join(static_cast<tr::intermediate::join const&>(op), frame);
            case tr::expression_kind::intermediate_aggregate: {
                auto& x = static_cast<tr::intermediate::aggregate const&>(op);
                Rel in = run(x.input(), frame);
                Rel r;
                std::vector<int> keys;
                for (auto& k : x.group_keys()) { keys.push_back(need_column(in, k)); r.cols.push_back(k); }
                std::vector<std::pair<Row, std::vector<Row const*>>> groups;
                if (keys.empty()) groups.push_back({{}, {}});
                for (auto& row : in.rows) {
                    Row k;
                    for (int i : keys) k.push_back(row[std::size_t(i)]);
                    std::vector<Row const*>* g = nullptr;
                    for (auto& e : groups) if (e.first == k) { g = &e.second; break; }
                    if (!g) { groups.push_back({k, {}}); g = &groups.back().second; }
                    g->push_back(&row);
                }
                for (auto& c : x.columns()) r.cols.push_back(c.destination());
                for (auto& g : groups) {
                    Row n = g.first;
                    for (auto& c : x.columns()) {
                        std::vector<int> args;
                        for (auto& a : c.arguments()) args.push_back(need_column(in, a));
                        Rows input;
                        for (auto* p : g.second) { Row a; for (int i : args) a.push_back((*p)[std::size_t(i)]); input.push_back(std::move(a)); }
                        auto id = yb::extract<::yugawara::aggregate::declaration>(c.function()).definition_id();
                        auto it = db.aggregates.find(id);
                        if (it == db.aggregates.end()) throw Unknown("aggregate function");
                        n.push_back(it->second(input));
                    }
                    r.rows.push_back(std::move(n));
                }
                return r;
            }
            case tr::expression_kind::intermediate_distinct: {
                auto& x = static_cast<tr::intermediate::distinct const&>(op);
                Rel in = run(x.input(), frame);
                std::set<Row> seen;
                std::vector<int> keys;
                for (auto& k : x.group_keys()) keys.push_back(need_column(in, k));
                Rows rows;
                for (auto& row : in.rows) { Row k; for (int i : keys) k.push_back(row[std::size_t(i)]); if (seen.insert(k).second) rows.push_back(row); }
                in.rows = std::move(rows);
                return in;
            }
            case tr::expression_kind::intermediate_limit: {
                auto& x = static_cast<tr::intermediate::limit const&>(op);
                Rel in = run(x.input(), frame);
                if (!x.group_keys().empty()) throw Unknown("limit with group keys");
                std::vector<std::pair<int, bool>> keys;
                for (auto& k : x.sort_keys()) keys.push_back({need_column(in, k.variable()), k.direction() == tr::sort_direction::descendant});
                if (!keys.empty()) std::stable_sort(in.rows.begin(), in.rows.end(), [&](Row const& a, Row const& b) {
                    for (auto& k : keys) {
                        auto& u = a[std::size_t(k.first)];
                        auto& v = b[std::size_t(k.first)];
                        int c = u.is_null() || v.is_null() ? int(v.is_null()) - int(u.is_null()) : order(u, v);
                        c = u.is_null() && !v.is_null() ? -1 : (!u.is_null() && v.is_null() ? 1 : c);
                        if (k.second) c = -c;
                        if (c) return c < 0;
                    }
                    return false;
                });
                if (x.count() && in.rows.size() > *x.count()) in.rows.resize(*x.count());
                return in;
            }
            case tr::expression_kind::intermediate_union: {
                auto& x = static_cast<tr::intermediate::union_ const&>(op);
                Rel l = run(x.left(), frame), r = run(x.right(), frame), o;
                for (auto& m : x.mappings()) o.cols.push_back(m.destination());
                auto add = [&](Rel const& in, bool left) {
                    std::vector<int> pos;
                    for (auto& m : x.mappings()) { auto& s = left ? m.left() : m.right(); pos.push_back(s ? need_column(in, *s) : -1); }
                    for (auto& row : in.rows) { Row n; for (int p : pos) n.push_back(p < 0 ? Val {} : row[std::size_t(p)]); o.rows.push_back(std::move(n)); }
                };
                add(l, true);
                add(r, false);
                if (x.quantifier() == tr::set_quantifier::distinct) unique(o.rows);
                return o;
            }
            case tr::expression_kind::intermediate_intersection: return set_operation(static_cast<tr::intermediate::intersection const&>(op), true, frame);
            case tr::expression_kind::intermediate_difference: return set_operation(static_cast<tr::intermediate::difference const&>(op), false, frame);
            case tr::expression_kind::intermediate_extension: {
                auto& x = static_cast<tr::intermediate::extension const&>(op);
                if (x.extension_id() != ye::relation::subquery::extension_tag) throw Unknown("extension");
                auto& s = static_cast<ye::relation::subquery const&>(x);
                auto port = s.find_output_port();
                if (!port) throw Malformed("the nested query has no single output");
                Rel in = run(*port, frame);
                Rel r;
                std::vector<int> pos;
                for (auto& m : s.mappings()) { pos.push_back(need_column(in, m.source())); r.cols.push_back(m.destination()); }
                for (auto& row : in.rows) { Row n; for (int p : pos) n.push_back(row[std::size_t(p)]); r.rows.push_back(std::move(n)); }
                return r;
            }
            default: throw Unknown("relational operator");
        }
    }

    /// the one operator without output
    static tr::expression const& sink(tr::graph_type const& g) {
        tr::expression const* r = nullptr;
        for (auto&& e : g) if (e.output_ports().empty()) { if (r) throw Malformed("two outputs of the plan"); r = &e; }
        if (!r) throw Malformed("the plan has no output");
        return *r;
    }
    struct Result { std::vector<std::string> names; Rows rows; };
    Result query(tr::graph_type const& g) {
        auto& s = sink(g);
        if (s.kind() != tr::expression_kind::emit) throw Malformed("the output of the query is not emit");
        auto& x = static_cast<tr::emit const&>(s);
        Rel in = run(x.input(), no_frame);
        Result r;
        std::vector<int> pos;
        for (auto& c : x.columns()) { pos.push_back(need_column(in, c.source())); r.names.push_back(c.name() ? std::string(*c.name()) : std::string()); }
        for (auto& row : in.rows) { Row n; for (int p : pos) n.push_back(row[std::size_t(p)]); r.rows.push_back(std::move(n)); }
        return r;
    }
    struct Write { tr::write_kind kind; void const* at; std::string table; std::vector<std::string> keys, columns; Rows key_rows, rows; };
    Write write(tr::graph_type const& g) {
        auto& s = sink(g);
        if (s.kind() != tr::expression_kind::write) throw Malformed("the output of the statement is not write");
        auto& x = static_cast<tr::write const&>(s);
        Rel in = run(x.input(), no_frame);
        Write w;
        w.kind = x.operator_kind();
        auto& table = yb::extract<::yugawara::storage::index>(x.destination()).table();
        w.table = std::string(table.simple_name());
        w.at = &table;
        auto target = [&](td::variable const& v) {
            auto& c = yb::extract<::yugawara::storage::column>(v);
            if (&c.owner() != &table) throw Malformed("writes a column of another table");
            return std::string(c.simple_name());
        };
        std::vector<int> k, c;
        for (auto& m : x.keys()) { k.push_back(need_column(in, m.source())); w.keys.push_back(target(m.destination())); }
        for (auto& m : x.columns()) { c.push_back(need_column(in, m.source())); w.columns.push_back(target(m.destination())); }
        for (auto& row : in.rows) {
            Row a, b;
            for (int i : k) a.push_back(row[std::size_t(i)]);
            for (int i : c) b.push_back(row[std::size_t(i)]);
            w.key_rows.push_back(std::move(a));
            w.rows.push_back(std::move(b));
        }
        return w;
    }

private:
    static void need(Val const& v, Val::K k) { if (v.k != k) throw Malformed("operand " + to_string(v) + " has a wrong type"); }
    static int need_column(Rel const& r, td::variable const& v) {
        int i = index_of(r.cols, v);
        if (i < 0) throw Malformed("variable is not available: " + text(v));
        return i;
    }
    Val read(td::variable const& v, Env& env) {
        auto* p = v.optional_entity();
        for (auto it = env.lets.rbegin(); it != env.lets.rend(); ++it) if (it->var.optional_entity() == p || it->var == v) return it->val;
        if (env.rel) { int i = index_of(env.rel->cols, v); if (i >= 0) return (*env.row)[std::size_t(i)]; }
        if (env.frame) for (auto& b : *env.frame) if (b.var == v) return b.val;
        if (auto d = yb::extract_if<::yugawara::variable::declaration>(v)) {
            if (auto at = db.external_of.find(d.get()); at != db.external_of.end()) return at->second;
            auto it = db.externals.find(d->name());
            if (it != db.externals.end()) return it->second;
        }
        throw Malformed("variable is not available: " + text(v));
    }
    static void unique(Rows& rows) {
        std::set<Row> seen;
        Rows out;
        for (auto& r : rows) if (seen.insert(r).second) out.push_back(r);
        rows = std::move(out);
    }
    template<class P> std::vector<Binding> frame_of(P const& parameters, Env& env) {
        std::vector<Binding> f;
        for (auto& p : parameters) f.push_back({p.destination(), read(p.source(), env)});
        return f;
    }
    Val extension(ts::extension const& e, Env& env) {
        if (ye::scalar::subquery::is_instance(e)) {
            auto& x = static_cast<ye::scalar::subquery const&>(e);
            auto port = x.find_output_port();
            if (!port) throw Malformed("the subquery has no single output");
            auto frame = frame_of(x.parameters(), env);
            Rel r = run(*port, frame);
            int c = need_column(r, x.output_column());
            if (r.rows.size() > 1) throw NoValue("scalar subquery with several rows");
            return r.rows.empty() ? Val {} : r.rows[0][std::size_t(c)];
        }
        if (ye::scalar::exists::is_instance(e)) {
            auto& x = static_cast<ye::scalar::exists const&>(e);
            auto port = x.find_output_port();
            if (!port) throw Malformed("the subquery has no single output");
            auto frame = frame_of(x.parameters(), env);
            return Val::boolean(!run(*port, frame).rows.empty());
        }
        if (ye::scalar::quantified_compare::is_instance(e)) {
            auto& x = static_cast<ye::scalar::quantified_compare const&>(e);
            auto port = x.find_output_port();
            if (!port) throw Malformed("the subquery has no single output");
            Val l = eval(x.left(), env);
            auto frame = frame_of(x.parameters(), env);
            Rel r = run(*port, frame);
            int c = need_column(r, x.right_column());
            bool any = x.quantifier() == ts::quantifier::any;
            Val a = Val::boolean(!any);
            for (auto& row : r.rows) { Val t = compare(x.operator_kind(), l, row[std::size_t(c)]); a = any ? or3(a, t) : and3(a, t); }
            return a;
        }
        if (ye::scalar::aggregate_function_call::is_instance(e)) throw Malformed("an aggregate function remains in an expression");
        throw Unknown("scalar extension");
    }
    Rel join(tr::intermediate::join const& x, std::vector<Binding> const& frame) {
        if (x.lower() || x.upper()) throw Unknown("join with a range");
        Rel l = run(x.left(), frame), r = run(x.right(), frame), o, pair;
        pair.cols = l.cols;
        pair.cols.insert(pair.cols.end(), r.cols.begin(), r.cols.end());
        using k = tr::join_kind;
        bool keep_right = x.operator_kind() != k::semi && x.operator_kind() != k::anti;
        o.cols = keep_right ? pair.cols : l.cols;
        std::vector<bool> used(r.rows.size());
        for (auto& a : l.rows) {
            std::size_t found = 0;
            for (std::size_t j = 0; j < r.rows.size(); ++j) {
                Row n = a;
                n.insert(n.end(), r.rows[j].begin(), r.rows[j].end());
                bool ok = true;
                if (x.condition()) { Env env; env.rel = &pair; env.row = &n; env.frame = &frame; ok = holds(eval(*x.condition(), env)); }
                if (!ok) continue;
                ++found;
                used[j] = true;
                if (keep_right) o.rows.push_back(std::move(n));
            }
            switch (x.operator_kind()) {
                case k::left_outer_at_most_one: if (found > 1) throw NoValue("several matches"); [[fallthrough]];
                case k::left_outer: case k::full_outer: if (!found) { Row n = a; n.resize(o.cols.size()); o.rows.push_back(n); } break;
                case k::semi: if (found) o.rows.push_back(a); break;
                case k::anti: if (!found) o.rows.push_back(a); break;
                case k::inner: break;
            }
        }
        if (x.operator_kind() == k::full_outer) for (std::size_t j = 0; j < r.rows.size(); ++j) if (!used[j]) {
            Row n(l.cols.size());
            n.insert(n.end(), r.rows[j].begin(), r.rows[j].end());
            o.rows.push_back(n);
        }
        return o;
    }
    template<class X> Rel set_operation(X const& x, bool keep_common, std::vector<Binding> const& frame) {
        Rel l = run(x.left(), frame), r = run(x.right(), frame);
        std::vector<int> a, b;
        for (auto& k : x.group_key_pairs()) { a.push_back(need_column(l, k.left())); b.push_back(need_column(r, k.right())); }
        auto key = [](Row const& row, std::vector<int> const& p) { Row k; for (int i : p) k.push_back(row[std::size_t(i)]); return k; };
        std::map<Row, int> count;
        for (auto& row : r.rows) ++count[key(row, b)];
        Rows rows;
        std::set<Row> seen;
        for (auto& row : l.rows) {
            Row k = key(row, a);
            bool take;
            if (x.quantifier() == tr::set_quantifier::distinct) take = (count.count(k) != 0) == keep_common && seen.insert(k).second;
            else { auto& n = count[k]; bool common = n > 0; if (common) --n; take = common == keep_common; }
            if (take) rows.push_back(row);
        }
        l.rows = std::move(rows);
        return l;
    }
};

/// what must hold of every plan, whatever the data
class Verify {
public:
    std::vector<std::string> problems;
    std::size_t operators = 0, expressions = 0;
    bool needs_types = true;

    void graph(tr::graph_type const& g, bool nested, std::vector<td::variable> const& frame) {
        int sinks = 0, open = 0;
        std::map<tr::expression const*, int> state;
        for (auto&& e : g) {
            ++operators;
            for (auto&& p : e.input_ports()) {
                if (!p.opposite()) bad("unconnected input of " + text(e));
                else if (!g.contains(p.opposite()->owner())) bad("input of " + text(e) + " is out of the plan");
            }
            for (auto&& p : e.output_ports()) if (!p.opposite()) ++open; else if (!g.contains(p.opposite()->owner())) bad("output of " + text(e) + " is out of the plan");
            if (e.output_ports().empty()) ++sinks;
        }
        if (g.empty()) { bad("the plan is empty"); return; }
        if (nested ? (open != 1 || sinks != 0) : (open != 0 || sinks != 1)) { bad("the plan has " + std::to_string(open) + " open outputs and " + std::to_string(sinks) + " sinks"); return; }
        if (!problems.empty()) return;
        tr::expression const* last = nullptr;
        for (auto&& e : g) { bool is_last = e.output_ports().empty(); for (auto&& p : e.output_ports()) if (!p.opposite()) is_last = true; if (is_last) last = &e; }
        visited_ = 0;
        auto cols = columns(*last, frame, 0);
        if (problems.empty() && visited_ != g.size()) bad("some operators do not reach the output of the plan");
    }
    /// variables which the output carries
    std::vector<td::variable> output_of(tr::graph_type const& g, std::vector<td::variable> const& frame) {
        for (auto&& e : g) for (auto&& p : e.output_ports()) if (!p.opposite()) return columns(e, frame, 0);
        return {};
    }
    void expression(ts::expression const& e, std::vector<td::variable> visible) {
        ++expressions;
        switch (e.kind()) {
            case ts::expression_kind::variable_reference: use(static_cast<ts::variable_reference const&>(e).variable(), visible); return;
            case ts::expression_kind::let: {
                auto& x = static_cast<ts::let const&>(e);
                for (auto& v : x.variables()) { expression(v.value(), visible); define(v.variable()); visible.push_back(v.variable()); }
                expression(x.body(), visible);
                return;
            }
            case ts::expression_kind::extension: {
                auto& x = static_cast<ts::extension const&>(e);
                auto sub = [&](auto const& s, td::variable const* out) {
                    if (!queries) bad("a list of values contains a query");
                    std::vector<td::variable> frame;
                    for (auto& p : s.parameters()) { use(p.source(), visible); define(p.destination()); frame.push_back(p.destination()); }
                    auto saved = visited_;
                    graph(s.query_graph(), true, frame);
                    if (problems.empty() && out) { Verify again; auto cols = again.output_of(s.query_graph(), frame); if (index_of(cols, *out) < 0) bad("the result of a subquery is not available: " + text(*out)); }
                    visited_ = saved;
                };
                if (ye::scalar::subquery::is_instance(x)) { auto& s = static_cast<ye::scalar::subquery const&>(x); sub(s, &s.output_column()); return; }
                if (ye::scalar::exists::is_instance(x)) { sub(static_cast<ye::scalar::exists const&>(x), nullptr); return; }
                if (ye::scalar::quantified_compare::is_instance(x)) { auto& s = static_cast<ye::scalar::quantified_compare const&>(x); expression(s.left(), visible); sub(s, &s.right_column()); return; }
                bad("an expression which has no meaning in a plan: " + text(e));
                return;
            }
            default: break;
        }
        e.each_operand_([&](ts::expression const& c) { expression(c, visible); });
    }

    bool queries = true;

private:
    std::size_t visited_ = 0;
    std::vector<td::variable> defined_;

    void bad(std::string s) { if (problems.size() < 4) problems.push_back(std::move(s)); }
    void define(td::variable const& v) {
        if (!v) { bad("a variable is empty"); return; }
        if (index_of(defined_, v) >= 0) bad("a variable has two definitions: " + text(v));
        defined_.push_back(v);
    }
    void use(td::variable const& v, std::vector<td::variable> const& visible) {
        if (!v) { bad("a variable is empty"); return; }
        if (yb::kind_of(v) == yb::variable_info_kind::external_variable) return;
        if (index_of(visible, v) < 0) bad("a variable is not available where it is used: " + text(v));
    }
    std::vector<td::variable> columns(tr::expression const& e, std::vector<td::variable> const& frame, int depth) {
        if (depth > 300) { bad("the plan has a cycle"); return {}; }
        if (!problems.empty()) return {};
        ++visited_;
        std::vector<std::vector<td::variable>> in;
        for (auto&& p : e.input_ports()) in.push_back(columns(p.opposite()->owner(), frame, depth + 1));
        if (!problems.empty()) return {};
        std::vector<td::variable> cols;
        for (auto& v : in) cols.insert(cols.end(), v.begin(), v.end());
        auto visible = [&](std::vector<td::variable> v) { v.insert(v.end(), frame.begin(), frame.end()); return v; };
        auto available = [&](td::variable const& v, std::vector<td::variable> const& from) { if (!v || index_of(from, v) < 0) bad("a column is not available where it is used: " + text(v) + " in " + text(e)); };
        switch (e.kind()) {
            case tr::expression_kind::scan: {
                auto& x = static_cast<tr::scan const&>(e);
                auto& table = yb::extract<::yugawara::storage::index>(x.source()).table();
                for (auto& c : x.columns()) {
                    if (&yb::extract<::yugawara::storage::column>(c.source()).owner() != &table) bad("scan reads a column of another table");
                    define(c.destination());
                    cols.push_back(c.destination());
                }
                return cols;
            }
            case tr::expression_kind::values: {
                auto& x = static_cast<tr::values const&>(e);
                for (auto& r : x.rows()) {
                    if (r.elements().size() != x.columns().size()) bad("a row of values has a wrong number of elements");
                    for (auto&& v : r.elements()) expression(v, frame);
                }
                for (auto& c : x.columns()) { define(c); cols.push_back(c); }
                return cols;
            }
            case tr::expression_kind::apply: {
                auto& x = static_cast<tr::apply const&>(e);
                auto& f = yb::extract<::yugawara::function::declaration>(x.function());
                if (f.shared_parameter_types().size() != x.arguments().size()) bad("apply has a wrong number of arguments");
                for (auto&& a : x.arguments()) expression(a, visible(cols));
                for (auto& c : x.columns()) { define(c.variable()); cols.push_back(c.variable()); }
                return cols;
            }
            case tr::expression_kind::project:
                for (auto& c : static_cast<tr::project const&>(e).columns()) { expression(c.value(), visible(cols)); define(c.variable()); cols.push_back(c.variable()); }
                return cols;
            case tr::expression_kind::filter: expression(static_cast<tr::filter const&>(e).condition(), visible(cols)); return cols;
            case tr::expression_kind::intermediate_join: {
                auto& x = static_cast<tr::intermediate::join const&>(e);
                if (x.condition()) expression(*x.condition(), visible(cols));
                return cols;
            }
            case tr::expression_kind::intermediate_aggregate: {
                auto& x = static_cast<tr::intermediate::aggregate const&>(e);
                std::vector<td::variable> out;
                for (auto& k : x.group_keys()) { available(k, cols); out.push_back(k); }
                for (auto& c : x.columns()) {
                    for (auto& a : c.arguments()) available(a, cols);
                    if (yb::extract<::yugawara::aggregate::declaration>(c.function()).shared_parameter_types().size() != c.arguments().size()) bad("an aggregate function has a wrong number of arguments");
                    define(c.destination());
                    out.push_back(c.destination());
                }
                return out;
            }
            case tr::expression_kind::intermediate_distinct: for (auto& k : static_cast<tr::intermediate::distinct const&>(e).group_keys()) available(k, cols); return cols;
            case tr::expression_kind::intermediate_limit: {
                auto& x = static_cast<tr::intermediate::limit const&>(e);
                for (auto& k : x.group_keys()) available(k, cols);
                for (auto& k : x.sort_keys()) available(k.variable(), cols);
                return cols;
            }
            case tr::expression_kind::intermediate_union: {
                std::vector<td::variable> out;
                for (auto& m : static_cast<tr::intermediate::union_ const&>(e).mappings()) {
                    if (m.left()) available(*m.left(), in[0]);
                    if (m.right()) available(*m.right(), in[1]);
                    if (!m.left() && !m.right()) bad("union column without a source");
                    define(m.destination());
                    out.push_back(m.destination());
                }
                return out;
            }
            case tr::expression_kind::intermediate_intersection:
                for (auto& k : static_cast<tr::intermediate::intersection const&>(e).group_key_pairs()) { available(k.left(), in[0]); available(k.right(), in[1]); }
                return in[0];
            case tr::expression_kind::intermediate_difference:
                for (auto& k : static_cast<tr::intermediate::difference const&>(e).group_key_pairs()) { available(k.left(), in[0]); available(k.right(), in[1]); }
                return in[0];
            case tr::expression_kind::intermediate_extension: {
                auto& x = static_cast<tr::intermediate::extension const&>(e);
                if (x.extension_id() != ye::relation::subquery::extension_tag) { bad("unknown relational extension"); return cols; }
                auto& s = static_cast<ye::relation::subquery const&>(x);
                auto saved = visited_;
                // a copy of a nested query shares its variables with the original
                if (!s.is_clone()) graph(s.query_graph(), true, frame);
                else { Verify copy; copy.graph(s.query_graph(), true, frame); for (auto& p : copy.problems) bad(p); }
                visited_ = saved;
                if (!problems.empty()) return cols;
                Verify again;
                auto inner = again.output_of(s.query_graph(), frame);
                for (auto& m : s.mappings()) { available(m.source(), inner); define(m.destination()); cols.push_back(m.destination()); }
                return cols;
            }
            case tr::expression_kind::emit: for (auto& c : static_cast<tr::emit const&>(e).columns()) available(c.source(), cols); return cols;
            case tr::expression_kind::write: {
                auto& x = static_cast<tr::write const&>(e);
                auto& table = yb::extract<::yugawara::storage::index>(x.destination()).table();
                std::vector<::yugawara::storage::column const*> keys, values;
                auto one = [&](auto const& m, auto& list) {
                    available(m.source(), cols);
                    auto& c = yb::extract<::yugawara::storage::column>(m.destination());
                    if (&c.owner() != &table) bad("write to a column of another table");
                    for (auto* p : list) if (p == &c) bad("write sets a column twice: " + text(c));
                    list.push_back(&c);
                };
                for (auto& m : x.keys()) one(m, keys);
                for (auto& m : x.columns()) one(m, values);
                return cols;
            }
            default: bad("unknown operator " + text(e)); return cols;
        }
    }
};

inline std::string verify(tr::graph_type const& g) {
    Verify v;
    try { v.graph(g, false, {}); }
    catch (std::bad_cast const&) { v.problems.push_back("a descriptor refers a wrong kind of declaration"); }
    std::string o;
    for (auto& p : v.problems) o += (o.empty() ? "" : "; ") + p;
    return o;
}

inline std::string verify(::takatori::statement::statement const& st) {
    namespace st_ = ::takatori::statement;
    Verify v;
    std::ostringstream text;
    text << st;
    for (auto at = text.str().find("(null)"); at != std::string::npos; at = text.str().find("(null)", at + 1)) if (at < 7 || text.str().compare(at - 7, 7, "unknown") != 0) v.problems.push_back("a part is missing: " + text.str());
    if (st.kind() == st_::statement_kind::write) {
        auto& x = static_cast<st_::write const&>(st);
        for (std::size_t i = 0; i < x.columns().size(); ++i) for (std::size_t j = 0; j < i; ++j) if (x.columns()[i] == x.columns()[j]) v.problems.push_back("a column is written twice: " + text.str());
        for (auto& t : x.tuples()) {
            if (t.elements().size() != x.columns().size()) v.problems.push_back("a row has not one value per column: " + text.str());
            v.queries = false; // there is no plan which could run them
            for (auto& e : t.elements()) v.expression(e, {});
        }
    }
    std::string o;
    for (auto& p : v.problems) o += (o.empty() ? "" : "; ") + p;
    return o;
}

} // namespace plan
