// Limits: a text is refused exactly when it has more elements of a limited kind, more tree nodes or a
// deeper tree than allowed; the reported size of a tree is its size; limits change nothing else.
#include "refgrammar.h"
#include "ast_read.h"
#include "harness.h"
#include "parse_util.h"
#include "relayout.h"

using namespace mc;
using mizugaki::parser::sql_parser;
using mizugaki::parser::sql_parser_code;
using EK = mizugaki::parser::sql_parser_element_kind;

namespace {

constexpr int kinds = 20;
static std::array<EK, kinds> const all_kinds {EK::statement, EK::schema_element_definition, EK::table_element_definition, EK::column_constraint_definition, EK::column_reference,
    EK::storage_parameter, EK::set_clause, EK::with_element, EK::select_element, EK::table_reference, EK::grouping_element, EK::ordering_element, EK::field_definition,
    EK::row_expression, EK::scalar_expression, EK::when_clause, EK::string_literal_concatenation, EK::privilege_action, EK::privilege_object, EK::privilege_user};

struct Lists {
    std::array<std::vector<T const*>, kinds> by_kind;
    std::string problem;
    std::string const& text;
    explicit Lists(std::string const& t) : text(t) {}
    void take(EK k, T const& l) { by_kind[std::size_t(k)].push_back(&l); }
    void walk(T const& t) {
        for (auto& k : t.kids) {
            if (k.second.head == "[]") classify(t, k.first, k.second);
            walk(k.second);
        }
    }
    void classify(T const& t, std::string const& slot, T const& l) {
        static std::map<std::string, EK> const m {
            {"compilation_unit statements", EK::statement}, {"column_definition constraints", EK::column_constraint_definition}, {"constraint.key key", EK::ordering_element},
            {"constraint.key parameters", EK::storage_parameter}, {"constraint.key values", EK::scalar_expression}, {"constraint.referential columns", EK::column_reference},
            {"constraint.referential target_columns", EK::column_reference}, {"literal.string concatenations", EK::string_literal_concatenation},
            {"query.corresponding_clause column_names", EK::column_reference}, {"query.group_by_clause elements", EK::grouping_element}, {"query.query elements", EK::select_element},
            {"query.query from", EK::table_reference}, {"query.query order_by", EK::ordering_element}, {"query.with_element column_names", EK::column_reference},
            {"query.with_expression elements", EK::with_element}, {"scalar.builtin_set_function_invocation arguments", EK::scalar_expression},
            {"scalar.case_expression when_clauses", EK::when_clause}, {"scalar.function_invocation arguments", EK::scalar_expression},
            {"scalar.method_invocation arguments", EK::scalar_expression}, {"scalar.new_invocation arguments", EK::scalar_expression},
            {"scalar.static_method_invocation arguments", EK::scalar_expression}, {"scalar.value_constructor elements", EK::scalar_expression},
            {"statement.grant_privilege_statement actions", EK::privilege_action}, {"statement.grant_privilege_statement objects", EK::privilege_object},
            {"statement.grant_privilege_statement users", EK::privilege_user}, {"statement.revoke_privilege_statement actions", EK::privilege_action},
            {"statement.revoke_privilege_statement objects", EK::privilege_object}, {"statement.revoke_privilege_statement users", EK::privilege_user},
            {"statement.index_definition keys", EK::ordering_element}, {"statement.index_definition parameters", EK::storage_parameter},
            {"statement.index_definition values", EK::scalar_expression}, {"statement.insert_statement columns", EK::column_reference},
            {"statement.schema_definition elements", EK::schema_element_definition}, {"statement.table_definition elements", EK::table_element_definition},
            {"statement.table_definition parameters", EK::storage_parameter}, {"statement.update_statement elements", EK::set_clause},
            {"statement.view_definition columns", EK::column_reference}, {"statement.view_definition parameters", EK::storage_parameter},
            {"table.apply arguments", EK::scalar_expression}, {"table.correlation_clause column_names", EK::column_reference}, {"table.join_columns columns", EK::column_reference},
            {"type.row elements", EK::field_definition}};
        std::string key = t.head + " " + slot;
        if (slot == "options") return;
        if (key == "query.table_value_constructor elements") {
            bool values = t.b >= 0 && text.compare(std::size_t(t.b), 6, "VALUES") == 0;
            take(values ? EK::row_expression : EK::scalar_expression, l);
            return;
        }
        // arguments of built-in functions have their own grammar: only those of listed arity may repeat
        if (key == "scalar.builtin_function_invocation arguments") { builtin.push_back(&l); builtin_of.push_back(&t); return; }
        auto it = m.find(key);
        if (it == m.end()) { problem = key; return; }
        take(it->second, l);
    }
    std::vector<T const*> builtin, builtin_of;
};

sql_parser& parser() { static thread_local sql_parser p; return p; }

std::size_t longest(std::vector<T const*> const& v) {
    std::size_t n = 0;
    for (auto* l : v) n = std::max(n, l->kids.size());
    return n;
}

// the list that passes the limit first, and the place of the element that does it
std::pair<long, long> offence(std::vector<T const*> const& v, std::size_t limit) {
    std::pair<long, long> best {-1, -1};
    for (auto* l : v) {
        if (l->kids.size() <= limit) continue;
        long b = l->kids[limit - 1].second.e, e = l->kids[limit].second.e;
        if (b < 0 || e < 0) continue;
        if (best.second < 0 || e < best.second) best = {b, e};
    }
    return best;
}

void judge(Worker& w, std::string const& text, T const& u, bool deep) {
    auto& p = parser();
    p.options() = {};
    auto r = p("-", text);
    std::string shown = "`" + text + "`: ";
    if (!w.expect(bool(r), "rejected", shown, "without limits: ", r ? "" : r.diagnostic().message())) return;
    w.state(hash_text(text));
    w.count("trees");
    std::size_t nodes = count_nodes(u), depth = max_depth(u);
    // the size is reported only when it is limited
    w.expect(r.tree_node_count() == 0 && r.max_tree_depth() == 0, "sizes", shown, "sizes are reported although nothing limits them");
    for (int k = 1; k < 4; ++k) {
        if (k & 1) p.options().tree_node_limit() = 1000000;
        if (k & 2) p.options().tree_depth_limit() = 1000000;
        auto x = p("-", text);
        p.options() = {};
        if (!w.expect(bool(x), "rejected", shown, "with high limits")) continue;
        w.expect(x.tree_node_count() == nodes, "node count", shown, "reports ", x.tree_node_count(), " nodes, has ", nodes);
        w.expect(x.max_tree_depth() == depth, "depth", shown, "reports depth ", x.max_tree_depth(), ", has ", depth);
    }
    Reader rd;
    std::string plain = dump(rd.read(*r.value()), true);
    auto accepted = [&](std::string const& key, std::string const& what) {
        auto x = p("-", text);
        w.count("traces");
        if (!w.expect(bool(x), key, shown, "refused with ", what, ": ", x ? "" : x.diagnostic().message())) return;
        w.count("within");
        Reader rr;
        w.expect(dump(rr.read(*x.value()), true) == plain, key, shown, "another tree with ", what);
        bool on = p.options().tree_node_limit() || p.options().tree_depth_limit();
        w.expect(x.tree_node_count() == (on ? nodes : 0) && x.max_tree_depth() == (on ? depth : 0), key, shown, "other sizes with ", what);
    };
    auto refused = [&](std::string const& key, std::string const& what, std::pair<long, long> where, std::string const& word) {
        auto x = p("-", text);
        w.count("traces");
        if (!w.expect(!x, key, shown, "accepted with ", what)) return;
        w.count("beyond");
        w.expect(x.tree_node_count() == 0 && x.max_tree_depth() == 0, key, shown, what, " refused, yet sizes are reported");
        auto& d = x.diagnostic();
        w.expect(d.code() == sql_parser_code::exceed_number_of_elements, key, shown, what, " reported as ", d.code());
        w.expect(d.message().find(word) != std::string::npos, key, shown, what, " not named in: ", d.message());
        long b = long(d.region().begin), e = long(d.region().end);
        w.expect(b <= e && e <= long(text.size()), key, shown, what, " reported at ", b, "-", e);
        if (where.second >= 0) w.expect(b >= where.first && e <= where.second, key, shown, what, " reported at ", b, "-", e, ", the first element too many is at ", where.first, "-", where.second);
    };
    for (std::size_t limit : {std::size_t(1), nodes / 2, nodes - 1, nodes, nodes + 1}) {
        if (!limit) continue;
        p.options() = {};
        p.options().tree_node_limit() = limit;
        if (nodes > limit) refused("node limit", "node limit " + std::to_string(limit), {-1, -1}, "number of elements");
        else accepted("node limit", "node limit " + std::to_string(limit));
    }
    for (std::size_t limit = 1; limit <= depth + 1; ++limit) {
        p.options() = {};
        p.options().tree_depth_limit() = limit;
        if (depth > limit) refused("depth limit", "depth limit " + std::to_string(limit), {-1, -1}, "depth");
        else accepted("depth limit", "depth limit " + std::to_string(limit));
    }
    Lists ls(text);
    ls.walk(u);
    if (!w.expect(ls.problem.empty(), "unclassified", ls.problem)) return;
    for (EK k : all_kinds) {
        auto& v = ls.by_kind[std::size_t(k)];
        std::size_t n = longest(v);
        bool maybe = false;
        if (k == EK::scalar_expression) for (auto* l : ls.builtin) if (l->kids.size() > 1) maybe = true;
        for (std::size_t limit = n; limit + 1 >= n && limit > 0; --limit) {
            p.options() = {};
            p.options().element_limits()[k] = limit;
            std::string what = "limit " + std::to_string(limit) + " on " + text_of(k);
            if (n > limit) { refused("element limit", what, offence(v, limit), text_of(k)); w.count("beyond " + text_of(k)); }
            else if (!maybe) accepted("element limit", what);
        }
        if (n == 0 && deep && !maybe) {
            p.options() = {};
            p.options().element_limits()[k] = 1;
            accepted("element limit", "limit 1 on absent " + text_of(k));
        }
        // limits on all the other kinds, and none on this one
        if (deep && n > 1) {
            p.options() = {};
            for (EK o : all_kinds) if (o != k) p.options().element_limits()[o] = std::max<std::size_t>(16, 0);
            accepted("element limit", "no limit on " + text_of(k));
        }
    }
    p.options() = {};
    w.sample(text + "  nodes " + std::to_string(nodes) + " depth " + std::to_string(depth));
}

} // namespace

static void check(Worker& w) {
    int deep = w.thorough ? 1 : 0;
    for (int kind = 0; kind < Gen::statement_kinds; ++kind)
        w.explore("statement-" + std::to_string(kind), 2 + deep, [&, kind](Chooser& c) {
            Gen g(c);
            T s = g.statement(kind);
            if (w.steering() || g.dup_option || g.with_in_operand) return;
            judge(w, g.text, unit_of(std::move(s)), true);
        });
    w.explore("expression", 2 + deep, [&](Chooser& c) {
        Gen g(c);
        long b = g.mark();
        g.tok("DELETE"); g.tok("FROM");
        T s = Gen::nd("statement.delete_statement");
        s.add("table_name", g.ident());
        g.tok("WHERE");
        s.add("where", g.expr());
        if (w.steering() || g.with_in_operand) return;
        judge(w, g.text, unit_of(g.close(std::move(s), b)), true);
    });
    // long lists of every kind: exact at every length
    static struct { EK k; char const* pre; char const* first; char const* next; char const* post; int lead; } const L[] = {
        {EK::statement, "", "DROP TABLE a", "; DROP TABLE a", "", 0}, {EK::statement, "", "DROP TABLE a", "; DROP TABLE a", ";", 0}, {EK::statement, "", "DROP TABLE a", ";", "; DROP TABLE b", 2},
        {EK::schema_element_definition, "CREATE SCHEMA s", " CREATE SEQUENCE a", " CREATE SEQUENCE a", "", 0},
        {EK::table_element_definition, "CREATE TABLE t (", "a INT", ", a INT", ")", 0}, {EK::table_element_definition, "CREATE TABLE t (", "a INT", ", PRIMARY KEY (a)", ")", 0},
        {EK::column_constraint_definition, "CREATE TABLE t (a INT", " NULL", " NULL", ")", 0},
        {EK::column_reference, "INSERT INTO t (", "a", ", a", ") VALUES (1)", 0}, {EK::column_reference, "SELECT * FROM t JOIN u USING (", "a", ", a", ")", 0},
        {EK::column_reference, "CREATE TABLE t (FOREIGN KEY (", "a", ", a", ") REFERENCES u)", 0}, {EK::column_reference, "CREATE TABLE t (FOREIGN KEY (a) REFERENCES u (", "a", ", a", "))", 0},
        {EK::column_reference, "SELECT * FROM t AS u (", "a", ", a", ")", 0}, {EK::column_reference, "WITH w (", "a", ", a", ") AS (SELECT * FROM t) SELECT * FROM w", 0},
        {EK::column_reference, "CREATE VIEW v (", "a", ", a", ") AS SELECT * FROM t", 0},
        {EK::storage_parameter, "CREATE TABLE t (a INT) WITH (", "a", ", a = 1", ")", 0}, {EK::storage_parameter, "CREATE INDEX i ON t (a) WITH (", "a", ", a", ")", 0},
        {EK::set_clause, "UPDATE t SET ", "a = 1", ", a = 1", "", 0}, {EK::with_element, "WITH ", "w AS (SELECT * FROM t)", ", w AS (SELECT * FROM t)", " SELECT * FROM w", 0},
        {EK::select_element, "SELECT ", "a", ", a", " FROM t", 0}, {EK::select_element, "SELECT ", "*", ", t.*", " FROM t", 0}, {EK::table_reference, "SELECT * FROM ", "t", ", t", "", 0},
        {EK::grouping_element, "SELECT * FROM t GROUP BY ", "a", ", a", "", 0}, {EK::ordering_element, "SELECT * FROM t ORDER BY ", "a", ", a DESC", "", 0},
        {EK::ordering_element, "CREATE INDEX i ON t (", "a", ", a", ")", 0}, {EK::ordering_element, "CREATE TABLE t (UNIQUE (", "a", ", a", "))", 0},
        {EK::field_definition, "SELECT CAST(a AS ROW(", "a INT", ", a INT", ")) FROM t", 0}, {EK::row_expression, "INSERT INTO t VALUES ", "(1)", ", (1)", "", 0},
        {EK::scalar_expression, "SELECT f(", "a", ", a", ") FROM t", 0}, {EK::scalar_expression, "SELECT (", "a", ", a", ") FROM t", 0}, {EK::scalar_expression, "SELECT a IN (", "1", ", 1", ") FROM t", 0},
        {EK::scalar_expression, "INSERT INTO t VALUES (", "a", ", a", ")", 0}, {EK::scalar_expression, "CREATE INDEX i ON t (a) INCLUDE (", "a", ", a", ")", 0},
        {EK::scalar_expression, "SELECT * FROM t CROSS APPLY f(", "a", ", a", ") u", 0}, {EK::scalar_expression, "SELECT ARRAY[", "a", ", a", "] FROM t", 0},
        {EK::scalar_expression, "SELECT COALESCE(", "a", ", a", ") FROM t", 0},
        {EK::when_clause, "SELECT CASE", " WHEN a THEN b", " WHEN a THEN b", " END FROM t", 0}, {EK::string_literal_concatenation, "SELECT '' ", "'a'", " 'b'", " FROM t", 0},
        {EK::privilege_action, "GRANT ", "SELECT", ", UPDATE", " ON t TO u", 0}, {EK::privilege_object, "GRANT SELECT ON ", "t", ", TABLE t", " TO u", 0}, {EK::privilege_user, "GRANT SELECT ON t TO ", "u", ", PUBLIC", "", 0},
    };
    constexpr std::uint64_t nl = sizeof L / sizeof L[0];
    std::uint64_t top = w.thorough ? 40 : 14;
    w.enumerate("lengths", nl * top * top, [&](std::uint64_t i) {
        auto& l = L[i % nl];
        std::size_t n = std::size_t(i / nl % top) + 1, limit = std::size_t(i / nl / top) + 1;
        std::string s = std::string(l.pre) + l.first;
        for (std::size_t k = 1; k < n; ++k) s += l.next;
        s += l.post;
        // the variant in which empty statements stand between two others
        std::size_t size = l.lead == 2 ? n + 1 : n;
        auto& p = parser();
        p.options() = {};
        w.state(hash_text(s, limit));
        w.count("traces");
        auto r0 = p("-", s);
        if (!w.expect(bool(r0), "rejected", "`", s, "`: ", r0 ? "" : r0.diagnostic().message())) return;
        p.options().element_limits()[l.k] = limit;
        auto r = p("-", s);
        w.expect(bool(r) == (size <= limit), "element limit", "`", s, "` with limit ", limit, " on ", l.k, ": ", r ? "accepted" : r.diagnostic().message());
        if (!r) {
            w.expect(r.diagnostic().code() == sql_parser_code::exceed_number_of_elements, "element limit", "`", s, "` with limit ", limit, " on ", l.k, ": ", r.diagnostic().code());
            // the same text is accepted by a parser that limits something else
            p.options() = {};
            p.options().element_limits()[l.k == EK::statement ? EK::privilege_user : EK::statement] = 1;
            auto r2 = p("-", s);
            w.expect(bool(r2), "element limit", "`", s, "` refused because of a limit on something else");
        }
        p.options() = {};
    });
    // options are values of their own
    w.enumerate("options", std::uint64_t(kinds) * kinds * 3, [&](std::uint64_t i) {
        using mizugaki::parser::sql_parser_options;
        int a = int(i % kinds), b = int(i / kinds % kinds), how = int(i / kinds / kinds);
        sql_parser_options o;
        w.expect(o.max_expected_candidates() == 5 && o.tree_node_limit() == 0 && o.tree_depth_limit() == 0 && o.enable_description_comments() && o.debug() == 0, "defaults", "unexpected default options");
        for (EK k : all_kinds) w.expect(o.element_limits()[k] == 0, "defaults", "limit on ", k);
        o.element_limits()[all_kinds[std::size_t(a)]] = 7;
        o.element_limits()[all_kinds[std::size_t(b)]] += 100;
        for (int k = 0; k < kinds; ++k) {
            std::size_t want = (k == a ? 7U : 0U) + (k == b ? 100U : 0U);
            w.expect(o.element_limits()[all_kinds[std::size_t(k)]] == want, "options", "limit ", k, " after setting ", a, " and ", b);
            w.expect(static_cast<sql_parser_options const&>(o).element_limits()[all_kinds[std::size_t(k)]] == want, "options", "limit ", k, " read through const");
        }
        std::size_t* f[] = {&o.max_expected_candidates(), &o.tree_node_limit(), &o.tree_depth_limit()};
        *f[how] = 42;
        o.enable_description_comments() = how == 1;
        o.debug() = 3 + how;
        std::size_t want[] = {5, 0, 0};
        want[how] = 42;
        auto const& co = o;
        w.expect(co.max_expected_candidates() == want[0] && co.tree_node_limit() == want[1] && co.tree_depth_limit() == want[2] && co.enable_description_comments() == (how == 1) && co.debug() == 3 + how,
            "options", "setting option ", how, " shows elsewhere");
        sql_parser p {std::move(o)};
        auto const& cp = p;
        w.expect(cp.options().max_expected_candidates() == want[0] && cp.options().tree_node_limit() == want[1] && cp.options().tree_depth_limit() == want[2], "options", "a parser does not keep its options");
        w.expect(cp.options().element_limits()[all_kinds[std::size_t(a)]] >= 7, "options", "a parser does not keep its limits");
        w.count("traces");
        w.state(hash_text("options") + i);
    });
}

int main(int argc, char** argv) { return harness_main(argc, argv, check); }
