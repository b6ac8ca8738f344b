// Names: every way to write a name, in every setting of letter case, scope and schema search, means exactly the
// declaration which the rules choose. Every declaration has a value of its own, so that running the plan tells
// which one was meant.
#include "an_env.h"
#include "harness.h"

using namespace mc;
using namespace an;
using plan::Val;
namespace tt = ::takatori::type;

namespace {

sql_analyzer& analyzer() { static thread_local sql_analyzer a; return a; }

std::string const rejected = "rejected";

/// what a statement does: the first value of the first row, or what is written
std::string effect(Outcome& o, plan::Db const& db, std::map<void const*, std::string> const& tables = {}) {
    if (!o.is_plan() && !o.is_statement()) return rejected;
    try {
        if (o.is_statement()) {
            auto bad = plan::verify(o.statement());
            if (!bad.empty()) return "bad: " + bad;
            auto& s = o.statement();
            if (s.kind() != ::takatori::statement::statement_kind::write) return "a statement";
            auto& x = static_cast<::takatori::statement::write const&>(s);
            auto& table = plan::yb::extract<::yugawara::storage::index>(x.destination()).table();
            auto t = tables.find(&table);
            std::string r = "write " + (t == tables.end() ? std::string(table.simple_name()) : t->second);
            for (auto&& c : x.columns()) r += " " + std::string(plan::yb::extract<::yugawara::storage::column>(c).simple_name());
            return r;
        }
        if (auto bad = plan::verify(o.graph()); !bad.empty()) return "bad: " + bad;
        plan::Exec x(db);
        for (auto&& op : o.graph()) if (op.kind() == plan::tr::expression_kind::write) {
            auto r = x.write(o.graph());
            auto t = tables.find(r.at);
            std::string s = "write " + (t == tables.end() ? r.table : t->second);
            for (auto& c : r.columns) s += " " + c;
            return s + " of " + std::to_string(r.key_rows.empty() ? r.rows.size() : r.key_rows.size());
        }
        auto r = x.query(o.graph());
        return r.rows.empty() ? "nothing" : plan::to_string(r.rows[0][0]) + (r.names.empty() ? "" : " " + r.names[0]);
    }
    catch (std::exception const& e) { return std::string("does not run: ") + e.what(); }
}
void judge(Worker& w, sql_analyzer_options const& opt, plan::Db const& db, std::string const& sql, std::string const& want, std::string const& about, std::map<void const*, std::string> const& tables = {}) {
    auto o = run(analyzer(), opt, sql);
    w.count("names");
    w.state(std::hash<std::string> {}(sql + about));
    if (!w.expect(o.parsed && o.thrown.empty(), "does not run", sql, ": ", o.why())) return;
    auto got = effect(o, db, tables);
    auto same = got == want || (want.find(' ') == std::string::npos && got.substr(0, got.find(' ')) == want);
    w.expect(same, want == rejected ? "a name which means nothing" : got == rejected ? "a name is not found" : "another thing is meant", sql, " with ", about, " means ", got == rejected ? o.why() : got, " expected ", want);
    if (got == rejected) {
        bool located = !o.diagnostics().empty();
        w.expect(located, "no diagnostics", sql);
        w.count("rejected");
    }
    else w.count("found");
}

// ---- letter case
struct Letters : Env {
    plan::Db db;
    int which; // a set of: 1 small letters are declared, 2 capitals, 4 one of each
    std::map<void const*, std::string> tables;
    static std::vector<std::string> both(int which, char c) {
        std::vector<std::string> r;
        for (int m = 0; m < 3; ++m) if ((which >> m) & 1) r.push_back(word(m, c));
        return r;
    }
    /// small, capital, mixed
    static std::string word(int m, char c) { return std::string(1, m == 1 ? char(c - 32) : c) + "1" + (m == 0 ? "z" : "Z"); }
    explicit Letters(int w) : which(w) {
        if (!(which & (which - 1))) catalog = std::make_shared<::yugawara::schema::catalog>(both(which, 'f')[0], std::nullopt, schemas);
        auto& s = schema("pub");
        auto value = [](std::string const& n, int base) { return Val::integer(base + (n[0] < 'a' ? 1 : n[2] < 'a' ? 2 : 0)); };
        auto table = [&](Schema& in, std::string const& name, std::vector<std::string> const& columns, plan::Row row, std::string shown = {}) {
            std::vector<Column> cs;
            for (auto& c : columns) cs.push_back({ c });
            auto t = in.table(name, cs);
            db.of[t.get()] = { row };
            tables[t.get()] = shown.empty() ? name : shown;
        };
        auto with = [](std::vector<std::string> a, std::vector<std::string> b) { a.insert(a.end(), b.begin(), b.end()); return a; };
        plan::Row row { Val::integer(0) }, other { Val::integer(100) };
        for (auto& n : both(which, 'a')) { row.push_back(value(n, 10)); other.push_back(value(n, 10)); }
        table(s, "t", with({ "k" }, both(which, 'a')), row);
        table(s, "u", with({ "k2" }, both(which, 'a')), other);
        table(s, "one", { "v" }, { Val::integer(50) });
        std::size_t id = user + 1;
        for (auto& n : both(which, 'a')) {
            table(s, n, { "v" }, { value(n, 30) });
            s.function(id, n, int8(), { int8() });
            db.functions[id++] = [v = value(n, 50)](plan::Row const&) { return v; };
        }
        for (auto& n : both(which, 'b')) {
            s.aggregate(id, n, int8(), { int8() });
            db.aggregates[id++] = [v = value(n, 70)](plan::Rows const&) { return v; };
        }
        for (auto& n : both(which, 'c')) {
            s.table_function(id, n, { { "v" } }, { int8() });
            db.table_functions[id++] = [v = value(n, 90)](plan::Row const&) { return plan::Rows { { v } }; };
        }
        for (auto& n : both(which, 'd')) {
            auto d = s.variables->add(std::make_shared<::yugawara::variable::declaration>(n, int8()));
            db.external_of[d.get()] = value(n, 110);
        }
        for (auto& n : both(which, 'e')) {
            auto& x = schema(n, false);
            table(x, "s", { "v" }, { value(n, 130) }, n + ".s");
            x.function(id, "fn", int8(), { int8() });
            db.functions[id++] = [v = value(n, 150)](plan::Row const&) { return v; };
        }
        s.table_function(id, "tf", { { "v" } }, { int8() });
        db.table_functions[id++] = [](plan::Row const&) { return plan::Rows { { Val::integer(17) } }; };
        s.aggregate(builtin + 1, "sum", int8(), { int8() });
        s.aggregate(builtin + 2, "SUM", int8(), { int8() });
        for (std::size_t i = 1; i <= 2; ++i) db.aggregates[builtin + i] = [](plan::Rows const& r) { return r.empty() ? Val::null() : r[0][0]; };
    }
};

void letters(Worker& w) {
    constexpr int templates = 49;
    w.explore("letter case", 99, [&](Chooser& c) {
        static int const subsets[] { 1, 2, 4, 3, 7, 6, 5 };
        int which = subsets[c.choose(w.thorough ? 7 : 5)];
        int n = c.choose(templates);
        int one = c.choose(6), two = c.choose(6); // small, capital, mixed, and the same in quotes
        int folds; // a set of kinds
        if (w.thorough) folds = c.choose(64);
        else { int o = c.choose(12); folds = o == 0 ? 0 : o < 7 ? 1 << (o - 1) : 62 & ~(1 << (o - 6)); }
        bool fold = folds & 1, variable = folds & 2, relation = folds & 4, schema = folds & 8, catalog = folds & 16, function = folds & 32;
        if (w.steering()) return;
        static std::map<int, std::unique_ptr<Letters>> all;
        auto& cat = all[which];
        if (!cat) cat = std::make_unique<Letters>(which);
        auto opt = cat->options();
        opt.lowercase_regular_identifiers() = fold;
        opt.lowercase_variable_regular_identifiers() = variable;
        opt.lowercase_relation_regular_identifiers() = relation;
        opt.lowercase_schema_regular_identifiers() = schema;
        opt.lowercase_catalog_regular_identifiers() = catalog;
        opt.lowercase_function_regular_identifiers() = function;
        auto text = [](int form, char letter) { auto s = Letters::word(form % 3, letter); return form > 2 ? "\"" + s + "\"" : s; };
        auto means = [&](int form, bool folds) { return form > 2 || !(fold || folds) ? form % 3 : 0; };
        auto declared = [&](int m) { return ((which >> m) & 1) != 0; };
        auto val = [&](int base, int m) { return declared(m) ? std::to_string(base + m) : rejected; };
        auto if_ = [](bool b, std::string s) { return b ? s : rejected; };
        auto is = [&](bool kind) { return means(one, kind) == means(two, kind); };
        auto A = [&](char l) { return text(one, l); };
        auto B = [&](char l) { return text(two, l); };
        auto letter = [](int m, char l) { return Letters::word(m, l); };
        int v1 = means(one, variable), v2 = means(two, variable), r1 = means(one, relation), r2 = means(two, relation), s1 = means(one, schema), s2 = means(two, schema), c1 = means(one, catalog), f1 = means(one, function), f2 = means(two, function);
        (void) f2; (void) s2;
        std::string sql, want;
        switch (n) {
            case 0: sql = "SELECT " + A('a') + " FROM t"; want = if_(declared(v1), val(10, v1) + " " + letter(v1, 'a')); break;
            case 1: sql = "SELECT t." + A('a') + " FROM t"; want = if_(declared(v1), val(10, v1) + " " + letter(v1, 'a')); break;
            case 2: sql = "SELECT v FROM " + A('a'); want = val(30, r1); break;
            case 3: sql = "SELECT " + A('a') + ".v FROM " + B('a'); want = is(relation) ? val(30, r1) : rejected; break;
            case 4: sql = "SELECT " + A('x') + ".v FROM one AS " + B('x'); want = if_(is(relation), "50"); break;
            case 5: sql = "SELECT v FROM " + A('e') + ".s"; want = val(130, s1); break;
            case 6: sql = "SELECT " + A('e') + ".s.v FROM " + B('e') + ".s"; want = is(schema) ? val(130, s1) : rejected; break;
            case 7: sql = "SELECT v FROM " + A('f') + ".pub.one"; want = if_(!(which & (which - 1)) && declared(c1), "50"); break;
            case 8: sql = "SELECT " + A('a') + "(k) FROM t"; want = val(50, f1); break;
            case 9: sql = "SELECT " + A('b') + "(k) FROM t"; want = val(70, f1); break;
            case 10: sql = "SELECT r.v FROM t APPLY " + A('c') + "(k) AS r(v)"; want = val(90, f1); break;
            case 11: sql = "SELECT " + A('x') + ".v FROM t APPLY tf(k) AS " + B('x') + "(v)"; want = if_(is(relation), "17"); break;
            case 12: sql = "SELECT " + A('x') + " FROM t APPLY tf(k) AS r(" + B('x') + ")"; want = if_(is(variable), "17"); break;
            case 13: sql = "SELECT " + A('d') + " FROM t"; want = val(110, v1); break;
            case 14: sql = "WITH " + A('a') + " AS (SELECT 20 AS v FROM t) SELECT v FROM " + B('a'); want = is(relation) ? "20" : val(30, r2); break;
            case 15: sql = "WITH q(" + A('x') + ") AS (SELECT 21 FROM t) SELECT " + B('x') + " FROM q"; want = if_(is(variable), "21"); break;
            case 16: sql = "SELECT " + A('x') + " FROM (SELECT 22 AS " + B('x') + " FROM t) AS r"; want = if_(is(variable), "22"); break;
            case 17: sql = "SELECT " + A('x') + " FROM t AS r(" + B('x') + ")"; want = if_(is(variable), "0"); break;
            case 18: sql = "SELECT " + B('a') + " FROM t JOIN u USING (" + A('a') + ")"; want = !declared(v1) || !declared(v2) ? rejected : if_(v1 == v2, val(10, v1)); break;
            case 19: sql = "INSERT INTO " + A('a') + " (v) VALUES (1)"; want = if_(declared(r1), "write " + letter(r1, 'a') + " v"); break;
            case 20: sql = "INSERT INTO t (k, " + A('a') + ") VALUES (0, 1)"; want = if_(declared(v1), "write t k " + letter(v1, 'a')); break;
            case 21: sql = "UPDATE t SET " + A('a') + " = 1"; want = if_(declared(v1), "write t " + letter(v1, 'a') + " of 1"); break;
            case 22: sql = "UPDATE t AS " + A('x') + " SET k = " + B('x') + ".k"; want = if_(is(relation), "write t k of 1"); break;
            case 23: sql = "DELETE FROM t AS " + A('x') + " WHERE " + B('x') + ".k = 0"; want = if_(is(relation), "write t of 1"); break;
            case 24: sql = "DELETE FROM " + A('a'); want = if_(declared(r1), "write " + letter(r1, 'a') + " of 1"); break;
            case 25: sql = "SELECT k AS " + A('x') + " FROM t"; want = "0 " + letter(v1, 'x'); break;
            case 26: sql = "SELECT k FROM t ORDER BY " + A('a'); want = if_(declared(v1), "0"); break;
            case 27: sql = "WITH " + A('x') + " AS (SELECT 1 AS v FROM t), " + B('x') + " AS (SELECT 2 AS v FROM t) SELECT v FROM " + A('x'); want = if_(!is(relation), "1"); break;
            case 28: sql = "WITH q(" + A('x') + ", " + B('x') + ") AS (SELECT 1, 2 FROM t) SELECT " + B('x') + " FROM q"; want = if_(!is(variable), "2"); break;
            case 29: sql = "INSERT INTO t (" + A('a') + ", " + B('a') + ", k) VALUES (1, 2, 3)"; want = if_(declared(v1) && declared(v2) && v1 != v2, "write t " + letter(v1, 'a') + " " + letter(v2, 'a') + " k"); break;
            case 30: sql = "UPDATE t SET " + A('a') + " = 1, " + B('a') + " = 2"; want = if_(declared(v1) && declared(v2) && v1 != v2, "write t " + letter(v1, 'a') + " " + letter(v2, 'a') + " of 1"); break;
            case 31: sql = "SELECT 1 FROM t AS r(" + A('x') + ", " + B('x') + ")"; want = if_(!is(variable), "1"); break;
            case 32: sql = "SELECT " + A('x') + ".v FROM one AS " + A('x') + ", one AS " + B('x'); want = if_(!is(relation), "50"); break;
            case 33: sql = "SELECT (SELECT " + A('a') + " FROM one) FROM t"; want = val(10, v1); break;
            case 34: sql = "SELECT " + A('a') + " FROM t GROUP BY " + B('a'); want = declared(v1) && declared(v2) ? if_(v1 == v2, val(10, v1)) : rejected; break;
            case 35: sql = "SELECT " + A('x') + ".* FROM one AS " + B('x'); want = if_(is(relation), "50 v"); break;
            case 36: sql = "TABLE " + A('a'); want = val(30, r1); break;
            case 37: sql = "SELECT " + A('e') + ".fn(k) FROM t"; want = val(150, s1); break;
            case 38: sql = "SELECT pub." + A('d') + " FROM t"; want = val(110, v1); break;
            case 39: sql = "SELECT " + A('f') + ".pub." + B('d') + " FROM t"; want = !(which & (which - 1)) && declared(c1) ? val(110, v2) : rejected; break;
            case 40: sql = "SELECT " + A('f') + "." + B('e') + ".fn(k) FROM t"; want = !(which & (which - 1)) && declared(c1) ? val(150, s2) : rejected; break;
            case 41: sql = "SELECT " + A('x') + " FROM (SELECT k AS " + A('x') + ", k AS " + B('x') + " FROM t) AS r"; want = if_(!is(variable), "0"); break;
            case 42: sql = "SELECT (SELECT " + A('x') + ".k FROM one) FROM t AS " + B('x'); want = if_(is(relation), "0"); break;
            case 43: sql = "SELECT r." + A('x') + " FROM (VALUES (23)) AS r(" + B('x') + ")"; want = if_(is(variable), "23"); break;
            case 44: sql = "SELECT " + A('x') + " FROM (SELECT 24 AS " + B('x') + " FROM t UNION ALL SELECT 24 AS y FROM t) AS r"; want = if_(is(variable), "24"); break;
            case 45: sql = "SELECT " + A('a') + " FROM pub.t WHERE t." + B('a') + " = " + std::to_string(10 + v2); want = if_(declared(v1) && declared(v2), val(10, v1)); break;
            case 46: sql = "SELECT " + A('a') + "." + B('x') + " FROM " + A('a') + " AS " + A('a') + "(" + B('x') + ")"; want = val(30, r1); break;
            case 47: sql = "SELECT " + A('x') + ".v FROM (SELECT 25 AS v FROM t) AS " + B('x'); want = if_(is(relation), "25"); break;
            default: sql = "SELECT SUM(" + A('a') + ") FROM t"; want = val(10, v1); break;
        }
        std::string about = std::string("the words ") + std::to_string(which) + " declared, folding";
        if (fold) about += " all";
        if (variable) about += " variables";
        if (relation) about += " relations";
        if (schema) about += " schemas";
        if (catalog) about += " catalogs";
        if (function) about += " functions";
        judge(w, opt, cat->db, sql, want, about, cat->tables);
    });
}

// ---- tables
void tables(Worker& w) {
    w.explore("tables", 99, [&](Chooser& c) {
        int x = c.choose(4), y = c.choose(4), z = c.choose(4); // which of t and u are in the schema
        int order = c.choose(6), form = c.choose(w.thorough ? 14 : 14), q = c.choose(9);
        if (w.steering()) return;
        struct World : Env { plan::Db db; std::map<void const*, std::string> names; };
        static std::map<int, std::unique_ptr<World>> all;
        static std::vector<std::vector<std::string>> const paths { { "x", "y" }, { "y", "x" }, { "x" }, { "y" }, {}, { "z", "y", "x" } };
        auto& path = paths[std::size_t(order)];
        auto has = [&](std::string const& s, int u) { int m = s == "x" ? x : s == "y" ? y : s == "z" ? z : 0; return ((m >> u) & 1) != 0; };
        auto value = [](std::string const& s, int u) { return std::string(1, char('1' + (s[0] - 'x'))) + (u ? "2" : "1"); };
        auto& world = all[((x * 4 + y) * 4 + z) * 6 + order];
        if (!world) {
            world = std::make_unique<World>();
            world->schema("pub", false);
            for (auto* s : { "x", "y", "z" }) {
                auto& in = world->schema(s, false);
                for (int u = 0; u < 2; ++u) if (has(s, u)) {
                    auto t = in.table(u ? "u" : "t", { { "v" } });
                    world->db.of[t.get()] = { { Val::integer(std::stoi(value(s, u))) } };
                    world->names[t.get()] = value(s, u);
                }
            }
            auto one = world->schema("pub").table("one", { { "k" } });
            world->db.of[one.get()] = { { Val::integer(0) } };
            for (auto& s : path) world->path->elements().emplace_back(world->schema(s).declaration);
        }
        struct Name { char const* sql; char const* schema; int u; };
        static Name const names[] { { "t", "", 0 }, { "u", "", 1 }, { "x.t", "x", 0 }, { "y.u", "y", 1 }, { "cat.x.t", "x", 0 }, { "cat.y.u", "y", 1 }, { "dog.x.t", "no", 0 }, { "w.t", "no", 0 }, { "cat.t", "no", 0 } };
        auto& name = names[q];
        std::string N = name.sql, schema = name.schema, table = rejected;
        if (schema.empty()) { for (auto& s : path) if (table == rejected && has(s, name.u)) table = value(s, name.u); }
        else if (has(schema, name.u)) table = value(schema, name.u);
        // what a WITH query of the name t changes
        auto over = [&](std::string const& t, std::string const& inner) { return N == "t" ? t : inner; };
        std::string sql, want;
        std::string t; // the table t
        { for (auto& s : path) if (t.empty() && has(s, 0)) t = value(s, 0); if (t.empty()) t = rejected; }
        switch (form) {
            case 0: sql = "SELECT v FROM " + N; want = table; break;
            case 1: sql = "TABLE " + N; want = table; break;
            case 2: sql = "SELECT r.v FROM (SELECT v FROM " + N + ") AS r"; want = table; break;
            case 3: sql = "SELECT (SELECT v FROM " + N + ") FROM pub.one"; want = table; break;
            case 4: sql = "WITH t AS (SELECT 71 AS v FROM pub.one) SELECT v FROM " + N; want = over("71", table); break;
            case 5: sql = "WITH t AS (SELECT v FROM " + N + ") SELECT v FROM t"; want = table; break; // not itself
            case 6: sql = "WITH t AS (SELECT 71 AS v FROM pub.one), s AS (SELECT v FROM " + N + ") SELECT v FROM s"; want = over("71", table); break;
            case 7: sql = "WITH s AS (SELECT v FROM " + N + "), t AS (SELECT 71 AS v FROM pub.one) SELECT v FROM s"; want = table; break; // not the ones after it
            case 8: sql = "WITH t AS (SELECT 71 AS v FROM pub.one) SELECT (SELECT v FROM " + N + ") FROM pub.one"; want = over("71", table); break;
            case 9: sql = "WITH t AS (SELECT 71 AS v FROM pub.one) SELECT v FROM (WITH t AS (SELECT 72 AS v FROM pub.one) SELECT v FROM " + N + ") AS r"; want = over("72", table); break;
            case 10: sql = "SELECT r.v FROM (WITH t AS (SELECT 72 AS v FROM pub.one) SELECT v FROM t) AS r, " + N + " AS s"; want = table == rejected ? rejected : "72"; break;
            case 11: sql = "SELECT s.v FROM (WITH t AS (SELECT 72 AS v FROM pub.one) SELECT v FROM t) AS r, " + N + " AS s"; want = table; break; // only inside of the parentheses
            case 12: sql = "INSERT INTO " + N + " VALUES (1)"; want = table == rejected ? rejected : "write " + table + " v"; break;
            default: sql = "DELETE FROM " + N; want = table == rejected ? rejected : "write " + table + " of 1"; break;
        }
        std::string about;
        for (auto* s : { "x", "y", "z" }) { about += std::string(" ") + s + "{"; for (int u = 0; u < 2; ++u) if (has(s, u)) about += u ? "u" : "t"; about += "}"; }
        about += " path";
        for (auto& s : path) about += " " + s;
        judge(w, world->options(), world->db, sql, want, about, world->names);
    });
}

// ---- columns
struct Relation { char const* sql; char const* name; char const* table; std::vector<std::string> columns; char const* key; };
// columns of tables: v, w, z and the key, whose value tells the level of the query
std::vector<Relation> const& relations() {
    static std::vector<Relation> const r {
        { "x.t", "t", "x.t", { "v", "w" }, "kt" },
        { "y.t", "t", "y.t", { "v" }, "ky" },
        { "x.t AS r", "r", "", { "v", "w" }, "kt" },
        { "x.u", "u", "x.u", { "w", "z" }, "ku" },
        { "x.u AS t", "t", "", { "w", "z" }, "ku" },
        { "x.u AS x", "x", "", { "w", "z" }, "ku" },
        { "y.t AS r(z, ky)", "r", "", { "z" }, "ky" },
        { "(SELECT v, kt FROM x.t) AS r", "r", "", { "v" }, "kt" },
    };
    return r;
}
char const* source(Relation const& r) { return r.key[1] == 't' ? "x.t" : r.key[1] == 'y' ? "y.t" : "x.u"; }
int value_of(std::string const& table, std::size_t column, int level) { return (table == "x.t" ? 100 : table == "y.t" ? 200 : 300) + int(column) * 10 + level; }

void columns(Worker& w) {
    struct World : Env {
        plan::Db db;
        World(int vars, int order) {
            schema("pub", false);
            auto make = [&](std::string const& in, std::string const& name, std::string const& key, std::vector<std::string> cs) {
                std::vector<Column> list;
                for (auto& c : cs) list.push_back({ c });
                list.push_back({ key });
                auto t = schema(in, false).table_with(name, list, { cs.size() });
                plan::Rows rows;
                for (int level = 1; level <= 3; ++level) {
                    plan::Row row;
                    for (std::size_t i = 0; i < cs.size(); ++i) row.push_back(Val::integer(value_of(in + "." + name, i, level)));
                    row.push_back(Val::integer(level));
                    rows.push_back(row);
                }
                db.of[t.get()] = rows;
            };
            make("x", "t", "kt", { "v", "w" });
            make("y", "t", "ky", { "v" });
            make("x", "u", "ku", { "w", "z" });
            static char const* const where[] { "x", "y", "x", "y" };
            static char const* const names[] { "v", "v", "g", "g" };
            for (int i = 0; i < 4; ++i) if ((vars >> i) & 1) {
                auto d = schema(where[i], false).variables->add(std::make_shared<::yugawara::variable::declaration>(names[i], int8()));
                db.external_of[d.get()] = Val::integer(900 + i);
            }
            for (auto* s : order == 0 ? std::vector<char const*> { "x", "y" } : order == 1 ? std::vector<char const*> { "y", "x" } : std::vector<char const*> { "y" }) path->elements().emplace_back(schema(s).declaration);
        }
    };
    w.explore("columns", w.thorough ? 5 : 4, [&](Chooser& c) {
        int depth = 1 + c.choose(3);
        static char const* const refs[] { "v", "w", "z", "t.v", "r.v", "t.w", "u.w", "x.t.v", "y.t.v", "x.u.w", "x.t.w", "cat.x.t.v", "cat.y.t.v", "g", "x.v", "y.v", "x.g", "y.g", "cat.x.g", "cat.y.v", "r.z", "x.w", "dog.x.t.v", "x.t.z", "w.v", "dog.v", "v.w", "t.t.v", "r.t.v" };
        std::string ref = refs[c.choose(29)];
        std::vector<std::vector<Relation const*>> levels;
        for (int i = 0; i < depth; ++i) {
            levels.emplace_back();
            auto first = std::size_t(c.choose(int(relations().size())));
            levels.back().push_back(&relations()[first]);
            for (int more = 0; more < 2; ++more) {
                auto k = std::size_t(c.choose(int(relations().size()) + 1));
                if (k == 0) break;
                auto* r = &relations()[k - 1];
                for (auto* o : levels.back()) if (std::string(o->key) == r->key) return; // of three tables, each once
                levels.back().push_back(r);
            }
        }
        int vars = c.choose(16), order = c.choose(3);
        int joined = c.choose(2), place = c.choose(3), wrap = c.choose(3);
        if (w.steering()) return;
        // what it means
        auto level_of = [&](Relation const* r, std::size_t l) {
            (void) r;
            return int(l) + 1;
        };
        std::vector<std::string> parts;
        { std::string p; for (char ch : ref + ".") { if (ch == '.') { parts.push_back(p); p.clear(); } else p += ch; } }
        auto named = [&](std::string const& n, bool& ambiguous, std::size_t& at) -> Relation const* {
            for (std::size_t l = levels.size(); l-- > 0;) {
                Relation const* found = nullptr;
                for (auto* r : levels[l]) if (r->name == n) { if (found) { ambiguous = true; return nullptr; } found = r; }
                if (found) { at = l; return found; }
            }
            return nullptr;
        };
        auto column = [&](Relation const* r, std::string const& n, std::size_t l) -> std::string {
            for (std::size_t i = 0; i < r->columns.size(); ++i) if (r->columns[i] == n) {
                std::size_t pos = i;
                std::string s = source(*r);
                return std::to_string(value_of(s, pos, level_of(r, l)));
            }
            return rejected;
        };
        auto simple = [&](std::string const& n) -> std::string { // "" if there is none
            for (std::size_t l = levels.size(); l-- > 0;) {
                std::string found;
                for (auto* r : levels[l]) {
                    auto v = column(r, n, l);
                    if (v == rejected) continue;
                    if (!found.empty()) return rejected;
                    found = v;
                }
                if (!found.empty()) return found;
            }
            return "";
        };
        auto variable = [&](std::string const& s, std::string const& n) -> std::string {
            int bit = (s == "x" ? 0 : s == "y" ? 1 : 9) + (n == "v" ? 0 : n == "g" ? 2 : 9);
            return bit < 4 && ((vars >> bit) & 1) ? std::to_string(900 + bit) : rejected;
        };
        std::vector<std::string> path = order == 0 ? std::vector<std::string> { "x", "y" } : order == 1 ? std::vector<std::string> { "y", "x" } : std::vector<std::string> { "y" };
        std::string want = rejected;
        bool ambiguous = false;
        std::size_t at = 0;
        auto qualified = [&](std::string const& s, std::string const& t, std::string const& n) {
            if (variable(s, t) != rejected) return rejected; // a field of a variable: there are none
            for (std::size_t l = levels.size(); l-- > 0;) for (auto* r : levels[l]) if (r->table == s + "." + t) return column(r, n, l);
            return rejected;
        };
        if (parts.size() == 1) {
            want = simple(parts[0]);
            if (want.empty()) { want = rejected; for (auto& s : path) if (want == rejected) want = variable(s, parts[0]); }
        }
        else if (auto* r = named(parts[0], ambiguous, at); r || ambiguous) {
            if (parts.size() > 2) { if (parts[0] != "t" && parts[0] != "r") return; } // a name of a schema, which an alias covers: not laid down
            else if (r) want = column(r, parts[1], at);
        }
        else if (!simple(parts[0]).empty()) want = rejected; // a field of a column: there are none
        else if (parts.size() == 2) {
            want = variable(parts[0], parts[1]);
        }
        else if (parts.size() == 3) {
            want = parts[0] == "cat" ? variable(parts[1], parts[2]) : qualified(parts[0], parts[1], parts[2]);
        }
        else if (parts[0] == "cat") want = qualified(parts[1], parts[2], parts[3]);
        // how it is written
        std::string sql;
        for (std::size_t l = levels.size(); l-- > 0;) {
            std::string from, on;
            for (auto* r : levels[l]) {
                bool join = joined && !from.empty();
                from += from.empty() ? r->sql : std::string(join ? " CROSS JOIN " : ", ") + r->sql;
                on += (on.empty() ? "" : " AND ") + std::string(r->key) + " = " + std::to_string(l + 1);
            }
            std::string inner = sql.empty() ? ref : "(" + sql + ")";
            if (sql.empty() && place == 1) { inner = "1"; on += " AND " + ref + " >= 0"; }
            if (sql.empty() && place == 2) { inner = "CASE WHEN " + ref + " IS NULL THEN 0 ELSE " + ref + " END"; }
            sql = "SELECT " + inner + " AS o FROM " + from + " WHERE " + on;
            if (wrap == 1 && l + 1 == levels.size()) sql = "SELECT d.o FROM (" + sql + ") AS d";
            if (wrap == 2 && l + 1 == levels.size()) sql = "SELECT o FROM (" + sql + " UNION ALL " + sql + ") AS d LIMIT 1";
        }
        if (place == 1 && want != rejected) want = "1";
        if (wrap && levels.size() > 1) { /* a derived table sees the query around it as well */ }
        static std::map<int, std::unique_ptr<World>> all;
        auto& world = all[vars * 3 + order];
        if (!world) world = std::make_unique<World>(vars, order);
        std::string about = "variables " + std::to_string(vars) + " path";
        for (auto& s : path) about += " " + s;
        judge(w, world->options(), world->db, sql, want, about);
    });
}

void check(Worker& w) {
    letters(w);
    tables(w);
    columns(w);
}

} // namespace

int main(int argc, char** argv) { return harness_main(argc, argv, check); }
