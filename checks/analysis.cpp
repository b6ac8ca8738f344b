// Every statement of the grammar is answered: with a complete plan or statement, or with diagnostics.
#include "an_show.h"
#include "harness.h"
#include "place_faults.h"
#include "refgrammar.h"

using namespace mc;
using namespace an;

// 1: every statement is answered; 2: the answer depends on the statement, the options and the catalog alone
#ifndef PART
#define PART 1
#endif

namespace {

/// everything the names of the generator (x, y) can mean
struct World : Env {
    sql_analyzer_options opt;
    World(bool populated) : opt { {}, {}, {} } {
        for (std::string n : { "x", "y" }) {
            auto& s = schema(n);
            if (!populated) continue;
            s.table("x", { { "x" }, { "y", text() } }, 1, "", "q");
            s.table("y", { { "y", int4() }, { "x" }, { "z", boolean() } }, 2, "", "qq");
            s.function(user + 1, "x", int8(), {});
            s.function(user + 2, "x", int8(), { int8() });
            s.function(user + 3, "y", text(), { text() });
            s.function(user + 4, "y", int8(), { int8(), int8() });
            s.aggregate(user + 5, "y", int8(), {});
            s.aggregate(user + 6, "y$distinct", int8(), { int8() });
            s.table_function(user + 7, "y", { { "x" } }, { int8() });
            s.table_function(user + 8, "y", { { "x" }, { "y", text() } }, {});
        }
        opt = options("x");
        opt.allow_context_independent_null() = populated;
        opt.validate_scalar_expressions() = populated;
        opt.lowercase_function_regular_identifiers() = populated;
    }
};

std::vector<std::unique_ptr<World>>& worlds() {
    static auto r = [] {
        std::vector<std::unique_ptr<World>> v;
        v.push_back(std::make_unique<World>(true));
        v.push_back(std::make_unique<World>(false));
        return v;
    }();
    return r;
}

sql_analyzer& analyzer() { static thread_local sql_analyzer a; return a; }

/// what makes an answer unusable; empty where it is sound
std::string fault(Outcome const& r, std::size_t size) {
    if (!r.thrown.empty()) return "throws: " + r.thrown;
    if (!r.ok()) {
        if (r.diagnostics().empty()) return "no diagnostics";
        for (auto& d : r.diagnostics()) {
            std::ostringstream s;
            s << d.code() << " (" << d.message() << ") at " << d.location();
            if (d.message().empty()) return "no message: " + s.str();
            if (d.code() == sql_analyzer_code::unknown) return "internal error: " + s.str();
            auto g = d.location();
            if (!g) return "no location: " + s.str();
            if ((g.source_ptr() != r.unit->document().get() || g.begin() > g.end() || g.end() > size)) return "location out of the statement: " + s.str();
        }
        return {};
    }
    if (r.is_plan()) return plan::verify(r.graph());
    return plan::verify(r.statement());
}

#if PART == 1
void judge(Worker& w, std::string const& sql) {
    if (w.steering()) return;
    if (w.replaying()) std::cout << sql << "\n";
    w.state(std::hash<std::string> {}(sql));
    for (auto& wd : worlds()) {
        auto r = run(analyzer(), wd->opt, sql);
        if (!r.parsed) { w.count("syntax errors"); return; }
        w.count("traces");
        auto bad = fault(r, sql.size());
        if (!w.expect(bad.empty(), r.ok() ? "plan" : "diagnostics", sql, ": ", bad)) continue;
        w.count(r.is_plan() ? "plans" : r.ok() ? "statements" : "rejected");
        if (r.is_statement()) { std::ostringstream s; s << r.statement().kind(); w.count("statement " + s.str()); }
        if (!r.ok()) for (auto& d : r.diagnostics()) { std::ostringstream s; s << d.code(); w.count("diagnostic " + s.str()); }
        if (r.ok()) w.sample(sql);
    }
}

#else
/// the same question again gets the same answer, and leaves the tree as it was
void judge(Worker& w, std::string const& sql) {
    if (w.steering()) return;
    if (w.replaying()) std::cout << sql << "\n";
    w.state(std::hash<std::string> {}(sql));
    auto& wd = *worlds()[0];
    sql_analyzer fresh;
    auto a = run(fresh, wd.opt, sql);
    if (!a.parsed) { w.count("syntax errors"); return; }
    w.count("traces");
    w.count("repeated");
    auto b = run(analyzer(), wd.opt, sql);
    w.expect(show(a) == show(b), "repeat", sql, ": first ", show(a), " then ", show(b));
    mizugaki::parser::sql_parser parser;
    auto again = parser("t", sql);
    w.expect(again.has_value() && *again.value() == *a.unit, "tree", sql, ": the analysis changed the tree");
    w.sample(sql);
}
#endif

void sentences(Worker& w, int bound, int expressions, int values, int wide) {
    auto knobs = [](Gen& g) { g.two_names = true; };
    for (int k = 0; k < Gen::statement_kinds; ++k)
        w.explore("statement-" + std::to_string(k), k == 2 || k == 5 || k == 6 ? wide : bound, [&](Chooser& c) { Gen g(c); knobs(g); g.statement(k); judge(w, g.text); });
    w.explore("expression", expressions, [&](Chooser& c) {
        Gen g(c); knobs(g);
        for (auto t : { "SELECT", "x", "FROM", "x", "WHERE" }) g.tok(t);
        g.expr();
        judge(w, g.text);
    });
    w.explore("value", values, [&](Chooser& c) {
        Gen g(c); knobs(g);
        g.tok("SELECT");
        g.expr();
        g.tok("FROM"); g.tok("y");
        judge(w, g.text);
    });
    w.explore("type", bound, [&](Chooser& c) {
        Gen g(c); knobs(g);
        bool table = c.choose(2) == 0;
        for (auto t : table ? std::vector<char const*> { "CREATE", "TABLE", "t", "(", "c" } : std::vector<char const*> { "SELECT", "CAST", "(", "x", "AS" }) g.tok(t);
        g.type();
        g.tok(")");
        if (!table) { g.tok("FROM"); g.tok("x"); }
        judge(w, g.text);
    });
}

#if PART == 1
void check(Worker& w) {
    if (w.thorough) sentences(w, 4, 3, 3, 3); else sentences(w, 3, 3, 2, 2);
    // statements with faults and without, and aggregate functions wherever an expression may stand
    places::each(w, "place", w.thorough ? 3 : 2, [&](places::Piece const& outer, char kind, places::Piece const& innermost, Chooser& c) {
        std::vector<std::string> parts { places::sound(kind) };
        if (kind == '@') for (auto s : { "max(1)", "max(k)", "count(*)", "max(v) + k" }) parts.push_back(s);
        if (kind == '#') for (auto s : { "max(1) = 1", "k = max(v)", "count(*) > 0" }) parts.push_back(s);
        for (auto& x : places::faults) if (x.gives == kind && places::fits(innermost, x.text)) parts.push_back(places::marked(x.text).text);
        auto i = std::size_t(c.choose(int(parts.size())));
        if (w.steering()) return;
        auto sql = outer.with(parts[i]);
        if (w.replaying()) std::cout << sql << "\n";
        w.state(std::hash<std::string> {}(sql));
        w.count("places");
        auto r = run(places::analyzer(), places::world().opt, sql);
        if (!w.expect(r.parsed, "syntax", sql, ": ", r.why())) return;
        auto bad = fault(r, sql.size());
        w.expect(bad.empty(), r.ok() ? "plan" : "diagnostics", sql, ": ", bad);
    });
}
#else
std::string catalog_text(World& wd) {
    std::ostringstream out;
    for (auto& s : wd.all) {
        out << s.first << "{";
        std::vector<std::string> v;
        s.second->storages->each_relation([&](std::string_view id, std::shared_ptr<::yugawara::storage::relation const> const& r) {
            std::ostringstream o;
            o << id << ":";
            for (auto& c : r->columns()) o << c.simple_name() << " " << c.type() << " " << c.criteria().nullity().nullable() << ",";
            v.push_back(o.str());
        });
        s.second->storages->each_index([&](std::string_view id, std::shared_ptr<::yugawara::storage::index const> const& i) { v.push_back("index " + std::string(id) + std::to_string(i->keys().size())); });
        std::sort(v.begin(), v.end());
        for (auto& t : v) out << t << ";";
        out << "}";
    }
    return out.str();
}

void check(Worker& w) {
    if (w.thorough) sentences(w, 3, 3, 3, 3); else sentences(w, 2, 2, 2, 2);
    // one analyzer, one statement after the other, under one of two options each
    static std::vector<std::string> const pool {
        "SELECT * FROM x", "SELECT x.x, z FROM x, y.y WHERE x.y = 'a'", "SELECT q FROM x", "SELECT * FROM nothing", "SELECT x FROM x WHERE EXISTS (SELECT * FROM y WHERE y.x = x.x)",
        "SELECT y() FROM x GROUP BY y HAVING y() > 1", "SELECT x FROM x GROUP BY y", "WITH t AS (SELECT * FROM x) SELECT * FROM t JOIN t AS u ON t.x = u.x", "WITH x AS (SELECT * FROM y) SELECT * FROM x",
        "INSERT INTO x VALUES (1, 'b')", "INSERT INTO x (y) SELECT y FROM x", "UPDATE x SET y = 'c' WHERE x = 1", "UPDATE x SET x = y()", "DELETE FROM x WHERE q = 1",
        "CREATE TABLE n (a INT PRIMARY KEY, b VARCHAR(10) DEFAULT 'd')", "CREATE TABLE n (a INT, a INT)", "CREATE TABLE x (a INT)", "CREATE INDEX i ON x (y)", "DROP TABLE x", "DROP TABLE n",
        "VALUES (1, 2), (3, 4)", "SELECT :p FROM x", "SELECT NULL FROM x", "SELECT * FROM x ORDER BY y LIMIT 2", "SELECT * FROM x UNION SELECT x FROM x", "SELECT ( x AS INT ) FROM x",
        "CREATE TABLE m (a INT GENERATED ALWAYS AS IDENTITY)", "GRANT SELECT ON x TO u", "SELECT x FROM x APPLY y(x) AS t",
        "SELECT x FROM x WHERE x = :p", "SELECT x FROM x WHERE x = :q", "INSERT INTO x VALUES (:q, NULL)",
    };
    // what is given beside the statement: nothing, a value for the parameters, or host variables
    static mizugaki::placeholder_map const none {}, some = [] {
        mizugaki::placeholder_map m;
        m.add("p", mizugaki::placeholder_entry { std::make_shared<::takatori::value::int8>(7), std::make_shared<::takatori::type::int8>() });
        return m;
    }();
    static ::yugawara::variable::configurable_provider host;
    host.add(std::make_shared<::yugawara::variable::declaration>("q", int8(), ::yugawara::variable::criteria {}), true);
    struct Step { std::size_t world, statement, given; };
    static std::vector<Step> const choices = [] {
        std::vector<Step> r;
        for (std::size_t g = 0; g < 3; ++g) for (std::size_t k = 0; k < worlds().size(); ++k) for (std::size_t i = 0; i < pool.size(); ++i)
            if (g == 0 || pool[i].find(':') != std::string::npos) r.push_back({ k, i, g });
        return r;
    }();
    auto ask = [](sql_analyzer& a, Step const& s) {
        using hosts = ::takatori::util::optional_ptr<::yugawara::variable::provider const>;
        return run(a, worlds()[s.world]->opt, pool[s.statement], s.given == 1 ? some : none, s.given == 2 ? hosts { host } : hosts {});
    };
    static std::vector<std::string> const first = [&] {
        std::vector<std::string> r;
        for (auto& s : choices) { sql_analyzer a; r.push_back(show(ask(a, s))); }
        return r;
    }();
    static std::vector<std::string> const before { catalog_text(*worlds()[0]), catalog_text(*worlds()[1]) };
    std::size_t length = w.thorough ? 3 : 2, n = choices.size(), total = 1;
    for (std::size_t i = 0; i < length; ++i) total *= n;
    w.enumerate("history", total, [&](std::size_t i) {
        sql_analyzer a;
        std::vector<Outcome> results;
        std::vector<std::size_t> steps;
        std::string text;
        w.count("histories");
        for (std::size_t k = 0; k < length; ++k) { steps.push_back(i % n); i /= n; }
        for (auto k : steps) {
            auto& s = choices[k];
            text += "[" + std::to_string(s.world) + (s.given == 1 ? ", :p given" : s.given == 2 ? ", host variable q" : "") + "] " + pool[s.statement] + "; ";
            results.push_back(ask(a, s));
            auto got = show(results.back());
            w.count("traces");
            if (results.back().ok() && s.given) w.count("given parameters");
            if (!w.expect(got == first[k], "history", text, ": alone ", first[k], " here ", got)) return;
        }
        // the answers live longer than the trees, and later statements leave them alone
        for (std::size_t k = 0; k < length; ++k) if (results[k].ok()) {
            results[k].unit.reset();
            w.expect(show(results[k]) == first[steps[k]], "kept", text, ": the answer of step ", k, " changed");
        }
        for (std::size_t k = 0; k < 2; ++k) w.expect(catalog_text(*worlds()[k]) == before[k], "catalog", text, ": the catalog changed");
        w.sample(text);
    });
    // what is kept by the address of an expression is not there anymore when another one may have this address
    places::each(w, "memory", w.thorough ? 4 : 3, [&](places::Piece const& outer, char kind, places::Piece const&, Chooser&) {
        if (w.steering()) return;
        auto sql = outer.with(places::sound(kind));
        if (w.replaying()) std::cout << sql << "\n";
        w.state(std::hash<std::string> {}(sql));
        w.count("kept by address");
        auto r = run(places::analyzer(), places::world().opt, sql);
        w.expect(!r.ok() || r.stale == 0, "memory", sql, ": met ", r.stale, " times what was kept of expressions which were gone");
        if (!w.expect(r.thrown.empty(), "memory", sql, ": ", r.thrown)) return;
        w.sample(sql);
    });
}
#endif

} // namespace

int main(int argc, char** argv) { return harness_main(argc, argv, check); }
