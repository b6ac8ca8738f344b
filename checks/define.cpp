// Statements which define things (tables, indexes, their names, privileges) are analyzed into exactly the
// change which they ask for: every statement of a grammar is compared with a reference, as text.
#include "an_env.h"
#include "an_define.h"
#include "harness.h"
#include <limits>

// which legs: 1 CREATE TABLE, 2 the other statements; 0 all
#ifndef PART
#define PART 0
#endif

using namespace mc;
using namespace an;
namespace st = ::takatori::statement;
namespace yb = ::yugawara::binding;
namespace ys = ::yugawara::storage;

namespace {

struct Wrong { std::string why; };
sql_analyzer& analyzer() { static thread_local sql_analyzer a; return a; }

struct World : Env {
    std::size_t now = builtin + 1;
    std::set<ys::table const*> known;
    World() {
        auto& p = schema("pub");
        auto& s = schema("sub");
        auto& o = schema("off", false);
        auto primary_of = [](auto&& t) { return t; };
        (void) primary_of;
        auto a = p.table("a", { { "x" }, { "y" } });
        p.table("b", { { "x" }, { "z" } });
        p.table_with("n", { { "u" }, { "v" } }, {}, false);
        auto u = s.table("s", { { "u" }, { "w" } });
        o.table("o", { { "k" } });
        auto index = [](Schema& in, std::shared_ptr<ys::table const> t, std::string name, std::size_t c) {
            std::vector<ys::index::key> ks;
            ks.emplace_back(t->columns()[c]);
            in.storages->add_index(std::make_shared<ys::index>(std::nullopt, t, name, std::move(ks), std::vector<ys::index::column_ref> {}, ys::index_feature_set { ys::index_feature::find, ys::index_feature::scan }));
        };
        index(p, a, "ix", 1);
        index(p, a, "iy", 0);
        index(s, u, "iz", 1);
        p.function(now, "now", int8(), {});
        p.function(builtin + 2, "f", int8(), { int8() });
        p.table_function(builtin + 3, "tv", { { "c" } }, {});
        p.aggregate(builtin + 4, "total", int8(), {});
    }
};
World& world() { static World w; return w; }

using define::show;
using define::table_of;
using define::index_of;
using define::name_of;

/// runs the statement; `want` is its meaning, or why it must be rejected
void judge(Worker& w, std::string const& sql, std::function<std::string()> const& want, sql_analyzer_options const& options) {
    if (w.steering()) return;
    if (w.replaying()) std::cout << sql << "\n";
    w.state(std::hash<std::string> {}(sql));
    std::string text, wrong;
    try { text = want(); }
    catch (Wrong const& e) { wrong = e.why; }
    auto r = run(analyzer(), options, sql);
    if (!w.expect(r.parsed, "syntax", sql, ": ", r.why())) return;
    if (!w.expect(r.thrown.empty(), "throws", sql, ": ", r.thrown)) return;
    if (!wrong.empty()) {
        w.count("wrong");
        if (w.expect(!r.ok(), "wrong statement accepted", sql, ": ", wrong, r.is_statement() ? " " + show(r.statement()) : "")) w.expect(!r.diagnostics().empty(), "no diagnostics", sql);
        w.sample(sql + " -- " + wrong);
        return;
    }
    w.count("accepted");
    if (!w.expect(r.is_statement(), "rejected", sql, ": ", r.why())) return;
    std::string got;
    try { got = show(r.statement()); }
    catch (std::bad_cast const&) { got = "a descriptor of a wrong kind"; }
    w.expect(got == text, "meaning", sql, ": expected ", text, " actual ", got);
    w.sample(sql + " -- " + text);
}

// ---- CREATE TABLE
struct TypeOf { std::string sql; Type type; char identity; }; // identity: 0 no, 4, 8
std::vector<TypeOf> const& types() {
    static std::vector<TypeOf> const t {
        { "INT", int4(), 4 }, { "BIGINT", int8(), 8 }, { "VARCHAR(5)", type(ttype::character { ttype::varying, 5 }), 0 },
        { "BOOLEAN", boolean(), 0 }, { "DECIMAL(6,2)", type(ttype::decimal { 6, 2 }), 0 }, { "CHAR", type(ttype::character { 1 }), 0 },
    };
    return t;
}
struct Default { std::string sql, text; }; // empty text: not a default value
std::vector<Default> const& defaults() {
    static std::vector<Default> const d {
        { "7", "int8(7)" }, { "now()", "function now" }, { "NULL", "null" }, { "-3", "int8(-3)" }, { "CAST(5 AS SMALLINT)", "int8(5)" }, { "CAST(CAST(8 AS INT) AS BIGINT)", "int8(8)" },
        { "f(1)", "" }, { "(1 + 2)", "" }, { "(SELECT x FROM a)", "" }, { "total()", "" }, { "x", "" }, { "nope()", "" }, { "tv()", "" }, { "CAST(f(1) AS INT)", "" }, { "CAST(now() AS BIGINT)", "function now" },
        { "(SELECT 1)", "" }, { "CASE WHEN TRUE THEN 1 END", "" }, { "f(now())", "" },
    };
    return d;
}
struct Constraint { std::string kind, sql; Default value {}; bool always = false; };
struct ColDef { std::string name; std::size_t type = 0; std::vector<Constraint> constraints; std::string comment; };
struct Element { // of the definition, in its order
    bool column = true;
    ColDef col;
    std::string kind;                                      // of a table constraint
    std::vector<std::pair<std::string, int>> keys;         // 0: no direction 1: ASC 2: DESC 3: an expression 4: NULLS FIRST
};
struct TableDef { std::string schema, name; bool if_not_exists = false, parameters = false; std::vector<Element> elements; std::string comment; };

Constraint constraint(int i) {
    switch (i) {
        case 0: return { "not null", "NOT NULL" };
        case 1: return { "primary", "PRIMARY KEY" };
        case 2: return { "default", "DEFAULT 7", defaults()[0] };
        case 3: return { "null", "NULL" };
        case 4: return { "identity", "GENERATED ALWAYS AS IDENTITY", {}, true };
        case 5: return { "default", "DEFAULT NULL", defaults()[2] };
        case 6: return { "identity", "GENERATED BY DEFAULT AS IDENTITY", {}, false };
        case 7: return { "unsupported", "UNIQUE" };
        case 8: return { "unsupported", "CHECK (TRUE)" };
        case 9: return { "unsupported", "REFERENCES b" };
        default: return { "unsupported", "GENERATED ALWAYS AS (1)" };
    }
}
constexpr int constraint_kinds = 11;

std::string print(TableDef const& t) {
    std::string s = t.comment + "CREATE TABLE " + (t.if_not_exists ? "IF NOT EXISTS " : "") + (t.schema.empty() ? "" : t.schema + ".") + t.name + " (";
    bool first = true;
    for (auto& e : t.elements) {
        s += first ? "" : ", ";
        first = false;
        if (e.column) {
            s += e.col.comment + e.col.name + " " + types()[e.col.type].sql;
            for (auto& c : e.col.constraints) s += " " + c.sql;
        } else if (e.kind == "primary" || e.kind == "unique") {
            s += e.kind == "primary" ? "PRIMARY KEY (" : "UNIQUE (";
            for (std::size_t i = 0; i < e.keys.size(); ++i) s += (i ? ", " : "") + e.keys[i].first + (e.keys[i].second == 1 ? " ASC" : e.keys[i].second == 2 ? " DESC" : e.keys[i].second == 4 ? " NULLS FIRST" : "");
            s += ")";
        } else s += e.kind;
    }
    return s + ")" + (t.parameters ? " WITH (p = 1)" : "");
}
bool exists(std::string const& schema, std::string const& name) {
    if (schema.empty()) return name == "a" || name == "b" || name == "n" || name == "s";
    if (schema == "pub") return name == "a" || name == "b" || name == "n";
    if (schema == "sub") return name == "s";
    if (schema == "off") return name == "o";
    return false;
}
std::string meaning(TableDef const& t, bool cycle, std::function<std::string(std::string const&)> const& description) {
    if (t.parameters) throw Wrong { "parameters" };
    if (exists(t.schema, t.name)) { if (t.if_not_exists) return "nothing"; throw Wrong { "the table exists" }; }
    if (!t.schema.empty()) throw Wrong { "a qualified name" };
    struct Col { std::string name, def = "-", comment; Type type; int nullable = -1; bool read_only = false, null_said = false; };
    std::vector<Col> cols;
    std::string pk;
    bool has_pk = false;
    for (auto& e : t.elements) {
        if (!e.column) continue;
        Col c;
        c.name = e.col.name;
        c.comment = e.col.comment;
        auto& type = types()[e.col.type];
        c.type = type.type;
        for (auto& x : cols) if (x.name == c.name) throw Wrong { "column twice" };
        int said = 0; // NULL or NOT NULL
        bool mine = false;
        for (auto& k : e.col.constraints) {
            if (k.kind == "unsupported") throw Wrong { k.sql };
            if (k.kind == "primary") { if (has_pk) throw Wrong { "keys" }; has_pk = mine = true; }
            if (k.kind == "null" || k.kind == "not null") { if (said) throw Wrong { "nullity" }; said = k.kind == "null" ? 1 : 2; }
            if (k.kind == "default") {
                if (c.def != "-") throw Wrong { "default twice" };
                if (k.value.text.empty()) throw Wrong { "not a default value" };
                c.def = k.value.text;
            }
            if (k.kind == "identity") {
                if (c.def != "-") throw Wrong { "default twice" };
                if (!type.identity) throw Wrong { "type of identity" };
                std::ostringstream o;
                o << "sequence '' from 1 by 1 in 1.." << (type.identity == 4 ? std::int64_t(std::numeric_limits<std::int32_t>::max()) : std::numeric_limits<std::int64_t>::max()) << (cycle ? " cycle" : "");
                c.def = o.str();
                c.read_only = k.always;
            }
        }
        if (mine && said == 1) throw Wrong { "key may be null" };
        c.null_said = said == 1;
        c.nullable = !(mine || said == 2);
        if (mine) pk = c.name;
        cols.push_back(c);
    }
    if (cols.empty()) throw Wrong { "no columns" };
    for (auto& e : t.elements) {
        if (e.column) continue;
        if (e.kind != "primary") throw Wrong { e.kind };
        if (has_pk) throw Wrong { "keys" };
        has_pk = true;
        std::set<std::string> seen;
        for (auto& k : e.keys) {
            if (k.second >= 3) throw Wrong { "key" };
            Col* found = nullptr;
            for (auto& c : cols) if (c.name == k.first) found = &c;
            if (!found) throw Wrong { "column not found" };
            if (!seen.insert(k.first).second) throw Wrong { "key twice" };
            found->nullable = false;
            pk += (pk.empty() ? "" : ", ") + k.first + (k.second == 2 ? " desc" : "");
        }
    }
    std::ostringstream o;
    auto d = description(t.comment);
    o << "create table pub." << t.name << (d.empty() ? "" : " /" + d + "/") << " (";
    bool first = true;
    for (auto& c : cols) {
        if (c.def == "-" && c.nullable) c.def = "null";
        d = description(c.comment);
        o << (first ? "" : ", ") << c.name << " " << *c.type << (c.nullable ? " nullable" : "") << " default " << c.def << (c.read_only ? " read only" : "") << (d.empty() ? "" : " /" + d + "/");
        first = false;
    }
    o << ") key '' (" << pk << ") primary";
    return o.str();
}
std::string no_comment(std::string const&) { return {}; }

/// what a comment says: its text without the decoration
std::string said(std::string const& comment) {
    if (comment.compare(0, 3, "/**") != 0) return {};
    // lines
    std::vector<std::string> lines { "" };
    for (char c : comment) { if (c == '\n') lines.emplace_back(); else lines.back() += c; }
    auto blank = [](char c) { return c == ' ' || c == '\t' || c == '\r'; };
    for (std::size_t i = 0; i < lines.size(); ++i) {
        auto& l = lines[i];
        // before the text: the opening, or blanks and asterisks
        std::size_t p = 0;
        if (i == 0) { p = 1; while (p < l.size() && l[p] == '*') ++p; }
        else { std::size_t q = 0; while (q < l.size() && blank(l[q])) ++q; if (q < l.size() && l[q] == '*') { p = q; while (p < l.size() && l[p] == '*') ++p; } }
        // after it: the closing, asterisks, blanks
        std::size_t e = l.size();
        if (i + 1 == lines.size()) { if (e > p && l[e - 1] == '/') --e; while (e > p && l[e - 1] == '*') --e; }
        while (e > p && blank(l[e - 1])) --e;
        l = l.substr(p, e - p);
    }
    while (!lines.empty() && lines.front().empty()) lines.erase(lines.begin());
    while (!lines.empty() && lines.back().empty()) lines.pop_back();
    if (lines.empty()) return {};
    // the blanks which all lines begin with
    std::size_t n = lines[0].size();
    for (auto& l : lines) if (!l.empty()) { std::size_t k = 0; while (k < n && k < l.size() && blank(l[k]) && l[k] == lines[0][k]) ++k; n = std::min(n, k); }
    std::string o;
    for (std::size_t i = 0; i < lines.size(); ++i) o += (i ? "\n" : "") + (lines[i].empty() ? lines[i] : lines[i].substr(n));
    return o;
}

void tables(Worker& w) {
    auto options = [](bool cycle, bool cast) { auto o = world().options(); o.default_sequence_cycle() = cycle; o.cast_literals_in_context() = cast; return o; };
    static auto const plain = options(true, false), nocycle = options(false, false), cast = options(true, true);
    auto run_one = [&](TableDef const& t, bool cycle, sql_analyzer_options const& o) { judge(w, print(t), [&] { return meaning(t, cycle, no_comment); }, o); };

    w.explore("constraints of a column", 99, [&](Chooser& c) { // all sequences of constraints
        TableDef t;
        t.name = "t";
        Element e;
        e.col.name = "c";
        e.col.type = std::size_t(c.choose(4));
        int n = c.choose(w.thorough ? 5 : 4);
        for (int i = 0; i < n; ++i) e.col.constraints.push_back(constraint(c.choose(constraint_kinds)));
        t.elements.push_back(e);
        bool cycle = !c.flag();
        run_one(t, cycle, cycle ? plain : nocycle);
    });
    w.explore("default values", 99, [&](Chooser& c) {
        TableDef t;
        t.name = "t";
        Element e;
        e.col.name = "c";
        e.col.type = std::size_t(c.choose(int(types().size())));
        auto d = defaults()[std::size_t(c.choose(int(defaults().size())))];
        int where = c.choose(4);
        if (where == 1) e.col.constraints.push_back(constraint(0));
        e.col.constraints.push_back({ "default", "DEFAULT " + d.sql, d });
        if (where == 2) e.col.constraints.push_back(constraint(1));
        if (where == 3) e.col.constraints.push_back(constraint(3));
        t.elements.push_back(e);
        run_one(t, true, c.flag() ? cast : plain);
    });
    w.explore("columns and keys", w.thorough ? 7 : 5, [&](Chooser& c) {
        TableDef t;
        t.name = "t";
        int n = 1 + c.choose(3);
        static char const* const names[] { "p", "q", "r" };
        for (int i = 0; i < n; ++i) {
            Element e;
            int name = c.choose(2);
            e.col.name = name == 0 ? names[i] : names[0];
            e.col.type = std::size_t(c.choose(3));
            int k = c.choose(3);
            for (int j = 0; j < k; ++j) e.col.constraints.push_back(constraint(c.choose(5)));
            t.elements.push_back(e);
        }
        int more = c.choose(3);
        for (int i = 0; i < more; ++i) {
            Element e;
            e.column = false;
            static char const* const kinds[] { "primary", "unique", "CHECK (TRUE)", "FOREIGN KEY (p) REFERENCES b" };
            e.kind = kinds[c.choose(4)];
            int m = 1 + c.choose(3);
            if (e.kind == "primary" || e.kind == "unique") for (int j = 0; j < m; ++j) {
                static char const* const refs[] { "q", "p", "r", "zz", "t.p", "(p + 1)", "a.x" };
                std::string k = refs[c.choose(j == 0 ? 7 : 4)];
                int d = c.choose(4);
                if (k[0] == '(') d = 3; else if (d == 3) d = 4;
                if (k == "t.p" || k == "a.x") { k = "zz"; }
                e.keys.push_back({ k, d });
            }
            int at = c.choose(3); // before, between or after the columns
            if (at == 0) t.elements.push_back(e);
            else t.elements.insert(t.elements.begin() + (at == 1 ? 0 : 1), e);
        }
        run_one(t, true, plain);
    });
    w.explore("long keys", 99, [&](Chooser& c) {
        TableDef t;
        t.name = "t";
        std::vector<std::string> left { "p", "q", "r", "s" };
        for (std::size_t i = 0; i < 4; ++i) { Element e; e.col.name = left[i]; e.col.type = i % 3; t.elements.push_back(e); }
        Element k;
        k.column = false;
        k.kind = "primary";
        auto n = 1 + c.choose(4);
        for (int i = 0; i < n; ++i) { auto x = left.begin() + c.choose(int(left.size())); k.keys.push_back({ *x, c.choose(3) }); left.erase(x); }
        auto null = c.choose(5); // a column which is declared to be not null
        if (null) t.elements[std::size_t(null - 1)].col.constraints.push_back(constraint(3));
        t.elements.insert(t.elements.begin() + c.choose(5), k);
        run_one(t, true, plain);
    });
    w.explore("names", 99, [&](Chooser& c) {
        TableDef t;
        static char const* const schemas[] { "", "pub", "sub", "off", "nos", "cat.pub" };
        static char const* const names[] { "t", "a", "s", "o", "n" };
        t.schema = schemas[c.choose(6)];
        t.name = names[c.choose(5)];
        t.if_not_exists = c.flag();
        t.parameters = c.flag();
        Element e;
        e.col.name = "c";
        if (c.flag()) e.col.constraints.push_back(constraint(7));
        t.elements.push_back(e);
        std::string shown = t.schema;
        judge(w, print(t), [&] { auto u = t; if (u.schema == "cat.pub") u.schema = u.parameters || !exists("pub", u.name) ? "nos" : "pub"; return meaning(u, true, no_comment); }, plain);
    });
    // GENERATED AS IDENTITY: all combinations of the options
    struct Num { std::string sql; int kind; std::int64_t v; }; // kind 0: none 1: a number 2: not an integer 3: out of BIGINT
    static std::vector<Num> const incs { { "", 0, 0 }, { "INCREMENT BY 2", 1, 2 }, { "INCREMENT BY -1", 1, -1 }, { "INCREMENT 0", 1, 0 }, { "INCREMENT BY 2147483648", 1, 2147483648LL }, { "INCREMENT BY 'a'", 2, 0 }, { "INCREMENT BY 3.0", 1, 3 } };
    static std::vector<Num> const mins { { "", 0, 0 }, { "MINVALUE 5", 1, 5 }, { "MINVALUE -5", 1, -5 }, { "NO MINVALUE", 0, 0 }, { "MINVALUE 3000000000", 1, 3000000000LL }, { "MINVALUE 2.5", 2, 0 }, { "MINVALUE -3000000000", 1, -3000000000LL } };
    static std::vector<Num> const maxs { { "", 0, 0 }, { "MAXVALUE 9", 1, 9 }, { "MAXVALUE -2", 1, -2 }, { "NO MAXVALUE", 0, 0 }, { "MAXVALUE 9223372036854775807", 1, std::numeric_limits<std::int64_t>::max() }, { "MAXVALUE 9223372036854775808", 3, 0 } };
    static std::vector<Num> const starts { { "", 0, 0 }, { "START WITH 7", 1, 7 }, { "START 0", 1, 0 }, { "START WITH -1", 1, -1 }, { "START WITH (1 + 1)", 2, 0 }, { "START WITH 2147483647", 1, 2147483647LL }, { "START WITH NULL", 2, 0 }, { "START WITH -2147483648", 1, -2147483648LL } };
    w.explore("identity", 99, [&](Chooser& c) {
        auto& type = types()[std::size_t(c.choose(3))];
        bool always = c.flag();
        auto& inc = incs[std::size_t(c.choose(int(incs.size())))];
        auto& min = mins[std::size_t(c.choose(int(mins.size())))];
        auto& max = maxs[std::size_t(c.choose(int(maxs.size())))];
        auto& start = starts[std::size_t(c.choose(int(starts.size())))];
        int cyc = c.choose(3);
        bool by_default = !c.flag();
        int order = c.choose(w.thorough ? 4 : 2); // of the options
        std::vector<std::string> parts { inc.sql, min.sql, max.sql, start.sql, cyc == 1 ? "CYCLE" : cyc == 2 ? "NO CYCLE" : "" };
        if (order) std::rotate(parts.begin(), parts.begin() + order, parts.end());
        std::string body;
        for (auto& p : parts) if (!p.empty()) body += (body.empty() ? "" : " ") + p;
        std::string sql = "CREATE TABLE t (c " + type.sql + " GENERATED " + (always ? "ALWAYS" : "BY DEFAULT") + " AS IDENTITY" + (body.empty() ? "" : " (" + body + ")") + ")";
        judge(w, sql, [&] {
            if (!type.identity) throw Wrong { "type" };
            auto limit_min = type.identity == 4 ? std::int64_t(std::numeric_limits<std::int32_t>::min()) : std::numeric_limits<std::int64_t>::min();
            auto limit_max = type.identity == 4 ? std::int64_t(std::numeric_limits<std::int32_t>::max()) : std::numeric_limits<std::int64_t>::max();
            for (auto* n : { &inc, &min, &max, &start }) if (n->kind == 2 || n->kind == 3 || (n->kind == 1 && (n->v < limit_min || n->v > limit_max))) throw Wrong { n->sql };
            if (inc.kind == 1 && inc.v == 0) throw Wrong { "increment 0" };
            std::int64_t i = inc.kind ? inc.v : 1;
            std::int64_t lo = min.kind ? min.v : i > 0 ? 1 : limit_min;
            std::int64_t hi = max.kind ? max.v : i > 0 ? limit_max : -1;
            std::int64_t s = start.kind ? start.v : i > 0 ? lo : hi;
            if (s < lo || s > hi) throw Wrong { "out of range" };
            std::ostringstream o;
            o << "create table pub.t (c " << *type.type << " nullable default sequence '' from " << s << " by " << i << " in " << lo << ".." << hi << ((cyc == 0 ? by_default : cyc == 1) ? " cycle" : "") << (always ? " read only" : "") << ") key '' () primary";
            return o.str();
        }, by_default ? plain : nocycle);
    });
    // comments
    std::string alphabet = w.thorough ? " x\n*/\t" : " x\n*/";
    std::size_t longest = w.thorough ? 7 : 6;
    std::uint64_t total = 0;
    for (std::uint64_t n = 1, len = 0; len <= longest; ++len, n *= alphabet.size()) total += n;
    w.enumerate("descriptions", total * 2, [&](std::uint64_t i) {
        bool column = i % 2;
        std::string body;
        i /= 2;
        std::uint64_t n = 1;
        std::size_t len = 0;
        while (i >= n) { i -= n; n *= alphabet.size(); ++len; }
        for (std::size_t k = 0; k < len; ++k) { body += alphabet[i % alphabet.size()]; i /= alphabet.size(); }
        std::string comment = "/**" + body + "*/";
        if (comment.find("*/", 2) != comment.size() - 2) return; // it ends before
        TableDef t;
        t.name = "t";
        Element e;
        e.col.name = "c";
        if (column) e.col.comment = comment; else t.comment = comment;
        t.elements.push_back(e);
        w.count("comments");
        judge(w, print(t), [&] { return meaning(t, true, said); }, plain);
    });
}

// ---- the other statements
struct TableName { std::string sql, schema, name; std::vector<std::string> cols; bool found() const { return !name.empty(); } };
std::vector<TableName> const& table_names() {
    static std::vector<TableName> const t {
        { "a", "pub", "a", { "x", "y" } }, { "s", "sub", "s", { "u", "w" } }, { "pub.b", "pub", "b", { "x", "z" } }, { "off.o", "off", "o", { "k" } },
        { "zz", "", "", {} }, { "o", "", "", {} }, { "pub.s", "", "", {} }, { "nos.a", "", "", {} }, { "cat.sub.s", "sub", "s", { "u", "w" } }, { "nocat.pub.a", "", "", {} }, { "ix", "", "", {} },
    };
    return t;
}
std::string at(TableName const& t) { // which table it is
    std::ostringstream o;
    auto* p = world().all.at(t.schema)->storages->find_table(t.name).get();
    o << t.name << "@" << p;
    return o.str();
}
struct IndexName { std::string sql, schema, name; bool primary = false; bool found() const { return !name.empty(); } };
std::vector<IndexName> const& index_names() {
    static std::vector<IndexName> const t {
        { "ix", "pub", "ix" }, { "iz", "sub", "iz" }, { "pub.iy", "pub", "iy" }, { "a", "pub", "a", true }, { "zz", "", "" }, { "pub.iz", "", "" }, { "o", "", "" }, { "off.o", "off", "o", true }, { "nos.ix", "", "" }, { "cat.pub.ix", "pub", "ix" },
    };
    return t;
}
bool has_table(std::string const& schema, std::string const& name) { return exists(schema, name); }
bool has_index(std::string const& schema, std::string const& name) {
    if (schema == "pub") return name == "a" || name == "b" || name == "ix" || name == "iy";
    if (schema == "sub") return name == "s" || name == "iz";
    if (schema == "off") return name == "o";
    return false;
}

void others(Worker& w) {
    static auto const options = world().options();
    auto table = [](Chooser& c) -> TableName const& { return table_names()[std::size_t(c.choose(int(table_names().size())))]; };
    auto index = [](Chooser& c) -> IndexName const& { return index_names()[std::size_t(c.choose(int(index_names().size())))]; };
    w.explore("create index", w.thorough ? 6 : 5, [&](Chooser& c) {
        static char const* const names[] { "jx", "", "ix", "sub.jx", "iz", "pub.ix", "a", "nos.ix" };
        std::string name = names[c.choose(8)];
        auto& t = table(c);
        std::vector<std::pair<std::string, int>> keys;
        int n = 1 + c.choose(3);
        for (int i = 0; i < n; ++i) {
            std::vector<std::string> refs = t.cols;
            refs.push_back("zz");
            refs.push_back("(1 + 2)");
            refs.push_back("5");
            if (!t.cols.empty()) refs.push_back("-" + t.cols[0]);
            std::string k = refs[std::size_t(c.choose(int(refs.size())))];
            keys.push_back({ k, c.choose(5) });
        }
        bool ine = !name.empty() && c.flag();
        int odd = c.choose(5); // UNIQUE, INCLUDE, WHERE, WITH
        bool comment = c.flag();
        std::string sql = std::string(comment ? "/** it */ " : "") + "CREATE " + (odd == 1 ? "UNIQUE " : "") + "INDEX " + (ine ? "IF NOT EXISTS " : "") + name + (name.empty() ? "" : " ") + "ON " + t.sql + " (";
        for (std::size_t i = 0; i < keys.size(); ++i) sql += (i ? ", " : "") + keys[i].first + (keys[i].second == 1 ? " ASC" : keys[i].second == 2 ? " DESC" : keys[i].second == 3 ? " NULLS LAST" : keys[i].second == 4 ? " DESC NULLS FIRST" : "");
        sql += ")";
        if (odd == 2) sql += " INCLUDE (" + (t.cols.empty() ? std::string("x") : t.cols.back()) + ")";
        if (odd == 3) sql += " WHERE 1 = 1";
        if (odd == 4) sql += " WITH (p = 1)";
        judge(w, sql, [&]() -> std::string {
            if (odd) throw Wrong { "not supported" };
            auto dot = name.rfind('.');
            bool there = dot == std::string::npos ? has_index("pub", name) || has_index("sub", name) : has_index(name.substr(0, dot), name.substr(dot + 1));
            if (there) { if (ine) return "nothing"; throw Wrong { "the index exists" }; }
            if (!t.found()) throw Wrong { "table not found" };
            if (dot != std::string::npos) throw Wrong { "a qualified name" };
            std::string k;
            std::set<std::string> seen;
            for (auto& x : keys) {
                if (std::find(t.cols.begin(), t.cols.end(), x.first) == t.cols.end()) throw Wrong { "not a column" };
                if (x.second >= 3) throw Wrong { "NULLS" };
                if (!seen.insert(x.first).second) throw Wrong { "twice" };
                k += (k.empty() ? "" : ", ") + x.first + (x.second == 2 ? " desc" : "");
            }
            return "create index pub.'" + name + "' on " + at(t) + " (" + k + ")" + (comment ? " /it/" : "");
        }, options);
    });
    w.explore("rename table", 99, [&](Chooser& c) {
        auto& t = table(c);
        bool if_exists = c.flag();
        static char const* const to[] { "t", "a", "b", "s", "o", "ix", "\"A\"", "zz" };
        std::string r = to[c.choose(8)];
        judge(w, "ALTER TABLE " + std::string(if_exists ? "IF EXISTS " : "") + t.sql + " RENAME TO " + r, [&]() -> std::string {
            if (!t.found()) { if (if_exists) return "nothing"; throw Wrong { "table not found" }; }
            std::string n = r[0] == '"' ? r.substr(1, r.size() - 2) : r;
            if (has_table(t.schema, n)) throw Wrong { "the name is taken" };
            return "rename table " + t.schema + "." + at(t) + " to " + n;
        }, options);
    });
    w.explore("rename column", 99, [&](Chooser& c) {
        auto& t = table(c);
        bool table_exists = c.flag(), column_exists = c.flag();
        static char const* const from[] { "x", "y", "u", "w", "k", "zz", "z" };
        std::string f = from[c.choose(7)], r = std::vector<std::string> { "x", "y", "n", "w", "z", "u" }[std::size_t(c.choose(6))];
        judge(w, "ALTER TABLE " + std::string(table_exists ? "IF EXISTS " : "") + t.sql + " RENAME COLUMN " + (column_exists ? "IF EXISTS " : "") + f + " TO " + r, [&]() -> std::string {
            if (!t.found()) { if (table_exists) return "nothing"; throw Wrong { "table not found" }; }
            auto has = [&](std::string const& n) { return std::find(t.cols.begin(), t.cols.end(), n) != t.cols.end(); };
            if (!has(f)) { if (column_exists) return "nothing"; throw Wrong { "column not found" }; }
            if (has(r)) throw Wrong { "the name is taken" };
            return "rename column " + at(t) + "." + f + " to " + r;
        }, options);
    });
    w.explore("rename index", 99, [&](Chooser& c) {
        auto& i = index(c);
        bool if_exists = c.flag();
        std::string r = std::vector<std::string> { "j", "ix", "iy", "iz", "a", "s", "o", "zz" }[std::size_t(c.choose(8))];
        judge(w, "ALTER INDEX " + std::string(if_exists ? "IF EXISTS " : "") + i.sql + " RENAME TO " + r, [&]() -> std::string {
            if (!i.found()) { if (if_exists) return "nothing"; throw Wrong { "index not found" }; }
            if (i.primary) throw Wrong { "primary" };
            if (has_index(i.schema, r)) throw Wrong { "the name is taken" };
            return "rename index " + i.schema + "." + i.name + " to " + r;
        }, options);
    });
    w.explore("drop", 99, [&](Chooser& c) {
        int what = c.choose(5); // TABLE, INDEX, VIEW, SEQUENCE, SCHEMA
        bool if_exists = c.flag();
        int behaviour = c.choose(3);
        static char const* const words[] { "TABLE", "INDEX", "VIEW", "SEQUENCE", "SCHEMA" };
        static char const* const tails[] { "", " RESTRICT", " CASCADE" };
        TableName t;
        IndexName i;
        std::string name;
        if (what == 1) { i = index(c); name = i.sql; } else { t = table(c); name = t.sql; }
        judge(w, std::string("DROP ") + words[what] + (if_exists ? " IF EXISTS " : " ") + name + tails[behaviour], [&]() -> std::string {
            if (what > 1 || behaviour == 2) throw Wrong { "not supported" };
            if (!(what ? i.found() : t.found())) { if (if_exists) return "nothing"; throw Wrong { "not found" }; }
            return what ? "drop index " + i.schema + "." + i.name : "drop table " + t.schema + "." + at(t);
        }, options);
    });
    w.explore("truncate", 99, [&](Chooser& c) {
        auto& t = table(c);
        int o = c.choose(3);
        judge(w, "TRUNCATE TABLE " + t.sql + (o == 1 ? " RESTART IDENTITY" : o == 2 ? " CONTINUE IDENTITY" : ""), [&]() -> std::string {
            if (!t.found()) throw Wrong { "not found" };
            return "truncate " + at(t) + (o == 1 ? " restart" : "");
        }, options);
    });
    w.explore("privileges", w.thorough ? 7 : 6, [&](Chooser& c) {
        bool revoke = c.flag();
        static char const* const kinds[] { "SELECT", "INSERT", "UPDATE", "DELETE" };
        static char const* const shown[] { "select", "insert", "update", "delete" };
        std::string actions, list;
        bool all = c.flag();
        if (all) { actions = "ALL PRIVILEGES"; list = "control"; }
        else { int n = 1 + c.choose(3); for (int i = 0; i < n; ++i) { int k = c.choose(4); actions += (i ? ", " : "") + std::string(kinds[k]); list += (i ? "+" : "") + std::string(shown[k]); } }
        std::vector<TableName> objects;
        std::string on;
        int n = 1 + c.choose(3);
        for (int i = 0; i < n; ++i) {
            static std::vector<std::size_t> const which { 0, 1, 2, 4, 8, 3 };
            auto& t = table_names()[which[std::size_t(c.choose(6))]];
            objects.push_back(t);
            on += (i ? ", " : "") + std::string(c.flag() ? "TABLE " : "") + t.sql;
        }
        static char const* const users[] { "alice", "bob", "PUBLIC", "CURRENT_USER", "*", "\"Alice\"" };
        std::vector<int> us;
        std::string to;
        int m = 1 + c.choose(3);
        for (int i = 0; i < m; ++i) { us.push_back(c.choose(6)); to += (i ? ", " : "") + std::string(users[us.back()]); }
        judge(w, std::string(revoke ? "REVOKE " : "GRANT ") + actions + " ON " + on + (revoke ? " FROM " : " TO ") + to, [&]() -> std::string {
            std::string o = revoke ? "revoke" : "grant";
            std::set<std::string> seen;
            for (auto& t : objects) {
                if (!t.found()) throw Wrong { "table not found" };
                if (!seen.insert(t.schema + "." + t.name).second) continue;
                std::string everyone, rest;
                std::set<int> named;
                for (int u : us) {
                    if (u == 2) everyone = " everyone:" + list;
                    else if (u == 3) rest += " current user:" + list;
                    else if (u == 4) { if (!revoke) throw Wrong { "all users" }; rest += " all users:" + list; }
                    else if (named.insert(u).second) rest += " user '" + std::string(u == 5 ? "Alice" : users[u]) + "':" + list;
                }
                o += " [" + t.name + everyone + rest + "]";
            }
            return o;
        }, options);
    });
}

void check(Worker& w) {
    if (PART == 0 || PART == 1) tables(w);
    if (PART == 0 || PART == 2) others(w);
}

} // namespace

int main(int argc, char** argv) { return harness_main(argc, argv, check); }
