// Scalar expressions compute what SQL says: every expression of a grammar is evaluated as analyzed, for all
// combinations of small values of its columns, and compared with a direct evaluation of the expression.
// Calls and parameters are bound to exactly the function, value or variable which the rules choose.
#include "an_env.h"
#include "harness.h"
#include <limits>
#include <takatori/value/octet.h>

// which legs: 1 values, 2 functions, 3 parameters; 0 all
#ifndef PART
#define PART 0
#endif

using namespace mc;
using namespace an;
using plan::Val;
namespace ts = ::takatori::scalar;
namespace tr = ::takatori::relation;
namespace tt = ::takatori::type;
namespace tv = ::takatori::value;

namespace {

struct Wrong { std::string why; };
sql_analyzer& analyzer() { static thread_local sql_analyzer a; return a; }

// ---- expressions
struct S;
using P = std::shared_ptr<S>;
struct S { std::string op; std::vector<P> a; std::string text; Val value; bool flag = false; };
P mk(std::string op, std::vector<P> a = {}, bool flag = false) { auto s = std::make_shared<S>(); s->op = std::move(op); s->a = std::move(a); s->flag = flag; return s; }
P leaf(std::string text, Val v) { auto s = mk("leaf"); s->text = std::move(text); s->value = v; return s; }
P column(std::string name) { auto s = mk("col"); s->text = std::move(name); return s; }
P tick() { auto s = mk("tick"); s->text = "tick()"; return s; }
P op(std::string symbol, P l, P r) { auto s = mk("bin", { l, r }); s->text = std::move(symbol); return s; }

std::string print(S const& s) {
    auto list = [&](std::size_t from) { std::string o; for (auto i = from; i < s.a.size(); ++i) o += (o.empty() ? "" : ", ") + print(*s.a[i]); return o; };
    auto in = [&](std::size_t i) { auto& x = *s.a[i]; auto t = print(x); return x.op == "leaf" || x.op == "col" || x.op == "tick" ? t : "(" + t + ")"; };
    if (s.op == "leaf" || s.op == "col" || s.op == "tick") return s.text;
    if (s.op == "un") return s.text + " " + in(0);
    if (s.op == "bin") return in(0) + " " + s.text + " " + in(1);
    if (s.op == "is") return in(0) + " IS " + (s.flag ? "NOT " : "") + s.text;
    if (s.op == "between") return in(0) + (s.flag ? " NOT" : "") + " BETWEEN " + s.text + (s.text.empty() ? "" : " ") + in(1) + " AND " + in(2);
    if (s.op == "in") return in(0) + (s.flag ? " NOT" : "") + " IN (" + list(1) + ")";
    if (s.op == "like") return in(0) + (s.flag ? " NOT" : "") + " LIKE " + in(1) + (s.a.size() > 2 ? " ESCAPE " + in(2) : "");
    if (s.op == "cast") return "CAST(" + print(*s.a[0]) + " AS " + s.text + ")";
    if (s.op == "call") return s.text + "(" + list(0) + ")";
    if (s.op == "searched" || s.op == "simple") {
        std::string o = "CASE";
        std::size_t i = 0;
        if (s.op == "simple") o += " " + in(i++);
        for (; i + 1 < s.a.size(); i += 2) o += " WHEN " + in(i) + " THEN " + in(i + 1);
        if (i < s.a.size()) o += " ELSE " + in(i);
        return o + " END";
    }
    return "?";
}
void columns(S const& s, std::set<std::string>& out) { if (s.op == "col") out.insert(s.text); for (auto& a : s.a) columns(*a, out); }

using Row = std::map<std::string, Val>;
Val boolean3(int v) { return v < 0 ? Val {} : Val::boolean(v != 0); }
int three(Val const& v) { return v.is_null() ? -1 : v.i ? 1 : 0; }
int sign_of(Val const& a, Val const& b) {
    if (a.k == Val::Str) return a.s < b.s ? -1 : b.s < a.s ? 1 : 0;
    return a.i < b.i ? -1 : b.i < a.i ? 1 : 0;
}
int test(std::string const& o, Val const& a, Val const& b) {
    if (a.is_null() || b.is_null()) return -1;
    int c = sign_of(a, b);
    if (o == "=") return c == 0;
    if (o == "<>" || o == "!=") return c != 0;
    if (o == "<") return c < 0;
    if (o == "<=") return c <= 0;
    if (o == ">") return c > 0;
    return c >= 0;
}
int both(int a, int b) { return a == 0 || b == 0 ? 0 : a < 0 || b < 0 ? -1 : 1; }
int either(int a, int b) { return a == 1 || b == 1 ? 1 : a < 0 || b < 0 ? -1 : 0; }
int inverse(int a) { return a < 0 ? a : !a; }
/// by the definition of LIKE: the pattern is cut into pieces
bool matches(std::string const& s, std::string const& p, std::string const& esc) {
    struct U { int kind; char c; }; // 0 a character 1 any character 2 any string
    std::vector<U> us;
    for (std::size_t i = 0; i < p.size(); ++i) {
        if (!esc.empty() && p[i] == esc[0]) { if (++i == p.size()) throw plan::NoValue("escape"); us.push_back({ 0, p[i] }); }
        else if (p[i] == '%') us.push_back({ 2, 0 });
        else if (p[i] == '_') us.push_back({ 1, 0 });
        else us.push_back({ 0, p[i] });
    }
    std::vector<bool> at(s.size() + 1, false); // prefixes which the units so far match
    at[0] = true;
    for (auto& u : us) {
        std::vector<bool> n(s.size() + 1, false);
        for (std::size_t i = 0; i <= s.size(); ++i) {
            if (!at[i]) continue;
            if (u.kind == 2) for (std::size_t k = i; k <= s.size(); ++k) n[k] = true;
            else if (i < s.size() && (u.kind == 1 || s[i] == u.c)) n[i + 1] = true;
        }
        at = n;
    }
    return at[s.size()];
}

Val eval(S const& s, Row const& r) {
    auto e = [&](std::size_t i) { return eval(*s.a[i], r); };
    if (s.op == "leaf") return s.value;
    if (s.op == "tick") return Val::integer(1);
    if (s.op == "col") return r.at(s.text);
    if (s.op == "un") {
        Val v = e(0);
        if (s.text == "NOT") return boolean3(inverse(three(v)));
        if (v.is_null() || s.text == "+") return v;
        return Val::integer(-v.i);
    }
    if (s.op == "bin") {
        Val a = e(0), b = e(1);
        if (s.text == "AND") return boolean3(both(three(a), three(b)));
        if (s.text == "OR") return boolean3(either(three(a), three(b)));
        static std::set<std::string> const comparisons { "=", "<>", "<", "<=", ">", ">=", "!=" };
        if (comparisons.count(s.text)) return boolean3(test(s.text, a, b));
        if (a.is_null() || b.is_null()) return {};
        if (s.text == "||") return Val::str(a.s + b.s);
        if (s.text == "+") return Val::integer(a.i + b.i);
        if (s.text == "-") return Val::integer(a.i - b.i);
        if (s.text == "*") return Val::integer(a.i * b.i);
        if (b.i == 0) throw plan::NoValue("division by zero");
        if (s.text == "/") return Val::integer(a.i / b.i);
        if (s.text == "%") return Val::integer(a.i % b.i);
    }
    if (s.op == "is") {
        Val v = e(0);
        bool t = s.text == "NULL" || s.text == "UNKNOWN" ? v.is_null() : !v.is_null() && (v.i != 0) == (s.text == "TRUE");
        return Val::boolean(t != s.flag);
    }
    if (s.op == "between") {
        Val t = e(0), l = e(1), h = e(2);
        int v = both(test(">=", t, l), test("<=", t, h));
        if (s.text == "SYMMETRIC") v = either(v, both(test(">=", t, h), test("<=", t, l)));
        return boolean3(s.flag ? inverse(v) : v);
    }
    if (s.op == "in") {
        Val t = e(0);
        int v = 0;
        for (std::size_t i = 1; i < s.a.size(); ++i) v = either(v, test("=", t, e(i)));
        return boolean3(s.flag ? inverse(v) : v);
    }
    if (s.op == "like") {
        Val t = e(0), p = e(1), c = s.a.size() > 2 ? e(2) : Val::str("");
        if (t.is_null() || p.is_null() || c.is_null()) return {};
        if (c.s.size() > 1) throw plan::NoValue("escape");
        return Val::boolean(matches(t.s, p.s, c.s) != s.flag);
    }
    if (s.op == "cast") {
        Val v = e(0);
        if (v.is_null()) return v;
        if (s.text == "BIGINT" || s.text == "INT" || s.text == "BOOLEAN") return v;
        auto t = v.k == Val::Int ? std::to_string(v.i) : v.s;
        auto open = s.text.find('(');
        if ((open != std::string::npos && s.text[open + 1] != '*') || s.text == "CHAR") {
            std::size_t n = s.text == "CHAR" ? 1 : std::stoul(s.text.substr(open + 1));
            if (t.size() > n) t.resize(n);
            if (s.text.compare(0, 4, "CHAR") == 0) t.resize(n, ' ');
        }
        return Val::str(t);
    }
    if (s.op == "call") {
        if (s.text == "NULLIF") { Val a = e(0), b = e(1); return test("=", a, b) == 1 ? Val {} : a; }
        if (s.text == "COALESCE") { for (std::size_t i = 0; i < s.a.size(); ++i) { Val v = e(i); if (!v.is_null()) return v; } return {}; }
        if (s.text == "f") { Val v = e(0); return v.is_null() ? v : Val::integer(v.i + 10); }
        if (s.text == "g") { Val a = e(0), b = e(1); return a.is_null() || b.is_null() ? Val {} : Val::integer(a.i * 10 + b.i); }
    }
    if (s.op == "searched" || s.op == "simple") {
        std::size_t i = 0;
        Val t;
        if (s.op == "simple") t = e(i++);
        for (; i + 1 < s.a.size(); i += 2) if (s.op == "simple" ? test("=", t, e(i)) == 1 : three(e(i)) == 1) return e(i + 1);
        return i < s.a.size() ? e(i) : Val {};
    }
    throw std::logic_error("expression " + s.op);
}

// ---- generation: choice 0 is the simplest
class Gen {
public:
    Chooser& c;
    explicit Gen(Chooser& ch) : c(ch) {}
    int pick(int n) { return c.choose(n); }
    P any(char t, int depth) { return t == 'i' ? integer(depth) : t == 'b' ? boolean(depth) : string(depth); }
    P null_of(char t) { return leaf(t == 'i' ? "CAST(NULL AS BIGINT)" : t == 'b' ? "UNKNOWN" : "CAST(NULL AS VARCHAR(10))", {}); }
    P cases(char t, int depth, bool simple) {
        std::vector<P> a;
        char k = 'b';
        if (simple) { static char const ks[] { 'i', 's', 'b' }; k = ks[pick(3)]; a.push_back(any(k, depth)); }
        int n = 1 + pick(3);
        for (int i = 0; i < n; ++i) { a.push_back(any(k, depth)); a.push_back(any(t, depth)); }
        if (!pick(2)) a.push_back(any(t, depth));
        return mk(simple ? "simple" : "searched", a);
    }
    P shared(char t, int depth, int v) { // of every type
        switch (v) {
            case 0: return cases(t, depth, false);
            case 1: return cases(t, depth, true);
            case 2: { auto s = mk("call", { any(t, depth), any(t, depth) }); s->text = "NULLIF"; return s; }
            default: { std::vector<P> a; int n = 1 + pick(3); for (int i = 0; i < n; ++i) a.push_back(any(t, depth)); auto s = mk("call", a); s->text = "COALESCE"; return s; }
        }
    }
    P integer(int depth) {
        int v = pick(6 + (depth > 0 ? 15 : 0));
        switch (v) {
            case 0: return column("i");
            case 1: return leaf("1", Val::integer(1));
            case 2: return column("j");
            case 3: return leaf("0", Val::integer(0));
            case 4: return leaf("-2", Val::integer(-2));
            case 5: return null_of('i');
            case 6: case 7: { auto s = mk("un", { integer(depth - 1) }); s->text = v == 6 ? "-" : "+"; return s; }
            case 8: case 9: case 10: case 11: case 12: { static char const* const o[] { "+", "-", "*", "/", "%" }; auto l = integer(depth - 1); return op(o[v - 8], l, integer(depth - 1)); }
            case 13: case 14: case 15: case 16: return shared('i', depth - 1, v - 13);
            case 17: { auto s = mk("cast", { integer(depth - 1) }); s->text = "BIGINT"; return s; }
            case 18: { auto s = mk("call", { integer(depth - 1) }); s->text = "f"; return s; }
            case 19: { auto l = integer(depth - 1); auto s = mk("call", { l, integer(depth - 1) }); s->text = "g"; return s; }
            default: { auto s = mk("cast", { integer(depth - 1) }); s->text = "INT"; return s; }
        }
    }
    P boolean(int depth) {
        int v = pick(5 + (depth > 0 ? 15 : 0));
        switch (v) {
            case 0: return column("b");
            case 1: return leaf("TRUE", Val::boolean(true));
            case 2: return leaf("FALSE", Val::boolean(false));
            case 3: return column("c");
            case 4: return null_of('b');
            case 5: { auto s = mk("un", { boolean(depth - 1) }); s->text = "NOT"; return s; }
            case 6: case 7: { auto l = boolean(depth - 1); return op(v == 6 ? "AND" : "OR", l, boolean(depth - 1)); }
            case 8: case 9: case 10: { // comparisons
                static char const* const o[] { "=", "<>", "<", "<=", ">", ">=", "!=" };
                char t = v == 8 ? 'i' : v == 9 ? 's' : 'b';
                int k = pick(t == 'b' ? 2 : 7);
                auto l = any(t, depth - 1);
                return op(o[k], l, any(t, depth - 1));
            }
            case 11: { static char const* const w[] { "NULL", "TRUE", "FALSE", "UNKNOWN" }; int k = pick(4); bool n = pick(2); auto s = mk("is", { boolean(depth - 1) }, n); s->text = w[k]; return s; }
            case 12: { bool n = pick(2); auto s = mk("is", { pick(2) ? string(depth - 1) : integer(depth - 1) }, n); s->text = "NULL"; return s; }
            case 13: { static char const* const w[] { "", "SYMMETRIC", "ASYMMETRIC" }; int k = pick(3); bool n = pick(2); char t = pick(2) ? 's' : 'i'; auto x = any(t, depth - 1), y = any(t, depth - 1); auto s = mk("between", { x, y, any(t, depth - 1) }, n); s->text = w[k]; return s; }
            case 14: { bool n = pick(2); static char const ks[] { 'i', 's', 'b' }; char t = ks[pick(3)]; std::vector<P> a; int k = 2 + pick(3); for (int i = 0; i < k; ++i) a.push_back(any(t, depth - 1)); return mk("in", a, n); }
            case 15: { bool n = pick(2); auto x = string(depth - 1), y = string(depth - 1); std::vector<P> a { x, y }; int e = pick(4); if (e == 1) a.push_back(leaf("'%'", Val::str("%"))); else if (e == 2) a.push_back(leaf("'a'", Val::str("a"))); else if (e == 3) a.push_back(string(0)); return mk("like", a, n); }
            default: return shared('b', depth - 1, v - 16);
        }
    }
    P string(int depth) {
        int v = pick(6 + (depth > 0 ? 7 : 0));
        switch (v) {
            case 0: return column("s");
            case 1: return leaf("'a'", Val::str("a"));
            case 2: return column("p");
            case 3: return leaf("''", Val::str(""));
            case 4: return leaf("'b''%'", Val::str("b'%"));
            case 5: return null_of('s');
            case 6: { auto l = string(depth - 1); return op("||", l, string(depth - 1)); }
            case 7: { static char const* const ty[] { "VARCHAR(2)", "VARCHAR(*)", "CHAR(3)", "VARCHAR", "CHAR" }; int k = pick(5); auto s = mk("cast", { string(depth - 1) }); s->text = ty[k]; return s; }
            case 8: { auto s = mk("cast", { integer(depth - 1) }); s->text = pick(2) ? "VARCHAR(1)" : "VARCHAR(20)"; return s; }
            default: return shared('s', depth - 1, v - 9);
        }
    }
};

struct World : Env {
    sql_analyzer_options opt { {}, {}, {} };
    plan::Db base;
    std::shared_ptr<int> ticks = std::make_shared<int>(0);
    World() {
        auto& s = schema("pub");
        s.table_with("t", { { "i" }, { "j" }, { "b", boolean() }, { "c", boolean() }, { "s", text() }, { "p", text() } }, {});
        s.function(builtin + 1, "tick", int8(), {});
        s.function(builtin + 2, "f", int8(), { int8() });
        s.function(builtin + 3, "g", int8(), { int8(), int8() });
        auto n = ticks;
        base.functions[builtin + 1] = [n](plan::Row const&) { return Val::integer(++*n); };
        base.functions[builtin + 2] = [](plan::Row const& a) { return a[0].is_null() ? a[0] : Val::integer(a[0].i + 10); };
        base.functions[builtin + 3] = [](plan::Row const& a) { return a[0].is_null() || a[1].is_null() ? Val {} : Val::integer(a[0].i * 10 + a[1].i); };
        opt = options();
        opt.allow_context_independent_null() = true;
        opt.validate_scalar_expressions() = true;
    }
};
World& world() { static World w; return w; }
std::vector<std::string> const names { "i", "j", "b", "c", "s", "p" };
std::vector<Val> const& domain(std::string const& n) {
    static std::vector<Val> const is { {}, Val::integer(1), Val::integer(0), Val::integer(-2), Val::integer(3) }, bs { {}, Val::boolean(true), Val::boolean(false) },
        ss { {}, Val::str(""), Val::str("a"), Val::str("ab"), Val::str("a%") }, ps { {}, Val::str("a"), Val::str("%"), Val::str("_"), Val::str("a%"), Val::str("%b"), Val::str("") };
    return n == "i" || n == "j" ? is : n == "s" ? ss : n == "p" ? ps : bs;
}
/// all rows over the used columns (others NULL)
std::vector<Row> rows(std::set<std::string> const& used) {
    std::vector<Row> r { {} };
    for (auto& n : names) {
        std::vector<Row> next;
        for (auto& x : r) { if (!used.count(n)) { auto y = x; y[n] = {}; next.push_back(y); } else for (auto& v : domain(n)) { auto y = x; y[n] = v; next.push_back(y); } }
        r = std::move(next);
    }
    return r;
}

void judge(Worker& w, S const& e, int form) {
    if (w.steering()) return;
    // forms: a select item; a column of a condition; an element of VALUES-like rows
    auto x = print(e);
    std::string sql = form == 0 ? "SELECT " + x + " AS v FROM t" : form == 1 ? "SELECT i FROM t WHERE " + x : "SELECT v FROM (SELECT " + x + " AS v FROM t) AS d(v)";
    w.state(std::hash<std::string> {}(sql));
    if (w.replaying()) std::cout << sql << "\n";
    auto r = run(analyzer(), world().opt, sql);
    if (!w.expect(r.parsed, "syntax", sql, ": ", r.why())) return;
    if (!w.expect(r.thrown.empty(), "throws", sql, ": ", r.thrown)) return;
    if (!w.expect(r.is_plan(), "rejected", sql, ": ", r.why())) return;
    w.count("plans");
    std::set<std::string> used;
    columns(e, used);
    plan::Db db = world().base;
    bool told = false;
    for (auto& row : rows(used)) {
        Val want;
        try { want = eval(e, row); }
        catch (plan::NoValue const&) { w.count("no value"); continue; }
        plan::Row cells;
        for (auto& n : names) cells.push_back(row.at(n));
        db.tables["t"] = { cells };
        *world().ticks = 0;
        plan::Exec ex(db);
        std::string got;
        std::string expected = form == 1 ? (three(want) == 1 ? plan::to_string(plan::Rows { { row.at("i") } }) : plan::to_string(plan::Rows {})) : plan::to_string(plan::Rows { { want } });
        try { got = plan::to_string(ex.query(r.graph()).rows); }
        catch (plan::NoValue const& n) { got = std::string("no value: ") + n.what(); }
        catch (std::exception const& n) { got = std::string("invalid plan: ") + n.what(); }
        w.count("evaluations");
        if (got != expected) { w.expect(false, "value", sql, " on ", plan::to_string(cells), ": expected ", expected, " actual ", got); return; }
        if (!told && !want.is_null()) { told = true; w.sample(sql + " on " + plan::to_string(cells) + " -- " + expected); }
    }
}

void values(Worker& w) {
    auto legs = [&](std::string name, char type, int depth, int bound) {
        w.explore(name, bound, [&, type, depth](Chooser& c) {
            Gen g(c);
            auto e = g.any(type, depth);
            judge(w, *e, 0);
        });
    };
    // all choices at depth 1, then deeper ones with a bounded number of deviations
    legs("integers", 'i', 1, w.thorough ? 5 : 4);
    legs("truth values", 'b', 1, w.thorough ? 6 : 5);
    legs("strings", 's', 1, w.thorough ? 6 : 5);
    legs("nested integers", 'i', w.thorough ? 3 : 2, 4);
    legs("nested truth values", 'b', w.thorough ? 3 : 2, 4);
    legs("nested strings", 's', w.thorough ? 3 : 2, 4);
    w.explore("conditions", w.thorough ? 4 : 3, [&](Chooser& c) { Gen g(c); judge(w, *g.boolean(2), 1); });
    w.explore("derived", w.thorough ? 4 : 3, [&](Chooser& c) { Gen g(c); char const ts[] { 'i', 'b', 's' }; judge(w, *g.any(ts[c.choose(3)], 2), 2); });
    w.explore("evaluated once", 99, [&](Chooser& c) { // an operand which changes with every evaluation
        auto num = [](int v) { return leaf(std::to_string(v), Val::integer(v)); };
        int form = c.choose(6);
        bool n = c.flag();
        P inner = c.choose(2) ? op("+", tick(), column("j")) : tick();
        P e;
        if (form == 0 || form == 1) {
            static char const* const w3[] { "", "SYMMETRIC", "ASYMMETRIC" };
            int lo = c.choose(4), hi = c.choose(4), k = c.choose(3);
            e = mk("between", { inner, num(lo), num(hi) }, n);
            e->text = w3[k];
        } else if (form == 2) {
            std::vector<P> a { inner };
            int k = 1 + c.choose(4);
            for (int i = 0; i < k; ++i) a.push_back(num(c.choose(4)));
            if (a.size() < 2) a.push_back(num(1));
            e = mk("in", a, n);
        } else if (form == 3) {
            std::vector<P> a { inner };
            int k = 1 + c.choose(3);
            for (int i = 0; i < k; ++i) { a.push_back(num(c.choose(4))); a.push_back(num(10 + i)); }
            if (n) a.push_back(num(99));
            e = mk("simple", a);
        } else if (form == 4) {
            e = mk("call", { inner, num(c.choose(4)) });
            e->text = "NULLIF";
        } else {
            auto s = mk("call", { inner, num(c.choose(4)) });
            s->text = "NULLIF";
            e = mk("call", { s, num(7) });
            e->text = "COALESCE";
        }
        judge(w, *e, 0);
    });
    w.enumerate("rejected", 1, [&](std::uint64_t) {
        for (auto* x : { "i IS 1", "b IS c", "i IS NOT 'a'", "i COLLATE x", "i IS DISTINCT FROM j", "i IN (SELECT i, j FROM t)", "NULLIF(i)", "NULLIF(i, j, i)", "NULLIF()", "COALESCE()", "nope(i)", "f()", "f(i, j)", "i.x", "t.nope", "u.i", "CASE nope WHEN 1 THEN 1 END", "CASE i WHEN nope THEN 1 END", "CASE i WHEN 1 THEN nope END", "CASE i WHEN 1 THEN 2 ELSE nope END",
                "CASE WHEN nope THEN 1 END", "CAST(nope AS INT)", "CAST(i AS nope)", "- nope", "NOT nope", "nope + i", "i + nope", "nope AND b", "b AND nope", "nope IS NULL", "nope = i", "i = nope", "nope BETWEEN i AND j", "i BETWEEN nope AND j", "i BETWEEN SYMMETRIC i AND nope", "nope IN (1)", "i IN (nope)", "i IN (1, nope)", "nope LIKE 'a'", "s LIKE nope", "s LIKE 'a' ESCAPE nope",
                "f(nope)", "g(i, nope)", "NULLIF(nope, i)", "NULLIF(i, nope)", "COALESCE(nope)", "COALESCE(i, nope)", "EXTRACT(YEAR FROM nope)", "i = ANY (SELECT nope FROM t)", "nope = ANY (SELECT i FROM t)", "EXISTS (SELECT nope FROM t)", "(SELECT nope FROM t)", "(SELECT i, j FROM t)", "b AND (i = 1 OR nope)", "ROW(1, 2) = ROW(1, 2)", "UNIQUE (SELECT i FROM t)", "i[1]", "-b", "NOT i", "i + s", "i || j", "b + b", "i AND b", "s LIKE i", "i LIKE s", "i = s", "i = b", "CASE WHEN i THEN 1 END" }) {
            for (int form = 0; form < 2; ++form) {
                std::string sql = form ? "SELECT 1 FROM t WHERE (" + std::string(x) + ") IS NULL" : "SELECT " + std::string(x) + " AS v FROM t";
                auto r = run(analyzer(), world().opt, sql);
                if (!r.parsed) { w.count("no syntax"); if (w.replaying()) std::cout << sql << ": " << r.why() << "\n"; continue; }
                w.expect(r.thrown.empty(), "throws", sql, ": ", r.thrown);
                w.expect(!r.ok(), "wrong expression accepted", sql);
                if (!r.ok()) w.expect(!r.diagnostics().empty(), "no diagnostics", sql);
                w.count("wrong");
            }
        }
    });
}

// ---- calls

struct Decl { std::size_t id; char kind; std::string name; std::string params, ret = "i"; }; // kind: S scalar T table-valued A aggregate

Type type_of(char c) {
    switch (c) {
        case 'k': return int4();
        case 'i': return int8();
        case 'f': return type(tt::float8 {});
        case 's': return text();
        case 'b': return boolean();
        case 'd': return type(tt::date {});
        case 't': return type(tt::time_of_day { ~tt::with_time_zone });
        case 'u': return type(tt::time_of_day { tt::with_time_zone });
        case 'p': return type(tt::time_point { ~tt::with_time_zone });
        default: return type(tt::time_point { tt::with_time_zone });
    }
}
std::string const all_columns = "kifsbdtupq";
Val value_of(char c) {
    switch (c) {
        case 'k': return Val::integer(3);
        case 'i': return Val::integer(5);
        case 's': return Val::str("x");
        case 'b': return Val::boolean(true);
        default: return Val::other(std::string(1, c));
    }
}
/// an argument of type a may be passed for a parameter of type p ('n': no type is known for NULL)
bool passes(char a, char p) {
    static std::string const numbers = "kif";
    auto x = numbers.find(a), y = numbers.find(p);
    if (x != std::string::npos && y != std::string::npos) return x <= y;
    return a == 'n' || a == p;
}
bool passes(std::string const& as, std::string const& ps) {
    if (as.size() != ps.size()) return false;
    for (std::size_t i = 0; i < as.size(); ++i) if (!passes(as[i], ps[i])) return false;
    return true;
}
constexpr std::size_t none = 0, ambiguous = 1;
/// the most specific of the declarations which take the arguments
std::size_t best(std::vector<Decl> const& all, std::string const& args) {
    std::vector<Decl const*> c;
    for (auto& d : all) if (passes(args, d.params)) c.push_back(&d);
    if (c.empty()) return none;
    for (auto* x : c) {
        bool wins = true;
        for (auto* y : c) if (x != y && (!passes(x->params, y->params) || passes(y->params, x->params))) wins = false;
        if (wins) return x->id;
    }
    return ambiguous;
}
std::string said(std::size_t id, plan::Row const& args) {
    std::string o = std::to_string(id) + "(";
    for (std::size_t i = 0; i < args.size(); ++i) o += (i ? "," : "") + plan::to_string(args[i]);
    return o + ")";
}
/// a catalog where every call answers which function it was and what it was given
struct Calls : Env {
    plan::Db db;
    Calls() {
        std::vector<Column> cs;
        plan::Row row;
        for (char c : all_columns) { cs.push_back({ std::string(1, c), type_of(c) }); row.push_back(value_of(c)); }
        schema("pub").table("t", cs);
        db.tables["t"] = { row };
    }
    void declare(std::string const& in, Decl const& d, bool in_path = true) {
        std::vector<Type> ps;
        for (char c : d.params) ps.push_back(type_of(c));
        auto id = d.id;
        auto& s = schema(in, in_path);
        if (d.kind == 'S') { s.function(id, d.name, type_of(d.ret[0]), ps); db.functions[id] = [id](plan::Row const& a) { return Val::str(said(id, a)); }; }
        if (d.kind == 'T') { s.table_function(id, d.name, { { "v", text() } }, ps); db.table_functions[id] = [id](plan::Row const& a) { return plan::Rows { { Val::str(said(id, a)) } }; }; }
        if (d.kind == 'A') { s.aggregate(id, d.name, text(), ps); db.aggregates[id] = [id](plan::Rows const& r) { return Val::str(said(id, r.empty() ? plan::Row {} : r[0])); }; }
    }
    /// what the only output says
    std::string answer(Outcome& o) {
        if (auto bad = plan::verify(o.graph()); !bad.empty()) return "bad plan: " + bad;
        auto rows = plan::Exec(db).query(o.graph()).rows;
        return rows.size() == 1 && rows[0].size() == 1 ? rows[0][0].s : "no single answer";
    }
};
sql_analyzer_options calls(Calls& c) {
    auto o = c.options();
    o.allow_context_independent_null() = true;
    o.validate_scalar_expressions() = true;
    return o;
}
void judge(Worker& w, Calls& c, sql_analyzer_options const& opt, std::string const& sql, std::size_t expected, std::string const& arguments, std::string const& about) {
    auto o = run(analyzer(), opt, sql);
    w.state(std::hash<std::string> {}(sql + about));
    w.count("calls");
    w.expect(o.parsed && o.thrown.empty(), "does not run", sql, ": ", o.why());
    if (!o.parsed || !o.thrown.empty()) return;
    if (expected == none || expected == ambiguous) {
        auto code = expected == none ? sql_analyzer_code::function_not_found : sql_analyzer_code::function_ambiguous;
        w.expect(!o.ok() && o.has(code), expected == none ? "call of nothing" : "ambiguous call", sql, " with ", about, ": ", o.ok() ? c.answer(o) : o.why());
        w.count(expected == none ? "not found" : "ambiguous");
        return;
    }
    w.expect(o.ok(), "call not accepted", sql, " with ", about, " expected ", expected, ": ", o.why());
    if (!o.ok()) return;
    std::string got;
    try { got = c.answer(o); } catch (std::exception const& e) { got = e.what(); }
    auto want = std::to_string(expected) + "(" + arguments + ")";
    w.expect(got == want, "called", sql, " with ", about, " calls ", got, " expected ", want);
    w.count("resolved");
}
std::string describe(std::vector<Decl> const& ds) {
    std::string o;
    for (auto& d : ds) o += (o.empty() ? "" : " ") + std::to_string(d.id) + ":" + d.name + "(" + d.params + ")" + d.kind;
    return o;
}

bool emitted(Outcome const& o, ::takatori::descriptor::variable const& v) {
    for (auto&& op : o.graph()) if (op.kind() == tr::expression_kind::emit) for (auto& c : static_cast<tr::emit const&>(op).columns()) if (c.source() == v) return true;
    return false;
}

void functions(Worker& w) {
    // all ordered sets of overloads
    w.explore("overloads", 99, [&](Chooser& c) {
        static std::vector<std::string> const two = [] { std::vector<std::string> v; for (char x : std::string("kif")) for (char y : std::string("kif")) v.push_back({ x, y }); v.push_back("ks"); v.push_back("ib"); return v; }();
        static std::vector<std::string> const one { "k", "i", "f", "s", "b", "d" };
        int form = c.choose(5); // a function, an aggregate, MOD, SUM, SUM of distinct values
        auto& pool = form < 3 ? two : one;
        int most = 4 + (w.thorough && form < 2);
        static char const* const names[] { "fn", "fn", "mod", "sum", "sum$distinct" };
        std::vector<Decl> ds;
        std::vector<bool> used(pool.size());
        std::vector<std::size_t> free;
        for (int n = 1 + c.choose(most); int(ds.size()) < n;) {
            free.clear();
            for (std::size_t i = 0; i < pool.size(); ++i) if (!used[i]) free.push_back(i);
            auto i = free[std::size_t(c.choose(int(free.size())))];
            used[i] = true;
            ds.push_back({ (form == 2 || form > 2 ? builtin : user) + 10 + ds.size(), form == 0 || form == 2 ? 'S' : 'A', names[form], pool[i] });
        }
        if (w.steering()) return;
        Calls cat;
        for (auto& d : ds) cat.declare("pub", d);
        auto opt = calls(cat);
        static std::string const given = "kifsbdn";
        auto shown = [](char x) { return x == 'n' ? std::string("NULL") : plan::to_string(value_of(x)); };
        auto written = [](char x) { return x == 'n' ? std::string("NULL") : std::string(1, x); };
        for (std::size_t x = 0; x < given.size(); ++x) {
            if (form >= 3) {
                judge(w, cat, opt, "SELECT SUM(" + std::string(form == 4 ? "DISTINCT " : "") + written(given[x]) + ") FROM t", best(ds, { given[x] }), shown(given[x]), describe(ds));
                continue;
            }
            for (std::size_t y = 0; y < given.size(); ++y) {
                if (given[x] == 'd' || given[y] == 'd') continue;
                judge(w, cat, opt, "SELECT " + std::string(form == 2 ? "MOD" : "fn") + "(" + written(given[x]) + ", " + written(given[y]) + ") FROM t",
                    best(ds, { given[x], given[y] }), shown(given[x]) + "," + shown(given[y]), describe(ds));
            }
        }
    });
    // the types of arguments which are expressions: overloads tell what they were taken for
    w.explore("argument types", w.thorough ? 6 : 4, [&](Chooser& c) {
        static std::vector<Decl> const ds {
            { user + 10, 'S', "h", "k", "i" }, { user + 11, 'S', "h", "i", "s" }, { user + 12, 'S', "h", "s", "b" }, { user + 13, 'S', "h", "b", "k" }, { user + 14, 'S', "h", "f", "f" }, { user + 15, 'S', "h", "d", "p" }, { user + 16, 'S', "h", "p", "d" },
            { user + 20, 'S', "h", "kk", "s" }, { user + 21, 'S', "h", "ki", "b" }, { user + 22, 'S', "h", "is", "k" }, { user + 23, 'S', "h", "ss", "f" }, { user + 24, 'S', "h", "bi", "d" },
        };
        struct X { std::string sql; char type; std::string shown; }; // shown: what the call of h says
        bool wrong = false;
        auto call = [&](std::vector<X> const& a) {
            std::string as, sql;
            for (auto& x : a) { as += x.type; sql += (sql.empty() ? "" : ", ") + x.sql; }
            auto id = best(ds, as);
            X r { "h(" + sql + ")", 'k', "" };
            if (id == none || id == ambiguous) { wrong = true; return r; }
            for (auto& d : ds) if (d.id == id) r.type = d.ret[0];
            r.shown = std::to_string(id);
            for (auto& x : a) if (!x.shown.empty()) r.shown += "<" + x.shown;
            return r;
        };
        auto number = [](X const& x) { return x.type == 'k' || x.type == 'i' || x.type == 'f'; };
        std::function<X(int)> make = [&](int depth) -> X {
            int v = c.choose(8 + (depth > 0 ? 14 : 0));
            static char const* const leaves = "kisbdpf";
            if (v < 7) return { std::string(1, leaves[v]), leaves[v], "" };
            if (v == 7) return { "1", 'i', "" };
            X x = make(depth - 1);
            auto wider = [&](X const& a, X const& b) { // of both types
                if (a.type == b.type) return a.type;
                if (number(a) && number(b)) return a.type == 'f' || b.type == 'f' ? 'f' : 'i';
                wrong = true;
                return a.type;
            };
            switch (v) {
                case 8: return call({ x });
                case 9: { auto y = make(depth - 1); return call({ x, y }); }
                case 10: { auto y = make(depth - 1); if (!number(x) || !number(y)) wrong = true; return { "(" + x.sql + " + " + y.sql + ")", wider(x, y), "" }; }
                case 11: return { "CAST(" + x.sql + " AS INT)", 'k', "" };
                case 12: return { "CAST(" + x.sql + " AS VARCHAR(*))", 's', "" };
                case 13: { auto y = make(depth - 1); return { "CASE WHEN b THEN " + x.sql + " ELSE " + y.sql + " END", wider(x, y), "" }; }
                case 14: { auto y = make(depth - 1); return { "CASE " + x.sql + " WHEN " + x.sql + " THEN " + y.sql + " END", y.type, "" }; }
                case 15: { auto y = make(depth - 1); return { "COALESCE(" + x.sql + ", " + y.sql + ")", wider(x, y), "" }; }
                case 16: { auto y = make(depth - 1); wider(x, y); return { "NULLIF(" + x.sql + ", " + y.sql + ")", x.type, "" }; }
                case 17: return { "(" + x.sql + " IS NULL)", 'b', "" };
                case 18: { auto y = make(depth - 1); wider(x, y); return { "(" + x.sql + " < " + y.sql + ")", 'b', "" }; }
                case 19: return { "(SELECT " + x.sql + " FROM t AS u)", x.type, "" };
                case 20: { auto y = make(depth - 1); wider(x, y); return { "(" + x.sql + " BETWEEN " + y.sql + " AND " + y.sql + ")", 'b', "" }; }
                default: { auto y = make(depth - 1); wider(x, y); return { "(" + x.sql + " IN (" + y.sql + ", " + y.sql + "))", 'b', "" }; }
            }
        };
        X x = make(2);
        int form = c.choose(4);
        X top = call({ form == 0 ? x : X { x.sql, x.type, "" } });
        if (w.steering()) return;
        static Calls* cat = [] { auto* r = new Calls; for (auto& d : ds) r->declare("pub", d); return r; }();
        static sql_analyzer_options const opt = calls(*cat);
        std::string sql = form == 0 ? "SELECT " + top.sql + " FROM t" : form == 1 ? "SELECT h(r.y) FROM (SELECT " + x.sql + " AS y FROM t) AS r" : form == 2 ? "WITH r(y) AS (SELECT " + x.sql + " FROM t) SELECT h(y) FROM r"
            : "SELECT h(y) FROM (SELECT " + x.sql + " AS y FROM t UNION ALL SELECT " + x.sql + " FROM t) AS r";
        auto o = run(analyzer(), opt, sql);
        w.state(std::hash<std::string> {}(sql));
        w.count("calls");
        w.expect(o.parsed && o.thrown.empty(), "does not run", sql, ": ", o.why());
        if (!o.parsed || !o.thrown.empty()) return;
        w.expect(o.ok() == !wrong, wrong ? "wrong types accepted" : "call not accepted", sql, ": ", o.why());
        if (!o.ok() || wrong) { w.count("wrong types"); return; }
        if (auto bad = plan::verify(o.graph()); !bad.empty()) { w.fail("bad plan", sql + ": " + bad); return; }
        // the outermost call, and the calls which are its arguments
        std::string got;
        ts::expression const* e = nullptr;
        for (auto&& op : o.graph()) if (op.kind() == tr::expression_kind::project)
            for (auto& col : static_cast<tr::project const&>(op).columns())
                if (col.value().kind() == ts::expression_kind::function_call && emitted(o, col.variable())) e = &col.value();
        std::function<void(ts::expression const&)> say = [&](ts::expression const& x) {
            if (x.kind() != ts::expression_kind::function_call) return;
            auto& f = static_cast<ts::function_call const&>(x);
            got += std::to_string(::yugawara::binding::extract<::yugawara::function::declaration>(f.function()).definition_id());
            for (auto&& a : f.arguments()) if (a.kind() == ts::expression_kind::function_call) { got += "<"; say(a); }
        };
        if (e) say(*e);
        w.expect(got == top.shown, "called", sql, " calls ", got, " expected ", top.shown);
    });
    // which schema a name is looked up in
    w.explore("schemas", 99, [&](Chooser& c) {
        // none, scalar, table-valued, aggregate, scalar for another type, scalar of two, scalar and aggregate, scalar of both types
        static std::vector<std::string> const contents { "", "S", "T", "A", "B", "2", "SA", "SB", "BA", "ST" };
        static std::vector<std::vector<std::string>> const paths { { "x", "y" }, { "y", "x" }, { "x" }, {} };
        std::map<std::string, std::string> has;
        for (auto* s : { "x", "y", "z" }) has[s] = contents[std::size_t(c.choose(int(s[0] == 'z' && !w.thorough ? 4 : contents.size())))];
        auto& path = paths[std::size_t(c.choose(int(paths.size())))];
        if (w.steering()) return;
        Calls cat;
        std::map<std::string, std::vector<Decl>> in;
        std::size_t id = user + 10;
        std::string about;
        for (auto& [s, kinds] : has) {
            cat.schema(s, false);
            for (char k : kinds) {
                Decl d { id++, k == 'B' || k == '2' ? 'S' : k, "fn", k == 'B' ? "b" : k == '2' ? "ii" : "i" };
                in[s].push_back(d);
                cat.declare(s, d, false);
            }
            about += " " + s + "{" + describe(in[s]) + "}";
        }
        for (auto& s : path) { cat.path->elements().emplace_back(cat.schema(s).declaration); about += " " + s; }
        auto opt = calls(cat);
        auto only = [&](std::vector<Decl> const& ds, char kind) { std::vector<Decl> r; for (auto& d : ds) if (d.kind == kind) r.push_back(d); return r; };
        auto first = [&](std::vector<std::string> const& schemas, bool aggregates) { // with the name and number of arguments
            for (auto& s : schemas) {
                std::vector<Decl> r;
                for (auto& d : in[s]) if (d.params.size() == 1 && (d.kind == 'A') == aggregates) r.push_back(d);
                if (!r.empty()) return r;
            }
            return std::vector<Decl> {};
        };
        struct Call { std::string name; std::vector<std::string> schemas; };
        for (auto& call : std::vector<Call> { { "fn", path }, { "x.fn", { "x" } }, { "y.fn", { "y" } }, { "z.fn", { "z" } }, { "cat.x.fn", { "x" } }, { "cat.z.fn", { "z" } }, { "w.fn", {} }, { "dog.x.fn", {} }, { "fn2", {} }, { "x.fn2", {} } }) {
            auto s = only(first(call.schemas, false), 'S');
            auto id = best(s, "i");
            if (id == none) id = best(first(call.schemas, true), "i");
            judge(w, cat, opt, "SELECT " + call.name + "(i) FROM t", id, "5", about);
            auto t = best(only(first(call.schemas, false), 'T'), "i");
            judge(w, cat, opt, "SELECT r.v FROM t APPLY " + call.name + "(i) AS r(v)", t, "5", about);
        }
    });
    // functions with names of their own: all declared, and each missing
    struct Form { char const* sql; char const* name; char const* params; char const* shown; char kind; };
    static std::vector<Form> const forms {
        { "POSITION(s IN s || s)", "position", "ss", "'x','xx'", 'S' }, { "CHAR_LENGTH(s)", "character_length", "s", "'x'", 'S' }, { "CHARACTER_LENGTH(s)", "character_length", "s", "'x'", 'S' },
        { "OCTET_LENGTH(s)", "octet_length", "s", "'x'", 'S' }, { "CARDINALITY(s)", "cardinality", "s", "'x'", 'S' }, { "ABS(i)", "abs", "i", "5", 'S' }, { "CEIL(i)", "ceil", "i", "5", 'S' },
        { "FLOOR(i)", "floor", "i", "5", 'S' }, { "MOD(k, i)", "mod", "ki", "3,5", 'S' }, { "UPPER(s)", "upper", "s", "'x'", 'S' }, { "LOWER(s)", "lower", "s", "'x'", 'S' }, { "LENGTH(s)", "length", "s", "'x'", 'S' },
        { "SUBSTRING(s FROM k)", "substring", "sk", "'x',3", 'S' }, { "SUBSTRING(s FROM k FOR i)", "substring", "ski", "'x',3,5", 'S' },
        { "OVERLAY(s PLACING s || s FROM k)", "overlay", "ssk", "'x','xx',3", 'S' }, { "OVERLAY(s PLACING s || s FROM k FOR i)", "overlay", "sski", "'x','xx',3,5", 'S' },
        { "CURRENT_DATE", "current_date", "", "", 'S' }, { "CURRENT_TIME", "current_time", "", "", 'S' }, { "LOCALTIME", "localtime", "", "", 'S' }, { "CURRENT_TIMESTAMP", "current_timestamp", "", "", 'S' }, { "LOCALTIMESTAMP", "localtimestamp", "", "", 'S' },
        { "CURRENT_TIME(3)", "current_time", "i", "3", 'S' }, { "LOCALTIME(3)", "localtime", "i", "3", 'S' }, { "CURRENT_TIMESTAMP(3)", "current_timestamp", "i", "3", 'S' }, { "LOCALTIMESTAMP(3)", "localtimestamp", "i", "3", 'S' },
        { "COUNT(*)", "count", "", "", 'A' }, { "COUNT(i)", "count", "i", "5", 'A' }, { "COUNT(ALL i)", "count", "i", "5", 'A' }, { "COUNT(DISTINCT i)", "count$distinct", "i", "5", 'A' },
        { "AVG(i)", "avg", "i", "5", 'A' }, { "AVG(ALL i)", "avg", "i", "5", 'A' }, { "AVG(DISTINCT i)", "avg$distinct", "i", "5", 'A' }, { "MAX(i)", "max", "i", "5", 'A' }, { "MAX(DISTINCT i)", "max$distinct", "i", "5", 'A' },
        { "MIN(i)", "min", "i", "5", 'A' }, { "MIN(DISTINCT i)", "min$distinct", "i", "5", 'A' }, { "SUM(ALL i)", "sum", "i", "5", 'A' }, { "SUM(DISTINCT i)", "sum$distinct", "i", "5", 'A' }, { "EVERY(b)", "every", "b", "true", 'A' }, { "EVERY(DISTINCT b)", "every$distinct", "b", "true", 'A' },
        { "BIT_AND(i)", "bit_and", "i", "5", 'A' }, { "BIT_OR(i)", "bit_or", "i", "5", 'A' }, { "BOOL_AND(b)", "bool_and", "b", "true", 'A' }, { "BOOL_OR(b)", "bool_or", "b", "true", 'A' }, { "BIT_AND(DISTINCT i)", "bit_and$distinct", "i", "5", 'A' }, { "BIT_OR(DISTINCT i)", "bit_or$distinct", "i", "5", 'A' },
        { "BOOL_AND(DISTINCT b)", "bool_and$distinct", "b", "true", 'A' }, { "BOOL_OR(DISTINCT b)", "bool_or$distinct", "b", "true", 'A' },
    };
    static std::vector<Decl> const everything = [] {
        std::vector<Decl> r;
        std::set<std::pair<std::string, std::string>> seen;
        for (auto& f : forms) if (seen.insert({ f.name, f.params }).second) r.push_back({ builtin + 100 + r.size(), f.kind, f.name, f.params });
        for (auto* n : { "extract_year", "convert", "translate", "nullif", "coalesce", "user", "current_user" }) r.push_back({ builtin + 100 + r.size(), 'S', n, "s" });
        return r;
    }();
    w.enumerate("special functions", forms.size() * (everything.size() + 1) * 4, [&](std::uint64_t n) {
        auto& f = forms[n % forms.size()];
        n /= forms.size();
        std::size_t missing = n % (everything.size() + 1);
        int where = int(n / (everything.size() + 1)); // in the path; in another schema of the path; in two schemas; not in the path
        Calls cat;
        cat.schema("late");
        std::vector<Decl> ds;
        for (std::size_t i = 0; i < everything.size(); ++i) {
            if (i + 1 == missing) continue;
            auto& d = everything[i];
            ds.push_back(d);
            cat.declare(where == 1 ? "late" : where == 3 ? "off" : "pub", d, where != 3);
            if (where == 2) { auto twin = d; twin.id += 1000; cat.declare("late", twin); }
        }
        std::size_t id = none;
        for (auto& d : ds) if (d.name == f.name && d.params == f.params) id = d.id;
        if (where == 3) id = none;
        else if (id != none && where == 2) id = ambiguous;
        judge(w, cat, calls(cat), "SELECT " + std::string(f.sql) + " FROM t", id, f.shown, "special functions, without " + (missing ? everything[missing - 1].name + "/" + everything[missing - 1].params : std::string("none")) + " where " + std::to_string(where));
    });
    // EXTRACT: fields, digits, and types of the operand
    struct Field { char const* sql; char const* name; char const* of; bool digits; };
    static std::vector<Field> const fields {
        { "YEAR", "extract_year", "dpq", false }, { "MONTH", "extract_month", "dpq", false }, { "DAY", "extract_day", "dpq", false }, { "HOUR", "extract_hour", "tupq", false }, { "MINUTE", "extract_minute", "tupq", false }, { "SECOND", "extract_second", "tupq", true },
        { "TIMEZONE_HOUR", "extract_timezone_hour", "uq", false }, { "TIMEZONE_MINUTE", "extract_timezone_minute", "uq", false }, { "DATE", "date", "dpq", false },
        { "YEAR TO MONTH", "extract_year_to_month", "dpq", false }, { "YEAR TO DAY", "extract_year_to_day", "dpq", false }, { "YEAR TO HOUR", "extract_year_to_hour", "pq", false }, { "YEAR TO MINUTE", "extract_year_to_minute", "pq", false }, { "YEAR TO SECOND", "extract_year_to_second", "pq", true },
    };
    w.explore("extract", 99, [&](Chooser& c) {
        auto& f = fields[std::size_t(c.choose(int(fields.size())))];
        char operand = all_columns[std::size_t(c.choose(int(all_columns.size())))];
        int digits = f.digits ? c.choose(7) : 0;
        int missing = c.choose(3); // all; not this name; not this operand
        if (w.steering()) return;
        static int const counts[] { -1, 0, 1, 3, 8, 9, 12 };
        Calls cat;
        std::vector<Decl> ds;
        for (auto& x : fields) for (char o : all_columns) {
            if (missing == 1 && &x == &f) continue;
            if (missing == 2 && o == operand) continue;
            ds.push_back({ builtin + 100 + ds.size(), 'S', x.name, x.digits ? std::string { o, 'k' } : std::string { o } });
            cat.declare("pub", ds.back());
            if (x.digits) { ds.push_back({ builtin + 100 + ds.size(), 'S', x.name, std::string { o } }); cat.declare("pub", ds.back()); ds.push_back({ builtin + 100 + ds.size(), 'S', x.name, std::string { o, 'i' } }); cat.declare("pub", ds.back()); }
        }
        std::size_t id = none;
        if (missing != 1 && std::string(f.of).find(operand) != std::string::npos)
            for (auto& d : ds) if (d.name == f.name && d.params == (f.digits ? std::string { operand, 'k' } : std::string { operand })) id = d.id;
        std::string sql = std::string("SELECT EXTRACT(") + f.sql + (digits ? "(" + std::to_string(counts[digits]) + ")" : "") + " FROM " + operand + ") FROM t";
        std::string shown = plan::to_string(value_of(operand));
        if (f.digits) shown += "," + std::to_string(digits ? std::min(9, counts[digits]) : 9);
        judge(w, cat, calls(cat), sql, id, shown, "missing " + std::to_string(missing));
    });
}
// ---- parameters

void parameters(Worker& w) {
    using mizugaki::placeholder_map;
    using mizugaki::placeholder_entry;
    // which name is looked up, and where
    static std::vector<std::string> const names { "x", "X", ":x", "1", ":1", "2" };
    w.explore("names of parameters", 99, [&](Chooser& c) {
        int placeholders = 0, hosts = 0;
        for (std::size_t i = 0; i < names.size(); ++i) placeholders |= c.choose(2) << i;
        for (std::size_t i = 0; i < names.size(); ++i) hosts |= c.choose(2) << i;
        bool colon = c.choose(2);
        bool lower = c.choose(2);
        int given = c.choose(4); // both, no placeholders, no host variables
        if (w.steering()) return;
        static Calls cat;
        auto opt = calls(cat);
        opt.host_parameter_declaration_starts_with_colon() = colon;
        opt.lowercase_regular_identifiers() = lower; // not for parameters
        placeholder_map map;
        auto vars = std::make_shared<::yugawara::variable::configurable_provider>();
        auto db = cat.db;
        for (std::size_t i = 0; i < names.size(); ++i) {
            if ((placeholders >> i) & 1) map.add(names[i], placeholder_entry { std::make_shared<tv::int8>(std::int64_t(10 + i)), std::make_shared<tt::int8>() });
            if ((hosts >> i) & 1) {
                vars->add(std::make_shared<::yugawara::variable::declaration>(names[i], std::make_shared<tt::int8>()));
                db.externals[names[i]] = Val::integer(std::int64_t(100 + i));
            }
        }
        bool use_map = given != 1 && given != 3, use_vars = given < 2;
        struct Use { std::string sql, name; };
        for (auto& u : std::vector<Use> { { ":x", "x" }, { ":X", "X" }, { "?", "1" } }) {
            std::string sql = "SELECT " + u.sql + " FROM t", name = (colon ? ":" : "") + u.name;
            int want = -1;
            for (std::size_t i = 0; i < names.size(); ++i) if (names[i] == name) {
                if (use_map && ((placeholders >> i) & 1)) want = int(10 + i);
                else if (use_vars && ((hosts >> i) & 1)) want = int(100 + i);
            }
            auto o = run(analyzer(), opt, sql, use_map ? map : placeholder_map {}, use_vars ? ::takatori::util::optional_ptr<::yugawara::variable::provider const> { vars.get() } : nullptr);
            w.count("uses");
            auto about = sql + " placeholders " + std::to_string(use_map ? placeholders : 0) + " host variables " + std::to_string(use_vars ? hosts : 0) + (colon ? " with colon" : "");
            w.state(std::hash<std::string> {}(about));
            w.expect(o.parsed && o.thrown.empty(), "does not run", about, ": ", o.why());
            if (want < 0) { w.expect(o.has(sql_analyzer_code::variable_not_found), "unknown parameter", about, ": ", o.why()); w.count("unknown"); continue; }
            if (!w.expect(o.ok(), "parameter not found", about, ": ", o.why())) continue;
            std::string got;
            try { got = plan::to_string(plan::Exec(db).query(o.graph()).rows.at(0).at(0)); } catch (std::exception const& e) { got = e.what(); }
            w.expect(got == std::to_string(want), "parameter", about, " is ", got, " expected ", want);
        }
    });
    // a parameter in the place of a constant: the statement does the same
    static std::vector<char const*> const templates {
        "SELECT @, x FROM a WHERE y = @ OR x = @", "SELECT x + @, @ - y FROM a", "SELECT x FROM a WHERE x IN (@, @, @)", "SELECT x FROM a WHERE x BETWEEN @ AND @ AND y <> @",
        "SELECT CASE x WHEN @ THEN @ WHEN @ THEN @ ELSE @ END FROM a", "SELECT CASE WHEN x = @ THEN @ ELSE @ END FROM a", "SELECT f(@), g(@, x), g(y, @) FROM a", "SELECT COALESCE(y, @), NULLIF(x, @) FROM a",
        "SELECT x, SUM(y + @) FROM a GROUP BY x HAVING COUNT(*) >= @", "SELECT SUM(@), COUNT(DISTINCT x + @) FROM a", "SELECT a.x, b.z FROM a JOIN b ON a.x = b.x + @ AND b.z > @ WHERE a.y < @", "SELECT a.x, b.z FROM a LEFT JOIN b ON a.x = b.x AND b.z = @ WHERE a.x <> @",
        "SELECT (SELECT MAX(b.z + @) FROM b WHERE b.x = a.x OR b.x = @) FROM a", "SELECT x FROM a WHERE EXISTS (SELECT * FROM b WHERE b.x = a.x AND b.z > @) OR x = @", "SELECT x FROM a WHERE x + @ IN (SELECT z - @ FROM b)", "SELECT x FROM a WHERE @ < ANY (SELECT z FROM b WHERE z <> @)",
        "SELECT u FROM (SELECT x + @ AS u, y FROM a) AS t WHERE u > @ AND y > @", "WITH t(u) AS (SELECT x * @ FROM a WHERE y < @) SELECT u + @ FROM t", "SELECT x FROM a WHERE y = @ UNION ALL SELECT z + @ FROM b EXCEPT SELECT @ FROM b", "VALUES (@, @), (@, @)",
        "SELECT a.x, t.v FROM a APPLY rng(@) AS t(v)", "SELECT a.x, t.v FROM a APPLY rng(x + @) AS t(v) WHERE t.v <> @", "SELECT x FROM a ORDER BY x + @, y LIMIT 2", "SELECT CAST(@ AS VARCHAR(*)) || 'a', -@ FROM a", "SELECT x FROM a WHERE (x = @) IS NOT TRUE AND NOT y = @",
        "INSERT INTO a VALUES (@, @), (@, @)", "INSERT INTO a (y, x) SELECT z + @, @ FROM b WHERE x = @", "UPDATE a SET y = y + @, x = @ WHERE x = @", "UPDATE a SET y = (SELECT MAX(z) FROM b WHERE b.x = @) WHERE y IN (@, @)", "DELETE FROM a WHERE x = @ AND y > @",
    };
    struct PEnv : Env {
        plan::Db db;
        PEnv() {
            auto& s = schema("pub");
            s.table("a", { { "x" }, { "y" } });
            s.table("b", { { "x" }, { "z" } });
            auto n = [](int v) { return v ? Val::integer(v) : Val {}; };
            db.tables["a"] = { { n(1), n(2) }, { n(2), n(3) }, { n(3), n(1) }, { n(2), n(0) }, { n(4), n(4) } };
            db.tables["b"] = { { n(1), n(3) }, { n(2), n(1) }, { n(2), n(4) }, { n(0), n(2) } };
            s.function(user + 1, "f", int8(), { int8() });
            s.function(user + 2, "g", int8(), { int8(), int8() });
            s.table_function(user + 3, "rng", { { "v" } }, { int8() });
            db.functions[user + 1] = [](plan::Row const& a) { return a[0].is_null() ? a[0] : Val::integer(a[0].i + 10); };
            db.functions[user + 2] = [](plan::Row const& a) { return a[0].is_null() || a[1].is_null() ? Val {} : Val::integer(a[0].i * 10 + a[1].i); };
            db.table_functions[user + 3] = [](plan::Row const& a) { plan::Rows r; if (!a[0].is_null()) for (std::int64_t i = 1; i <= a[0].i && i <= 3; ++i) r.push_back({ Val::integer(i) }); return r; };
            s.aggregate(builtin + 1, "count", int8(), {});
            s.aggregate(builtin + 2, "count$distinct", int8(), { int8() });
            s.aggregate(builtin + 3, "sum", int8(), { int8() });
            s.aggregate(builtin + 4, "max", int8(), { int8() });
            db.aggregates[builtin + 1] = [](plan::Rows const& r) { return Val::integer(std::int64_t(r.size())); };
            db.aggregates[builtin + 2] = [](plan::Rows const& r) { std::set<plan::Row> u; for (auto& x : r) if (!x[0].is_null()) u.insert(x); return Val::integer(std::int64_t(u.size())); };
            db.aggregates[builtin + 3] = [](plan::Rows const& r) { Val v; for (auto& x : r) if (!x[0].is_null()) v = Val::integer(v.i + x[0].i); return v; };
            db.aggregates[builtin + 4] = [](plan::Rows const& r) { Val v; for (auto& x : r) if (!x[0].is_null() && (v.is_null() || x[0].i > v.i)) v = x[0]; return v; };
        }
    };
    w.explore("parameters for constants", 99, [&](Chooser& c) {
        std::string pattern = templates[std::size_t(c.choose(int(templates.size())))];
        std::string literal, sql;
        static PEnv env;
        auto db = env.db;
        placeholder_map map;
        auto vars = std::make_shared<::yugawara::variable::configurable_provider>();
        auto add = [&](std::string const& name, int value, bool host) {
            if (!host) { map.add(name, placeholder_entry { std::make_shared<tv::int8>(std::int64_t(value)), std::make_shared<tt::int8>() }); return; }
            vars->add(std::make_shared<::yugawara::variable::declaration>(name, std::make_shared<tt::int8>()));
            db.externals[name] = Val::integer(value);
        };
        add("p", 3, false), add("q", 1, false), add("h", 2, true), add("k", 4, true), add("p", 77, true), add("x", 55, true), add("y", 66, false);
        int marks = 0;
        for (char ch : pattern) {
            if (ch != '@') { literal += ch; sql += ch; continue; }
            int v = 0;
            switch (c.choose(7)) {
                case 0: v = 1 + marks % 2; sql += std::to_string(v); break;
                case 1: ++marks; v = 1 + (marks * 3) % 4; add(std::to_string(marks), v, false); sql += "?"; break;
                case 2: v = 3; sql += ":p"; break;
                case 3: v = 2; sql += ":h"; break;
                case 4: ++marks; v = 1 + (marks * 2) % 5; add(std::to_string(marks), v, true); sql += " ? "; break;
                case 5: v = 1; sql += ":q"; break;
                default: v = 4; sql += ":k"; break;
            }
            literal += std::to_string(v);
        }
        int around = c.choose(4); // marks which are none
        if (around == 1) sql = "/* ? :p */ " + sql;
        if (around == 2) { auto at = sql.find("FROM a"); if (at != std::string::npos) sql.insert(at, "/* ? */ -- ?\n"); }
        if (around == 3) { auto at = sql.find(" WHERE "); if (at == std::string::npos) return; sql.insert(at + 7, "'?' = '?' AND "); literal.insert(literal.find(" WHERE ") + 7, "'?' = '?' AND "); }
        if (w.steering()) return;
        auto opt = env.options();
        opt.lowercase_function_regular_identifiers() = true;
        opt.validate_scalar_expressions() = true;
        opt.prefer_write_statement() = false;
        auto expected = run(analyzer(), opt, literal);
        auto o = run(analyzer(), opt, sql, map, ::takatori::util::optional_ptr<::yugawara::variable::provider const> { vars.get() });
        w.state(std::hash<std::string> {}(sql));
        w.count("uses");
        if (!w.expect(expected.ok() && expected.is_plan(), "template", literal, ": ", expected.why())) return;
        if (!w.expect(o.ok() && o.is_plan(), "parameter not accepted", sql, ": ", o.why())) return;
        if (auto bad = plan::verify(o.graph()); !bad.empty()) { w.fail("bad plan", sql + ": " + bad); return; }
        auto text = [&](Outcome const& x) {
            std::string t;
            try {
                plan::Exec e(db);
                if (literal[0] == 'S' || literal[0] == 'V' || literal[0] == 'W') {
                    auto r = e.query(x.graph()).rows;
                    if (literal.find("ORDER BY") == std::string::npos) std::sort(r.begin(), r.end());
                    for (auto& row : r) { for (auto& v : row) t += plan::to_string(v) + " "; t += "| "; }
                } else {
                    auto r = e.write(x.graph());
                    std::vector<std::string> lines;
                    for (auto& row : r.rows) { std::string l; for (auto& v : row) l += plan::to_string(v) + " "; lines.push_back(l); }
                    std::sort(lines.begin(), lines.end());
                    for (auto& l : lines) t += l + "| ";
                }
            } catch (plan::NoValue const& e) { t = "no value"; }
            catch (std::exception const& e) { t = e.what(); }
            return t;
        };
        auto a = text(expected), b = text(o);
        w.expect(a == b, "different result", sql, " gives ", b, " and ", literal, " gives ", a);
    });
    // every type of value
    struct Sample { char const* what; std::function<placeholder_entry()> entry; };
    static std::vector<Sample> const samples {
        { "int4", [] { return placeholder_entry { std::make_shared<tv::int4>(7), std::make_shared<tt::int4>() }; } }, { "int8", [] { return placeholder_entry { std::make_shared<tt::int8>(), std::make_shared<tv::int8>(7) }; } },
        { "float4", [] { return placeholder_entry { tv::float4 { 1.5f }, tt::float4 {} }; } }, { "float8", [] { return placeholder_entry { tt::float8 {}, tv::float8 { 1.5 } }; } },
        { "boolean", [] { return placeholder_entry { tv::boolean { true }, tt::boolean {} }; } }, { "character", [] { return placeholder_entry { tv::character { "it's" }, tt::character { tt::varying, 10 } }; } },
        { "octet", [] { return placeholder_entry { tv::octet { std::string("\0\1", 2) }, tt::octet { tt::varying } }; } }, { "null", [] { return placeholder_entry { tv::unknown {}, tt::int8 {} }; } }, { "unknown", [] { return placeholder_entry { tv::unknown {}, tt::unknown {} }; } },
        { "date", [] { return placeholder_entry { tv::date { 1, 2, 3 }, tt::date {} }; } },
    };
    w.enumerate("types of parameters", samples.size() * 4, [&](std::uint64_t n) {
        auto& s = samples[n % samples.size()];
        int form = int(n / samples.size());
        auto entry = s.entry();
        auto want = entry.resolve();
        placeholder_map map;
        auto vars = std::make_shared<::yugawara::variable::configurable_provider>();
        bool host = form & 1;
        std::string sql = form & 2 ? "SELECT ? FROM t" : "SELECT :v FROM t";
        auto& want_value = static_cast<ts::immediate const&>(*want);
        auto name = form & 2 ? "1" : "v";
        std::shared_ptr<::yugawara::variable::declaration> decl;
        if (host) decl = vars->add(std::make_shared<::yugawara::variable::declaration>(name, want_value.shared_type()));
        else map.add(name, entry);
        static Calls cat;
        for (int again = 0; again < 2; ++again) { // entries are used many times
            auto o = run(analyzer(), calls(cat), sql, map, ::takatori::util::optional_ptr<::yugawara::variable::provider const> { vars.get() });
            w.state(std::hash<std::string> {}(sql + s.what));
            w.count("uses");
            if (!w.expect(o.ok(), "parameter not accepted", sql, " of ", s.what, ": ", o.why())) return;
            ts::expression const* e = nullptr;
            for (auto&& op : o.graph()) if (op.kind() == tr::expression_kind::project) for (auto& col : static_cast<tr::project const&>(op).columns()) e = &col.value();
            if (!e) { // used as it is
                for (auto&& op : o.graph()) if (op.kind() == tr::expression_kind::emit) {
                    auto d = ::yugawara::binding::extract_if<::yugawara::variable::declaration>(static_cast<tr::emit const&>(op).columns()[0].source());
                    w.expect(host && d && d.get() == decl.get(), "host variable", sql, " of ", s.what);
                }
                continue;
            }
            if (host) {
                if (!w.expect(e->kind() == ts::expression_kind::variable_reference, "host variable", sql, " of ", s.what, ": ", *e)) return;
                auto d = ::yugawara::binding::extract_if<::yugawara::variable::declaration>(static_cast<ts::variable_reference const&>(*e).variable());
                w.expect(d && d.get() == decl.get(), "host variable", sql, " of ", s.what, ": ", *e);
            } else {
                if (!w.expect(e->kind() == ts::expression_kind::immediate, "value of the parameter", sql, " of ", s.what, ": ", *e)) return;
                auto& i = static_cast<ts::immediate const&>(*e);
                w.expect(i.value() == want_value.value() && i.type() == want_value.type(), "value of the parameter", sql, " of ", s.what, ": ", i.value(), " of ", i.type());
            }
        }
    });
    // positions run over the whole text
    w.explore("statements of a text", 99, [&](Chooser& c) {
        int n = 1 + c.choose(3);
        std::vector<int> counts;
        std::string sql;
        for (int i = 0; i < n; ++i) {
            counts.push_back(c.choose(4));
            static char const* const forms[] { "SELECT 0 FROM t", "SELECT ? FROM t", "SELECT ? * 10 + ? FROM t", "SELECT ? * 100 + ? * 10 + ? FROM t" };
            sql += std::string(forms[counts.back()]) + "; ";
        }
        bool comment = c.choose(2);
        if (comment) sql = "-- ?\n" + sql;
        if (w.steering()) return;
        placeholder_map map;
        for (int i = 1; i < 10; ++i) map.add(std::to_string(i), placeholder_entry { tv::int8 { i }, tt::int8 {} });
        static Calls cat;
        mizugaki::parser::sql_parser parser;
        auto r = parser("t", sql);
        if (!w.expect(r.has_value(), "syntax", sql)) return;
        int mark = 0;
        for (int i = 0; i < n; ++i) {
            std::int64_t want = 0;
            for (int k = 0; k < counts[std::size_t(i)]; ++k) want = want * 10 + ++mark;
            auto& unit = *r.value();
            auto result = analyzer()(calls(cat), *unit.statements()[std::size_t(i)], unit, map);
            w.state(std::hash<std::string> {}(sql + std::to_string(i)));
            w.count("uses");
            if (!w.expect(result.kind() == sql_analyzer_result_kind::execution_plan, "parameter not accepted", sql, " statement ", i + 1)) return;
            auto got = plan::Exec(cat.db).query(result.element<sql_analyzer_result_kind::execution_plan>()).rows;
            w.expect(got.size() == 1 && got[0][0].i == want, "position", sql, " statement ", i + 1, " expected ", want);
        }
    });
    // where a constant of the statement is required, a value may stand, but not a variable
    w.enumerate("limits", 3 * 7, [&](std::uint64_t n) {
        static std::int64_t const values[] { 0, 1, 3, 100, -1, -5, 2 };
        auto v = values[n % 7];
        int form = int(n / 7);
        static PEnv env;
        placeholder_map map;
        auto vars = std::make_shared<::yugawara::variable::configurable_provider>();
        if (form < 2) map.add(form ? "1" : "v", placeholder_entry { tv::int8 { v }, tt::int8 {} });
        else vars->add(std::make_shared<::yugawara::variable::declaration>("v", std::make_shared<tt::int8>()));
        std::string sql = std::string("SELECT x FROM a ORDER BY x LIMIT ") + (form == 1 ? "?" : ":v");
        auto o = run(analyzer(), env.options(), sql, map, ::takatori::util::optional_ptr<::yugawara::variable::provider const> { vars.get() });
        w.state(std::hash<std::string> {}(sql + std::to_string(v)));
        w.count("uses");
        if (form == 2 || v < 0) { w.expect(o.parsed && o.thrown.empty() && !o.ok() && !o.diagnostics().empty(), "wrong limit accepted", sql, " of ", v, ": ", o.why()); return; }
        if (!w.expect(o.ok(), "limit", sql, " of ", v, ": ", o.why())) return;
        auto got = plan::Exec(env.db).query(o.graph()).rows;
        w.expect(got.size() == std::min<std::size_t>(5, std::size_t(v)), "limit", sql, " of ", v, " gives ", got.size());
    });
}

void check(Worker& w) {
    if (PART == 0 || PART == 1) values(w);
    if (PART == 0 || PART == 2) functions(w);
    if (PART == 0 || PART == 3) parameters(w);
}

} // namespace

int main(int argc, char** argv) { return harness_main(argc, argv, check); }
