// The plan of a query computes what the query means: every query of the grammar of sqlgen.h is analyzed,
// its plan is run on all small databases, and the result is compared with the reference evaluation.
#include "an_world.h"
#include "harness.h"

using namespace mc;
using namespace an;
using namespace ref;

// which legs: 1 select, 2 joins, 3 groups, 4 composed queries, 5 subqueries; 0 all
#ifndef PART
#define PART 0
#endif

namespace {

sql_analyzer& analyzer() { static thread_local sql_analyzer a; return a; }

/// with a text, its columns have the names of those of the query, each once, and no particular order
void judge(Worker& w, Q const& q, bool more, std::string const& text = {}) {
    if (w.steering()) return;
    std::string sql = text.empty() ? print(q) : text;
    if (w.replaying()) std::cout << sql << "\n";
    w.state(std::hash<std::string> {}(sql));
    auto& wd = world();
    Compiler comp(wd.cat);
    std::optional<Plan> p;
    std::string wrong;
    try { p = comp.query(q); }
    catch (Wrong const& e) { wrong = e.what(); }
    auto r = run(analyzer(), wd.opt, sql);
    if (!w.expect(r.parsed, "syntax", sql, ": ", r.why())) return;
    if (!w.expect(r.thrown.empty(), "throws", sql, ": ", r.thrown)) return;
    if (!p) {
        w.count("wrong");
        if (w.expect(!r.ok(), "wrong query accepted", sql, ": ", wrong)) w.expect(!r.diagnostics().empty(), "no diagnostics", sql);
        return;
    }
    if (!w.expect(r.is_plan(), "rejected", sql, ": ", r.why())) return;
    w.count("accepted");
    auto bad = plan::verify(r.graph());
    if (!w.expect(bad.empty(), "plan", sql, ": ", bad)) return;
    std::set<std::string> t;
    used(q, t);
    bool first = true;
    std::uint64_t n = 0, none = 0;
    databases(t, more, [&](plan::Db const& db) {
        plan::Exec x(db);
        Ctx c;
        c.db = &db;
        plan::Exec::Result got;
        std::string failed;
        bool no_value = false;
        try {
            std::string diff;
            try { got = x.query(r.graph()); }
            catch (NoValue const& e) { failed = std::string("no value: ") + e.what(); no_value = true; }
            if (failed.empty() && !text.empty()) {
                std::vector<std::size_t> at;
                for (auto& k : p->names) { auto i = std::find(got.names.begin(), got.names.end(), *k); if (i == got.names.end()) failed = "no column " + *k; else at.push_back(std::size_t(i - got.names.begin())); }
                if (failed.empty() && got.names.size() != p->names.size()) failed = "columns " + names(got.names);
                if (failed.empty()) {
                    for (auto& row : got.rows) { Row n; for (auto i : at) n.push_back(row[i]); row = n; }
                    got.names.clear();
                    for (auto& k : p->names) got.names.push_back(*k);
                }
            }
            if (failed.empty()) { diff = compare(*p, c, got.rows); if (!diff.empty()) failed = diff; }
            else p->run(c); // has it a value?
        }
        catch (NoValue const&) { ++none; return true; }
        catch (plan::Malformed const& e) { failed = std::string("malformed plan: ") + e.what(); }
        catch (plan::Unknown const& e) { failed = std::string("unknown plan element: ") + e.what(); }
        ++n;
        if (first && !no_value && failed.empty()) {
            first = false;
            std::vector<std::string> want;
            for (auto& k : p->names) want.push_back(k ? *k : "");
            if (!w.expect(want == got.names, "names", sql, ": expected ", names(want), " actual ", names(got.names))) return false;
        }
        return w.expect(failed.empty(), "result", sql, " on ", to_string(db), ": ", failed);
    });
    w.count("databases", n);
    w.count("databases without a value", none);
    w.sample(sql);
}

struct Legs {
    Worker& w;
    void leg(int part, std::string name, int quick, int thorough, int rows, std::function<QP(gen::Gen&)> make) {
        if (PART != 0 && PART != part) return;
        auto pass = [&](std::string n, int bound, bool more) {
            w.explore(n, bound, [&](Chooser& c) {
                gen::Gen::commons().clear();
                gen::Gen g(c);
                auto q = make(g);
                judge(w, *q, more);
            });
        };
        // thorough: more queries on the databases of the quick run, and its queries on more databases
        pass(name, w.thorough ? thorough : quick, false);
        if (w.thorough) pass(name + ", more rows", rows, true);
    }
};

FP any_table(gen::Gen& g) { return ref::table(gen::tables()[std::size_t(g.pick(3))].name); }

void check(Worker& w) {
    Legs l { w };
    using gen::Gen;
    l.leg(1, "select", 4, 5, 4, [](Gen& g) {
        auto q = mkq();
        q->from.push_back(any_table(g));
        int more = g.pick(4); // a second table
        if (more == 1) q->from.push_back(ref::table("b", "t"));
        else if (more == 2) q->from.push_back(g.from_item(1));
        else if (more == 3) q->from.clear();
        Gen::Scope s;
        for (auto& f : q->from) { auto k = Gen::columns_of(*f); s.here.insert(s.here.end(), k.begin(), k.end()); }
        int shape = q->from.empty() ? 1 : g.pick(4);
        g.items(*q, s, 2, shape);
        int d = g.pick(3);
        q->distinct = d == 1;
        q->all_word = d == 2;
        if (q->from.empty()) return q;
        if (g.pick(2)) q->where = g.boolean(s, 1);
        g.tail(*q, s, 1);
        return q;
    });
    // lists of up to four parts, all of them
    if (PART == 0 || PART == 1) for (bool more : { false, true }) if (!more || w.thorough) w.explore(more ? "long lists, more rows" : "long lists", 99, [&](Chooser& c) {
        auto kind = c.choose(7);
        auto n = 2 + c.choose(3);
        auto value = [&]() -> EP { switch (c.choose(4)) { case 0: return num(1); case 1: return col("y"); case 2: return num(2); default: return named("cast", "BIGINT", { mk("null") }); } };
        auto truth = [&]() -> EP { switch (c.choose(4)) { case 0: return mk("=", { col("x"), num(1) }); case 1: return mk("<", { col("x"), col("y") }); case 2: return mk("is_null", { col("x") }); default: return mk("=", { col("y"), num(1) }); } };
        auto q = mkq();
        q->from.push_back(ref::table("a"));
        std::vector<EP> list;
        if (kind == 0) { // IN
            list.push_back(col("x"));
            for (int i = 0; i < n; ++i) list.push_back(value());
            q->items.push_back({ col("x") });
            q->items.push_back({ col("y") });
            q->where = mk(c.choose(2) ? "not_in" : "in", list);
        } else if (kind == 1 || kind == 2) { // CASE
            if (kind == 2) list.push_back(col("x"));
            for (int i = 0; i < n; ++i) { list.push_back(kind == 1 ? truth() : value()); list.push_back(num(10 + i)); }
            bool rest = c.choose(2);
            if (rest) list.push_back(num(20));
            q->items.push_back({ named(kind == 1 ? "searched" : "case", "", list, rest) });
        } else if (kind == 3) { // COALESCE
            for (int i = 0; i < n; ++i) switch (c.choose(4)) {
                case 0: list.push_back(col("x")); break;
                case 1: list.push_back(col("y")); break;
                case 2: list.push_back(mk("nullif", { col("x"), num(1) })); break;
                default: list.push_back(num(7));
            }
            q->items.push_back({ mk("coalesce", list) });
        } else if (kind == 4) { // AND, OR
            EP e = truth();
            for (int i = 1; i < n; ++i) { auto o = c.choose(2); bool right = c.choose(2); auto t = truth(); e = right ? mk(o ? "or" : "and", { t, e }) : mk(o ? "or" : "and", { e, t }); }
            q->items.push_back({ col("x") });
            q->items.push_back({ col("y") });
            q->where = e;
        } else if (kind == 5) { // ORDER BY
            for (int i = 0; i < n; ++i) {
                auto k = c.choose(4);
                auto e = k == 0 ? col("x") : k == 1 ? col("y") : k == 2 ? mk("+", { col("x"), col("y") }) : mk("searched", { mk("=", { col("x"), num(1) }), col("y") });
                q->order.push_back({ e, c.choose(2) ? 2 : 0 });
            }
            q->items.push_back({ col("x") });
            q->items.push_back({ col("y") });
        } else { // the select list
            q->distinct = c.choose(2);
            for (int i = 0; i < n; ++i) switch (c.choose(4)) {
                case 0: q->items.push_back({ col("x") }); break;
                case 1: q->items.push_back({ col("y"), "k" + std::to_string(i) }); break;
                case 2: q->items.push_back({ mk("+", { col("x"), num(i) }) }); break;
                default: q->items.push_back({ num(i), "x" });
            }
        }
        judge(w, *q, more);
    });
    if (PART == 0 || PART == 3) for (bool more : { false, true }) if (!more || w.thorough) w.explore(more ? "long lists, more rows" : "long lists", 99, [&](Chooser& c) {
        auto n = 1 + c.choose(3), m = c.choose(4);
        auto d = mkq();
        d->from.push_back(ref::table("a"));
        static char const* const names[] { "p", "q", "r", "s" };
        for (int i = 0; i < 4; ++i) d->items.push_back({ i % 2 ? col("y") : i ? mk("+", { col("x"), num(1) }) : col("x"), names[i] });
        auto q = mkq();
        q->from.push_back(derived(d, "t"));
        q->group = true;
        for (int i = 0; i < n; ++i) q->keys.push_back(col(names[c.choose(4)]));
        for (auto& k : q->keys) q->items.push_back({ k });
        for (int i = 0; i < m; ++i) switch (c.choose(4)) {
            case 0: q->items.push_back({ named("agg", "COUNT") }); break;
            case 1: q->items.push_back({ named("agg", "SUM", { col(names[i]) }) }); break;
            case 2: q->items.push_back({ named("agg", "MAX", { col(names[(i + 1) % 4]) }) }); break;
            default: q->items.push_back({ named("agg", "COUNT", { col(names[i]) }, true) });
        }
        auto late = c.choose(3);
        if (late == 1) q->having = mk("and", { mk(">", { named("agg", "COUNT"), num(0) }), mk("is_not_null", { q->keys.back() }) });
        if (late == 2) for (auto& k : q->keys) q->order.push_back({ k, int(q->order.size()) % 2 ? 2 : 0 });
        judge(w, *q, more);
    });
    if (PART == 0 || PART == 4) for (bool more : { false, true }) if (!more || w.thorough) w.explore(more ? "long lists, more rows" : "long lists", 99, [&](Chooser& c) {
        auto kind = c.choose(3);
        auto part = [](int i) { auto q = mkq(); if (i == 2) { q->items.push_back({ num(1) }); return q; } q->from.push_back(ref::table(i % 2 ? "b" : "a")); q->items.push_back({ col(i == 0 ? "x" : i == 1 ? "z" : "y") }); return q; };
        if (kind == 0) { // set operations, nested to the left or to the right
            static char const* const ops[] { "UNION", "EXCEPT", "INTERSECT" };
            auto n = 3 + c.choose(2);
            bool right = c.choose(2);
            QP q = part(right ? n - 1 : 0);
            for (int i = 1; i < n; ++i) {
                auto s = mkq("setop");
                s->op = ops[c.choose(3)];
                s->quant = c.choose(2);
                auto p = part(right ? n - 1 - i : i);
                s->l = right ? p : q;
                s->r = right ? q : p;
                q = s;
            }
            judge(w, *q, more);
        } else if (kind == 1) { // rows of values
            auto n = 1 + c.choose(4), width = 1 + c.choose(3);
            auto v = mkq("values");
            for (int i = 0; i < n; ++i) { v->rows.emplace_back(); for (int k = 0; k < width; ++k) v->rows.back().push_back(i == 1 && k == 0 ? named("cast", "BIGINT", { mk("null") }) : num((i * 7 + k * 3) % 4)); }
            if (c.choose(2)) { judge(w, *v, more); return; }
            static std::vector<std::string> const names { "p", "q", "r" };
            auto q = mkq();
            q->distinct = c.choose(2);
            q->from.push_back(derived(v, "t", { names.begin(), names.begin() + width }));
            for (int k = width; k-- > 0; ) q->items.push_back({ col(names[std::size_t(k)]) });
            judge(w, *q, more);
        } else { // WITH, each built on one of those before
            auto q = mkq("with");
            auto n = 1 + c.choose(4);
            for (int i = 0; i < n; ++i) {
                auto s = mkq();
                auto from = c.choose(i + 1);
                s->from.push_back(from == 0 ? ref::table("a") : ref::table("w" + std::to_string(from - 1)));
                s->items.push_back({ mk("+", { col("x"), num(1 << i) }), "x" });
                q->with.push_back({ "w" + std::to_string(i), {}, s });
            }
            auto s = mkq();
            auto pick = c.choose(n);
            s->from.push_back(ref::table("w" + std::to_string(pick)));
            if (c.choose(2)) { s->from.push_back(ref::table("w" + std::to_string(c.choose(n)), "o")); s->where = mk("=", { col("x", "w" + std::to_string(pick)), col("x", "o") }); s->items.push_back({ col("x", "o") }); }
            else s->items.push_back({ col("x") });
            q->l = s;
            judge(w, *q, more);
        }
    });
    l.leg(2, "join", 4, 5, 3, [](Gen& g) {
        auto q = mkq();
        q->from.push_back(g.join_item(1));
        Gen::Scope s;
        s.here = Gen::columns_of(*q->from[0]);
        int shape = g.pick(4);
        bool use = false;
        std::function<void(F const&)> look = [&](F const& f) { if (!f.use.empty()) use = true; if (f.l) look(*f.l); if (f.r) look(*f.r); };
        look(*q->from[0]);
        if (use && (shape == 0 || shape == 3)) { shape = 0; for (std::size_t i = 0; i < s.here.size(); ++i) q->items.push_back({ Gen::refer(s.here, i) }); }
        else g.items(*q, s, 0, shape);
        if (g.pick(2)) q->where = g.boolean(s, 1, false);
        return q;
    });
    if (PART == 0 || PART == 2) for (bool more : { false, true }) if (!more || w.thorough) w.explore(more ? "common columns, more rows" : "common columns", 99, [&](Chooser& c) {
        static char const* const kinds[] { "inner", "left", "right", "full" };
        static std::vector<std::vector<std::string>> const uses { { "x" }, { "y" }, { "x", "y" }, { "y", "x" }, { "x", "x" }, { "x", "q" }, { "q", "y" } };
        auto side = [&](std::string n) { // has x and y
            auto v = c.choose(4);
            if (v == 0) return ref::table("a", n);
            if (v == 1) { auto d = mkq(); d->from.push_back(ref::table("a")); d->items.push_back({ col("y") }); d->items.push_back({ col("x") }); return derived(d, n); }
            if (v == 2) return ref::table("b", n, { "x", "y" });
            return join("inner", ref::table("a", n), ref::table("b", n + "b"), mk("=", { col("y", n), col("z", n + "b") }));
        };
        auto q = mkq();
        auto l = side("l"), r = side("r");
        std::string kind = kinds[c.choose(4)];
        q->from.push_back(join(kind, l, r, {}, uses[std::size_t(c.choose(int(uses.size())))]));
        auto third = c.choose(4);
        if (third) { auto f = join(kinds[third], q->from[0], ref::table("c", "t"), {}, { "y" }); if (third == 3) f = join("left", ref::table("c", "t"), q->from[0], {}, { "y" }); q->from[0] = f; }
        auto shape = c.choose(7);
        if (shape >= 5) { Item i; i.star = true; i.qual = shape == 5 ? "l" : "r"; q->items.push_back(i); }
        else if (shape == 0) { q->items.push_back({ col("x") }); q->items.push_back({ col("y") }); }
        else if (shape == 1) { q->items.push_back({ col("x", "l") }); q->items.push_back({ col("y", "l") }); }
        else if (shape == 2) { q->items.push_back({ col("x", "r") }); q->items.push_back({ col("y", "r") }); }
        else if (shape == 3) { q->group = true; q->keys = { col("x") }; q->items.push_back({ col("x") }); q->items.push_back({ named("agg", "COUNT", { col("y") }), "n" }); }
        else { // an asterisk: each column once
            for (auto& k : Gen::columns_of(*q->from[0])) {
                for (auto& i : q->items) if (i.e->name == k.name) return;
                q->items.push_back({ col(k.name) });
            }
            auto text = print(*q);
            judge(w, *q, more, "SELECT *" + text.substr(text.find(" FROM")));
            return;
        }
        judge(w, *q, more);
    });
    if (PART == 0 || PART == 2) w.explore("three common columns", 99, [&](Chooser& c) {
        static char const* const kinds[] { "inner", "left", "right", "full" };
        static std::vector<std::vector<std::string>> const uses { { "x", "y", "z" }, { "x", "z", "y" }, { "y", "x", "z" }, { "y", "z", "x" }, { "z", "x", "y" }, { "z", "y", "x" }, { "x", "y", "z", "u" }, { "u", "z", "y", "x" }, { "x", "u" }, { "x", "y", "x" }, { "x", "y", "q" } };
        static std::vector<std::vector<std::string>> const fills { { "x", "y", "x", "y" }, { "x", "x", "y", "y" }, { "y", "x", "x", "y" }, { "x", "y", "y", "x" } };
        static std::vector<std::string> const names { "x", "y", "z", "u" };
        auto side = [&](std::string n, std::string table, bool turned) {
            auto d = mkq();
            d->from.push_back(table == "a" ? ref::table("a") : ref::table("b", "b0", { "x", "y" }));
            auto& f = fills[std::size_t(c.choose(int(fills.size())))];
            for (std::size_t i = 0; i < 4; ++i) { auto k = turned ? 3 - i : i; d->items.push_back({ col(f[k]), names[k] }); }
            return derived(d, n);
        };
        auto l = side("l", "a", false), r = side("r", "b", true);
        auto q = mkq();
        q->from.push_back(join(kinds[c.choose(4)], l, r, {}, uses[std::size_t(c.choose(int(uses.size())))]));
        auto shape = c.choose(3);
        if (shape == 0) for (auto& n : { "x", "y", "z" }) q->items.push_back({ col(n) });
        else for (auto& n : names) q->items.push_back({ col(n, shape == 1 ? "l" : "r") });
        judge(w, *q, false);
    });
    l.leg(2, "join of joins", 4, 5, 3, [](Gen& g) {
        auto q = mkq();
        auto third = g.pick(3);
        FP in = g.join_item(0, false);
        static char const* const n[] { "c", "b", "a" };
        FP t = ref::table(n[third], "t");
        bool left = g.pick(2) == 0;
        static char const* const kinds[] { "inner", "left", "right", "full", "cross" };
        std::string kind = kinds[g.pick(5)];
        Gen::Scope s;
        auto lc = Gen::columns_of(left ? *in : *t), rc = Gen::columns_of(left ? *t : *in);
        s.here = lc;
        s.here.insert(s.here.end(), rc.begin(), rc.end());
        EP on;
        if (kind != "cross") { auto k = g.candidates(s); auto i = std::size_t(g.pick(int(lc.size()))), j = std::size_t(g.pick(int(rc.size()))); on = mk("=", { k[i], k[lc.size() + j] }); }
        q->from.push_back(join(kind, left ? in : t, left ? t : in, on));
        for (std::size_t i = 0; i < s.here.size(); ++i) q->items.push_back({ Gen::refer(s.here, i) });
        if (g.pick(2)) q->where = g.boolean(s, 1, false);
        return q;
    });
    auto grouping = [](Gen& g, int skeleton) {
        auto q = mkq();
        q->from.push_back(skeleton == 2 ? g.join_item(0) : any_table(g));
        Gen::Scope s;
        s.here = Gen::columns_of(*q->from[0]);
        if (g.pick(2)) q->where = g.boolean(s, 1, false);
        int keys = skeleton == 1 ? 0 : 1 + g.pick(2);
        q->group = keys > 0;
        Gen::Scope t = s;
        t.grouped = true;
        t.aggregate = true;
        for (int i = 0; i < keys; ++i) { auto k = Gen::refer(s.here, std::size_t(g.pick(int(s.here.size())))); q->keys.push_back(k); t.keys.push_back(k); }
        if (g.pick(2)) for (std::size_t i = 0; i < s.here.size(); ++i) t.keys.push_back(Gen::refer(s.here, i)); // keys or not
        if (keys) q->items.push_back({ q->keys[0] });
        q->items.push_back({ g.aggregate(t, g.pick(7), 1), g.pick(2) ? "n" : "" });
        int more = g.pick(3);
        for (int i = 0; i < more; ++i) q->items.push_back({ g.integer(t, 1) });
        if (g.pick(2)) { auto b = g.pick(2) ? g.boolean(t, 1) : mk(">", { g.aggregate(t, g.pick(7), 0), g.integer(t, 0) }); q->having = b; }
        q->distinct = g.pick(4) == 3;
        if (!q->distinct) g.tail(*q, t, 1);
        return q;
    };
    l.leg(3, "group", 3, 4, 3, [&](Gen& g) { return grouping(g, 0); });
    l.leg(3, "aggregate", 3, 4, 3, [&](Gen& g) { return grouping(g, 1); });
    l.leg(3, "group of join", 3, 4, 3, [&](Gen& g) { return grouping(g, 2); });
    l.leg(3, "having", 2, 3, 3, [](Gen& g) { // no aggregate function elsewhere
        auto q = mkq();
        q->from.push_back(any_table(g));
        Gen::Scope t;
        t.here = Gen::columns_of(*q->from[0]);
        t.grouped = true;
        q->group = g.pick(2) == 1;
        if (q->group) { t.keys.push_back(col(t.here[0].name)); q->keys = t.keys; }
        q->items.push_back({ g.integer(t, 1) });
        t.aggregate = g.pick(2) == 1;
        q->having = g.boolean(t, 1);
        return q;
    });
    l.leg(3, "group and subquery", 3, 4, 2, [](Gen& g) { // aggregates beside subqueries
        auto q = mkq();
        q->from.push_back(any_table(g));
        Gen::Scope s;
        s.here = Gen::columns_of(*q->from[0]);
        s.grouped = true;
        s.aggregate = true;
        q->group = g.pick(3) != 2;
        if (q->group) { q->keys.push_back(col(s.here[0].name)); s.keys = q->keys; }
        static char const* const cmp[] { "=", "<>", "<", ">=" };
        static char const* const more[] { "any", "all", "some" };
        static std::size_t const funcs[] { 4, 0, 1, 5 };
        int kind = g.pick(5);
        auto left = [&]() -> EP { auto v = g.pick(4); if (v == 1 && q->group) return q->keys[0]; auto e = g.aggregate(s, int(funcs[std::size_t(g.pick(4))]), 0); return v == 2 ? mk("+", { num(1), e }) : e; };
        EP l = kind == 4 ? EP() : left();
        auto in = g.subquery(s, kind == 4 ? 0 : 1);
        EP b;
        switch (kind) {
            case 0: b = withq("in_q", in, { l }); break;
            case 1: { int o = g.pick(4); b = withq(more[g.pick(3)], in, { l }, cmp[o]); break; }
            case 2: b = withq("not_in_q", in, { l }); break;
            case 3: { int o = g.pick(4); auto r = withq("scalar", in); bool flip = g.pick(2); b = flip ? mk(cmp[o], { r, l }) : mk(cmp[o], { l, r }); break; }
            default: b = withq("exists", in); break;
        }
        int wrap = g.pick(4);
        if (wrap == 1) b = mk("not", { b });
        else if (wrap == 2) { auto e = left(); b = mk("and", { b, mk(">", { e, num(0) }) }); }
        else if (wrap == 3) { auto e = left(); b = mk("or", { mk(">", { e, num(1) }), b }); }
        q->items.push_back({ left() });
        int where = g.pick(3);
        if (where == 1) q->items.push_back({ mk("searched", { b, num(1), mk("not", { b }), num(0) }) });
        else if (where == 2) q->order.push_back({ mk("searched", { b, num(1) }) });
        if (where != 1) q->having = b;
        if (where == 2) q->having = nullptr;
        return q;
    });
    l.leg(4, "set operation", 4, 5, 3, [](Gen& g) {
        static char const* const ops[] { "UNION", "EXCEPT", "INTERSECT" };
        auto set = [&](QP l, QP r) { auto q = mkq("setop"); q->op = ops[g.pick(3)]; q->quant = g.pick(3); q->l = l; q->r = r; return q; };
        QP x = g.simple(0);
        QP y = g.simple(0);
        int shape = g.pick(4);
        if (shape == 0) return set(x, y);
        QP z = g.simple(0);
        if (shape == 3) { auto n = mkq(); n->from.push_back(derived(set(x, y), "d")); Item i; i.star = true; n->items.push_back(i); return set(n, z); }
        if (shape == 1) { auto in = set(x, y); auto n = set(in, z); return n; }
        auto in = set(y, z);
        return set(x, in);
    });
    if (PART == 0 || PART == 3) for (bool more : { false, true }) if (!more || w.thorough) w.explore(more ? "expressions over groups, more rows" : "expressions over groups", 99, [&](Chooser& c) {
        // what may stand in an operand, in every operand of every kind of expression, in every place
        auto q = mkq();
        q->from.push_back(ref::table("a"));
        auto place = c.choose(5);
        q->group = place == 4 || c.choose(2) == 0;
        if (q->group) q->keys = { col("x") };
        bool in_function = place == 4;
        auto related = [](std::string k) { auto s = mkq(); s->from.push_back(ref::table("c")); s->items.push_back({ named("agg", "MAX", { col("z", "c") }) }); s->where = mk("=", { col("y", "c"), col(k, "a") }); return withq("scalar", s); };
        auto hole = [&]() -> EP {
            if (w.thorough) switch (c.choose(3)) { case 1: return mk("+", { named("agg", "SUM", { col("y") }), col("x") }); case 2: return named("agg", "COUNT"); default: break; }
            switch (c.choose(6)) {
                case 0: return in_function ? col("y") : named("agg", "SUM", { col("y") });
                case 1: return col("x");
                case 2: return num(1);
                case 3: return in_function ? named("agg", "SUM", { col("y") }) : col("y");
                case 4: return related("x");
                default: return in_function ? related("y") : named("agg", "SUM", { named("agg", "SUM", { col("y") }) });
            }
        };
        auto text = [&] { return named("cast", "VARCHAR", { hole() }); };
        auto is = [&](int v) { return mk("=", { hole(), num(v) }); };
        auto h3 = [&](char const* o) { auto a = hole(); auto b = hole(); return mk(o, { a, b, hole() }); };
        auto h2 = [&](char const* o) { auto a = hole(); return mk(o, { a, hole() }); };
        auto other = [&] { auto s = mkq(); s->from.push_back(ref::table("b")); s->items.push_back({ col("y", "b") }); return s; };
        EP e;
        bool truth = true;
        switch (c.choose(27)) {
            case 0: e = mk("neg", { hole() }); truth = false; break;
            case 1: e = h2("+"); truth = false; break;
            case 2: e = h2("coalesce"); truth = false; break;
            case 3: e = h3("coalesce"); truth = false; break;
            case 4: e = h2("nullif"); truth = false; break;
            case 5: e = named("cast", "BIGINT", { hole() }); truth = false; break;
            case 6: { auto b = is(1); auto t = hole(); e = mk("searched", { b, t, hole() }); e->flag = true; truth = false; break; }
            case 7: { auto b = is(1); auto t = is(2); e = mk("searched", { b, num(7), t, hole() }); truth = false; break; }
            case 8: { auto a = hole(); auto b = hole(); e = mk("case", { a, b, num(7), hole() }); e->flag = true; truth = false; break; }
            case 9: { auto a = hole(); auto b = hole(); e = mk("case", { num(1), a, num(7), b, hole() }); truth = false; break; }
            case 10: e = named("call", "f", { hole() }); truth = false; break;
            case 11: { auto a = hole(); e = named("call", "g", { a, hole() }); truth = false; break; }
            case 12: e = mk("plus", { hole() }); truth = false; break;
            case 13: { auto a = text(); auto b = text(); e = mk("=", { mk("||", { a, b }), str("12") }); break; }
            case 14: e = h2("<"); break;
            case 15: { auto a = is(1); e = mk("and", { a, is(2) }); break; }
            case 16: { auto a = is(1); e = mk("or", { a, is(2) }); break; }
            case 17: e = mk("not", { is(1) }); break;
            case 18: e = mk("is_null", { hole() }); break;
            case 19: e = mk("is_not_true", { is(2) }); break;
            case 20: e = h3("between"); break;
            case 21: e = h3("not_between_sym"); break;
            case 22: e = h3("in"); break;
            case 23: e = withq(c.choose(2) ? "in_q" : "not_in_q", other(), { hole() }); break;
            case 24: e = withq("any", other(), { hole() }, "<"); break;
            case 25: { auto a = text(); e = mk("like", { a, text() }); break; }
            default: { auto a = text(); auto b = text(); e = mk("not_like", { a, b, text() }); break; }
        }
        if (q->group) q->items.push_back({ col("x") });
        auto value = [&] { auto v = truth ? mk("searched", { e, num(1), mk("not", { e }), num(0) }) : e; return v; };
        if (place == 0) q->items.push_back({ value(), "v" });
        else if (place == 1) { q->items.push_back({ named("agg", "COUNT"), "n" }); q->having = truth ? e : mk("is_not_null", { e }); }
        else if (place == 2 && (e->op == "neg" || e->op == "plus") && e->a[0]->op == "num") return; // a literal is no sort key
        else if (place == 2) { q->items.push_back({ named("agg", "COUNT"), "n" }); q->order.push_back({ value() }); }
        else if (place == 3) { q->items = { { value(), "v" } }; q->distinct = true; }
        else q->items.push_back({ truth ? named("agg", "EVERY", { e }) : named("agg", "SUM", { e }), "v" });
        judge(w, *q, more);
    });
    l.leg(3, "misplaced", 3, 4, 3, [](Gen& g) { // an aggregate function, or a column which is no key, somewhere
        auto q = mkq();
        q->from.push_back(any_table(g));
        Gen::Scope s;
        s.here = Gen::columns_of(*q->from[0]);
        s.aggregate = true;
        auto agg = [&] { return g.aggregate(s, g.pick(7), 0); };
        int where = g.pick(11);
        auto star = [&] { Item i; i.star = true; if (g.pick(2)) i.qual = q->from[0]->name; return i; };
        bool grouped = g.pick(2);
        if (grouped) { q->group = true; int n = 1 + g.pick(2); for (int i = 0; i < n; ++i) q->keys.push_back(col(s.here[std::size_t(g.pick(2))].name)); }
        q->items.push_back({ grouped ? q->keys[0] : col(s.here[0].name) });
        switch (where) {
            case 0: q->where = mk("=", { agg(), num(1) }); break;
            case 1: q->keys.push_back(agg()); q->group = true; break;
            case 2: q->items.push_back({ named("agg", "SUM", { agg() }) }); break;
            case 3: q->items = { star(), { agg() } }; break;
            case 4: q->items = { star() }; if (g.pick(2)) q->items.push_back(star()); break;
            case 5: q->from = { join("inner", q->from[0], ref::table("c", "k"), mk("=", { agg(), num(1) })) }; q->items = { { agg() } }; break;
            case 6: q->order.push_back({ agg() }); break;
            case 7: q->having = mk("=", { g.integer(s, 1, false), num(1) }); break;
            case 8: q->items = { { agg() }, { g.integer(s, 1, false) } }; break;
            case 9: { auto sub = mkq(); sub->from.push_back(ref::table("c", "k")); sub->items.push_back({ num(1) }); sub->where = mk("=", { col(s.here[0].name, q->from[0]->name), col(s.here[1].name, q->from[0]->name) }); q->items.push_back({ mk("searched", { withq("exists", sub), num(1) }) }); q->items.push_back({ agg() }); break; }
            default: q->order.push_back({ col(s.here[std::size_t(g.pick(2))].name) }); q->items = { { agg() } }; break;
        }
        return q;
    });
    auto filter = [](Gen& g, int kind) {
        auto q = mkq();
        q->from.push_back(any_table(g));
        Gen::Scope s;
        s.here = Gen::columns_of(*q->from[0]);
        static char const* const cmp[] { "=", "<>", "<", "<=", ">", ">=" };
        EP b;
        switch (kind) {
            case 0: b = withq("exists", g.subquery(s, 0)); break;
            case 1: { auto l = g.integer(s, 0); b = withq(g.pick(2) ? "not_in_q" : "in_q", g.subquery(s, 1), { l }); break; }
            case 2: { auto l = g.integer(s, 0); auto o = g.pick(6); auto k = g.pick(3); b = withq(k == 0 ? "any" : k == 1 ? "all" : "some", g.subquery(s, 1), { l }, cmp[o]); break; }
            default: { auto l = g.integer(s, 0); auto o = g.pick(6); b = mk(cmp[o], { l, withq("scalar", g.scalar_query(s)) }); }
        }
        int wrap = g.pick(6);
        if (wrap == 1) b = mk("not", { b });
        else if (wrap == 2) b = mk("is_unknown", { b });
        else if (wrap == 3) b = mk("and", { b, g.boolean(s, 1) });
        else if (wrap == 4) b = mk("or", { g.boolean(s, 1), b });
        q->where = b;
        if (wrap == 5) { q->where = nullptr; auto e = mk("searched", { b, num(1), mk("not", { b }), num(0) }); q->items.push_back({ e }); }
        Item i; i.star = true;
        q->items.push_back(i);
        return q;
    };
    l.leg(5, "exists", 3, 4, 3, [&](Gen& g) { return filter(g, 0); });
    l.leg(5, "in", 3, 4, 3, [&](Gen& g) { return filter(g, 1); });
    l.leg(5, "quantified", 3, 4, 3, [&](Gen& g) { return filter(g, 2); });
    l.leg(5, "scalar subquery", 3, 4, 3, [&](Gen& g) { return filter(g, 3); });
    l.leg(5, "subqueries which do not fit", 3, 4, 3, [](Gen& g) { // several columns, or names which are not in sight
        auto q = mkq();
        q->from.push_back(any_table(g));
        auto in = mkq();
        in->from.push_back(ref::table("c", "k"));
        int n = g.pick(3);
        static char const* const qual[] { "", "a", "b", "k", "d" };
        static char const* const name[] { "y", "x", "z", "w", "v" };
        auto any = [&] { return col(name[g.pick(5)], qual[g.pick(5)]); };
        for (int i = 0; i < n; ++i) in->items.push_back({ g.pick(2) ? any() : num(1) });
        if (!n) { Item i; i.star = true; in->items.push_back(i); }
        if (g.pick(2)) in->where = mk("=", { any(), any() });
        EP l = g.pick(2) ? any() : num(1);
        EP b;
        switch (g.pick(5)) {
            case 0: b = withq("in_q", in, { l }); break;
            case 1: b = withq("exists", in); break;
            case 2: b = withq("all", in, { l }, "<"); break;
            case 3: b = mk("=", { l, withq("scalar", in) }); break;
            default: b = withq("not_in_q", in, { l }); break;
        }
        if (g.pick(3) == 1) q->from.push_back(derived(in, "d"));
        else if (g.pick(3) == 1) { auto mid = mkq(); mid->from.push_back(ref::table("b", "m")); mid->items.push_back({ num(1) }); mid->where = b; b = withq("exists", mid); }
        q->where = b;
        q->items.push_back({ num(1) });
        return q;
    });
    l.leg(5, "subquery of a group", 2, 3, 3, [](Gen& g) {
        auto q = mkq();
        q->from.push_back(any_table(g));
        Gen::Scope s;
        s.here = Gen::columns_of(*q->from[0]);
        auto k = col(s.here[std::size_t(g.pick(2))].name);
        q->group = true;
        q->keys.push_back(k);
        s.grouped = true;
        s.keys.push_back(k);
        q->items.push_back({ k });
        if (g.pick(2)) q->items.push_back({ withq("scalar", g.scalar_query(s)) });
        else q->having = withq("exists", g.subquery(s, 0));
        return q;
    });
    l.leg(4, "derived", 4, 5, 3, [](Gen& g) {
        auto q = mkq();
        QP in = g.simple(1);
        int lim = g.pick(3);
        if (lim && in->kind == "select" && !in->distinct && !in->group) { // a total order, so that the limit is determined
            in->items.clear();
            auto t = in->from[0]->name;
            Gen::Scope s; s.here = Gen::columns_of(*in->from[0]);
            in->items.push_back({ col(s.here[0].name) });
            in->items.push_back({ col(s.here[1].name) });
            in->order.push_back({ col(s.here[0].name), lim == 1 ? 0 : 2 });
            in->order.push_back({ col(s.here[1].name), 2 });
            in->limit = 1;
        }
        auto names = g.pick(3);
        auto n = Gen::width(*in);
        q->from.push_back(derived(in, "d", names == 1 && n == 2 ? std::vector<std::string> {"m", "n"} : names == 2 ? std::vector<std::string> {"k"} : std::vector<std::string> {}));
        int second = g.pick(3);
        if (second == 1) q->from.push_back(g.from_item(0));
        else if (second == 2) q->from[0] = g.pick(2) ? join("left", q->from[0], ref::table("b"), mk("true")) : join("inner", ref::table("b"), q->from[0], mk("true"));
        Gen::Scope s;
        for (auto& f : q->from) { auto k = Gen::columns_of(*f); s.here.insert(s.here.end(), k.begin(), k.end()); }
        g.items(*q, s, 1, s.here.empty() ? 0 : g.pick(4));
        if (g.pick(2)) q->where = g.boolean(s, 1);
        return q;
    });
    l.leg(4, "widths", 4, 5, 3, [](Gen& g) { // numbers of columns which fit, or not
        auto some = [&](int n) {
            int form = g.pick(4);
            if (form == 3) { auto q = mkq("values"); q->rows.emplace_back(); for (int i = 0; i < n; ++i) q->rows[0].push_back(num(i + 1)); return q; }
            auto q = mkq();
            if (form == 1 && n >= 2) { q->from.push_back(any_table(g)); Item i; i.star = true; q->items.push_back(i); n -= 2; }
            else if (form == 2) q->from.push_back(ref::table("c"));
            else q->from.push_back(ref::table("a"));
            for (int i = 0; i < n; ++i) q->items.push_back({ form == 2 ? col(i % 2 ? "w" : "y") : num(i) });
            return q;
        };
        int n = 1 + g.pick(3), m = 1 + g.pick(3);
        int kind = g.pick(5);
        if (kind < 3) { static char const* const ops[] { "UNION", "EXCEPT", "INTERSECT" }; auto q = mkq("setop"); q->op = ops[kind]; q->quant = g.pick(3); q->l = some(n); q->r = some(m); return q; }
        static char const* const names[] { "p", "q", "r" };
        std::vector<std::string> cols;
        bool twice = g.pick(2);
        for (int i = 0; i < m; ++i) cols.push_back(twice ? "p" : names[i]);
        auto q = mkq();
        Item i; i.star = true;
        q->items.push_back(i);
        if (kind == 3) { q->from.push_back(derived(some(n), "d", cols)); return q; }
        auto w = mkq("with");
        w->with.push_back({ "d", cols, some(n) });
        if (g.pick(2)) w->with.push_back({ g.pick(2) ? "d" : "e", {}, some(m) });
        q->from.push_back(ref::table("d"));
        w->l = q;
        return w;
    });
    l.leg(4, "with", 4, 5, 3, [](Gen& g) {
        auto q = mkq("with");
        int n = 1 + g.pick(2);
        static char const* const names[] { "p", "b" }; // the second hides a table
        for (int i = 0; i < n; ++i) {
            With e;
            e.name = names[i];
            if (i == 1 && g.pick(2)) { e.q = mkq(); e.q->from.push_back(ref::table("p")); Item s; s.star = true; e.q->items.push_back(s); if (g.pick(2)) e.q->from.push_back(any_table(g)); }
            else e.q = g.simple(1);
            auto k = Gen::output_of(*e.q);
            if (g.pick(2) && k.size() == 2) { e.cols = { "m", "n" }; k[0].name = "m"; k[1].name = "n"; }
            Gen::commons()[e.name] = k;
            q->with.push_back(e);
        }
        q->l = mkq();
        int body = g.pick(5);
        auto& f = q->l->from;
        f.push_back(ref::table("p"));
        if (body == 1) f.push_back(ref::table("p", "p2"));
        else if (body == 2) f[0] = ref::table("b");
        else if (body == 3) f[0] = join("left", ref::table("p"), ref::table("b"), mk("true"));
        Gen::Scope s;
        for (auto& x : f) { auto k = Gen::columns_of(*x); s.here.insert(s.here.end(), k.begin(), k.end()); }
        g.items(*q->l, s, 1, s.here.empty() ? 0 : g.pick(3));
        if (body == 4) { // used in a subquery
            auto sub = mkq(); sub->from.push_back(ref::table("p", "p3")); Item i; i.star = true; sub->items.push_back(i);
            q->l->from[0] = any_table(g);
            q->l->items.clear();
            q->l->items.push_back(i);
            q->l->where = withq("exists", sub);
        }
        if (g.pick(2) && !s.here.empty() && body != 4) q->l->where = g.boolean(s, 1);
        return q;
    });
    l.leg(4, "with inside", 4, 5, 3, [](Gen& g) { // a WITH query as a subquery: its bodies see nothing of the outside
        auto q = mkq();
        q->from.push_back(any_table(g));
        Gen::Scope s;
        s.here = Gen::columns_of(*q->from[0]);
        auto w = mkq("with");
        With e;
        e.name = g.pick(2) ? "b" : "p";
        e.q = mkq();
        e.q->from.push_back(ref::table("b"));
        static char const* const name[] { "z", "x", "y", "w" };
        static char const* const qual[] { "", "a", "b", "p" };
        auto any = [&] { auto n = name[g.pick(4)]; return col(n, qual[g.pick(4)]); };
        e.q->items.push_back({ any(), g.pick(2) ? "z" : "" });
        if (g.pick(2)) e.q->where = mk("=", { col("z"), any() });
        int second = g.pick(4);
        w->with.push_back(e);
        if (second == 1) { With f; f.name = "k"; f.q = mkq(); f.q->from.push_back(ref::table(e.name, "i")); f.q->items.push_back({ any() }); w->with.push_back(f); }
        w->l = mkq();
        auto& in = *w->l;
        in.from.push_back(ref::table(second == 1 ? "k" : e.name, second == 2 ? "k" : ""));
        if (second == 3) in.from.push_back(ref::table("c", "k"));
        int body = g.pick(3);
        if (body == 0) { Item i; i.star = true; in.items.push_back(i); }
        else in.items.push_back({ any() });
        if (g.pick(2)) in.where = mk("=", { any(), any() });
        Item star;
        star.star = true;
        switch (g.pick(5)) {
            case 0: q->where = withq("exists", w); break;
            case 1: q->where = withq("in_q", w, { col(s.here[0].name) }); break;
            case 2: q->from.push_back(derived(w, "d")); break;
            case 3: q->items.push_back({ withq("scalar", w) }); break;
            default: { // one more level
                auto mid = mkq();
                mid->from.push_back(ref::table("c", "m"));
                mid->items.push_back({ num(1) });
                mid->where = withq("exists", w);
                q->where = withq("exists", mid);
            }
        }
        q->items.push_back(star);
        return q;
    });
    l.leg(2, "apply", 4, 5, 3, [](Gen& g) {
        auto q = mkq();
        q->from.push_back(g.apply_item(1));
        if (g.pick(3) == 1) q->from.push_back(ref::table("b", "t"));
        Gen::Scope s;
        for (auto& f : q->from) { auto k = Gen::columns_of(*f); s.here.insert(s.here.end(), k.begin(), k.end()); }
        g.items(*q, s, 1, g.pick(4));
        if (g.pick(2)) q->where = g.boolean(s, 1, false);
        return q;
    });
    l.leg(4, "values", 4, 5, 3, [](Gen& g) {
        auto q = mkq("values");
        int rows = 1 + g.pick(3), cols = 1 + g.pick(3);
        Gen::Scope s;
        for (int i = 0; i < rows; ++i) { q->rows.emplace_back(); for (int j = 0; j < cols; ++j) q->rows.back().push_back(g.integer(s, 1)); }
        return q;
    });
}

} // namespace

int main(int argc, char** argv) { return harness_main(argc, argv, check); }
