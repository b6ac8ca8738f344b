// The catalog of the query checks, its functions, and all small states of its tables.
#pragma once
#include "an_env.h"
#include "sqlgen.h"

namespace an {

enum : std::size_t { COUNT0 = builtin + 1, COUNT1, SUM1, MIN1, MAX1, DCOUNT1, DSUM1, EVERY1, RNG, PAIRS, F1, F2 };

struct World : Env {
    plan::Db base; // functions only
    ref::Catalog cat;
    sql_analyzer_options opt { {}, {}, {} };
    World() {
        auto& s = schema("pub");
        for (auto& t : gen::tables()) {
            std::vector<Column> cs;
            ref::TableDef d { "pub", t.name, {}, t.name };
            for (auto& k : t.cols) { cs.push_back({ k.name }); d.cols.push_back(k.name); }
            cs.insert(cs.begin() + std::ptrdiff_t(t.hidden), { t.hidden_name, int8(), true, 'h' });
            d.cols.insert(d.cols.begin() + std::ptrdiff_t(t.hidden), "");
            s.table(t.name, cs);
            cat.tables.push_back(d);
        }
        cat.path = { "pub" };
        using V = plan::Val;
        auto agg = [&](std::size_t id, std::string name, std::size_t args, std::function<V(plan::Rows const&)> f, bool distinct = false) {
            std::vector<Type> ps(args, int8());
            s.aggregate(id, distinct ? name + "$distinct" : name, int8(), ps);
            if (!distinct) { std::string up; for (char ch : name) up += char(ch - 'a' + 'A'); cat.aggs[up + "/" + std::to_string(args)] = f; cat.aggs[name + "/" + std::to_string(args)] = f; }
            base.aggregates[id] = distinct ? [f](plan::Rows const& r) { std::set<plan::Row> u(r.begin(), r.end()); return f(plan::Rows(u.begin(), u.end())); } : f;
        };
        auto count0 = [](plan::Rows const& r) { return V::integer(std::int64_t(r.size())); };
        auto count1 = [](plan::Rows const& r) { std::int64_t n = 0; for (auto& x : r) if (!x[0].is_null()) ++n; return V::integer(n); };
        auto sum = [](plan::Rows const& r) { V v; for (auto& x : r) if (!x[0].is_null()) v = V::integer(v.i + x[0].i); return v; };
        auto minmax = [](int d) { return [d](plan::Rows const& r) { V v; for (auto& x : r) if (!x[0].is_null() && (v.is_null() || (x[0].i - v.i) * d > 0)) v = x[0]; return v; }; };
        agg(COUNT0, "count", 0, count0);
        agg(COUNT1, "count", 1, count1);
        agg(SUM1, "sum", 1, sum);
        agg(MIN1, "min", 1, minmax(-1));
        agg(MAX1, "max", 1, minmax(1));
        agg(DCOUNT1, "count", 1, count1, true);
        agg(DSUM1, "sum", 1, sum, true);
        auto every = [](plan::Rows const& r) { V v; for (auto& x : r) if (!x[0].is_null() && (v.is_null() || v.i)) v = x[0]; return v; };
        s.aggregate(EVERY1, "every", boolean(), { boolean() });
        cat.aggs["EVERY/1"] = every;
        base.aggregates[EVERY1] = every;
        s.table_function(RNG, "rng", { { "v" } }, { int8() });
        s.table_function(PAIRS, "pairs", { { "p" }, { "q" } }, { int8(), int8() });
        cat.tvfs["rng"] = { { "v" }, RNG, 1 };
        cat.tvfs["pairs"] = { { "p", "q" }, PAIRS, 2 };
        base.table_functions[RNG] = [](plan::Row const& a) { plan::Rows r; if (!a[0].is_null()) for (std::int64_t i = 1; i <= a[0].i && i <= 3; ++i) r.push_back({ V::integer(i) }); return r; };
        base.table_functions[PAIRS] = [](plan::Row const& a) { plan::Rows r; if (!a[0].is_null()) { r.push_back({ a[0], a[1] }); r.push_back({ a[1], V {} }); } return r; };
        s.function(F1, "f", int8(), { int8() });
        s.function(F2, "g", int8(), { int8(), int8() });
        base.functions[F1] = [](plan::Row const& a) { return a[0].is_null() ? a[0] : V::integer(a[0].i + 10); };
        base.functions[F2] = [](plan::Row const& a) { return a[0].is_null() || a[1].is_null() ? V {} : V::integer(a[0].i * 10 + a[1].i); };
        cat.functions["f/1"] = base.functions[F1];
        cat.functions["g/2"] = base.functions[F2];
        opt = options();
        opt.lowercase_function_regular_identifiers() = true; // COUNT and count are one function
        opt.allow_context_independent_null() = true;
        opt.validate_scalar_expressions() = true;
    }
};
inline World& world() { static World w; return w; }

/// every multiset of at most `rows` rows over NULL, 1, 2
inline std::vector<plan::Rows> states(int rows) {
    std::vector<plan::Val> v { {}, plan::Val::integer(1), plan::Val::integer(2) };
    plan::Rows all;
    for (auto& x : v) for (auto& y : v) all.push_back({ x, y });
    std::vector<plan::Rows> r;
    std::function<void(std::size_t, plan::Rows)> go = [&](std::size_t from, plan::Rows s) {
        r.push_back(s);
        if (int(s.size()) == rows) return;
        for (std::size_t i = from; i < all.size(); ++i) { auto n = s; n.push_back(all[i]); go(i, n); }
    };
    go(0, {});
    std::stable_sort(r.begin(), r.end(), [](auto& a, auto& b) { return a.size() < b.size(); });
    return r;
}
/// states which tell operators apart: empty, NULLs, duplicates, matches and misses
inline std::vector<plan::Rows> const& telling() {
    static std::vector<plan::Rows> r = [] {
        plan::Val n, i = plan::Val::integer(1), j = plan::Val::integer(2);
        return std::vector<plan::Rows> {
            { { i, j }, { j, i } }, { { i, i }, { n, j } }, {}, { { j, n }, { j, n } }, { { n, n }, { i, j } }, { { j, j } }, { { i, i }, { i, j } }, { { j, n }, { i, n } },
            { { i, n } }, { { n, i } }, { { i, j }, { i, j } }, { { n, n } }, { { j, i }, { j, j } }, { { i, i }, { j, j } },
        };
    }();
    return r;
}

inline void used(ref::Q const& q, std::set<std::string>& out);
inline void used(ref::E const& e, std::set<std::string>& out) { for (auto& a : e.a) used(*a, out); if (e.q) used(*e.q, out); }
inline void used(ref::F const& f, std::set<std::string>& out) {
    if (f.kind == "table") out.insert(f.name);
    if (f.q) used(*f.q, out);
    if (f.l) used(*f.l, out);
    if (f.r) used(*f.r, out);
    if (f.on) used(*f.on, out);
    for (auto& a : f.args) used(*a, out);
}
inline void used(ref::Q const& q, std::set<std::string>& out) {
    if (q.kind == "table") out.insert(q.name);
    for (auto& i : q.items) if (i.e) used(*i.e, out);
    for (auto& f : q.from) used(*f, out);
    if (q.where) used(*q.where, out);
    if (q.having) used(*q.having, out);
    for (auto& k : q.keys) used(*k, out);
    for (auto& k : q.order) used(*k.e, out);
    for (auto& r : q.rows) for (auto& e : r) used(*e, out);
    if (q.l) used(*q.l, out);
    if (q.r) used(*q.r, out);
    for (auto& w : q.with) used(*w.q, out);
}

/// the databases to run a query on: all combinations of states of the tables which it reads
template<class F> void databases(std::set<std::string> const& names, bool thorough, F&& f) {
    std::vector<std::string> t;
    for (auto& g : gen::tables()) if (names.count(g.name)) t.push_back(g.name);
    static std::vector<plan::Rows> const two = states(2), three = states(3);
    std::vector<plan::Rows> const* pool = &telling();
    std::size_t n = pool->size();
    if (t.size() <= 1) { pool = thorough ? &three : &two; n = pool->size(); }
    else if (t.size() == 2) { if (thorough) { pool = &two; n = pool->size(); } else n = 8; }
    else n = thorough ? 9 : 4;
    plan::Db db = world().base;
    std::vector<std::size_t> i(t.size());
    for (;;) {
        for (std::size_t k = 0; k < t.size(); ++k) {
            auto& rows = db.tables[t[k]] = (*pool)[i[k]];
            for (auto& g : gen::tables()) if (g.name == t[k]) for (auto& row : rows) row.insert(row.begin() + std::ptrdiff_t(g.hidden), plan::Val::integer(2));
        }
        if (!f(db)) return;
        std::size_t k = 0;
        while (k < t.size() && ++i[k] == n) i[k++] = 0;
        if (k == t.size()) return;
    }
}

} // namespace an
