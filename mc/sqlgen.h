// Enumerates queries of the reference syntax: every choice 0 gives the simplest form, deviations add the
// features one by one.
#pragma once
#include "choice.h"
#include "sqlref.h"

namespace gen {
using namespace ref;
using mc::Chooser;

struct Col { std::string qual, name; char type = 'i'; }; // i: integer, b: boolean, s: string
using Cols = std::vector<Col>;

struct Table { std::string name; Cols cols; std::size_t hidden; std::string hidden_name; }; // the table has one more column, which queries do not see
inline std::vector<Table> const& tables() {
    static std::vector<Table> const t {
        {"a", {{"a", "x"}, {"a", "y"}}, 1, "z"},
        {"b", {{"b", "x"}, {"b", "z"}}, 0, "y"},
        {"c", {{"c", "y"}, {"c", "w"}}, 2, "x"},
    };
    return t;
}

class Gen {
public:
    Chooser& c;
    explicit Gen(Chooser& ch) : c(ch) {}
    int aliases = 0;
    bool aggregates_seen = false;
    int nested_limit = 0;

    int pick(int n) { return c.choose(n); }

    // ---- columns which a FROM item gives
    static Cols columns_of(F const& f) {
        Cols r;
        if (f.kind == "table" || f.kind == "derived" || f.kind == "apply") {
            if (f.kind == "apply") r = columns_of(*f.l);
            Cols mine;
            if (f.kind == "table") { auto n = common_columns(f.name); if (n) mine = *n; else for (auto& t : tables()) if (t.name == f.name) mine = t.cols; }
            else if (f.kind == "derived") mine = output_of(*f.q);
            else mine = f.name == "pairs" ? Cols {{"", "p"}, {"", "q"}} : Cols {{"", "v"}};
            for (std::size_t i = 0; i < mine.size(); ++i) { mine[i].qual = f.alias.empty() ? f.name : f.alias; if (i < f.cols.size()) mine[i].name = f.cols[i]; }
            if (!f.cols.empty()) mine.resize(std::min(mine.size(), f.cols.size()));
            for (auto& m : mine) if (!m.name.empty()) r.push_back(m);
            return r;
        }
        r = columns_of(*f.l);
        for (auto& k : columns_of(*f.r)) { bool hidden = false; for (auto& u : f.use) if (u == k.name) hidden = true; if (!hidden) r.push_back(k); }
        // a common column has no qualifier
        for (auto& k : r) for (auto& u : f.use) if (u == k.name) k.qual.clear();
        return r;
    }
    static Cols output_of(Q const& q) {
        Cols r;
        if (q.kind == "setop") return output_of(*q.l);
        if (q.kind == "with") return output_of(*q.l);
        if (q.kind == "values") { r.resize(q.rows[0].size()); return r; }
        if (q.kind == "table") { for (auto& t : tables()) if (t.name == q.name) r = t.cols; return r; }
        Cols in;
        for (auto& f : q.from) { auto k = columns_of(*f); in.insert(in.end(), k.begin(), k.end()); }
        for (auto& i : q.items) {
            if (i.star) { for (auto& k : in) if (i.qual.empty() || i.qual == k.qual) r.push_back(k); continue; }
            r.push_back({"", !i.alias.empty() ? i.alias : i.e->op == "col" ? i.e->name : std::string(), 'i'});
        }
        return r;
    }
    static std::map<std::string, Cols>& commons() { static thread_local std::map<std::string, Cols> m; return m; }
    static Cols const* common_columns(std::string const& n) { auto it = commons().find(n); return it == commons().end() ? nullptr : &it->second; }

    /// the shortest reference which is not ambiguous
    static EP refer(Cols const& scope, std::size_t i) {
        int same = 0;
        for (auto& k : scope) if (k.name == scope[i].name) ++same;
        return col(scope[i].name, same > 1 ? scope[i].qual : "");
    }
    /// columns which can be referred: of this level, and of the outer ones which they do not hide
    struct Scope {
        Cols here;
        std::vector<Cols> outer; // innermost first
        bool grouped = false;
        std::vector<EP> keys;    // what can be used where the query is grouped
        bool aggregate = false;  // an aggregate function may be used
    };
    std::vector<EP> candidates(Scope const& s) {
        std::vector<EP> r;
        if (s.grouped) r = s.keys;
        else for (std::size_t i = 0; i < s.here.size(); ++i) r.push_back(refer(s.here, i));
        Cols seen = s.here;
        for (auto& o : s.outer) {
            for (std::size_t i = 0; i < o.size(); ++i) {
                bool hidden_name = false, hidden_qual = false;
                for (auto& k : seen) { if (k.name == o[i].name) hidden_name = true; if (k.qual == o[i].qual) hidden_qual = true; }
                int same = 0;
                for (auto& k : o) if (k.name == o[i].name) ++same;
                if (!hidden_name && same == 1) r.push_back(col(o[i].name));
                else if (!hidden_qual && !o[i].qual.empty()) r.push_back(col(o[i].name, o[i].qual));
            }
            seen.insert(seen.end(), o.begin(), o.end());
        }
        return r;
    }

    // ---- scalar expressions
    EP integer(Scope const& s, int depth, bool deep = true) {
        auto k = candidates(s);
        int leaves = int(k.size()) + 3;
        int more = depth > 0 ? (deep ? 9 : 4) : 0;
        int agg = s.aggregate ? 7 : 0;
        int v = pick(leaves + agg + more);
        if (k.empty()) v = v == 0 ? 0 : v; // a literal comes first
        if (v < int(k.size())) return k[std::size_t(v)];
        v -= int(k.size());
        if (v == 0) return num(1);
        if (v == 1) return num(2);
        if (v == 2) { auto e = named("cast", "BIGINT", { mk("null") }); return e; }
        v -= 3;
        if (v < agg) return aggregate(s, v, depth);
        v -= agg;
        auto sub = [&] { return integer(s, depth - 1, false); };
        switch (v) {
            case 0: return mk("+", { sub(), sub() });
            case 1: { auto a = boolean(s, depth - 1, false); auto e = mk("searched", { a, sub(), sub() }); e->flag = true; return e; }
            case 2: return mk("neg", { sub() });
            case 3: return mk("coalesce", { sub(), sub() });
            case 4: return mk("-", { sub(), sub() });
            case 5: return mk("*", { sub(), sub() });
            case 6: { auto e = mk("case", { sub(), sub(), sub() }); e->flag = pick(2) == 1; if (e->flag) e->a.push_back(sub()); return e; }
            case 7: return mk("nullif", { sub(), sub() });
            default: { auto q = scalar_query(s); return withq("scalar", q); }
        }
    }
    EP aggregate(Scope const& s, int v, int depth) {
        aggregates_seen = true;
        Scope in = s;
        in.grouped = false;
        in.aggregate = false;
        in.outer.clear();
        switch (v) {
            case 0: return named("agg", "COUNT");
            case 1: return named("agg", "SUM", { integer(in, std::min(depth, 1), false) });
            case 2: return named("agg", "COUNT", { integer(in, std::min(depth, 1), false) });
            case 3: return named("agg", "MIN", { integer(in, std::min(depth, 1), false) });
            case 4: return named("agg", "MAX", { integer(in, std::min(depth, 1), false) });
            case 5: return named("agg", "COUNT", { integer(in, std::min(depth, 1), false) }, true);
            default: return named("agg", "SUM", { integer(in, std::min(depth, 1), false) }, true);
        }
    }
    EP boolean(Scope const& s, int depth, bool deep = true) {
        static char const* const cmp[] { "=", "<>", "<", "<=", ">", ">=" };
        int more = depth > 0 ? (deep ? 14 : 4) : 0;
        int v = pick(2 + more + (s.aggregate ? 1 : 0));
        if (v == 2 + more) { // a condition over all rows of the group
            aggregates_seen = true;
            Scope in = s;
            in.grouped = false;
            in.aggregate = false;
            in.outer.clear();
            return named("agg", "EVERY", { boolean(in, 0) });
        }
        auto i = [&] { return integer(s, depth > 1 ? depth - 1 : 0, false); };
        auto b = [&] { return boolean(s, depth - 1, false); };
        if (v == 0) { auto o = pick(6); auto l = i(); return mk(cmp[o], { l, i() }); }
        if (v == 1) { auto l = i(); return mk(pick(2) ? "is_not_null" : "is_null", { l }); }
        switch (v - 2) {
            case 0: { auto l = b(); return mk("and", { l, b() }); }
            case 1: { auto l = b(); return mk("or", { l, b() }); }
            case 2: return mk("not", { b() });
            case 3: { auto q = subquery(s, 0); return withq("exists", q); }
            case 4: { static char const* const k[] { "is_true", "is_not_true", "is_false", "is_not_false", "is_unknown", "is_not_unknown" }; auto o = pick(6); return mk(k[o], { b() }); }
            case 5: { static char const* const k[] { "between", "not_between", "between_sym", "not_between_sym", "between_asym" }; auto o = pick(5); auto l = i(); auto m = i(); return mk(k[o], { l, m, i() }); }
            case 6: { auto o = pick(2); auto l = i(); auto m = i(); std::vector<EP> a { l, m }; int n = pick(3); for (int j = 0; j < n; ++j) a.push_back(i()); return mk(o ? "not_in" : "in", a); }
            case 7: { auto l = i(); auto q = subquery(s, 1); return withq("in_q", q, { l }); }
            case 8: { auto l = i(); auto q = subquery(s, 1); return withq("not_in_q", q, { l }); }
            case 9: { auto o = pick(6); auto l = i(); auto q = subquery(s, 1); return withq("any", q, { l }, cmp[o]); }
            case 10: { auto o = pick(6); auto l = i(); auto q = subquery(s, 1); return withq("all", q, { l }, cmp[o]); }
            case 11: return mk(pick(2) ? "false" : "true");
            case 12: { auto q = subquery(s, 0); return mk("not", { withq("exists", q) }); }
            default: { auto l = b(); auto r = b(); return mk(pick(2) ? "<>" : "=", { l, r }); }
        }
    }

    // ---- subqueries
    int depth_of_queries = 0;
    Scope inner(Scope const& s) { Scope n; n.outer = s.outer; Cols h; if (s.grouped) { for (auto& k : s.keys) h.push_back({k->qual, k->name}); } else h = s.here; n.outer.insert(n.outer.begin(), h); return n; }
    /// a query of one column (width 1), or of any
    QP subquery(Scope const& outer, int width) {
        ++depth_of_queries;
        auto q = mkq();
        static char const* const first[] { "b", "c", "a" };
        int t = pick(depth_of_queries > 2 ? 2 : 4);
        Scope s = inner(outer);
        if (t == 3) { q->from.push_back(from_item(1)); }
        else q->from.push_back(ref::table(first[t], depth_of_queries > 1 || pick(2) ? "s" + std::to_string(depth_of_queries) : ""));
        s.here = columns_of(*q->from[0]);
        bool agg = pick(8) == 7;
        int where = pick(3); // correlated, none, any
        if (s.here.empty()) where = 1;
        if (where == 0) {
            auto k = candidates(s);
            std::size_t n = s.here.size();
            std::size_t o = k.size() > n ? n + std::size_t(pick(int(k.size() - n))) : 0;
            auto l = std::size_t(pick(int(n)));
            q->where = mk("=", { k[l], k[o] });
        } else if (where == 2) q->where = boolean(s, depth_of_queries > 1 ? 0 : 2, depth_of_queries <= 1);
        if (agg) { s.aggregate = true; s.grouped = true; s.keys.clear(); auto saved = s.outer; q->items.push_back({ aggregate(s, pick(7), 0) }); }
        else if (width == 0) { Item i; int v = pick(3); if (v == 0) i.e = num(1); else if (v == 1) i.star = true; else if (s.here.empty()) i.e = num(2); else i.e = candidates(s)[0]; q->items.push_back(i); }
        else q->items.push_back({ integer(s, depth_of_queries > 1 ? 0 : 1, false) });
        if (!agg && pick(6) == 5) q->distinct = true;
        --depth_of_queries;
        return q;
    }
    QP scalar_query(Scope const& s) {
        // with an aggregate first, so that there is one row
        auto q = subquery(s, 1);
        return q;
    }

    // ---- FROM
    std::string fresh() { return "t" + std::to_string(++aliases); }
    FP from_item(int depth) {
        int v = pick(depth > 0 ? 8 : 3);
        static char const* const first[] { "a", "b", "c" };
        if (v < 3) return ref::table(first[v]);
        switch (v - 3) {
            case 0: return ref::table(first[pick(3)], fresh());
            case 1: { auto n = fresh(); return ref::table(first[pick(3)], n, pick(2) ? std::vector<std::string> {"m", "n"} : std::vector<std::string> {"n", "x"}); }
            case 2: { auto q = simple(depth - 1); auto n = fresh(); return derived(q, n, pick(3) == 1 && width(*q) == 2 ? std::vector<std::string> {"m", "n"} : std::vector<std::string> {}); }
            case 3: return join_item(depth);
            default: return apply_item(depth);
        }
    }
    static std::size_t width(Q const& q) {
        if (q.kind == "values") return q.rows[0].size();
        return output_of(q).size();
    }
    FP apply_item(int depth) {
        auto l = ref::table(tables()[std::size_t(pick(3))].name);
        bool outer = pick(2);
        bool pairs = pick(2);
        Scope s;
        s.here = columns_of(*l);
        auto e = integer(s, depth > 0 ? 1 : 0, false);
        std::vector<EP> args { e };
        if (pairs) args.push_back(integer(s, 0));
        int cols = pick(3);
        return ref::apply(outer, l, pairs ? "pairs" : "rng", args, "f" + std::to_string(++aliases), cols == 0 ? std::vector<std::string> {} : cols == 1 ? std::vector<std::string> {"k"} : pairs ? std::vector<std::string> {"k", "l"} : std::vector<std::string> {"x"});
    }
    static bool named_twice(Cols const& k, std::string const& n) { int i = 0; for (auto& x : k) if (x.name == n) ++i; return i != 1; }
    FP join_item(int depth, bool first = true) {
        static char const* const kinds[] { "inner", "left", "right", "full", "", "cross" };
        static char const* const lt[] { "a", "b", "c" };
        static char const* const rt[] { "b", "c", "a" };
        FP l, r;
        int shape = depth > 0 && first ? pick(5) : 0;
        int lk = 0;
        if (shape == 1) l = join_item(0, false);
        else if (shape == 3) l = from_item(depth - 1);
        else { lk = pick(3); l = ref::table(lt[lk]); }
        if (shape == 2) r = join_item(0, false);
        else if (shape == 4) r = from_item(depth - 1);
        else {
            std::string n;
            if (shape == 1) { static char const* const third[] { "c", "a", "b" }; n = third[pick(3)]; } else n = rt[pick(3)];
            r = ref::table(n);
        }
        // one name for one relation
        std::set<std::string> used;
        auto rename = [&](auto&& self, FP f) -> void {
            if (f->kind == "join") { self(self, f->l); self(self, f->r); return; }
            if (f->kind == "apply") { self(self, f->l); }
            auto n = f->alias.empty() ? f->name : f->alias;
            if (!used.insert(n).second) f->alias = fresh();
        };
        rename(rename, l);
        rename(rename, r);
        std::string kind = kinds[pick(6)];
        if (kind == "cross") return join(kind, l, r);
        // condition: USING a common column, or ON
        auto lc = columns_of(*l), rc = columns_of(*r);
        std::vector<std::string> common;
        for (auto& k : lc) if (!named_twice(lc, k.name) && !named_twice(rc, k.name)) common.push_back(k.name);
        int form = pick(common.empty() ? 4 : 5);
        if (lc.empty() || rc.empty()) form = 2;
        Scope s;
        s.here = lc;
        s.here.insert(s.here.end(), rc.begin(), rc.end());
        if (form == 4) {
            std::vector<std::string> use { common[std::size_t(pick(int(common.size())))] };
            if (common.size() > 1 && pick(2)) use.insert(use.begin() + pick(2), common[use[0] == common[0] ? 1 : 0]);
            return join(kind, l, r, {}, use);
        }
        auto k = candidates(s);
        EP on;
        if (form == 0) { int i = pick(int(lc.size())), j = pick(int(rc.size())); on = mk("=", { k[std::size_t(i)], k[lc.size() + std::size_t(j)] }); }
        else if (form == 1) { int i = pick(int(lc.size())), j = pick(int(rc.size())); auto e = mk("=", { k[std::size_t(i)], k[lc.size() + std::size_t(j)] }); on = mk("and", { e, mk("=", { k[std::size_t(pick(int(k.size())))], num(1) }) }); }
        else if (form == 2) on = mk(pick(2) ? "false" : "true");
        else on = boolean(s, first && depth > 0 ? 2 : 1, first && depth > 0);
        return join(kind, l, r, on);
    }

    /// a query of two columns, or so
    QP simple(int depth) {
        int v = pick(6);
        auto q = mkq();
        if (v == 5) {
            q = mkq("values");
            int rows = 1 + pick(2);
            for (int i = 0; i < rows; ++i) q->rows.push_back({ num(1 + i), pick(2) ? num(2) : named("cast", "BIGINT", { mk("null") }) });
            return q;
        }
        if (v == 4) {
            q = mkq("table");
            q->name = tables()[std::size_t(pick(3))].name;
            return q;
        }
        auto t = tables()[std::size_t(pick(3))];
        q->from.push_back(ref::table(t.name));
        Scope s;
        s.here = t.cols;
        if (v == 0) { Item i; i.star = true; q->items.push_back(i); }
        else if (v == 1) { q->items.push_back({ integer(s, 1), "m" }); q->items.push_back({ integer(s, 0), "" }); }
        else if (v == 2) { q->group = true; q->keys.push_back(col(t.cols[0].name)); s.grouped = true; s.keys = q->keys; s.aggregate = true; q->items.push_back({ q->keys[0], "" }); q->items.push_back({ aggregate(s, pick(7), 0), "m" }); }
        else { q->items.push_back({ col(t.cols[0].name), "" }); q->items.push_back({ col(t.cols[1].name), "" }); q->distinct = true; }
        if (pick(3) == 1) { Scope w; w.here = t.cols; q->where = boolean(w, depth > 0 ? 1 : 0); }
        return q;
    }

    // ---- the parts after FROM
    void items(Q& q, Scope& s, int depth, int shape) {
        // 0: star 1: one column 2: two columns 3: qualified star
        if (shape == 0) { Item i; i.star = true; q.items.push_back(i); return; }
        if (shape == 3 && s.here.empty()) shape = 1;
        if (shape == 3) { std::string n = q.from.empty() ? "" : s.here[std::size_t(pick(int(s.here.size())))].qual; Item i; i.star = true; i.qual = n; q.items.push_back(i); return; }
        for (int k = 0; k < shape; ++k) { Item i; i.e = integer(s, depth); if (pick(2)) i.alias = "r" + std::to_string(k); q.items.push_back(i); }
        if (pick(4) == 3) { Item i; i.star = true; q.items.push_back(i); }
    }
    void tail(Q& q, Scope& s, int depth) {
        int n = pick(4);
        if (q.distinct) {
            for (int k = 0; k < std::min(n, 1); ++k) for (auto& i : q.items) if (!i.star && i.e->op == "col") { q.order.push_back({ i.e, pick(3) }); break; }
        } else for (int k = 0; k < std::min(n, 2); ++k) {
            auto e = integer(s, k == 0 ? depth : 0);
            auto* bare = e.get();
            while (bare->op == "neg" || bare->op == "plus") bare = bare->a[0].get();
            if (bare->op == "num" || bare->op == "cast") continue;
            q.order.push_back({ e, pick(3) });
        }
        int l = pick(4);
        if (l) q.limit = l - 1;
    }
};

} // namespace gen
