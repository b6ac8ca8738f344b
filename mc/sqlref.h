// A reference for the meaning of SQL statements: its own small syntax tree, printed as SQL for the code
// under test, resolved and evaluated here directly (no relational algebra, no plan) from the SQL rules.
#pragma once
#include "plan.h"
#include <algorithm>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <vector>

namespace ref {
using plan::Val;
using plan::Row;
using plan::Rows;
using plan::Db;
using plan::NoValue;

/// the statement must be rejected, for this reason
struct Wrong : std::runtime_error { using runtime_error::runtime_error; };

struct E;
struct Q;
struct F;
using EP = std::shared_ptr<E>;
using QP = std::shared_ptr<Q>;
using FP = std::shared_ptr<F>;

struct E {
    // op: num str null true false col param neg plus + - * / || = <> < <= > >= and or not
    //     is_null is_not_null is_true is_not_true is_false is_not_false is_unknown is_not_unknown
    //     between not_between between_sym not_between_sym in not_in (a[0] and list) in_q not_in_q
    //     any all (name: comparison) exists scalar case searched nullif coalesce cast agg call like not_like
    std::string op;
    std::string name;     // column, function, comparison, type
    std::string qual;     // qualifier
    std::int64_t i = 0;
    bool flag = false;    // distinct, or: case has else
    std::vector<EP> a;
    QP q;
};
inline EP mk(std::string op, std::vector<EP> a = {}) { auto e = std::make_shared<E>(); e->op = std::move(op); e->a = std::move(a); return e; }
inline EP num(std::int64_t i) { auto e = mk("num"); e->i = i; return e; }
inline EP str(std::string s) { auto e = mk("str"); e->name = std::move(s); return e; }
inline EP col(std::string name, std::string qual = {}) { auto e = mk("col"); e->name = std::move(name); e->qual = std::move(qual); return e; }
inline EP named(std::string op, std::string name, std::vector<EP> a = {}, bool flag = false) { auto e = mk(std::move(op), std::move(a)); e->name = std::move(name); e->flag = flag; return e; }
inline EP withq(std::string op, QP q, std::vector<EP> a = {}, std::string name = {}) { auto e = mk(std::move(op), std::move(a)); e->q = std::move(q); e->name = std::move(name); return e; }

struct F {
    // kind: table derived join apply
    std::string kind = "table";
    std::string schema, name, alias;
    std::vector<std::string> cols;
    QP q;
    std::string join;               // cross inner left right full
    FP l, r;
    EP on;
    std::vector<std::string> use;
    std::vector<EP> args;           // apply
    bool outer = false;
};
inline FP table(std::string name, std::string alias = {}, std::vector<std::string> cols = {}) { auto f = std::make_shared<F>(); f->name = std::move(name); f->alias = std::move(alias); f->cols = std::move(cols); return f; }
inline FP derived(QP q, std::string alias, std::vector<std::string> cols = {}) { auto f = std::make_shared<F>(); f->kind = "derived"; f->q = std::move(q); f->alias = std::move(alias); f->cols = std::move(cols); return f; }
inline FP join(std::string kind, FP l, FP r, EP on = {}, std::vector<std::string> use = {}) { auto f = std::make_shared<F>(); f->kind = "join"; f->join = std::move(kind); f->l = std::move(l); f->r = std::move(r); f->on = std::move(on); f->use = std::move(use); return f; }
inline FP apply(bool outer, FP l, std::string fn, std::vector<EP> args, std::string alias, std::vector<std::string> cols = {}) {
    auto f = std::make_shared<F>(); f->kind = "apply"; f->outer = outer; f->l = std::move(l); f->name = std::move(fn); f->args = std::move(args); f->alias = std::move(alias); f->cols = std::move(cols); return f;
}

struct Item { EP e; std::string alias; bool star = false; std::string qual; };
struct Key { EP e; int dir = 0; }; // 0: none 1: ASC 2: DESC
struct With { std::string name; std::vector<std::string> cols; QP q; };
struct Q {
    std::string kind = "select"; // select setop values table with
    bool distinct = false, all_word = false;
    std::vector<Item> items;
    std::vector<FP> from;
    EP where, having;
    bool group = false;
    std::vector<EP> keys;
    std::vector<Key> order;
    std::optional<int> limit;
    // setop
    std::string op;      // UNION EXCEPT INTERSECT
    int quant = 0;       // 0: none 1: ALL 2: DISTINCT
    QP l, r;
    // values
    std::vector<std::vector<EP>> rows;
    // table
    std::string schema, name;
    std::vector<With> with;
};
inline QP mkq(std::string kind = "select") { auto q = std::make_shared<Q>(); q->kind = std::move(kind); return q; }

// ---- printing
std::string print(Q const& q);
inline std::string print(E const& e) {
    auto p = [&](std::size_t i) { auto& x = *e.a.at(i); std::string s = print(x);
        return x.op == "num" || x.op == "col" || x.op == "str" || x.op == "null" || x.op == "true" || x.op == "false" || x.op == "scalar" || x.op == "agg" || x.op == "call" || x.op == "param" || x.op == "coalesce" || x.op == "nullif" || x.op == "cast" ? s : "(" + s + ")"; };
    auto list = [&](std::size_t from) { std::string s; for (auto i = from; i < e.a.size(); ++i) s += (i > from ? ", " : "") + print(*e.a[i]); return s; };
    auto& o = e.op;
    if (o == "num") return std::to_string(e.i);
    if (o == "str") return "'" + e.name + "'";
    if (o == "null") return "NULL";
    if (o == "true") return "TRUE";
    if (o == "false") return "FALSE";
    if (o == "col") return e.qual.empty() ? e.name : e.qual + "." + e.name;
    if (o == "param") return ":" + e.name;
    if (o == "neg") return "-" + p(0);
    if (o == "plus") return "+" + p(0);
    if (o == "not") return "NOT " + p(0);
    if (o == "and" || o == "or") return p(0) + (o == "and" ? " AND " : " OR ") + p(1);
    if (o == "is_null") return p(0) + " IS NULL";
    if (o == "is_not_null") return p(0) + " IS NOT NULL";
    if (o == "is_true") return p(0) + " IS TRUE";
    if (o == "is_not_true") return p(0) + " IS NOT TRUE";
    if (o == "is_false") return p(0) + " IS FALSE";
    if (o == "is_not_false") return p(0) + " IS NOT FALSE";
    if (o == "is_unknown") return p(0) + " IS UNKNOWN";
    if (o == "is_not_unknown") return p(0) + " IS NOT UNKNOWN";
    if (o == "between" || o == "not_between" || o == "between_sym" || o == "not_between_sym" || o == "between_asym")
        return p(0) + (o.substr(0, 3) == "not" ? " NOT" : "") + " BETWEEN " + (o.find("_sym") != std::string::npos ? "SYMMETRIC " : o == "between_asym" ? "ASYMMETRIC " : "") + p(1) + " AND " + p(2);
    if (o == "in" || o == "not_in") return p(0) + (o == "in" ? " IN (" : " NOT IN (") + list(1) + ")";
    if (o == "in_q" || o == "not_in_q") return p(0) + (o == "in_q" ? " IN (" : " NOT IN (") + print(*e.q) + ")";
    if (o == "any" || o == "all" || o == "some") return p(0) + " " + e.name + (o == "any" ? " ANY (" : o == "some" ? " SOME (" : " ALL (") + print(*e.q) + ")";
    if (o == "exists") return "EXISTS (" + print(*e.q) + ")";
    if (o == "scalar") return "(" + print(*e.q) + ")";
    if (o == "searched" || o == "case") {
        std::string s = "CASE";
        std::size_t i = 0, n = e.a.size() - (e.flag ? 1 : 0);
        if (o == "case") s += " " + p(i++);
        for (; i + 1 < n; i += 2) s += " WHEN " + p(i) + " THEN " + p(i + 1);
        if (e.flag) s += " ELSE " + p(n);
        return s + " END";
    }
    if (o == "nullif") return "NULLIF(" + list(0) + ")";
    if (o == "coalesce") return "COALESCE(" + list(0) + ")";
    if (o == "cast") return "CAST(" + print(*e.a[0]) + " AS " + e.name + ")";
    if (o == "agg") return e.name + "(" + (e.a.empty() ? std::string("*") : (e.flag ? "DISTINCT " : "") + list(0)) + ")";
    if (o == "call") return e.name + "(" + list(0) + ")";
    if (o == "like" || o == "not_like") return p(0) + (o == "like" ? " LIKE " : " NOT LIKE ") + p(1) + (e.a.size() > 2 ? " ESCAPE " + p(2) : "");
    return p(0) + " " + o + " " + p(1);
}
inline std::string names(std::vector<std::string> const& v) { std::string s; for (auto& n : v) s += (s.empty() ? "" : ", ") + n; return s; }
inline std::string print(F const& f) {
    std::string tail = f.alias.empty() ? "" : " AS " + f.alias + (f.cols.empty() ? "" : "(" + names(f.cols) + ")");
    if (f.kind == "table") return (f.schema.empty() ? "" : f.schema + ".") + f.name + tail;
    if (f.kind == "derived") return "(" + print(*f.q) + ")" + tail;
    if (f.kind == "apply") {
        std::string a;
        for (auto& e : f.args) a += (a.empty() ? "" : ", ") + print(*e);
        return print(*f.l) + (f.outer ? " OUTER APPLY " : " CROSS APPLY ") + f.name + "(" + a + ")" + tail;
    }
    std::string r = print(*f.r);
    if (f.r->kind == "join" || f.r->kind == "apply") r = "(" + r + ")";
    static std::map<std::string, std::string> const words { {"cross", "CROSS JOIN"}, {"inner", "INNER JOIN"}, {"", "JOIN"}, {"left", "LEFT OUTER JOIN"}, {"right", "RIGHT OUTER JOIN"}, {"full", "FULL OUTER JOIN"} };
    return print(*f.l) + " " + words.at(f.join) + " " + r + (f.on ? " ON " + print(*f.on) : "") + (f.use.empty() ? "" : " USING (" + names(f.use) + ")");
}
inline std::string print(Q const& q) {
    auto list = [](std::vector<EP> const& v) { std::string s; for (auto& e : v) s += (s.empty() ? "" : ", ") + print(*e); return s; };
    if (q.kind == "setop") {
        auto side = [&](Q const& x) { return x.kind == "values" || (x.kind == "select" && x.order.empty() && !x.limit) ? print(x) : "(" + print(x) + ")"; };
        return side(*q.l) + " " + q.op + (q.quant == 1 ? " ALL" : q.quant == 2 ? " DISTINCT" : "") + " " + side(*q.r);
    }
    if (q.kind == "values") { std::string s = "VALUES "; bool first = true; for (auto& r : q.rows) { s += (first ? "(" : ", (") + list(r) + ")"; first = false; } return s; }
    if (q.kind == "table") return "TABLE " + (q.schema.empty() ? "" : q.schema + ".") + q.name;
    if (q.kind == "with") {
        std::string s = "WITH ";
        for (std::size_t i = 0; i < q.with.size(); ++i) { auto& w = q.with[i]; s += (i ? ", " : "") + w.name + (w.cols.empty() ? "" : " (" + names(w.cols) + ")") + " AS (" + print(*w.q) + ")"; }
        return s + " " + print(*q.l);
    }
    std::string s = std::string("SELECT ") + (q.distinct ? "DISTINCT " : q.all_word ? "ALL " : "");
    for (std::size_t i = 0; i < q.items.size(); ++i) {
        auto& t = q.items[i];
        s += (i ? ", " : "") + (t.star ? (t.qual.empty() ? std::string("*") : t.qual + ".*") : print(*t.e) + (t.alias.empty() ? "" : " AS " + t.alias));
    }
    if (!q.from.empty()) { s += " FROM "; for (std::size_t i = 0; i < q.from.size(); ++i) s += (i ? ", " : "") + print(*q.from[i]); }
    if (q.where) s += " WHERE " + print(*q.where);
    if (q.group) s += " GROUP BY " + (q.keys.empty() ? std::string("()") : list(q.keys));
    if (q.having) s += " HAVING " + print(*q.having);
    for (std::size_t i = 0; i < q.order.size(); ++i) s += (i ? ", " : " ORDER BY ") + print(*q.order[i].e) + (q.order[i].dir == 1 ? " ASC" : q.order[i].dir == 2 ? " DESC" : "");
    if (q.limit) s += " LIMIT " + std::to_string(*q.limit);
    return s;
}

// ---- meaning
struct Ctx {
    Db const* db = nullptr;
    std::vector<Row const*> frames;                         // a row for each level of nesting
    std::vector<std::vector<Row const*> const*> groups;     // the rows of the group, where the level is grouped
    std::map<void const*, Rows> memo;                       // results of WITH
};
using Fn = std::function<Val(Ctx&)>;

struct ColumnDef { std::string name; std::size_t slot; bool visible = true; bool qualified_only_hidden = false; };
struct RelDef { std::string name, schema; std::vector<ColumnDef> cols; };
struct TableDef { std::string schema, name; std::vector<std::string> cols; std::string id; };
struct TvfDef { std::vector<std::string> cols; std::size_t id; std::size_t params; };
struct AggDef { std::size_t id; };
struct Catalog {
    std::vector<TableDef> tables;                       // in the order of the search path
    std::set<std::string> path;                         // schemas searched for plain names
    std::map<std::string, TvfDef> tvfs;
    std::map<std::string, std::function<Val(Rows const&)>> aggs; // "count/0", "sum/1", ...
    std::map<std::string, std::function<Val(Row const&)>> functions; // "f/1"
    std::map<std::string, Val> variables, params;
};

struct Common { std::string name; std::vector<std::string> cols; std::function<Rows(Ctx&)> run; };
struct Scope {
    Scope const* parent = nullptr;
    std::size_t level = 0;
    std::vector<RelDef> rels;
    std::vector<Common> commons;
    bool is_level = true;       // has rows of its own
    bool independent = false;   // columns of the parents are not visible
    // grouping
    bool grouped = false;
    std::set<std::size_t> keys;
    mutable int in_agg = 0;
    mutable bool saw_column = false;
};

struct Plan { // a compiled query
    std::vector<std::optional<std::string>> names;
    std::function<Rows(Ctx&)> run;
    // of the outermost query
    bool ordered = false;
    std::optional<int> limit;
    std::function<std::vector<std::pair<Row, Row>>(Ctx&)> keyed; // sort key, row: in order, before the limit
    std::vector<bool> descending;
};

inline int order_null_first(Val const& a, Val const& b) {
    if (a.is_null() || b.is_null()) return int(b.is_null()) - int(a.is_null());
    return plan::order(a, b);
}

class Compiler {
public:
    Catalog const& cat;
    explicit Compiler(Catalog const& c) : cat(c) {}

    Plan query(Q const& q) { return query(q, nullptr); }

    Plan query(Q const& q, Scope const* parent) {
        if (q.kind == "select") return select(q, parent);
        if (q.kind == "values") {
            std::vector<std::vector<Fn>> rows;
            std::size_t n = q.rows.at(0).size();
            Scope s = below(parent);
            for (auto& r : q.rows) {
                if (r.size() != n) throw Wrong("column count");
                rows.emplace_back();
                for (auto& e : r) rows.back().push_back(expr(*e, s));
            }
            Plan p;
            p.names.resize(n);
            auto level = s.level;
            p.run = [rows, level](Ctx& c) { Push f(c, level, nullptr, nullptr); Rows o; for (auto& r : rows) { Row x; for (auto& e : r) x.push_back(e(c)); o.push_back(std::move(x)); } return o; };
            return p;
        }
        if (q.kind == "table") {
            F f;
            f.schema = q.schema; f.name = q.name;
            auto s = source(f, parent);
            Plan p;
            std::vector<std::size_t> slots;
            for (auto& r : s.rels) for (auto& c : r.cols) if (c.visible) { p.names.push_back(c.name); slots.push_back(c.slot); }
            auto all = s.run;
            p.run = [all, slots](Ctx& c) { Rows o; for (auto& row : all(c)) { Row n; for (auto i : slots) n.push_back(row[i]); o.push_back(std::move(n)); } return o; };
            return p;
        }
        if (q.kind == "with") {
            // a level without rows, which holds the names only
            auto s = std::make_shared<Scope>(below(parent));
            s->is_level = false;
            for (auto& w : q.with) {
                for (auto& c : s->commons) if (c.name == w.name) throw Wrong("common table name");
                auto inner = std::make_shared<Scope>(below(s.get()));
                inner->is_level = false;
                inner->independent = true;
                Plan p = query(*w.q, inner.get());
                Common c;
                c.name = w.name;
                if (!w.cols.empty()) {
                    if (w.cols.size() != p.names.size()) throw Wrong("column count");
                    for (std::size_t i = 0; i < w.cols.size(); ++i) for (std::size_t j = 0; j < i; ++j) if (w.cols[i] == w.cols[j]) throw Wrong("common table column");
                    c.cols = w.cols;
                } else for (auto& n : p.names) c.cols.push_back(n ? *n : std::string());
                auto run = p.run;
                c.run = [run](Ctx& x) { Ctx y; y.db = x.db; y.frames.resize(x.frames.size() + 8); y.groups.resize(y.frames.size()); return run(y); };
                s->commons.push_back(std::move(c));
                keep.push_back(inner);
            }
            keep.push_back(s);
            return query(*q.l, s.get());
        }
        // set operation
        Plan l = query(*q.l, parent), r = query(*q.r, parent), p;
        if (l.names.size() != r.names.size()) throw Wrong("column count");
        p.names = l.names;
        bool all = q.quant == 1;
        std::string op = q.op;
        p.run = [l, r, all, op](Ctx& c) {
            Rows a = l.run(c), b = r.run(c), o;
            std::map<Row, std::pair<int, int>> n;
            for (auto& x : a) ++n[x].first;
            for (auto& x : b) ++n[x].second;
            for (auto& e : n) {
                int x = e.second.first, y = e.second.second;
                int k = op == "UNION" ? x + y : op == "EXCEPT" ? std::max(x - y, 0) : std::min(x, y);
                if (!all) k = op == "UNION" ? 1 : op == "EXCEPT" ? int(x > 0 && y == 0) : int(x > 0 && y > 0);
                for (int i = 0; i < k; ++i) o.push_back(e.first);
            }
            return o;
        };
        return p;
    }

    struct Push { // sets the row of one level while it lives
        Ctx& c;
        std::size_t level;
        Row const* row;
        std::vector<Row const*> const* group;
        Push(Ctx& ctx, std::size_t l, Row const* r, std::vector<Row const*> const* g) : c(ctx), level(l) {
            if (c.frames.size() <= l) { c.frames.resize(l + 1); c.groups.resize(l + 1); }
            row = c.frames[l]; group = c.groups[l];
            c.frames[l] = r; c.groups[l] = g;
        }
        ~Push() { c.frames[level] = row; c.groups[level] = group; }
    };

    static Scope below(Scope const* parent) { Scope s; s.parent = parent; s.level = parent ? parent->level + 1 : 0; return s; }

    struct Source { std::vector<RelDef> rels; std::size_t width = 0; std::function<Rows(Ctx&)> run; };

    Source source(F const& f, Scope const* parent) {
        Source s;
        auto rename = [&](RelDef& r) {
            if (f.cols.empty()) return;
            r.cols.erase(std::remove_if(r.cols.begin(), r.cols.end(), [](auto& c) { return !c.visible; }), r.cols.end()); // hidden ones do not count
            if (f.cols.size() > r.cols.size()) throw Wrong("column count");
            for (std::size_t i = 0; i < f.cols.size(); ++i) for (std::size_t j = 0; j < i; ++j) if (f.cols[i] == f.cols[j]) throw Wrong("correlation column");
            r.cols.resize(f.cols.size());
            for (std::size_t i = 0; i < f.cols.size(); ++i) r.cols[i].name = f.cols[i];
        };
        if (f.kind == "table") {
            RelDef r;
            r.name = f.alias.empty() ? f.name : f.alias;
            if (f.schema.empty()) for (auto* p = parent; p; p = p->parent) for (auto& c : p->commons) if (c.name == f.name) {
                for (auto& n : c.cols) r.cols.push_back({ n, s.width++ });
                auto run = c.run;
                rename(r);
                s.rels.push_back(r);
                s.run = run;
                return s;
            }
            TableDef const* t = nullptr;
            for (auto& x : cat.tables) if (!t && x.name == f.name && (f.schema.empty() ? cat.path.count(x.schema) > 0 : x.schema == f.schema)) t = &x;
            if (!t) throw Wrong("table not found");
            if (f.alias.empty()) r.schema = t->schema;
            for (auto& n : t->cols) { r.cols.push_back({ n, s.width++ }); if (n.empty()) r.cols.back().visible = false; } // without a name: hidden
            rename(r);
            s.rels.push_back(r);
            std::string id = t->id;
            s.run = [id](Ctx& c) { return c.db->tables.at(id); };
            return s;
        }
        if (f.kind == "derived") {
            Plan p = query(*f.q, parent);
            RelDef r;
            r.name = f.alias;
            for (auto& n : p.names) r.cols.push_back({ n ? *n : std::string(), s.width++ });
            rename(r);
            s.rels.push_back(r);
            s.run = p.run;
            return s;
        }
        if (f.kind == "apply") {
            auto l = std::make_shared<Source>(source(*f.l, parent));
            Scope sc = below(parent);
            sc.rels = l->rels;
            std::vector<Fn> args;
            for (auto& e : f.args) args.push_back(expr(*e, sc));
            auto it = cat.tvfs.find(f.name);
            if (it == cat.tvfs.end() || it->second.params != args.size()) throw Wrong("function not found");
            if (!f.cols.empty() && f.cols.size() != it->second.cols.size()) throw Wrong("column count");
            s.rels = l->rels;
            s.width = l->width;
            RelDef r;
            r.name = f.alias;
            for (auto& n : it->second.cols) r.cols.push_back({ n, s.width++ });
            rename(r);
            s.rels.push_back(r);
            auto id = it->second.id;
            auto level = sc.level;
            bool outer = f.outer;
            auto width = s.width;
            s.run = [=](Ctx& c) {
                Rows o;
                for (auto& row : l->run(c)) {
                    Push f(c, level, &row, nullptr);
                    Row a;
                    for (auto& e : args) a.push_back(e(c));
                    Rows got = c.db->table_functions.at(id)(a);
                    for (auto& g : got) { Row n = row; n.insert(n.end(), g.begin(), g.end()); n.resize(width); o.push_back(n); }
                    if (got.empty() && outer) { Row n = row; n.resize(width); o.push_back(n); }
                }
                return o;
            };
            return s;
        }
        // join
        auto l = std::make_shared<Source>(source(*f.l, parent)), r = std::make_shared<Source>(source(*f.r, parent));
        s.rels = l->rels;
        for (auto x : r->rels) { for (auto& c : x.cols) c.slot += l->width; s.rels.push_back(x); }
        s.width = l->width + r->width;
        std::vector<std::pair<std::size_t, std::size_t>> equal;
        std::string kind = f.join;
        for (auto& n : f.use) if (std::count(f.use.begin(), f.use.end(), n) > 1) throw Wrong("a common column is named twice");
        for (auto& n : f.use) {
            auto find = [&](std::size_t from, std::size_t to) {
                ColumnDef* p = nullptr;
                for (std::size_t i = from; i < to; ++i) for (auto& c : s.rels[i].cols) if (c.visible && c.name == n) { if (p) throw Wrong("column ambiguous"); p = &c; }
                if (!p) throw Wrong("column not found");
                return p;
            };
            auto* a = find(0, l->rels.size());
            auto* b = find(l->rels.size(), s.rels.size());
            equal.push_back({ a->slot, b->slot });
        }
        // the common columns stand for the one which is present
        std::vector<std::pair<std::size_t, std::size_t>> merged = equal;
        for (auto& n : f.use) {
            ColumnDef* a = nullptr;
            ColumnDef* b = nullptr;
            for (std::size_t i = 0; i < s.rels.size(); ++i) for (auto& c : s.rels[i].cols) if (c.visible && c.name == n) { if (i < l->rels.size()) a = &c; else b = &c; }
            b->visible = false;
            a->slot = s.width++; // a new place for the merged value
        }
        Fn on;
        auto sc = std::make_shared<Scope>(below(parent));
        sc->rels = s.rels;
        if (f.on) on = expr(*f.on, *sc);
        auto level = sc->level;
        auto width = s.width;
        s.run = [=](Ctx& c) {
            Rows a = l->run(c), b = r->run(c), o;
            std::vector<bool> used(b.size());
            auto finish = [&](Row n) {
                for (auto& m : merged) n.push_back(n[m.first].is_null() ? n[m.second] : n[m.first]);
                n.resize(width);
                o.push_back(std::move(n));
            };
            for (auto& x : a) {
                bool any = false;
                for (std::size_t j = 0; j < b.size(); ++j) {
                    Row n = x;
                    n.resize(l->width);
                    n.insert(n.end(), b[j].begin(), b[j].end());
                    bool ok = true;
                    for (auto& e : equal) if (n[e.first].is_null() || n[e.second].is_null() || !(n[e.first] == n[e.second])) ok = false;
                    if (on) { Push p(c, level, &n, nullptr); ok = plan::holds(on(c)); }
                    if (!ok) continue;
                    any = true;
                    used[j] = true;
                    finish(n);
                }
                if (!any && (kind == "left" || kind == "full")) { Row n = x; n.resize(l->width + r->width); finish(n); }
            }
            if (kind == "right" || kind == "full") for (std::size_t j = 0; j < b.size(); ++j) if (!used[j]) {
                Row n(l->width);
                n.insert(n.end(), b[j].begin(), b[j].end());
                finish(n);
            }
            return o;
        };
        return s;
    }

    Plan select(Q const& q, Scope const* parent) {
        // FROM
        std::vector<Source> parts;
        auto scope = std::make_shared<Scope>(below(parent));
        keep.push_back(scope);
        std::size_t width = 0;
        for (auto& f : q.from) {
            auto s = source(*f, parent);
            for (auto r : s.rels) { for (auto& c : r.cols) c.slot += width; scope->rels.push_back(r); }
            width += s.width;
            parts.push_back(std::move(s));
        }
        auto rows = [parts](Ctx& c) {
            Rows o { {} };
            for (auto& p : parts) {
                Rows n, r = p.run(c);
                for (auto& a : o) for (auto& b : r) { Row x = a; Row y = b; y.resize(p.width); x.insert(x.end(), y.begin(), y.end()); n.push_back(std::move(x)); }
                o = std::move(n);
            }
            return o;
        };
        auto level = scope->level;
        // WHERE
        Fn where;
        if (q.where) { if (has_aggregate(*q.where)) throw Wrong("aggregate in WHERE"); where = expr(*q.where, *scope); }
        // GROUP BY
        bool grouped = q.group || q.having;
        for (auto& i : q.items) if (!i.star && has_aggregate(*i.e)) grouped = true;
        for (auto& k : q.order) if (has_aggregate(*k.e)) grouped = true;
        std::vector<std::size_t> keys;
        for (auto& k : q.keys) {
            if (k->op != "col") throw Wrong("grouping element");
            auto r = find(*k, *scope);
            if (r.first != level) throw Wrong("grouping column of another query");
            keys.push_back(r.second);
        }
        scope->grouped = grouped;
        scope->keys.insert(keys.begin(), keys.end());
        Fn having;
        if (q.having) having = expr(*q.having, *scope);
        Plan p;
        std::vector<Fn> items;
        for (auto& i : q.items) {
            if (!i.star) {
                items.push_back(expr(*i.e, *scope));
                if (!i.alias.empty()) p.names.push_back(i.alias);
                else if (i.e->op == "col") p.names.push_back(i.e->name);
                else p.names.push_back(std::nullopt);
                continue;
            }
            bool any = false;
            std::size_t matches = 0;
            for (auto& r : scope->rels) if (i.qual.empty() || i.qual == r.name || i.qual == r.schema + "." + r.name) ++matches;
            if (!i.qual.empty() && matches > 1) throw Wrong("relation ambiguous");
            for (auto& r : scope->rels) if (i.qual.empty() || i.qual == r.name || i.qual == r.schema + "." + r.name) {
                any = true;
                for (auto& c : r.cols) if (c.visible) {
                    auto slot = c.slot;
                    if (grouped && !scope->keys.count(slot)) throw Wrong("not grouped");
                    items.push_back([level, slot](Ctx& x) { return (*x.frames[level])[slot]; });
                    p.names.push_back(c.name.empty() ? std::optional<std::string>() : c.name);
                }
            }
            if (!any) throw Wrong("relation not found");
        }
        std::vector<Fn> sort;
        for (auto& k : q.order) {
            if (k.e->op == "num" || k.e->op == "str" || k.e->op == "null") throw Wrong("literal in ORDER BY");
            sort.push_back(expr(*k.e, *scope));
            p.descending.push_back(k.dir == 2);
        }
        bool distinct = q.distinct;
        auto desc = p.descending;
        auto keyed = [=](Ctx& c) {
            std::vector<std::pair<Row, Row>> out;
            Rows src = rows(c);
            auto take = [&](Row const& row, std::vector<Row const*> const* group) {
                Push f(c, level, &row, group);
                if (having && !plan::holds(having(c))) return;
                Row r, k;
                for (auto& e : items) r.push_back(e(c));
                for (auto& e : sort) k.push_back(e(c));
                out.push_back({ std::move(k), std::move(r) });
            };
            std::vector<Row const*> kept;
            for (auto& row : src) {
                if (where) { Push f(c, level, &row, nullptr); if (!plan::holds(where(c))) continue; }
                kept.push_back(&row);
            }
            if (!grouped) { for (auto* r : kept) take(*r, nullptr); }
            else {
                std::map<Row, std::vector<Row const*>> groups;
                if (keys.empty()) groups[{}];
                for (auto* r : kept) { Row k; for (auto i : keys) k.push_back((*r)[i]); groups[k].push_back(r); }
                Row nulls(width);
                for (auto& g : groups) take(g.second.empty() ? nulls : *g.second[0], &g.second);
            }
            if (distinct) {
                std::set<Row> seen;
                std::vector<std::pair<Row, Row>> o;
                for (auto& r : out) if (seen.insert(r.second).second) o.push_back(r);
                out = std::move(o);
            }
            std::stable_sort(out.begin(), out.end(), [&](auto const& a, auto const& b) {
                for (std::size_t i = 0; i < desc.size(); ++i) { int n = order_null_first(a.first[i], b.first[i]); if (desc[i]) n = -n; if (n) return n < 0; }
                return false;
            });
            return out;
        };
        auto limit = q.limit;
        p.run = [keyed, limit](Ctx& c) {
            Rows o;
            for (auto& r : keyed(c)) { if (limit && int(o.size()) >= *limit) break; o.push_back(std::move(r.second)); }
            return o;
        };
        p.keyed = keyed;
        p.limit = limit;
        p.ordered = !q.order.empty();
        return p;
    }

    static bool has_aggregate(E const& e) {
        if (e.op == "agg") return true;
        for (auto& x : e.a) if (has_aggregate(*x)) return true;
        return false;
    }

    /// level and slot of a column; throws where the name has not exactly one meaning
    std::pair<std::size_t, std::size_t> find(E const& e, Scope const& from) {
        for (Scope const* s = &from; s; s = s->parent) {
            ColumnDef const* found = nullptr;
            int n = 0;
            int relation = 0;
            for (auto& r : s->rels) {
                if (!e.qual.empty() && e.qual != r.name && e.qual != r.schema + "." + r.name) continue;
                if (!e.qual.empty()) ++relation;
                for (auto& c : r.cols) if (c.visible && c.name == e.name && !c.name.empty()) { found = &c; ++n; }
            }
            if (relation > 1) throw Wrong("relation ambiguous");
            if (n > 1) throw Wrong("column ambiguous");
            if (n == 1) {
                if (s->grouped && !s->in_agg && !s->keys.count(found->slot)) throw Wrong("not grouped");
                return { s->level, found->slot };
            }
            if (relation) throw Wrong("column not found"); // the relation hides the ones outside
            if (s->independent) break;
        }
        throw Wrong("column not found");
    }

    Fn expr(E const& e, Scope const& s) {
        auto& o = e.op;
        if (o == "num") { Val v = Val::integer(e.i); return [v](Ctx&) { return v; }; }
        if (o == "str") { Val v = Val::str(e.name); return [v](Ctx&) { return v; }; }
        if (o == "null") return [](Ctx&) { return Val {}; };
        if (o == "true" || o == "false") { Val v = Val::boolean(o == "true"); return [v](Ctx&) { return v; }; }
        if (o == "param") { auto it = cat.params.find(e.name); if (it == cat.params.end()) throw Wrong("parameter"); Val v = it->second; return [v](Ctx&) { return v; }; }
        if (o == "col") {
            std::pair<std::size_t, std::size_t> r;
            try { r = find(e, s); }
            catch (Wrong const& w) {
                auto it = cat.variables.find((e.qual.empty() ? "" : e.qual + ".") + e.name);
                if (std::string(w.what()) != "column not found" || it == cat.variables.end()) throw;
                Val v = it->second;
                return [v](Ctx&) { return v; };
            }
            auto level = r.first, slot = r.second;
            return [level, slot](Ctx& c) { return c.frames[level]->at(slot); };
        }
        if (o == "agg") {
            if (!s.grouped) throw Wrong("aggregate is not allowed here");
            if (s.in_agg) throw Wrong("nested aggregate");
            ++s.in_agg;
            std::vector<Fn> a;
            try { for (auto& x : e.a) a.push_back(expr(*x, s)); }
            catch (...) { --s.in_agg; throw; }
            --s.in_agg;
            auto it = cat.aggs.find(e.name + "/" + std::to_string(a.size()));
            if (it == cat.aggs.end()) throw Wrong("function not found");
            auto fn = it->second;
            bool distinct = e.flag;
            auto level = s.level;
            return [=](Ctx& c) {
                auto* g = c.groups[level];
                Rows in;
                for (auto* row : *g) {
                    Push f(c, level, row, nullptr);
                    Row r;
                    for (auto& x : a) r.push_back(x(c));
                    in.push_back(std::move(r));
                }
                if (distinct) { std::set<Row> u(in.begin(), in.end()); in.assign(u.begin(), u.end()); }
                return fn(in);
            };
        }
        if (e.q) {
            Plan p = query(*e.q, &s);
            std::vector<Fn> a;
            for (auto& x : e.a) a.push_back(expr(*x, s));
            if (o == "exists") return [p](Ctx& c) { return Val::boolean(!p.run(c).empty()); };
            if (p.names.size() != 1) throw Wrong("column count");
            if (o == "scalar") return [p](Ctx& c) { Rows r = p.run(c); if (r.size() > 1) throw NoValue("several rows"); return r.empty() ? Val {} : r[0][0]; };
            std::string cmp = o == "in_q" ? "=" : o == "not_in_q" ? "<>" : e.name;
            bool all = o == "all" || o == "not_in_q";
            return [p, a, cmp, all](Ctx& c) {
                Val v = a[0](c);
                Val r = Val::boolean(all);
                for (auto& row : p.run(c)) { Val t = compare(cmp, v, row[0]); r = all ? and3(r, t) : or3(r, t); }
                return r;
            };
        }
        std::vector<Fn> a;
        for (auto& x : e.a) a.push_back(expr(*x, s));
        auto un = [&](auto f) -> Fn { auto x = a.at(0); return [x, f](Ctx& c) { return f(x(c)); }; };
        auto bi = [&](auto f) -> Fn { auto x = a.at(0), y = a.at(1); return [x, y, f](Ctx& c) { Val u = x(c); Val v = y(c); return f(u, v); }; };
        if (o == "neg") return un([](Val v) { return v.is_null() ? v : Val::integer(-v.i); });
        if (o == "plus") return un([](Val v) { return v; });
        if (o == "not") return un([](Val v) { return not3(v); });
        if (o == "and") return bi([](Val u, Val v) { return and3(u, v); });
        if (o == "or") return bi([](Val u, Val v) { return or3(u, v); });
        if (o == "is_null" || o == "is_unknown") return un([](Val v) { return Val::boolean(v.is_null()); });
        if (o == "is_not_null" || o == "is_not_unknown") return un([](Val v) { return Val::boolean(!v.is_null()); });
        if (o == "is_true" || o == "is_not_true") { bool n = o == "is_not_true"; return un([n](Val v) { return Val::boolean((!v.is_null() && v.i) != n); }); }
        if (o == "is_false" || o == "is_not_false") { bool n = o == "is_not_false"; return un([n](Val v) { return Val::boolean((!v.is_null() && !v.i) != n); }); }
        if (o == "+" || o == "-" || o == "*" || o == "/" || o == "%") {
            char k = o[0];
            return bi([k](Val u, Val v) {
                if (u.is_null() || v.is_null()) return Val {};
                if (k == '/' || k == '%') { if (v.i == 0) throw NoValue("division by zero"); return Val::integer(k == '/' ? u.i / v.i : u.i % v.i); }
                return Val::integer(k == '+' ? u.i + v.i : k == '-' ? u.i - v.i : u.i * v.i);
            });
        }
        if (o == "||") return bi([](Val u, Val v) { return u.is_null() || v.is_null() ? Val {} : Val::str(u.s + v.s); });
        if (o == "=" || o == "<>" || o == "<" || o == "<=" || o == ">" || o == ">=") { std::string k = o; return bi([k](Val u, Val v) { return compare(k, u, v); }); }
        if (o.find("between") != std::string::npos) {
            bool n = o.substr(0, 3) == "not", sym = o.find("_sym") != std::string::npos;
            return [a, n, sym](Ctx& c) {
                Val v = a[0](c), x = a[1](c), y = a[2](c);
                Val r = and3(compare(">=", v, x), compare("<=", v, y));
                if (sym) r = or3(r, and3(compare(">=", v, y), compare("<=", v, x)));
                return n ? not3(r) : r;
            };
        }
        if (o == "in" || o == "not_in") {
            bool n = o == "not_in";
            return [a, n](Ctx& c) { Val v = a[0](c); Val r = Val::boolean(false); for (std::size_t i = 1; i < a.size(); ++i) r = or3(r, compare("=", v, a[i](c))); return n ? not3(r) : r; };
        }
        if (o == "searched" || o == "case") {
            bool simple = o == "case", els = e.flag;
            return [a, simple, els](Ctx& c) {
                std::size_t i = 0, n = a.size() - (els ? 1 : 0);
                Val v;
                if (simple) v = a[i++](c);
                for (; i + 1 < n; i += 2) { Val t = a[i](c); if (simple) t = compare("=", v, t); if (plan::holds(t)) return a[i + 1](c); }
                return els ? a[n](c) : Val {};
            };
        }
        if (o == "nullif") return bi([](Val u, Val v) { return plan::holds(compare("=", u, v)) ? Val {} : u; });
        if (o == "coalesce") return [a](Ctx& c) { for (auto& x : a) { Val v = x(c); if (!v.is_null()) return v; } return Val {}; };
        if (o == "cast") {
            std::string t = e.name;
            return un([t](Val v) { if (v.is_null()) return v; if (t == "VARCHAR" || t == "VARCHAR(10)") return Val::str(v.k == Val::Int ? std::to_string(v.i) : v.s); return v; });
        }
        if (o == "call") {
            auto it = cat.functions.find(e.name + "/" + std::to_string(a.size()));
            if (it == cat.functions.end()) throw Wrong("function not found");
            auto fn = it->second;
            return [a, fn](Ctx& c) { Row r; for (auto& x : a) r.push_back(x(c)); return fn(r); };
        }
        if (o == "like" || o == "not_like") {
            bool n = o == "not_like";
            return [a, n](Ctx& c) {
                Val v = a[0](c), p = a[1](c), esc = a.size() > 2 ? a[2](c) : Val::str("");
                if (v.is_null() || p.is_null() || esc.is_null()) return Val {};
                if (a.size() > 2 && esc.s.size() != 1) throw NoValue("escape");
                bool m = match(v.s, p.s, esc.s);
                return Val::boolean(m != n);
            };
        }
        throw std::logic_error("reference does not know " + o);
    }

    static Val and3(Val const& a, Val const& b) {
        bool f = (!a.is_null() && !a.i) || (!b.is_null() && !b.i);
        return f ? Val::boolean(false) : a.is_null() || b.is_null() ? Val {} : Val::boolean(true);
    }
    static Val or3(Val const& a, Val const& b) {
        bool t = (!a.is_null() && a.i) || (!b.is_null() && b.i);
        return t ? Val::boolean(true) : a.is_null() || b.is_null() ? Val {} : Val::boolean(false);
    }
    static Val not3(Val const& a) { return a.is_null() ? a : Val::boolean(!a.i); }
    static Val compare(std::string const& op, Val const& a, Val const& b) {
        if (a.is_null() || b.is_null()) return {};
        int c = a.k == Val::Str ? (a.s < b.s ? -1 : int(b.s < a.s)) : (a.i < b.i ? -1 : int(b.i < a.i));
        return Val::boolean(op == "=" ? c == 0 : op == "<>" ? c != 0 : op == "<" ? c < 0 : op == "<=" ? c <= 0 : op == ">" ? c > 0 : c >= 0);
    }
    static bool match(std::string_view s, std::string_view p, std::string const& esc) {
        if (p.empty()) return s.empty();
        if (!esc.empty() && p[0] == esc[0]) {
            if (p.size() < 2 || (p[1] != '%' && p[1] != '_' && p[1] != esc[0])) throw NoValue("escape");
            return !s.empty() && s[0] == p[1] && match(s.substr(1), p.substr(2), esc);
        }
        if (p[0] == '%') return match(s, p.substr(1), esc) || (!s.empty() && match(s.substr(1), p, esc));
        return !s.empty() && (p[0] == '_' || p[0] == s[0]) && match(s.substr(1), p.substr(1), esc);
    }

private:
    std::vector<std::shared_ptr<Scope>> keep;
};

/// does the actual list answer the query?  empty: yes
inline std::string compare(Plan const& p, Ctx& c, Rows const& actual) {
    auto sorted = [](Rows r) { std::sort(r.begin(), r.end()); return r; };
    if (!p.ordered && !p.limit) {
        Rows want = p.run(c);
        if (sorted(want) == sorted(actual)) return {};
        return "expected " + plan::to_string(sorted(want)) + " actual " + plan::to_string(sorted(actual));
    }
    auto rows = p.keyed(c);
    std::size_t n = rows.size();
    if (p.limit && std::size_t(*p.limit) < n) n = std::size_t(*p.limit);
    auto show = [&] { Rows w; for (auto& r : rows) w.push_back(r.second); return "expected " + std::to_string(n) + " of " + plan::to_string(w) + " actual " + plan::to_string(actual); };
    if (actual.size() != n) return show();
    std::size_t i = 0;
    while (i < n) {
        std::size_t j = i + 1;
        while (j < rows.size() && (!p.ordered || rows[j].first == rows[i].first)) ++j;
        // rows i .. j may come in any order; those which fit are taken
        std::multiset<Row> have;
        for (auto k = i; k < j; ++k) have.insert(rows[k].second);
        for (auto k = i; k < std::min(j, n); ++k) { auto it = have.find(actual[k]); if (it == have.end()) return show(); have.erase(it); }
        i = j;
    }
    return {};
}

} // namespace ref
