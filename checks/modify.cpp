// INSERT, UPDATE and DELETE change exactly the rows which they say: every statement of a grammar is analyzed,
// the plan (or the list of values) is evaluated on all small databases, and the rows to write are compared
// with the reference evaluation.
#include "an_world.h"
#include "harness.h"

using namespace mc;
using namespace an;
using namespace ref;

namespace {

sql_analyzer& analyzer() { static thread_local sql_analyzer a; return a; }

struct Target { std::string name; std::vector<std::string> all; std::set<std::size_t> hidden; std::vector<std::string> keys; bool index = true; };
std::vector<Target> const& targets() {
    static std::vector<Target> const t {
        { "a", { "x", "z", "y" }, { 1 }, { "x" } },
        { "d", { "p", "h", "q", "r" }, { 1 }, { "q", "p" } },          // a hidden column, and the keys in another order
        { "g", { "i", "m", "n" }, { 0 }, { "i" } },                    // the key is made by the system
        { "l", { "u", "v" }, {}, {} },                                 // an index without keys
        { "o", { "u", "v" }, {}, {}, false },                          // no index
    };
    return t;
}

struct MWorld : World {
    MWorld() {
        auto& s = schema("pub");
        for (auto& t : targets()) {
            TableDef d { "pub", t.name, {}, t.name };
            for (std::size_t i = 0; i < t.all.size(); ++i) d.cols.push_back(t.hidden.count(i) ? "" : t.all[i]);
            if (t.name == "a") continue;
            std::vector<Column> cs;
            std::vector<std::size_t> ks;
            for (std::size_t i = 0; i < t.all.size(); ++i) cs.push_back({ t.all[i], int8(), true, t.hidden.count(i) ? (t.name == "g" ? 's' : 'h') : char(0) });
            for (auto& k : t.keys) for (std::size_t i = 0; i < t.all.size(); ++i) if (t.all[i] == k) ks.push_back(i);
            s.table_with(t.name, cs, ks, t.index);
            cat.tables.push_back(d);
        }
    }
};
MWorld& mworld() { static MWorld w; return w; }

/// one statement
struct M {
    std::string kind;             // insert update delete
    std::string word = "INSERT";  // how the insertion is written
    std::string table, alias;
    std::vector<std::string> cols;
    QP source;                    // none: DEFAULT VALUES
    struct Set { std::string qual, col; EP value; bool def = false; };
    std::vector<Set> sets;
    EP where;
};
std::string print(M const& m) {
    std::string alias = m.alias.empty() ? "" : " AS " + m.alias;
    std::string where = m.where ? " WHERE " + ref::print(*m.where) : "";
    if (m.kind == "insert") return m.word + " INTO " + m.table + (m.cols.empty() ? "" : " (" + names(m.cols) + ")") + " " + (m.source ? ref::print(*m.source) : "DEFAULT VALUES");
    if (m.kind == "delete") return "DELETE FROM " + m.table + alias + where;
    std::string s = "UPDATE " + m.table + alias + " SET ";
    for (std::size_t i = 0; i < m.sets.size(); ++i) s += (i ? ", " : "") + (m.sets[i].qual.empty() ? "" : m.sets[i].qual + ".") + m.sets[i].col + " = " + (m.sets[i].def ? "DEFAULT" : ref::print(*m.sets[i].value));
    return s + where;
}

using Written = std::map<std::string, Val>;
struct Effect {
    std::string kind; // insert skip overwrite update delete
    std::string table;
    std::set<std::string> keys, columns;
    std::multiset<std::pair<Written, Written>> rows; // keys, columns
};
std::string to_string(Effect const& e) {
    std::string o = e.kind + " " + e.table + " keys(";
    for (auto& k : e.keys) o += k + " ";
    o += ") columns(";
    for (auto& k : e.columns) o += k + " ";
    o += ")";
    for (auto& r : e.rows) { o += " ["; for (auto& k : r.first) o += k.first + "=" + plan::to_string(k.second) + " "; o += "|"; for (auto& k : r.second) o += " " + k.first + "=" + plan::to_string(k.second); o += "]"; }
    return o;
}

/// the reference: what the statement does
struct Meaning {
    std::function<Effect(Ctx&)> run;
    std::vector<std::shared_ptr<Scope>> keep;
    std::shared_ptr<Compiler> comp;
};
Meaning meaning(M const& m) {
    Meaning r;
    r.comp = std::make_shared<Compiler>(mworld().cat);
    Target const* t = nullptr;
    for (auto& x : targets()) if (x.name == m.table) t = &x;
    if (!t) throw Wrong("table not found");
    if (!t->index) throw Wrong("no primary index");
    auto position = [t](std::string const& n) { for (std::size_t i = 0; i < t->all.size(); ++i) if (t->all[i] == n && !t->hidden.count(i)) return i; throw Wrong("column not found"); };
    Effect head;
    head.table = m.table;
    if (m.kind == "insert") {
        head.kind = m.word == "INSERT" ? "insert" : m.word == "INSERT OR IGNORE" || m.word == "INSERT IF NOT EXISTS" ? "insert_skip" : "insert_overwrite";
        std::vector<std::string> dest;
        if (m.cols.empty()) { for (std::size_t i = 0; i < t->all.size(); ++i) if (!t->hidden.count(i)) dest.push_back(t->all[i]); }
        else for (auto& c : m.cols) { position(c); for (auto& d : dest) if (d == c) throw Wrong("column twice"); dest.push_back(c); }
        if (!m.source) { head.rows.insert(std::pair<Written, Written> {}); r.run = [head](Ctx&) { return head; }; return r; }
        for (auto& row : m.source->rows) for (auto& e : row) if (Compiler::has_aggregate(*e)) throw Wrong("aggregate");
        auto p = std::make_shared<Plan>(r.comp->query(*m.source));
        if (p->names.size() != dest.size()) throw Wrong("column count");
        for (auto& d : dest) (std::count(t->keys.begin(), t->keys.end(), d) ? head.keys : head.columns).insert(d);
        r.run = [head, p, dest](Ctx& c) {
            Effect e = head;
            for (auto& row : p->run(c)) {
                std::pair<Written, Written> w;
                for (std::size_t i = 0; i < dest.size(); ++i) (head.keys.count(dest[i]) ? w.first : w.second)[dest[i]] = row[i];
                e.rows.insert(w);
            }
            return e;
        };
        return r;
    }
    if (t->keys.empty()) throw Wrong("no keys");
    head.kind = m.kind;
    head.keys.insert(t->keys.begin(), t->keys.end());
    auto s = std::make_shared<Scope>();
    RelDef rel;
    rel.name = m.alias.empty() ? m.table : m.alias;
    if (m.alias.empty()) rel.schema = "pub";
    for (std::size_t i = 0; i < t->all.size(); ++i) { rel.cols.push_back({ t->all[i], i }); rel.cols.back().visible = !t->hidden.count(i); }
    s->rels.push_back(rel);
    r.keep.push_back(s);
    Fn where;
    if (m.where) where = r.comp->expr(*m.where, *s);
    std::vector<std::pair<std::string, Fn>> sets;
    for (auto& e : m.sets) {
        if (!e.qual.empty()) throw Wrong("qualified target");
        position(e.col);
        if (!head.columns.insert(e.col).second) throw Wrong("column twice");
        if (e.def) throw Wrong("DEFAULT");
        sets.push_back({ e.col, r.comp->expr(*e.value, *s) });
    }
    std::vector<std::pair<std::string, std::size_t>> keys;
    for (auto& k : t->keys) for (std::size_t i = 0; i < t->all.size(); ++i) if (t->all[i] == k) keys.push_back({ k, i });
    std::string id = m.table;
    r.run = [=](Ctx& c) {
        Effect e = head;
        for (auto& row : c.db->tables.at(id)) {
            Compiler::Push f(c, 0, &row, nullptr);
            if (where && !plan::holds(where(c))) continue;
            std::pair<Written, Written> w;
            for (auto& k : keys) w.first[k.first] = row[k.second];
            for (auto& x : sets) w.second[x.first] = x.second(c);
            e.rows.insert(w);
        }
        return e;
    };
    return r;
}

std::string kind_of(plan::tr::write_kind k) {
    switch (k) {
        case plan::tr::write_kind::insert: return "insert";
        case plan::tr::write_kind::insert_skip: return "insert_skip";
        case plan::tr::write_kind::insert_overwrite: return "insert_overwrite";
        case plan::tr::write_kind::update: return "update";
        case plan::tr::write_kind::delete_: return "delete";
        default: return "?";
    }
}
Effect actual(Outcome const& r, plan::Db const& db) {
    plan::Exec x(db);
    Effect e;
    if (r.is_plan()) {
        auto w = x.write(r.graph());
        e.kind = kind_of(w.kind);
        e.table = w.table;
        e.keys.insert(w.keys.begin(), w.keys.end());
        e.columns.insert(w.columns.begin(), w.columns.end());
        if (e.keys.size() != w.keys.size() || e.columns.size() != w.columns.size()) throw plan::Malformed("a column is written twice");
        for (std::size_t i = 0; i < w.rows.size(); ++i) {
            std::pair<Written, Written> p;
            for (std::size_t k = 0; k < w.keys.size(); ++k) p.first[w.keys[k]] = w.key_rows[i][k];
            for (std::size_t k = 0; k < w.columns.size(); ++k) p.second[w.columns[k]] = w.rows[i][k];
            e.rows.insert(std::move(p));
        }
        return e;
    }
    namespace st = ::takatori::statement;
    if (r.statement().kind() != st::statement_kind::write) throw plan::Malformed("not a statement which writes");
    auto& s = static_cast<st::write const&>(r.statement());
    e.kind = kind_of(s.operator_kind());
    auto& index = plan::yb::extract<::yugawara::storage::index>(s.destination());
    e.table = std::string(index.table().simple_name());
    std::vector<std::pair<bool, std::string>> cols; // key?, name
    for (auto& v : s.columns()) {
        auto& c = plan::yb::extract<::yugawara::storage::column>(v);
        if (&c.owner() != &index.table()) throw plan::Malformed("writes a column of another table");
        bool key = false;
        for (auto& k : index.keys()) if (&k.column() == &c) key = true;
        cols.push_back({ key, std::string(c.simple_name()) });
        if (!(key ? e.keys : e.columns).insert(cols.back().second).second) throw plan::Malformed("a column is written twice");
    }
    for (auto& t : s.tuples()) {
        std::pair<Written, Written> p;
        if (t.elements().size() != cols.size()) throw plan::Malformed("a row has a wrong number of values");
        std::size_t i = 0;
        plan::Env env;
        for (auto&& v : t.elements()) { (cols[i].first ? p.first : p.second)[cols[i].second] = x.eval(v, env); ++i; }
        e.rows.insert(std::move(p));
    }
    return e;
}

void tables_of(M const& m, std::set<std::string>& out) {
    if (m.kind != "insert") out.insert(m.table);
    if (m.source) used(*m.source, out);
    for (auto& s : m.sets) if (s.value) used(*s.value, out);
    if (m.where) used(*m.where, out);
}
/// states of a table with so many columns
std::vector<Rows> states_of(Target const& t, bool more) {
    if (t.name == "a") return more ? states(3) : telling();
    Val n, i = Val::integer(1), j = Val::integer(2), k = Val::integer(3);
    auto w = t.all.size();
    std::vector<Rows> r { {} };
    std::vector<Row> rows { { i, j, k, n }, { j, i, i, j }, { i, n, j, i }, { k, k, n, k }, { n, i, i, i } };
    for (auto& x : rows) x.resize(w);
    for (auto& x : rows) r.push_back({ x });
    for (auto& x : rows) for (auto& y : rows) if (&x < &y) r.push_back({ x, y });
    r.push_back(rows);
    return r;
}

void judge(Worker& w, M const& m, bool statements, bool casts, bool more) {
    if (w.steering()) return;
    std::string sql = print(m);
    if (w.replaying()) std::cout << sql << (statements ? " (as a list of values)" : "") << (casts ? " (literals are cast)" : "") << "\n";
    w.state(std::hash<std::string> {}(sql));
    auto& wd = mworld();
    std::optional<Meaning> p;
    std::string wrong;
    try { p = meaning(m); }
    catch (Wrong const& e) { wrong = e.what(); }
    auto options = wd.opt;
    options.prefer_write_statement() = statements;
    options.cast_literals_in_context() = casts;
    auto r = run(analyzer(), options, sql);
    if (!w.expect(r.parsed, "syntax", sql, ": ", r.why())) return;
    if (!w.expect(r.thrown.empty(), "throws", sql, ": ", r.thrown)) return;
    if (!p) {
        w.count("wrong");
        if (w.expect(!r.ok(), "wrong statement accepted", sql, ": ", wrong)) w.expect(!r.diagnostics().empty(), "no diagnostics", sql);
        return;
    }
    if (!w.expect(r.ok(), "rejected", sql, ": ", r.why())) return;
    w.count(r.is_plan() ? "plans" : "lists of values");
    if (r.is_statement()) w.expect(statements && m.kind == "insert", "kind of result", sql);
    auto bad = r.is_plan() ? plan::verify(r.graph()) : plan::verify(r.statement());
    if (!w.expect(bad.empty(), "plan", sql, ": ", bad)) return;
    std::set<std::string> t;
    tables_of(m, t);
    std::vector<std::pair<std::string, std::vector<Rows>>> pools;
    for (auto& n : t) {
        Target x { n, { "1", "2" }, {}, {} };
        for (auto& y : targets()) if (y.name == n) x = y;
        std::size_t hidden = 9;
        for (auto& g : gen::tables()) if (g.name == n) hidden = g.hidden;
        if (hidden != 9) x.name = "a";
        pools.push_back({ n, states_of(x, more && t.size() == 1) });
        if (hidden != 9) for (auto& s : pools.back().second) for (auto& row : s) row.insert(row.begin() + std::ptrdiff_t(hidden), plan::Val::integer(2));
        if (t.size() == 2 && pools.back().second.size() > (more ? 14u : 8u)) pools.back().second.resize(more ? 14 : 8);
        if (t.size() > 2) pools.back().second.resize(more ? 6 : 4);
    }
    plan::Db db = wd.base;
    std::vector<std::size_t> i(pools.size());
    for (;;) {
        for (std::size_t k = 0; k < pools.size(); ++k) db.tables[pools[k].first] = pools[k].second[i[k]];
        Ctx c;
        c.db = &db;
        std::string failed;
        try {
            std::optional<Effect> got;
            try { got = actual(r, db); }
            catch (NoValue const& e) { failed = std::string("no value: ") + e.what(); }
            auto want = p->run(c);
            if (got) {
                if (want.kind != got->kind || want.table != got->table || want.keys != got->keys || want.columns != got->columns || want.rows != got->rows)
                    failed = "expected " + to_string(want) + " actual " + to_string(*got);
            }
            w.count("databases");
        }
        catch (NoValue const&) { w.count("databases without a value"); failed.clear(); }
        catch (plan::Malformed const& e) { failed = std::string("malformed plan: ") + e.what(); }
        catch (plan::Unknown const& e) { failed = std::string("unknown plan element: ") + e.what(); }
        if (!w.expect(failed.empty(), "effect", sql, " on ", to_string(db), ": ", failed)) break;
        std::size_t k = 0;
        while (k < i.size() && ++i[k] == pools[k].second.size()) i[k++] = 0;
        if (k == i.size()) break;
    }
    w.sample(sql);
}

Target const& pick_target(gen::Gen& g) { return targets()[std::size_t(g.pick(int(targets().size())))]; }
/// a column, first the ones of the table; then a hidden one, or one which does not exist
std::string pick_column(gen::Gen& g, Target const& t, std::size_t first) {
    std::vector<std::string> n;
    for (std::size_t i = 0; i < t.all.size(); ++i) if (!t.hidden.count(i)) n.push_back(t.all[i]);
    std::rotate(n.begin(), n.begin() + long(first % n.size()), n.end());
    for (auto i : t.hidden) n.push_back(t.all[i]);
    n.push_back("zz");
    return n[std::size_t(g.pick(int(n.size())))];
}
gen::Cols visible(Target const& t, std::string const& qual) {
    gen::Cols r;
    for (std::size_t i = 0; i < t.all.size(); ++i) if (!t.hidden.count(i)) r.push_back({ qual, t.all[i] });
    return r;
}

M insertion(gen::Gen& g, bool values) {
    M m;
    m.kind = "insert";
    auto& t = pick_target(g);
    m.table = t.name;
    std::size_t width = t.all.size() - t.hidden.size();
    if (g.pick(2)) {
        std::size_t n = 1 + std::size_t(g.pick(4));
        std::size_t from = width > 1 ? 1 : 0; // not in the order of the table
        for (std::size_t i = 0; i < n; ++i) m.cols.push_back(pick_column(g, t, from + i));
        width = n;
    }
    static char const* const words[] { "INSERT", "INSERT OR REPLACE", "INSERT OR IGNORE", "INSERT IF NOT EXISTS", "UPDATE OR INSERT" };
    m.word = words[g.pick(5)];
    gen::Gen::Scope none;
    if (values) {
        int rows = g.pick(4);
        if (rows == 3) return m; // DEFAULT VALUES
        width += std::size_t(std::vector<int> { 0, 1, -1 }[std::size_t(g.pick(3))]);
        if (width == 0) width = 1;
        m.source = mkq("values");
        for (int r = 0; r <= rows; ++r) {
            m.source->rows.emplace_back();
            for (std::size_t i = 0; i < width; ++i) {
                int v = g.pick(8);
                EP e;
                if (v < 2) e = num(3 - v + r * 10 + int(i) * 100);
                else if (v == 2) e = mk("null");
                else if (v == 3) e = g.integer(none, 1);
                else if (v == 4) { auto q = mkq(); q->items.push_back({ named("agg", "MAX", { col("x") }) }); q->from.push_back(ref::table("b")); e = withq("scalar", q); }
                else if (v == 5) e = named("call", "f", { num(1) });
                else if (v == 6) { e = mk("searched", { g.boolean(none, 1), num(4), num(5) }); e->flag = true; }
                else e = g.pick(2) ? named("agg", "COUNT") : col("x");
                m.source->rows.back().push_back(e);
            }
        }
        return m;
    }
    int v = g.pick(5);
    if (v == 0) m.source = g.simple(1);
    else if (v == 1) { m.source = mkq("setop"); static char const* const ops[] { "UNION", "EXCEPT", "INTERSECT" }; m.source->op = ops[g.pick(3)]; m.source->quant = g.pick(3); m.source->l = g.simple(0); m.source->r = g.simple(0); }
    else if (v == 2) { m.source = mkq(); m.source->from.push_back(g.join_item(0)); Item i; i.star = true; m.source->items.push_back(i); }
    else if (v == 3) { m.source = mkq("table"); static char const* const tables[] { "d", "g", "a" }; m.source->name = tables[g.pick(3)]; }
    else {
        m.source = mkq();
        auto from = g.pick(3);
        m.source->from.push_back(ref::table(from == 0 ? "a" : from == 1 ? "d" : "g"));
        gen::Gen::Scope s;
        for (auto& x : targets()) if (x.name == m.source->from[0]->name) s.here = visible(x, x.name);
        for (std::size_t i = 0; i < width; ++i) { Item k; int o = g.pick(4); k.e = o == 0 ? g.integer(s, 1) : o == 1 ? mk("null") : o == 2 ? col("h") : num(7); m.source->items.push_back(k); }
        if (g.pick(2)) m.source->where = g.boolean(s, 1);
        g.tail(*m.source, s, 0);
    }
    return m;
}
M change(gen::Gen& g) {
    M m;
    m.kind = "update";
    auto& t = pick_target(g);
    m.table = t.name;
    if (g.pick(2)) m.alias = g.pick(2) ? "b" : "t";
    std::string name = m.alias.empty() ? m.table : m.alias;
    gen::Gen::Scope s;
    s.here = visible(t, name);
    std::size_t n = 1 + std::size_t(g.pick(3));
    for (std::size_t i = 0; i < n; ++i) {
        M::Set x;
        x.col = pick_column(g, t, 1 + i);
        int q = g.pick(3);
        if (q) x.qual = q == 1 ? name : "t";
        int v = g.pick(6);
        if (v == 0) x.value = g.integer(s, 2);
        else if (v == 1) x.value = mk("null");
        else if (v == 2) x.value = col(x.col, g.pick(2) ? m.table : name); // the name of the table, where there is an alias
        else if (v == 3) x.value = named("agg", "SUM", { col(x.col) });
        else if (v == 4) x.def = true;
        else x.value = mk("+", { col(x.col), col(m.sets.empty() ? s.here.back().name : m.sets[0].col) }); // of the old row
        m.sets.push_back(x);
    }
    int v = g.pick(5);
    if (v == 1) m.where = g.boolean(s, 2);
    else if (v == 2) m.where = mk("=", { col(s.here[0].name, m.table), num(1) });
    else if (v == 3) m.where = mk(">", { named("agg", "COUNT"), num(0) });
    else if (v == 4 && !t.hidden.empty()) m.where = mk("=", { col(t.all[*t.hidden.begin()]), num(1) });
    return m;
}
M removal(gen::Gen& g) {
    M m;
    m.kind = "delete";
    auto& t = pick_target(g);
    m.table = t.name;
    if (g.pick(2)) m.alias = g.pick(2) ? "b" : "t";
    gen::Gen::Scope s;
    s.here = visible(t, m.alias.empty() ? m.table : m.alias);
    int v = g.pick(5);
    if (v == 1) m.where = g.boolean(s, 2);
    else if (v == 2) m.where = mk("=", { col(s.here[0].name, m.table), num(1) });
    else if (v == 3) m.where = mk(">", { named("agg", "COUNT"), num(0) });
    else if (v == 4 && !t.hidden.empty()) m.where = mk("=", { col(t.all[*t.hidden.begin()]), num(1) });
    return m;
}

void check(Worker& w) {
    auto leg = [&](std::string name, int quick, int thorough, std::function<M(gen::Gen&)> make) {
        w.explore(name, w.thorough ? thorough : quick, [&](Chooser& c) {
            gen::Gen::commons().clear();
            gen::Gen g(c);
            int mode = g.pick(3);
            auto m = make(g);
            judge(w, m, mode == 1, mode == 2, w.thorough);
        });
    };
    // all ordered selections of columns, in insertions of up to three rows and in updates
    w.explore("all columns", 99, [&](Chooser& c) {
        M m;
        int mode = c.choose(3);
        auto what = c.choose(5); // one to three rows, a query, an update
        m.kind = what == 4 ? "update" : "insert";
        auto& t = targets()[std::size_t(c.choose(3))];
        m.table = t.name;
        std::vector<std::string> left;
        for (std::size_t i = 0; i < t.all.size(); ++i) if (!t.hidden.count(i)) left.push_back(t.all[i]);
        auto all = left;
        std::vector<std::string> cols;
        auto n = 1 + c.choose(int(left.size()));
        for (int i = 0; i < n; ++i) { auto k = left.begin() + c.choose(int(left.size())); cols.push_back(*k); left.erase(k); }
        if (what == 4) {
            for (std::size_t i = 0; i < cols.size(); ++i) {
                M::Set x;
                x.col = cols[i];
                auto v = c.choose(3);
                x.value = v == 0 ? num(50 + long(i)) : v == 1 ? col(cols[(i + 1) % cols.size()]) : mk("+", { col(all[i]), num(1) });
                m.sets.push_back(x);
            }
            if (c.choose(2)) m.where = mk("=", { col(all.back()), num(1) });
        } else {
            m.cols = cols;
            if (what < 3) {
                m.source = mkq("values");
                for (int r = 0; r <= what; ++r) { m.source->rows.emplace_back(); for (std::size_t i = 0; i < cols.size(); ++i) m.source->rows.back().push_back(r == 1 && i + 1 == cols.size() ? mk("null") : num(10 * r + long(i))); }
            } else {
                m.source = mkq();
                m.source->from.push_back(ref::table("d"));
                static char const* const from[] { "r", "p", "q" };
                for (std::size_t i = 0; i < cols.size(); ++i) m.source->items.push_back({ col(from[i]) });
            }
        }
        judge(w, m, mode == 1, mode == 2, w.thorough);
    });
    leg("insert values", 4, 5, [](gen::Gen& g) { return insertion(g, true); });
    leg("insert query", 4, 5, [](gen::Gen& g) { return insertion(g, false); });
    leg("update", 4, 5, change);
    leg("delete", 5, 6, removal);
}

} // namespace

int main(int argc, char** argv) { return harness_main(argc, argv, check); }
