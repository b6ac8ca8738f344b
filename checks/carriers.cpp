// What trees are made of and handed over in: regions, located values, copying holders, compilation
// units and parser results, each against a plain model over all small values and histories.
#include "refgrammar.h"
#include "ast_read.h"
#include "harness.h"
#include "parse_util.h"

#include <mizugaki/ast/common/clone_wrapper.h>
#include <mizugaki/ast/common/optional.h>
#include <mizugaki/ast/common/rvalue_list.h>
#include <mizugaki/ast/common/vector.h>

#include <takatori/document/basic_document.h>

using namespace mc;
using mizugaki::ast::node_region;
using mizugaki::ast::common::regioned;
using mizugaki::ast::common::clone_wrapper;
using ::takatori::util::clone_tag;

namespace {

constexpr std::size_t NP = std::size_t(-1);

std::string show(node_region r) { auto f = [](std::size_t x) { return x == NP ? std::string("-") : std::to_string(x); }; return "[" + f(r.begin) + "," + f(r.end) + ")"; }
bool valid(node_region r) { return r.begin != NP && r.end != NP; }

struct Regions {
    std::vector<node_region> all;
    Regions(int top) {
        for (int b = 0; b <= top + 1; ++b) for (int e = 0; e <= top + 1; ++e) {
            std::size_t x = b > top ? NP : std::size_t(b), y = e > top ? NP : std::size_t(e);
            if (x != NP && y != NP && x > y) continue;
            all.emplace_back(x, y);
        }
    }
};

void regions(Worker& w) {
    static Regions const few(w.thorough ? 9 : 6);
    auto& v = few.all;
    std::size_t n = v.size();
    w.enumerate("region", n, [&](std::uint64_t i) {
        node_region a = v[i];
        w.count("regions");
        w.state(i);
        w.expect(bool(a) == valid(a), "valid", show(a), " is said to be ", bool(a) ? "valid" : "invalid");
        w.expect(a.first() == a.begin && a.last() == a.end, "ends", show(a));
        if (valid(a)) w.expect(a.size() == a.end - a.begin, "size", show(a), " is of size ", a.size());
        std::ostringstream s;
        s << a;
        std::string want = valid(a) ? "region(begin=" + std::to_string(a.begin) + ", end=" + std::to_string(a.end) + ")" : "region()";
        w.expect(s.str() == want, "print", show(a), " prints as ", s.str());
        if (valid(a)) {
            for (std::size_t off = 0; off <= a.size(); ++off) {
                node_region r = a(off);
                w.expect(r.begin == a.begin + off && r.end == a.end, "sub region", show(a), "(", off, ") = ", show(r));
                for (std::size_t len = 0; off + len <= a.size(); ++len) {
                    r = a(off, len);
                    w.expect(r.begin == a.begin + off && r.end == a.begin + off + len, "sub region", show(a), "(", off, ",", len, ") = ", show(r));
                }
            }
        }
        for (auto b : v) {
            bool eq = a.begin == b.begin && a.end == b.end;
            w.expect((a == b) == eq && (a != b) == !eq, "equal", show(a), " and ", show(b));
            std::hash<node_region> h;
            if (eq) w.expect(h(a) == h(b), "hash", show(a));
            node_region u = a | b;
            w.count("unions");
            if (valid(a) && valid(b)) {
                w.expect(u.begin == std::min(a.begin, b.begin) && u.end == std::max(a.end, b.end), "union", show(a), "|", show(b), " = ", show(u));
            } else if (valid(a)) w.expect(u == a, "union", show(a), "|", show(b), " = ", show(u));
            else if (valid(b)) w.expect(u == b, "union", show(a), "|", show(b), " = ", show(u));
            else w.expect(!u, "union", show(a), "|", show(b), " = ", show(u));
            for (auto c : v) {
                node_region x = (a | b) | c, y = a | (b | c);
                w.expect(valid(x) == valid(y) && (!valid(x) || x == y), "union", show(a), "|", show(b), "|", show(c), " = ", show(x), " or ", show(y));
            }
        }
    });
}

// located values: compared, hashed and printed as their value
template<class V, class Show> void located(Worker& w, std::string const& leg, std::vector<V> const& values, Show text) {
    static Regions const few(2);
    std::size_t n = few.all.size() * values.size();
    auto at = [&](std::uint64_t i) { return regioned<V>(values[i / few.all.size()], few.all[i % few.all.size()]); };
    w.enumerate(leg, n, [&](std::uint64_t i) {
        regioned<V> a = at(i);
        V const& value = values[i / few.all.size()];
        node_region r = few.all[i % few.all.size()];
        w.count("located values");
        w.state(hash_text(leg + std::to_string(i)));
        auto const& ca = a;
        w.expect(a.value() == value && ca.value() == value && *a == value && *ca == value && a.region() == r && ca.region() == r, "located", leg, " ", i, ": another value or region");
        w.expect(static_cast<V&>(a) == value && static_cast<V const&>(ca) == value, "located", leg, " ", i, ": converts to another value");
        w.expect(&a.value() == &*a && &ca.value() == &a.value(), "located", leg, " ", i, ": not the same object");
        std::ostringstream s;
        s << a;
        w.expect(s.str() == text(value), "print", leg, " ", i, ": prints as ", s.str());
        w.expect(std::hash<regioned<V>> {}(a) == std::hash<V> {}(value), "hash", leg, " ", i);
        regioned<V> c1(clone_tag, ca);
        w.expect(c1.value() == value && c1.region() == r && a.value() == value, "clone", leg, " ", i);
        regioned<V> from(ca), c2(clone_tag, std::move(from));
        w.expect(c2.value() == value && c2.region() == r, "clone", leg, " ", i, " moved");
        regioned<V> one(value);
        w.expect(one.value() == value && !one.region(), "located", leg, " ", i, ": a value alone has a region");
        V out = *regioned<V>(ca);
        w.expect(out == value, "located", leg, " ", i, ": another value is taken out");
        V out2 = static_cast<V&&>(regioned<V>(ca));
        w.expect(out2 == value, "located", leg, " ", i, ": another value is taken out");
        for (std::uint64_t j = 0; j < n; ++j) {
            regioned<V> b = at(j);
            bool eq = value == values[j / few.all.size()];
            w.expect((a == b) == eq && (a != b) == !eq, "equal", leg, " ", i, " and ", j);
            V const& v = b.value();
            w.expect((a == v) == eq && (a != v) == !eq && (v == a) == eq && (v != a) == !eq, "equal", leg, " ", i, " and the value ", j);
            regioned<V> x(ca);
            x.value() = v; x.region() = b.region();
            w.expect(x.value() == v && x.region() == b.region() && a.value() == value && a.region() == r, "located", leg, " ", i, ": assigned ", j);
        }
    });
    regioned<V> none;
    w.enumerate(leg + " default", 1, [&](std::uint64_t) { w.expect(none.value() == V() && !none.region(), "located", "the default is not empty"); });
}

// ---- holders
using Name = A::name::simple;
std::unique_ptr<Name> named(int k) { if (!k) return {}; return std::make_unique<Name>(std::string(std::size_t(k), char('a' + k))); }
int number(Name const* n) { return n ? int(n->identifier().size()) : 0; }

struct OneHolder {
    using H = clone_wrapper<std::unique_ptr<Name>>;
    using M = int; // 0: empty
    static constexpr int values = 3;
    static M model(int k) { return k; }
    static H make(int k) { return H(named(k)); }
    static M read(H const& h) { auto const& e = h.element(); return &*h == &e ? number(e.get()) : -1; }
    static void parts(H const& h, std::vector<void const*>& to) { if (h.element()) to.push_back(h.element().get()); }
    static M moved_from() { return 0; }
    static void grow(H& h, M& m) { if (m) { (*h)->identifier() += "x"; m += 1; } else { h.element() = named(1); m = 1; } }
};
struct ManyHolder {
    using H = clone_wrapper<std::vector<std::unique_ptr<Name>>>;
    using M = std::vector<int>;
    static constexpr int values = 4;
    static M model(int k) { static std::vector<M> const v {{}, {1}, {2, 0}, {1, 2}}; return v[std::size_t(k)]; }
    static H make(int k) { std::vector<std::unique_ptr<Name>> v; for (int x : model(k)) v.push_back(named(x)); return H(std::move(v)); }
    static M read(H const& h) { M m; for (auto& e : *h) m.push_back(number(e.get())); return m; }
    static void parts(H const& h, std::vector<void const*>& to) { for (auto& e : h.element()) if (e) to.push_back(e.get()); }
    static M moved_from() { return {}; }
    static void grow(H& h, M& m) { if (!m.empty() && m[0]) { (*h)[0]->identifier() += "x"; m[0] += 1; } else { h.element().push_back(named(1)); m.push_back(1); } }
};
template<class P> void holders(Worker& w, std::string const& leg, int depth) {
    // operations: put value (2 x values), copy (2), move (2), copy-construct (2), move-construct (2), self copy (2), change (2), swap by three moves
    int const n = 2 * P::values + 2 + 2 + 2 + 2 + 2 + 2 + 1;
    std::uint64_t total = 1;
    for (int i = 0; i < depth; ++i) total *= std::uint64_t(n);
    w.enumerate(leg, total, [&](std::uint64_t id) {
        typename P::H h[2];
        typename P::M m[2] {};
        std::uint64_t rest = id;
        std::string done;
        for (int i = 0; i < depth; ++i) {
            int op = int(rest % std::uint64_t(n));
            rest /= std::uint64_t(n);
            done += " " + std::to_string(op);
            int t = op & 1, o = 1 - t;
            int k = op / 2;
            if (op < 2 * P::values) { h[t] = P::make(k); m[t] = P::model(k); }
            else switch (k - P::values) {
            case 0: { auto& r = (h[t] = std::as_const(h[o])); w.expect(&r == &h[t], "assign", leg, done, ": returned something else"); m[t] = m[o]; break; }
            case 1: { auto& r = (h[t] = std::move(h[o])); w.expect(&r == &h[t], "assign", leg, done, ": returned something else"); m[t] = m[o]; m[o] = P::moved_from(); break; }
            case 2: { typename P::H x(std::as_const(h[o])); P::grow(x, *std::make_unique<typename P::M>(m[o])); break; }
            case 3: { typename P::H x(std::move(h[o])); w.expect(P::read(x) == m[o], "move", leg, done, ": the content is lost"); h[t] = std::move(x); m[t] = m[o]; m[o] = P::moved_from(); break; }
            case 4: { auto& self = h[t]; h[t] = std::as_const(self); break; }
            case 5: P::grow(h[t], m[t]); break;
            default: std::swap(h[0], h[1]); std::swap(m[0], m[1]); break;
            }
            w.count("holder steps");
            for (int x = 0; x < 2; ++x) {
                auto got = P::read(h[x]);
                if (!w.expect(got == m[x], "content", leg, done, ": holder ", x, " holds something else")) return;
            }
            std::vector<void const*> p;
            P::parts(h[0], p); P::parts(h[1], p);
            std::set<void const*> q(p.begin(), p.end());
            w.expect(q.size() == p.size(), "shared", leg, done, ": two holders share an element");
        }
        std::string s = leg;
        for (auto& x : h) { s += "|"; if constexpr (std::is_same_v<typename P::M, int>) s += std::to_string(P::read(x)); else for (int y : P::read(x)) s += "," + std::to_string(y); }
        w.state(hash_text(s));
    });
}

void copies(Worker& w) {
    using namespace A::common;
    // every vector of at most 4 elements, each empty or of one of 3 values
    int const top = w.thorough ? 6 : 5;
    std::uint64_t total = 0;
    { std::uint64_t p = 1; for (int i = 0; i <= top; ++i, p *= 4) total += p; }
    w.enumerate("copies", total, [&](std::uint64_t id) {
        int len = 0;
        std::uint64_t p = 1;
        while (id >= p) { id -= p; p *= 4; ++len; }
        std::vector<int> want;
        for (int i = 0; i < len; ++i) { want.push_back(int(id % 4)); id /= 4; }
        w.count("copied vectors");
        std::string hint = "vector";
        for (int x : want) hint += " " + std::to_string(x);
        w.state(hash_text(hint));
        auto build = [&] { std::vector<std::unique_ptr<Name>> v; for (int x : want) v.push_back(named(x)); return v; };
        auto read = [&](std::vector<std::unique_ptr<Name>> const& v) { std::vector<int> r; for (auto& e : v) r.push_back(number(e.get())); return r; };
        auto src = build();
        auto copy = clone_vector(std::as_const(src));
        w.expect(read(copy) == want && read(src) == want, "copy", hint, ": the copy differs");
        for (std::size_t i = 0; i < copy.size() && i < src.size(); ++i) w.expect(!copy[i] || copy[i].get() != src[i].get(), "shared", hint, ": the copy shares an element");
        auto moved = clone_vector(build());
        w.expect(read(moved) == want, "move", hint, ": the moved copy differs");
        // by value
        std::vector<regioned<int>> rv;
        for (int x : want) rv.emplace_back(x, node_region(std::size_t(x), std::size_t(x) + 1));
        auto same = [&](std::vector<regioned<int>> const& v) { if (v.size() != want.size()) return false; for (std::size_t i = 0; i < v.size(); ++i) if (v[i].value() != want[i] || v[i].region() != node_region(std::size_t(want[i]), std::size_t(want[i]) + 1)) return false; return true; };
        w.expect(same(clone_vector(std::as_const(rv))) && same(rv), "copy", hint, " by value: the copy differs");
        w.expect(same(clone_vector(std::vector<regioned<int>>(rv))), "move", hint, " by value: the moved copy differs");
        // optional holders
        if (len <= 1) {
            using H = clone_wrapper<std::unique_ptr<Name>>;
            std::optional<H> o;
            if (len) o.emplace(named(want[0]));
            auto c = clone_optional(std::as_const(o));
            w.expect(c.has_value() == (len == 1) && (!c || (number(c->element().get()) == want[0] && (!want[0] || c->element().get() != o->element().get()))), "copy", hint, " optional");
            auto c2 = clone_optional(std::move(o));
            w.expect(c2.has_value() == (len == 1) && (!c2 || number(c2->element().get()) == want[0]), "move", hint, " optional");
        }
        // lists written in place
        if (len <= 3 && std::find(want.begin(), want.end(), 0) == want.end()) {
            auto n = [&](int i) { return std::move(*named(want[std::size_t(i)])); };
            std::vector<std::unique_ptr<Name>> v;
            if (len == 0) v = to_vector<Name>({});
            if (len == 1) v = to_vector<Name>({n(0)});
            if (len == 2) v = to_vector<Name>({n(0), n(1)});
            if (len == 3) v = to_vector<Name>({n(0), n(1), n(2)});
            w.expect(read(v) == want, "list", hint, ": the list differs");
        }
    });
}

// ---- compilation units
using Unit = A::compilation_unit;
using Doc = ::takatori::document::document;
struct UnitModel { std::vector<int> statements; std::vector<std::size_t> comments; int doc = 0; };
void units(Worker& w) {
    static char const* const texts[] {"", "SELECT * FROM t1", "DROP TABLE t2", "VALUES (3)"};
    static std::shared_ptr<Doc> docs[3] {nullptr, std::make_shared<::takatori::document::basic_document>("d1", "x"), std::make_shared<::takatori::document::basic_document>("d2", "y")};
    auto statement = [](int k) -> std::unique_ptr<A::statement::statement> {
        static thread_local mizugaki::parser::sql_parser p;
        auto r = p("-", std::string(texts[k]));
        if (!r) throw std::runtime_error("not parsed: " + std::to_string(k) + r.diagnostic().message());
        return std::move(r.value()->statements().at(0));
    };
    static std::vector<UnitModel> const starts {{{}, {}, 0}, {{1}, {}, 1}, {{1}, {0, 2}, 2}, {{2}, {1}, 1}, {{1, 2}, {}, 0}, {{2, 1}, {}, 0}, {{1, 2, 3}, {3}, 2}, {{1, 1}, {}, 1}};
    auto make = [&](UnitModel const& m) {
        std::vector<std::unique_ptr<A::statement::statement>> s;
        for (int k : m.statements) s.push_back(statement(k));
        std::vector<node_region> c;
        for (auto b : m.comments) c.emplace_back(b, b + 1);
        return std::make_unique<Unit>(std::move(s), std::move(c), docs[m.doc]);
    };
    static std::vector<std::string> printed;
    auto read = [&](Unit const& u) {
        if (printed.empty()) for (int k = 1; k < 4; ++k) { std::ostringstream s; s << *statement(k); printed.push_back(s.str()); }
        UnitModel m;
        for (auto& s : u.statements()) { std::ostringstream o; if (s) o << *s; auto it = std::find(printed.begin(), printed.end(), o.str()); m.statements.push_back(it == printed.end() ? -1 : int(it - printed.begin()) + 1); }
        for (auto& c : u.comments()) m.comments.push_back(c.end == c.begin + 1 ? c.begin : 99);
        m.doc = -1;
        for (int d = 0; d < 3; ++d) if (u.document().get() == docs[d].get()) m.doc = d;
        return m;
    };
    auto eq = [](UnitModel const& a, UnitModel const& b) { return a.statements == b.statements && a.comments == b.comments && a.doc == b.doc; };
    int const ops = 6, depth = w.thorough ? 3 : 2;
    std::uint64_t total = starts.size() * starts.size();
    for (int i = 0; i < depth; ++i) total *= 2 * ops;
    w.enumerate("units", total, [&](std::uint64_t id) {
        UnitModel m[2];
        std::unique_ptr<Unit> u[2];
        std::string done = std::to_string(id);
        for (int x = 0; x < 2; ++x) { m[x] = starts[id % starts.size()]; id /= starts.size(); u[x] = make(m[x]); }
        for (int i = 0; i <= depth; ++i) {
            w.count("unit steps");
            for (int x = 0; x < 2; ++x) if (!w.expect(eq(read(*u[x]), m[x]), "unit", done, " after ", i, " steps: unit ", x, " is something else")) return;
            bool same = m[0].statements == m[1].statements;
            w.expect((*u[0] == *u[1]) == same && (*u[1] == *u[0]) == same && (*u[0] != *u[1]) == !same && *u[0] == *u[0] && !(*u[1] != *u[1]), "unit equality", done, " after ", i, " steps");
            if (i == depth) break;
            int op = int(id % (2 * ops));
            id /= 2 * ops;
            int t = op & 1, o = 1 - t;
            switch (op / 2) {
            case 0: u[t] = std::make_unique<Unit>(clone_tag, std::as_const(*u[o])); m[t] = m[o]; break;
            case 1: u[t] = std::make_unique<Unit>(clone_tag, std::move(*u[o])); m[t] = m[o]; u[o] = make(starts[0]); m[o] = starts[0]; break;
            case 2: u[t]->statements().push_back(statement(3)); m[t].statements.push_back(3); break;
            case 3: u[t]->comments().emplace_back(5, 6); m[t].comments.push_back(5); break;
            case 4: u[t]->document() = docs[1]; m[t].doc = 1; break;
            case 5: if (!m[t].statements.empty()) { u[t]->statements()[0] = statement(2); m[t].statements[0] = 2; } break;
            }
        }
    });
}

// ---- results and diagnostics
void results(Worker& w) {
    using namespace mizugaki::parser;
    using C = sql_parser_code;
    static std::vector<C> const codes {C::unknown, C::syntax_error, C::unexpected_eof, C::exceed_number_of_elements};
    static std::string const text = "abcdef";
    static Regions const few(6);
    std::uint64_t total = codes.size() * 2 * few.all.size();
    w.enumerate("diagnostics", total, [&](std::uint64_t id) {
        C code = codes[id % codes.size()];
        std::uint64_t rest = id / codes.size();
        std::string message = rest % 2 ? "why" : "";
        node_region r = few.all[std::size_t(rest / 2)];
        auto doc = std::make_shared<::takatori::document::basic_document>("l", text);
        std::weak_ptr<Doc> watch = doc;
        sql_parser_diagnostic d(code, message, ::takatori::util::maybe_shared_ptr<Doc const>(std::move(doc)), r);
        w.count("diagnostics");
        w.state(id);
        bool is = code != C::unknown || !message.empty();
        w.expect(d.is_valid() == is && bool(d) == is, "diagnostic", id, ": said to be ", d.is_valid() ? "valid" : "invalid");
        w.expect(d.code() == code && std::as_const(d).code() == code && d.message() == message && std::as_const(d).message() == message && d.region() == r && std::as_const(d).region() == r, "diagnostic", id, ": another code, message or region");
        if (!watch.expired()) {} else w.fail("diagnostic", "the document is gone");
        if (valid(r) || (r.begin == NP && r.end == NP)) w.expect(d.contents() == (valid(r) ? text.substr(r.begin, r.end - r.begin) : std::string()), "contents", id, ": ", show(r), " holds `", d.contents(), "`");
        sql_parser_result res(d);
        w.expect(!res.has_value() && !bool(res) && res.has_diagnostic() == is && !res.value(), "result", id, ": states of a failed result");
        w.expect(res.diagnostic().code() == code && std::as_const(res).diagnostic().message() == message && std::as_const(res).diagnostic().region() == r, "result", id, ": another diagnostic");
        w.expect(res.tree_node_count() == 0 && res.max_tree_depth() == 0, "result", id, ": counts");
        res.tree_node_count() = 3; res.max_tree_depth() = 4;
        sql_parser_result moved(std::move(res));
        w.expect(std::as_const(moved).tree_node_count() == 3 && std::as_const(moved).max_tree_depth() == 4 && moved.has_diagnostic() == is && moved.diagnostic().code() == code, "result", id, ": moving lost something");
        auto u = std::make_unique<Unit>(std::vector<std::unique_ptr<A::statement::statement>> {});
        auto* at = u.get();
        sql_parser_result good(std::move(u));
        w.expect(good.has_value() && bool(good) && !good.has_diagnostic() && good.value().get() == at && (*good).get() == at && std::as_const(good).value().get() == at && (*std::as_const(good)).get() == at, "result", id, ": states of a result");
        good = std::move(moved);
        w.expect(!good.has_value() && good.has_diagnostic() == is, "result", id, ": states after assignment");
        sql_parser_result none;
        w.expect(!none.has_value() && !none && !none.has_diagnostic(), "result", "states of an empty result");
    });
    // what a parser returns outlives the parser and the text it was given
    static std::vector<std::string> const inputs {"SELECT * FROM t", "SELECT * FORM t", "", ";", "SELECT 'a", "/* x", "SELECT a b c FROM", "CREATE TABLE t (c INT) ; DROP", "\x80", "x", "SELECT * FROM t WHERE c = :p /* c */", "VALUES 1, 2 ORDER", "SELECT 1 FROM t a b"};
    w.enumerate("lifetimes", inputs.size() * 3, [&](std::uint64_t id) {
        std::string const& in = inputs[std::size_t(id / 3)];
        sql_parser_result r, again;
        {
            auto p = std::make_unique<sql_parser>();
            std::string location = "somewhere/" + in, copy = in;
            if (id % 3 == 0) r = (*p)(location, copy);
            else if (id % 3 == 1) { auto d = std::make_shared<::takatori::document::basic_document>(location, copy); r = (*p)(d); }
            else { (*p)(location, "SELECT 2"); r = (*p)(location, copy); (*p)(location, "SELECT 3 FROM u x y"); }
            location.assign(location.size(), '#');
            copy.assign(copy.size(), '#');
        }
        w.count("results");
        w.state(hash_text(in));
        w.expect(r.has_value() != r.has_diagnostic(), "result", "`", in, "`: both or neither of a tree and a diagnostic");
        auto const& doc = r ? r.value()->document() : r.diagnostic().document();
        if (w.expect(bool(doc), "document", "`", in, "`: no document")) w.expect(doc->location() == "somewhere/" + in && doc->contents(0, doc->size()) == in, "document", "`", in, "`: another document");
        if (r) { Reader rd; for (auto& s : r.value()->statements()) rd.read(*s); for (auto c : r.value()->comments()) w.expect(c.begin < c.end && c.end <= in.size(), "document", "`", in, "`: comment out of the text"); }
        else {
            auto g = r.diagnostic().region();
            w.expect(valid(g) && g.begin <= g.end && g.end <= in.size(), "contents", "`", in, "`: ", show(g));
            if (valid(g) && g.begin <= g.end && g.end <= in.size()) w.expect(r.diagnostic().contents() == in.substr(g.begin, g.end - g.begin), "contents", "`", in, "`: `", r.diagnostic().contents(), "`");
        }
    });
}

void check(Worker& w) {
    regions(w);
    located<int>(w, "located int", {0, 1, -1, 77}, [](int v) { return std::to_string(v); });
    located<std::string>(w, "located text", {"", "a", "A", "ab"}, [](std::string const& v) { return v; });
    located<std::size_t>(w, "located size", {0, 1, NP, 10}, [](std::size_t v) { return std::to_string(v); });
    holders<OneHolder>(w, "holder", w.thorough ? 6 : 5);
    holders<ManyHolder>(w, "list holder", w.thorough ? 5 : 4);
    copies(w);
    units(w);
    results(w);
}

} // namespace

int main(int argc, char** argv) { return harness_main(argc, argv, check); }
