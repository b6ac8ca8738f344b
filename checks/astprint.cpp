// What a tree prints: the events and the text of its serialization against its parts; and what
// dispatch() hands a node to.
#include "refgrammar.h"
#include "ast_slots.h"
#include "ast_made.h"
#include "harness.h"
#include "parse_util.h"

#include <takatori/serializer/object_acceptor.h>

#ifndef DISPATCH
#define DISPATCH 0
#endif

using namespace mc;
using ::takatori::util::clone_unique;

namespace {

mizugaki::parser::sql_parser& parser() { static thread_local mizugaki::parser::sql_parser p; return p; }

// ---- values as JSON
struct J {
    enum K { null, text, number, boolean, array, object } k = null;
    std::string s;
    std::vector<J> items;
    std::vector<std::pair<std::string, J>> props;
    bool empty() const { return k == null || (k == array && items.empty()); }
};
std::string show(J const& j) {
    switch (j.k) {
    case J::null: return "null";
    case J::text: return json(j.s);
    case J::number: case J::boolean: return j.s;
    case J::array: { std::string r = "["; for (auto& x : j.items) r += (r.size() > 1 ? "," : "") + show(x); return r + "]"; }
    case J::object: { std::string r = "{"; for (auto& x : j.props) r += (r.size() > 1 ? "," : "") + json(x.first) + ":" + show(x.second); return r + "}"; }
    }
    return "?";
}
// absent, null and empty are the same; the order of properties does not matter
std::string differ(J const& want, J const& got, std::string const& path) {
    if (want.empty() && got.empty()) return "";
    if (want.k != got.k || (want.k != J::array && want.k != J::object && want.s != got.s)) return path + ": expected " + show(want).substr(0, 200) + ", printed " + show(got).substr(0, 200);
    if (want.k == J::array) {
        if (want.items.size() != got.items.size()) return path + ": expected " + std::to_string(want.items.size()) + " elements, printed " + std::to_string(got.items.size());
        for (std::size_t i = 0; i < want.items.size(); ++i) { auto d = differ(want.items[i], got.items[i], path + "[" + std::to_string(i) + "]"); if (!d.empty()) return d; }
    }
    if (want.k == J::object) {
        std::map<std::string, J const*> w, g;
        for (auto& p : want.props) if (!w.emplace(p.first, &p.second).second) return path + ": twice " + p.first;
        for (auto& p : got.props) if (!g.emplace(p.first, &p.second).second) return path + ": printed twice: " + p.first;
        static J const none;
        // these repeat the node kind: some nodes print them, some do not
        auto repeats = [](std::string const& n) { return n == "value_kind" || n == "type_kind" || n == "constraint_kind" || n == "statement_kind"; };
        for (auto& p : w) { auto it = g.find(p.first); if (it == g.end() && repeats(p.first)) continue; auto d = differ(*p.second, it == g.end() ? none : *it->second, path + "." + p.first); if (!d.empty()) return d; }
        for (auto& p : g) if (!w.count(p.first) && p.first != "region") return path + ": unexpected property " + p.first;
    }
    return "";
}

// builds a value from events, and insists on their order
class Builder : public ::takatori::serializer::object_acceptor {
public:
    J result;
    bool complete = false;
    void string(std::string_view v) override { J j; j.k = J::text; j.s = v; put(j); }
    void integer(std::int64_t v) override { J j; j.k = J::number; j.s = std::to_string(v); put(j); }
    void unsigned_integer(std::uint64_t v) override { J j; j.k = J::number; j.s = std::to_string(v); put(j); }
    void floating_point(double v) override { J j; j.k = J::number; j.s = std::to_string(v); put(j); }
    void boolean(bool v) override { J j; j.k = J::boolean; j.s = v ? "true" : "false"; put(j); }
    void pointer(void const*) override { J j; j.k = J::text; j.s = "pointer"; put(j); }
    void struct_begin() override { J j; j.k = J::object; open(j, 's'); }
    void struct_end() override { close('s'); }
    void array_begin() override { J j; j.k = J::array; open(j, 'a'); }
    void array_end() override { close('a'); }
    void property_begin(std::string_view n) override {
        if (stack.empty() || stack.back().first != 's') throw std::runtime_error("property out of a structure");
        J j;
        j.s = n;
        stack.emplace_back('p', j);
    }
    void property_end() override {
        if (stack.empty() || stack.back().first != 'p') throw std::runtime_error("end of property");
        J j = stack.back().second;
        stack.pop_back();
        J v = j.items.empty() ? J() : j.items[0];
        stack.back().second.props.emplace_back(j.s, v);
    }
    void finish() { if (!stack.empty()) throw std::runtime_error("unfinished"); }
private:
    std::vector<std::pair<char, J>> stack;
    void open(J j, char c) { stack.emplace_back(c, j); }
    void close(char c) {
        if (stack.empty() || stack.back().first != c) throw std::runtime_error("mismatched end");
        J j = stack.back().second;
        stack.pop_back();
        put(j);
    }
    void put(J const& j) {
        if (stack.empty()) { if (complete) throw std::runtime_error("two values"); complete = true; result = j; return; }
        auto& t = stack.back();
        if (t.first == 's') throw std::runtime_error("value in a structure without a property");
        if (t.first == 'p' && !t.second.items.empty()) throw std::runtime_error("two values of a property");
        t.second.items.push_back(j);
    }
};
// reads printed text back
struct Parse {
    std::string const& s;
    std::size_t i = 0;
    [[noreturn]] void bad() { throw std::runtime_error("printed text is malformed at " + std::to_string(i) + ": " + s.substr(0, 300)); }
    char at() { if (i >= s.size()) bad(); return s[i]; }
    void need(char c) { if (at() != c) bad(); ++i; }
    std::string str() {
        need('"');
        std::string r;
        while (at() != '"') { if (s[i] == '\\') { ++i; char c = at(); if (c == 'n') r += '\n'; else if (c == 'u') { r += char(std::strtol(s.substr(i + 1, 4).c_str(), nullptr, 16)); i += 4; } else r += c; ++i; } else r += s[i++]; }
        ++i;
        return r;
    }
    J value() {
        J j;
        char c = at();
        if (c == '{') {
            j.k = J::object; ++i;
            if (at() == '}') { ++i; return j; }
            for (;;) { auto n = str(); need(':'); j.props.emplace_back(n, value()); if (at() == ',') { ++i; continue; } need('}'); return j; }
        }
        if (c == '[') {
            j.k = J::array; ++i;
            if (at() == ']') { ++i; return j; }
            for (;;) { j.items.push_back(value()); if (at() == ',') { ++i; continue; } need(']'); return j; }
        }
        if (c == '"') { j.k = J::text; j.s = str(); return j; }
        std::string w;
        while (i < s.size() && (std::isalnum((unsigned char) s[i]) || s[i] == '-' || s[i] == '.')) w += s[i++];
        if (w == "null") return j;
        j.k = w == "true" || w == "false" ? J::boolean : J::number;
        j.s = w;
        if (w.empty()) bad();
        return j;
    }
};

// ---- what a tree should print, from its parts
template<class X> J expected(X& n);
struct Expect {
    std::vector<std::pair<std::string, J>> props;
    bool first = true;
    template<class N> void enter(N* n, A::node_region&) {
        if constexpr (std::is_base_of_v<A::node, N>) { J k; k.k = J::text; k.s = to_string_view(n->node_kind()); props.emplace_back("node_kind", k); }
    }
    void leave() {}
    void region(A::node_region&) {}
    template<class V> J value(V& v) {
        J j;
        if constexpr (is_ptr<V>::value) { if (v) return expected(*v); return j; }
        else if constexpr (is_optional<V>::value) { if (v) return value(*v); return j; }
        else if constexpr (is_regioned<V>::value) return value(v.value());
        else if constexpr (is_vector<V>::value) { j.k = J::array; for (auto& e : v) j.items.push_back(value(e)); return j; }
        else if constexpr (std::is_same_v<V, A::node_region>) {
            if (!v) return j;
            j.k = J::object;
            J b; b.k = J::number; b.s = std::to_string(v.begin); j.props.emplace_back("begin", b); b.s = std::to_string(v.end); j.props.emplace_back("end", b);
            return j;
        }
        else if constexpr (std::is_base_of_v<A::element, V>) return expected(v);
        else if constexpr (std::is_same_v<V, bool>) { j.k = J::boolean; j.s = v ? "true" : "false"; return j; }
        else if constexpr (std::is_same_v<V, std::string>) { j.k = J::text; j.s = v; return j; }
        else if constexpr (std::is_enum_v<V>) { j.k = J::text; j.s = to_string_view(v); return j; }
        else { if (v == V(-1)) { j.k = J::text; j.s = "*"; } else { j.k = J::number; j.s = std::to_string(v); } return j; }
    }
    template<class V> void slot(char const* name, V& v) {
        std::string n = name;
        props.emplace_back(n, value(v));
    }
};
template<class X> J expected(X& n) {
    Expect e;
    if constexpr (std::is_base_of_v<A::node, X>) visit_node(n, e); else visit_element(n, e);
    J j;
    j.k = J::object;
    j.props = std::move(e.props);
    return j;
}

template<class N> bool printed(Worker& w, N& n, std::string const& hint) {
    w.count("printed");
    J want = expected(n);
    Builder b;
    N const& c = n;
    b << c;
    b.finish();
    auto d = differ(want, b.result, "");
    if (!d.empty()) { w.fail("content", hint + ": " + d); return false; }
    std::ostringstream s;
    std::ostream& r = (s << c);
    w.expect(&r == static_cast<std::ostream*>(&s), "stream", hint, ": another stream was returned");
    std::string text = s.str();
    w.state(hash_text(text));
    Parse p {text};
    J back = p.value();
    if (p.i != text.size()) p.bad();
    d = differ(want, back, "");
    w.expect(d.empty(), "text", hint, ": ", d);
    std::ostringstream again;
    again << c;
    w.expect(again.str() == text, "text", hint, ": prints differently the second time");
    w.sample(text);
    return true;
}

// every distinct part of some base prints on its own, too
struct Parts {
    Worker& w;
    std::string const& hint;
    std::unordered_set<std::uint64_t>& seen;
    template<class X> void enter(X* x, A::node_region&) {
        std::string t = show(expected(*x));
        if (!seen.insert(hash_text(t)).second) return;
        printed(w, *x, hint + " part");
    }
    void leave() {}
    void region(A::node_region&) {}
    template<class V> void slot(char const*, V& v) { descend(v, *this); }
};

// ---- dispatch
struct Taken {
    std::type_info const* as = nullptr;
    void const* at = nullptr;
    bool is_const = false;
    int calls = 0, arg = 0;
};
struct Take {
    template<class X> Taken operator()(X&& x, Taken& out, int k) const {
        using U = std::remove_reference_t<X>;
        out.as = &typeid(std::remove_const_t<U>);
        out.at = &x;
        out.is_const = std::is_const_v<U>;
        out.arg = k;
        ++out.calls;
        return out;
    }
};
template<class N> void reach(Worker& w, N& n, std::string const& hint) {
    w.count("dispatched");
    w.count(std::string("class ") + typeid(n).name());
    Taken a, b;
    Taken ra = dispatch(Take {}, n, a, 41);
    Taken rb = dispatch(Take {}, std::as_const(n), b, 42);
    for (auto* t : {&a, &b}) {
        w.expect(t->calls == 1 && t->at == &n, "dispatch", hint, ": the handler was called ", t->calls, " times, or with another object");
        w.expect(t->as && *t->as == typeid(n), "dispatch", hint, ": a ", typeid(n).name(), " was handed over as ", t->as ? t->as->name() : "nothing");
        w.expect(t->is_const == (t == &b) && t->arg == (t == &b ? 42 : 41), "dispatch", hint, ": constness or arguments changed");
    }
    w.expect(ra.calls == 1 && rb.calls == 1, "dispatch", hint, ": the result of the handler is lost");
}
struct Reach {
    Worker& w;
    std::string const& hint;
    template<class X> void enter(X* x, A::node_region&) {
        using namespace A;
        if constexpr (std::is_base_of_v<node, X>) w.state(hash_text(std::string(typeid(*x).name()) + std::string(to_string_view(x->node_kind()))));
        if constexpr (std::is_base_of_v<name::name, X>) reach<name::name>(w, *x, hint);
        if constexpr (std::is_base_of_v<type::type, X>) reach<type::type>(w, *x, hint);
        if constexpr (std::is_base_of_v<literal::literal, X>) reach<literal::literal>(w, *x, hint);
        if constexpr (std::is_base_of_v<scalar::expression, X>) reach<scalar::expression>(w, *x, hint);
        if constexpr (std::is_base_of_v<query::expression, X>) reach<query::expression>(w, *x, hint);
        if constexpr (std::is_base_of_v<query::select_element, X>) reach<query::select_element>(w, *x, hint);
        if constexpr (std::is_base_of_v<query::grouping_element, X>) reach<query::grouping_element>(w, *x, hint);
        if constexpr (std::is_base_of_v<table::expression, X>) reach<table::expression>(w, *x, hint);
        if constexpr (std::is_base_of_v<table::join_specification, X>) reach<table::join_specification>(w, *x, hint);
        if constexpr (std::is_base_of_v<statement::statement, X>) reach<statement::statement>(w, *x, hint);
        if constexpr (std::is_base_of_v<statement::table_element, X>) reach<statement::table_element>(w, *x, hint);
        if constexpr (std::is_base_of_v<statement::constraint, X>) reach<statement::constraint>(w, *x, hint);
        if constexpr (std::is_base_of_v<statement::alter_table_action, X>) reach<statement::alter_table_action>(w, *x, hint);
        if constexpr (std::is_base_of_v<statement::alter_index_action, X>) reach<statement::alter_index_action>(w, *x, hint);
    }
    void leave() {}
    void region(A::node_region&) {}
    template<class V> void slot(char const*, V& v) { descend(v, *this); }
};

void check(Worker& w) {
    auto deep = [&](std::string const& text) {
        auto r = parser()("-", text);
        if (!r) return;
        std::string hint = "`" + text + "`";
#if DISPATCH
        for (auto& s : r.value()->statements()) { Reach v {w, hint}; visit_node(*s, v); }
#else
        static std::unordered_set<std::uint64_t> seen;
        auto& u = *r.value();
        for (auto& s : u.statements()) { if (!printed(w, *s, hint)) return; if (!w.replaying()) { Parts v {w, hint, seen}; visit_node(*s, v); } else { std::unordered_set<std::uint64_t> none; Parts v {w, hint, none}; visit_node(*s, v); } }
        // the whole document
        Builder b;
        b << std::as_const(u);
        b.finish();
        Expect e;
        J want;
        want.k = J::object;
        want.props.emplace_back("statements", e.value(u.statements()));
        want.props.emplace_back("comments", e.value(u.comments()));
        J loc; loc.k = J::text; loc.s = "-";
        want.props.emplace_back("document", loc);
        auto d = differ(want, b.result, "");
        w.expect(d.empty(), "content", hint, " as a document: ", d);
        std::ostringstream s;
        s << u;
        Parse p {s.str()};
        std::string text2 = s.str();
        Parse p2 {text2};
        d = differ(want, p2.value(), "");
        w.expect(d.empty(), "text", hint, " as a document: ", d);
#endif
    };
    w.explore("statement", w.thorough ? 3 : 2, [&](Chooser& c) { Gen g(c); g.statement(); if (!w.steering() && !g.dup_option && !g.with_in_operand) deep(g.text); });
    for (int k = 0; k < Gen::statement_kinds; ++k) {
        w.explore("statement-" + std::to_string(k), w.thorough ? 3 : 2, [&](Chooser& c) {
            Gen g(c);
            g.statement(k);
            if (w.steering() || g.dup_option || g.with_in_operand) return;
            deep(g.text);
        });
    }
    // with comments and descriptions
    static std::vector<std::string> const described {
        "/** a */ CREATE TABLE t (/** b */ c INT, /** d */ e INT)", "/* x */ CREATE TABLE t (c INT) -- y\n", "/** i */ CREATE INDEX i ON t (c)",
        "/** v */ CREATE VIEW v AS SELECT * FROM t", "/** s */ CREATE SEQUENCE s", "/** s */ CREATE SCHEMA s", "SELECT 1; /* a */; SELECT 2 /* b */", "",
        "SELECT 'a\"b\\c', \"q\"\"r\", X'00', -1, 1.5e3", "CREATE TABLE t (a VARCHAR(*), b DECIMAL(*, *), c INT)",
        "CREATE TABLE t (a INT GENERATED ALWAYS AS IDENTITY (START WITH 1 INCREMENT BY 2 MINVALUE 0 MAXVALUE 9 CYCLE), b DECIMAL(5, 2))",
    };
    w.enumerate("described", described.size(), [&](std::uint64_t i) { deep(described[std::size_t(i)]); });
    std::uint64_t made = 0;
    for_all_made([&](auto&) { ++made; });
    w.enumerate("made", made, [&](std::uint64_t i) {
        std::uint64_t k = 0;
        for_all_made([&](auto& n) {
            if (k++ != i) return;
            std::string hint = "made " + std::to_string(i);
#if DISPATCH
            Reach v {w, hint};
            visit_node(n, v);
#else
            printed(w, n, hint);
#endif
        });
    });
}

} // namespace

int main(int argc, char** argv) { return harness_main(argc, argv, check); }
