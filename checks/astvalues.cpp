// Nodes of the syntax tree as values: copies, comparison, and change of single parts, over a pool of
// trees that reaches every class, and over trees built by hand for what is never written in SQL.
#include "refgrammar.h"
#include "ast_read.h"
#include "ast_slots.h"
#include "harness.h"
#include "parse_util.h"
#include "ast_made.h"

using namespace mc;
using ::takatori::util::clone_unique;

namespace {

mizugaki::parser::sql_parser& parser() { static thread_local mizugaki::parser::sql_parser p; return p; }

template<class N> struct Item {
    std::unique_ptr<N> node;
    T tree;
    std::string text; // without regions
};

template<class N> T tree_of(N const& n) { Reader r; r.check_kinds = false; return r.read(n); }

// what comparison looks at: neither regions, nor where a description stands, nor a name that the kind of a
// user makes meaningless
T compared(T t) {
    for (std::size_t i = 0; i < t.kids.size();) {
        bool unnamed = t.head == "privilege_user" && t.kids[i].first == "authorization_identifier" && t.get("user_kind")->head != "#identifier";
        if (t.kids[i].first == "description" || unnamed) { t.kids.erase(t.kids.begin() + long(i)); continue; }
        t.kids[i].second = compared(std::move(t.kids[i].second));
        ++i;
    }
    return t;
}

template<class N> long parts_of(N& n, std::vector<void const*>* at = nullptr) {
    Counter c;
    visit_node(n, c);
    if (at) *at = std::move(c.at);
    return c.parts;
}

// copies, and every change of one part of a copy
template<class N> void value(Worker& w, N& original, std::string const& hint, bool changes) {
    w.count("values");
    T before = tree_of(original);
    std::string text = dump(before, true);
    w.state(hash_text(text));
    N const& c = original;
    auto copy = clone_unique(c);
    T copied = tree_of(*copy);
    if (!same(before, copied, true)) { w.fail("copy", hint + ": a copy differs: " + first_difference(before, copied)); return; }
    w.expect(typeid(*copy) == typeid(original), "copy", hint, ": the copy is of another class");
    w.expect(original == *copy && *copy == original && !(original != *copy) && !(*copy != original), "equal", hint, ": a copy is not equal");
    w.expect(original == original && !(original != original), "equal", hint, ": not equal to itself");
    std::vector<void const*> a, b;
    long n = parts_of(original, &a);
    parts_of(*copy, &b);
    std::sort(a.begin(), a.end());
    for (auto* p : b) if (std::binary_search(a.begin(), a.end(), p)) { w.fail("copy", hint + ": a copy shares a part with the original"); break; }
    // moving copy
    {
        auto from = clone_unique(c);
        auto moved = clone_unique(std::move(*from));
        T t = tree_of(*moved);
        if (!same(before, t, true)) { w.fail("move", hint + ": a moved copy differs: " + first_difference(before, t)); return; }
        from.reset();
        T again = tree_of(*moved);
        w.expect(same(before, again, true), "move", hint, ": a moved copy depends on its source");
        w.expect(*moved == original, "move", hint, ": a moved copy is not equal");
    }
    if (!changes) return;
    T plain = compared(before);
    for (long at = 0; at < n; ++at) {
        for (int variant = 0; variant < 5; ++variant) {
            auto x = clone_unique(c);
            Changer ch { at, variant };
            visit_node(*x, ch);
            if (!ch.applied) continue;
            T t = tree_of(*x);
            bool eq = same(plain, compared(t), false);
            w.count(eq ? "changed only in regions" : "changed");
            bool e1 = original == *x, e2 = *x == original, e3 = original != *x, e4 = *x != original;
            w.expect(e1 == eq && e2 == eq && e3 == !eq && e4 == !eq, eq ? "region compared" : "difference missed",
                hint, ": after changing ", ch.where, " the two compare ", e1 ? "equal" : "different", e1 == e2 && e1 != e3 ? "" : " (and not consistently)",
                "\n  ", dump(before, false), "\n  ", dump(t, false));
            // the copy of the changed node is the changed node
            std::unique_ptr<N> y;
            try { y = clone_unique(std::as_const(*x)); }
            catch (std::exception const&) { w.count("invalid nodes"); continue; } // a kind the class does not take
            w.expect(same(t, tree_of(*y), true), "copy", hint, ": a copy taken after changing ", ch.where, " differs: ", first_difference(t, tree_of(*y)));
            auto z = clone_unique(std::move(*x));
            w.expect(same(t, tree_of(*z), true), "move", hint, ": a moved copy taken after changing ", ch.where, " differs");
        }
    }
    w.expect(same(before, tree_of(original), true), "copy", hint, ": changing copies changed the original");
}

struct Source { std::string text; };

std::vector<std::string> texts(int bound) {
    std::vector<std::string> v;
    std::set<std::string> seen;
    for (int kind = 0; kind < Gen::statement_kinds; ++kind) {
        Explorer ex(bound);
        ex.body = [&](Chooser& c) {
            Gen g(c);
            g.statement(kind);
            if (g.dup_option || g.with_in_operand) return true;
            if (seen.insert(g.text).second) v.push_back(g.text);
            return true;
        };
        ex.run();
    }
    return v;
}

// every distinct subtree of base N among the parts of the parsed statements
template<class N> struct Collect {
    std::vector<Item<N>>& out;
    std::set<std::string>& seen;
    std::size_t limit;
    template<class X> void enter(X* x, A::node_region&) {
        if constexpr (std::is_base_of_v<N, X>) {
            if (out.size() >= limit) return;
            T t = tree_of(static_cast<N const&>(*x));
            std::string s = dump(compared(t), false);
            if (seen.insert(s).second) out.push_back({clone_unique(static_cast<N const&>(*x)), std::move(t), s});
        }
    }
    void leave() {}
    void region(A::node_region&) {}
    template<class V> void slot(char const*, V& v) { descend(v, *this); }
};

template<class N> void pairs(Worker& w, std::string const& leg, std::vector<std::string> const& from, std::size_t limit) {
    static std::vector<Item<N>> pool;
    static bool once = [&] {
        std::set<std::string> seen;
        Collect<N> c {pool, seen, limit};
        for_made<N>([&](N& n) { c.enter(&n, n.region()); visit_node(n, c); });
        for (auto& t : from) {
            auto r = parser()("-", t);
            if (!r) continue;
            for (auto& s : r.value()->statements()) visit_node(*s, c);
        }
        return true;
    }();
    (void) once;
    w.enumerate(leg, pool.size(), [&](std::uint64_t i) {
        auto& a = pool[std::size_t(i)];
        w.state(hash_text(a.text));
        for (auto& b : pool) {
            bool eq = a.text == b.text;
            bool e1 = *a.node == *b.node, e2 = *a.node != *b.node;
            w.count(eq ? "equal pairs" : "different pairs");
            w.expect(e1 == eq && e2 == !eq, eq ? "equal" : "difference missed", "compare ", e1 ? "equal" : "different", ":\n  ", a.text, "\n  ", b.text);
        }
    });
}

void check(Worker& w) {
    static auto wide = texts(2);
    static auto narrow = texts(1);
    auto& pool = w.thorough ? wide : wide;
    w.enumerate("parsed", pool.size(), [&](std::uint64_t i) {
        auto r = parser()("-", pool[std::size_t(i)]);
        if (!r) return;
        for (auto& s : r.value()->statements()) value<A::statement::statement>(w, *s, "`" + pool[std::size_t(i)] + "`", w.thorough || i < 0 || true);
    });
    std::uint64_t made = 0;
    for_all_made([&](auto&) { ++made; });
    w.enumerate("made", made, [&](std::uint64_t i) {
        std::uint64_t k = 0;
        for_all_made([&](auto& n) {
            if (k++ != i) return;
            value(w, n, "made " + std::to_string(i) + " " + dump(tree_of(n), false), true);
        });
    });
    pairs<A::statement::statement>(w, "statement pairs", narrow, 4000);
    pairs<A::scalar::expression>(w, "scalar pairs", wide, w.thorough ? 6000 : 2500);
    pairs<A::query::expression>(w, "query pairs", wide, w.thorough ? 4000 : 2000);
    pairs<A::table::expression>(w, "table pairs", wide, 2000);
    pairs<A::type::type>(w, "type pairs", wide, 2000);
    pairs<A::literal::literal>(w, "literal pairs", wide, 2000);
    pairs<A::name::name>(w, "name pairs", wide, 2000);
    pairs<A::statement::constraint>(w, "constraint pairs", wide, 2000);
    pairs<A::statement::table_element>(w, "table element pairs", wide, 2000);
    pairs<A::query::select_element>(w, "select element pairs", wide, 2000);
    pairs<A::query::grouping_element>(w, "grouping element pairs", wide, 2000);
    pairs<A::table::join_specification>(w, "join specification pairs", wide, 2000);
    pairs<A::statement::alter_table_action>(w, "table action pairs", wide, 2000);
    pairs<A::statement::alter_index_action>(w, "index action pairs", wide, 2000);
}

} // namespace

int main(int argc, char** argv) { return harness_main(argc, argv, check); }
