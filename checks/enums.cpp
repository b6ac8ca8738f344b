// The constants of every enumeration: their texts, their sets, and the per-kind table of the parser
// options driven through every short history.
#include "harness.h"

#include <mizugaki/parser/sql_parser_options.h>
#include <mizugaki/parser/sql_parser_element_kind.h>
#include "enums_includes.inc"

using namespace mc;

namespace {

template<class T>
struct Enum {
    Enum(Worker& w, std::string name) : w(w), name(std::move(name)) {}
    Worker& w;
    std::string name;
    std::vector<std::pair<T, std::string>> all;
    void add(T v, char const* text) { all.emplace_back(v, text); }

    void judge() {
        std::size_t n = all.size();
        w.enumerate("text " + name, n, [&](std::uint64_t i) {
            auto& [v, text] = all[std::size_t(i)];
            std::string got(to_string_view(v));
            w.count("constants");
            w.state(hash_text(name + got));
            w.expect(got == text, "text", name, " #", i, ": text `", got, "`, expected `", text, "`");
            std::ostringstream s;
            std::ostream& r = (s << v);
            w.expect(&r == static_cast<std::ostream*>(&s), "print", name, " #", i, ": another stream was returned");
            s << "|" << v;
            w.expect(s.str() == text + "|" + text, "print", name, " #", i, ": printed `", s.str(), "`, expected `", text, "` twice");
            for (auto& [u, other] : all) {
                w.expect((u == v) == (other == text), "distinct", name, ": `", other, "` and `", text, "`");
                w.expect((to_string_view(u) == to_string_view(v)) == (u == v), "distinct", name, ": texts of `", other, "` and `", text, "`");
            }
        });
    }
    // every subset if few constants, else those of at most 2 members and their complements
    template<class S> void set() {
        std::size_t n = all.size();
        std::vector<std::vector<bool>> subsets;
        if (n <= 10) {
            for (std::size_t m = 0; m < (std::size_t(1) << n); ++m) {
                std::vector<bool> b(n);
                for (std::size_t k = 0; k < n; ++k) b[k] = (m >> k) & 1U;
                subsets.push_back(b);
            }
        } else {
            for (std::size_t a = 0; a < n; ++a) for (std::size_t b = a; b < n; ++b) for (bool inv : {false, true}) {
                std::vector<bool> v(n, inv);
                v[a] = v[b] = !inv;
                subsets.push_back(v);
            }
        }
        w.enumerate("set " + name, subsets.size(), [&](std::uint64_t i) {
            auto& b = subsets[std::size_t(i)];
            w.count("subsets");
            S s {};
            std::size_t size = 0;
            std::string want, got;
            for (std::size_t k = 0; k < n; ++k) if (b[k]) { s.insert(all[k].first); ++size; want += all[k].second + " "; }
            w.state(hash_text(name + want));
            for (std::size_t k = 0; k < n; ++k)
                w.expect(s.contains(all[k].first) == b[k], "set", name, " {", want, "}: ", all[k].second, b[k] ? " is missing" : " is in it");
            std::size_t seen = 0;
            for (auto v : s) { ++seen; bool in = false; for (std::size_t k = 0; k < n; ++k) in = in || (b[k] && all[k].first == v); w.expect(in, "set", name, " {", want, "}: another member"); }
            w.expect(s.size() == size && seen == size, "set", name, " {", want, "}: ", s.size(), " members, ", seen, " visited");
            for (std::size_t k = 0; k < n; ++k) s.erase(all[k].first);
            w.expect(s.empty(), "set", name, " {", want, "}: not empty after removing everything");
        });
    }
};

// ---- the per-kind table
using mizugaki::parser::sql_parser_element_kind;
using Kind = sql_parser_element_kind;
template<class V> using Map = mizugaki::parser::sql_parser_element_map<V>;
constexpr Kind kinds[] = {
    Kind::statement, Kind::schema_element_definition, Kind::table_element_definition, Kind::column_constraint_definition,
    Kind::column_reference, Kind::storage_parameter, Kind::set_clause, Kind::with_element, Kind::select_element,
    Kind::table_reference, Kind::grouping_element, Kind::ordering_element, Kind::field_definition, Kind::row_expression,
    Kind::scalar_expression, Kind::when_clause, Kind::string_literal_concatenation, Kind::privilege_action,
    Kind::privilege_object, Kind::privilege_user,
};
char const* const kind_names[] = {
    "statement", "schema_element_definition", "table_element_definition", "column_constraint_definition",
    "column_reference", "storage_parameter", "set_clause", "with_element", "select_element",
    "table_reference", "grouping_element", "ordering_element", "field_definition", "row_expression",
    "scalar_expression", "when_clause", "string_literal_concatenation", "privilege_action",
    "privilege_object", "privilege_user",
};
constexpr std::size_t N = std::size(kinds);

template<class M, std::size_t... I> auto get_table(M& m, std::index_sequence<I...>) {
    return std::array<decltype(&m.template get<kinds[0]>()), N> { &m.template get<kinds[I]>()... };
}

template<class V>
void judge_map(Worker& w, Map<V>& m, std::array<V, N> const& model, std::string const& how) {
    Map<V> const& c = m;
    auto a = get_table(m, std::make_index_sequence<N>());
    auto b = get_table(c, std::make_index_sequence<N>());
    std::ostringstream want;
    want << "{";
    for (std::size_t k = 0; k < N; ++k) {
        bool ok = m[kinds[k]] == model[k] && c[kinds[k]] == model[k] && *a[k] == model[k] && *b[k] == model[k];
        w.expect(ok, "table", how, ": ", kind_names[k], " is [", m[kinds[k]], " ", c[kinds[k]], " ", *a[k], " ", *b[k], "], expected ", model[k]);
        want << (k ? ", " : "") << kind_names[k] << ":" << model[k];
    }
    want << "}";
    std::ostringstream got;
    got << c;
    w.expect(got.str() == want.str(), "table print", how, ": `", got.str(), "`, expected `", want.str(), "`");
}

// a history: each step writes one entry through one of the two ways of access
template<class V>
void histories(Worker& w, std::string const& leg, int depth) {
    std::uint64_t ops = N * 2, total = 1;
    for (int d = 0; d < depth; ++d) total *= ops;
    w.enumerate(leg, total, [&](std::uint64_t i) {
        Map<V> m;
        std::array<V, N> model {};
        std::string how;
        judge_map(w, m, model, "initially");
        for (int d = 0; d < depth; ++d) {
            std::uint64_t op = i % ops;
            i /= ops;
            std::size_t k = std::size_t(op / 2);
            V v = V(d + 1);
            how += std::string(op % 2 ? " get " : " [] ") + kind_names[k];
            if (op % 2) *get_table(m, std::make_index_sequence<N>())[k] = v; else m[kinds[k]] = v;
            model[k] = v;
            w.state(hash_text(leg + how));
        }
        w.count("histories");
        judge_map(w, m, model, how);
        Map<V> copy = m;
        m[kinds[0]] = V(99);
        judge_map(w, copy, model, how + " copied");
    });
}

void lookup(Worker& w) {
    auto judge = [&](std::string const& s) {
        std::optional<Kind> want;
        for (std::size_t k = 0; k < N; ++k) if (s == kind_names[k]) want = kinds[k];
        auto got = mizugaki::parser::find_sql_parser_element_kind(s);
        w.state(hash_text("find " + s));
        w.count(want ? "found" : "not found");
        w.expect(got == want, "lookup", "`", s, "` finds ", got ? std::string(to_string_view(*got)) : "nothing", ", expected ", want ? "itself" : "nothing");
    };
    // every text one edit away from a name
    std::string alphabet = "abcdefghijklmnopqrstuvwxyz_ ABCZ019-";
    alphabet += '\0';
    alphabet += '\n';
    w.enumerate("lookup", N, [&](std::uint64_t i) {
        std::string s = kind_names[i];
        judge(s);
        for (std::size_t p = 0; p <= s.size(); ++p) {
            judge(s.substr(0, p));
            judge(s.substr(p));
            for (char ch : alphabet) {
                judge(s.substr(0, p) + ch + s.substr(p));
                if (p < s.size()) judge(s.substr(0, p) + ch + s.substr(p + 1));
            }
            if (p < s.size()) {
                judge(s.substr(0, p) + s.substr(p + 1));
                std::string u = s;
                u[p] = char(std::toupper(u[p]));
                judge(u);
                for (std::size_t q = p + 1; q < s.size(); ++q) { std::string t = s; std::swap(t[p], t[q]); judge(t); }
            }
        }
        for (auto* o : kind_names) {
            std::string t = o;
            judge(s + t);
            judge(s + "_" + t);
            for (std::size_t p = 1; p < s.size(); ++p) for (std::size_t q = 1; q < t.size(); ++q) judge(s.substr(0, p) + t.substr(q));
        }
        std::string u = s;
        for (auto& ch : u) ch = char(std::toupper(ch));
        judge(u);
    });
    std::uint64_t a = alphabet.size();
    w.enumerate("lookup short", 1 + a + a * a + a * a * a, [&](std::uint64_t i) {
        std::string s;
        if (i >= 1 + a + a * a) { i -= 1 + a + a * a; s = { alphabet[i % a], alphabet[i / a % a], alphabet[i / a / a] }; }
        else if (i >= 1 + a) { i -= 1 + a; s = { alphabet[i % a], alphabet[i / a] }; }
        else if (i >= 1) s = { alphabet[i - 1] };
        judge(s);
    });
    // constant evaluation and the constants of the table
    w.enumerate("kinds", N, [&](std::uint64_t i) {
        static_assert(mizugaki::parser::find_sql_parser_element_kind("statement") == Kind::statement);
        std::set<std::size_t> all;
        for (auto k : kinds) all.insert(std::size_t(k));
        std::size_t lo = std::size_t(mizugaki::parser::sql_parser_element_kind_first), hi = std::size_t(mizugaki::parser::sql_parser_element_kind_last);
        w.expect(all.size() == N && lo <= std::size_t(kinds[i]) && std::size_t(kinds[i]) <= hi, "kinds", kind_names[i], " is not between the first and the last kind");
    });
}

// ---- the options, as a record of independent fields
using mizugaki::parser::sql_parser_options;
struct Model {
    std::size_t candidates = 5, nodes = 0, depth = 0;
    bool descriptions = true;
    int debug = 0;
    std::array<std::size_t, N> limits {};
};
std::string judge_options(sql_parser_options& o, Model const& m) {
    sql_parser_options const& c = o;
    std::ostringstream r;
    auto t = [&](char const* n, auto a, auto b, auto e) { if (a != e || b != e) r << n << " is " << a << "/" << b << ", expected " << e << "; "; };
    t("max_expected_candidates", o.max_expected_candidates(), c.max_expected_candidates(), m.candidates);
    t("tree_node_limit", o.tree_node_limit(), c.tree_node_limit(), m.nodes);
    t("tree_depth_limit", o.tree_depth_limit(), c.tree_depth_limit(), m.depth);
    t("enable_description_comments", o.enable_description_comments(), c.enable_description_comments(), m.descriptions);
    t("debug", o.debug(), c.debug(), m.debug);
    for (std::size_t k = 0; k < N; ++k) t(kind_names[k], o.element_limits()[kinds[k]], c.element_limits()[kinds[k]], m.limits[k]);
    return r.str();
}
void options(Worker& w, int depth) {
    // 12 scalar writes, 3 limits, a move and a move assignment
    constexpr std::uint64_t ops = 12 + N + 2;
    std::uint64_t total = 1;
    for (int d = 0; d < depth; ++d) total *= ops;
    w.enumerate("options", total, [&](std::uint64_t i) {
        auto o = std::make_unique<sql_parser_options>();
        auto other = std::make_unique<sql_parser_options>();
        Model m;
        std::string how;
        auto wrong = judge_options(*o, m);
        w.expect(wrong.empty(), "options", "initially: ", wrong);
        for (int d = 0; d < depth; ++d) {
            int op = int(i % ops);
            i /= ops;
            how += " " + std::to_string(op);
            std::size_t v = std::size_t(100 + d);
            switch (op) {
            case 0: o->max_expected_candidates() = m.candidates = v; break;
            case 1: o->max_expected_candidates() = m.candidates = 0; break;
            case 2: o->max_expected_candidates() = m.candidates = std::size_t(-1); break;
            case 3: o->tree_node_limit() = m.nodes = v; break;
            case 4: o->tree_node_limit() = m.nodes = 0; break;
            case 5: o->tree_node_limit() = m.nodes = std::size_t(-1); break;
            case 6: o->tree_depth_limit() = m.depth = v; break;
            case 7: o->tree_depth_limit() = m.depth = std::size_t(-1); break;
            case 8: o->enable_description_comments() = m.descriptions = false; break;
            case 9: o->enable_description_comments() = m.descriptions = true; break;
            case 10: o->debug() = m.debug = int(v); break;
            case 11: o->debug() = m.debug = -1; break;
            default:
                if (op < 12 + int(N)) { o->element_limits()[kinds[op - 12]] = m.limits[std::size_t(op - 12)] = v; break; }
                if (op == 12 + int(N)) { auto p = std::make_unique<sql_parser_options>(std::move(*o)); o = std::move(p); }
                else { *other = std::move(*o); std::swap(o, other); other = std::make_unique<sql_parser_options>(); }
            }
            w.state(hash_text("options" + how));
        }
        w.count("option histories");
        wrong = judge_options(*o, m);
        w.expect(wrong.empty(), "options", "after", how, ": ", wrong);
        Model fresh;
        wrong = judge_options(*other, fresh);
        w.expect(wrong.empty(), "options", "another object after", how, ": ", wrong);
    });
}

} // namespace

void check(Worker& w) {
#if ENUMS
#include "enums.inc"
    lookup(w);
#else
    histories<int>(w, "table of int", w.thorough ? 4 : 3);
    histories<unsigned char>(w, "table of bytes", 2);
    histories<std::size_t>(w, "table of sizes", 2);
    histories<double>(w, "table of doubles", 2);
    options(w, w.thorough ? 4 : 3);
#endif
}

int main(int argc, char** argv) { return harness_main(argc, argv, check); }
