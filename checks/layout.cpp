// Free-form layout: blanks, line breaks, comments and letter case between and inside tokens never change
// what a statement means; comments are reported where they are, and documentation comments are attached
// to the definition they precede.
#include <algorithm>
#include "refgrammar.h"
#include "ast_read.h"
#include "harness.h"
#include "parse_util.h"
#include "reflex.h"

using namespace mc;

static Model const& model() {
    static Model m = [] { Model x; x.load(MODEL_FILE); return x; }();
    return m;
}
static RefLexer const& ref() { static RefLexer r(model()); return r; }

namespace {

struct Doc { // a laid out text
    std::string text;
    std::vector<long> b, e;
    std::vector<std::vector<std::pair<long, long>>> gap; // comments before token i (last: after all)
    std::vector<std::pair<long, long>> comments;
};

// fillers[i] goes before token i
bool lay_out(std::vector<Tok> const& toks, std::vector<std::string> fillers, Doc& d) {
    for (int attempt = 0; attempt < 3; ++attempt) {
        d = Doc();
        for (std::size_t i = 0; i < toks.size(); ++i) {
            d.text += fillers[i];
            d.b.push_back(long(d.text.size()));
            d.text += toks[i].text;
            d.e.push_back(long(d.text.size()));
        }
        d.text += fillers[toks.size()];
        auto lex = ref()(d.text);
        bool same = lex.toks.size() == toks.size() + 1;
        for (std::size_t i = 0; same && i < toks.size(); ++i) same = lex.toks[i].b == d.b[i] && lex.toks[i].e == d.e[i];
        // a hex literal is one token, and so are the three phrases; otherwise tokens must stay apart
        if (same) {
            d.comments = lex.comments;
            d.gap.resize(toks.size() + 1);
            for (auto& c : lex.comments) {
                std::size_t g = 0;
                while (g < toks.size() && d.b[g] < c.second) ++g;
                d.gap[g].push_back(c);
            }
            return true;
        }
        bool changed = false;
        for (std::size_t i = 1; i < toks.size(); ++i) if (fillers[i].empty()) {
            // keep only those that may touch
            std::string two = toks[i - 1].text + toks[i].text;
            auto l2 = ref()(two);
            bool ok = l2.toks.size() == 3 && l2.toks[0].e == long(toks[i - 1].text.size()) && l2.comments.empty();
            if (!ok) { fillers[i] = " "; changed = true; }
        }
        // a comment mark after - or / would be read differently
        for (std::size_t i = 1; i <= toks.size(); ++i) {
            char last = toks[i - 1].text.back();
            if (!fillers[i].empty() && (last == '-' || last == '/') && (fillers[i][0] == '-' || fillers[i][0] == '/')) { fillers[i].insert(0, " "); changed = true; }
        }
        if (!changed) {
            // a longer run glued together: give every empty gap a blank
            for (std::size_t i = 1; i < toks.size(); ++i) if (fillers[i].empty()) { fillers[i] = " "; changed = true; }
        }
        if (!changed) return false;
    }
    return false;
}

void move(T& t, std::vector<Tok> const& toks, Doc const& d) {
    if (t.b >= 0 && t.e > t.b) {
        long nb = -1, ne = -1;
        for (std::size_t i = 0; i < toks.size(); ++i) {
            if (toks[i].b <= t.b && t.b < toks[i].e) nb = d.b[i] + (t.b - toks[i].b);
            if (toks[i].b < t.e && t.e <= toks[i].e) ne = d.e[i] - (toks[i].e - t.e);
        }
        t.b = nb;
        t.e = ne;
    }
    for (auto& k : t.kids) move(k.second, toks, d);
}

// the documentation comment in front of the token at p
bool describe(Doc const& d, long p, std::pair<long, long>& out) {
    for (std::size_t i = 0; i < d.b.size(); ++i) {
        if (d.b[i] != p) continue;
        for (auto it = d.gap[i].rbegin(); it != d.gap[i].rend(); ++it) {
            std::string s = d.text.substr(std::size_t(it->first), std::size_t(it->second - it->first));
            if (s.size() >= 5 && s.substr(0, 3) == "/**" && s.substr(s.size() - 2) == "*/") { out = *it; return true; }
        }
    }
    return false;
}
void add_descriptions(T& t, Doc const& d) {
    static std::set<std::string> const heads {"statement.table_definition", "statement.index_definition", "statement.view_definition",
        "statement.sequence_definition", "statement.schema_definition", "column_definition"};
    if (heads.count(t.head)) {
        std::pair<long, long> c;
        if (describe(d, t.b, c)) {
            T x("#description");
            x.at(c.first, c.second);
            t.add("description", std::move(x));
        }
    }
    for (auto& k : t.kids) add_descriptions(k.second, d);
}

void judge(Worker& w, std::vector<Tok> const& toks, T want, std::vector<std::string> const& fillers, bool descriptions = true) {
    Doc d;
    if (!lay_out(toks, fillers, d)) { w.count("not layable"); return; }
    w.count("traces");
    w.state(hash_text(d.text));
    move(want, toks, d);
    if (descriptions) add_descriptions(want, d);
    static thread_local mizugaki::parser::sql_parser parser;
    parser.options().enable_description_comments() = descriptions;
    auto r = parser("-", d.text);
    if (!r) { w.fail("rejected", "`" + d.text + "`: " + r.diagnostic().message()); return; }
    Reader rd;
    T got = rd.read(*r.value());
    got.kids.erase(std::remove_if(got.kids.begin(), got.kids.end(), [](auto const& k) { return k.first == "comments"; }), got.kids.end());
    if (!same(want, got, false)) { w.fail("structure", "`" + d.text + "`\n  expected " + dump(want, false) + "\n  actual   " + dump(got, false)); return; }
    if (!same(want, got, true)) { w.fail("region", "`" + d.text + "`\n  " + first_difference(want, got)); return; }
    auto& cs = r.value()->comments();
    bool ok = cs.size() == d.comments.size();
    for (std::size_t i = 0; ok && i < cs.size(); ++i) ok = long(cs[i].begin) == d.comments[i].first && long(cs[i].end) == d.comments[i].second;
    if (!ok) {
        std::string o;
        for (auto& c : cs) o += " " + std::to_string(c.begin) + "-" + std::to_string(c.end);
        w.fail("comments", "`" + d.text + "`: comments reported at" + o);
    }
    if (!d.comments.empty()) w.count("with comments");
    if (dump(want, false).find("#description") != std::string::npos) w.count("with description");
    w.sample(d.text);
}

std::string recase(std::string const& s, int mode) {
    std::string o = s;
    for (std::size_t i = 0; i < o.size(); ++i) {
        bool up = mode == 1 ? false : mode == 2 ? i % 2 == 0 : i % 2 == 1;
        o[i] = char(up ? std::toupper(o[i]) : std::tolower(o[i]));
    }
    return o;
}

} // namespace

static void check(Worker& w) {
    static std::vector<std::string> const F {"", "\n", "\r\n\t\v\f", "  ", "/**/", "/* c */", "--c\n", "--\r\n", "/** d */", "/***/", "--/* \n", "/*--\n*/", "/*'*/", "--\"\n",
        " /** a */ /* b */ ", "/* a */--x\n/** b */\n", "/** a *//** b */", "/** / * **/", "/*/*/"};
    auto texts = [&](std::string const& leg, int bound, int kind, std::vector<std::string> const& f, bool pairs) {
        w.explore(leg, bound, [&, kind](Chooser& c) {
            Gen g(c);
            T s = kind < 0 ? g.statement() : g.statement(kind);
            if (w.steering() || g.dup_option || g.with_in_operand) return;
            T u("compilation_unit");
            std::vector<T> v;
            v.push_back(std::move(s));
            u.add("statements", list(std::move(v)));
            std::size_t n = g.toks.size();
            std::vector<std::string> plain(n + 1, " ");
            plain[0] = plain[n] = "";
            for (auto& x : f) {
                judge(w, g.toks, u, std::vector<std::string>(n + 1, x));
                for (std::size_t i = 0; i <= n; ++i) {
                    auto p = plain;
                    p[i] = x;
                    judge(w, g.toks, u, p);
                }
            }
            { auto p = plain; p[n] = "-- end"; judge(w, g.toks, u, p); p[n] = "--"; judge(w, g.toks, u, p); p[n] = "\n/** x */"; judge(w, g.toks, u, p); }
            judge(w, g.toks, u, std::vector<std::string>(n + 1, "/** no */"), false);
            if (pairs) {
                std::vector<std::string> small {"", "/** d */", "/*c*/", "--c\n"};
                for (std::size_t i = 0; i <= n; ++i) for (std::size_t j = i + 1; j <= n; ++j)
                    for (auto& a : small) for (auto& b : small) { auto p = plain; p[i] = a; p[j] = b; judge(w, g.toks, u, p); }
            }
            // letter case of the words of the language
            for (int mode = 1; mode <= 3; ++mode) {
                auto toks = g.toks;
                for (auto& t : toks) {
                    auto lx = ref()(t.text);
                    bool word = lx.toks.size() == 2 && std::isalpha(static_cast<unsigned char>(t.text[0])) && lx.toks[0].token != "REGULAR_IDENTIFIER"
                        && lx.toks[0].token != "HEX_STRING_LITERAL";
                    if (word) t.text = recase(t.text, mode);
                    if (t.text.size() == 10 && RefLexer::upper(t.text) == "UNION JOIN") t.text[5] = mode == 1 ? '\n' : '\t';
                    if (t.text.size() == 11 && RefLexer::upper(t.text) == "OUTER APPLY") t.text[5] = mode == 1 ? '\n' : '\t';
                }
                judge(w, toks, u, plain);
            }
        });
    };
    int deep = w.thorough ? 1 : 0;
    texts("statement", 1 + deep, -1, F, true);
    std::vector<std::string> few {"", "/** d */", "--\n"};
    for (int k = 0; k < Gen::statement_kinds; ++k) texts("statement-" + std::to_string(k), 1 + deep, k, w.thorough ? few : F, true);
    for (int k = 4; k <= 8; ++k) texts("definition-" + std::to_string(k), 2 + deep, k, few, false);
    for (int k = 0; k < Gen::statement_kinds; ++k) texts("dense-" + std::to_string(k), 2, k, {""}, false);
}

int main(int argc, char** argv) { return harness_main(argc, argv, check); }
