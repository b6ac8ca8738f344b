// Totality: whatever bytes are given, the parser answers, with either a tree or one diagnostic located
// inside the text, and the answer depends on the text and the options alone. Built with sanitizers.
#include "refgrammar.h"
#include "ast_read.h"
#include "harness.h"
#include "parse_util.h"

#include <takatori/document/basic_document.h>

using namespace mc;
using mizugaki::parser::sql_parser;
using mizugaki::parser::sql_parser_code;
using mizugaki::parser::sql_parser_result;

namespace {

bool inside(T const& t, long n, std::string& bad) {
    if (t.b >= 0 && (t.b > t.e || t.e > n)) { bad = t.head + "@" + std::to_string(t.b) + "-" + std::to_string(t.e); return false; }
    for (auto& k : t.kids) if (!inside(k.second, n, bad)) return false;
    return true;
}

std::string outcome(sql_parser_result const& r) {
    if (r.has_value()) {
        Reader rd;
        return "T" + dump(rd.read(*r.value()), true) + " nodes " + std::to_string(r.tree_node_count()) + " depth " + std::to_string(r.max_tree_depth());
    }
    auto& d = r.diagnostic();
    return "D" + text_of(d.code()) + "@" + std::to_string(d.region().begin) + "-" + std::to_string(d.region().end) + " " + std::string(d.message());
}

// deep trees are not read: their regions need not be looked at again
void judge(Worker& w, std::string const& text, bool read = true) {
    if (w.steering()) return;
    static thread_local sql_parser used;
    long n = long(text.size());
    w.state(hash_text(text));
    w.count("traces");
    auto r = used("-", text);
    std::string shown = "`" + text.substr(0, 200) + "`: ";
    if (!w.expect(r.has_value() != r.has_diagnostic(), "result", shown, "value ", r.has_value(), " diagnostic ", r.has_diagnostic())) return;
    w.expect(bool(r) == r.has_value(), "result", shown, "says it is no result");
    if (r.has_value()) {
        w.count("trees");
        if (!w.expect(bool(r.value()), "result", shown, "no tree")) return;
        auto& doc = r.value()->document();
        w.expect(doc && doc->contents(0, doc->size()) == text && doc->location() == "-", "document", shown, "the tree belongs to another document");
        if (read) {
            Reader rd;
            std::string bad;
            T t = rd.read(*r.value());
            w.expect(inside(t, n, bad), "region", shown, bad, " lies outside the text");
        }
    } else {
        auto& d = r.diagnostic();
        w.count("diagnostics " + text_of(d.code()));
        auto g = d.region();
        w.expect(bool(g) || g.begin == g.end, "diagnostic", shown, "not located");
        w.expect(g.begin <= g.end && long(g.end) <= n, "diagnostic region", shown, g.begin, "-", g.end, " of ", n, " bytes");
        w.expect(!d.message().empty(), "diagnostic", shown, "no message");
        w.expect(d.document() && d.document()->contents(0, d.document()->size()) == text, "document", shown, "the diagnostic belongs to another document");
        auto c = d.code();
        w.expect(c == sql_parser_code::syntax_error || c == sql_parser_code::invalid_character || c == sql_parser_code::invalid_token
            || c == sql_parser_code::unexpected_token || c == sql_parser_code::unexpected_eof, "diagnostic", shown, "code ", c);
        if (c == sql_parser_code::invalid_character && g.size() == 1) {
            auto ch = static_cast<unsigned char>(text[g.begin]);
            if (ch < 0x20) {
                char b[16];
                std::snprintf(b, sizeof b, "U+%04X", ch);
                w.expect(d.message().find(b) != std::string::npos, "diagnostic", shown, d.message(), " does not name ", b);
            } else {
                w.expect(d.message().find(char(ch)) != std::string::npos && d.message().find("control") == std::string::npos, "diagnostic", shown, d.message());
            }
        }
    }
    if (!read) return;
    // an answer depends on nothing but the text: a fresh parser, and one that has just failed, agree
    std::string first = outcome(r);
    sql_parser fresh;
    std::string second = outcome(fresh(std::make_shared<::takatori::document::basic_document>("-", text)));
    w.expect(first == second, "history", shown, "first ", first, " then ", second);
    w.sample(text + "  =>  " + first.substr(0, 120));
}

} // namespace

static void check(Worker& w) {
    bool deep = w.thorough;
    // all texts of up to two bytes
    w.enumerate("bytes-2", 1 + 256 + 65536, [&](std::uint64_t i) {
        std::string s;
        if (i >= 257) { s += char((i - 257) / 256); s += char((i - 257) % 256); }
        else if (i >= 1) s += char(i - 1);
        judge(w, s);
    });
    // one character of every class the language tells apart, bytes of every UTF-8 role
    static std::string const A = std::string("a1_'\";,.:()*/-+ \n\\%?&<=>!|[]{}@#$~^`E0x", 40) + std::string("\0\x01\x7f\x80\xbf\xc1\xc2\xe0\xf0\xf5\xff", 11);
    std::uint64_t n = A.size();
    w.enumerate("bytes-3", n * n * n, [&](std::uint64_t i) {
        std::string s {A[i / n / n], A[i / n % n], A[i % n]};
        judge(w, s);
    });
    static std::string const B("a1_'\"/*-\n;.\x80\xc3\0", 14);
    std::uint64_t m = B.size();
    std::uint64_t total = 1;
    int len = deep ? 6 : 4;
    for (int i = 0; i < len; ++i) total *= m;
    w.enumerate("bytes-n", total, [&](std::uint64_t i) {
        std::string s;
        for (int k = 0; k < len; ++k) { s += B[i % m]; i /= m; }
        judge(w, s, !deep || i % 16 == 0);
    });
    // damaged statements: cut short, one byte lost, one byte replaced, two neighbours swapped
    static std::string const R("'\"();,*/-.\0\x80 _9:", 16);
    auto damage = [&](std::string const& t) {
        for (std::size_t i = 0; i <= t.size(); ++i) {
            judge(w, t.substr(0, i));
            if (i < t.size()) {
                judge(w, t.substr(0, i) + t.substr(i + 1));
                for (char c : R) { auto x = t; x[i] = c; judge(w, x); }
            }
            for (char c : R) judge(w, t.substr(0, i) + c + t.substr(i));
            if (i + 1 < t.size()) { auto x = t; std::swap(x[i], x[i + 1]); judge(w, x); }
        }
    };
    for (int k = 0; k < Gen::statement_kinds; ++k)
        w.explore("damaged-" + std::to_string(k), deep ? 2 : 1, [&, k](Chooser& c) {
            Gen g(c);
            T s = g.statement(k);
            if (!w.steering()) damage(g.text);
        });
    w.explore("damaged-expression", deep ? 2 : 1, [&](Chooser& c) {
        Gen g(c);
        g.tok("DELETE"); g.tok("FROM");
        g.ident();
        g.tok("WHERE");
        g.expr();
        if (!w.steering()) damage(g.text);
    });
    // comments of every form at every one and two places between the words of a statement
    static std::vector<std::string> const C {"/** d */", "--\n", "/**/", "/***/", "/** d", "--", "/*/", "/** d */ /* c */"};
    for (int k = 0; k < Gen::statement_kinds; ++k)
        w.explore("commented-" + std::to_string(k), deep ? 2 : 1, [&, k](Chooser& c) {
            Gen g(c);
            g.statement(k);
            if (w.steering()) return;
            auto& t = g.text;
            std::vector<std::size_t> at;
            for (auto& x : g.toks) at.push_back(std::size_t(x.b));
            at.push_back(t.size());
            for (std::size_t i = 0; i < at.size(); ++i) {
                for (auto& x : C) {
                    std::string one = t.substr(0, at[i]) + x + t.substr(at[i]);
                    judge(w, one);
                    w.count("commented");
                }
                for (std::size_t j = i + 1; j < at.size(); ++j)
                    for (std::size_t m = 0; m < 9; ++m)
                        judge(w, t.substr(0, at[i]) + C[m / 3] + t.substr(at[i], at[j] - at[i]) + C[m % 3] + t.substr(at[j]), !deep);
            }
        });
    // every repeatable construct, repeated
    static std::vector<std::array<std::string, 3>> const P {
        {"SELECT ", "(", ""}, {"SELECT a ", ")", ""}, {"SELECT ", "NOT ", "a FROM t"}, {"SELECT ", "- ", "1 FROM t"}, {"SELECT a", " + a", " FROM t"},
        {"SELECT a", ".a", " FROM t"}, {"SELECT a", ", a", " FROM t"}, {"SELECT * FROM t", ", t", ""}, {"SELECT * FROM t", " CROSS JOIN t", ""},
        {"SELECT * FROM t", " UNION SELECT * FROM t", ""}, {"", ";", ""}, {"", "SELECT * FROM t;", ""}, {"INSERT INTO t VALUES (1)", ", (1)", ""},
        {"CREATE TABLE t (a INT", ", a INT", ")"}, {"SELECT 'a'", "\n'a'", " FROM t"}, {"SELECT a FROM t WHERE ", "a AND ", "a"}, {"SELECT ", "CASE WHEN a THEN ", ""},
        {"SELECT a", " IS TRUE", " FROM t"}, {"SELECT a", "[1]", " FROM t"}, {"SELECT a", "->b", " FROM t"}, {"/*", "*", "*/"}, {"--", "-", "\n"}, {"SELECT '", "''", "' FROM t"},
        {"SELECT \"a", "\"\"", "\" FROM t"}, {"SELECT 1", "0", " FROM t"}, {"CREATE TABLE t (a CHAR(1", "0", "))"}, {"SELECT a", "a", " FROM t"}, {"", "/**/", ""}, {"", "\n", ""},
        {"SELECT f(", "f(", ""}, {"SELECT CAST(", "CAST(", ""}, {"SELECT ", "((", "1"}, {"WITH a AS (SELECT * FROM t)", ", a AS (SELECT * FROM t)", " SELECT * FROM a"},
    };
    static std::vector<int> const N {1, 2, 3, 10, 100, 257, 1000};
    w.enumerate("repeated", P.size() * N.size(), [&](std::uint64_t i) {
        auto& p = P[i / N.size()];
        int k = N[i % N.size()];
        std::string s = p[0];
        for (int j = 0; j < k; ++j) s += p[1];
        std::string open = s + p[2];
        judge(w, open, k <= 257);
        // and closed again, where the construct nests
        std::string close = p[1].find("CASE") != std::string::npos ? " END" : p[1].find("CAST") != std::string::npos ? " AS INT)" : p[1] == "((" ? "))" : p[1].find('(') != std::string::npos ? ")" : "";
        if (!close.empty()) {
            std::string t = s + "1";
            for (int j = 0; j < k; ++j) t += close;
            if (p[0].find("f(") != std::string::npos) t += ")";
            if (p[0].find("CAST(") != std::string::npos) t += " AS INT)";
            judge(w, t + " FROM t", k <= 257);
        }
    });
    // sequences of different texts through one parser: the answer to the last one is the answer it gets alone
    static std::vector<std::string> const H {"SELECT a FROM t", "SELECT", "/* open", "/** d */ CREATE TABLE t (a INT)", "SELECT ? FROM t", "SELECT \x80", "'", "-- c", ";;", "SELECT a.b.c, ?, ? FROM t; DELETE FROM t",
        "SELECT NEXT VALUE FOR a.b FROM t", "CREATE SEQUENCE s START WITH 1 START WITH 2"};
    std::uint64_t h = H.size();
    w.enumerate("histories", h * h * h * (deep ? h : 1), [&](std::uint64_t i) {
        std::vector<std::string> seq;
        for (std::uint64_t k = i, j = 0; j < (deep ? 4 : 3); ++j) { seq.push_back(H[k % h]); k /= h; }
        sql_parser p;
        std::string last;
        for (auto& s : seq) last = outcome(p("-", s));
        sql_parser q;
        std::string alone = outcome(q("-", seq.back()));
        w.count("traces");
        std::string all;
        for (auto& s : seq) all += s + " | ";
        w.state(hash_text(all));
        w.expect(last == alone, "history", "after ", all, " the answer is ", last, " instead of ", alone);
    });
}

int main(int argc, char** argv) { return harness_main(argc, argv, check); }
