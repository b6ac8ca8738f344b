// Names, literals, sizes and parameters keep exactly what was written: every token text over small
// alphabets is parsed in place and what the tree holds is compared with what the text says.
#include "refgrammar.h"
#include "ast_read.h"
#include "harness.h"
#include "parse_util.h"
#include "reflex.h"
#include "relayout.h"

using namespace mc;
using mizugaki::parser::sql_parser_code;
using K = mizugaki::ast::literal::kind;
using IK = mizugaki::ast::name::identifier_kind;
namespace A = mizugaki::ast;

static Model const& model() {
    static Model m = [] { Model x; x.load(MODEL_FILE); return x; }();
    return m;
}
static RefLexer const& ref() { static RefLexer r(model()); return r; }

namespace {

T at(T t, long b, long e) { return std::move(t.at(b, e)); }
T name(std::string id, IK k, long b, long e) {
    T t = Gen::nd("name.simple");
    t.add("identifier", leaf(std::move(id)));
    t.add("identifier_kind", Gen::en(k));
    return at(std::move(t), b, e);
}
T literal(T l, long b, long e) {
    T t = Gen::nd("scalar.literal_expression");
    t.add("value", at(std::move(l), b, e));
    return at(std::move(t), b, e);
}
std::string unquote(std::string const& s) {
    std::string o;
    for (std::size_t i = 1; i + 1 < s.size(); ++i) { o += s[i]; if (s[i] == '"') ++i; }
    return o;
}

// the expression a single word stands for; empty when it is none
T meaning(Lexeme const& l, std::string const& s) {
    std::string x = s.substr(std::size_t(l.b), std::size_t(l.e - l.b));
    auto wrap = [&](T n) { T t = Gen::nd("scalar.variable_reference"); t.add("name", std::move(n)); return at(std::move(t), l.b, l.e); };
    static std::set<std::string> const contextual {"ASC", "CONTINUE", "DESC", "KEY", "IGNORE", "SCHEMA", "SEQUENCE", "RESTART", "RESTRICT", "RENAME",
        "FIRST", "LAST", "ORDINALITY", "VALUE"};
    if (l.token == "REGULAR_IDENTIFIER" || contextual.count(l.token)) return wrap(name(x, IK::regular, l.b, l.e));
    if (l.token == "DELIMITED_IDENTIFIER") return wrap(name(unquote(x), IK::delimited, l.b, l.e));
    auto number = [&](K k) { T t = Gen::nd("literal.numeric"); t.add("value_kind", Gen::en(k)); t.add("unsigned_value", leaf(x)); return literal(std::move(t), l.b, l.e); };
    if (l.token == "UNSIGNED_INTEGER" || l.token == "EXACT_NUMERIC_LITERAL") return number(K::exact_numeric);
    if (l.token == "APPROXIMATE_NUMERIC_LITERAL") return number(K::approximate_numeric);
    if (l.token == "CHARACTER_STRING_LITERAL") {
        T t = Gen::nd("literal.string");
        t.add("value_kind", Gen::en(K::character_string));
        t.add("value", leaf(x, l.b, l.e));
        return literal(std::move(t), l.b, l.e);
    }
    if (l.token == "HEX_STRING_LITERAL") {
        T t = Gen::nd("literal.string");
        t.add("value_kind", at(Gen::en(K::hex_string), l.b, l.b + 1));
        t.add("value", leaf(x.substr(1), l.b + 1, l.e));
        return literal(std::move(t), l.b, l.e);
    }
    if (l.token == "HOST_PARAMETER_NAME") {
        T t = Gen::nd("scalar.host_parameter_reference");
        t.add("name", name(x, IK::regular, l.b, l.e));
        return at(std::move(t), l.b, l.e);
    }
    if (l.token == "QUESTION" || x == "?") { T t = Gen::nd("scalar.placeholder_reference"); t.add("index", leaf("1")); return at(std::move(t), l.b, l.e); }
    return {};
}

mizugaki::parser::sql_parser& parser() { static thread_local mizugaki::parser::sql_parser p; return p; }

T const* first_value(T const& u) {
    T const* s = u.get("statements");
    if (!s || s->kids.size() != 1) return nullptr;
    s = s->kids[0].second.get("expression");
    if (!s) return nullptr;
    s = s->get("elements");
    if (!s || s->kids.size() != 1) return nullptr;
    return s->kids[0].second.get("value");
}

void judge_word(Worker& w, std::string const& x) {
    std::string s = "SELECT " + x + " FROM t";
    auto lex = ref()(s);
    if (lex.toks.size() < 5 || lex.toks[lex.toks.size() - 3].token != "FROM" || !lex.comments.empty()) return;
    std::vector<Lexeme> in(lex.toks.begin() + 1, lex.toks.end() - 3);
    T want;
    bool restricted = in.size() == 1 && in[0].token.find("RESTRICTED") != std::string::npos;
    if (in.size() == 1) {
        want = meaning(in[0], s);
    } else {
        // adjacent string literals form one literal
        for (auto& l : in) {
            if (l.token != "CHARACTER_STRING_LITERAL" && !(l.token == "HEX_STRING_LITERAL" && &l == &in[0])) return;
        }
        want = meaning(in[0], s);
        std::vector<T> v;
        for (std::size_t i = 1; i < in.size(); ++i) v.push_back(leaf(s.substr(std::size_t(in[i].b), std::size_t(in[i].e - in[i].b)), in[i].b, in[i].e));
        T& lit = want.kids[0].second;
        lit.add("concatenations", list(std::move(v)));
        lit.e = want.e = in.back().e;
        w.count("concatenated");
    }
    if (!want && !restricted) return;
    w.count("traces");
    w.state(hash_text(s));
    auto r = parser()("-", s);
    std::string shown = "`" + s + "`";
    if (restricted) {
        w.count("restricted");
        if (!w.expect(!r, "restricted name", shown, " is accepted")) return;
        auto& d = r.diagnostic();
        w.expect(d.code() == sql_parser_code::invalid_token && long(d.region().begin) == in[0].b && long(d.region().end) == in[0].e, "restricted name",
            shown, " reported as ", d.code(), " at ", d.region().begin, "-", d.region().end);
        return;
    }
    if (!r) { w.fail("rejected", shown + ": " + r.diagnostic().message()); return; }
    w.count(in[0].token);
    Reader rd;
    T u = rd.read(*r.value());
    T const* got = first_value(u);
    if (!w.expect(got, "structure", shown, " is not a single value: ", dump(u, false))) return;
    if (!same(want, *got, true)) w.fail("value", shown + "\n  expected " + dump(want, true) + "\n  actual   " + dump(*got, true));
    w.sample(s + "  =>  " + dump(want, false));
}

void words(Worker& w, std::string const& leg, std::vector<std::string> const& a, int len, std::string const& pre = "", std::string const& post = "") {
    for (int l = 1; l <= len; ++l) {
        std::uint64_t n = 1;
        for (int i = 0; i < l; ++i) n *= a.size();
        w.enumerate(leg + "-" + std::to_string(l), n, [&](std::uint64_t i) {
            std::string s;
            for (int k = 0; k < l; ++k) { s += a[std::size_t(i % a.size())]; i /= a.size(); }
            judge_word(w, pre + s + post);
        });
    }
}

// ---------------------------------------------------------------- sizes
void judge_size(Worker& w, std::string const& digits) {
    // decimal value, exact up to 2^64
    unsigned __int128 v = 0;
    bool huge = false;
    for (char c : digits) { v = v * 10 + unsigned(c - '0'); if (v > (static_cast<unsigned __int128>(1) << 70)) huge = true; }
    bool fits = !huge && v < static_cast<unsigned __int128>(~0ULL);
    static struct { char const* pre; char const* post; char const* head; char const* slot; } const C[] = {
        {"CHAR(", ")", "type.character_string", "length"}, {"VARCHAR(", ")", "type.character_string", "length"}, {"BINARY(", ")", "type.octet_string", "length"},
        {"VARBINARY(", ")", "type.octet_string", "length"}, {"DECIMAL(", ")", "type.decimal", "precision"}, {"DECIMAL(1,", ")", "type.decimal", "scale"}, {"NUMERIC(2,", ")", "type.decimal", "scale"},
        {"INT ARRAY[", "]", "type.collection", "length"}};
    for (auto& c : C) {
        std::string s = std::string("CREATE TABLE t (c ") + c.pre + digits + c.post + ")";
        long b = long(std::string("CREATE TABLE t (c ").size() + std::string(c.pre).size());
        auto r = parser()("-", s);
        w.count("traces");
        w.state(hash_text(s));
        if (!fits) {
            w.count("oversize");
            if (!w.expect(!r, "size", "`", s, "` is accepted although the size cannot be represented")) continue;
            w.expect(long(r.diagnostic().region().begin) == b && long(r.diagnostic().region().end) == b + long(digits.size()), "size location", "`", s, "` reported at ",
                r.diagnostic().region().begin, "-", r.diagnostic().region().end);
            continue;
        }
        if (!r) { w.fail("size", "`" + s + "`: " + r.diagnostic().message()); continue; }
        w.count("sizes");
        Reader rd;
        T u = rd.read(*r.value());
        T const* ty = u.get("statements")->kids.at(0).second.get("elements")->kids.at(0).second.get("type");
        T const* z = ty && ty->head == c.head ? ty->get(c.slot) : nullptr;
        if (!w.expect(z, "size", "`", s, "`: ", dump(u, false))) continue;
        std::string n = digits;
        n.erase(0, std::min(n.find_first_not_of('0'), n.size() - 1));
        w.expect(z->head == "#" + n && z->b == b && z->e == b + long(digits.size()), "size", "`", s, "`: ", dump(*z, true), " instead of ", n, "@", b);
    }
}

// ---------------------------------------------------------------- signs
struct Signs {
    // expr := ('+'|'-') expr | '(' expr ')' | atom
    std::vector<std::string> const& t;
    std::vector<std::pair<long, long>> const& p;
    std::size_t i = 0;
    bool bad = false;
    T parse() {
        if (i >= t.size()) { bad = true; return {}; }
        std::size_t k = i++;
        if (t[k] == "+" || t[k] == "-") {
            bool plus = t[k] == "+";
            T x = parse();
            if (bad) return {};
            long e = p[i - 1].second;
            if (x.head == "scalar.literal_expression") {
                T& v = x.kids[0].second;
                if (v.head == "literal.numeric" && !v.get("sign")) {
                    v.kids.insert(v.kids.begin() + 1, {"sign", at(Gen::en(plus ? A::literal::sign::plus : A::literal::sign::minus), p[k].first, p[k].second)});
                    return at(std::move(x), p[k].first, e);
                }
            }
            T u = Gen::nd("scalar.unary_expression");
            u.add("operator_kind", at(Gen::en(plus ? A::scalar::unary_operator::plus : A::scalar::unary_operator::minus), p[k].first, p[k].second));
            u.add("operand", std::move(x));
            return at(std::move(u), p[k].first, e);
        }
        if (t[k] == "(") {
            T x = parse();
            if (bad || i >= t.size() || t[i] != ")") { bad = true; return {}; }
            ++i;
            return x;
        }
        if (t[k] == ")") { bad = true; return {}; }
        auto l = ref()(t[k]);
        Lexeme lx = l.toks[0];
        lx.b = p[k].first; lx.e = p[k].second;
        std::string pad(std::size_t(p[k].first), ' ');
        return meaning(lx, pad + t[k]);
    }
};

void collect_marks(T const& t, std::map<long, std::string>& out) {
    if (t.head == "scalar.placeholder_reference") out[t.b] = t.get("index")->head;
    for (auto& k : t.kids) collect_marks(k.second, out);
}

} // namespace

static void check(Worker& w) {
    int d = w.thorough ? 1 : 0;
    using namespace std::string_literals;
    words(w, "delimited", {"\"", "a", "_", " ", "'"}, 6 + d);
    words(w, "delimited-bytes", {"\"", "\xc3\xa9", "\xff", "\t", "\0"s, "\x7f", "-", "?"}, 3, "\"", "\"");
    words(w, "regular", {"a", "Z", "_", "0", "9"}, 5 + d);
    words(w, "string", {"'", "a", "\"", "\n", "?"}, 6 + d);
    words(w, "string-bytes", {"''", "\xc3\xa9", "\xff", "\0"s, "--", "/*", "%", "\\", "\r"}, 3, "'", "'");
    words(w, "strings", {"'a'", "''", "X'0a'", " ", "\n", "x'F'", "'b''c'"}, 4 + d / 2);
    words(w, "hex", {"X", "'", "0", "a", "G"}, 6 + d);
    words(w, "number", {"0", "1", "9", ".", "e", "E", "-", "+"}, 5 + d / 2);
    words(w, "host", {":", "a", "_", "1", "K"}, 5 + d);
    words(w, "mark", {"?", " ", "\n"}, 4);
    // every word of the language, in both cases
    auto& terms = model().terms;
    w.enumerate("keywords", terms.size(), [&](std::uint64_t i) {
        auto& t = terms[std::size_t(i)];
        if (t.lexeme == "-" || !std::isalpha(static_cast<unsigned char>(t.lexeme[0]))) return;
        std::string l = t.lexeme;
        judge_word(w, l);
        for (auto& c : l) c = char(std::tolower(c));
        judge_word(w, l);
        judge_word(w, l + "_");
        judge_word(w, "_" + l);
        judge_word(w, l + "0");
        judge_word(w, "\"" + l + "\"");
        if (l.size() > 1) judge_word(w, l.substr(1)), judge_word(w, l.substr(0, l.size() - 1));
    });
    // sizes: every digit string up to four digits, and the neighbourhoods of the powers of two and ten
    static std::vector<std::string> const Z = [] {
        std::set<std::string> z;
        auto add = [&](unsigned __int128 v) {
            std::string s;
            do { s.insert(s.begin(), char('0' + int(v % 10))); v /= 10; } while (v);
            z.insert(s);
            z.insert("0" + s);
            z.insert("0000" + s);
        };
        for (int k = 0; k < 68; ++k) for (int q = -2; q <= 2; ++q) if (k > 2 || q >= 0) add((static_cast<unsigned __int128>(1) << k) + q);
        unsigned __int128 p = 1;
        for (int k = 0; k < 25; ++k, p *= 10) for (int q = -1; q <= 1; ++q) if (p + q < p * 100) add(p + q);
        return std::vector<std::string>(z.begin(), z.end());
    }();
    w.enumerate("size-edges", Z.size(), [&](std::uint64_t i) { judge_size(w, Z[i]); });
    w.enumerate("sizes", w.thorough ? 100000 : 2000, [&](std::uint64_t i) { judge_size(w, std::to_string(i)); });
    // signs: every string of signs, parentheses and operands
    static std::vector<std::string> const S {"+", "-", "(", ")", "1", "2.5", "3e0", "a", "'s'"};
    for (int len = 1; len <= 6 + d / 2; ++len) {
        std::uint64_t n = 1;
        for (int i = 0; i < len; ++i) n *= S.size();
        w.enumerate("signs-" + std::to_string(len), n, [&](std::uint64_t i) {
            std::vector<std::string> t;
            std::vector<std::pair<long, long>> p;
            std::string s = "SELECT";
            for (int k = 0; k < len; ++k) {
                t.push_back(S[std::size_t(i % S.size())]);
                i /= S.size();
                s += ' ';
                p.push_back({long(s.size()), long(s.size() + t.back().size())});
                s += t.back();
            }
            Signs g {t, p};
            T want = g.parse();
            if (g.bad || g.i != t.size()) return;
            s += " FROM t";
            w.count("signed");
            w.count("traces");
            w.state(hash_text(s));
            auto r = parser()("-", s);
            if (!r) { w.fail("rejected", "`" + s + "`: " + r.diagnostic().message()); return; }
            Reader rd;
            T u = rd.read(*r.value());
            T const* got = first_value(u);
            if (!got || !same(want, *got, true)) w.fail("sign", "`" + s + "`\n  expected " + dump(want, true) + "\n  actual   " + (got ? dump(*got, true) : dump(u, true)));
        });
    }
    // placeholders are numbered in the order they are written
    static std::vector<std::string> const P {"?", "'?'", "\"?\"", "/*?*/ x", "x --?\n", "f(?, ?)", "(SELECT ? FROM t WHERE ? = y)", "CASE ? WHEN ? THEN y ELSE ? END",
        "? BETWEEN ? AND ?", "CAST(? AS INT)", "(?, ?)", ":h"};
    std::uint64_t pn = P.size();
    int plen = w.thorough ? 4 : 3;
    for (int len = 1; len <= plen; ++len) {
        std::uint64_t n = 1;
        for (int i = 0; i < len; ++i) n *= pn;
        w.enumerate("placeholders-" + std::to_string(len), n * 4, [&](std::uint64_t i) {
            int shape = int(i % 4);
            i /= 4;
            std::string s = shape == 3 ? "UPDATE t SET " : "SELECT ";
            for (int k = 0; k < len; ++k) {
                if (k) s += shape == 1 && k == 1 ? " FROM t WHERE " : shape == 1 ? " AND " : shape == 2 ? " FROM t; SELECT " : ", ";
                if (shape == 3) s += "c = ";
                s += P[std::size_t(i % pn)];
                i /= pn;
            }
            if (shape != 3 && !(shape == 1 && len > 1)) s += " FROM t";
            auto lex = ref()(s);
            std::map<long, std::string> want, got;
            int k = 0;
            for (auto& l : lex.toks) if (s.compare(std::size_t(l.b), std::size_t(l.e - l.b), "?") == 0 && l.e > l.b) want[l.b] = "#" + std::to_string(++k);
            auto r = parser()("-", s);
            w.count("traces");
            w.state(hash_text(s));
            if (!r) { w.fail("rejected", "`" + s + "`: " + r.diagnostic().message()); return; }
            Reader rd;
            collect_marks(rd.read(*r.value()), got);
            w.count("placeholders", want.size());
            std::string o;
            for (auto& x : got) o += " " + std::to_string(x.first) + ":" + x.second;
            w.expect(want == got, "placeholder", "`", s, "` has placeholders", o);
        });
    }
    // the words that are reserved in some places only are names in all others
    static std::vector<std::string> const C {"ASC", "Continue", "desc", "KEY", "IGNORE", "SCHEMA", "SEQUENCE", "RESTART", "RESTRICT", "RENAME", "FIRST", "LAST", "ORDINALITY", "VALUE"};
    for (int kind = 0; kind < Gen::statement_kinds; ++kind)
        w.explore("contextual-" + std::to_string(kind), w.thorough ? 3 : 2, [&, kind](Chooser& c) {
            Gen g(c);
            T s = g.statement(kind);
            if (w.steering() || g.dup_option || g.with_in_operand) return;
            T u = unit_of(std::move(s));
            for (std::size_t i = 0; i < g.toks.size(); ++i) {
                std::string const& x = g.toks[i].text;
                if (x[0] != 'n' || x.size() < 2 || !std::isdigit(static_cast<unsigned char>(x[1]))) continue;
                for (auto& word : C) {
                    auto toks = g.toks;
                    toks[i].text = word;
                    std::vector<long> nb, ne;
                    std::string text = spell_toks(toks, nb, ne);
                    T want = u;
                    move_tree(want, g.toks, nb, ne);
                    rename_leaf(want, "#" + x, "#" + word);
                    auto r = parser()("-", text);
                    w.count("traces");
                    w.count("contextual");
                    w.state(hash_text(text));
                    if (!r) { w.fail("contextual word", "`" + text + "`: " + r.diagnostic().message()); continue; }
                    Reader rd;
                    T got = rd.read(*r.value());
                    if (!same(want, got, true)) w.fail("contextual word", "`" + text + "`\n  expected " + dump(want, true) + "\n  actual   " + dump(got, true));
                }
            }
        });
}

int main(int argc, char** argv) { return harness_main(argc, argv, check); }
