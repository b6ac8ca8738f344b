// Lexical structure: all short texts over representative alphabets, all words and their neighbours,
// scanned by the real scanner and by the reference one.
#include "harness.h"
#include "reflex.h"

#include <takatori/document/basic_document.h>
#include <mizugaki/parser/sql_driver.h>
#include <mizugaki/parser/sql_scanner.h>
#include "parse_util.h"

using namespace mc;

static Model const& model() {
    static Model m = [] { Model x; x.load(MODEL_FILE); return x; }();
    return m;
}
static RefLexer const& ref() { static RefLexer r(model()); return r; }

static std::string visible(std::string const& s) {
    std::string o;
    for (unsigned char c : s) {
        if (c < 0x20 || c >= 0x7f) { char b[8]; std::snprintf(b, sizeof b, "\\x%02x", c); o += b; }
        else o += char(c);
    }
    return o;
}

static std::string render(LexResult const& r) {
    std::string o;
    for (auto& t : r.toks) o += t.token + "@" + std::to_string(t.b) + "-" + std::to_string(t.e) + " ";
    for (auto& c : r.comments) o += "comment@" + std::to_string(c.first) + "-" + std::to_string(c.second) + " ";
    return o;
}

static LexResult scan(std::string const& text) {
    using namespace mizugaki::parser;
    static std::map<int, std::string> names = [] {
        std::map<std::string, std::string> by_show;
        for (auto& t : model().terms) by_show[t.show] = t.token;
        std::map<int, std::string> n;
        for (int k = 0; k < model().nterm(); ++k) {
            auto it = by_show.find(sql_parser_generated::symbol_name(static_cast<sql_parser_generated::symbol_kind_type>(k)));
            n[k] = it == by_show.end() ? "symbol " + std::to_string(k) : it->second;
        }
        return n;
    }();
    std::istringstream in(text);
    sql_scanner scanner {in};
    sql_driver driver {std::make_shared<takatori::document::basic_document>("-", text)};
    LexResult r;
    for (std::size_t guard = 0; guard <= text.size() + 1; ++guard) {
        auto t = scanner.next_token(driver);
        auto k = t.kind();
        std::string name = names[int(k)];
        r.toks.push_back({name, long(t.location.begin), long(t.location.end)});
        if (name == "END_OF_FILE" || name == "UNCLOSED_BLOCK_COMMENT") break;
    }
    for (auto& c : driver.comments()) r.comments.push_back({long(c.begin), long(c.end)});
    return r;
}

static void judge(Worker& w, std::string const& text) {
    auto want = ref()(text);
    auto got = scan(text);
    bool same = want.toks.size() == got.toks.size() && want.comments == got.comments;
    for (std::size_t i = 0; same && i < want.toks.size(); ++i) {
        same = want.toks[i].token == got.toks[i].token && want.toks[i].b == got.toks[i].b && want.toks[i].e == got.toks[i].e;
    }
    w.count("tokens", got.toks.size());
    for (auto& t : got.toks) if (t.token == "ERROR") { w.count("error tokens"); break; }
    if (!got.comments.empty()) w.count("comments");
    std::string sig;
    for (auto& t : want.toks) { sig += t.token; sig += std::to_string(t.e - t.b); sig += ' '; }
    w.state(hash_text(sig));
    if (!same) { w.fail("tokens", "`" + visible(text) + "` expected " + render(want) + " actual " + render(got)); return; }
    w.sample(visible(text) + " => " + render(want));
}

static void strings(Worker& w, std::string const& leg, std::vector<std::string> const& a, int len) {
    std::uint64_t n = 1;
    for (int i = 0; i < len; ++i) n *= a.size();
    w.enumerate(leg, n, [&](std::uint64_t i) {
        std::string s;
        for (int k = 0; k < len; ++k) { s += a[std::size_t(i % a.size())]; i /= a.size(); }
        judge(w, s);
    });
}

static void check(Worker& w) {
    using namespace std::string_literals;
    std::vector<std::string> full {"A", "x", "e", "_", "0", "7", "'", "\"", ";", ".", "*", ":", "/", "-", "+", "<", ">", "=", "!", "@",
        "&", "|", "(", ")", "[", "]", "{", "}", "?", "%", "^", ",", "$", "#", "\\", "~", "`", " ", "\n", "\r", "\t", "\v", "\f", "\0"s, "\x01", "\x1f", "\x7f", "\x80",
        "\xbf", "\xc1", "\xc3", "\xe3", "\xf0", "\xf4", "\xf5", "\xff"};
    strings(w, "chars-1", full, 1);
    strings(w, "chars-2", full, 2);
    strings(w, "chars-3", full, 3);
    std::vector<std::string> mid {"x", "E", "_", "1", "'", "\"", ".", "*", ":", "/", "-", "<", ">", "@", "|", "=", " ", "\n", "\r", "\x01", "\xc3", "\xa9"};
    strings(w, "chars-4", mid, 4);
    if (w.thorough) { strings(w, "chars-4-full", full, 4); strings(w, "chars-5", mid, 5); }
    // bytes
    w.enumerate("bytes-2", 256 * 256, [&](std::uint64_t i) { judge(w, std::string {char(i & 0xff), char(i >> 8U)}); });
    // comments, strings, names, numbers: longer texts over small alphabets
    int l = w.thorough ? 9 : 7;
    strings(w, "comments", {"/", "*", "-", "\n", "\r", "a"}, l);
    strings(w, "quotes", {"'", "\"", "a", "_", "\n"}, l + 1);
    strings(w, "hex", {"x", "'", "0", "X"}, l + 1);
    strings(w, "numbers", {"0", ".", "e", "+", "1", "-"}, l);
    strings(w, "params", {":", "a", "_", "1", " "}, l);
    strings(w, "utf8", {"\xc3", "\xe3", "\xf1", "\x81", "a", "\x80"}, l - 1);
    strings(w, "utf8-quoted", {"\xc3", "\xf1", "\x81", "\"", "'", "\xff"}, l - 1);
    // words: letter case, prefixes, extensions, single letter changes, and what may stand next to them
    std::vector<std::string> words;
    for (auto& k : ref().words) words.push_back(k.first);
    w.enumerate("words", words.size(), [&](std::uint64_t i) {
        std::string k = words[std::size_t(i)];
        auto cases = [&](std::string const& s) {
            std::string lo = s, mix = s, mix2 = s;
            for (std::size_t j = 0; j < s.size(); ++j) {
                lo[j] = char(std::tolower(s[j]));
                if (j % 2) mix[j] = lo[j]; else mix2[j] = lo[j];
            }
            judge(w, s); judge(w, lo); judge(w, mix); judge(w, mix2);
        };
        cases(k);
        if (k.size() <= 12) { // every letter case
            for (std::uint64_t b = 0; b < (1ULL << k.size()); b += k.size() > 9 ? 7 : 1) {
                std::string s = k;
                for (std::size_t j = 0; j < s.size(); ++j) if (b >> j & 1U) s[j] = char(std::tolower(s[j]));
                judge(w, s);
            }
        }
        for (std::size_t j = 1; j < k.size(); ++j) { cases(k.substr(0, j)); cases(k.substr(j)); }
        for (char c : "ABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789"s) {
            cases(k + c);
            cases(c + k);
            for (std::size_t j = 0; j < k.size(); ++j) {
                std::string s = k;
                s[j] = c;
                judge(w, s);
                s.insert(s.begin() + long(j), k[j]);
                judge(w, s);
            }
        }
        for (std::size_t j = 0; j < k.size(); ++j) { std::string s = k; s.erase(j, 1); judge(w, s); }
        for (auto& f : full) { judge(w, k + f); judge(w, f + k); judge(w, k + f + k); }
        judge(w, "\"" + k + "\""); judge(w, "'" + k + "'"); judge(w, ":" + k); judge(w, "--" + k + "\n" + k); judge(w, "/*" + k + "*/" + k);
    });
    w.enumerate("word-pairs", words.size() * words.size(), [&](std::uint64_t i) {
        auto& a = words[std::size_t(i / words.size())];
        auto& b = words[std::size_t(i % words.size())];
        judge(w, a + " " + b);
        judge(w, a + "\t\n\r " + b);
        judge(w, a + b);
        judge(w, a + "/**/" + b);
    });
    // the three phrases
    w.enumerate("phrases", 3 * 7 * 7 * 6, [&](std::uint64_t i) {
        static std::pair<char const*, char const*> const ph[] = {{"union", "Join"}, {"Outer", "apply"}, {".", "*"}};
        static char const* const sp[] = {"", " ", "\n", "\t\v\f\r", "/**/", "  ", "--\n"};
        static char const* const fix[] = {"", "x", " ", "1", "*", "."};
        auto& p = ph[i % 3]; i /= 3;
        std::string a = sp[i % 7]; i /= 7;
        std::string b = sp[i % 7]; i /= 7;
        judge(w, std::string(p.first) + a + p.second + fix[i] + b);
        judge(w, std::string(fix[i]) + p.first + a + p.second + b);
        judge(w, std::string(p.first) + a + b + p.second + fix[i]);
    });
}

int main(int argc, char** argv) { return harness_main(argc, argv, check); }
