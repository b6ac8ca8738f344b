// Reference scanner: splits a text into tokens by the documented lexical rules, longest match first.
#pragma once
#include "model.h"
#include <cctype>

namespace mc {

struct Lexeme {
    std::string token; // terminal name
    long b, e;
};
struct LexResult {
    std::vector<Lexeme> toks;                    // ends with END_OF_FILE or UNCLOSED_BLOCK_COMMENT
    std::vector<std::pair<long, long>> comments; // closed ones
};

class RefLexer {
public:
    explicit RefLexer(Model const& m) {
        for (auto& t : m.terms) {
            if (t.lexeme == "-") continue;
            std::string l = t.lexeme[0] == '\\' ? t.lexeme.substr(1) : t.lexeme;
            if (is_word(l) && t.token != "REGULAR_IDENTIFIER" && l != "X'00'") words[l] = t.token;
            else if (is_punct(l)) puncts[l] = t.token;
        }
        words["END-EXEC"] = "END_EXEC";
        puncts["'"] = "QUOTE";
        puncts.erase("_"); // a lone underscore, see below
        puncts.erase(".*");
    }
    std::map<std::string, std::string> words, puncts;

    LexResult operator()(std::string const& s) const {
        LexResult r;
        long n = long(s.size());
        long i = 0;
        auto at = [&](long k) -> int { return k < n ? static_cast<unsigned char>(s[std::size_t(k)]) : -1; };
        while (i < n) {
            int ch = at(i);
            if (space(ch)) { ++i; continue; }
            if (ch == '/' && at(i + 1) == '*') {
                auto p = s.find("*/", std::size_t(i) + 2);
                if (p == std::string::npos) { r.toks.push_back({"UNCLOSED_BLOCK_COMMENT", i, i + 2}); return r; }
                r.comments.push_back({i, long(p) + 2});
                i = long(p) + 2;
                continue;
            }
            if (ch == '-' && at(i + 1) == '-') {
                auto p = s.find('\n', std::size_t(i));
                if (p == std::string::npos) { r.comments.push_back({i, n}); i = n; continue; }
                long e = long(p);
                if (e - 1 >= i + 2 && at(e - 1) == '\r') --e;
                r.comments.push_back({i, e});
                i = long(p) + 1;
                continue;
            }
            // candidates: (length, token); longest wins, the earlier one on ties
            long best = 0;
            std::string tok;
            auto offer = [&](long len, std::string const& t) { if (len > best) { best = len; tok = t; } };
            phrase(s, i, "UNION", "JOIN", true, "UNION_JOIN", offer);
            phrase(s, i, "OUTER", "APPLY", true, "OUTER_APPLY", offer);
            phrase(s, i, ".", "*", false, "DOT_ASTERISK", offer);
            for (auto& p : puncts) if (s.compare(std::size_t(i), p.first.size(), p.first) == 0) offer(long(p.first.size()), p.second);
            if (start(ch)) {
                long j = i;
                while (part(at(j))) ++j;
                if (upper(s.substr(std::size_t(i), 8)) == "END-EXEC") offer(8, "END_EXEC");
                std::string w = upper(s.substr(std::size_t(i), std::size_t(j - i)));
                auto k = words.find(w);
                if (k != words.end()) offer(j - i, k->second);
                else if (w == "_") offer(1, "UNDERSCORE");
                else offer(j - i, j - i >= 2 && w[0] == '_' && w[1] == '_' ? "REGULAR_IDENTIFIER_RESTRICTED" : "REGULAR_IDENTIFIER");
                if ((ch == 'X' || ch == 'x') && at(i + 1) == '\'') {
                    long q = quoted(s, i + 1, '\'', false);
                    if (q) offer(q + 1, "HEX_STRING_LITERAL");
                }
            }
            if (ch == '"') {
                long q = quoted(s, i, '"', true);
                if (q) offer(q, at(i + 1) == '_' && at(i + 2) == '_' ? "DELIMITED_IDENTIFIER_RESTRICTED" : "DELIMITED_IDENTIFIER");
            }
            if (ch == '\'') {
                long q = quoted(s, i, '\'', false);
                if (q) offer(q, "CHARACTER_STRING_LITERAL");
            }
            if (ch == ':' && start(at(i + 1))) {
                long j = i + 1;
                while (part(at(j))) ++j;
                offer(j - i, "HOST_PARAMETER_NAME");
            }
            if (digit(ch)) {
                long j = i;
                while (digit(at(j))) ++j;
                offer(j - i, "UNSIGNED_INTEGER");
                long m2 = j;
                if (at(j) == '.' && digit(at(j + 1))) {
                    m2 = j + 1;
                    while (digit(at(m2))) ++m2;
                    offer(m2 - i, "EXACT_NUMERIC_LITERAL");
                }
                for (long m : {j, m2}) {
                    if (at(m) != 'e' && at(m) != 'E') continue;
                    long k = m + 1;
                    if (at(k) == '+' || at(k) == '-') ++k;
                    if (!digit(at(k))) continue;
                    while (digit(at(k))) ++k;
                    offer(k - i, "APPROXIMATE_NUMERIC_LITERAL");
                }
            }
            if (!best) { best = utf8(s, i); tok = "ERROR"; }
            r.toks.push_back({tok, i, i + best});
            i += best;
        }
        r.toks.push_back({"END_OF_FILE", n, n});
        return r;
    }

    static bool space(int c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
    static bool digit(int c) { return c >= '0' && c <= '9'; }
    static bool start(int c) { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || c == '_'; }
    static bool part(int c) { return start(c) || digit(c); }
    static std::string upper(std::string s) { for (auto& c : s) if (c >= 'a' && c <= 'z') c = char(c - 32); return s; }

private:
    static bool is_word(std::string const& s) { for (unsigned char c : s) if (!part(c) && c != '-') return false; return start(static_cast<unsigned char>(s[0])); }
    static bool is_punct(std::string const& s) { for (unsigned char c : s) if (part(c) || space(c) || c == '\'' || c == '"') return false; return true; }
    template<class F>
    static void phrase(std::string const& s, long i, std::string const& a, std::string const& b, bool need, std::string const& t, F&& offer) {
        if (upper(s.substr(std::size_t(i), a.size())) != a) return;
        std::size_t j = std::size_t(i) + a.size(), k = j;
        while (k < s.size() && space(static_cast<unsigned char>(s[k]))) ++k;
        if (need && k == j) return;
        if (upper(s.substr(k, b.size())) == b && k + b.size() <= s.size()) offer(long(k + b.size()) - i, t);
    }
    // length of the quoted text starting at i; 0 if there is none
    static long quoted(std::string const& s, long i, char q, bool identifier) {
        long n = long(s.size()), j = i + 1, accept = 0;
        bool any = !identifier;
        while (j < n) {
            unsigned char c = static_cast<unsigned char>(s[std::size_t(j)]);
            if (c == static_cast<unsigned char>(q)) {
                if (any) accept = j + 1 - i;
                if (j + 1 < n && s[std::size_t(j + 1)] == q) { any = true; j += 2; continue; }
                break;
            }
            if (identifier && (c < 0x20 || c == 0x7f)) break;
            any = true;
            ++j;
        }
        return accept;
    }
    static long utf8(std::string const& s, long i) {
        auto u = [&](long k) { return k < long(s.size()) && (static_cast<unsigned char>(s[std::size_t(k)]) & 0xc0U) == 0x80U; };
        unsigned char c = static_cast<unsigned char>(s[std::size_t(i)]);
        if (c >= 0xc2 && c <= 0xdf && u(i + 1)) return 2;
        if (c >= 0xe0 && c <= 0xef && u(i + 1) && u(i + 2)) return 3;
        if (c >= 0xf0 && c <= 0xf4 && u(i + 1) && u(i + 2) && u(i + 3)) return 4;
        return 1;
    }
};

} // namespace mc
