// The accepted language, where a text stops being part of it, and what could have followed there:
// every (automaton state, terminal) pair of the reference grammar is put to the parser.
#include "harness.h"
#include "model_run.h"
#include "parse_util.h"

#include <memory>

using namespace mc;
using mizugaki::parser::sql_parser_code;

static std::string const& model_path() {
    static std::string p = MODEL_FILE;
    return p;
}

namespace {

struct Ctx {
    Model m;
    std::vector<std::vector<int>> access; // a token string leading to each state
    std::vector<int> usable;              // terminals that can be written
    std::set<std::string> contextual;

    Ctx() {
        m.load(model_path());
        std::size_t n = m.states.size();
        std::vector<int> par(n, -1), sym(n, -1), cost(n, 1 << 20);
        std::priority_queue<std::pair<int, int>> q;
        cost[0] = 0;
        q.push({0, 0});
        while (!q.empty()) {
            auto [c, s] = q.top();
            q.pop();
            if (-c > cost[std::size_t(s)]) continue;
            for (auto& g : m.states[std::size_t(s)].go) {
                int y = m.yield_len[std::size_t(g.first)];
                if (y >= 1 << 20) continue;
                int nc = cost[std::size_t(s)] + y;
                auto d = std::size_t(g.second);
                if (nc < cost[d] || (nc == cost[d] && (s < par[d] || (s == par[d] && g.first < sym[d])))) {
                    bool better = nc < cost[d];
                    cost[d] = nc; par[d] = s; sym[d] = g.first;
                    if (better) q.push({-nc, g.second});
                }
            }
        }
        access.resize(n);
        for (std::size_t s = 0; s < n; ++s) {
            std::vector<int> path;
            int guard = 0;
            for (int x = int(s); x != 0 && ++guard < 1000; x = par[std::size_t(x)]) path.push_back(sym[std::size_t(x)]);
            std::vector<int> toks;
            for (auto it = path.rbegin(); it != path.rend(); ++it) m.yield(*it, toks);
            while (!toks.empty() && toks.back() == Model::eof) toks.pop_back();
            access[s] = toks;
        }
        for (int t = 1; t < m.nterm(); ++t) if (m.has_lexeme(t)) usable.push_back(t);
        contextual = {"ASC", "CONTINUE", "DESC", "KEY", "IGNORE", "SCHEMA", "SEQUENCE", "RESTART", "RESTRICT", "RENAME",
            "FIRST", "LAST", "ORDINALITY", "VALUE"};
    }
};

// the candidates a diagnostic names
bool parse_candidates(std::string const& msg, std::multiset<std::string>& out, bool& more) {
    static std::string const open = "expected one of {";
    auto p = msg.find(open);
    if (p == std::string::npos || msg.back() != '}') return false;
    std::string s = msg.substr(p + open.size(), msg.size() - p - open.size() - 1);
    more = false;
    if (s.size() >= 5 && s.substr(s.size() - 5) == ", ...") { more = true; s.resize(s.size() - 5); }
    while (!s.empty()) {
        auto c = s.find(", ", s[0] == ',' ? 1 : 0);
        out.insert(s.substr(0, c));
        if (c == std::string::npos) break;
        s = s.substr(c + 2);
    }
    return true;
}

std::multiset<std::string> candidate_names(Ctx const& c, std::vector<int> const& expected) {
    std::multiset<std::string> out;
    bool id = false;
    for (int t : expected) {
        auto& k = c.m.terms[std::size_t(t)];
        if (k.token == "REGULAR_IDENTIFIER" || k.token == "DELIMITED_IDENTIFIER") id = true;
    }
    for (int t : expected) {
        auto& k = c.m.terms[std::size_t(t)];
        if (id && (k.token == "REGULAR_IDENTIFIER" || k.token == "DELIMITED_IDENTIFIER" || c.contextual.count(k.token))) continue;
        out.insert(k.show);
    }
    if (id) out.insert(c.m.terms[std::size_t(c.m.term("REGULAR_IDENTIFIER"))].show);
    return out;
}

std::string joined(std::multiset<std::string> const& s) {
    std::string o;
    for (auto& x : s) { if (!o.empty()) o += ' '; o += x; }
    return o;
}

void judge(Worker& w, Ctx const& c, std::vector<int> const& toks, bool candidates) {
    if (w.steering()) return;
    Text t = spell(c.m, toks);
    Verdict v = judge_tokens(c.m, toks, candidates);
    w.state(hash_text(t.text));
    static thread_local mizugaki::parser::sql_parser parser;
    auto ask = [&](std::size_t max) {
        parser.options().max_expected_candidates() = max;
        return parser("-", t.text);
    };
    auto r = ask(candidates ? 100000 : 5);
    w.count("traces");
    std::string shown = "`" + t.text + "`: ";
    if (v.kind == Verdict::accept) {
        w.count("accepted");
        if (!r) w.fail("rejected", shown + "belongs to the language, but: " + r.diagnostic().message());
        return;
    }
    if (r) { w.fail("accepted", shown + "does not belong to the language, but is accepted"); return; }
    auto& d = r.diagnostic();
    auto rg = d.region();
    if (v.kind == Verdict::context) {
        w.count("context");
        w.expect(d.code() == sql_parser_code::syntax_error, "code", shown, "code ", d.code());
        long b = t.b[std::size_t(v.b)], e = t.e[std::size_t(v.e - 1)];
        w.expect(rg && long(rg.begin) >= b && long(rg.end) <= e, "location", shown, "reported at ", rg.begin, "-", rg.end, ", not inside ", b, "-", e);
        return;
    }
    w.count("syntax");
    bool at_end = v.token == int(toks.size());
    long b = at_end ? long(t.text.size()) : t.b[std::size_t(v.token)];
    long e = at_end ? b : t.e[std::size_t(v.token)];
    w.expect(d.code() == (at_end ? sql_parser_code::unexpected_eof : sql_parser_code::unexpected_token), "code", shown, "code ", d.code());
    w.expect(long(rg.begin) == b && long(rg.end) == e, "location", shown, "reported at ", rg.begin, "-", rg.end, ", expected ", b, "-", e);
    if (!at_end) {
        w.expect(d.message().find(t.text.substr(std::size_t(b), std::size_t(e - b))) != std::string::npos, "message", shown, "message does not show the token: ", d.message());
    }
    if (!candidates) return;
    auto want = candidate_names(c, v.expected);
    std::multiset<std::string> got;
    bool more = false;
    if (!w.expect(parse_candidates(d.message(), got, more), "candidates", shown, "no candidates in: ", d.message())) return;
    w.count("candidate lists");
    w.expect(!more && got == want, "candidates", shown, "lists {", joined(got), "}, viable are {", joined(want), "}");
    for (std::size_t max : {std::size_t(0), std::size_t(1), std::size_t(5), want.size() - 1, want.size()}) {
        auto r2 = ask(max);
        if (!w.expect(!r2, "accepted", shown, "accepted with another candidate limit")) continue;
        std::multiset<std::string> g2;
        bool m2 = false;
        bool has = parse_candidates(r2.diagnostic().message(), g2, m2);
        if (max == 0) {
            w.expect(!has, "candidate limit", shown, "limit 0 but: ", r2.diagnostic().message());
            continue;
        }
        bool sub = std::includes(want.begin(), want.end(), g2.begin(), g2.end());
        w.expect(has && sub && g2.size() == std::min(max, want.size()) && m2 == (max < want.size()), "candidate limit",
            shown, "limit ", max, " of ", want.size(), ": ", r2.diagnostic().message());
    }
}

} // namespace

static void check(Worker& w) {
    static Ctx c;
    std::uint64_t T = c.usable.size();
    // every state x every terminal; the shortest completion of every viable one
    w.enumerate("state-terminal", c.access.size() * (T + 1), [&](std::uint64_t i) {
        auto toks = c.access[std::size_t(i / (T + 1))];
        std::uint64_t k = i % (T + 1);
        if (k < T) toks.push_back(c.usable[std::size_t(k)]);
        // candidates are judged once per state: at the end of input and after the access string
        judge(w, c, toks, k == T || k == 7);
        if (k == T) return;
        Model::Stack st = c.m.start();
        for (int t : toks) if (!c.m.advance(st, t)) return;
        std::vector<int> rest;
        if (!c.m.complete(st, rest)) { w.count("no completion"); return; }
        if (rest.empty()) return;
        toks.insert(toks.end(), rest.begin(), rest.end());
        judge(w, c, toks, false);
        if (toks.size() < 9) w.sample(spell(c.m, toks).text);
    });
    // every state x two terminals: the first viable, the second arbitrary
    std::uint64_t step = w.thorough ? 1 : 8;
    w.enumerate("state-two-terminals", c.access.size() * T, [&](std::uint64_t i) {
        auto base = c.access[std::size_t(i / T)];
        base.push_back(c.usable[std::size_t(i % T)]);
        Model::Stack st = c.m.start();
        for (int t : base) if (!c.m.advance(st, t)) return;
        for (std::uint64_t k = i % step; k < T; k += step) {
            auto toks = base;
            toks.push_back(c.usable[std::size_t(k)]);
            judge(w, c, toks, false);
        }
    });
    // all token strings of up to three tokens (from the empty one)
    w.enumerate("prefix-3", T * T, [&](std::uint64_t i) {
        std::vector<int> p {c.usable[std::size_t(i / T)], c.usable[std::size_t(i % T)]};
        judge(w, c, p, false);
        Model::Stack st = c.m.start();
        for (int t : p) if (!c.m.advance(st, t)) return;
        for (std::uint64_t k = 0; k < T; ++k) {
            auto q = p;
            q.push_back(c.usable[std::size_t(k)]);
            judge(w, c, q, false);
        }
    });
}

int main(int argc, char** argv) { return harness_main(argc, argv, check); }
