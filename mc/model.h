// The reference language: a pushdown automaton read from model/sql_model.txt, run independently of the
// parser under test. Gives exact viability of every next token, and shortest completions.
#pragma once
#include <algorithm>
#include <cstdint>
#include <fstream>
#include <map>
#include <queue>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <vector>

namespace mc {

struct Model {
    struct Terminal { std::string token, show, lexeme; };
    struct Rule { int lhs; std::vector<int> rhs; };
    struct State {
        std::vector<std::pair<int, int>> kernel; // rule, dot
        std::unordered_map<int, int> go;         // symbol -> state
        std::unordered_map<int, int> red;        // terminal -> rule
        int dflt = -1;                           // default reduction, -2 accept
    };
    std::vector<Terminal> terms;
    std::vector<std::string> nonts;
    std::vector<Rule> rules;
    std::vector<State> states;
    std::map<std::string, int> term_by_token, nont_by_name;
    static constexpr int eof = 0;

    int nterm() const { return int(terms.size()); }
    bool has_lexeme(int t) const { return terms[std::size_t(t)].lexeme != "-"; }
    std::string lexeme(int t) const {
        auto& l = terms[std::size_t(t)].lexeme;
        return l[0] == '\\' ? l.substr(1) : l;
    }
    int term(std::string const& token) const { return term_by_token.at(token); }
    int nont(std::string const& name) const { return nont_by_name.at(name); }

    void load(std::string const& path) {
        std::ifstream in(path);
        if (!in) throw std::runtime_error("cannot read " + path);
        std::string line;
        while (std::getline(in, line)) {
            if (line.empty() || line[0] == '#') continue;
            std::istringstream s(line.substr(2));
            if (line[0] == 'T') {
                Terminal t;
                std::getline(s, t.token, '\t'); std::getline(s, t.show, '\t'); std::getline(s, t.lexeme);
                term_by_token[t.token] = int(terms.size());
                terms.push_back(t);
            } else if (line[0] == 'N') {
                std::string n;
                std::getline(s, n);
                nont_by_name[n] = int(terms.size() + nonts.size());
                nonts.push_back(n);
            } else if (line[0] == 'R') {
                Rule r;
                s >> r.lhs;
                int x;
                while (s >> x) r.rhs.push_back(x);
                rules.push_back(r);
            } else if (line[0] == 'S') {
                State st;
                std::string part, tok;
                std::getline(s, part, '|');
                std::istringstream k(part);
                while (k >> tok) { auto d = tok.find('.'); st.kernel.push_back({std::stoi(tok.substr(0, d)), std::stoi(tok.substr(d + 1))}); }
                std::getline(s, part, '|');
                std::istringstream g(part);
                while (g >> tok) { auto d = tok.find(':'); st.go[std::stoi(tok.substr(0, d))] = std::stoi(tok.substr(d + 1)); }
                std::getline(s, part, '|');
                std::istringstream r(part);
                while (r >> tok) { auto d = tok.find(':'); st.red[std::stoi(tok.substr(0, d))] = std::stoi(tok.substr(d + 1)); }
                s >> st.dflt;
                states.push_back(std::move(st));
            }
        }
        min_yields();
    }

    // ---------------------------------------------------------------- running
    using Stack = std::vector<int>;
    Stack start() const { return {0}; }

    // one step towards consuming t: shift (1), reduce (0), error (-1), accept (2)
    int action(Stack const& s, int t, int& arg) const {
        auto& st = states[std::size_t(s.back())];
        auto g = st.go.find(t);
        if (g != st.go.end()) { arg = g->second; return 1; }
        auto r = st.red.find(t);
        int rule = r != st.red.end() ? r->second : st.dflt;
        if (rule == -1) return -1;
        if (rule == -2) return 2;
        arg = rule;
        return 0;
    }
    void reduce(Stack& s, int rule) const {
        auto& r = rules[std::size_t(rule)];
        s.resize(s.size() - r.rhs.size());
        s.push_back(states[std::size_t(s.back())].go.at(r.lhs));
    }
    bool viable(Stack s, int t) const { return advance(s, t); }
    // consumes t if it is viable; the stack is left unchanged otherwise
    bool advance(Stack& s, int t, std::set<std::pair<int, int>>* actions = nullptr) const {
        Stack w = s;
        std::vector<std::pair<int, int>> seen;
        for (;;) {
            int arg = 0;
            int a = action(w, t, arg);
            if (a == -1) return false;
            seen.push_back({w.back(), t});
            if (a == 2) break;
            if (a == 1) { w.push_back(arg); break; }
            reduce(w, arg);
        }
        s = std::move(w);
        if (actions) actions->insert(seen.begin(), seen.end());
        return true;
    }
    std::vector<int> expected(Stack const& s) const {
        std::vector<int> v;
        for (int t = 0; t < nterm(); ++t) if (viable(s, t)) v.push_back(t);
        return v;
    }
    bool accepts(std::vector<int> const& v) const {
        Stack s = start();
        for (int t : v) if (!advance(s, t)) return false;
        return advance(s, eof);
    }

    // ---------------------------------------------------------------- shortest words
    std::vector<int> yield_len;
    std::vector<int> yield_rule;
    void min_yields() {
        std::size_t n = terms.size() + nonts.size();
        yield_len.assign(n, 1 << 20);
        yield_rule.assign(n, -1);
        for (std::size_t t = 0; t < terms.size(); ++t) yield_len[t] = has_lexeme(int(t)) || t == 0 ? 1 : 1 << 20;
        for (bool changed = true; changed;) {
            changed = false;
            for (std::size_t r = 0; r < rules.size(); ++r) {
                int len = 0;
                for (int x : rules[r].rhs) len = std::min(1 << 20, len + yield_len[std::size_t(x)]);
                if (len < yield_len[std::size_t(rules[r].lhs)]) {
                    yield_len[std::size_t(rules[r].lhs)] = len;
                    yield_rule[std::size_t(rules[r].lhs)] = int(r);
                    changed = true;
                }
            }
        }
    }
    void yield(int sym, std::vector<int>& out) const {
        if (sym < nterm()) { out.push_back(sym); return; }
        for (int x : rules[std::size_t(yield_rule[std::size_t(sym)])].rhs) yield(x, out);
    }
    // shortest token strings that lead from this configuration to acceptance (end of input excluded)
    bool complete(Stack const& s0, std::vector<int>& out, int tries = 40) const {
        struct Node { int cost; Stack s; std::vector<int> toks; };
        auto cmp = [](Node const& a, Node const& b) { return a.cost > b.cost; };
        std::priority_queue<Node, std::vector<Node>, decltype(cmp)> q(cmp);
        std::set<Stack> seen;
        q.push({0, s0, {}});
        int pops = 0;
        while (!q.empty() && ++pops < 20000) {
            Node n = q.top();
            q.pop();
            if (!seen.insert(n.s).second && n.toks.empty()) continue;
            for (auto& k : states[std::size_t(n.s.back())].kernel) {
                auto& r = rules[std::size_t(k.first)];
                int cost = n.cost;
                std::vector<int> toks = n.toks;
                bool ok = true;
                for (std::size_t i = std::size_t(k.second); i < r.rhs.size() && ok; ++i) {
                    cost += yield_len[std::size_t(r.rhs[i])];
                    if (yield_len[std::size_t(r.rhs[i])] >= 1 << 20) ok = false;
                    else yield(r.rhs[i], toks);
                }
                if (!ok) continue;
                if (k.first == 0) { // $accept
                    while (!toks.empty() && toks.back() == eof) toks.pop_back();
                    Stack s = s0;
                    bool good = true;
                    for (int t : toks) if (!advance(s, t)) { good = false; break; }
                    if (good && advance(s, eof)) { out = toks; return true; }
                    if (--tries <= 0) return false;
                    continue;
                }
                Stack s(n.s.begin(), n.s.end() - k.second);
                auto g = states[std::size_t(s.back())].go.find(r.lhs);
                if (g == states[std::size_t(s.back())].go.end()) continue;
                s.push_back(g->second);
                q.push({cost, std::move(s), std::move(toks)});
            }
        }
        return false;
    }
};

} // namespace mc
