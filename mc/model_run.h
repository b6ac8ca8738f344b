// Runs the reference automaton over token strings together with the three context conditions the
// grammar states in words: no WITH in a query operand, a type as the qualifier of a static method,
// and no sequence option given twice.
#pragma once
#include "model.h"

namespace mc {

struct Verdict {
    enum Kind { accept, syntax, context } kind = accept;
    int token = -1;            // syntax: index of the first token that cannot follow (size: end of input)
    int b = -1, e = -1;        // context: the offending tokens [b, e)
    std::vector<int> expected; // syntax: everything that could have followed
};

class ModelRun {
public:
    struct Sem { bool with = false, var = false; unsigned seq = 0; int b = 0, e = 0; };
    explicit ModelRun(Model const& m) : m(m), st(m.start()), sem(1) {
        query_expression = m.nont("query_expression");
        query_primary = m.nont("query_primary");
        primary = m.nont("value_expression_primary");
        seqs[0] = m.nont("sequence_options");
        seqs[1] = m.nont("common_sequence_options");
        opts[0] = m.nont("sequence_option");
        opts[1] = m.nont("common_sequence_option");
        opts[2] = m.nont("basic_sequence_option");
        with = m.term("WITH"); lp = m.term("LEFT_PAREN"); rp = m.term("RIGHT_PAREN");
        period = m.term("PERIOD"); dcolon = m.term("DOUBLE_COLON"); ident = m.nont("identifier");
        value_list = m.nont("value_expression_list");
    }
    Model const& m;
    Model::Stack st;
    std::vector<Sem> sem;
    int pos = 0;
    bool context_error = false;
    int ce_b = 0, ce_e = 0;

    bool advance(int t) {
        if (!m.viable(st, t)) return false;
        for (;;) {
            int arg = 0;
            int a = m.action(st, t, arg);
            if (a == 2) return true;
            if (a == 1) {
                Sem s;
                s.b = pos; s.e = pos + 1;
                ++pos;
                st.push_back(arg);
                sem.push_back(s);
                settle();
                return true;
            }
            step(arg);
            if (context_error) return true;
        }
    }
    // reductions that do not need the next token
    void settle() {
        for (;;) {
            auto& s = m.states[std::size_t(st.back())];
            if (!s.red.empty() || s.dflt < 0 || has_shift(s)) return;
            step(s.dflt);
            if (context_error) return;
        }
    }

private:
    int query_expression, query_primary, primary, seqs[2], opts[3], with, lp, rp, period, dcolon, ident, value_list;
    bool has_shift(Model::State const& s) const {
        for (auto& g : s.go) if (g.first < m.nterm()) return true;
        return false;
    }
    unsigned option_bit(Model::Rule const& r, Sem const* v) const {
        if (r.rhs.size() == 1 && r.rhs[0] >= m.nterm()) return v[0].seq;
        std::string const& f = m.terms[std::size_t(r.rhs[0])].token;
        std::string n = f == "NO" ? m.terms[std::size_t(r.rhs[1])].token : f;
        static char const* const names[] = {"AS", "OWNED", "START", "INCREMENT", "MAXVALUE", "MINVALUE", "CYCLE"};
        for (unsigned i = 0; i < 7; ++i) if (n == names[i]) return 1U << i;
        throw std::runtime_error("unknown sequence option " + n);
    }
    void step(int rule) {
        auto& r = m.rules[std::size_t(rule)];
        std::size_t n = r.rhs.size();
        Sem const* v = sem.data() + (sem.size() - n);
        Sem s;
        s.b = n ? v[0].b : pos;
        s.e = n ? v[n - 1].e : pos;
        if (r.lhs == query_expression) s.with = r.rhs[0] == with;
        else if (n == 1) s.with = v[0].with;
        if (r.lhs == query_primary && n == 3 && v[1].with) raise(v[1].b, v[1].e);
        if (r.lhs == primary) {
            if (n == 1) s.var = r.rhs[0] == ident;
            if (n == 3 && r.rhs[1] == period) s.var = v[0].var;
            if (n == 3 && r.rhs[0] == lp && r.rhs[1] == value_list) s.var = v[1].var;
            if (n == 4 && r.rhs[1] == dcolon && !v[0].var) raise(v[0].b, v[0].e);
        } else if (n == 1) {
            s.var = v[0].var;
        }
        for (int o : opts) if (r.lhs == o) s.seq = option_bit(r, v);
        for (int q : seqs) if (r.lhs == q && n == 2) {
            if (v[0].seq & v[1].seq) raise(v[1].b, v[1].e);
            s.seq = v[0].seq | v[1].seq;
        }
        if (context_error) return;
        st.resize(st.size() - n);
        sem.resize(sem.size() - n);
        st.push_back(m.states[std::size_t(st.back())].go.at(r.lhs));
        sem.push_back(s);
    }
    void raise(int b, int e) { context_error = true; ce_b = b; ce_e = e; }
};

inline Verdict judge_tokens(Model const& m, std::vector<int> const& v, bool want_expected) {
    ModelRun r(m);
    Verdict x;
    for (std::size_t i = 0; i <= v.size(); ++i) {
        int t = i < v.size() ? v[i] : Model::eof;
        bool ok = r.advance(t);
        if (r.context_error) { x.kind = Verdict::context; x.b = r.ce_b; x.e = r.ce_e; return x; }
        if (!ok) {
            x.kind = Verdict::syntax;
            x.token = int(i);
            if (want_expected) x.expected = m.expected(r.st);
            return x;
        }
    }
    return x;
}

struct Text {
    std::string text;
    std::vector<long> b, e; // token positions
};
inline Text spell(Model const& m, std::vector<int> const& v) {
    Text t;
    std::string last;
    for (int x : v) {
        // three pairs of words are single tokens when only blanks separate them
        auto& k = m.terms[std::size_t(x)].token;
        bool glue = (last == "PERIOD" && k == "ASTERISK") || (last == "UNION" && k == "JOIN") || (last == "OUTER" && k == "APPLY");
        if (!t.text.empty()) t.text += glue ? "/**/" : " ";
        last = k;
        t.b.push_back(long(t.text.size()));
        t.text += m.lexeme(x);
        t.e.push_back(long(t.text.size()));
    }
    return t;
}

} // namespace mc
