// A document is the sequence of its statements: each means exactly what it means alone, wherever it
// stands, and a document fails where its first wrong statement fails.
#include "refgrammar.h"
#include "ast_read.h"
#include "harness.h"
#include "parse_util.h"
#include "relayout.h"

using namespace mc;
using mizugaki::parser::sql_parser;

namespace {

struct Part { std::string text; T tree; std::vector<long> ends; int marks; };

void shift(T& t, long by, int marks) {
    if (t.b >= 0) { t.b += by; t.e += by; }
    if (t.head == "scalar.placeholder_reference") {
        T* i = t.get("index");
        i->head = "#" + std::to_string(std::atoi(i->head.c_str() + 1) + marks);
    }
    for (auto& k : t.kids) shift(k.second, by, marks);
}

std::vector<Part> const& pool() {
    static std::vector<Part> p = [] {
        std::vector<Part> v;
        for (int kind = 0; kind < Gen::statement_kinds; ++kind) {
            Explorer ex(1);
            ex.body = [&](Chooser& c) {
                Gen g(c);
                T s = g.statement(kind);
                if (g.dup_option || g.with_in_operand) return true;
                std::vector<long> e;
                for (auto& t : g.toks) e.push_back(t.e);
                v.push_back({g.text, std::move(s), std::move(e), g.marks});
                return true;
            };
            ex.run();
        }
        // with placeholders
        Explorer ex(2);
        ex.body = [&](Chooser& c) {
            Gen g(c);
            T s = g.statement(3);
            if (g.marks && v.size() < 100000) {
                std::vector<long> e;
                for (auto& t : g.toks) e.push_back(t.e);
                v.push_back({g.text, std::move(s), std::move(e), g.marks});
            }
            return true;
        };
        ex.run();
        return v;
    }();
    return p;
}

sql_parser& parser() { static thread_local sql_parser p; return p; }

bool created(T const& t) {
    static std::set<std::string> const h {"statement.table_definition", "statement.index_definition", "statement.view_definition", "statement.sequence_definition", "statement.schema_definition"};
    return h.count(t.head) > 0;
}

struct Build {
    std::string text;
    std::vector<T> want;
    int marks = 0;
    void gap(std::string const& s) { text += s; }
    T& part(Part const& p) {
        T t = p.tree;
        shift(t, long(text.size()), marks);
        text += p.text;
        marks += p.marks;
        want.push_back(std::move(t));
        return want.back();
    }
    void empty() { T t("statement.empty_statement"); want.push_back(std::move(t)); }
    T unit() { T u("compilation_unit"); u.add("statements", list(want)); return u; }
};

void drop_empty_regions(T& u) {
    if (T* s = u.get("statements")) for (auto& k : s->kids) if (k.second.head == "statement.empty_statement") { k.second.b = k.second.e = -1; }
    for (std::size_t i = 0; i < u.kids.size(); ++i) if (u.kids[i].first == "comments") { u.kids.erase(u.kids.begin() + long(i)); break; }
}

void judge(Worker& w, Build& b) {
    w.count("traces");
    w.state(hash_text(b.text));
    auto r = parser()("-", b.text);
    if (!r) { w.fail("rejected", "`" + b.text + "`: " + r.diagnostic().message()); return; }
    Reader rd;
    T got = rd.read(*r.value());
    drop_empty_regions(got);
    T want = b.unit();
    if (!same(want, got, false)) { w.fail("structure", "`" + b.text + "`\n  expected " + dump(want, false) + "\n  actual   " + dump(got, false)); return; }
    if (!same(want, got, true)) { w.fail("region", "`" + b.text + "`\n  " + first_difference(want, got)); return; }
    w.sample(b.text);
}

std::string diagnosis(std::string const& text, long by) {
    auto r = parser()("-", text);
    if (r) return "accepted";
    auto& d = r.diagnostic();
    return text_of(d.code()) + "@" + std::to_string(long(d.region().begin) - by) + "-" + std::to_string(long(d.region().end) - by) + " " + std::string(d.message());
}

} // namespace

static void check(Worker& w) {
    auto& p = pool();
    std::uint64_t n = p.size();
    w.enumerate("pairs", n * n, [&](std::uint64_t i) {
        auto& x = p[std::size_t(i / n)];
        auto& y = p[std::size_t(i % n)];
        if (!w.thorough && (i / n + i) % 3 != 0) { Build b; b.part(x); b.gap(";"); b.part(y); judge(w, b); return; }
        { Build b; b.part(x); b.gap("; "); b.part(y); b.gap(";"); judge(w, b); }
        { Build b; b.part(x); b.gap(" ;\n"); b.part(y); b.gap(";\n-- end"); judge(w, b); }
        { Build b; b.empty(); b.gap(";"); b.part(x); b.gap(";;"); b.empty(); b.part(y); b.gap(";;"); b.empty(); judge(w, b); }
        {
            Build b;
            b.part(x);
            b.gap(" /** x */; ");
            T& t = b.part(y);
            (void) t;
            judge(w, b);
        }
        {
            Build b;
            b.part(x);
            b.gap(" /** x */; ");
            long c = long(b.text.size());
            b.gap("/** y */");
            long e = long(b.text.size());
            T& t = b.part(y);
            if (created(t)) { T d("#description"); d.at(c, e); t.add("description", std::move(d)); w.count("described"); }
            judge(w, b);
        }
    });
    // runs of empty statements
    w.enumerate("empty", n * 64, [&](std::uint64_t i) {
        auto& x = p[std::size_t(i / 64)];
        int before = int(i % 8), after = int(i / 8 % 8);
        Build b;
        for (int k = 0; k < before; ++k) { b.empty(); b.gap(";"); }
        b.part(x);
        for (int k = 0; k < after; ++k) { b.gap(";"); if (k) b.empty(); }
        judge(w, b);
    });
    w.enumerate("only-empty", 40, [&](std::uint64_t i) {
        Build b;
        for (std::uint64_t k = 0; k < i; ++k) { b.empty(); b.gap(k % 3 ? ";" : " ; /* c */\n"); }
        judge(w, b);
    });
    // three in a row, of every three kinds
    static std::vector<std::size_t> const heads = [&] {
        std::vector<std::size_t> v;
        std::set<std::string> seen;
        for (std::size_t k = 0; k < p.size(); ++k) if (seen.insert(p[k].tree.head).second) v.push_back(k);
        for (std::size_t k = 0, m = 0; k < p.size() && m < 4; ++k) if (p[k].marks) { v.push_back(k); ++m; }
        return v;
    }();
    std::uint64_t h = heads.size();
    w.enumerate("triples", h * h * h * h, [&](std::uint64_t i) {
        Build b;
        for (int k = 0; k < 4; ++k) { if (k) b.gap(";"); b.part(p[heads[std::size_t(i % h)]]); i /= h; }
        judge(w, b);
    });
    // a wrong statement after a good one fails as it does alone, and nothing after it matters
    w.enumerate("errors", h * n, [&](std::uint64_t i) {
        auto& x = p[heads[std::size_t(i / n)]];
        auto& y = p[std::size_t(i % n)];
        for (std::size_t k = 0; k <= y.ends.size(); ++k) {
            std::string bad = (k ? y.text.substr(0, std::size_t(y.ends[k - 1])) : std::string());
            for (char const* tail : {" )", " ! ", "", " \"__\""}) {
                std::string t = bad + tail;
                std::string alone = diagnosis(t, 0);
                w.count("traces");
                std::string pre = x.text + "; ";
                std::string later = diagnosis(pre + t, long(pre.size()));
                w.state(hash_text(pre + t));
                if (alone != "accepted") w.count("failing");
                w.expect(alone == later, "error", "`", t, "` alone: ", alone, "; after `", pre, "`: ", later);
                // what is wrong must lie before the end of the text for the rest not to matter
                if (alone != "accepted" && tail[0] && alone.find("unexpected_eof") == std::string::npos) {
                    w.count("failing first");
                    std::string more = diagnosis(t + "; " + x.text, 0);
                    w.expect(alone == more, "error", "`", t, "` alone: ", alone, "; before `", x.text, "`: ", more);
                }
            }
        }
    });
}

int main(int argc, char** argv) { return harness_main(argc, argv, check); }
