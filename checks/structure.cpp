// Statement structure and source regions: every sentence the reference grammar derives within the bound
// must be parsed into exactly the tree (and regions) the derivation stands for.
#include "refgrammar.h"
#include "ast_read.h"
#include "harness.h"
#include "parse_util.h"

using namespace mc;

#ifndef REGIONS
#define REGIONS 0
#endif

static void judge(Worker& w, Gen const& g, T want) {
    static thread_local mizugaki::parser::sql_parser parser;
    bool accept = !g.dup_option && !g.with_in_operand;
    auto r = parser("-", g.text);
    w.state(hash_text(g.text));
    if (bool(r) != accept) {
#if !REGIONS
        w.fail(accept ? "rejected" : "accepted", "`" + g.text + "` should be " + (accept ? "accepted but: " + std::string(r.diagnostic().message()) : std::string("rejected")));
#endif
        return;
    }
    w.count(accept ? "accepted" : "rejected");
    if (!r) return;
    Reader rd;
    T got = rd.read(*r.value());
#if !REGIONS
    for (auto& p : rd.problems) w.fail("inconsistent node", p + " in `" + g.text + "`");
#endif
    if (!same(want, got, false)) {
#if !REGIONS
        w.fail("structure", "`" + g.text + "`\n  expected " + dump(want, false) + "\n  actual   " + dump(got, false));
#endif
        return;
    }
#if REGIONS
    if (!same(want, got, true)) w.fail("region", "`" + g.text + "`\n  " + first_difference(want, got));
#endif
    w.sample(g.text + "  =>  " + dump(want, REGIONS));
}

static void check(Worker& w) {
    auto unit = [&](Gen& g, T s) {
        T u("compilation_unit");
        std::vector<T> v;
        v.push_back(std::move(s));
        u.add("statements", list(std::move(v)));
        if (!w.steering()) judge(w, g, std::move(u));
    };
    int deep = w.thorough ? 1 : 0;
    w.explore("statement", 2 + deep, [&](Chooser& c) { Gen g(c); T s = g.statement(); unit(g, std::move(s)); });
    for (int k = 0; k < Gen::statement_kinds; ++k) {
        w.explore("statement-" + std::to_string(k), 3 + deep, [&](Chooser& c) { Gen g(c); T s = g.statement(k); unit(g, std::move(s)); });
    }
    w.explore("expression", 3 + deep, [&](Chooser& c) {
        Gen g(c);
        long b = g.mark();
        g.tok("DELETE"); g.tok("FROM");
        T s = Gen::nd("statement.delete_statement");
        s.add("table_name", g.ident());
        g.tok("WHERE");
        s.add("where", g.expr());
        unit(g, g.close(std::move(s), b));
    });
    w.explore("type", 3 + deep, [&](Chooser& c) {
        Gen g(c);
        long b = g.mark();
        g.tok("CREATE"); g.tok("TABLE");
        T s = Gen::nd("statement.table_definition");
        s.add("name", g.ident());
        g.tok("(");
        long eb = g.mark();
        T e = Gen::nd("column_definition");
        e.add("name", g.ident());
        e.add("type", g.type());
        std::vector<T> v;
        v.push_back(g.close(std::move(e), eb));
        g.tok(")");
        s.add("elements", list(std::move(v)));
        unit(g, g.close(std::move(s), b));
    });
    w.explore("names", 3 + deep, [&](Chooser& c) { Gen g(c); g.name_variants = true; T s = g.statement(); unit(g, std::move(s)); });
}

int main(int argc, char** argv) { return harness_main(argc, argv, check); }
