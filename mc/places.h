// Statements made of pieces which stand inside each other, and a catalog which they are sound for.
#pragma once
#include "an_env.h"
#include "harness.h"

namespace places {

using namespace an;

struct World : Env {
    sql_analyzer_options opt;
    World() : opt { {}, {}, {} } {
        auto& p = schema("pub");
        auto& o = schema("oth", false);
        p.table("t", { { "k" }, { "v" }, { "s", text() }, { "b", boolean() } });
        p.table("u", { { "k" }, { "w" } });
        o.table("t", { { "k" } });
        o.table("x", { { "k" } }, 1, {}, "xi");
        p.function(builtin + 1, "f", int8(), { int8() });
        p.function(user + 2, "amb", int8(), { int8(), int4() });
        p.function(user + 3, "amb", int8(), { int4(), int8() });
        p.aggregate(builtin + 4, "max", int8(), { int8() });
        p.aggregate(builtin + 5, "count", int8(), {});
        p.table_function(builtin + 6, "tf", { { "c" } }, { int8() });
        p.table_function(builtin + 7, "tf2", { { "c" }, { "d" } }, { int8() });
        p.function(builtin + 8, "g2", int8(), { int8(), int8() });
        p.table_function(builtin + 9, "tf3", { { "c" } }, { int8(), int8() });
        opt = options();
        opt.lowercase_function_regular_identifiers() = true;
        opt.validate_scalar_expressions() = true;
    }
};

inline World& world() { static World w; return w; }
inline sql_analyzer& analyzer() { static thread_local sql_analyzer a; return a; }

/// a piece of text with one place for another one; kinds: @ value, # condition, $ table, & query
struct Piece {
    char gives;
    std::string text;
    char takes() const { for (auto c : text) if (c == '@' || c == '#' || c == '$' || c == '&') return c; return 0; }
    std::string with(std::string const& s) const { auto p = text.find(takes()); return text.substr(0, p) + s + text.substr(p + 1); }
};

/// statements ('!'), and what can stand between a statement and the faulty part
inline std::vector<Piece> const pieces {
    { '!', "SELECT @ FROM t" },
    { '!', "SELECT 1, @" },
    { '!', "SELECT k, @ AS z, v FROM t" },
    { '!', "SELECT DISTINCT @ FROM t" },
    { '!', "SELECT k FROM t ORDER BY @" },
    { '!', "SELECT k FROM t ORDER BY v DESC, @ LIMIT 1" },
    { '!', "SELECT max(v), @ FROM t" },
    { '!', "SELECT max(@) FROM t" },
    { '!', "SELECT k, max(v) FROM t GROUP BY k ORDER BY @, k" },
    { '!', "SELECT max(v) FROM t GROUP BY k HAVING @ = 1" },
    { '!', "SELECT max(v) FROM t HAVING max(@) = 1" },
    { '!', "SELECT 1 FROM t APPLY tf(@) AS d(c)" },
    { '!', "SELECT 1 FROM t OUTER APPLY tf(@) AS d(c)" },
    { '!', "SELECT 1 FROM t APPLY tf3(1, @) AS d(c)" },
    { '!', "VALUES (@)" },
    { '!', "VALUES (1, 2), (3, @)" },
    { '!', "INSERT INTO u VALUES (1, @)" },
    { '!', "INSERT INTO u (w, k) VALUES (1, 2), (@, 1), (2, 3)" },
    { '!', "INSERT OR REPLACE INTO u SELECT k, @ FROM t" },
    { '!', "UPDATE t SET v = @" },
    { '!', "UPDATE t SET v = 1, k = @ WHERE k = 1" },
    { '!', "SELECT k FROM t WHERE #" },
    { '!', "SELECT k FROM t WHERE # GROUP BY k HAVING count(*) = 1 ORDER BY k LIMIT 1" },
    { '!', "SELECT k FROM t GROUP BY k HAVING #" },
    { '!', "UPDATE t SET v = 1 WHERE #" },
    { '!', "DELETE FROM t WHERE #" },
    { '!', "SELECT 1 FROM t JOIN u ON #" },
    { '!', "SELECT 1 FROM t, u LEFT JOIN t AS d ON # WHERE TRUE" },
    { '!', "SELECT 1 FROM $" },
    { '!', "SELECT * FROM $" },
    { '!', "SELECT * FROM t, $, u" },
    { '!', "&" },
    { '!', "INSERT INTO u (k) &" },
    // values
    { '@', "- @" },
    { '@', "(@)" },
    { '@', "@ + 1" },
    { '@', "1 * @" },
    { '@', "f(@)" },
    { '@', "g2(@, 1)" },
    { '@', "g2(1, @)" },
    { '@', "coalesce(1, @)" },
    { '@', "nullif(@, 1)" },
    { '@', "nullif(1, @)" },
    { '@', "CASE WHEN TRUE THEN @ ELSE 1 END" },
    { '@', "CASE WHEN TRUE THEN 1 ELSE @ END" },
    { '@', "CASE @ WHEN 1 THEN 2 END" },
    { '@', "CASE 1 WHEN 2 THEN 3 WHEN @ THEN 4 END" },
    { '@', "CAST(@ AS INT)" },
    { '@', "CASE WHEN FALSE THEN 1 WHEN # THEN 2 END" },
    { '@', "(&)" },
    // conditions
    { '#', "@ = 1" },
    { '#', "1 <= @" },
    { '#', "@ IS NULL" },
    { '#', "CAST(@ AS VARCHAR) LIKE 'a'" },
    { '#', "'a' NOT LIKE CAST(@ AS VARCHAR) || 'b' ESCAPE 'c'" },
    { '#', "@ BETWEEN 1 AND 2" },
    { '#', "1 NOT BETWEEN @ AND 2" },
    { '#', "1 BETWEEN SYMMETRIC 2 AND @" },
    { '#', "@ IN (1, 2)" },
    { '#', "1 NOT IN (1, @, 2)" },
    { '#', "@ IN (SELECT k FROM u)" },
    { '#', "@ < ALL (SELECT k FROM u)" },
    { '#', "1 IN (SELECT * FROM (&) AS u2)" },
    { '#', "1 <> ANY (SELECT * FROM (&) AS u3)" },
    { '#', "EXISTS (&)" },
    { '#', "NOT #" },
    { '#', "TRUE AND (#)" },
    { '#', "(#) OR FALSE" },
    { '#', "(#) IS NOT TRUE" },
    // tables
    { '$', "(&) AS g" },
    { '$', "(&) AS g(h)" },
    { '$', "$ CROSS JOIN t AS t1" },
    { '$', "t AS t2 CROSS JOIN $" },
    { '$', "$ LEFT JOIN t AS t3 ON TRUE" },
    { '$', "u AS t4 RIGHT JOIN $ ON TRUE" },
    { '$', "t AS t5 FULL JOIN u AS t6 ON #" },
    { '$', "(u AS t7 JOIN $ ON TRUE)" },
    { '$', "t AS t8 CROSS APPLY tf(@) AS t9(c)" },
    { '$', "(t AS t9 JOIN u AS t10 USING (k) JOIN u AS t11 ON #)" },
    // queries of one column
    { '&', "SELECT @" },
    { '&', "SELECT @ AS c FROM u" },
    { '&', "SELECT 1 FROM $" },
    { '&', "SELECT k FROM u WHERE #" },
    { '&', "SELECT k FROM u ORDER BY @" },
    { '&', "SELECT k FROM u GROUP BY k HAVING #" },
    { '&', "VALUES (1), (@)" },
    { '&', "SELECT * FROM (&) AS u1 UNION SELECT k FROM u" },
    { '&', "SELECT k FROM u UNION ALL (&)" },
    { '&', "SELECT k FROM u EXCEPT (&)" },
    { '&', "SELECT k FROM u INTERSECT (&)" },
    { '&', "WITH q1 AS (&) SELECT 1" },
    { '&', "WITH q2(c) AS (VALUES (1)), q3 AS (&) SELECT c FROM q2" },
    { '&', "WITH q4 AS (SELECT 1 AS c) SELECT c FROM q4 WHERE #" },
};

/// operands of set operations have no WITH
inline bool fits(Piece const& p, std::string const& part) {
    return part.find("WITH") > 1 || (p.text.find("ALL (&)") == std::string::npos && p.text.find("EXCEPT (&)") == std::string::npos && p.text.find("INTERSECT (&)") == std::string::npos);
}

/// what is sound, instead of a fault
inline std::string sound(char kind) {
    return kind == '@' ? "coalesce(1, 2)" : kind == '#' ? "1 = 1" : kind == '$' ? "u AS e" : "SELECT 1";
}

/// all places which are up to `depth` pieces below a statement: `at(before-and-after, kind, innermost piece, chooser)`
inline void each(mc::Worker& w, std::string const& leg, int depth, std::function<void(Piece const&, char, Piece const&, mc::Chooser&)> const& at) {
    for (auto& s : pieces) {
        if (s.gives != '!') continue;
        w.explore(leg + " " + s.text, 99, [&](mc::Chooser& c) {
            auto* p = &s;
            std::string text = p->text;
            char kind = p->takes();
            int levels = int(c.choose(depth + 1));
            for (int i = 0; i < levels; ++i) {
                std::vector<Piece const*> fit;
                for (auto& x : pieces) if (x.gives == kind && fits(*p, x.text)) fit.push_back(&x);
                p = fit[std::size_t(c.choose(int(fit.size())))];
                text = Piece { '!', text }.with(p->text);
                kind = p->takes();
            }
            at(Piece { '!', text }, kind, *p, c);
        });
    }
}

} // namespace places
