// Parts which are at fault, each with its code.
#pragma once
#include "places.h"

namespace places {

using code = sql_analyzer_code;

/// a faulty part which brings along what it needs; the part in question stands between ~ and ~
struct Fault { char gives; std::string text; code what; };

inline std::vector<Fault> const faults {
    // names of columns and parameters
    { '@', "~zz~", code::variable_not_found },
    { '@', "~zz~.k", code::symbol_not_found },
    { '@', "~zz~.t.k", code::symbol_not_found },
    { '@', "pub.~zz~.k", code::symbol_not_found },
    { '@', "cat.~zz~.t.k", code::schema_not_found },
    { '@', "(SELECT t.~zz~ FROM t)", code::column_not_found },
    { '@', "(SELECT pub.t.~zz~ FROM t)", code::column_not_found },
    { '@', "(SELECT e.~v~ FROM u AS e)", code::column_not_found },
    { '@', "(SELECT ~e~.k FROM u AS e, t AS e)", code::relation_ambiguous },
    { '@', "(SELECT ~k~ FROM t, u)", code::column_ambiguous },
    { '@', "(SELECT ~c~ FROM (SELECT 1 AS c, 2 AS c) AS e)", code::column_ambiguous },
    { '@', "(SELECT k.~zz~ FROM u)", code::unsupported_feature },
    { '@', "~:zz~", code::variable_not_found },
    { '@', "~?~", code::variable_not_found },
    // functions
    { '@', "~ff(1)~", code::function_not_found },
    { '@', "~f('a')~", code::function_not_found },
    { '@', "~f(1, 2)~", code::function_not_found },
    { '@', "~pub.ff(1)~", code::function_not_found },
    { '@', "~zz.f(1)~", code::function_not_found },
    { '@', "~tf(1)~", code::function_not_found },
    { '@', "~amb~(CAST(1 AS INT), CAST(2 AS INT))", code::function_ambiguous },
    // literals
    { '@', "coalesce(~NULL~, 1)", code::missing_context_of_null },
    { '@', "~1e999~", code::unsupported_approximate_number },
    { '@', "coalesce(1, ~12345678901234567890123456789012345678901~)", code::unsupported_decimal_value },
    { '@', "(SELECT k FROM u WHERE DATE ~'2020-13-01'~ IS NULL)", code::unsupported_string_value },
    { '#', "TIME ~'25:00:00'~ IS NULL", code::unsupported_string_value },
    { '#', "TIMESTAMP ~'2020-01-01 00:00:00+09:00'~ IS NULL", code::unsupported_string_value },
    { '#', "~TIME WITH TIME ZONE '00:00:00+09:00'~ IS NULL", code::unsupported_feature },
    { '#', "X~'0'~ IS NULL", code::malformed_quoted_string },
    { '#', "X~'0g'~ IS NULL", code::malformed_quoted_string },
    // types
    { '@', "CAST(1 AS CHAR(~0~))", code::invalid_type_length },
    { '@', "CAST(1 AS VARBINARY(~0~))", code::invalid_type_length },
    { '@', "CAST(1 AS DECIMAL(~39~, 1))", code::invalid_type_length },
    { '@', "CAST(1 AS DECIMAL(~0~))", code::invalid_type_length },
    { '@', "CAST(1 AS DECIMAL(3, ~4~))", code::invalid_numeric_scale },
    { '@', "CAST(1 AS ~zz~)", code::unsupported_feature },
    { '@', "CAST(1 AS ~INT ARRAY[3]~)", code::unsupported_feature },
    { '@', "CAST(1 AS INTEGER(~64~))", code::invalid_type_length },
    // what expressions cannot do
    { '@', "~(SELECT k, v FROM t)~", code::inconsistent_columns },
    { '#', "~1 IN (SELECT k, w FROM u)~", code::inconsistent_columns },
    { '#', "~1 = ANY (SELECT k, w FROM u)~", code::inconsistent_columns },
    { '#', "~UNIQUE~ (SELECT k FROM u)", code::unsupported_feature },
    { '#', "1 ~OVERLAPS~ 2", code::unsupported_feature },
    { '#', "~(1, 2)~ = (1, 2)", code::unsupported_feature },
    { '@', "~ARRAY[1, 2]~", code::unsupported_feature },
    { '@', "1~[~1]", code::unsupported_feature },
    { '@', "(1) ~AT TIME ZONE~ 'x'", code::unsupported_feature },
    { '@', "~EXTRACT(YEAR FROM 1)~", code::function_not_found },
    { '@', "~TRIM('a')~", code::unsupported_feature },
    { '@', "~TREAT(1 AS INT)~", code::unsupported_feature },
    { '@', "~NEXT VALUE FOR~ q", code::unsupported_feature },
    { '@', "~NEW x(1)~", code::unsupported_feature },
    // types
    { '@', "~-(TRUE)~", code::inconsistent_type },
    { '@', "(~1 + TRUE~)", code::inconsistent_type },
    { '@', "(~1 + 'a'~)", code::inconsistent_type },
    { '@', "~coalesce(1, 'a')~", code::inconsistent_type },
    { '@', "~CASE WHEN 1 THEN 2 END~", code::inconsistent_type },
    { '#', "~NOT 1~", code::inconsistent_type },
    { '#', "(~1 = 1 AND 1~)", code::inconsistent_type },
    { '#', "~1 < 'a'~", code::inconsistent_type },
    { '#', "~1 LIKE 'a'~", code::inconsistent_type },
    { '#', "~'a' LIKE 1~", code::inconsistent_type },
    { '#', "~1 BETWEEN 2 AND 'a'~", code::inconsistent_type },
    { '#', "1 IN (1, ~'a'~)", code::inconsistent_type },
    { '#', "~'a' IN (SELECT k FROM u)~", code::inconsistent_type },
    // tables
    { '$', "~zz~", code::table_not_found },
    { '$', "pub.~zz~", code::table_not_found },
    { '$', "~zz~.t", code::schema_not_found },
    { '$', "cat.~zz~.t", code::schema_not_found },
    { '$', "~zz~.pub.t", code::catalog_not_found },
    { '$', "~x~", code::table_not_found },
    { '$', "u ~AS e(c, d, g)~", code::inconsistent_columns },
    { '$', "u AS e(c, ~c~)", code::column_already_exists },
    { '$', "(t AS e JOIN u AS g USING (k, ~zz~))", code::column_not_found },
    { '$', "(t AS e JOIN u AS g USING (~v~))", code::column_not_found },
    { '$', "(t AS e JOIN u AS g USING (~w~))", code::column_not_found },
    { '$', "(t AS e JOIN u AS g USING (k, ~v~))", code::column_not_found },
    { '$', "(t AS e JOIN u AS g USING (k, ~w~))", code::column_not_found },
    { '$', "(t AS e LEFT JOIN (SELECT 1 AS k, 2 AS v, 3 AS q) AS g USING (v, ~q~, k))", code::column_not_found },
    { '$', "(t AS e JOIN (SELECT 1 AS k, 2 AS v, 3 AS q) AS g USING (v, k, ~s~))", code::column_not_found },
    { '$', "(t AS e FULL JOIN (SELECT 1 AS k, 2 AS v, 3 AS v) AS g USING (k, ~v~))", code::column_ambiguous },
    { '$', "((SELECT 1 AS k, 2 AS v, 3 AS v) AS e JOIN t AS g USING (k, ~v~))", code::column_ambiguous },
    { '$', "t AS e(c, d, ~c~)", code::column_already_exists },
    { '$', "t AS e(c, d, g, ~d~)", code::column_already_exists },
    { '$', "(t AS e CROSS JOIN t AS g JOIN u AS h USING (~k~))", code::column_ambiguous },
    { '$', "(~t AS e NATURAL JOIN u AS g~)", code::unsupported_feature },
    { '$', "(t AS e JOIN u AS g ~ON max(v) = 1~)", code::unsupported_feature },
    { '$', "(~t AS e APPLY zz(1) AS g(c)~)", code::function_not_found },
    { '$', "(~t AS e APPLY tf('a') AS g(c)~)", code::function_not_found },
    { '$', "(~t AS e APPLY f(1) AS g(c)~)", code::function_not_found },
    { '$', "t AS e APPLY tf(1) ~AS g(c, d)~", code::inconsistent_columns },
    { '$', "t AS e APPLY tf(~max(e.v)~) AS g(c)", code::unsupported_feature },
    { '$', "~LATERAL (SELECT 1) AS e~", code::unsupported_feature },
    { '$', "~UNNEST (ARRAY[1]) AS e~", code::unsupported_feature },
    { '$', "((SELECT 1 AS c, 2 AS c) AS e JOIN (SELECT 1 AS c) AS g USING (~c~))", code::column_ambiguous },
    { '$', "((SELECT 1 AS d, 1 AS c) AS e JOIN (SELECT 1 AS c, 2 AS d, 3 AS c) AS g USING (d, ~c~))", code::column_ambiguous },
    { '$', "t AS e APPLY tf2(1) AS g(c, ~c~)", code::column_already_exists },
    { '$', "t AS e APPLY tf2(1) ~AS g(c)~", code::inconsistent_columns },
    // queries
    { '&', "SELECT e.~c~ FROM (SELECT 1 AS c, 2 AS c) AS e", code::column_ambiguous },
    { '&', "SELECT ~c~ FROM (SELECT 1 AS c, 2 AS d, 2 AS c, 3 AS c) AS e", code::column_ambiguous },
    { '&', "SELECT 1 FROM (SELECT 1 AS c, 2 AS d, 2 AS c, 3 AS c) AS e ORDER BY d, e.~c~", code::column_ambiguous },
    { '&', "SELECT ~e~.* FROM t", code::table_not_found },
    { '&', "SELECT ~*~", code::unsupported_feature },
    { '&', "SELECT ~v~ FROM t GROUP BY k", code::invalid_aggregation_column },
    { '&', "SELECT max(v) + ~k~ FROM t", code::invalid_aggregation_column },
    { '&', "SELECT 1 FROM t GROUP BY k HAVING ~v~ = 1", code::invalid_aggregation_column },
    { '&', "SELECT k FROM t GROUP BY k ORDER BY k, ~v~", code::invalid_aggregation_column },
    { '&', "SELECT max(~max(v)~) FROM t", code::unsupported_feature },
    { '&', "SELECT 1 FROM t WHERE ~max(v) = 1~", code::unsupported_feature },
    { '&', "SELECT 1 FROM t GROUP BY k, ~v + 1~", code::unsupported_feature },
    { '&', "SELECT 1 FROM t GROUP BY ~max(v)~", code::unsupported_feature },
    { '&', "SELECT 1 FROM t GROUP BY ~zz~", code::variable_not_found },
    { '&', "SELECT 1 FROM t GROUP BY k, ~zz~, v", code::variable_not_found },
    { '&', "SELECT 1 FROM t GROUP BY k, ~s COLLATE zz~", code::unsupported_feature },
    { '&', "SELECT 1 FROM t GROUP BY ~s COLLATE zz~, k", code::unsupported_feature },
    { '&', "SELECT 1 FROM t GROUP BY ~k + v~, k", code::unsupported_feature },
    { '&', "SELECT k FROM t ORDER BY v, ~1~", code::unsupported_feature },
    { '&', "SELECT k FROM t ORDER BY ~-1~", code::unsupported_feature },
    { '&', "SELECT k FROM t ORDER BY ~k NULLS FIRST~", code::unsupported_feature },
    { '&', "SELECT k FROM t ORDER BY v, ~s COLLATE c~", code::unsupported_feature },
    { '&', "SELECT k FROM t ORDER BY ~s COLLATE c~, v", code::unsupported_feature },
    { '&', "SELECT k FROM t ORDER BY v, ~k NULLS LAST~, s", code::unsupported_feature },
    { '&', "SELECT k FROM t ORDER BY v, s, ~+ 1~", code::unsupported_feature },
    { '&', "SELECT k FROM t LIMIT ~zz~", code::variable_not_found },
    { '&', "SELECT k FROM t LIMIT ~1.5~", code::invalid_unsigned_integer },
    { '&', "SELECT k FROM t LIMIT ~'a'~", code::invalid_unsigned_integer },
    { '&', "SELECT k FROM u ~UNION~ SELECT k, w FROM u", code::inconsistent_columns },
    { '&', "SELECT k FROM u ~EXCEPT~ SELECT k, w FROM u", code::inconsistent_columns },
    { '&', "SELECT k, w FROM u ~INTERSECT~ SELECT k FROM u", code::inconsistent_columns },
    { '&', "SELECT k FROM u UNION SELECT k FROM u ~UNION~ ALL SELECT k, w FROM u", code::inconsistent_columns },
    { '&', "SELECT k FROM u ~UNION~ SELECT k, w FROM u UNION SELECT k FROM u", code::inconsistent_columns },
    { '&', "SELECT k FROM u UNION SELECT k, v FROM t ~INTERSECT~ SELECT k FROM u", code::inconsistent_columns },
    { '&', "~SELECT k FROM u UNION CORRESPONDING SELECT k FROM u~", code::unsupported_feature },
    { '&', "~VALUES (1), (2, 3)~", code::inconsistent_elements },
    { '&', "VALUES (~max(1)~)", code::unsupported_feature },
    { '&', "WITH q6 AS (SELECT 1), ~q6~ AS (SELECT 2) SELECT 3", code::view_already_exists },
    { '&', "WITH q6 AS (SELECT 1), q5 AS (SELECT 2), ~q6~ AS (SELECT 3) SELECT 3", code::view_already_exists },
    { '&', "WITH q6 AS (SELECT 1), q5 AS (SELECT 2), ~q5~ AS (SELECT 3) SELECT 3", code::view_already_exists },
    { '&', "WITH q6 AS (SELECT 1), ~q7(c, d) AS (SELECT 1)~ SELECT 3", code::inconsistent_columns },
    { '&', "WITH q8(c, d, ~d~) AS (SELECT 1, 2, 3) SELECT 3", code::column_already_exists },
    { '&', "WITH ~q7(c, d) AS (SELECT 1)~ SELECT 3", code::inconsistent_columns },
    { '&', "WITH q8(c, ~c~) AS (SELECT 1, 2) SELECT 3", code::column_already_exists },
    { '&', "~WITH RECURSIVE q9 AS (SELECT 1) SELECT 3~", code::unsupported_feature },
    { '&', "TABLE ~zz~", code::table_not_found },
};

/// the statement without its marks, and where the marked part stands
struct Marked { std::string text; std::size_t begin = std::string::npos, end = std::string::npos; };
inline Marked marked(std::string const& s) {
    Marked m;
    for (auto c : s) {
        if (c != '~') { m.text += c; continue; }
        (m.begin == std::string::npos ? m.begin : m.end) = m.text.size();
    }
    return m;
}

} // namespace places
