// One faulty part at every place of a statement: the statement is rejected with the code of that fault, at that part.
#include "an_show.h"
#include "places.h"
#include "place_faults.h"

using namespace mc;
using namespace an;
using namespace places;

namespace {

std::string where(Outcome const& r, std::string const& text) {
    std::string o;
    for (auto& d : r.diagnostics()) {
        std::ostringstream s;
        auto g = d.location();
        s << d.code() << " at " << (g ? "\"" + text.substr(g.begin(), g.end() - g.begin()) + "\" (" + std::to_string(g.begin()) + ")" : std::string("no place")) << "; ";
        o += s.str();
    }
    return o;
}

void faulty(Worker& w, std::string const& text, code what, char const* key) {
    if (w.steering()) return;
    auto m = marked(text);
    if (w.replaying()) std::cout << m.text << "\n";
    w.count("faults");
    w.state(std::hash<std::string> {}(m.text));
    auto r = run(analyzer(), world().opt, m.text);
    if (!w.expect(r.parsed && r.thrown.empty(), "syntax", m.text, ": ", r.why())) return;
    if (!w.expect(!r.ok(), key, m.text, " is accepted although \"", m.text.substr(m.begin, m.end - m.begin), "\" is at fault")) return;
    bool good = r.diagnostics().size() == 1;
    for (auto& d : r.diagnostics()) {
        auto g = d.location();
        good = good && d.code() == what && g && g.begin() == m.begin && g.end() == m.end && !d.message().empty() && g.source_ptr() == r.unit->document().get();
    }
    std::ostringstream s;
    s << what;
    w.expect(good, key, m.text, ": expected ", s.str(), " at \"", m.text.substr(m.begin, m.end - m.begin), "\" (", m.begin, ") but got ", where(r, m.text));
    w.count("fault " + s.str());
    w.sample(m.text);
}

/// a statement which has no fault is accepted
void plain(Worker& w, std::string const& text) {
    if (w.steering()) return;
    w.count("sound");
    auto r = run(analyzer(), world().opt, text);
    w.expect(r.ok(), "sound", text, ": ", r.why());
}

/// faults at every place which is up to `depth` pieces below a statement
void everywhere(Worker& w, int depth) {
    each(w, "place", depth, [&](Piece const& outer, char kind, Piece const& innermost, Chooser& c) {
        std::vector<Fault const*> fit;
        for (auto& x : faults) if (x.gives == kind && fits(innermost, x.text)) fit.push_back(&x);
        auto f = c.choose(int(fit.size()) + 1);
        if (f == 0) plain(w, outer.with(sound(kind)));
        else faulty(w, outer.with(fit[std::size_t(f - 1)]->text), fit[std::size_t(f - 1)]->what, "place");
    });
}

/// an aggregate function in a clause which cannot have one, however deep in its expression
void misplaced(Worker& w, int depth) {
    static std::vector<std::string> const clauses {
        "SELECT k FROM t WHERE ~#~", "SELECT k FROM t WHERE ~#~ GROUP BY k", "SELECT max(v) FROM t WHERE ~#~", "SELECT k FROM (SELECT k FROM t WHERE ~#~) AS g",
        "SELECT max(v) FROM t HAVING EXISTS (SELECT k FROM u WHERE ~#~)", "SELECT 1 FROM t JOIN u ~ON #~", "SELECT 1 FROM t LEFT JOIN u ON TRUE JOIN u AS g ~ON #~",
        "SELECT 1 FROM t JOIN (u JOIN u AS g ~ON #~) ON TRUE", "SELECT max(v) FROM t APPLY tf(~@~) AS d(c)", "SELECT 1 FROM t APPLY tf3(~@~, 1) AS d(c)", "SELECT 1 FROM t APPLY tf3(1, ~@~) AS d(c)",
        "VALUES (~@~)", "VALUES (1, ~@~)", "VALUES (~@~, 1)", "VALUES (1), (~@~), (2)", "INSERT INTO u VALUES (1, ~@~)", "INSERT INTO u (w, k) VALUES (1, 2), (~@~, 1)",
        "INSERT INTO u SELECT k, v FROM t WHERE ~#~", "UPDATE t SET v = ~@~", "UPDATE t SET v = ~@~, k = 1", "UPDATE t SET v = 1, k = ~@~ WHERE k = 1", "UPDATE t SET v = 1 WHERE ~#~", "DELETE FROM t WHERE ~#~",
    };
    for (auto& t : clauses) w.explore("misplaced " + t, 99, [&](Chooser& c) {
        auto text = t;
        char kind = text.find('@') != std::string::npos ? '@' : '#';
        auto levels = c.choose(depth + 1);
        for (int i = 0; i < levels; ++i) {
            std::vector<Piece const*> fit;
            for (auto& x : pieces) if (x.gives == kind && (x.takes() == '@' || x.takes() == '#') && x.text.find("SELECT") == std::string::npos && (i > 0 || x.text != "(@)")) fit.push_back(&x);
            auto& x = *fit[std::size_t(c.choose(int(fit.size())))];
            auto at = text.find(kind);
            text = text.substr(0, at) + x.text + text.substr(at + 1);
            kind = x.takes();
        }
        static char const* const calls[] { "count(*)", "max(1)" };
        auto call = std::string(calls[c.choose(2)]) + (kind == '#' ? " = 1" : "");
        auto at = text.find(kind); // the stars of count(*) come last
        faulty(w, text.substr(0, at) + call + text.substr(at + 1), code::unsupported_feature, "misplaced");
    });
}

// ---- statements which define or change ----

struct Bad { std::string text; code what; };

/// elements of CREATE TABLE; they may come after `p INT` and before others
std::vector<Bad> const elements {
    { "~p~ INT", code::column_already_exists },
    { "c CHAR(~0~)", code::invalid_type_length },
    { "c DECIMAL(2, ~3~) NOT NULL", code::invalid_numeric_scale },
    { "c ~zz~", code::unsupported_feature },
    { "c INT PRIMARY KEY ~PRIMARY KEY~", code::primary_index_already_exists },
    { "c INT PRIMARY KEY ~NULL~", code::invalid_constraint },
    { "c INT NULL ~PRIMARY KEY~", code::invalid_constraint },
    { "c INT NULL ~NOT NULL~", code::invalid_constraint },
    { "c INT NOT NULL DEFAULT 1 ~NULL~", code::invalid_constraint },
    { "c INT NULL ~NULL~", code::invalid_constraint },
    { "c INT NOT NULL ~NOT NULL~", code::invalid_constraint },
    { "c INT DEFAULT 1 ~DEFAULT 2~", code::invalid_constraint },
    { "c INT DEFAULT 1 NOT NULL ~GENERATED ALWAYS AS IDENTITY~", code::invalid_constraint },
    { "c INT GENERATED BY DEFAULT AS IDENTITY ~DEFAULT 1~", code::invalid_constraint },
    { "c INT DEFAULT ~1 + 1~", code::unsupported_feature },
    { "c INT DEFAULT ~f(1)~", code::unsupported_feature },
    { "c INT DEFAULT ~ff()~", code::function_not_found },
    { "c INT DEFAULT ~zz~", code::variable_not_found },
    { "c INT DEFAULT ~p~", code::variable_not_found },
    { "c INT DEFAULT ~(SELECT 1)~", code::unsupported_feature },
    { "c DATE DEFAULT DATE ~'2020-13-01'~", code::unsupported_string_value },
    { "c VARCHAR(3) ~GENERATED ALWAYS AS IDENTITY~", code::inconsistent_type },
    { "c INT GENERATED ALWAYS AS IDENTITY (INCREMENT BY ~0~)", code::invalid_sequence_value },
    { "c INT ~GENERATED ALWAYS AS IDENTITY (START WITH 0)~ NOT NULL", code::invalid_sequence_value },
    { "c INT GENERATED ALWAYS AS IDENTITY (MINVALUE 1 START WITH ~99999999999~)", code::invalid_sequence_value },
    { "c INT GENERATED ALWAYS AS IDENTITY (MINVALUE ~1.5~)", code::invalid_sequence_value },
    { "c BIGINT GENERATED ALWAYS AS IDENTITY (INCREMENT BY 2 MAXVALUE ~'a'~)", code::invalid_sequence_value },
    { "c INT ~GENERATED ALWAYS AS (1)~", code::unsupported_feature },
    { "c INT ~UNIQUE~", code::unsupported_feature },
    { "c INT NOT NULL ~REFERENCES t (k)~", code::unsupported_feature },
    { "~UNIQUE (p)~", code::unsupported_feature },
    { "~FOREIGN KEY (p) REFERENCES t (k)~", code::unsupported_feature },
    { "PRIMARY KEY (~zz~)", code::variable_not_found },
    { "PRIMARY KEY (p, ~p~)", code::column_already_exists },
    { "PRIMARY KEY (~p + 1~)", code::unsupported_feature },
    { "PRIMARY KEY (p, ~1~)", code::unsupported_feature },
    { "PRIMARY KEY (p DESC ~NULLS FIRST~)", code::unsupported_feature },
    { "PRIMARY KEY (p COLLATE ~zz~)", code::unsupported_feature },
    { "PRIMARY KEY (p) INCLUDE (~p~)", code::unsupported_feature },
    { "PRIMARY KEY (p) WITH (~a~ = 1)", code::malformed_syntax },
};

/// whole statements
std::vector<Bad> const others {
    { "CREATE TABLE ~t~ (c INT)", code::table_already_exists },
    { "CREATE TABLE ~pub.n~ (c INT)", code::unsupported_feature },
    { "~CREATE TABLE n (PRIMARY KEY (c))~", code::malformed_syntax },
    { "CREATE TABLE n (c INT PRIMARY KEY, d INT, e INT ~PRIMARY KEY~)", code::primary_index_already_exists },
    { "CREATE TABLE n (c INT PRIMARY KEY, ~PRIMARY KEY (c)~)", code::primary_index_already_exists },
    { "CREATE TABLE n (c INT, PRIMARY KEY (c), ~PRIMARY KEY (c)~)", code::primary_index_already_exists },
    { "CREATE TABLE n (c INT) WITH (~a~ = 1, b)", code::unsupported_feature },
    { "CREATE INDEX i ON ~zz~ (k)", code::table_not_found },
    { "CREATE INDEX i ON ~x~ (k)", code::table_not_found },
    { "CREATE INDEX i ON t (v, ~zz~)", code::variable_not_found },
    { "CREATE INDEX i ON t (k DESC, v, ~k~)", code::column_already_exists },
    { "CREATE INDEX i ON t (~k + 1~)", code::unsupported_feature },
    { "CREATE INDEX ~t~ ON t (k)", code::index_already_exists },
    { "CREATE INDEX ~pub.i~ ON t (k)", code::unsupported_feature },
    { "CREATE INDEX ON t (k ~NULLS LAST~)", code::unsupported_feature },
    { "CREATE INDEX ON t (v, s COLLATE ~zz~)", code::unsupported_feature },
    { "CREATE ~TEMPORARY~ TABLE n (c INT)", code::unsupported_feature },
    { "CREATE ~TEMPORARY~ TABLE IF NOT EXISTS t (c INT)", code::unsupported_feature },
    { "CREATE ~UNIQUE~ INDEX i ON t (k)", code::unsupported_feature },
    { "CREATE INDEX i ON t (k) INCLUDE (~v~)", code::unsupported_feature },
    { "CREATE INDEX i ON t (k) WHERE ~b~", code::unsupported_feature },
    { "CREATE INDEX i ON t (k) WITH (~a~ = 1)", code::unsupported_feature },
    { "~CREATE VIEW n AS SELECT 1~", code::unsupported_feature },
    { "~CREATE SEQUENCE n~", code::unsupported_feature },
    { "~CREATE SCHEMA n~", code::unsupported_feature },
    { "~DROP VIEW t~", code::unsupported_feature },
    { "~DROP SCHEMA pub~", code::unsupported_feature },
    { "~DROP SEQUENCE n~", code::unsupported_feature },
    { "DROP TABLE ~zz~", code::table_not_found },
    { "DROP TABLE ~zz~.t", code::schema_not_found },
    { "DROP TABLE oth.~zz~", code::table_not_found },
    { "DROP TABLE t ~CASCADE~", code::unsupported_feature },
    { "DROP INDEX ~zz~", code::index_not_found },
    { "DROP INDEX oth.~zz~", code::index_not_found },
    { "DROP INDEX ~xi~", code::index_not_found },
    { "DROP INDEX t ~CASCADE~", code::unsupported_feature },
    { "TRUNCATE TABLE ~zz~", code::table_not_found },
    { "TRUNCATE TABLE cat.oth.~zz~ RESTART IDENTITY", code::table_not_found },
    { "ALTER TABLE ~zz~ RENAME TO n", code::table_not_found },
    { "ALTER TABLE t RENAME TO ~t~", code::table_already_exists },
    { "ALTER TABLE t RENAME TO ~u~", code::table_already_exists },
    { "ALTER TABLE oth.x RENAME TO ~t~", code::table_already_exists },
    { "ALTER TABLE ~zz~ RENAME COLUMN k TO n", code::table_not_found },
    { "ALTER TABLE t RENAME COLUMN ~zz~ TO n", code::column_not_found },
    { "ALTER TABLE t RENAME COLUMN k TO ~v~", code::column_already_exists },
    { "ALTER TABLE t RENAME COLUMN k TO ~k~", code::column_already_exists },
    { "ALTER INDEX ~zz~ RENAME TO n", code::index_not_found },
    { "ALTER INDEX t RENAME TO ~n~", code::unsupported_feature },
    { "GRANT SELECT ON ~zz~ TO a", code::table_not_found },
    { "GRANT SELECT, INSERT ON TABLE t, u, ~zz~ TO a, b", code::table_not_found },
    { "GRANT SELECT ON TABLE t, ~zz~, u TO a", code::table_not_found },
    { "GRANT UPDATE ON t, oth.~zz~ TO PUBLIC", code::table_not_found },
    { "GRANT SELECT ON t TO a, ~*~", code::malformed_syntax },
    { "REVOKE SELECT ON ~zz~ FROM a", code::table_not_found },
    { "REVOKE DELETE ON t, ~zz~ FROM *", code::table_not_found },
    { "INSERT INTO ~zz~ VALUES (1, 2)", code::table_not_found },
    { "INSERT INTO oth.~zz~ VALUES (1, 2)", code::table_not_found },
    { "INSERT INTO u (k, ~zz~) VALUES (1)", code::column_not_found },
    { "INSERT INTO u (~zz~, k) VALUES (1, 2)", code::column_not_found },
    { "INSERT INTO t (k, ~zz~, v) VALUES (1, 2, 3)", code::column_not_found },
    { "INSERT INTO t (k, v, ~v~, s) VALUES (1, 2, 3, 'a')", code::column_already_exists },
    { "INSERT INTO u (k, w, ~k~) VALUES (1, 2, 3)", code::column_already_exists },
    { "INSERT INTO u (k) ~VALUES (1, 2)~", code::inconsistent_columns },
    { "INSERT INTO u ~SELECT 1~", code::inconsistent_columns },
    { "INSERT INTO u ~VALUES (1, 2), (3)~", code::inconsistent_elements },
    { "INSERT INTO u VALUES (1, 2), (3, ~DEFAULT~)", code::missing_context_of_default_value },
    { "INSERT INTO ~zz~ DEFAULT VALUES", code::table_not_found },
    { "INSERT INTO u ~SELECT k FROM u~", code::inconsistent_columns },
    { "UPDATE ~zz~ SET k = 1", code::table_not_found },
    { "UPDATE u SET w = 1, ~zz~ = 1", code::column_not_found },
    { "UPDATE t SET k = 1, ~zz~ = 1, v = 1", code::column_not_found },
    { "UPDATE t SET k = 1, v = 1, ~v~ = 1", code::column_already_exists },
    { "UPDATE u SET w = 1, k = 1, ~w~ = 2", code::column_already_exists },
    { "UPDATE u SET ~u.k~ = 1", code::unsupported_feature },
    { "UPDATE t SET k = ~max(v)~", code::unsupported_feature },
    { "UPDATE t SET k = 1 WHERE ~max(v) = 1~", code::unsupported_feature },
    { "UPDATE u SET k = 1, w = ~DEFAULT~", code::missing_context_of_default_value },
    { "UPDATE u AS e SET w = ~u~.k", code::symbol_not_found },
    { "DELETE FROM ~zz~", code::table_not_found },
    { "DELETE FROM u AS e WHERE ~u~.k = 1", code::symbol_not_found },
    { "DELETE FROM t WHERE ~max(v) = 1~", code::unsupported_feature },
};

void statements(Worker& w) {
    std::vector<std::string> const fillers { "q1 VARCHAR(3) NOT NULL", "q2 BIGINT DEFAULT 1", "q3 DECIMAL(3, 1) NULL" };
    w.explore("elements", 99, [&](Chooser& c) {
        auto& b = elements[std::size_t(c.choose(elements.size()))];
        std::string text = "CREATE TABLE n (";
        auto before = c.choose(3), after = c.choose(3);
        bool key = c.choose(2) == 0; // a primary key elsewhere, unless the fault has to do with one
        if (key && b.text.find("PRIMARY") != std::string::npos) return;
        text += "p INT";
        for (std::size_t i = 0; i < std::size_t(before); ++i) text += ", " + fillers[i];
        text += ", " + b.text;
        for (std::size_t i = 0; i < std::size_t(after); ++i) text += ", r" + fillers[i];
        if (key) text += ", PRIMARY KEY (p)";
        faulty(w, text + ")", b.what, "element");
    });
    w.enumerate("statements", others.size(), [&](std::size_t i) { faulty(w, others[i].text, others[i].what, "statement"); });
}

void check(Worker& w) {
    statements(w);
    everywhere(w, w.thorough ? 3 : 2);
    misplaced(w, w.thorough ? 3 : 2);
}

} // namespace

int main(int argc, char** argv) { return harness_main(argc, argv, check); }
