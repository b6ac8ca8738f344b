// Literals and names of types are analyzed into exactly the constants and types which they denote, under
// every combination of the options which choose among the types: each text of enumerated families is
// compared with a value computed here from its definition.
#include "an_env.h"
#include "harness.h"
#include <cmath>
#include <cfloat>
#include <limits>
#include <takatori/value/octet.h>

// which legs: 1 literals, 2 types; 0 all
#ifndef PART
#define PART 0
#endif

using namespace mc;
using namespace an;
namespace tv = ::takatori::value;
namespace tt = ::takatori::type;
namespace ts = ::takatori::scalar;
namespace tr = ::takatori::relation;
namespace td = ::takatori::descriptor;
namespace dt = ::takatori::datetime;
using Code = sql_analyzer_code;

namespace {

struct Wrong { std::string why; };
sql_analyzer& analyzer() { static thread_local sql_analyzer a; return a; }
struct World : Env {
    World() { schema("pub").table("a", { { "x" }, { "y" } }); }
};
World& world() { static World w; return w; }

/// the expression which gives the only column of the result
ts::expression const* column_of(tr::graph_type const& g, td::variable const& v, int depth = 0) {
    if (depth > 8) return nullptr;
    ts::expression const* found = nullptr;
    for (auto&& op : g) {
        if (op.kind() == tr::expression_kind::values) {
            auto& x = static_cast<tr::values const&>(op);
            for (std::size_t i = 0; i < x.columns().size(); ++i) if (x.columns()[i] == v && x.rows().size() == 1) found = &x.rows()[0].elements()[i];
        } else if (op.kind() == tr::expression_kind::project) {
            for (auto& c : static_cast<tr::project const&>(op).columns()) if (c.variable() == v) found = &c.value();
        }
    }
    if (found && found->kind() == ts::expression_kind::variable_reference) return column_of(g, static_cast<ts::variable_reference const&>(*found).variable(), depth + 1);
    return found;
}
ts::expression const* only(Outcome const& o) {
    if (!o.is_plan()) return nullptr;
    for (auto&& op : o.graph()) if (op.kind() == tr::expression_kind::emit) {
        auto& e = static_cast<tr::emit const&>(op);
        if (e.columns().size() == 1) return column_of(o.graph(), e.columns()[0].source());
    }
    return nullptr;
}

using Value = std::shared_ptr<tv::data const>;
template<class X> Value value(X x) { return std::make_shared<X>(std::move(x)); }
struct Constant { Value value; Type type; };
std::string text(Constant const& c) { return plan::text(*c.value) + " of " + plan::text(*c.type); }

/// the statement must give this constant; or must be rejected
void judge(Worker& w, std::string const& literal, sql_analyzer_options const& options, std::function<Constant()> const& want, std::string const& note = {}, bool select = false) {
    if (w.steering()) return;
    std::string sql = select ? "SELECT " + literal + " AS c FROM a" : "VALUES (" + literal + ")";
    w.state(std::hash<std::string> {}(sql + note));
    if (w.replaying()) std::cout << sql << " " << note << "\n";
    Constant c;
    std::string wrong;
    try { c = want(); }
    catch (Wrong const& e) { wrong = e.why; }
    auto r = run(analyzer(), options, sql);
    if (!w.expect(r.parsed, "syntax", sql, ": ", r.why())) return;
    if (!w.expect(r.thrown.empty(), "throws", sql, " ", note, ": ", r.thrown)) return;
    if (!wrong.empty()) {
        w.count("wrong");
        if (w.expect(!r.ok(), "wrong literal accepted", sql, " ", note, ": ", wrong)) w.expect(!r.diagnostics().empty(), "no diagnostics", sql);
        return;
    }
    w.count("constants");
    if (!w.expect(r.is_plan(), "rejected", sql, " ", note, ": ", r.why())) return;
    auto* e = only(r);
    if (!w.expect(e != nullptr, "no value", sql, " ", note)) return;
    if (!w.expect(e->kind() == ts::expression_kind::immediate, "not a constant", sql, " ", note, ": ", *e)) return;
    auto& i = static_cast<ts::immediate const&>(*e);
    if (i.value() == *c.value && *c.type == tt::octet { tt::varying } && i.type() == tt::octet { tt::varying, static_cast<tv::octet const&>(*c.value).get().size() }) {
        // a defect which is on record: it is announced once, and does not use up the places for others
        static bool told = false;
        if (!told) w.fail("length of a binary literal", sql + " " + note + ": the type has the length of the value, where small types are not preferred");
        told = true;
        w.count("on record");
        return;
    }
    w.expect(i.value() == *c.value && i.type() == *c.type, "value", sql, " ", note, ": expected ", text(c), " actual ", i.value(), " of ", i.type());
    w.sample(sql + " " + note + " -- " + text(c));
}

// ---- exact numbers
struct Number { bool minus = false; std::string digits; std::size_t scale = 0; }; // digits without leading zeros
Constant exact(Number const& n, bool small_int, bool small_dec, std::size_t max_precision) {
    if (n.digits.size() > max_precision) throw Wrong { "too many digits" };
    if (n.scale > max_precision) throw Wrong { "too small" };
    unsigned __int128 c = 0;
    for (char d : n.digits) c = c * 10 + unsigned(d - '0');
    if (n.scale == 0) {
        unsigned __int128 limit = static_cast<unsigned __int128>(std::numeric_limits<std::int64_t>::max()) + (n.minus ? 1 : 0);
        if (c <= limit) {
            __int128 v = n.minus ? -static_cast<__int128>(c) : static_cast<__int128>(c);
            auto i = static_cast<std::int64_t>(v);
            if (small_int) {
                if (i >= -128 && i <= 127) return { value(tv::int4 { std::int32_t(i) }), type(tt::int1 {}) };
                if (i >= -32768 && i <= 32767) return { value(tv::int4 { std::int32_t(i) }), type(tt::int2 {}) };
                if (i >= -2147483648LL && i <= 2147483647LL) return { value(tv::int4 { std::int32_t(i) }), type(tt::int4 {}) };
            }
            return { value(tv::int8 { i }), type(tt::int8 {}) };
        }
    }
    std::optional<std::size_t> precision;
    if (small_dec) precision = std::max(n.digits.empty() ? std::size_t(1) : n.digits.size(), n.scale);
    return { value(tv::decimal { ::takatori::decimal::triple { n.minus ? -1 : 1, std::uint64_t(c >> 64), std::uint64_t(c), -std::int32_t(n.scale) } }), type(tt::decimal { precision, n.scale }) };
}

struct Options { bool small_int = false, small_char = false, small_bin = false, small_dec = false; std::size_t max = 38; std::string text() const { return std::string("[") + (small_int ? "i" : "") + (small_char ? "c" : "") + (small_bin ? "b" : "") + (small_dec ? "d" : "") + " " + std::to_string(max) + "]"; } };
sql_analyzer_options make(Options const& o) {
    auto r = world().options();
    r.prefer_small_integer_literals() = o.small_int;
    r.prefer_small_character_literals() = o.small_char;
    r.prefer_small_binary_literals() = o.small_bin;
    r.prefer_small_decimal_literals() = o.small_dec;
    r.max_decimal_precision() = o.max;
    r.allow_context_independent_null() = true;
    return r;
}
Options options_of(int i, bool precision = false) { Options o; o.small_int = i & 1; o.small_char = i & 2; o.small_bin = i & 4; o.small_dec = i & 8; if (precision && (i & 16)) o.max = 20; return o; }

// days since 1970-01-01, counted year by year
std::int64_t days(std::int64_t y, int m, int d) {
    auto leap = [](std::int64_t v) { return (v % 4 == 0 && v % 100 != 0) || v % 400 == 0; };
    std::int64_t n = 0;
    for (std::int64_t v = 1970; v < y; ++v) n += leap(v) ? 366 : 365;
    for (std::int64_t v = y; v < 1970; ++v) n -= leap(v) ? 366 : 365;
    static int const len[] { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
    for (int i = 1; i < m; ++i) n += len[i - 1] + (i == 2 && leap(y) ? 1 : 0);
    return n + d - 1;
}
bool valid(std::int64_t y, int m, int d) {
    static int const len[] { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
    bool leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    return m >= 1 && m <= 12 && d >= 1 && d <= len[m - 1] + (m == 2 && leap ? 1 : 0);
}
std::string pad(long long v, int n) { std::string s = std::to_string(v); while (int(s.size()) < n) s = "0" + s; return s; }

void literals(Worker& w) {
    { // exact numbers: all digit strings of a length, after a prefix
        std::vector<std::string> prefixes { "", "12", "3276", "21474836", "922337203685477580", "1844674407370955161", "9999999999999999", "99999999999999999999999999999999999", "0000000000000000000000000000000000000000000", "170141183460469231731687303715884105" };
        std::string alphabet = "0178.";
        std::size_t longest = w.thorough ? 6 : 4;
        std::vector<std::string> tails;
        std::function<void(std::string)> go = [&](std::string s) {
            if (s.size() > 0) tails.push_back(s);
            if (s.size() == longest) return;
            for (char c : alphabet) { if (c == '.' && s.find('.') != std::string::npos) continue; go(s + c); }
        };
        go("");
        std::uint64_t total = prefixes.size() * tails.size() * 3 * 8;
        std::vector<sql_analyzer_options> made;
        for (int i = 0; i < 32; ++i) made.push_back(make(options_of(i, true)));
        w.enumerate("exact numbers", total, [&](std::uint64_t i) {
            int o = int(i % 8);
            i /= 8;
            int sign = int(i % 3);
            i /= 3;
            auto& tail = tails[i % tails.size()];
            std::string s = prefixes[i / tails.size()] + tail;
            if (s.back() == '.' || s[0] == '.') return; // a dot at an end is a token of its own
            Number n;
            n.minus = sign == 1;
            auto dot = s.find('.');
            std::string digits = s;
            if (dot != std::string::npos) { digits = s.substr(0, dot) + s.substr(dot + 1); n.scale = s.size() - dot - 1; }
            auto p = digits.find_first_not_of('0');
            n.digits = p == std::string::npos ? "" : digits.substr(p);
            int k = (o & 1) | (o & 2 ? 8 : 0) | (o & 4 ? 16 : 0);
            auto op = options_of(k, true);
            static char const* const signs[] { "", "-", "+" };
            judge(w, signs[sign] + s, made[std::size_t(k)], [&] { return exact(n, op.small_int, op.small_dec, op.max); }, op.text(), o == 0);
        });
    }
    { // approximate numbers
        std::vector<std::string> mantissas { "0", "1", "1.0", "0.5", "0.1", "12.5", "123456789012345678901234567890", "9007199254740993", "1.7976931348623157", "1.7976931348623159", "2.2250738585072014", "4.35", "0.000001", "00012" };
        std::vector<std::string> exponents;
        for (int e : { 0, 1, -1, 5, -5, 22, 23, -22, 100, -100, 292, 300, 307, 308, 309, -300, -307, -308, -330, 1000, -1000 }) {
            exponents.push_back("E" + std::to_string(e));
            exponents.push_back("e" + std::string(e < 0 ? "" : "+") + std::to_string(e));
        }
        auto plain = make({});
        w.enumerate("approximate numbers", mantissas.size() * exponents.size() * 3, [&](std::uint64_t i) {
            static char const* const signs[] { "", "-", "+" };
            int sign = int(i % 3);
            i /= 3;
            auto s = mantissas[i % mantissas.size()] + exponents[i / mantissas.size()];
            double d = std::strtod(s.c_str(), nullptr);
            if (d != 0 && std::fabs(d) < DBL_MIN) return; // may be rejected as too small
            bool zero = s.find_first_of("123456789") > s.find_first_of("Ee");
            if (d == 0 && !zero) return;
            judge(w, signs[sign] + s, plain, [&]() -> Constant {
                if (std::isinf(d)) throw Wrong { "too large" };
                return { value(tv::float8 { sign == 1 ? -d : d }), type(tt::float8 {}) };
            });
        });
    }
    { // character strings: pieces
        std::vector<std::string> units { "a", "''", " ", "\"", "\xc3\xa9", "\\", "\n" };
        std::vector<std::string> pieces { "" };
        std::size_t longest = w.thorough ? 4 : 3;
        for (std::size_t b = 0, e = 1, n = 0; n < longest; ++n) { for (std::size_t k = b; k < e; ++k) for (auto& u : units) pieces.push_back(pieces[k] + u); b = e; e = pieces.size(); }
        std::vector<sql_analyzer_options> made;
        for (int i = 0; i < 16; ++i) made.push_back(make(options_of(i)));
        auto one = [&](std::vector<std::string> const& ps, int o) {
            std::string sql, v;
            for (auto& p : ps) {
                sql += (sql.empty() ? "'" : " '") + p + "'";
                for (std::size_t k = 0; k < p.size(); ++k) { v += p[k]; if (p[k] == '\'') ++k; }
            }
            judge(w, sql, made[std::size_t(o)], [&]() -> Constant {
                std::optional<std::size_t> size;
                if (o & 2) size = v.size();
                return { value(tv::character { v }), type(tt::character { tt::varying, size }) };
            }, options_of(o).text(), o == 1);
        };
        w.enumerate("character strings", pieces.size() * 16, [&](std::uint64_t i) { one({ pieces[i / 16] }, int(i % 16)); });
        std::vector<std::string> few { "", "a", "''", "b c", "''''" };
        w.enumerate("strings of pieces", 4 * (25 + 125 + 625), [&](std::uint64_t i) {
            int o = int(i % 4);
            i /= 4;
            int n = i < 25 ? 2 : i < 150 ? 3 : 4;
            i -= n == 2 ? 0 : n == 3 ? 25 : 150;
            std::vector<std::string> ps;
            for (int k = 0; k < n; ++k) { ps.push_back(few[i % 5]); i /= 5; }
            one(ps, o);
        });
        // binary
        std::string alphabet = w.thorough ? "09afAFg8" : "09aFg";
        std::size_t len = w.thorough ? 5 : 6;
        std::uint64_t total = 0;
        for (std::uint64_t n = 1, k = 0; k <= len; ++k, n *= alphabet.size()) total += n;
        auto bin = [&](std::vector<std::string> const& ps, int o) {
            std::string sql = "X", v, bad;
            for (auto& p : ps) {
                sql += (sql == "X" ? "'" : " '") + p + "'";
                if (p.size() % 2) bad = "odd digits";
                for (std::size_t k = 0; k < p.size(); ++k) {
                    auto d = [](char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; };
                    if (d(p[k]) < 0) bad = "not a digit";
                    else if (k % 2) v += char(d(p[k - 1]) * 16 + d(p[k]));
                }
            }
            judge(w, sql, made[std::size_t(o)], [&]() -> Constant {
                if (!bad.empty()) throw Wrong { bad };
                std::optional<std::size_t> size;
                if (o & 4) size = v.size();
                return { value(tv::octet { v }), type(tt::octet { tt::varying, size }) };
            }, options_of(o).text(), o == 1);
        };
        w.enumerate("binary strings", total * 2, [&](std::uint64_t i) {
            int o = i % 2 ? 4 : 11;
            i /= 2;
            std::uint64_t n = 1;
            std::size_t k = 0;
            while (i >= n) { i -= n; n *= alphabet.size(); ++k; }
            std::string s;
            for (; k > 0; --k) { s += alphabet[i % alphabet.size()]; i /= alphabet.size(); }
            bin({ s }, o);
        });
        std::vector<std::string> parts { "", "0a", "FF00", "7", "x0" };
        w.enumerate("binary strings of pieces", 2 * (25 + 125), [&](std::uint64_t i) {
            int o = i % 2 ? 4 : 0;
            i /= 2;
            int n = i < 25 ? 2 : 3;
            if (n == 3) i -= 25;
            std::vector<std::string> ps;
            for (int k = 0; k < n; ++k) { ps.push_back(parts[i % 5]); i /= 5; }
            bin(ps, o);
        });
        w.enumerate("truth values", 16 * 4, [&](std::uint64_t i) {
            static char const* const names[] { "TRUE", "FALSE", "UNKNOWN", "NULL" };
            int k = int(i % 4), o = int(i / 4);
            judge(w, names[k], made[std::size_t(o)], [&]() -> Constant {
                if (k == 3) return { value(tv::unknown {}), type(tt::unknown {}) };
                if (k == 2) return { value(tv::unknown {}), type(tt::boolean {}) };
                return { value(tv::boolean { k == 0 }), type(tt::boolean {}) };
            }, options_of(o).text());
        });
    }
    { // dates and times
        auto plain = make({});
        std::vector<int> years { 1970, 1, 1900, 1999, 2000, 2023, 2024, 2100, 9999 };
        w.enumerate("dates", years.size() * 14 * 33, [&](std::uint64_t i) {
            int d = int(i % 33), m = int(i / 33 % 14), y = years[i / 33 / 14];
            judge(w, "DATE '" + pad(y, 4) + "-" + pad(m, 2) + "-" + pad(d, 2) + "'", plain, [&]() -> Constant {
                if (!valid(y, m, d)) throw Wrong { "no such day" };
                return { value(tv::date { dt::date { days(y, m, d) } }), type(tt::date {}) };
            });
        });
        std::vector<int> hs { 0, 1, 9, 12, 23, 24 }, ms { 0, 1, 30, 59, 60 };
        std::vector<std::string> fractions { "", ".5", ".05", ".123456789", ".000000001", ".100" };
        auto nanos = [](std::string const& f) { std::int64_t n = 0; for (std::size_t k = 1; k <= 9; ++k) n = n * 10 + (k < f.size() ? f[k] - '0' : 0); return n; };
        w.enumerate("times", hs.size() * ms.size() * ms.size() * fractions.size() * 2, [&](std::uint64_t i) {
            bool tz = i % 2;
            i /= 2;
            auto& f = fractions[i % fractions.size()];
            i /= fractions.size();
            int s = ms[i % ms.size()], m = ms[i / ms.size() % ms.size()], h = hs[i / ms.size() / ms.size()];
            judge(w, std::string("TIME ") + (tz ? "WITH TIME ZONE " : "") + "'" + pad(h, 2) + ":" + pad(m, 2) + ":" + pad(s, 2) + f + "'", plain, [&]() -> Constant {
                if (tz) throw Wrong { "not supported" };
                if (h > 23 || m > 59 || s > 59) throw Wrong { "no such time" };
                return { value(tv::time_of_day { dt::time_of_day { std::chrono::nanoseconds { ((h * 60LL + m) * 60 + s) * 1000000000LL + nanos(f) } } }), type(tt::time_of_day {}) };
            });
        });
        struct Offset { std::string text; int minutes; };
        std::vector<Offset> offsets { { "", 0 }, { "Z", 0 }, { "+00:00", 0 }, { "+09:00", 540 }, { "-09:00", -540 }, { "+05:30", 330 }, { "-03:30", -210 }, { "+14:00", 840 }, { "-00:01", -1 }, { "+09", 540 } };
        std::vector<int> system { 0, 540, -210, 1, -720 };
        std::vector<sql_analyzer_options> made;
        for (int z : system) { auto o = make({}); o.system_zone_offset() = sql_analyzer_options::zone_offset_type { z }; made.push_back(o); }
        struct Day { int y, m, d; };
        std::vector<Day> ds { { 1970, 1, 1 }, { 2024, 2, 29 }, { 2023, 2, 29 }, { 1969, 12, 31 }, { 1, 1, 1 }, { 2100, 13, 1 } };
        struct Clock { int h, m, s; std::string f; };
        std::vector<Clock> cs { { 0, 0, 0, "" }, { 23, 59, 59, ".999999999" }, { 12, 34, 56, ".7" }, { 5, 29, 59, "" }, { 24, 0, 0, "" }, { 8, 60, 0, "" } };
        w.enumerate("timestamps", 3 * offsets.size() * system.size() * ds.size() * cs.size(), [&](std::uint64_t i) {
            int form = int(i % 3); // TIMESTAMP, WITH TIME ZONE, WITHOUT TIME ZONE
            i /= 3;
            auto& z = offsets[i % offsets.size()];
            i /= offsets.size();
            auto sys = i % system.size();
            i /= system.size();
            auto& d = ds[i % ds.size()];
            auto& c = cs[i / ds.size()];
            static char const* const heads[] { "TIMESTAMP ", "TIMESTAMP WITH TIME ZONE ", "TIMESTAMP WITHOUT TIME ZONE " };
            judge(w, heads[form] + std::string("'") + pad(d.y, 4) + "-" + pad(d.m, 2) + "-" + pad(d.d, 2) + " " + pad(c.h, 2) + ":" + pad(c.m, 2) + ":" + pad(c.s, 2) + c.f + z.text + "'", made[sys], [&]() -> Constant {
                if (!valid(d.y, d.m, d.d) || c.h > 23 || c.m > 59) throw Wrong { "no such time" };
                bool tz = form == 1;
                if (!tz && !z.text.empty()) throw Wrong { "zone" };
                dt::time_point p { dt::date { days(d.y, d.m, d.d) }, dt::time_of_day { std::chrono::nanoseconds { ((c.h * 60LL + c.m) * 60 + c.s) * 1000000000LL + nanos(c.f) } } };
                std::int64_t offset = tz ? (z.text.empty() ? system[sys] : z.minutes) : 0;
                p += std::chrono::seconds { -offset * 60 };
                return { value(tv::time_point { p }), type(tt::time_point { tt::with_time_zone_t { tz } }) };
            }, "[" + std::to_string(system[sys]) + "]");
        });
        w.enumerate("malformed", 1, [&](std::uint64_t) {
            for (auto* s : { "DATE ''", "DATE '2024'", "DATE '2024-01'", "DATE 'x'", "DATE '2024-01-01 00:00:00'", "DATE '2024-01-01x'", "TIME ''", "TIME '00'", "TIME '00:00'", "TIME '00:00:00+09:00'", "TIME '2024-01-01'", "TIMESTAMP '2024-01-01'", "TIMESTAMP '00:00:00'",
                "TIMESTAMP ''", "TIMESTAMP WITH TIME ZONE '2024-01-01 00:00:00+'", "TIMESTAMP WITH TIME ZONE '2024-01-01 00:00:00+09:00x'" }) judge(w, s, plain, []() -> Constant { throw Wrong { "malformed" }; });
        });
    }
}

// ---- types
struct Limits { std::optional<std::size_t> def = 38; std::size_t max = 38, i1 = 7, i2 = 15, i4 = 31, i8 = 63, f4 = 25, f8 = 53; };

void types(Worker& w) {
    auto judge_type = [&](std::string const& t, sql_analyzer_options const& o, std::function<Type()> const& want, std::string const& note) {
        if (w.steering()) return;
        Type expected;
        std::string wrong;
        try { expected = want(); }
        catch (Wrong const& e) { wrong = e.why; }
        for (int where = 0; where < 4; ++where) {
            static char const* const heads[] { "VALUES (CAST(NULL AS ", "CREATE TABLE t (c ", "CREATE TABLE t (p INT PRIMARY KEY, c ", "SELECT CAST(x AS " };
            static char const* const tails[] { "))", ")", " NOT NULL)", ") AS c FROM a" };
            std::string sql = heads[where] + t + tails[where];
            w.state(std::hash<std::string> {}(sql + note));
            if (w.replaying()) std::cout << sql << " " << note << "\n";
            auto r = run(analyzer(), o, sql);
            if (!w.expect(r.parsed, "syntax", sql, ": ", r.why())) return;
            if (!w.expect(r.thrown.empty(), "throws", sql, " ", note, ": ", r.thrown)) continue;
            if (!wrong.empty()) {
                w.count("wrong");
                if (w.expect(!r.ok(), "wrong type accepted", sql, " ", note, ": ", wrong)) w.expect(!r.diagnostics().empty(), "no diagnostics", sql);
                continue;
            }
            w.count("types");
            if (!w.expect(r.ok(), "rejected", sql, " ", note, ": ", r.why())) continue;
            tt::data const* got = nullptr;
            if (r.is_plan()) {
                auto* e = only(r);
                if (!w.expect(e != nullptr, "no value", sql)) continue;
                if (e->kind() == ts::expression_kind::cast) got = &static_cast<ts::cast const&>(*e).type();
                else if (e->kind() == ts::expression_kind::immediate) got = &static_cast<ts::immediate const&>(*e).type();
            } else if (r.statement().kind() == ::takatori::statement::statement_kind::create_table) {
                auto& d = ::yugawara::binding::extract<::yugawara::storage::table>(static_cast<::takatori::statement::create_table const&>(r.statement()).definition());
                for (auto&& c : d.columns()) if (c.simple_name() == "c") got = &c.type();
            }
            if (!w.expect(got != nullptr, "no type", sql)) continue;
            w.expect(*got == *expected, "type", sql, " ", note, ": expected ", *expected, " actual ", *got);
            w.sample(sql + " " + note + " -- " + plan::text(*expected));
        }
    };
    auto with = [&](Limits const& l) {
        auto o = world().options();
        o.allow_context_independent_null() = true;
        o.default_decimal_precision() = l.def;
        o.max_decimal_precision() = l.max;
        o.max_binary_integer1_precision() = l.i1;
        o.max_binary_integer2_precision() = l.i2;
        o.max_binary_integer4_precision() = l.i4;
        o.max_binary_integer8_precision() = l.i8;
        o.max_binary_float4_precision() = l.f4;
        o.max_binary_float8_precision() = l.f8;
        return o;
    };
    { // sized strings
        std::vector<std::string> heads { "CHAR", "CHARACTER", "VARCHAR", "CHAR VARYING", "CHARACTER VARYING", "BINARY", "VARBINARY", "BINARY VARYING" };
        std::vector<std::string> sizes { "", "(0)", "(1)", "(2)", "(10)", "(2147483647)", "(4294967296)", "(9223372036854775807)", "(*)", "(007)" };
        auto o = with({});
        w.enumerate("strings", heads.size() * sizes.size(), [&](std::uint64_t i) {
            auto k = i % heads.size();
            auto& s = sizes[i / heads.size()];
            bool varying = k >= 2 && k != 5, binary = k >= 5;
            if (s == "(*)" && !varying) return; // not in the language
            judge_type(heads[k] + s, o, [&]() -> Type {
                std::optional<std::size_t> n;
                if (s.empty()) { if (!varying) n = 1; }
                else if (s != "(*)") n = std::stoull(s.substr(1));
                if (n && *n == 0) throw Wrong { "empty" };
                if (binary) return type(tt::octet { tt::varying_t { varying }, n });
                return type(tt::character { tt::varying_t { varying }, n });
            }, "");
        });
    }
    { // decimals
        std::vector<std::string> heads { "DECIMAL", "DEC", "NUMERIC" };
        std::vector<std::string> ps { "", "0", "1", "2", "5", "10", "11", "38", "39", "100", "*" }, ss { "", "0", "1", "2", "5", "6", "10", "11", "38", "39", "*" };
        std::vector<Limits> limits;
        for (auto d : { std::optional<std::size_t> { 38 }, std::optional<std::size_t> { 5 }, std::optional<std::size_t> {}, std::optional<std::size_t> { 10 }, std::optional<std::size_t> { 0 } }) for (std::size_t m : { 38, 10, 5, 100 }) { Limits l; l.def = d; l.max = m; limits.push_back(l); }
        std::vector<sql_analyzer_options> made;
        for (auto& l : limits) made.push_back(with(l));
        w.enumerate("decimals", heads.size() * ps.size() * ss.size() * limits.size(), [&](std::uint64_t i) {
            auto& head = heads[i % heads.size()];
            i /= heads.size();
            auto& p = ps[i % ps.size()];
            i /= ps.size();
            auto& s = ss[i % ss.size()];
            auto k = i / ss.size();
            auto& l = limits[k];
            if (p.empty() && !s.empty()) return;
            judge_type(head + (p.empty() ? "" : "(" + p + (s.empty() ? "" : ", " + s) + ")"), made[k], [&]() -> Type {
                std::optional<std::size_t> precision, scale = 0;
                if (p.empty()) precision = l.def; else if (p != "*") precision = std::stoull(p);
                if (s == "*") scale = {}; else if (!s.empty()) scale = std::stoull(s);
                if (precision && *precision == 0) throw Wrong { "precision 0" };
                if (precision && *precision > l.max) throw Wrong { "precision" };
                if (scale && *scale > (precision ? *precision : l.max)) throw Wrong { "scale" };
                return type(tt::decimal { precision, scale });
            }, "[" + (l.def ? std::to_string(*l.def) : std::string("*")) + "/" + std::to_string(l.max) + "]");
        });
    }
    { // integers and floats of a width
        std::vector<Limits> limits;
        limits.push_back({});
        { Limits l; l.i1 = 0; l.f4 = 0; limits.push_back(l); }
        { Limits l; l.i1 = 3; l.i2 = 5; l.i4 = 9; l.i8 = 18; l.f4 = 7; l.f8 = 15; limits.push_back(l); }
        { Limits l; l.i1 = 8; l.i2 = 16; l.i4 = 32; l.i8 = 64; l.f4 = 24; l.f8 = 24; limits.push_back(l); }
        { Limits l; l.i1 = 7; l.i2 = 7; l.i4 = 7; l.i8 = 7; limits.push_back(l); }
        std::vector<sql_analyzer_options> made;
        for (auto& l : limits) made.push_back(with(l));
        w.enumerate("widths", 3 * 70 * limits.size(), [&](std::uint64_t i) {
            static char const* const heads[] { "INT", "INTEGER", "FLOAT" };
            auto h = i % 3;
            i /= 3;
            std::size_t n = i % 70;
            auto k = i / 70;
            auto& l = limits[k];
            judge_type(std::string(heads[h]) + "(" + std::to_string(n) + ")", made[k], [&]() -> Type {
                if (n == 0) throw Wrong { "0" };
                if (h == 2) {
                    if (n <= l.f4) return type(tt::float4 {});
                    if (n <= l.f8) return type(tt::float8 {});
                    throw Wrong { "too wide" };
                }
                if (n <= l.i1) return type(tt::int1 {});
                if (n <= l.i2) return type(tt::int2 {});
                if (n <= l.i4) return type(tt::int4 {});
                if (n <= l.i8) return type(tt::int8 {});
                throw Wrong { "too wide" };
            }, "limits " + std::to_string(k));
        });
    }
    { // plain names
        struct Name { std::string text; Type type; };
        std::vector<Name> names {
            { "INT", type(tt::int4 {}) }, { "INTEGER", type(tt::int4 {}) }, { "TINYINT", type(tt::int1 {}) }, { "SMALLINT", type(tt::int2 {}) }, { "BIGINT", type(tt::int8 {}) },
            { "FLOAT", type(tt::float4 {}) }, { "REAL", type(tt::float4 {}) }, { "DOUBLE", type(tt::float8 {}) }, { "DOUBLE PRECISION", type(tt::float8 {}) }, { "BOOLEAN", boolean() }, { "DATE", type(tt::date {}) },
            { "TIME", type(tt::time_of_day {}) }, { "TIME WITHOUT TIME ZONE", type(tt::time_of_day {}) }, { "TIME WITH TIME ZONE", type(tt::time_of_day { tt::with_time_zone_t { true } }) },
            { "TIMESTAMP", type(tt::time_point {}) }, { "TIMESTAMP WITHOUT TIME ZONE", type(tt::time_point {}) }, { "TIMESTAMP WITH TIME ZONE", type(tt::time_point { tt::with_time_zone_t { true } }) },
            { "BLOB", type(tt::blob {}) }, { "BINARY LARGE OBJECT", type(tt::blob {}) }, { "CLOB", type(tt::clob {}) }, { "CHAR LARGE OBJECT", type(tt::clob {}) }, { "CHARACTER LARGE OBJECT", type(tt::clob {}) },
            { "INTERVAL", {} }, { "INT ARRAY [2]", {} }, { "INT []", {} }, { "VARCHAR(3)[*]", {} }, { "ROW(a INT)", {} }, { "mytype", {} }, { "pub.mytype", {} }, { "text", {} },
        };
        auto o = with({});
        w.enumerate("names", names.size() * 2, [&](std::uint64_t i) {
            auto& n = names[i / 2];
            std::string s = n.text;
            if (i % 2) { for (auto& c : s) c = char(std::tolower(static_cast<unsigned char>(c))); }
            judge_type(s, o, [&]() -> Type { if (!n.type) throw Wrong { "not supported" }; return n.type; }, "");
        });
    }
}

void check(Worker& w) {
    if (PART == 0 || PART == 1) literals(w);
    if (PART == 0 || PART == 2) types(w);
}

} // namespace

int main(int argc, char** argv) { return harness_main(argc, argv, check); }
