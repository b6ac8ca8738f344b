// Reference grammar: derives SQL texts together with the tree each one stands for.
// Written from the SQL-99/2003 productions the parser documents; alternatives are ordered simplest first
// so that choice 0 everywhere gives the shortest sentence of a nonterminal.
#pragma once
#include "ast_all.h"
#include "choice.h"
#include "tree.h"

namespace mc {
namespace A = ::mizugaki::ast;
namespace S = ::mizugaki::ast::scalar;
namespace ST = ::mizugaki::ast::statement;

struct Tok {
    std::string text;
    long b, e;
};

class Gen {
public:
    explicit Gen(Chooser& c) : c(c) {}
    Chooser& c;
    std::vector<Tok> toks;
    std::string text;

    // knobs
    bool name_variants = false;  // identifiers: also delimited ones
    bool fixed_names = false;    // identifiers: always "x"
    bool two_names = false;      // identifiers: x, y or q
    int stmt_select_only = 0;

    // ---------------------------------------------------------------- tokens
    long mark() const { return text.empty() ? 0 : long(text.size()) + 1; }
    long end() const { return long(text.size()); }
    struct R { long b, e; };
    R tok(std::string_view s) {
        if (!text.empty()) text += ' ';
        long b = long(text.size());
        text += s;
        long e = long(text.size());
        toks.push_back({std::string(s), b, e});
        return {b, e};
    }
    static R join(R a, R b) { return {a.b, b.e}; }
    R toks2(std::string_view a, std::string_view b) { R x = tok(a); R y = tok(b); return join(x, y); }

    template<class E> static T en(E e) { return leaf(std::string(to_string_view(e))); }
    template<class E> static T en(E e, R r) { return leaf(std::string(to_string_view(e)), r.b, r.e); }
    static T boolean(bool v) { return leaf(v ? "true" : "false"); }
    static T boolean(bool v, R r) { return leaf(v ? "true" : "false", r.b, r.e); }
    static T nd(char const* h) { T t(h); t.node = true; return t; }
    T close(T t, long b) { t.at(b, end()); return t; }

    // ---------------------------------------------------------------- names
    int idn = 0;
    T ident() {
        long b = mark();
        int alt = name_variants ? c.choose(3) : 0;
        std::string id = two_names ? std::string(1, "xyq"[c.choose(3)]) : fixed_names ? "x" : "n" + std::to_string(idn++);
        T t = nd("name.simple");
        if (alt == 0) {
            tok(id);
            t.add("identifier", leaf(id));
            t.add("identifier_kind", en(A::name::identifier_kind::regular));
        } else if (alt == 1) {
            tok("\"" + id + "\"\"Q q\"");
            t.add("identifier", leaf(id + "\"Q q"));
            t.add("identifier_kind", en(A::name::identifier_kind::delimited));
        } else {
            static char const* const ctx[] = {"ASC", "Continue", "desc", "KEY", "IGNORE", "SCHEMA", "SEQUENCE", "RESTART",
                "RESTRICT", "RENAME", "FIRST", "LAST", "ORDINALITY", "VALUE"};
            std::string s = ctx[ctx_next++ % 14];
            tok(s);
            t.add("identifier", leaf(s));
            t.add("identifier_kind", en(A::name::identifier_kind::regular));
        }
        return close(std::move(t), b);
    }
    int ctx_next = 0;
    T chain() {
        long b = mark();
        T t = ident();
        while (c.flag()) {
            tok(".");
            T l = ident();
            T q = nd("name.qualified");
            q.add("qualifier", std::move(t));
            q.add("last", std::move(l));
            t = close(std::move(q), b);
        }
        return t;
    }
    // "(" column names ")"
    T columns() {
        std::vector<T> v;
        tok("(");
        v.push_back(ident());
        while (c.flag()) { tok(","); v.push_back(ident()); }
        tok(")");
        return list(std::move(v));
    }
    T columns_opt() { return c.flag() ? columns() : T {}; }

    // ---------------------------------------------------------------- literals
    int num = 0;
    std::string number() { return std::to_string(1 + num++); }
    T uint_literal() {
        R r = tok(number());
        T t = nd("literal.numeric");
        t.add("value_kind", en(A::literal::kind::exact_numeric));
        t.add("unsigned_value", leaf(toks.back().text));
        return t.at(r.b, r.e);
    }
    T truth() {
        long b = mark();
        switch (c.choose(4)) {
            case 0: tok("NULL"); return close(nd("literal.null"), b);
            case 1: { tok("TRUE"); T t = nd("literal.boolean"); t.add("value", en(A::literal::boolean_kind::true_)); return close(std::move(t), b); }
            case 2: { tok("FALSE"); T t = nd("literal.boolean"); t.add("value", en(A::literal::boolean_kind::false_)); return close(std::move(t), b); }
            default: { tok("UNKNOWN"); T t = nd("literal.boolean"); t.add("value", en(A::literal::boolean_kind::unknown)); return close(std::move(t), b); }
        }
    }
    std::string strtext() { return "'s" + std::to_string(num++) + "'"; }
    T string_leaf() { std::string s = strtext(); R r = tok(s); return leaf(s, r.b, r.e); }
    T concatenations() {
        std::vector<T> v;
        while (c.flag()) v.push_back(string_leaf());
        return list(std::move(v));
    }
    T temporal(char const* kw, A::literal::kind plain, A::literal::kind zoned) {
        long b = mark();
        R k = tok(kw);
        auto kind = plain;
        if (zoned != plain) {
            int z = c.choose(3);
            if (z) {
                tok(z == 1 ? "WITH" : "WITHOUT"); tok("TIME");
                k = join(k, tok("ZONE"));
                if (z == 1) kind = zoned;
            }
        }
        T t = nd("literal.datetime");
        t.add("value_kind", en(kind, k));
        t.add("value", string_leaf_plain(zoned == plain));
        return close(std::move(t), b);
    }
    T string_leaf_plain(bool) { return string_leaf(); }
    T literal() {
        long b = mark();
        using K = A::literal::kind;
        switch (c.choose(12)) {
            case 0: return uint_literal();
            case 1: case 2: {
                bool apx = c.picked().back() == 2;
                std::string s = number() + (apx ? ".5E-3" : ".25");
                tok(s);
                T t = nd("literal.numeric");
                t.add("value_kind", en(apx ? K::approximate_numeric : K::exact_numeric));
                t.add("unsigned_value", leaf(s));
                return close(std::move(t), b);
            }
            case 3: {
                T t = nd("literal.string");
                T v = string_leaf();
                t.add("value_kind", en(K::character_string));
                t.add("value", std::move(v));
                t.add("concatenations", concatenations());
                return close(std::move(t), b);
            }
            case 4: {
                R r = tok("X'4a" + std::to_string(10 + num++ % 90) + "'");
                std::string s = toks.back().text.substr(1);
                T t = nd("literal.string");
                t.add("value_kind", en(K::hex_string, R {r.b, r.b + 1}));
                t.add("value", leaf(s, r.b + 1, r.e));
                t.add("concatenations", concatenations());
                return close(std::move(t), b);
            }
            case 5: return temporal("DATE", K::date, K::date);
            case 6: return temporal("TIME", K::time, K::time_with_time_zone);
            case 7: return temporal("TIMESTAMP", K::timestamp, K::timestamp_with_time_zone);
            case 8: {
                tok("INTERVAL");
                T t = nd("literal.interval");
                int s = c.choose(3);
                if (s) { R r = tok(s == 1 ? "+" : "-"); t.add("sign", en(s == 1 ? A::literal::sign::plus : A::literal::sign::minus, r)); }
                t.add("value", string_leaf());
                return close(std::move(t), b);
            }
            case 9: return truth();
            case 10: { tok("ARRAY"); tok("["); tok("]"); return close(nd("literal.empty"), b); }
            default: { tok("DEFAULT"); return close(nd("literal.default"), b); }
        }
    }

    // ---------------------------------------------------------------- types
    T size(bool flexible) {
        if (flexible && c.flag()) { R r = tok("*"); return leaf("*", r.b, r.e); }
        R r = tok(number());
        return leaf(toks.back().text, r.b, r.e);
    }
    T size_opt(bool flexible) {
        if (!c.flag()) return T {};
        tok("(");
        T s = size(flexible);
        tok(")");
        return s;
    }
    T type() {
        long b = mark();
        T t = type_base();
        for (;;) {
            int k = c.choose(3);
            if (!k) return t;
            if (k == 1) tok("ARRAY");
            tok("[");
            T len = c.flag() ? size(true) : T {};
            tok("]");
            T x = nd("type.collection");
            x.add("element", std::move(t));
            x.add("length", std::move(len));
            t = close(std::move(x), b);
        }
    }
    T type_simple(A::type::kind k, long b) {
        T t = nd("type.simple");
        t.add("kind", en(k));
        return close(std::move(t), b);
    }
    T type_base() {
        long b = mark();
        using K = A::type::kind;
        int k = c.choose(36);
        auto chars = [&](K kind, R r, bool varying) {
            T t = nd("type.character_string");
            t.add("type_kind", en(kind, r));
            t.add("length", size_opt(varying));
            return close(std::move(t), b);
        };
        auto octets = [&](K kind, R r, bool varying) {
            T t = nd("type.octet_string");
            t.add("type_kind", en(kind, r));
            t.add("length", size_opt(varying));
            return close(std::move(t), b);
        };
        auto dec = [&](char const* kw, K kind) {
            R r = tok(kw);
            T t = nd("type.decimal");
            t.add("type_kind", en(kind, r));
            if (c.flag()) {
                tok("(");
                t.add("precision", size(true));
                if (c.flag()) { tok(","); t.add("scale", size(true)); }
                tok(")");
            }
            return close(std::move(t), b);
        };
        auto when = [&](char const* kw, K kind) {
            R r = tok(kw);
            T t = nd("type.datetime");
            t.add("type_kind", en(kind, r));
            int z = c.choose(3);
            if (z) {
                R w = tok(z == 1 ? "WITH" : "WITHOUT");
                tok("TIME");
                R e = tok("ZONE");
                t.add("has_time_zone", boolean(z == 1, join(w, e)));
            }
            return close(std::move(t), b);
        };
        auto sized = [&](char const* kw, K kind) {
            R r = tok(kw);
            T t = nd("type.binary_numeric");
            t.add("type_kind", en(kind, r));
            tok("(");
            t.add("precision", size(false));
            tok(")");
            return close(std::move(t), b);
        };
        switch (k) {
            case 0: tok("INT"); return type_simple(K::integer, b);
            case 1: tok("INTEGER"); return type_simple(K::integer, b);
            case 2: tok("TINYINT"); return type_simple(K::tiny_integer, b);
            case 3: tok("SMALLINT"); return type_simple(K::small_integer, b);
            case 4: tok("BIGINT"); return type_simple(K::big_integer, b);
            case 5: tok("FLOAT"); return type_simple(K::float_, b);
            case 6: tok("REAL"); return type_simple(K::real, b);
            case 7: tok("DOUBLE"); return type_simple(K::double_precision, b);
            case 8: toks2("DOUBLE", "PRECISION"); return type_simple(K::double_precision, b);
            case 9: tok("BOOLEAN"); return type_simple(K::boolean, b);
            case 10: tok("DATE"); return type_simple(K::date, b);
            case 11: return when("TIME", K::time);
            case 12: return when("TIMESTAMP", K::timestamp);
            case 13: tok("INTERVAL"); return close(nd("type.interval"), b);
            case 14: { R r = tok("CHAR"); return chars(K::character, r, false); }
            case 15: { R r = tok("CHARACTER"); return chars(K::character, r, false); }
            case 16: { R r = tok("VARCHAR"); return chars(K::character_varying, r, true); }
            case 17: { R r = toks2("CHAR", "VARYING"); return chars(K::character_varying, r, true); }
            case 18: { R r = toks2("CHARACTER", "VARYING"); return chars(K::character_varying, r, true); }
            case 19: { R r = tok("BINARY"); return octets(K::octet, r, false); }
            case 20: { R r = tok("VARBINARY"); return octets(K::octet_varying, r, true); }
            case 21: { R r = toks2("BINARY", "VARYING"); return octets(K::octet_varying, r, true); }
            case 22: return dec("DECIMAL", K::decimal);
            case 23: return dec("DEC", K::decimal);
            case 24: return dec("NUMERIC", K::numeric);
            case 25: return sized("INT", K::binary_integer);
            case 26: return sized("INTEGER", K::binary_integer);
            case 27: return sized("FLOAT", K::binary_float);
            case 28: tok("BLOB"); return type_simple(K::binary_large_object, b);
            case 29: tok("BINARY"); tok("LARGE"); tok("OBJECT"); return type_simple(K::binary_large_object, b);
            case 30: tok("CLOB"); return type_simple(K::character_large_object, b);
            case 31: tok("CHAR"); tok("LARGE"); tok("OBJECT"); return type_simple(K::character_large_object, b);
            case 32: tok("CHARACTER"); tok("LARGE"); tok("OBJECT"); return type_simple(K::character_large_object, b);
            case 33: { // ROW ( field type [COLLATE c], ... )
                tok("ROW");
                tok("(");
                std::vector<T> v;
                do {
                    if (!v.empty()) tok(",");
                    long fb = mark();
                    T f("type.field_definition");
                    f.add("name", ident());
                    f.add("type", type());
                    f.add("collation", collate_opt());
                    v.push_back(close(std::move(f), fb));
                } while (c.flag());
                tok(")");
                T t = nd("type.row");
                t.add("elements", list(std::move(v)));
                return close(std::move(t), b);
            }
            case 34: { // user-defined
                T t = nd("type.user_defined");
                t.add("name", chain());
                return close(std::move(t), b);
            }
            default: return type_simple_alias(b);
        }
    }
    T type_simple_alias(long b) { tok("INT"); return type_simple(A::type::kind::integer, b); }
    T collate_opt() {
        if (!c.flag()) return T {};
        tok("COLLATE");
        return chain();
    }

    // ---------------------------------------------------------------- expressions
    T binary(T l, S::binary_operator op, R o, T r, long b) {
        T t = nd("scalar.binary_expression");
        t.add("left", std::move(l));
        t.add("operator_kind", en(op, o));
        t.add("right", std::move(r));
        return close(std::move(t), b);
    }
    T unary(S::unary_operator op, R o, T x, long b) {
        T t = nd("scalar.unary_expression");
        t.add("operator_kind", en(op, o));
        t.add("operand", std::move(x));
        return close(std::move(t), b);
    }
    T expr() { // OR
        long b = mark();
        T l = and_expr();
        while (c.flag()) { R o = tok("OR"); T r = and_expr(); l = binary(std::move(l), S::binary_operator::or_, o, std::move(r), b); }
        return l;
    }
    T and_expr() {
        long b = mark();
        T l = not_expr();
        while (c.flag()) { R o = tok("AND"); T r = not_expr(); l = binary(std::move(l), S::binary_operator::and_, o, std::move(r), b); }
        return l;
    }
    T not_expr() {
        if (!c.flag()) return is_expr();
        long b = mark();
        R o = tok("NOT");
        T x = not_expr();
        return unary(S::unary_operator::not_, o, std::move(x), b);
    }
    T is_expr() {
        long b = mark();
        T p = predicate();
        int k = c.choose(3);
        if (!k) return p;
        R o = tok("IS");
        if (k == 2) o = join(o, tok("NOT"));
        long lb = mark();
        T v = truth();
        T lit = nd("scalar.literal_expression");
        lit.add("value", std::move(v));
        lit = close(std::move(lit), lb);
        return binary(std::move(p), k == 2 ? S::binary_operator::is_not : S::binary_operator::is, o, std::move(lit), b);
    }
    T subquery_parens() {
        tok("(");
        T q = query_expression();
        tok(")");
        return q;
    }
    T exprs() {
        std::vector<T> v;
        do {
            if (!v.empty()) tok(",");
            v.push_back(expr());
        } while (c.flag());
        return list(std::move(v));
    }
    struct Cmp { char const* s; S::comparison_operator o; };
    T predicate() {
        long b = mark();
        static Cmp const cmps[] = {
            {"=", S::comparison_operator::equals}, {"<>", S::comparison_operator::not_equals},
            {"!=", S::comparison_operator::not_equals_alternative}, {"<", S::comparison_operator::less_than},
            {">", S::comparison_operator::greater_than}, {"<=", S::comparison_operator::less_than_or_equals},
            {">=", S::comparison_operator::greater_than_or_equals}};
        int k = c.choose(3);
        if (k) {
            R o = tok(k == 1 ? "EXISTS" : "UNIQUE");
            T q = subquery_parens();
            T t = nd("scalar.table_predicate");
            t.add("operator_kind", en(k == 1 ? S::table_operator::exists : S::table_operator::unique, o));
            t.add("operand", std::move(q));
            return close(std::move(t), b);
        }
        T l = row_value();
        k = c.choose(1 + 7 + 3 + 1 + 1 + 8);
        if (!k) return l;
        if (k <= 7) {
            auto& m = cmps[k - 1];
            R o = tok(m.s);
            T r = row_value();
            T t = nd("scalar.comparison_predicate");
            t.add("left", std::move(l));
            t.add("operator_kind", en(m.o, o));
            t.add("right", std::move(r));
            return close(std::move(t), b);
        }
        if (k <= 11) {
            static struct { char const* s; S::binary_operator o; } const ops[] = {
                {"<@", S::binary_operator::contains}, {"@>", S::binary_operator::is_contained_by},
                {"&&", S::binary_operator::have_elements_in_common}, {"OVERLAPS", S::binary_operator::overlaps}};
            R o = tok(ops[k - 8].s);
            T r = row_value();
            return binary(std::move(l), ops[k - 8].o, o, std::move(r), b);
        }
        if (k == 12) {
            auto& m = cmps[c.choose(7)];
            R o = tok(m.s);
            static struct { char const* s; S::quantifier q; } const qs[] = {
                {"ALL", S::quantifier::all}, {"SOME", S::quantifier::some}, {"ANY", S::quantifier::any}};
            auto& qq = qs[c.choose(3)];
            R qr = tok(qq.s);
            T q = subquery_parens();
            T t = nd("scalar.quantified_comparison_predicate");
            t.add("left", std::move(l));
            t.add("operator_kind", en(m.o, o));
            t.add("quantifier", en(qq.q, qr));
            t.add("right", std::move(q));
            return close(std::move(t), b);
        }
        // [NOT] BETWEEN / IN / LIKE / SIMILAR TO
        int which = (k - 13) / 2;
        bool neg = (k - 13) % 2 == 1;
        T is_not = boolean(false);
        if (neg) is_not = boolean(true, tok("NOT"));
        if (which == 0) {
            tok("BETWEEN");
            T t = nd("scalar.between_predicate");
            t.add("target", std::move(l));
            t.add("is_not", std::move(is_not));
            int s = c.choose(3);
            if (s) { R o = tok(s == 1 ? "ASYMMETRIC" : "SYMMETRIC"); t.add("operator_kind", en(s == 1 ? S::between_operator::asymmetric : S::between_operator::symmetric, o)); }
            t.add("left", row_value());
            tok("AND");
            t.add("right", row_value());
            return close(std::move(t), b);
        }
        if (which == 1) {
            tok("IN");
            T t = nd("scalar.in_predicate");
            t.add("left", std::move(l));
            t.add("is_not", std::move(is_not));
            long qb = mark();
            if (c.flag()) {
                t.add("right", subquery_parens());
            } else {
                tok("(");
                T es = exprs();
                tok(")");
                T q = nd("query.table_value_constructor");
                q.add("elements", std::move(es));
                t.add("right", close(std::move(q), qb));
            }
            return close(std::move(t), b);
        }
        R o = which == 2 ? tok("LIKE") : toks2("SIMILAR", "TO");
        T t = nd("scalar.pattern_match_predicate");
        t.add("match_value", std::move(l));
        t.add("is_not", std::move(is_not));
        t.add("operator_kind", en(which == 2 ? S::pattern_match_operator::like : S::pattern_match_operator::similar_to, o));
        t.add("pattern", row_value());
        if (c.flag()) { tok("ESCAPE"); t.add("escape", row_value()); }
        return close(std::move(t), b);
    }
    T row_value() {
        if (!c.flag()) return scalar();
        long b = mark();
        R k = tok("ROW");
        return row_body(k, b);
    }
    T row_body(R k, long b) {
        tok("(");
        T es = exprs();
        tok(")");
        T t = nd("scalar.value_constructor");
        t.add("operator_kind", k.b < 0 ? en(S::value_constructor_kind::row) : en(S::value_constructor_kind::row, k));
        t.add("elements", std::move(es));
        return close(std::move(t), b);
    }
    T scalar() { // additive
        long b = mark();
        T l = multiplicative();
        for (;;) {
            static struct { char const* s; S::binary_operator o; } const ops[] = {
                {"+", S::binary_operator::plus}, {"-", S::binary_operator::minus}, {"||", S::binary_operator::concatenation}};
            int k = c.choose(4);
            if (!k) return l;
            R o = tok(ops[k - 1].s);
            T r = multiplicative();
            l = binary(std::move(l), ops[k - 1].o, o, std::move(r), b);
        }
    }
    T multiplicative() {
        long b = mark();
        T l = signed_operand();
        for (;;) {
            static struct { char const* s; S::binary_operator o; } const ops[] = {
                {"*", S::binary_operator::asterisk}, {"/", S::binary_operator::solidus}, {"%", S::binary_operator::percent}};
            int k = c.choose(4);
            if (!k) return l;
            R o = tok(ops[k - 1].s);
            T r = signed_operand();
            l = binary(std::move(l), ops[k - 1].o, o, std::move(r), b);
        }
    }
    // a sign directly before an unsigned number belongs to that number
    T signed_fold(bool plus, R o, T x, long b) {
        if (x.head == "scalar.literal_expression") {
            T* v = x.get("value");
            if (v && v->head == "literal.numeric" && !v->get("sign")) {
                T sign = en(plus ? A::literal::sign::plus : A::literal::sign::minus, o);
                v->kids.insert(v->kids.begin() + 1, {"sign", std::move(sign)});
                return close(std::move(x), b);
            }
        }
        return unary(plus ? S::unary_operator::plus : S::unary_operator::minus, o, std::move(x), b);
    }
    T signed_operand() {
        long b = mark();
        int k = c.choose(3);
        if (!k) return postfix();
        R o = tok(k == 1 ? "+" : "-");
        T x = signed_operand();
        return signed_fold(k == 1, o, std::move(x), b);
    }
    T postfix() {
        long b = mark();
        T p = primary();
        switch (c.choose(4)) {
            case 0: return p;
            case 1: { R o = toks2("AT", "LOCAL"); return unary(S::unary_operator::at_local, o, std::move(p), b); }
            case 2: {
                R o = tok("AT"); tok("TIME"); o = join(o, tok("ZONE"));
                long rb = mark();
                int s = c.choose(3);
                T r;
                if (s) {
                    R so = tok(s == 1 ? "+" : "-");
                    T x = primary();
                    r = signed_fold(s == 1, so, std::move(x), rb);
                } else {
                    r = primary();
                }
                return binary(std::move(p), S::binary_operator::at_time_zone, o, std::move(r), b);
            }
            default: {
                tok("::");
                T ty = type();
                return cast(S::cast_operator::cast, R {-1, -1}, std::move(p), std::move(ty), b);
            }
        }
    }
    T cast(S::cast_operator op, R o, T x, T ty, long b) {
        T t = nd("scalar.cast_expression");
        t.add("operator_kind", o.b < 0 ? en(op) : en(op, o));
        t.add("operand", std::move(x));
        t.add("type", std::move(ty));
        return close(std::move(t), b);
    }
    T arguments() { // "(" [arg, ...] ")"
        tok("(");
        std::vector<T> v;
        if (c.flag()) {
            do {
                if (!v.empty()) tok(",");
                long b = mark();
                T x = expr();
                if (c.flag()) { tok("AS"); T ty = type(); x = cast(S::cast_operator::generalize, R {-1, -1}, std::move(x), std::move(ty), b); }
                v.push_back(std::move(x));
            } while (c.flag());
        }
        tok(")");
        return list(std::move(v));
    }
    T variable(T name) {
        T t = nd("scalar.variable_reference");
        long b = name.b, e = name.e;
        t.add("name", std::move(name));
        return t.at(b, e);
    }
    // <q> . <identifier>: extends a plain name
    static bool is_variable(T const& q) { return q.head == "scalar.variable_reference"; }
    static T qualify(T q, T id) {
        T t = nd("name.qualified");
        long b = q.b, e = id.e;
        T name = std::move(*q.get("name"));
        t.add("qualifier", std::move(name));
        t.add("last", std::move(id));
        return t.at(b, e);
    }
    static bool is_next_value(T const& q) {
        if (q.head != "scalar.builtin_function_invocation") return false;
        auto* f = q.get("function");
        return f->head == en(S::builtin_function_kind::next_value_for).head;
    }
    T builtin(S::builtin_function_kind f, R r, std::vector<T> args, long b) {
        T t = nd("scalar.builtin_function_invocation");
        t.add("function", en(f, r));
        t.add("arguments", list(std::move(args)));
        return close(std::move(t), b);
    }
    T primary() {
        long b = mark();
        T q = primary_base();
        for (;;) {
            int k = c.choose(7);
            if (!k) return q;
            switch (k) {
                case 1: { // . identifier
                    R o = tok(".");
                    T id = ident();
                    if (is_variable(q)) {
                        q = variable(qualify(std::move(q), std::move(id)));
                    } else if (is_next_value(q)) {
                        T* args = q.get("arguments");
                        T v = std::move(args->kids[0].second);
                        v = variable(qualify(std::move(v), std::move(id)));
                        long e = v.e;
                        args->kids[0].second = std::move(v);
                        q.e = e;
                    } else {
                        T t = nd("scalar.field_reference");
                        t.add("operator_kind", en(S::reference_operator::period, o));
                        t.add("value", std::move(q));
                        t.add("name", std::move(id));
                        q = close(std::move(t), b);
                    }
                    break;
                }
                case 2: { // . identifier ( args )
                    R o = tok(".");
                    T id = ident();
                    if (is_variable(q)) {
                        T n = qualify(std::move(q), std::move(id));
                        T a = arguments();
                        T t = nd("scalar.function_invocation");
                        t.add("name", std::move(n));
                        t.add("arguments", std::move(a));
                        q = close(std::move(t), b);
                    } else {
                        T a = arguments();
                        T t = nd("scalar.method_invocation");
                        t.add("value", std::move(q));
                        t.add("operator_kind", en(S::reference_operator::period, o));
                        t.add("name", std::move(id));
                        t.add("arguments", std::move(a));
                        q = close(std::move(t), b);
                    }
                    break;
                }
                case 3: { // -> identifier
                    R o = tok("->");
                    T id = ident();
                    T t = nd("scalar.field_reference");
                    t.add("operator_kind", en(S::reference_operator::arrow, o));
                    t.add("value", std::move(q));
                    t.add("name", std::move(id));
                    q = close(std::move(t), b);
                    break;
                }
                case 4: { // -> identifier ( args )
                    R o = tok("->");
                    T id = ident();
                    T a = arguments();
                    T t = nd("scalar.method_invocation");
                    t.add("value", std::move(q));
                    t.add("operator_kind", en(S::reference_operator::arrow, o));
                    t.add("name", std::move(id));
                    t.add("arguments", std::move(a));
                    q = close(std::move(t), b);
                    break;
                }
                case 5: { // [ index ]
                    R o = tok("[");
                    T i = expr();
                    tok("]");
                    q = binary(std::move(q), S::binary_operator::element_reference, o, std::move(i), b);
                    break;
                }
                default: { // type :: method ( args )
                    if (!is_variable(q)) { // only a type name may stand there
                        R o = tok("[");
                        T i = expr();
                        tok("]");
                        q = binary(std::move(q), S::binary_operator::element_reference, o, std::move(i), b);
                        break;
                    }
                    tok("::");
                    T id = ident();
                    T a = arguments();
                    T ty = nd("type.user_defined");
                    ty.add("name", std::move(*q.get("name")));
                    ty.at(q.b, q.e);
                    T t = nd("scalar.static_method_invocation");
                    t.add("type", std::move(ty));
                    t.add("name", std::move(id));
                    t.add("arguments", std::move(a));
                    q = close(std::move(t), b);
                    break;
                }
            }
        }
    }
    int host = 0, marks = 0;
    T primary_base() {
        long b = mark();
        using B = S::builtin_function_kind;
        switch (c.choose(30)) {
            case 0: return variable(ident());
            case 1: { T v = literal(); T t = nd("scalar.literal_expression"); t.add("value", std::move(v)); return close(std::move(t), b); }
            case 2: { // parenthesized expression or row
                tok("(");
                std::vector<T> v;
                do { if (!v.empty()) tok(","); v.push_back(expr()); } while (c.flag());
                tok(")");
                if (v.size() == 1) return std::move(v[0]);
                T t = nd("scalar.value_constructor");
                t.add("operator_kind", en(S::value_constructor_kind::row));
                t.add("elements", list(std::move(v)));
                return close(std::move(t), b);
            }
            case 3: { // f(...)
                T n = ident();
                T a = arguments();
                T t = nd("scalar.function_invocation");
                t.add("name", std::move(n));
                t.add("arguments", std::move(a));
                return close(std::move(t), b);
            }
            case 4: { // :host
                std::string h = ":h" + std::to_string(host++);
                tok(h);
                T n = nd("name.simple");
                n.add("identifier", leaf(h));
                n.add("identifier_kind", en(A::name::identifier_kind::regular));
                n = close(std::move(n), b);
                T t = nd("scalar.host_parameter_reference");
                t.add("name", std::move(n));
                return close(std::move(t), b);
            }
            case 5: {
                tok("?");
                T t = nd("scalar.placeholder_reference");
                t.add("index", leaf(std::to_string(++marks)));
                return close(std::move(t), b);
            }
            case 6: { T q = subquery_parens(); T t = nd("scalar.subquery"); t.add("query", std::move(q)); t.add("context_kind", en(S::expression_context_kind::scalar)); return close(std::move(t), b); }
            case 7: case 8: { // CASE
                bool simple = c.picked().back() == 8;
                tok("CASE");
                T t = nd("scalar.case_expression");
                if (simple) t.add("operand", expr());
                std::vector<T> v;
                do {
                    long wb = mark();
                    tok("WHEN");
                    T w("case_when_clause");
                    w.add("when", expr());
                    tok("THEN");
                    w.add("result", expr());
                    v.push_back(close(std::move(w), wb));
                } while (c.flag());
                t.add("when_clauses", list(std::move(v)));
                if (c.flag()) { tok("ELSE"); t.add("default_result", expr()); }
                tok("END");
                return close(std::move(t), b);
            }
            case 9: { // set functions
                using F = S::builtin_set_function_kind;
                static struct { char const* s; F f; } const fs[] = {
                    {"COUNT", F::count}, {"AVG", F::avg}, {"MAX", F::max}, {"MIN", F::min}, {"SUM", F::sum},
                    {"EVERY", F::every}, {"BIT_AND", F::bit_and}, {"BIT_OR", F::bit_or}, {"BOOL_AND", F::bool_and}, {"BOOL_OR", F::bool_or}};
                auto& f = fs[c.choose(10)];
                R r = tok(f.s);
                T t = nd("scalar.builtin_set_function_invocation");
                t.add("function", en(f.f, r));
                tok("(");
                int q = c.choose(f.f == F::count ? 4 : 3);
                if (q == 3) {
                    tok("*");
                } else {
                    if (q) { R qr = tok(q == 1 ? "ALL" : "DISTINCT"); t.add("quantifier", en(q == 1 ? S::set_quantifier::all : S::set_quantifier::distinct, qr)); }
                    std::vector<T> v;
                    v.push_back(expr());
                    t.add("arguments", list(std::move(v)));
                }
                tok(")");
                return close(std::move(t), b);
            }
            case 10: { R o = tok("CAST"); tok("("); T x = expr(); tok("AS"); T ty = type(); tok(")"); return cast(S::cast_operator::cast, o, std::move(x), std::move(ty), b); }
            case 11: { R o = tok("TREAT"); tok("("); T x = expr(); tok("AS"); T ty = type(); tok(")"); return cast(S::cast_operator::treat, o, std::move(x), std::move(ty), b); }
            case 12: { tok("("); T x = expr(); tok("AS"); T ty = type(); tok(")"); return cast(S::cast_operator::generalize, R {-1, -1}, std::move(x), std::move(ty), b); }
            case 13: { R f = tok("NULLIF"); tok("("); std::vector<T> v; v.push_back(expr()); tok(","); v.push_back(expr()); tok(")"); return builtin(B::nullif, f, std::move(v), b); }
            case 14: { R f = tok("COALESCE"); return builtin_list(B::coalesce, f, b); }
            case 15: { R o = tok("DEREF"); tok("("); T x = expr(); tok(")"); return unary(S::unary_operator::reference_resolution, o, std::move(x), b); }
            case 16: { // NEW type ( args )
                tok("NEW");
                long tb = mark();
                T n = chain();
                T ty = nd("type.user_defined");
                ty.add("name", std::move(n));
                ty = close(std::move(ty), tb);
                T a = arguments();
                T t = nd("scalar.new_invocation");
                t.add("type", std::move(ty));
                t.add("arguments", std::move(a));
                return close(std::move(t), b);
            }
            case 17: { // ARRAY [ ... ]
                R o = tok("ARRAY");
                tok("[");
                T es = exprs();
                tok("]");
                T t = nd("scalar.value_constructor");
                t.add("operator_kind", en(S::value_constructor_kind::array, o));
                t.add("elements", std::move(es));
                return close(std::move(t), b);
            }
            case 18: { // NEXT VALUE FOR s
                R k = tok("NEXT"); tok("VALUE"); k = join(k, tok("FOR"));
                std::vector<T> v;
                v.push_back(variable(ident()));
                return builtin(B::next_value_for, k, std::move(v), b);
            }
            case 19: { // plain built-in functions
                static struct { char const* s; B f; } const fs[] = {
                    {"ABS", B::abs}, {"CHAR_LENGTH", B::character_length}, {"CHARACTER_LENGTH", B::character_length},
                    {"OCTET_LENGTH", B::octet_length}, {"CARDINALITY", B::cardinality}, {"CEIL", B::ceil}, {"FLOOR", B::floor},
                    {"MOD", B::mod}, {"UPPER", B::upper}, {"LOWER", B::lower}, {"LENGTH", B::length}};
                auto& f = fs[c.choose(11)];
                R r = tok(f.s);
                return builtin_list(f.f, r, b);
            }
            case 20: { R f = tok("POSITION"); tok("("); std::vector<T> v; v.push_back(scalar()); tok("IN"); v.push_back(scalar()); tok(")"); return builtin(B::position, f, std::move(v), b); }
            case 21: return extract();
            case 22: { // SUBSTRING
                R f = tok("SUBSTRING"); tok("("); std::vector<T> v; v.push_back(scalar()); tok("FROM"); v.push_back(scalar());
                if (c.flag()) { tok("FOR"); v.push_back(scalar()); }
                tok(")");
                return builtin(B::substring, f, std::move(v), b);
            }
            case 23: case 24: {
                bool conv = c.picked().back() == 23;
                R f = tok(conv ? "CONVERT" : "TRANSLATE"); tok("("); std::vector<T> v; v.push_back(scalar()); tok("USING"); v.push_back(variable(chain())); tok(")");
                return builtin(conv ? B::convert : B::translate, f, std::move(v), b);
            }
            case 25: return trim();
            case 26: { // OVERLAY
                R f = tok("OVERLAY"); tok("("); std::vector<T> v; v.push_back(scalar()); tok("PLACING"); v.push_back(scalar()); tok("FROM"); v.push_back(scalar());
                if (c.flag()) { tok("FOR"); v.push_back(scalar()); }
                tok(")");
                return builtin(B::overlay, f, std::move(v), b);
            }
            case 27: { R f = tok("CURRENT_DATE"); return builtin(B::current_date, f, {}, b); }
            case 28: {
                static struct { char const* s; B f; } const fs[] = {
                    {"CURRENT_TIME", B::current_time}, {"LOCALTIME", B::localtime}, {"CURRENT_TIMESTAMP", B::current_timestamp}, {"LOCALTIMESTAMP", B::localtimestamp}};
                auto& f = fs[c.choose(4)];
                R r = tok(f.s);
                std::vector<T> v;
                if (c.flag()) { tok("("); v.push_back(expr()); tok(")"); }
                return builtin(f.f, r, std::move(v), b);
            }
            default: { // ( ( ... ) ) nested parentheses around a name
                tok("("); tok("("); T x = expr(); tok(")"); tok(")");
                return x;
            }
        }
    }
    T builtin_list(S::builtin_function_kind f, R r, long b) {
        tok("(");
        T es = exprs();
        tok(")");
        T t = nd("scalar.builtin_function_invocation");
        t.add("function", en(f, r));
        t.add("arguments", std::move(es));
        return close(std::move(t), b);
    }
    T extract() {
        long b = mark();
        using F = S::extract_field_kind;
        tok("EXTRACT");
        tok("(");
        static struct { char const* a; char const* z; F f; bool digits; } const fs[] = {
            {"YEAR", nullptr, F::year, false}, {"MONTH", nullptr, F::month, false}, {"DAY", nullptr, F::day, false},
            {"HOUR", nullptr, F::hour, false}, {"MINUTE", nullptr, F::minute, false}, {"SECOND", nullptr, F::second, false},
            {"TIMEZONE_HOUR", nullptr, F::timezone_hour, false}, {"TIMEZONE_MINUTE", nullptr, F::timezone_minute, false},
            {"DATE", nullptr, F::date, false}, {"YEAR", "MONTH", F::year_to_month, false}, {"YEAR", "DAY", F::year_to_day, false},
            {"YEAR", "HOUR", F::year_to_hour, false}, {"YEAR", "MINUTE", F::year_to_minute, false},
            {"YEAR", "SECOND", F::year_to_second, false}, {"SECOND", nullptr, F::second, true}, {"YEAR", "SECOND", F::year_to_second, true}};
        auto& f = fs[c.choose(16)];
        R r = tok(f.a);
        if (f.z) { tok("TO"); r = join(r, tok(f.z)); }
        T t = nd("scalar.extract_expression");
        t.add("field", en(f.f, r));
        if (f.digits) { tok("("); t.add("subsecond_digits", size(true)); tok(")"); }
        tok("FROM");
        t.add("operand", scalar());
        tok(")");
        return close(std::move(t), b);
    }
    T trim() {
        long b = mark();
        using P = S::trim_specification;
        tok("TRIM");
        tok("(");
        T t = nd("scalar.trim_expression");
        int k = c.choose(5); // (x) / (FROM x) / (c FROM x) / (spec FROM x) / (spec c FROM x)
        if (k >= 3) {
            static struct { char const* s; P p; } const ps[] = {{"LEADING", P::leading}, {"TRAILING", P::trailing}, {"BOTH", P::both}};
            auto& p = ps[c.choose(3)];
            R r = tok(p.s);
            t.add("specification", en(p.p, r));
        }
        if (k == 2 || k == 4) t.add("character", scalar());
        if (k) tok("FROM");
        t.add("source", scalar());
        tok(")");
        return close(std::move(t), b);
    }

    // ---------------------------------------------------------------- queries
    // parentheses: a query operand may be parenthesized, a whole query may not
    T query_expression() {
        long b = mark();
        if (!c.flag()) return query_body(true);
        tok("WITH");
        T t = nd("query.with_expression");
        if (c.flag()) { R r = tok("RECURSIVE"); t.add("is_recursive", boolean(true, r)); }
        else t.add("is_recursive", boolean(false));
        std::vector<T> v;
        do {
            if (!v.empty()) tok(",");
            long eb = mark();
            T e("query.with_element");
            e.add("name", ident());
            e.add("column_names", columns_opt());
            tok("AS");
            e.add("expression", subquery_parens());
            v.push_back(close(std::move(e), eb));
        } while (c.flag());
        t.add("elements", list(std::move(v)));
        t.add("expression", query_body(false));
        return close(std::move(t), b);
    }
    struct SetOp { A::query::binary_operator op; R r; };
    void set_tail(T& t) {
        int q = c.choose(3);
        if (q) { R r = tok(q == 1 ? "ALL" : "DISTINCT"); t.add("quantifier", en(q == 1 ? S::set_quantifier::all : S::set_quantifier::distinct, r)); }
        int k = c.choose(3);
        if (k) {
            long b = mark();
            tok("CORRESPONDING");
            T x("query.corresponding_clause");
            if (k == 2) { tok("BY"); x.add("column_names", columns()); }
            t.add("corresponding", close(std::move(x), b));
        }
    }
    // UNION / OUTER UNION / EXCEPT, left associative, weaker than INTERSECT
    T query_body(bool root) {
        long b = mark();
        int n = c.choose(4); // 0: a single term
        T l = query_term(root && n == 0);
        while (n) {
            T t = nd("query.binary_expression");
            using O = A::query::binary_operator;
            t.add("left", std::move(l));
            if (n == 1) { R o = tok("UNION"); t.add("operator_kind", en(O::union_, o)); }
            if (n == 2) { R o = toks2("OUTER", "UNION"); t.add("operator_kind", en(O::outer_union, o)); }
            if (n == 3) { R o = tok("EXCEPT"); t.add("operator_kind", en(O::except, o)); }
            set_tail(t);
            t.add("right", query_term(false));
            l = close(std::move(t), b);
            n = c.choose(4);
        }
        return l;
    }
    T query_term(bool root) {
        long b = mark();
        int n = c.choose(2);
        T l = query_primary(root && n == 0);
        while (n) {
            T t = nd("query.binary_expression");
            t.add("left", std::move(l));
            R o = tok("INTERSECT");
            t.add("operator_kind", en(A::query::binary_operator::intersect, o));
            set_tail(t);
            t.add("right", query_primary(false));
            l = close(std::move(t), b);
            n = c.choose(2);
        }
        return l;
    }
    bool with_in_operand = false; // set when the operand is WITH ... (must be rejected)
    T query_primary(bool root) {
        long b = mark();
        int k = c.choose(root ? 3 : 4);
        switch (k) {
            case 0: return select();
            case 1: { // VALUES
                tok("VALUES");
                std::vector<T> v;
                do {
                    if (!v.empty()) tok(",");
                    long rb = mark();
                    int r = c.choose(3);
                    if (r == 0) v.push_back(row_body(R {-1, -1}, rb));
                    else if (r == 1) { R o = tok("ROW"); v.push_back(row_body(o, rb)); }
                    else { T q = subquery_parens(); T t = nd("scalar.subquery"); t.add("query", std::move(q)); t.add("context_kind", en(S::expression_context_kind::row)); v.push_back(close(std::move(t), rb)); }
                } while (c.flag());
                T t = nd("query.table_value_constructor");
                t.add("elements", list(std::move(v)));
                return close(std::move(t), b);
            }
            case 2: { tok("TABLE"); T t = nd("query.table_reference"); t.add("name", chain()); return close(std::move(t), b); }
            default: {
                tok("(");
                T q = query_expression();
                tok(")");
                if (q.head == "query.with_expression") with_in_operand = true;
                return q;
            }
        }
    }
    T select() {
        long b = mark();
        tok("SELECT");
        T t = nd("query.query");
        int q = c.choose(3);
        if (q) { R r = tok(q == 1 ? "ALL" : "DISTINCT"); t.add("quantifier", en(q == 1 ? S::set_quantifier::all : S::set_quantifier::distinct, r)); }
        std::vector<T> v;
        do {
            if (!v.empty()) tok(",");
            v.push_back(select_element());
        } while (c.flag());
        t.add("elements", list(std::move(v)));
        if (c.flag()) return close(std::move(t), b); // no FROM clause at all
        tok("FROM");
        std::vector<T> f;
        do {
            if (!f.empty()) tok(",");
            f.push_back(table_ref());
        } while (c.flag());
        t.add("from", list(std::move(f)));
        if (c.flag()) { tok("WHERE"); t.add("where", expr()); }
        int g = c.choose(3);
        if (g) {
            long gb = mark();
            tok("GROUP"); tok("BY");
            T x("query.group_by_clause");
            if (g == 2) {
                tok("("); tok(")");
            } else {
                std::vector<T> e;
                do {
                    if (!e.empty()) tok(",");
                    long eb = mark();
                    T y = nd("query.grouping_column");
                    y.add("column", expr());
                    y.add("collation", collate_opt());
                    e.push_back(close(std::move(y), eb));
                } while (c.flag());
                x.add("elements", list(std::move(e)));
            }
            t.add("group_by", close(std::move(x), gb));
        }
        if (c.flag()) { tok("HAVING"); t.add("having", expr()); }
        if (c.flag()) { tok("ORDER"); tok("BY"); t.add("order_by", sort_list()); }
        if (c.flag()) { tok("LIMIT"); t.add("limit", expr()); }
        return close(std::move(t), b);
    }
    T sort_list() {
        std::vector<T> v;
        do {
            if (!v.empty()) tok(",");
            long b = mark();
            T s("sort_element");
            s.add("key", expr());
            s.add("collation", collate_opt());
            int d = c.choose(3);
            if (d) { R r = tok(d == 1 ? "ASC" : "DESC"); s.add("direction", en(d == 1 ? A::common::ordering_specification::asc : A::common::ordering_specification::desc, r)); }
            int n = c.choose(3);
            if (n) { R r = toks2("NULLS", n == 1 ? "FIRST" : "LAST"); s.add("null_location", en(n == 1 ? A::common::null_ordering_specification::first : A::common::null_ordering_specification::last, r)); }
            v.push_back(close(std::move(s), b));
        } while (c.flag());
        return list(std::move(v));
    }
    T select_element() {
        long b = mark();
        int k = c.choose(5);
        if (k == 0) { tok("*"); return close(nd("query.select_asterisk"), b); }
        T x = expr();
        if (k == 4) {
            tok(".*");
            T t = nd("query.select_asterisk");
            t.add("qualifier", std::move(x));
            return close(std::move(t), b);
        }
        T t = nd("query.select_column");
        t.add("value", std::move(x));
        if (k == 2) tok("AS");
        if (k >= 2) t.add("name", ident());
        return close(std::move(t), b);
    }

    // ---------------------------------------------------------------- tables
    T correlation() {
        long b = mark();
        if (c.flag()) tok("AS");
        T t("table.correlation_clause");
        t.add("correlation_name", ident());
        t.add("column_names", columns_opt());
        return close(std::move(t), b);
    }
    T table_ref() {
        long b = mark();
        T l = table_primary();
        for (;;) {
            int k = c.choose(6);
            if (!k) return l;
            l = join_suffix(std::move(l), k, b);
        }
    }
    T join_suffix(T l, int k, long b) {
        using J = A::table::join_type;
        struct JT { char const* s[4]; J inner, natural; };
        static struct { char const* w[4]; J j; } const js[] = {
            {{"JOIN", nullptr, nullptr, nullptr}, J::inner}, {{"INNER", "JOIN", nullptr, nullptr}, J::inner},
            {{"LEFT", "JOIN", nullptr, nullptr}, J::left_outer}, {{"LEFT", "OUTER", "JOIN", nullptr}, J::left_outer},
            {{"RIGHT", "JOIN", nullptr, nullptr}, J::right_outer}, {{"RIGHT", "OUTER", "JOIN", nullptr}, J::right_outer},
            {{"FULL", "JOIN", nullptr, nullptr}, J::full_outer}, {{"FULL", "OUTER", "JOIN", nullptr}, J::full_outer}};
        static J const natural[] = {J::natural_inner, J::natural_inner, J::natural_left_outer, J::natural_left_outer,
            J::natural_right_outer, J::natural_right_outer, J::natural_full_outer, J::natural_full_outer};
        if (k == 5) { // APPLY
            T t = nd("table.apply");
            t.add("operand", std::move(l));
            int a = c.choose(3);
            if (a == 0) tok("APPLY");
            if (a == 1) { R r = tok("CROSS"); tok("APPLY"); t.add("operator_kind", en(A::table::apply_type::cross, r)); }
            if (a == 2) { R r = tok("OUTER APPLY"); t.add("operator_kind", en(A::table::apply_type::outer, R {r.b, r.b + 5})); }
            t.add("name", chain());
            t.add("arguments", arguments());
            t.add("correlation", correlation());
            return close(std::move(t), b);
        }
        T t = nd("table.join");
        t.add("left", std::move(l));
        if (k == 2) { // CROSS JOIN
            R r = toks2("CROSS", "JOIN");
            t.add("operator_kind", en(J::cross, r));
            t.add("right", table_primary());
        } else if (k == 4) { // UNION JOIN
            R r = tok("UNION JOIN");
            t.add("operator_kind", en(J::union_, r));
            t.add("right", table_primary());
        } else {
            int j = c.choose(8);
            R r {-1, -1};
            if (k == 3) r = tok("NATURAL");
            for (auto* w : js[j].w) {
                if (!w) break;
                R x = tok(w);
                r = r.b < 0 ? x : join(r, x);
            }
            t.add("operator_kind", en(k == 3 ? natural[j] : js[j].j, r));
            if (k == 3) {
                t.add("right", table_primary());
            } else {
                t.add("right", table_ref());
                long sb = mark();
                if (!c.flag()) {
                    tok("ON");
                    T s = nd("table.join_condition");
                    s.add("expression", expr());
                    t.add("specification", close(std::move(s), sb));
                } else {
                    tok("USING");
                    T s = nd("table.join_columns");
                    s.add("columns", columns());
                    t.add("specification", close(std::move(s), sb));
                }
            }
        }
        return close(std::move(t), b);
    }
    T table_primary() {
        long b = mark();
        switch (c.choose(6)) {
            case 0: {
                T t = nd("table.table_reference");
                t.add("is_only", boolean(false));
                t.add("name", chain());
                if (c.flag()) t.add("correlation", correlation());
                return close(std::move(t), b);
            }
            case 1: case 2: {
                bool lateral = c.picked().back() == 2;
                T t = nd("table.subquery");
                if (lateral) { R r = tok("LATERAL"); t.add("is_lateral", boolean(true, r)); } else t.add("is_lateral", boolean(false));
                t.add("expression", subquery_parens());
                t.add("correlation", correlation());
                return close(std::move(t), b);
            }
            case 3: { // ( joined table )
                tok("(");
                long jb = mark();
                T l = table_primary();
                int k = 1 + c.choose(5);
                while (k) { l = join_suffix(std::move(l), k, jb); k = c.choose(6); }
                tok(")");
                return l;
            }
            case 4: {
                tok("UNNEST");
                tok("(");
                T t = nd("table.unnest");
                t.add("expression", expr());
                tok(")");
                if (c.flag()) { R r = toks2("WITH", "ORDINALITY"); t.add("with_ordinality", boolean(true, r)); } else t.add("with_ordinality", boolean(false));
                t.add("correlation", correlation());
                return close(std::move(t), b);
            }
            default: {
                R r = tok("ONLY");
                tok("(");
                T t = nd("table.table_reference");
                t.add("is_only", boolean(true, r));
                t.add("name", chain());
                tok(")");
                if (c.flag()) t.add("correlation", correlation());
                return close(std::move(t), b);
            }
        }
    }

    // ---------------------------------------------------------------- statements
    static constexpr int statement_kinds = 11;
    T statement() { return statement(c.choose(statement_kinds)); }
    T statement(int kind) {
        switch (kind) {
            case 0: { long b = mark(); T q = query_expression(); T t = nd("statement.select_statement"); t.add("expression", std::move(q)); return close(std::move(t), b); }
            case 1: return insert();
            case 2: return update();
            case 3: return delete_();
            case 4: return create_table();
            case 5: return create_index();
            case 6: return create_view();
            case 7: return create_sequence();
            case 8: return create_schema();
            case 9: return drop_alter_truncate();
            default: return grant_revoke();
        }
    }
    T insert() {
        long b = mark();
        using O = ST::insert_statement_option;
        T t = nd("statement.insert_statement");
        std::vector<T> opts;
        switch (c.choose(5)) {
            case 0: tok("INSERT"); break;
            case 1: { R r = tok("INSERT"); tok("OR"); r = join(r, tok("REPLACE")); opts.push_back(en(O::or_replace, r)); break; }
            case 2: { R r = tok("INSERT"); tok("OR"); r = join(r, tok("IGNORE")); opts.push_back(en(O::or_ignore, r)); break; }
            case 3: { R r = tok("INSERT"); tok("IF"); tok("NOT"); r = join(r, tok("EXISTS")); opts.push_back(en(O::or_ignore, r)); break; }
            default: { R r = tok("UPDATE"); tok("OR"); r = join(r, tok("INSERT")); opts.push_back(en(O::or_replace, r)); break; }
        }
        tok("INTO");
        t.add("table_name", chain());
        t.add("columns", columns_opt());
        if (!c.flag()) t.add("expression", query_expression());
        else toks2("DEFAULT", "VALUES");
        t.add("options", list(std::move(opts)));
        return close(std::move(t), b);
    }
    void alias_opt(T& t) {
        int a = c.choose(3);
        if (a == 2) tok("AS");
        if (a) t.add("alias_name", ident());
    }
    void where_opt(T& t) {
        int k = c.choose(3);
        if (k == 0) return;
        tok("WHERE");
        if (k == 1) { t.add("where", expr()); return; }
        long b = mark();
        tok("CURRENT"); tok("OF");
        T x = nd("scalar.current_of_cursor");
        x.add("name", ident());
        t.add("where", close(std::move(x), b));
    }
    T update() {
        long b = mark();
        tok("UPDATE");
        T t = nd("statement.update_statement");
        t.add("table_name", chain());
        alias_opt(t);
        tok("SET");
        std::vector<T> v;
        do {
            if (!v.empty()) tok(",");
            T s("set_element");
            s.add("target", chain());
            tok("=");
            s.add("value", expr());
            v.push_back(std::move(s));
        } while (c.flag());
        t.add("elements", list(std::move(v)));
        where_opt(t);
        return close(std::move(t), b);
    }
    T delete_() {
        long b = mark();
        tok("DELETE"); tok("FROM");
        T t = nd("statement.delete_statement");
        t.add("table_name", chain());
        alias_opt(t);
        where_opt(t);
        return close(std::move(t), b);
    }
    T include_opt() {
        int k = c.choose(3);
        if (!k) return T {};
        tok("INCLUDE");
        tok("(");
        std::vector<T> v;
        if (k == 2) do { if (!v.empty()) tok(","); v.push_back(scalar()); } while (c.flag());
        tok(")");
        return list(std::move(v));
    }
    T parameters_opt() {
        int k = c.choose(3);
        if (!k) return T {};
        tok("WITH");
        tok("(");
        std::vector<T> v;
        if (k == 2) do {
            if (!v.empty()) tok(",");
            long b = mark();
            T p("storage_parameter");
            p.add("name", chain());
            if (c.flag()) { tok("="); p.add("value", scalar()); }
            v.push_back(close(std::move(p), b));
        } while (c.flag());
        tok(")");
        return list(std::move(v));
    }
    void ref_actions(T& t) {
        // none / ON UPDATE / ON DELETE / both in either order
        int k = c.choose(5);
        T u, d;
        auto act = [&] {
            using F = ST::referential_action;
            switch (c.choose(5)) {
                case 0: { R r = tok("CASCADE"); return en(F::cascade, r); }
                case 1: { R r = toks2("SET", "NULL"); return en(F::set_null, r); }
                case 2: { R r = toks2("SET", "DEFAULT"); return en(F::set_default, r); }
                case 3: { R r = tok("RESTRICT"); return en(F::restrict, r); }
                default: { R r = toks2("NO", "ACTION"); return en(F::no_action, r); }
            }
        };
        auto upd = [&] { tok("ON"); tok("UPDATE"); u = act(); };
        auto del = [&] { tok("ON"); tok("DELETE"); d = act(); };
        if (k == 1) upd();
        if (k == 2) del();
        if (k == 3) { upd(); del(); }
        if (k == 4) { del(); upd(); }
        t.add("on_update", std::move(u));
        t.add("on_delete", std::move(d));
    }
    struct Seq { T type, initial, increment, min, max, owner, cycle; bool s[7] = {}; };
    // returns false once an option is given twice
    bool dup_option = false;
    void seq_option(Seq& q, bool common) {
        auto once = [&](int i) { if (q.s[i]) dup_option = true; q.s[i] = true; };
        int k = c.choose(common ? 10 : 12);
        switch (k) {
            case 0: tok("START"); tok("WITH"); q.initial = scalar(); once(0); break;
            case 1: tok("START"); q.initial = scalar(); once(0); break;
            case 2: tok("INCREMENT"); tok("BY"); q.increment = scalar(); once(1); break;
            case 3: tok("INCREMENT"); q.increment = scalar(); once(1); break;
            case 4: tok("MAXVALUE"); q.max = scalar(); once(2); break;
            case 5: tok("NO"); tok("MAXVALUE"); q.max = T {}; once(2); break;
            case 6: tok("MINVALUE"); q.min = scalar(); once(3); break;
            case 7: tok("NO"); tok("MINVALUE"); q.min = T {}; once(3); break;
            case 8: { R r = tok("CYCLE"); q.cycle = boolean(true, r); once(4); break; }
            case 9: { tok("NO"); R r = tok("CYCLE"); q.cycle = boolean(false, r); once(4); break; }
            case 10: tok("AS"); q.type = type(); once(5); break;
            default: tok("OWNED"); tok("BY"); q.owner = chain(); once(6); break;
        }
    }
    T identity(A::statement::identity_generation_type g, R r, long b) {
        T t = nd("constraint.identity");
        t.add("generation", en(g, r));
        Seq q;
        int k = c.choose(3);
        if (k) {
            tok("(");
            if (k == 2) do seq_option(q, true); while (c.flag());
            tok(")");
        }
        t.add("initial_value", std::move(q.initial));
        t.add("increment_value", std::move(q.increment));
        t.add("min_value", std::move(q.min));
        t.add("max_value", std::move(q.max));
        t.add("cycle", std::move(q.cycle));
        return close(std::move(t), b);
    }
    T column_constraint() {
        using K = ST::constraint_kind;
        long db = mark();
        T d("column_constraint_definition");
        if (c.flag()) { tok("CONSTRAINT"); d.add("name", chain()); }
        long b = mark();
        T t;
        auto simple = [&](K k, R r) { t = nd("constraint.simple"); t.add("constraint_kind", en(k, r)); t = close(std::move(t), b); };
        auto expr_c = [&](K k, R r, T x) { t = nd("constraint.expression"); t.add("constraint_kind", en(k, r)); t.add("expression", std::move(x)); t = close(std::move(t), b); };
        switch (c.choose(10)) {
            case 0: { R r = toks2("NOT", "NULL"); simple(K::not_null, r); break; }
            case 1: { R r = tok("NULL"); simple(K::null, r); break; }
            case 2: { R r = toks2("PRIMARY", "KEY"); t = nd("constraint.key"); t.add("constraint_kind", en(K::primary_key, r)); t.add("values", include_opt()); t.add("parameters", parameters_opt()); t = close(std::move(t), b); break; }
            case 3: { R r = tok("UNIQUE"); t = nd("constraint.key"); t.add("constraint_kind", en(K::unique, r)); t.add("values", include_opt()); t.add("parameters", parameters_opt()); t = close(std::move(t), b); break; }
            case 4: { R r = tok("DEFAULT"); T x = scalar(); expr_c(K::default_clause, r, std::move(x)); break; }
            case 5: { R r = tok("CHECK"); tok("("); T x = scalar(); tok(")"); expr_c(K::check, r, std::move(x)); break; }
            case 6: { R r = tok("GENERATED"); tok("ALWAYS"); tok("AS"); tok("("); T x = scalar(); tok(")"); expr_c(K::generation_clause, r, std::move(x)); break; }
            case 7: { tok("GENERATED"); R r = tok("ALWAYS"); tok("AS"); tok("IDENTITY"); t = identity(ST::identity_generation_type::always, r, b); break; }
            case 8: { tok("GENERATED"); R r = toks2("BY", "DEFAULT"); tok("AS"); tok("IDENTITY"); t = identity(ST::identity_generation_type::by_default, r, b); break; }
            default: {
                tok("REFERENCES");
                t = nd("constraint.referential");
                t.add("target", chain());
                t.add("target_columns", columns_opt());
                ref_actions(t);
                t = close(std::move(t), b);
            }
        }
        d.add("body", std::move(t));
        return close(std::move(d), db);
    }
    T table_element() {
        using K = ST::constraint_kind;
        long b = mark();
        int k = c.choose(6);
        if (k == 0) {
            T t = nd("column_definition");
            t.add("name", ident());
            t.add("type", type());
            std::vector<T> v;
            while (c.flag()) v.push_back(column_constraint());
            t.add("constraints", list(std::move(v)));
            return close(std::move(t), b);
        }
        T t = nd("table_constraint_definition");
        if (k == 5) { tok("CONSTRAINT"); t.add("name", chain()); k = 1 + c.choose(4); }
        long cb = mark();
        T x;
        if (k == 1 || k == 2) {
            R r = k == 1 ? toks2("PRIMARY", "KEY") : tok("UNIQUE");
            x = nd("constraint.key");
            x.add("constraint_kind", en(k == 1 ? K::primary_key : K::unique, r));
            tok("(");
            x.add("key", sort_list());
            tok(")");
            x.add("values", include_opt());
            x.add("parameters", parameters_opt());
        } else if (k == 3) {
            R r = tok("CHECK");
            tok("(");
            x = nd("constraint.expression");
            x.add("constraint_kind", en(K::check, r));
            x.add("expression", scalar());
            tok(")");
        } else {
            tok("FOREIGN"); tok("KEY");
            x = nd("constraint.referential");
            x.add("columns", columns());
            tok("REFERENCES");
            x.add("target", chain());
            x.add("target_columns", columns_opt());
            ref_actions(x);
        }
        t.add("body", close(std::move(x), cb));
        return close(std::move(t), b);
    }
    R if_not_exists() { R r = tok("IF"); tok("NOT"); return join(r, tok("EXISTS")); }
    T create_table() {
        long b = mark();
        using O = ST::table_definition_option;
        T t = nd("statement.table_definition");
        std::vector<T> opts;
        T tmp;
        tok("CREATE");
        if (c.flag()) tmp = en(O::temporary, tok("TEMPORARY"));
        tok("TABLE");
        if (c.flag()) opts.push_back(en(O::if_not_exists, if_not_exists()));
        if (tmp) opts.push_back(std::move(tmp));
        t.add("name", chain());
        tok("(");
        std::vector<T> v;
        if (!c.flag()) do { if (!v.empty()) tok(","); v.push_back(table_element()); } while (c.flag());
        tok(")");
        t.add("elements", list(std::move(v)));
        t.add("options", list(std::move(opts)));
        t.add("parameters", parameters_opt());
        return close(std::move(t), b);
    }
    T create_index() {
        long b = mark();
        using O = ST::index_definition_option;
        T t = nd("statement.index_definition");
        std::vector<T> opts;
        tok("CREATE");
        if (c.flag()) opts.push_back(en(O::unique, tok("UNIQUE")));
        tok("INDEX");
        if (c.flag()) opts.push_back(en(O::if_not_exists, if_not_exists()));
        if (!c.flag()) t.add("name", chain());
        tok("ON");
        t.add("table_name", chain());
        tok("(");
        t.add("keys", sort_list());
        tok(")");
        t.add("values", include_opt());
        T params = parameters_opt();
        where_opt(t);
        if (T* w = t.get("where")) { T x = std::move(*w); t.kids.pop_back(); t.add("predicate", std::move(x)); }
        t.add("options", list(std::move(opts)));
        t.add("parameters", std::move(params));
        return close(std::move(t), b);
    }
    T create_view() {
        long b = mark();
        using O = ST::view_definition_option;
        T t = nd("statement.view_definition");
        std::vector<T> opts;
        tok("CREATE");
        if (c.flag()) { tok("OR"); opts.push_back(en(O::or_replace, tok("REPLACE"))); }
        if (c.flag()) opts.push_back(en(O::temporary, tok("TEMPORARY")));
        if (c.flag()) opts.push_back(en(O::recursive, tok("RECURSIVE")));
        tok("VIEW");
        if (c.flag()) opts.push_back(en(O::if_not_exists, if_not_exists()));
        t.add("name", chain());
        t.add("columns", columns_opt());
        T params = parameters_opt();
        tok("AS");
        t.add("query", query_expression());
        t.add("options", list(std::move(opts)));
        t.add("parameters", std::move(params));
        return close(std::move(t), b);
    }
    T create_sequence() {
        long b = mark();
        using O = ST::sequence_definition_option;
        T t = nd("statement.sequence_definition");
        std::vector<T> opts;
        tok("CREATE");
        if (c.flag()) opts.push_back(en(O::temporary, tok("TEMPORARY")));
        tok("SEQUENCE");
        if (c.flag()) opts.push_back(en(O::if_not_exists, if_not_exists()));
        t.add("name", chain());
        Seq q;
        while (c.flag()) seq_option(q, false);
        if (q.cycle) {
            bool on = q.cycle.head == "#true";
            T o = en(on ? O::cycle : O::no_cycle);
            o.at(q.cycle.b, q.cycle.e);
            opts.push_back(std::move(o));
        }
        t.add("type", std::move(q.type));
        t.add("initial_value", std::move(q.initial));
        t.add("increment_value", std::move(q.increment));
        t.add("min_value", std::move(q.min));
        t.add("max_value", std::move(q.max));
        t.add("owner", std::move(q.owner));
        t.add("options", list(std::move(opts)));
        return close(std::move(t), b);
    }
    T create_schema() {
        long b = mark();
        T t = nd("statement.schema_definition");
        std::vector<T> opts;
        tok("CREATE");
        tok("SCHEMA");
        if (c.flag()) opts.push_back(en(ST::schema_definition_option::if_not_exists, if_not_exists()));
        if (!c.flag()) t.add("name", chain());
        int k = c.choose(5);
        if (k) {
            tok("AUTHORIZATION");
            if (k == 1) {
                t.add("user_name", ident());
            } else {
                static char const* const kw[] = {"CURRENT_ROLE", "CURRENT_USER", "SESSION_USER"};
                static char const* const id[] = {"current_role", "current_user", "session_user"};
                R r = tok(kw[k - 2]);
                T n = nd("name.simple");
                n.add("identifier", leaf(id[k - 2]));
                n.add("identifier_kind", en(A::name::identifier_kind::regular));
                t.add("user_name", n.at(r.b, r.e));
            }
        }
        std::vector<T> v;
        while (int e = c.choose(5)) {
            if (e == 1) v.push_back(create_table());
            if (e == 2) v.push_back(create_index());
            if (e == 3) v.push_back(create_view());
            if (e == 4) v.push_back(create_sequence());
        }
        t.add("elements", list(std::move(v)));
        t.add("options", list(std::move(opts)));
        return close(std::move(t), b);
    }
    T if_exists_flag() {
        if (!c.flag()) return boolean(false);
        R r = toks2("IF", "EXISTS");
        return boolean(true, r);
    }
    T drop_alter_truncate() {
        long b = mark();
        int k = c.choose(9);
        if (k < 5) {
            using D = ST::drop_statement_option;
            static struct { char const* s; ST::kind k; } const ks[] = {
                {"TABLE", ST::kind::drop_table_statement}, {"INDEX", ST::kind::drop_index_statement},
                {"VIEW", ST::kind::drop_view_statement}, {"SEQUENCE", ST::kind::drop_sequence_statement}, {"SCHEMA", ST::kind::drop_schema_statement}};
            T t = nd("statement.drop_statement");
            tok("DROP");
            R r = tok(ks[k].s);
            t.add("statement_kind", en(ks[k].k, r));
            std::vector<T> opts;
            if (c.flag()) { R x = toks2("IF", "EXISTS"); opts.push_back(en(D::if_exists, x)); }
            t.add("name", chain());
            int bh = c.choose(3);
            if (bh) { R x = tok(bh == 1 ? "CASCADE" : "RESTRICT"); opts.push_back(en(bh == 1 ? D::cascade : D::restrict, x)); }
            t.add("options", list(std::move(opts)));
            return close(std::move(t), b);
        }
        if (k == 8) {
            tok("TRUNCATE"); tok("TABLE");
            T t = nd("statement.truncate_table_statement");
            t.add("name", chain());
            using O = ST::identity_column_restart_option;
            int o = c.choose(3);
            if (o) { R x = toks2(o == 1 ? "RESTART" : "CONTINUE", "IDENTITY"); t.add("identity_column_option", en(o == 1 ? O::restart_identity : O::continue_identity, x)); }
            return close(std::move(t), b);
        }
        tok("ALTER");
        bool index = k == 7;
        tok(index ? "INDEX" : "TABLE");
        T t = nd(index ? "statement.alter_index_statement" : "statement.alter_table_statement");
        t.add("if_exists", if_exists_flag());
        t.add("name", chain());
        long ab = mark();
        tok("RENAME");
        T a;
        if (k == 6) {
            tok("COLUMN");
            a = nd("rename_column_action");
            a.add("if_exists", if_exists_flag());
            a.add("column_name", ident());
        } else {
            a = nd(index ? "rename_index_action" : "rename_table_action");
        }
        tok("TO");
        a.add("replacement", ident());
        t.add("action", close(std::move(a), ab));
        return close(std::move(t), b);
    }
    T grant_revoke() {
        long b = mark();
        bool revoke = c.flag();
        tok(revoke ? "REVOKE" : "GRANT");
        T t = nd(revoke ? "statement.revoke_privilege_statement" : "statement.grant_privilege_statement");
        using P = ST::privilege_action_kind;
        std::vector<T> acts, objs, users;
        auto act = [&](P p, R r) { T a("privilege_action"); a.add("action_kind", en(p, r)); acts.push_back(a.at(r.b, r.e)); };
        int k = c.choose(5);
        if (k == 4) {
            R r = toks2("ALL", "PRIVILEGES");
            act(P::all_privileges, r);
        } else {
            static struct { char const* s; P p; } const ps[] = {{"SELECT", P::select}, {"INSERT", P::insert}, {"UPDATE", P::update}, {"DELETE", P::delete_}};
            for (;;) {
                R r = tok(ps[k].s);
                act(ps[k].p, r);
                int m = c.choose(5);
                if (!m) break;
                tok(",");
                k = m - 1;
            }
        }
        tok("ON");
        do {
            if (!objs.empty()) tok(",");
            long ob = mark();
            T o("privilege_object");
            if (c.flag()) { R r = tok("TABLE"); o.add("object_kind", en(ST::privilege_object_kind::table, r)); }
            o.add("object_name", chain());
            objs.push_back(close(std::move(o), ob));
        } while (c.flag());
        tok(revoke ? "FROM" : "TO");
        do {
            if (!users.empty()) tok(",");
            long ub = mark();
            using U = ST::privilege_user_kind;
            T u("privilege_user");
            switch (c.choose(4)) {
                case 0: u.add("user_kind", en(U::identifier)); u.add("authorization_identifier", ident()); break;
                case 1: tok("PUBLIC"); u.add("user_kind", en(U::public_)); break;
                case 2: tok("CURRENT_USER"); u.add("user_kind", en(U::current_user)); break;
                default: tok("*"); u.add("user_kind", en(U::all_users)); break;
            }
            users.push_back(close(std::move(u), ub));
        } while (c.flag());
        t.add("actions", list(std::move(acts)));
        t.add("objects", list(std::move(objs)));
        t.add("users", list(std::move(users)));
        return close(std::move(t), b);
    }
};

} // namespace mc
