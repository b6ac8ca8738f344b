#pragma once
#include "tree.h"
#include <mizugaki/parser/sql_parser.h>
#include <mizugaki/parser/sql_parser_options.h>
#include <mizugaki/parser/sql_parser_result.h>
#include <mizugaki/parser/sql_parser_diagnostic.h>
#include <mizugaki/parser/sql_parser_code.h>
#include <sstream>

namespace mc {

// where two trees of the same shape first differ
inline bool first_difference(T const& a, T const& b, std::string const& path, std::string& out) {
    auto at = [](T const& t) { return t.head + "@" + std::to_string(t.b) + "-" + std::to_string(t.e); };
    if (a.head != b.head || a.kids.size() != b.kids.size() || a.b != b.b || a.e != b.e) {
        out = path + ": expected " + at(a) + " actual " + at(b);
        return true;
    }
    for (std::size_t i = 0; i < a.kids.size(); ++i) {
        if (a.kids[i].first != b.kids[i].first) {
            out = path + ": expected part " + a.kids[i].first + " actual part " + b.kids[i].first;
            return true;
        }
        if (first_difference(a.kids[i].second, b.kids[i].second, path + "/" + a.kids[i].first, out)) return true;
    }
    return false;
}
inline std::string first_difference(T const& a, T const& b) {
    std::string s = "none";
    first_difference(a, b, "", s);
    return s;
}

template<class V> std::string text_of(V const& v) { std::ostringstream s; s << v; return s.str(); }

} // namespace mc
