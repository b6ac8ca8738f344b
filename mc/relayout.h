// Moves an expected tree from one spelling of a token string to another.
#pragma once
#include "refgrammar.h"

namespace mc {

inline void move_tree(T& t, std::vector<Tok> const& toks, std::vector<long> const& nb, std::vector<long> const& ne) {
    if (t.b >= 0 && t.e > t.b) {
        long b = -1, e = -1;
        for (std::size_t i = 0; i < toks.size(); ++i) {
            if (toks[i].b <= t.b && t.b < toks[i].e) b = nb[i] + (t.b - toks[i].b);
            if (toks[i].b < t.e && t.e <= toks[i].e) e = ne[i] - (toks[i].e - t.e);
        }
        t.b = b;
        t.e = e;
    }
    for (auto& k : t.kids) move_tree(k.second, toks, nb, ne);
}
inline std::string spell_toks(std::vector<Tok> const& toks, std::vector<long>& nb, std::vector<long>& ne) {
    std::string s;
    for (auto& t : toks) {
        if (!s.empty()) s += ' ';
        nb.push_back(long(s.size()));
        s += t.text;
        ne.push_back(long(s.size()));
    }
    return s;
}
inline void rename_leaf(T& t, std::string const& from, std::string const& to) {
    if (t.kids.empty() && t.head == from) t.head = to;
    for (auto& k : t.kids) rename_leaf(k.second, from, to);
}
inline T unit_of(T s) {
    T u("compilation_unit");
    std::vector<T> v;
    v.push_back(std::move(s));
    u.add("statements", list(std::move(v)));
    return u;
}

} // namespace mc
