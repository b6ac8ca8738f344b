// Neutral tree: what both the reference grammar and the AST reader produce.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <string_view>
#include <vector>
#include <utility>

namespace mc {

// A slot holds a subtree; missing optional parts simply have no slot.
struct T {
    std::string head;            // node class, or "#text" for a leaf value
    long b = -1, e = -1;         // source region in bytes, -1/-1: not located
    bool node = false;           // counts as a syntax tree node
    std::vector<std::pair<std::string, T>> kids;

    T() = default;
    explicit T(std::string h) : head(std::move(h)) {}
    explicit operator bool() const { return !head.empty(); }

    T& add(std::string slot, T child) {
        if (child) kids.emplace_back(std::move(slot), std::move(child));
        return *this;
    }
    T& at(long x, long y) { b = x; e = y; return *this; }
    T const* get(std::string_view slot) const {
        for (auto& k : kids) if (k.first == slot) return &k.second;
        return nullptr;
    }
    T* get(std::string_view slot) {
        for (auto& k : kids) if (k.first == slot) return &k.second;
        return nullptr;
    }
};

inline T leaf(std::string text, long b = -1, long e = -1) {
    T t("#" + std::move(text));
    return t.at(b, e);
}
inline T list(std::vector<T> v) {
    T t;
    if (v.empty()) return t;
    t.head = "[]";
    for (auto& x : v) t.kids.emplace_back("", std::move(x));
    return t;
}

inline void dump(T const& t, bool regions, std::string& out) {
    out += t.head;
    if (regions) {
        if (t.b >= 0) {
            out += '@'; out += std::to_string(t.b); out += '-'; out += std::to_string(t.e);
        }
    }
    if (t.kids.empty()) return;
    out += '(';
    bool first = true;
    for (auto& k : t.kids) {
        if (!first) out += ' ';
        first = false;
        if (!k.first.empty()) { out += k.first; out += '='; }
        dump(k.second, regions, out);
    }
    out += ')';
}
inline std::string dump(T const& t, bool regions) {
    std::string s;
    s.reserve(512);
    dump(t, regions, s);
    return s;
}

// structural equality; position: compare regions too.
inline bool same(T const& a, T const& b, bool regions) {
    if (a.head != b.head || a.kids.size() != b.kids.size()) return false;
    if (regions && (a.b != b.b || a.e != b.e)) return false;
    for (std::size_t i = 0; i < a.kids.size(); ++i) {
        if (a.kids[i].first != b.kids[i].first) return false;
        if (!same(a.kids[i].second, b.kids[i].second, regions)) return false;
    }
    return true;
}

inline std::size_t count_nodes(T const& t) {
    std::size_t n = t.node ? 1 : 0;
    for (auto& k : t.kids) n += count_nodes(k.second);
    return n;
}
inline std::size_t max_depth(T const& t) {
    std::size_t m = 0;
    for (auto& k : t.kids) m = std::max(m, max_depth(k.second));
    return m + (t.node ? 1 : 0);
}

inline std::uint64_t hash_text(std::string_view s, std::uint64_t h = 1469598103934665603ULL) {
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
    return h;
}

} // namespace mc
