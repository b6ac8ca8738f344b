// One text for everything which an analysis gives: two results with the same text are the same answer.
#pragma once
#include "an_env.h"

namespace an {

/// addresses are replaced by the order of their first occurrence
inline std::string without_addresses(std::string const& s) {
    std::string o;
    std::map<std::string, std::size_t> seen;
    for (std::size_t i = 0; i < s.size();) {
        if (s.compare(i, 2, "0x") == 0 && i > 0 && s[i - 1] == '@') {
            std::size_t j = i + 2;
            while (j < s.size() && std::isxdigit(static_cast<unsigned char>(s[j]))) ++j;
            o += "#" + std::to_string(seen.try_emplace(s.substr(i, j - i), seen.size()).first->second);
            i = j;
        } else o += s[i++];
    }
    return o;
}

inline void show(std::ostream& out, ::takatori::relation::graph_type const& g) {
    std::map<::takatori::relation::expression const*, std::size_t> at;
    for (auto&& e : g) at.emplace(&e, at.size());
    for (auto&& e : g) {
        out << at[&e] << ":" << e << " <-";
        for (auto&& p : e.input_ports()) if (p.opposite()) out << " " << at[&p.opposite()->owner()] << "." << p.opposite()->index();
        out << "\n";
    }
}

inline std::string show(Outcome const& r) {
    std::ostringstream out;
    if (!r.parsed) out << "syntax error " << r.parse_error;
    else if (!r.thrown.empty()) out << "throws " << r.thrown;
    else if (!r.ok()) for (auto& d : r.diagnostics()) out << d.code() << "|" << d.message() << "|" << d.location() << "\n";
    else if (r.is_plan()) show(out, r.graph());
    else out << r.statement();
    return without_addresses(out.str());
}

} // namespace an
