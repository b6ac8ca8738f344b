// Statements which define things, as text: everything which such a statement says.
#pragma once
#include "an_env.h"

namespace define {

namespace st = ::takatori::statement;
namespace yb = ::yugawara::binding;
namespace ys = ::yugawara::storage;

inline std::string name_of(::takatori::descriptor::schema const& s) { return std::string(yb::extract(s).name()); }
inline ys::table const& table_of(::takatori::descriptor::storage const& s) { return yb::extract<ys::table>(s); }
inline ys::index const& index_of(::takatori::descriptor::relation const& s) { return yb::extract<ys::index>(s); }

inline std::string show(::yugawara::storage::column_value const& v) {
    std::ostringstream o;
    switch (v.kind()) {
        case ys::column_value_kind::nothing: return "-";
        case ys::column_value_kind::immediate: {
            auto& d = *v.element<ys::column_value_kind::immediate>();
            o << (d.kind() == ::takatori::value::value_kind::unknown ? std::string("null") : plan::text(d));
            return o.str();
        }
        case ys::column_value_kind::function: return "function " + std::string(v.element<ys::column_value_kind::function>()->name());
        case ys::column_value_kind::sequence: {
            auto& s = *v.element<ys::column_value_kind::sequence>();
            o << "sequence '" << s.simple_name() << "' from " << s.initial_value() << " by " << s.increment_value() << " in " << s.min_value() << ".." << s.max_value() << (s.cycle() ? " cycle" : "");
            return o.str();
        }
    }
    return "?";
}
inline std::string keys_of(ys::index const& i, ys::table const& t) {
    std::string o;
    for (auto& k : i.keys()) {
        bool own = false;
        for (auto&& c : t.columns()) if (&c == &k.column()) own = true;
        o += (o.empty() ? "" : ", ") + std::string(own ? "" : "(not of the table) ") + std::string(k.column().simple_name()) + (k.direction() == ::takatori::relation::sort_direction::descendant ? " desc" : "");
    }
    return o;
}
inline std::string features(ys::index const& i) {
    std::string o;
    for (auto f : { ys::index_feature::primary, ys::index_feature::find, ys::index_feature::scan, ys::index_feature::unique, ys::index_feature::unique_constraint })
        if (i.features().contains(f) && f != ys::index_feature::find && f != ys::index_feature::scan) o += " " + std::string(to_string_view(f));
    return o;
}
template<class S> std::string privileges(S const& s, std::string head) {
    for (auto& e : s.elements()) {
        auto list = [](auto const& v) { std::string o; for (auto& p : v) o += (o.empty() ? "" : "+") + std::string(to_string_view(p.action_kind())); return o; };
        head += " [" + std::string(table_of(e.table()).simple_name());
        if (!e.default_privileges().empty()) head += " everyone:" + list(e.default_privileges());
        for (auto& a : e.authorization_entries()) {
            head += a.user_kind() == st::authorization_user_kind::specified ? " user '" + std::string(a.authorization_identifier()) + "':"
                : a.user_kind() == st::authorization_user_kind::current_user ? " current user:" : " all users:";
            head += list(a.privileges());
        }
        head += "]";
    }
    return head;
}
/// everything which a statement says, as text
inline std::string show(st::statement const& s) {
    std::ostringstream o;
    switch (s.kind()) {
        case st::statement_kind::empty: return "nothing";
        case st::statement_kind::create_table: {
            auto& x = static_cast<st::create_table const&>(s);
            auto& t = table_of(x.definition());
            o << "create table " << name_of(x.schema()) << "." << t.simple_name() << (t.description().empty() ? "" : " /" + t.description() + "/") << " (";
            bool first = true;
            for (auto&& c : t.columns()) {
                o << (first ? "" : ", ") << c.simple_name() << " " << c.type() << (c.criteria().nullity().nullable() ? " nullable" : "") << " default " << show(c.default_value());
                first = false;
                if (c.features().contains(ys::column_feature::read_only)) o << " read only";
                if (c.features().contains(ys::column_feature::hidden) || c.features().contains(ys::column_feature::synthesized)) o << " hidden";
                if (!c.description().empty()) o << " /" << c.description() << "/";
            }
            auto& i = index_of(x.primary_key());
            o << ") key '" << i.simple_name() << "' (" << keys_of(i, t) << ")" << features(i) << (i.values().empty() ? "" : " with values");
            if (&i.table() != &t) o << " of another table";
            if (t.definition_id() || i.definition_id()) o << " with an id";
            return o.str();
        }
        case st::statement_kind::create_index: {
            auto& x = static_cast<st::create_index const&>(s);
            auto& i = index_of(x.definition());
            o << "create index " << name_of(x.schema()) << ".'" << i.simple_name() << "' on " << i.table().simple_name() << "@" << &i.table() << " (" << keys_of(i, i.table()) << ")" << features(i) << (i.values().empty() ? "" : " with values");
            if (!i.description().empty()) o << " /" << i.description() << "/";
            return o.str();
        }
        case st::statement_kind::drop_table: { auto& x = static_cast<st::drop_table const&>(s); o << "drop table " << name_of(x.schema()) << "." << table_of(x.target()).simple_name() << "@" << &table_of(x.target()); return o.str(); }
        case st::statement_kind::drop_index: { auto& x = static_cast<st::drop_index const&>(s); o << "drop index " << name_of(x.schema()) << "." << index_of(x.target()).simple_name(); return o.str(); }
        case st::statement_kind::rename_table: { auto& x = static_cast<st::rename_table const&>(s); o << "rename table " << name_of(x.schema()) << "." << table_of(x.target()).simple_name() << "@" << &table_of(x.target()) << " to " << x.replacement(); return o.str(); }
        case st::statement_kind::rename_index: { auto& x = static_cast<st::rename_index const&>(s); o << "rename index " << name_of(x.schema()) << "." << index_of(x.target()).simple_name() << " to " << x.replacement(); return o.str(); }
        case st::statement_kind::rename_column: {
            auto& x = static_cast<st::rename_column const&>(s);
            auto& c = yb::extract<ys::column>(x.target());
            o << "rename column " << table_of(x.table()).simple_name() << "@" << &table_of(x.table()) << "." << c.simple_name() << (&c.owner() == &table_of(x.table()) ? "" : " (of another table)") << " to " << x.replacement();
            return o.str();
        }
        case st::statement_kind::truncate_table: { auto& x = static_cast<st::truncate_table const&>(s); o << "truncate " << table_of(x.target()).simple_name() << "@" << &table_of(x.target()) << (x.options().contains(st::truncate_table_option_kind::restart_identity) ? " restart" : ""); return o.str(); }
        case st::statement_kind::grant_table: return privileges(static_cast<st::grant_table const&>(s), "grant");
        case st::statement_kind::revoke_table: return privileges(static_cast<st::revoke_table const&>(s), "revoke");
        default: return "?";
    }
}

} // namespace define
