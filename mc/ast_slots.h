// Generic access to the parts of a real syntax tree, and one-part changes of it.
#pragma once
#include "ast_all.h"

#include <typeinfo>

namespace mc {
namespace A = ::mizugaki::ast;

template<class F> void visit_node(A::node& n, F& f) {
    auto& ti = typeid(n);
#define S(x) f.slot(#x, v.x());
#define AST_NODE(C, B, ...) if (ti == typeid(C)) { auto& v = static_cast<C&>(n); f.enter(&v, v.region()); __VA_ARGS__ f.leave(); return; }
#define AST_ELEMENT(C, B, ...)
#include "ast_slots.inc"
#undef AST_NODE
#undef AST_ELEMENT
#undef S
    throw std::runtime_error(std::string("unknown node class ") + ti.name());
}
#define S(x) f.slot(#x, v.x());
#define AST_NODE(C, B, ...)
#define AST_ELEMENT(C, B, ...) template<class F> void visit_element(C& v, F& f) { f.enter(&v, v.region()); __VA_ARGS__ f.leave(); }
#include "ast_slots.inc"
#undef AST_NODE
#undef AST_ELEMENT
#undef S

template<class V> struct is_regioned : std::false_type {};
template<class V> struct is_regioned<A::common::regioned<V>> : std::true_type {};
template<class V> struct is_optional : std::false_type {};
template<class V> struct is_optional<std::optional<V>> : std::true_type {};
template<class V> struct is_vector : std::false_type {};
template<class V, class Al> struct is_vector<std::vector<V, Al>> : std::true_type {};
template<class V> struct is_ptr : std::false_type {};
template<class V> struct is_ptr<std::unique_ptr<V>> : std::true_type {};

// visits what is below a part
template<class F, class V> void descend(V& v, F& f) {
    if constexpr (is_ptr<V>::value) { if (v) visit_node(*v, f); }
    else if constexpr (is_optional<V>::value) { if (v) descend(*v, f); }
    else if constexpr (is_vector<V>::value) { for (auto& e : v) descend(e, f); }
    else if constexpr (is_regioned<V>::value) { f.region(v.region()); }
    else if constexpr (std::is_base_of_v<A::element, V>) visit_element(v, f);
}

// ---- replacements
template<class N> std::unique_ptr<N> donor(int i) {
    using namespace A;
    std::string id = "donor" + std::to_string(i);
    auto sim = [&] { return std::make_unique<name::simple>(id); };
    if constexpr (std::is_same_v<N, name::simple>) return sim();
    else if constexpr (std::is_same_v<N, name::name>) { if (i) return std::make_unique<name::qualified>(sim(), sim()); return sim(); }
    else if constexpr (std::is_same_v<N, type::type>) { if (i) return std::make_unique<type::interval>(); return std::make_unique<type::user_defined>(sim()); }
    else if constexpr (std::is_same_v<N, literal::literal>) { if (i) return std::make_unique<literal::null>(); return std::make_unique<literal::interval>(std::nullopt, common::chars { id }); }
    else if constexpr (std::is_same_v<N, literal::numeric>) return nullptr;
    else if constexpr (std::is_same_v<N, scalar::expression>) { if (i) return std::make_unique<scalar::placeholder_reference>(99); return std::make_unique<scalar::variable_reference>(sim()); }
    else if constexpr (std::is_same_v<N, query::expression>) return std::make_unique<query::table_reference>(sim());
    else if constexpr (std::is_same_v<N, query::select_element>) { if (i) return std::make_unique<query::select_asterisk>(); return std::make_unique<query::select_column>(donor<scalar::expression>(0), nullptr); }
    else if constexpr (std::is_same_v<N, query::grouping_element>) return std::make_unique<query::grouping_column>(donor<scalar::expression>(i), nullptr);
    else if constexpr (std::is_same_v<N, table::expression>) return std::make_unique<table::subquery>(false, donor<query::expression>(i), table::correlation_clause { sim() });
    else if constexpr (std::is_same_v<N, table::join_specification>) return std::make_unique<table::join_condition>(donor<scalar::expression>(i));
    else if constexpr (std::is_same_v<N, statement::constraint>) return std::make_unique<statement::simple_constraint>(i ? statement::constraint_kind::null : statement::constraint_kind::not_null);
    else return nullptr;
}

template<class V> int variants() {
    if constexpr (is_ptr<V>::value) return 3;
    else if constexpr (is_vector<V>::value) return 4;
    else if constexpr (is_optional<V>::value) return 1 + variants<typename V::value_type>();
    else if constexpr (is_regioned<V>::value) return variants<typename V::value_type>() + 1;
    else if constexpr (std::is_base_of_v<A::element, V>) return 0;
    else return 2;
}
// false: this change does not apply
template<class V> bool change(V& v, int i) {
    if constexpr (is_ptr<V>::value) {
        using N = typename V::element_type;
        if (i == 0) { if (!v) return false; v.reset(); return true; }
        auto d = donor<N>(i - 1);
        if (!d) return false;
        v = std::move(d);
        return true;
    } else if constexpr (is_vector<V>::value) {
        using X = typename V::value_type;
        switch (i) {
        case 0: if (v.empty()) return false; v.pop_back(); return true;
        case 1: if (v.size() < 2) return false; std::swap(v.front(), v.back()); return true;
        case 2: if (v.empty()) return false; v.erase(v.begin()); return true;
        default:
            if constexpr (is_ptr<X>::value) { auto d = donor<typename X::element_type>(0); if (!d) return false; v.push_back(std::move(d)); return true; }
            else if constexpr (is_regioned<X>::value || std::is_arithmetic_v<X> || std::is_enum_v<X>) { if (v.empty()) return false; v.push_back(v.front()); return true; }
            else { if (v.empty()) return false; X c { ::takatori::util::clone_tag, std::as_const(v.front()) }; v.push_back(std::move(c)); return true; }
        }
    } else if constexpr (is_optional<V>::value) {
        if (i == 0) { if (!v) return false; v.reset(); return true; }
        using X = typename V::value_type;
        if (!v) {
            if constexpr (std::is_default_constructible_v<X>) { v.emplace(); return i == 1; } else return false;
        }
        return change(*v, i - 1);
    } else if constexpr (is_regioned<V>::value) {
        if (i == variants<typename V::value_type>()) { v.region() = A::node_region { v.region().begin + 1, v.region().end + 7 }; return true; }
        return change(v.value(), i);
    } else if constexpr (std::is_base_of_v<A::element, V>) return false;
    else if constexpr (std::is_same_v<V, A::node_region>) { // the text of a description
        if (i) { if (!v) return false; v = {}; return true; }
        v = v ? A::node_region { v.begin + 1, v.end + 2 } : A::node_region { 1, 2 };
        return true;
    }
    else if constexpr (std::is_same_v<V, bool>) { if (i) return false; v = !v; return true; }
    else if constexpr (std::is_same_v<V, std::string>) { if (i) v = "other"; else v += "x"; return true; }
    else if constexpr (std::is_enum_v<V>) {
        // to the first or the second constant
        auto to = static_cast<V>(i);
        if (v == to) return false;
        v = to;
        return true;
    }
    else { if (i) v = V(77); else v = V(v + 1); return true; }
}

// ---- applies change `variant` at part number `at`
struct Changer {
    long at;
    int variant;
    long seen = 0;
    bool done = false, applied = false, region_only = false;
    std::string where;
    template<class N> void enter(N*, A::node_region& r) {
        if (seen++ == at) {
            done = true;
            if (variant == 0) { r = A::node_region { r.begin + 3, r.end + 5 }; applied = true; where = std::string(typeid(N).name()) + ".region"; }
        }
    }
    void leave() {}
    void region(A::node_region&) {}
    template<class V> void slot(char const* name, V& v) {
        if (done) return;
        if (seen++ == at) {
            done = true;
            where = name;
            if (variant < variants<V>()) applied = change(v, variant);
            return;
        }
        descend(v, *this);
    }
};
struct Counter {
    long parts = 0;
    std::vector<void const*> at;
    template<class N> void enter(N* n, A::node_region&) { ++parts; at.push_back(n); }
    void leave() {}
    void region(A::node_region&) {}
    template<class V> void slot(char const*, V& v) { ++parts; at.push_back(&v); descend(v, *this); }
};

} // namespace mc
