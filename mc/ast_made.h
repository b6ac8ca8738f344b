// Trees built by hand: parts and classes that no SQL text produces.
#pragma once
#include "ast_all.h"
#include <tuple>

namespace mc {
namespace A = ::mizugaki::ast;

struct Made {
    using P = std::unique_ptr<A::type::type>;
    std::vector<std::unique_ptr<A::type::type>> types;
    std::vector<std::unique_ptr<A::literal::literal>> literals;
    std::vector<std::unique_ptr<A::statement::statement>> statements;
    std::vector<std::unique_ptr<A::statement::constraint>> constraints;

    static std::unique_ptr<A::name::simple> sim(char const* n) { return std::make_unique<A::name::simple>(n, A::name::identifier_kind::regular, R(1, 3)); }
    static std::unique_ptr<A::scalar::expression> ex(char const* n) { return std::make_unique<A::scalar::variable_reference>(sim(n)); }
    static A::node_region R(std::size_t b, std::size_t e) { return {b, e}; }

    Made() {
        using namespace A;
        using type::kind;
        using common::regioned;
        std::size_t const star = std::size_t(-1);
        for (auto k : {kind::bit, kind::bit_varying}) {
            using L = type::bit_string::length_type;
            types.push_back(std::make_unique<type::bit_string>(k, std::nullopt, R(2, 9)));
            types.push_back(std::make_unique<type::bit_string>(k, L { 8 }, R(2, 9)));
            types.push_back(std::make_unique<type::bit_string>(k, L { star, R(4, 5) }));
        }
        for (auto k : {kind::decimal, kind::numeric}) {
            using L = type::decimal::precision_type;
            types.push_back(std::make_unique<type::decimal>(k, L { 10, R(1, 2) }, L { 3, R(3, 4) }, R(0, 9)));
            types.push_back(std::make_unique<type::decimal>(k, L { star }, L { star }));
            types.push_back(std::make_unique<type::decimal>(k, std::nullopt, L { 3 }));
        }
        for (auto s : {literal::sign::plus, literal::sign::minus}) {
            literals.push_back(std::make_unique<literal::interval>(s, std::string("1"), R(3, 4)));
            literals.push_back(std::make_unique<literal::numeric>(literal::kind::exact_numeric, s, std::string("12"), R(3, 4)));
        }
        {
            std::vector<common::target_element> t;
            t.emplace_back(sim("a"), sim("i"), R(5, 6));
            t.emplace_back(std::make_unique<name::qualified>(sim("q"), sim("b")), nullptr, R(7, 8));
            statements.push_back(std::make_unique<statement::select_statement>(std::make_unique<query::table_reference>(sim("t")), std::move(t), R(0, 9)));
        }
        using C = statement::identity_constraint;
        for (auto g : {statement::identity_generation_type::always, statement::identity_generation_type::by_default}) {
            constraints.push_back(std::make_unique<C>(g, ex("i"), ex("n"), ex("lo"), ex("hi"), C::bool_type { true, R(8, 9) }, R(1, 2)));
            constraints.push_back(std::make_unique<C>(g, ex("i"), ex("n"), ex("lo"), ex("hi"), C::bool_type { false }, R(1, 2)));
        }
    }
};
inline Made& made() { static Made m; return m; }

template<class F> void for_all_made(F f) {
    for (auto& p : made().types) f(*p);
    for (auto& p : made().literals) f(*p);
    for (auto& p : made().statements) f(*p);
    for (auto& p : made().constraints) f(*p);
}
template<class N, class F> void for_made(F f) {
    for_all_made([&](auto& n) { if constexpr (std::is_same_v<std::remove_reference_t<decltype(n)>, N>) f(n); });
}

} // namespace mc
