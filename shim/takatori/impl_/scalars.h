#pragma once
#include <takatori/impl_/descriptors.h>
#include <takatori/impl_/types.h>
#include <takatori/impl_/values.h>
#include <takatori/util/callback.h>
#include <takatori/util/exception.h>
#include <takatori/util/owned_.h>
#include <takatori/util/reference_vector.h>
#include <takatori/util/string_builder.h>
namespace takatori::scalar {
using util::owned;
using util::shared_arg;
using util::ownership_reference;

#define TSHIM_ENUM_1(E, a) case E::a: return #a;
enum class expression_kind { immediate, variable_reference, unary, cast, binary, compare, match, conditional, coalesce, let, function_call, extension };
inline constexpr std::string_view to_string_view(expression_kind v) noexcept {
    constexpr std::string_view n[] { "immediate", "variable_reference", "unary", "cast", "binary", "compare", "match", "conditional", "coalesce", "let", "function_call", "extension" };
    return n[static_cast<std::size_t>(v)];
}
inline std::ostream& operator<<(std::ostream& out, expression_kind v) { return out << to_string_view(v); }
enum class unary_operator { plus, sign_inversion, conditional_not, length, is_null, is_true, is_false, is_unknown };
inline constexpr std::string_view to_string_view(unary_operator v) noexcept {
    constexpr std::string_view n[] { "plus", "sign_inversion", "conditional_not", "length", "is_null", "is_true", "is_false", "is_unknown" };
    return n[static_cast<std::size_t>(v)];
}
inline std::ostream& operator<<(std::ostream& out, unary_operator v) { return out << to_string_view(v); }
enum class binary_operator { concat, add, subtract, multiply, divide, remainder, conditional_and, conditional_or };
inline constexpr std::string_view to_string_view(binary_operator v) noexcept {
    constexpr std::string_view n[] { "concat", "add", "subtract", "multiply", "divide", "remainder", "conditional_and", "conditional_or" };
    return n[static_cast<std::size_t>(v)];
}
inline std::ostream& operator<<(std::ostream& out, binary_operator v) { return out << to_string_view(v); }
enum class comparison_operator { equal, not_equal, less, less_equal, greater, greater_equal };
inline constexpr std::string_view to_string_view(comparison_operator v) noexcept {
    constexpr std::string_view n[] { "equal", "not_equal", "less", "less_equal", "greater", "greater_equal" };
    return n[static_cast<std::size_t>(v)];
}
inline std::ostream& operator<<(std::ostream& out, comparison_operator v) { return out << to_string_view(v); }
inline constexpr comparison_operator operator~(comparison_operator v) noexcept {
    using k = comparison_operator;
    switch (v) { case k::equal: return k::not_equal; case k::not_equal: return k::equal; case k::less: return k::greater_equal; case k::less_equal: return k::greater; case k::greater: return k::less_equal; case k::greater_equal: return k::less; }
    return v;
}
inline constexpr comparison_operator transpose(comparison_operator v) noexcept {
    using k = comparison_operator;
    switch (v) { case k::less: return k::greater; case k::less_equal: return k::greater_equal; case k::greater: return k::less; case k::greater_equal: return k::less_equal; default: return v; }
}
enum class quantifier { all, any };
inline constexpr std::string_view to_string_view(quantifier v) noexcept { return v == quantifier::all ? "all" : "any"; }
inline std::ostream& operator<<(std::ostream& out, quantifier v) { return out << to_string_view(v); }
enum class match_operator { like, similar };
inline std::ostream& operator<<(std::ostream& out, match_operator v) { return out << (v == match_operator::like ? "like" : "similar"); }
enum class cast_loss_policy { ignore, floor, ceil, unknown, warn, error, implicit };
inline std::ostream& operator<<(std::ostream& out, cast_loss_policy v) {
    constexpr std::string_view n[] { "ignore", "floor", "ceil", "unknown", "warn", "error", "implicit" };
    return out << n[static_cast<std::size_t>(v)];
}

/// resolutions which were asked for while there were resolutions of expressions which do not exist anymore:
/// these have addresses, which the other expressions may have as well (shim only).
inline thread_local std::size_t stale_resolutions_ = 0;
/// tells those who keep something about an expression whether it still exists (shim only).
struct life_mark { bool alive { true }; std::size_t* dead {}; };
class expression {
public:
    expression() noexcept = default;
    virtual ~expression() { if (mark_) { mark_->alive = false; if (mark_->dead) { ++*mark_->dead; } } }
    mutable std::shared_ptr<life_mark> mark_ {}; // (shim only)
    expression(expression const&) = delete;
    expression(expression&&) noexcept = delete;
    expression& operator=(expression const&) = delete;
    expression& operator=(expression&&) = delete;
    [[nodiscard]] virtual expression_kind kind() const noexcept = 0;
    [[nodiscard]] virtual expression* clone() const& = 0;
    [[nodiscard]] virtual expression* clone() && = 0;
    [[nodiscard]] document::region& region() noexcept { return region_; }
    [[nodiscard]] document::region const& region() const noexcept { return region_; }
    /// visits each of the direct operands (shim only).
    virtual void each_operand_(std::function<void(expression const&)> const&) const {}
    friend bool operator==(expression const& a, expression const& b) noexcept { return a.equals(b); }
    friend bool operator!=(expression const& a, expression const& b) noexcept { return !a.equals(b); }
    friend std::ostream& operator<<(std::ostream& out, expression const& v) { return v.print_to(out); }
protected:
    [[nodiscard]] virtual bool equals(expression const& o) const noexcept = 0;
    virtual std::ostream& print_to(std::ostream& out) const = 0;
private:
    document::region region_ {};
};
/// generates the uniform part: kind, copy (deep), move and comparison.
template<class D, expression_kind K>
class expression_base : public expression {
public:
    static constexpr expression_kind tag = K;
    [[nodiscard]] expression_kind kind() const noexcept override { return K; }
    [[nodiscard]] D* clone_() const { auto* r = static_cast<D const&>(*this).copy(); r->region() = region(); return r; }
    [[nodiscard]] D* steal_() { auto* r = static_cast<D&>(*this).move(); r->region() = region(); return r; }
protected:
    [[nodiscard]] bool equals(expression const& o) const noexcept override { return o.kind() == K && static_cast<D const&>(*this).same(static_cast<D const&>(o)); }
};
#define TSHIM_CLONES(D) \
    [[nodiscard]] D* clone() const& override { return this->clone_(); } \
    [[nodiscard]] D* clone() && override { return this->steal_(); }
#define TSHIM_OPERAND(name) \
    [[nodiscard]] expression& name() { return *name##_; } \
    [[nodiscard]] expression const& name() const { return *name##_; } \
    [[nodiscard]] util::optional_ptr<expression> optional_##name() noexcept { return util::optional_ptr<expression> { name##_.get() }; } \
    [[nodiscard]] util::optional_ptr<expression const> optional_##name() const noexcept { return util::optional_ptr<expression const> { name##_.get() }; } \
    [[nodiscard]] std::unique_ptr<expression> release_##name() noexcept { return std::move(name##_); } \
    template<class S_> auto& name(std::unique_ptr<S_> v) { name##_ = std::move(v); return *this; } \
    [[nodiscard]] ownership_reference<expression> ownership_##name() { return ownership_reference<expression> { name##_ }; }

class immediate final : public expression_base<immediate, expression_kind::immediate> {
public:
    immediate(shared_arg<value::data> v, shared_arg<type::data> t) : v_ { std::move(v.p) }, t_ { std::move(t.p) } {}
    immediate(util::clone_tag_t, immediate const& o) : immediate(o.v_, o.t_) { region() = o.region(); }
    immediate(immediate const& o) : immediate(o.v_, o.t_) { region() = o.region(); }
    immediate* copy() const { return new immediate(v_, t_); }
    immediate* move() { return copy(); }
    TSHIM_CLONES(immediate)
    [[nodiscard]] value::data const& value() const { return *v_; }
    [[nodiscard]] type::data const& type() const { return *t_; }
    [[nodiscard]] value::data const* optional_value() const { return v_.get(); }
    [[nodiscard]] type::data const* optional_type() const { return t_.get(); }
    [[nodiscard]] std::shared_ptr<value::data const> const& shared_value() const { return v_; }
    [[nodiscard]] std::shared_ptr<type::data const> const& shared_type() const { return t_; }
    immediate& value(std::shared_ptr<value::data const> v) { v_ = std::move(v); return *this; }
    immediate& type(std::shared_ptr<type::data const> v) { t_ = std::move(v); return *this; }
    [[nodiscard]] bool same(immediate const& o) const { return *v_ == *o.v_ && *t_ == *o.t_; }
protected:
    std::ostream& print_to(std::ostream& out) const override { return out << "immediate(" << *v_ << ":" << *t_ << ")"; }
private:
    std::shared_ptr<value::data const> v_;
    std::shared_ptr<type::data const> t_;
};

class variable_reference final : public expression_base<variable_reference, expression_kind::variable_reference> {
public:
    explicit variable_reference(descriptor::variable v) : v_ { std::move(v) } {}
    variable_reference(variable_reference const& o) : variable_reference(o.v_) { region() = o.region(); }
    variable_reference* copy() const { return new variable_reference(v_); }
    variable_reference* move() { return copy(); }
    TSHIM_CLONES(variable_reference)
    [[nodiscard]] descriptor::variable& variable() { return v_; }
    [[nodiscard]] descriptor::variable const& variable() const { return v_; }
    [[nodiscard]] bool same(variable_reference const& o) const { return v_ == o.v_; }
protected:
    std::ostream& print_to(std::ostream& out) const override { return out << "variable_reference(" << v_ << ")"; }
private:
    descriptor::variable v_;
};

class unary final : public expression_base<unary, expression_kind::unary> {
public:
    using operator_kind_type = unary_operator;
    unary(unary_operator op, owned<expression> operand) : op_ { op }, operand_ { std::move(operand.p) } {}
    unary(unary&& o) noexcept : op_ { o.op_ }, operand_ { std::move(o.operand_) } { region() = o.region(); }
    unary* copy() const { return new unary(op_, util::clone_or_null(operand_)); }
    unary* move() { return new unary(op_, std::move(operand_)); }
    TSHIM_CLONES(unary)
    [[nodiscard]] unary_operator operator_kind() const noexcept { return op_; }
    TSHIM_OPERAND(operand)
    void each_operand_(std::function<void(expression const&)> const& f) const override { f(*operand_); }
    [[nodiscard]] bool same(unary const& o) const { return op_ == o.op_ && util::same_or_null(operand_, o.operand_); }
protected:
    std::ostream& print_to(std::ostream& out) const override { return out << op_ << "(" << *operand_ << ")"; }
private:
    unary_operator op_;
    std::unique_ptr<expression> operand_;
};

class cast final : public expression_base<cast, expression_kind::cast> {
public:
    using loss_policy_type = cast_loss_policy;
    cast(shared_arg<type::data> t, loss_policy_type l, owned<expression> operand) : t_ { std::move(t.p) }, l_ { l }, operand_ { std::move(operand.p) } {}
    cast(cast&& o) noexcept : t_ { o.t_ }, l_ { o.l_ }, operand_ { std::move(o.operand_) } { region() = o.region(); }
    cast* copy() const { return new cast(t_, l_, util::clone_or_null(operand_)); }
    cast* move() { return new cast(t_, l_, std::move(operand_)); }
    TSHIM_CLONES(cast)
    [[nodiscard]] type::data const& type() const { return *t_; }
    [[nodiscard]] std::shared_ptr<type::data const> const& shared_type() const { return t_; }
    [[nodiscard]] loss_policy_type loss_policy() const noexcept { return l_; }
    TSHIM_OPERAND(operand)
    void each_operand_(std::function<void(expression const&)> const& f) const override { f(*operand_); }
    [[nodiscard]] bool same(cast const& o) const { return *t_ == *o.t_ && l_ == o.l_ && util::same_or_null(operand_, o.operand_); }
protected:
    std::ostream& print_to(std::ostream& out) const override { return out << "cast(" << *t_ << "," << l_ << "," << *operand_ << ")"; }
private:
    std::shared_ptr<type::data const> t_;
    loss_policy_type l_;
    std::unique_ptr<expression> operand_;
};

#define TSHIM_BINARY(D, K, OP) \
class D final : public expression_base<D, expression_kind::K> { \
public: \
    using operator_kind_type = OP; \
    D(OP op, owned<expression> left, owned<expression> right) : op_ { op }, left_ { std::move(left.p) }, right_ { std::move(right.p) } {} \
    D(D&& o) noexcept : op_ { o.op_ }, left_ { std::move(o.left_) }, right_ { std::move(o.right_) } { region() = o.region(); } \
    D* copy() const { return new D(op_, util::clone_or_null(left_), util::clone_or_null(right_)); } \
    D* move() { return new D(op_, std::move(left_), std::move(right_)); } \
    TSHIM_CLONES(D) \
    [[nodiscard]] OP operator_kind() const noexcept { return op_; } \
    TSHIM_OPERAND(left) TSHIM_OPERAND(right) \
    void each_operand_(std::function<void(expression const&)> const& f) const override { f(*left_); f(*right_); } \
    [[nodiscard]] bool same(D const& o) const { return op_ == o.op_ && util::same_or_null(left_, o.left_) && util::same_or_null(right_, o.right_); } \
protected: \
    std::ostream& print_to(std::ostream& out) const override { return out << op_ << "(" << *left_ << "," << *right_ << ")"; } \
private: \
    OP op_; \
    std::unique_ptr<expression> left_, right_; \
};
TSHIM_BINARY(binary, binary, binary_operator)
TSHIM_BINARY(compare, compare, comparison_operator)
#undef TSHIM_BINARY

class match final : public expression_base<match, expression_kind::match> {
public:
    using operator_kind_type = match_operator;
    match(match_operator op, owned<expression> input, owned<expression> pattern, owned<expression> escape) : op_ { op }, input_ { std::move(input.p) }, pattern_ { std::move(pattern.p) }, escape_ { std::move(escape.p) } {}
    match(match&& o) noexcept : op_ { o.op_ }, input_ { std::move(o.input_) }, pattern_ { std::move(o.pattern_) }, escape_ { std::move(o.escape_) } { region() = o.region(); }
    match* copy() const { return new match(op_, util::clone_or_null(input_), util::clone_or_null(pattern_), util::clone_or_null(escape_)); }
    match* move() { return new match(op_, std::move(input_), std::move(pattern_), std::move(escape_)); }
    TSHIM_CLONES(match)
    [[nodiscard]] match_operator operator_kind() const noexcept { return op_; }
    TSHIM_OPERAND(input) TSHIM_OPERAND(pattern) TSHIM_OPERAND(escape)
    void each_operand_(std::function<void(expression const&)> const& f) const override { f(*input_); f(*pattern_); if (escape_) { f(*escape_); } }
    [[nodiscard]] bool same(match const& o) const { return op_ == o.op_ && util::same_or_null(input_, o.input_) && util::same_or_null(pattern_, o.pattern_) && util::same_or_null(escape_, o.escape_); }
protected:
    std::ostream& print_to(std::ostream& out) const override { return out << op_ << "(" << *input_ << "," << *pattern_ << "," << *escape_ << ")"; }
private:
    match_operator op_;
    std::unique_ptr<expression> input_, pattern_, escape_;
};

namespace details {
class conditional_alternative {
public:
    conditional_alternative(owned<expression> condition, owned<expression> body) : condition_ { std::move(condition.p) }, body_ { std::move(body.p) } {}
    conditional_alternative(conditional_alternative&&) noexcept = default;
    conditional_alternative(conditional_alternative const& o) : condition_ { util::clone_or_null(o.condition_) }, body_ { util::clone_or_null(o.body_) } {}
    conditional_alternative& operator=(conditional_alternative&&) noexcept = default;
    TSHIM_OPERAND(condition) TSHIM_OPERAND(body)
    friend bool operator==(conditional_alternative const& a, conditional_alternative const& b) { return util::same_or_null(a.condition_, b.condition_) && util::same_or_null(a.body_, b.body_); }
    friend bool operator!=(conditional_alternative const& a, conditional_alternative const& b) { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, conditional_alternative const& v) { return out << *v.condition_ << "=>" << *v.body_; }
private:
    std::unique_ptr<expression> condition_, body_;
};
class let_variable {
public:
    let_variable(descriptor::variable v, owned<expression> value) : v_ { std::move(v) }, value_ { std::move(value.p) } {}
    let_variable(let_variable&&) noexcept = default;
    let_variable(let_variable const& o) : v_ { o.v_ }, value_ { util::clone_or_null(o.value_) } {}
    let_variable& operator=(let_variable&&) noexcept = default;
    [[nodiscard]] descriptor::variable& variable() { return v_; }
    [[nodiscard]] descriptor::variable const& variable() const { return v_; }
    TSHIM_OPERAND(value)
    friend bool operator==(let_variable const& a, let_variable const& b) { return a.v_ == b.v_ && util::same_or_null(a.value_, b.value_); }
    friend bool operator!=(let_variable const& a, let_variable const& b) { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, let_variable const& v) { return out << v.v_ << ":=" << *v.value_; }
private:
    descriptor::variable v_;
    std::unique_ptr<expression> value_;
};
template<class V> std::ostream& print_seq(std::ostream& out, V const& v) { out << "["; bool c = false; for (auto&& e : v) { if (c) { out << ","; } c = true; out << e; } return out << "]"; }
} // namespace details

class conditional final : public expression_base<conditional, expression_kind::conditional> {
public:
    using alternative = details::conditional_alternative;
    explicit conditional(std::vector<alternative> alternatives, owned<expression> default_expression = {}) : a_ { std::move(alternatives) }, default_expression_ { std::move(default_expression.p) } {}
    conditional(conditional&& o) noexcept : a_ { std::move(o.a_) }, default_expression_ { std::move(o.default_expression_) } { region() = o.region(); }
    conditional* copy() const { return new conditional(std::vector<alternative> { a_ }, util::clone_or_null(default_expression_)); }
    conditional* move() { return new conditional(std::move(a_), std::move(default_expression_)); }
    TSHIM_CLONES(conditional)
    [[nodiscard]] std::vector<alternative>& alternatives() { return a_; }
    [[nodiscard]] std::vector<alternative> const& alternatives() const { return a_; }
    [[nodiscard]] util::optional_ptr<expression> default_expression() { return util::optional_ptr<expression> { default_expression_.get() }; }
    [[nodiscard]] util::optional_ptr<expression const> default_expression() const { return util::optional_ptr<expression const> { default_expression_.get() }; }
    [[nodiscard]] std::unique_ptr<expression> release_default_expression() { return std::move(default_expression_); }
    conditional& default_expression(std::unique_ptr<expression> v) { default_expression_ = std::move(v); return *this; }
    [[nodiscard]] ownership_reference<expression> ownership_default_expression() { return ownership_reference<expression> { default_expression_ }; }
    void each_operand_(std::function<void(expression const&)> const& f) const override { for (auto&& a : a_) { f(a.condition()); f(a.body()); } if (default_expression_) { f(*default_expression_); } }
    [[nodiscard]] bool same(conditional const& o) const { return a_ == o.a_ && util::same_or_null(default_expression_, o.default_expression_); }
protected:
    std::ostream& print_to(std::ostream& out) const override { out << "conditional("; details::print_seq(out, a_); if (default_expression_) { out << "," << *default_expression_; } return out << ")"; }
private:
    std::vector<alternative> a_;
    std::unique_ptr<expression> default_expression_;
};

namespace details {
inline util::reference_vector<expression> clone_elements(util::reference_vector<expression> const& v) {
    util::reference_vector<expression> r {}; for (auto&& e : v) { r.push_back(std::unique_ptr<expression>(e.clone())); } return r;
}
}

class coalesce final : public expression_base<coalesce, expression_kind::coalesce> {
public:
    explicit coalesce(util::reference_vector<expression> v) : v_ { std::move(v) } {}
    explicit coalesce(std::vector<std::unique_ptr<expression>> v) : v_ { std::move(v) } {}
    coalesce(std::initializer_list<util::rvalue_reference_wrapper<expression>> v) : v_ { v } {}
    coalesce(coalesce&& o) noexcept : v_ { std::move(o.v_) } { region() = o.region(); }
    coalesce* copy() const { return new coalesce(details::clone_elements(v_)); }
    coalesce* move() { return new coalesce(std::move(v_)); }
    TSHIM_CLONES(coalesce)
    [[nodiscard]] util::reference_vector<expression>& alternatives() { return v_; }
    [[nodiscard]] util::reference_vector<expression> const& alternatives() const { return v_; }
    void each_operand_(std::function<void(expression const&)> const& f) const override { for (auto&& e : v_) { f(e); } }
    [[nodiscard]] bool same(coalesce const& o) const { return v_ == o.v_; }
protected:
    std::ostream& print_to(std::ostream& out) const override { return out << "coalesce(" << v_ << ")"; }
private:
    util::reference_vector<expression> v_;
};

class let final : public expression_base<let, expression_kind::let> {
public:
    using variable = details::let_variable;
    explicit let(std::vector<variable> variables, owned<expression> body) : v_ { std::move(variables) }, body_ { std::move(body.p) } {}
    explicit let(variable v, owned<expression> body) : body_ { std::move(body.p) } { v_.emplace_back(std::move(v)); }
    let(let&& o) noexcept : v_ { std::move(o.v_) }, body_ { std::move(o.body_) } { region() = o.region(); }
    let* copy() const { return new let(std::vector<variable> { v_ }, util::clone_or_null(body_)); }
    let* move() { return new let(std::move(v_), std::move(body_)); }
    TSHIM_CLONES(let)
    [[nodiscard]] std::vector<variable>& variables() { return v_; }
    [[nodiscard]] std::vector<variable> const& variables() const { return v_; }
    TSHIM_OPERAND(body)
    void each_operand_(std::function<void(expression const&)> const& f) const override { for (auto&& e : v_) { f(e.value()); } f(*body_); }
    [[nodiscard]] bool same(let const& o) const { return v_ == o.v_ && util::same_or_null(body_, o.body_); }
protected:
    std::ostream& print_to(std::ostream& out) const override { out << "let("; details::print_seq(out, v_); return out << "," << *body_ << ")"; }
private:
    std::vector<variable> v_;
    std::unique_ptr<expression> body_;
};

class function_call final : public expression_base<function_call, expression_kind::function_call> {
public:
    function_call(descriptor::function f, util::reference_vector<expression> a) : f_ { std::move(f) }, a_ { std::move(a) } {}
    function_call(descriptor::function f, std::vector<std::unique_ptr<expression>> a) : f_ { std::move(f) }, a_ { std::move(a) } {}
    function_call(descriptor::function f, std::initializer_list<util::rvalue_reference_wrapper<expression>> a) : f_ { std::move(f) }, a_ { a } {}
    function_call(function_call&& o) noexcept : f_ { o.f_ }, a_ { std::move(o.a_) } { region() = o.region(); }
    function_call* copy() const { return new function_call(f_, details::clone_elements(a_)); }
    function_call* move() { return new function_call(f_, std::move(a_)); }
    TSHIM_CLONES(function_call)
    [[nodiscard]] descriptor::function& function() { return f_; }
    [[nodiscard]] descriptor::function const& function() const { return f_; }
    [[nodiscard]] util::reference_vector<expression>& arguments() { return a_; }
    [[nodiscard]] util::reference_vector<expression> const& arguments() const { return a_; }
    void each_operand_(std::function<void(expression const&)> const& f) const override { for (auto&& e : a_) { f(e); } }
    [[nodiscard]] bool same(function_call const& o) const { return f_ == o.f_ && a_ == o.a_; }
protected:
    std::ostream& print_to(std::ostream& out) const override { return out << "function_call(" << f_ << "," << a_ << ")"; }
private:
    descriptor::function f_;
    util::reference_vector<expression> a_;
};

class extension : public expression {
public:
    static constexpr expression_kind tag = expression_kind::extension;
    using extension_id_type = std::size_t;
    static constexpr extension_id_type min_unused_id = 1000;
    [[nodiscard]] expression_kind kind() const noexcept final { return tag; }
    [[nodiscard]] virtual extension_id_type extension_id() const noexcept = 0;
    [[nodiscard]] extension* clone() const& override = 0;
    [[nodiscard]] extension* clone() && override = 0;
protected:
    [[nodiscard]] bool equals(expression const& o) const noexcept final { return o.kind() == tag && same_extension(static_cast<extension const&>(o)); }
    [[nodiscard]] virtual bool same_extension(extension const& o) const noexcept = 0;
};

#define TSHIM_DISPATCH(name) case expression_kind::name: return util::polymorphic_callback<name>(std::forward<Callback>(callback), std::forward<E>(expr), std::forward<Args>(args)...);
template<class Callback, class E, class... Args>
inline auto dispatch(Callback&& callback, E&& expr, Args&&... args) {
    switch (expr.kind()) {
        TSHIM_DISPATCH(immediate) TSHIM_DISPATCH(variable_reference) TSHIM_DISPATCH(unary) TSHIM_DISPATCH(cast) TSHIM_DISPATCH(binary) TSHIM_DISPATCH(compare)
        TSHIM_DISPATCH(match) TSHIM_DISPATCH(conditional) TSHIM_DISPATCH(coalesce) TSHIM_DISPATCH(let) TSHIM_DISPATCH(function_call) TSHIM_DISPATCH(extension)
    }
    util::throw_exception(std::domain_error("scalar dispatch"));
}
#undef TSHIM_DISPATCH
namespace details {
template<class Callback, class T, class... Args>
bool walk_accept(Callback& c, T const& e, Args&... args) {
    if constexpr (std::is_invocable_r_v<bool, Callback&, T const&, Args&...> ) { return c(e, args...); }
    else { c(e, args...); return true; }
}
template<class Callback, class... Args> struct walker {
    Callback& c;
    template<class T> bool operator()(T const& e, Args&... args) { return walk_accept(c, e, args...); }
};
}
/// pre-order traversal: the callback may return false to prevent from visiting the operands.
template<class Callback, class... Args>
inline void walk(Callback&& callback, expression const& expr, Args&&... args) {
    details::walker<std::remove_reference_t<Callback>, std::remove_reference_t<Args>...> w { callback };
    if (dispatch(w, expr, args...)) {
        expr.each_operand_([&](expression const& e) { walk(callback, e, args...); });
    }
}
} // namespace takatori::scalar
