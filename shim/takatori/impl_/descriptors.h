#pragma once
#include <takatori/document/document.h>
#include <takatori/document/region.h>
#include <takatori/util/downcast.h>
#include <takatori/util/prelude_.h>
namespace takatori::descriptor {
enum class descriptor_kind { variable, relation, function, aggregate_function, declared_type, schema, storage };
inline std::ostream& operator<<(std::ostream& out, descriptor_kind k) { return out << static_cast<int>(k); }
template<descriptor_kind K>
class element {
public:
    static constexpr descriptor_kind tag = K;
    class entity_type {
    public:
        virtual ~entity_type() = default;
        [[nodiscard]] virtual bool equals(entity_type const& o) const noexcept { return this == &o; }
        [[nodiscard]] virtual std::size_t hash() const noexcept { return std::hash<void const*> {}(this); }
        virtual std::ostream& print_to(std::ostream& out) const { return out << this; }
    };
    using reference = entity_type const&;
    template<class U, class = std::enable_if_t<std::is_convertible_v<U*, entity_type const*>>> element(std::shared_ptr<U> e) : e_ { std::move(e) } {}
    element(std::nullptr_t) {}
    [[nodiscard]] entity_type const& entity() const { return *e_; }
    [[nodiscard]] entity_type const* optional_entity() const noexcept { return e_.get(); }
    [[nodiscard]] std::shared_ptr<entity_type const> const& shared_entity() const noexcept { return e_; }
    [[nodiscard]] entity_type const& operator*() const { return *e_; }
    [[nodiscard]] explicit operator bool() const noexcept { return static_cast<bool>(e_); }
    [[nodiscard]] document::region& region() noexcept { return r_; }
    [[nodiscard]] document::region const& region() const noexcept { return r_; }
    friend bool operator==(element const& a, element const& b) noexcept { return a.e_ == b.e_ || (a.e_ && b.e_ && a.e_->equals(*b.e_)); }
    friend bool operator!=(element const& a, element const& b) noexcept { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, element const& v) { if (!v.e_) { return out << "(null)"; } return v.e_->print_to(out); }
private:
    std::shared_ptr<entity_type const> e_;
    document::region r_ {};
};
using variable = element<descriptor_kind::variable>;
using relation = element<descriptor_kind::relation>;
using function = element<descriptor_kind::function>;
using aggregate_function = element<descriptor_kind::aggregate_function>;
using declared_type = element<descriptor_kind::declared_type>;
using schema = element<descriptor_kind::schema>;
using storage = element<descriptor_kind::storage>;
} // namespace takatori::descriptor
template<takatori::descriptor::descriptor_kind K> struct std::hash<takatori::descriptor::element<K>> {
    std::size_t operator()(takatori::descriptor::element<K> const& v) const noexcept { return v ? v.entity().hash() : 0; }
};
