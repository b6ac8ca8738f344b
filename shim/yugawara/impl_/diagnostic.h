#pragma once
#include <takatori/document/document.h>
#include <takatori/document/region.h>
#include <takatori/util/prelude_.h>
namespace yugawara {
template<class C>
class diagnostic {
public:
    using code_type = C;
    using message_type = std::string;
    using location_type = takatori::document::region;
    diagnostic() = default;
    diagnostic(code_type c, message_type m, location_type l) : c_ { c }, m_ { std::move(m) }, l_ { l } {}
    [[nodiscard]] code_type code() const noexcept { return c_; }
    [[nodiscard]] message_type const& message() const noexcept { return m_; }
    [[nodiscard]] location_type const& location() const noexcept { return l_; }
    friend std::ostream& operator<<(std::ostream& out, diagnostic const& v) { return out << "diagnostic(" << v.c_ << ", \"" << v.m_ << "\")"; }
private:
    code_type c_ {}; message_type m_ {}; location_type l_ {};
};
}
