#pragma once
#include <cstddef>
#include <string>
#include <string_view>
#include "region.h"
namespace takatori::document {
class document {
public:
    using size_type = std::size_t;
    static constexpr size_type npos = std::string_view::npos;
    document() noexcept = default;
    virtual ~document() = default;
    document(document const&) = delete;
    document& operator=(document const&) = delete;
    [[nodiscard]] virtual std::string_view location() const noexcept = 0;
    [[nodiscard]] virtual std::string_view contents(size_type offset = 0, size_type size = npos) const = 0;
    [[nodiscard]] virtual document::size_type size() const noexcept = 0;
    [[nodiscard]] virtual class position position(size_type offset) const = 0;
    friend bool operator==(document const& a, document const& b) { return a.location() == b.location(); }
    friend bool operator!=(document const& a, document const& b) { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, document const& d) { return out << d.location(); }
};
} // namespace takatori::document
