#pragma once
#include <cstddef>
#include <ostream>
namespace takatori::document {
class document;
class position {
public:
    using size_type = std::size_t;
    constexpr position() noexcept = default;
    constexpr position(size_type line, size_type column) noexcept : line_ { line }, column_ { column } {}
    [[nodiscard]] constexpr size_type line() const noexcept { return line_; }
    [[nodiscard]] constexpr size_type column() const noexcept { return column_; }
    [[nodiscard]] explicit constexpr operator bool() const noexcept { return line_ != 0; }
    friend constexpr bool operator==(position a, position b) noexcept { return a.line_ == b.line_ && a.column_ == b.column_; }
    friend constexpr bool operator!=(position a, position b) noexcept { return !(a == b); }
private:
    size_type line_ {};
    size_type column_ {};
};
class region {
public:
    constexpr region() noexcept = default;
    region(document const& source, std::size_t begin, std::size_t end) noexcept : source_ { &source }, begin_ { begin }, end_ { end } {}
    [[nodiscard]] document const& source() const noexcept { return *source_; }
    [[nodiscard]] document const* source_ptr() const noexcept { return source_; }
    [[nodiscard]] std::size_t begin() const noexcept { return begin_; }
    [[nodiscard]] std::size_t end() const noexcept { return end_; }
    [[nodiscard]] bool valid() const noexcept { return source_ != nullptr; }
    [[nodiscard]] explicit operator bool() const noexcept { return valid(); }
    friend bool operator==(region const& a, region const& b) noexcept { return a.source_ == b.source_ && a.begin_ == b.begin_ && a.end_ == b.end_; }
    friend bool operator!=(region const& a, region const& b) noexcept { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, region const& r) { if (!r) { return out << "region(N/A)"; } return out << "region(" << r.begin_ << ":" << r.end_ << ")"; }
private:
    document const* source_ {};
    std::size_t begin_ {};
    std::size_t end_ {};
};
} // namespace takatori::document
