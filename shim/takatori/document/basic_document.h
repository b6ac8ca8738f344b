#pragma once
#include <stdexcept>
#include "document.h"
namespace takatori::document {
class basic_document : public document {
public:
    basic_document() = default;
    basic_document(std::string location, std::string contents) : location_ { std::move(location) }, contents_ { std::move(contents) } {}
    [[nodiscard]] std::string_view location() const noexcept override { return location_; }
    [[nodiscard]] std::string_view contents(size_type offset, size_type size) const override {
        // out-of-range access to the source text is a defect of the caller: make it loud
        if (offset > contents_.size()) { throw std::out_of_range("document::contents: offset"); }
        return std::string_view { contents_ }.substr(offset, size);
    }
    [[nodiscard]] size_type size() const noexcept override { return contents_.size(); }
    [[nodiscard]] class position position(size_type offset) const override {
        if (offset > contents_.size()) { return {}; }
        size_type line = 1, col = 1;
        for (size_type i = 0; i < offset; ++i) { if (contents_[i] == '\n') { ++line; col = 1; } else { ++col; } }
        return { line, col };
    }
private:
    std::string location_ {};
    std::string contents_ {};
};
} // namespace takatori::document
