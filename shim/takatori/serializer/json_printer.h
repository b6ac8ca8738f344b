#pragma once
#include <cstdio>
#include <ostream>
#include <stdexcept>
#include <vector>
#include "object_acceptor.h"
namespace takatori::serializer {
/// prints JSON; every protocol error (unbalanced begin/end, value outside property in struct, ...) throws.
class json_printer : public object_acceptor {
public:
    explicit json_printer(std::ostream& out) : out_ { out } {}
    void string(std::string_view v) override { value(); quote(v); }
    void integer(std::int64_t v) override { value(); out_ << v; }
    void unsigned_integer(std::uint64_t v) override { value(); out_ << v; }
    void floating_point(double v) override { value(); out_ << v; }
    void boolean(bool v) override { value(); out_ << (v ? "true" : "false"); }
    void pointer(void const* v) override { value(); out_ << '"' << v << '"'; }
    void struct_begin() override { value(); st_.push_back({ 's', 0 }); out_ << "{"; }
    void struct_end() override { pop('s'); out_ << "}"; }
    void array_begin() override { value(); st_.push_back({ 'a', 0 }); out_ << "["; }
    void array_end() override { pop('a'); out_ << "]"; }
    void property_begin(std::string_view n) override {
        if (st_.empty() || st_.back().k != 's') { throw std::logic_error("json_printer: property outside struct"); }
        if (st_.back().n++ > 0) { out_ << ","; }
        quote(n); out_ << ":";
        st_.push_back({ 'p', 0 });
    }
    void property_end() override {
        if (st_.empty() || st_.back().k != 'p') { throw std::logic_error("json_printer: unbalanced property"); }
        if (st_.back().n == 0) { out_ << "null"; }
        st_.pop_back();
    }
private:
    struct frame { char k; std::size_t n; };
    std::ostream& out_;
    std::vector<frame> st_ {};
    void value() {
        if (st_.empty()) { return; }
        auto& t = st_.back();
        if (t.k == 's') { throw std::logic_error("json_printer: value directly in struct"); }
        if (t.k == 'p' && t.n > 0) { throw std::logic_error("json_printer: multiple values in property"); }
        if (t.k == 'a' && t.n > 0) { out_ << ","; }
        ++t.n;
    }
    void pop(char k) {
        if (st_.empty() || st_.back().k != k) { throw std::logic_error("json_printer: unbalanced block"); }
        st_.pop_back();
    }
    void quote(std::string_view v) {
        out_ << '"';
        for (char c : v) {
            auto u = static_cast<unsigned char>(c);
            if (c == '"' || c == '\\') { out_ << '\\' << c; }
            else if (u < 0x20) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", u); out_ << b; }
            else { out_ << c; }
        }
        out_ << '"';
    }
};
} // namespace takatori::serializer
