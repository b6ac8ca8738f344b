#pragma once
#include <takatori/util/prelude_.h>
#include <sstream>
#include <string>
#include <utility>
namespace takatori::util {
class string_builder {
public:
    struct to_string_t { explicit to_string_t() = default; };
    static constexpr to_string_t to_string {};
    string_builder() = default;
    explicit string_builder(std::string const& s) { buf_ << s; }
    [[nodiscard]] std::ostream& stream() noexcept { return buf_; }
    [[nodiscard]] std::string str() const { return buf_.str(); }
    void str(std::string const& s) { buf_.str(s); }
    friend std::string operator<<(string_builder& b, to_string_t) { return b.str(); }
    friend std::string operator<<(string_builder&& b, to_string_t) { return b.str(); }
    template<class T> friend string_builder& operator<<(string_builder& b, T&& v) { b.buf_ << std::forward<T>(v); return b; }
    template<class T> friend string_builder&& operator<<(string_builder&& b, T&& v) { b.buf_ << std::forward<T>(v); return std::move(b); }
private:
    std::ostringstream buf_ {};
};
using debug_string_builder = string_builder;
} // namespace takatori::util
