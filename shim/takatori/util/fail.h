#pragma once
#include <takatori/util/prelude_.h>
#include <cstdlib>
#include <stdexcept>
#include <string>
#include <string_view>
namespace takatori::util {
[[noreturn]] inline void fail(std::string_view message = "fail") { throw std::domain_error(std::string { message }); }
} // namespace takatori::util
