#pragma once
#include <takatori/util/prelude_.h>
#include <exception>
#include <stdexcept>
#include <string>
#include <utility>
namespace takatori::util {
template<class T>
[[noreturn]] inline void throw_exception(T&& e) { throw std::forward<T>(e); }
inline std::string get_caption() { return {}; }
} // namespace takatori::util
