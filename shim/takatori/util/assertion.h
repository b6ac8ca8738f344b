#pragma once
#include <cassert>
#include <stdexcept>
// assertions are always live in the verification build
#define BOOST_ASSERT_TAKATORI_(x) (static_cast<bool>(x) ? void(0) : throw std::logic_error("assertion failed: " #x))
#include <boost/assert.hpp>
