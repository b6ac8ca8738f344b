#pragma once
#include <yugawara/impl_/binding.h>
