#pragma once
#include <yugawara/impl_/type_rules.h>
