#pragma once
#include <yugawara/impl_/expression_analyzer.h>
