#pragma once
#include <yugawara/impl_/diagnostic.h>
