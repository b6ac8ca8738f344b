#pragma once
#include <yugawara/impl_/extensions.h>
