#pragma once
#include <yugawara/impl_/schema.h>
