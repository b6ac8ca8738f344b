#pragma once
#include <takatori/impl_/types.h>
