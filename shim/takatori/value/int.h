#pragma once
#include <takatori/impl_/values.h>
