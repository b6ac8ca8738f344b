#pragma once
#include <takatori/impl_/scalars.h>
