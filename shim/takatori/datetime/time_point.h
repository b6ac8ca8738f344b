#pragma once
#include <takatori/impl_/datetime.h>
