#pragma once
#include <takatori/impl_/statements.h>
