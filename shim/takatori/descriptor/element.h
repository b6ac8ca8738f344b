#pragma once
#include <takatori/impl_/descriptors.h>
