#pragma once
#include <takatori/impl_/relations.h>
