#pragma once
#include "region.h"
