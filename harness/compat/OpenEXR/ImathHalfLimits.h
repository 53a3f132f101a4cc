// Imath 3 has the numeric_limits of half in half.h and halfLimits.h.
#pragma once
#include <Imath/half.h>
#include <Imath/halfLimits.h>
