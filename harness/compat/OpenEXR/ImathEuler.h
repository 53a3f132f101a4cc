// Forwards the OpenEXR 2 location of this header to Imath 3.
#pragma once
#include <Imath/ImathEuler.h>
