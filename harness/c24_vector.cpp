// C24, see c24_group.h
#include "c24_group.h"
PBT_TEST(vectors, 150, 8000, "the same with vector fields") { sampleCase<3>(s, c); }
