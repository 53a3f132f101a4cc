// C24, see c24_group.h
#include "c24_group.h"
PBT_TEST(vranges, 100, 5000, "the same with vector fields") { rangeCase<3>(s, c); }
