// Marks this directory as an IlmBase root for cmake/FindILMBase.cmake.
#pragma once
#include <Imath/ImathConfig.h>
