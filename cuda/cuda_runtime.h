// Stand-in for the CUDA headers: the sources are compiled as C++ and run by mc/cuemu.cpp.
#pragma once
#include "../mc/cuemu.h"
