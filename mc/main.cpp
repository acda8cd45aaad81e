#define MC_MAIN
#include "mc.hpp"
