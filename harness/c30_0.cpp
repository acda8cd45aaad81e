#define PART 0
#include "c30_part.hpp"
