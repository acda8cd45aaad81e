#define PART 6
#include "c30_part.hpp"
