#define PART 3
#include "c30_part.hpp"
