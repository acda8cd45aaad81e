#define PART 4
#include "c30_part.hpp"
