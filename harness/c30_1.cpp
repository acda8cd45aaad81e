#define PART 1
#include "c30_part.hpp"
