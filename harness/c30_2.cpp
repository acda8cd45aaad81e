#define PART 2
#include "c30_part.hpp"
