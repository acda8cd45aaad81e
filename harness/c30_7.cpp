#define PART 7
#include "c30_part.hpp"
