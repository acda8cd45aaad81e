#define PART 5
#include "c30_part.hpp"
