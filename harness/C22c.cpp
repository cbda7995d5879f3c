#include "C22.h"
VH_SECTION(accessString, 420, 15000) { int k = int(c.index % 22); switch (c.index / 22 % 1) { case 0: kinds<std::string>(c, k); break; } }
