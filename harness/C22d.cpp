#include "C22.h"
VH_SECTION(accessBool, 420, 15000) { int k = int(c.index % 22); switch (c.index / 22 % 2) { case 0: kinds<bool>(c, k); break; case 1: kinds<Vector<3, double>>(c, k); break; } }
