#include "C22.h"
VH_SECTION(accessDouble, 420, 15000) { int k = int(c.index % 22); switch (c.index / 22 % 2) { case 0: kinds<double>(c, k); break; case 1: kinds<std::shared_ptr<int>>(c, k); break; } }
