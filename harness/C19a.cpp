#include "C19.h"
#include "C19_gen1.h"
VH_SECTION(classes1, 600, 30000) { classes0(c); }
