#include "C19.h"
#include "C19_gen2.h"
VH_SECTION(classes2, 600, 30000) { classes1(c); }
