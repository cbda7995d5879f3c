#include "C19.h"
#include "C19_gen3.h"
VH_SECTION(classes3, 600, 30000) { classes2(c); }
