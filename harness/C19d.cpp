#include "C19.h"
#include "C19_gen4.h"
VH_SECTION(classes4, 600, 30000) { classes3(c); }
