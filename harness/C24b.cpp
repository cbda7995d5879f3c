// other order of the headers: the algorithms must not depend on what was included before them
#include <GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h>
#include <GTMesh/NumericStaticArray/Vector.h>
#include "vh.h"
#define NSB namespace {
#define NSE }
#include "C24.h"
#define SUF _b
#include "C24s.h"
