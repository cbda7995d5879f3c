// A second unit using the debug macros.
#include <GTMesh/Debug/Debug.h>
const char* c31_otherFile = __FILE__; static int line; int c31_otherLine() { return line; }
void c31_other(int v) { line = __LINE__; DBGVAR(v); }
