// The debug macros of a unit compiled with UNDEBUG.
#define UNDEBUG
#include <GTMesh/Debug/Debug.h>
int c31_undebug(int& evaluated, int& code) {
    int r = 1; auto f = [&](int v) { evaluated++; return v; };
    DBGVAR(f(1)); DBGVAR(f(1), f(2)); DBGVARCOND(f(1), f(2)); DBGMSG("x", f(3)); DBGCHECK; DBGTRY(code++); DBGTRY(code += 1); DBG(f(1));
    DBGVAR_STDIO(f(1), f(2)); DBGVARCOND_STDIO(f(1), f(2)); DBGCHECK_STDIO; DBGVAR_HTML(f(1), 2); DBGVARCOND_HTML(f(1), f(2)); DBGVAR_JSON(f(1)); DBGVARCOND_JSON(f(1), f(2)); DBGVAR_CSV(f(1)); DBGVARCOND_CSV(f(1), f(2));
    if (evaluated) DBGVARCOND(true, f(1)); else r += 4;
    return r;
}
