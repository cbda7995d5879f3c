#include "C29.h"
VH_SECTION(numbers, 900, 30000) {
    switch (c.index % 15) { case 0: R(bool); break; case 1: R(short); break; case 2: R(unsigned short); break; case 3: R(int); break; case 4: R(unsigned); break; case 5: R(long); break; case 6: R(unsigned long); break; case 7: R(long long); break; case 8: R(unsigned long long); break;
    case 9: R(float); break; case 10: R(double); break; case 11: R(long double); break; case 12: R(E); break; case 13: R(int*); break; default: R(const double*); break; }
}
VH_SECTION(texts, 900, 30000) {
    typedef char c1[1]; typedef char c7[7]; typedef const char* cc; typedef char* cs;
    switch (c.index % 7) { case 0: R(char); break; case 1: R(std::string); break; case 2: R(cc); break; case 3: R(cs); break; case 4: R(c7); break; case 5: R(c1); break;
    default: { std::ostringstream o; VariableExport::exportVariable(o, "literal \"x\"\n"); Capture cap; VariableExport::exportVariable("literal \"x\"\n"); std::string s = cap.stop(), e = "\"literal \\\"x\\\"\\n\""; VH_CHECK(c, o.str() == e && s == e, "literal", o.str() << " and " << s << " expected " << e); c.ev("stream"); } }
}
