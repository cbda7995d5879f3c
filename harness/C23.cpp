#include "C23.h"
VH_SECTION(printC, 300, 9000) {
    switch (c.index % 15) {
    case 0: P(C, C1()); break; case 1: P(C, C2()); break; case 2: P(C, A1()); break; case 3: P(C, A3(), B1()); break; case 4: P(C, B2(), A3()); break;
    case 5: P(C, C1(), A1(), B2()); break; case 6: P(C, C2(), B1(), A2()); break; case 7: P(C, A1(), A2(), C1()); break; case 8: P(C, A2(), A1(), C2(), B1(), B2()); break;
    case 9: P(C, B1(), B2(), C1(), C2(), A3(), A1(), A2()); break; case 10: P(C, Q1(), A2()); break; case 11: P(C, B2(), C2()); break; case 12: P(C, A3(), C2(), A1(), B1()); break;
    case 13: P(C, C2(), C1(), B1(), A1()); break; default: P(C, Q1(), Q2()); break;
    }
}
