#include "C23.h"
VH_SECTION(printAB, 400, 12000) {
    switch (c.index % 16) {
    case 0: P(A, A1()); break; case 1: P(A, A3()); break; case 2: P(A, A1(), A2()); break; case 3: P(A, A2(), A1(), A3()); break; case 4: P(A, B1(), C1(), A3()); break; case 5: P(A, B1()); break;
    case 6: P(B, B1()); break; case 7: P(B, B2()); break; case 8: P(B, A1()); break; case 9: P(B, A3(), B1()); break; case 10: P(B, B1(), A1()); break; case 11: P(B, B2(), B1(), A2()); break; case 12: P(B, C1(), A1()); break;
    case 13: P(Q, Q1()); break; case 14: P(Q, Q1(), A3(), Q2()); break; default: P(Q, A1(), Q2()); break;
    }
}
