#include "C23.h"
VH_SECTION(selection, 5, 50) {
    switch (c.index % 5) {
    case 0: S(A1()); S(A1(), A2()); S(A2(), A1()); S(A3(), A1(), A2()); S(B1(), A3()); break;
    case 1: S(B1()); S(B2(), B1()); S(A1(), B2(), B1()); S(C1(), A2(), B1()); S(C2(), C1(), B2(), A3(), A2(), A1()); break;
    case 2: S(C1()); S(C2(), C1()); S(Q1()); S(Q2(), Q1()); S(Q1(), A1(), Q2(), B1()); break;
    case 3: S(A2(), B1(), A1(), B2(), C2()); S(Q2(), C2(), B2(), A3()); S(A1(), A1()); S(C1(), Q1(), C2(), A2(), A1(), B1()); break;
    default: S(B2(), C1()); S(C1(), B1(), B2()); S(A3(), B2(), Q1(), C1(), A1()); S(B1(), B1(), A2(), Q2()); break;
    }
    c.distinct(uint64_t(c.index % 5) + 1);
    // no traits bound at all
    VH_CHECK(c, SelectTraitsWithIODefault<A>::valid && !SelectTraitsWithIODefault<Q>::valid && SelectTraitsWithArithmeticDefault<A>::valid, "default", "default traits without bound ones");
}
