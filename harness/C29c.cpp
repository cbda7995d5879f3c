#include "C29.h"
VH_SECTION(classes, 900, 30000) {
    switch (c.index % 21) {
    case 0: R(D); break; case 1: R(One); break; case 2: R(Nest); break; case 3: R(GS); break; case 4: R(Weird); break; case 5: R(Split); break; case 6: R(Tm<int>); break; case 7: R(Tm<std::string>); break; case 8: R(Tm<Tm<int>>); break; case 9: R(Many); break;
    case 10: R(Cus); break; case 11: R(CusV); break; case 12: RS(Ost); break; case 13: R(TI); break; case 14: RS(Pod); break; case 15: R(std::vector<Nest>); break; case 16: R(std::vector<Cus>); break; case 17: RS(std::shared_ptr<int>); break; case 18: RS(std::vector<Pod>); break; case 19: RS(std::tuple<Pod, int, Ost>); break; default: R(std::map<std::string, Nest>); break;
    }
}
