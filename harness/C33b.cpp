#include "C33.h"
void c33_put(Put& p) {
    switch (p.c.rng.below(16)) {
    case 0: p.one<int>(); break; case 1: p.one<double>(); break; case 2: p.one<std::string>(); break; case 3: p.one<bool>(); break; case 4: p.one<char>(); break; case 5: p.one<const char*>(); break; case 6: p.one<unsigned long>(); break; case 7: p.one<ve::E>(); break;
    case 8: p.one<std::vector<double>>(); break; case 9: p.one<std::map<std::string, std::vector<int>>>(); break; case 10: p.two<std::string, int>(); break; case 11: p.two<bool, std::vector<std::string>>(); break; case 12: p.four<int, std::string, double, char>(); break; case 13: p.four<std::string, std::vector<int>, ve::D, bool>(); break; case 14: p.one<std::string>(); break; default: p.two<int, std::string>(); break;
    }
}
