#include "C33.h"
void c33_put2(Put& p) {
    switch (p.c.rng.below(16)) {
    case 0: p.one<ve::Nest>(); break; case 1: p.one<ve::One>(); break; case 2: p.one<ve::Weird>(); break; case 3: p.one<ve::GS>(); break; case 4: p.one<ve::Tm<ve::Tm<int>>>(); break; case 5: p.one<ve::Many>(); break; case 6: p.one<std::tuple<int, std::string, std::vector<bool>>>(); break; case 7: p.one<std::vector<Vertex<3, double>>>(); break;
    case 8: p.one<std::list<ve::One>>(); break; case 9: p.one<std::set<std::string>>(); break; case 10: p.one<std::unordered_map<std::string, ve::D>>(); break; case 11: p.two<ve::Nest, ve::Weird>(); break; case 12: p.one<std::pair<std::string, std::tuple<char, float>>>(); break; case 13: p.one<std::array<std::vector<std::string>, 3>>(); break; case 14: p.one<ve::Weird>(); break; default: p.one<std::vector<std::pair<std::string, long>>>(); break;
    }
}
