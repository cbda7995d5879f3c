#include "C29.h"
VH_SECTION(containers, 900, 30000) {
    switch (c.index % 27) {
    case 0: R(std::vector<int>); break; case 1: R(std::vector<std::string>); break; case 2: R(std::vector<bool>); break; case 3: R(std::list<double>); break; case 4: R(std::deque<char>); break; case 5: R(std::set<std::string>); break; case 6: R(std::multiset<int>); break;
    case 7: R(std::unordered_set<int>); break; case 8: R(std::forward_list<long>); break; case 9: R(std::map<std::string, int>); break; case 10: R(std::unordered_map<int, std::string>); break; case 11: R(std::array<float, 3>); break; case 12: R(std::array<int, 0>); break; case 13: R(std::valarray<double>); break;
    case 14: R(Vertex<3, double>); break; case 15: R(Vector<2, float>); break; case 16: R(std::vector<std::vector<int>>); break; case 17: R(std::map<int, std::map<std::string, std::vector<double>>>); break; case 18: R(std::list<std::set<char>>); break; case 19: R(Idx); break; case 20: R(Tnl); break;
    case 21: R(std::vector<Vector<3, double>>); break; case 22: R(std::vector<const char*>); break; case 23: R(std::vector<E>); break; case 24: R(std::array<std::array<bool, 2>, 3>); break; case 25: R(std::vector<Idx>); break; default: R(std::vector<int*>); break;
    }
}
VH_SECTION(tuples, 600, 20000) {
    switch (c.index % 12) {
    case 0: R(std::pair<int, double>); break; case 1: R(std::pair<std::string, std::vector<int>>); break; case 2: R(std::tuple<>); break; case 3: R(std::tuple<int>); break; case 4: R(std::tuple<int, std::string, double>); break; case 5: R(std::tuple<bool, char, long, unsigned, std::vector<std::string>>); break;
    case 6: R(std::tuple<std::tuple<>, std::tuple<int, std::tuple<double, char>>>); break; case 7: R(std::pair<std::pair<int, int>, std::tuple<int, int>>); break; case 8: R(std::vector<std::tuple<int, D>>); break; case 9: R(std::vector<std::pair<std::string, Nest>>); break; case 10: R(std::map<std::pair<int, int>, std::tuple<std::string>>); break; default: R(std::tuple<int, int, int, int, int, int, int, int>); break;
    }
}
