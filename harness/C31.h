#include "C29.h"
#include <cstdlib>
#include <GTMesh/Debug/ConsoleLogger.h>
namespace cl {
using namespace ve;
struct Cfg { bool color = true, only = false, func = true, aggr = true; std::string ident = "||     "; };
inline void set(ConsoleLogger& l, const Cfg& g) { l.setColoredOutput(g.color); l.setOnlyFliename(g.only); l.setPrintFunction(g.func); l.setPrintAggregated(g.aggr); l.setIdentation(g.ident); }
inline bool same(const ConsoleLogger& l, const Cfg& g) { return l.getColoredOutput() == g.color && l.getOnlyFilename() == g.only && l.getPrintFunction() == g.func && l.getPrintAggregated() == g.aggr && l.getIdentation() == g.ident; }
inline Cfg rndCfg(vh::Rng& r) { Cfg g; g.color = r.chance(0.5); g.only = r.chance(0.5); g.func = r.chance(0.5); g.aggr = r.chance(0.5); static const std::string id[] = {"", "    ", "||     ", "-> %s %d ", "\t"}; g.ident = id[r.below(5)]; return g; }
inline std::string base(const Cfg& g, const std::string& f) { size_t p = f.find_last_of('/'); return g.only && p != f.npos ? f.substr(p + 1) : f; }
inline std::string head(const Cfg& g, const std::string& pre, int line, const std::string& fn, const std::string& f) { return pre + base(g, f) + ":" + std::to_string(line) + (g.func ? " <" + fn + "> " : ""); }
inline std::string col(const Cfg& g, const char* c, const std::string& t) { return g.color ? std::string("\033[0;") + c + "m" + t + "\033[0m" : t; }
typedef std::vector<std::pair<std::string, std::string>> NV;
inline std::string vars(const Cfg& g, int line, const std::string& fn, const std::string& f, const NV& nv) {
    std::string r = g.aggr ? head(g, "== ", line, fn, f) + "\n" : "";
    for (auto& x : nv) r += (g.aggr ? g.ident : head(g, "== ", line, fn, f) + " ") + "[[ " + col(g, "33", x.first) + " ]] ==> " + col(g, "32", x.second) + "\n";
    return r;
}
inline std::string msgs(const Cfg& g, const std::string& pre, int line, const std::string& fn, const std::string& f, const std::vector<std::string>& t) { std::string r; for (auto& x : t) r += head(g, pre, line, fn, f) + "==> " + col(g, "31", x) + " <==\n"; return r; }
inline std::string varsC(int line, const std::string& fn, const std::string& f, const NV& nv) { std::string r; for (auto& x : nv) r += "== " + f + ": " + std::to_string(line) + " <" + fn + "> [[ " + x.first + " ]] ==> " + x.second + "\n"; return r; }
inline std::string msgsC(const std::string& pre, int line, const std::string& fn, const std::string& f, const std::vector<std::string>& t) { std::string r; for (auto& x : t) r += pre + " " + f + ": " + std::to_string(line) + " <" + fn + "> ==> " + x + " <==\n"; return r; }
inline std::string word(vh::Rng& r) { static const std::string w[] = {"x", "a.b[i]", "f(\"%s\", 1)", "\"%d\\n\"", "v + 1", "", "[[ odd ]] ==> ", "p->q"}; return w[r.below(8)]; }
inline std::string file(vh::Rng& r) { static const std::string w[] = {"main.cpp", "/home/u/p/src/main.cpp", "../x.h", "C:\\a\\b.cpp", "/", "dir/", "%s/%n.cpp", ""}; return w[r.below(8)]; }
inline std::string fun(vh::Rng& r) { static const std::string w[] = {"main", "operator()", "operator<", "f%s"}; return w[r.below(4)]; }
template<class T> std::string tx(const T& t) { return m(t, Fmt{6}); }
}
