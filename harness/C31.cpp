// C31: console output of variables and messages.
#include "C31.h"
using namespace cl;
template<class A, class B, class C> static void go(vh::Case& c) {
    A a{}; g(c.rng, a); B b{}; g(c.rng, b); C d{}; g(c.rng, d);
    Cfg cfg; ConsoleLogger l; VH_CHECK(c, same(l, cfg), "default", "a new logger has other than the default settings");
    if (c.rng.chance(0.8)) { cfg = rndCfg(c.rng); set(l, cfg); VH_CHECK(c, same(l, cfg), "settings", "getters do not return the settings"); }
    if (c.rng.chance(0.2)) { l.reset(); cfg = Cfg(); VH_CHECK(c, same(l, cfg), "reset", "reset does not restore the default settings"); c.ev("resets"); }
    ConsoleLogger l2 = l; { Cfg o = rndCfg(c.rng); set(l2, o); VH_CHECK(c, same(l, cfg) && same(l2, o), "settings", "settings of a copy changed the original"); }
    std::string f = file(c.rng), fn = fun(c.rng), n1 = word(c.rng), n2 = word(c.rng), n3 = word(c.rng); int line = int(c.rng.range(0, 99999)); std::string ta = tx(a), tb = tx(b), td = tx(d);
    c.desc(f + " " + ta + " " + tb + " " + td); c.distinct(vh::hashStr(ta + tb + td + f + n1 + cfg.ident, cfg.color + 2 * cfg.only + 4 * cfg.func + 8 * cfg.aggr));
    std::string e, got; long lines = 0;
    auto fl = std::cerr.flags(); auto pr = std::cerr.precision();
    { StreamCapture cap(std::cerr); Capture out(1); l.writeVariable(line, fn.c_str(), f.c_str(), n1.c_str(), a); e = vars(cfg, line, fn, f, {{n1, ta}}); VH_CHECK(c, cap.s.str() == e, "variable", "one variable printed as\n" << cap.s.str() << "expected\n" << e);
      l.writeVariable(line, fn.c_str(), f.c_str(), n1.c_str(), a, n2.c_str(), b, n3.c_str(), d); e += vars(cfg, line, fn, f, {{n1, ta}, {n2, tb}, {n3, td}}); VH_CHECK(c, cap.s.str() == e, "variables", "one and three variables printed as\n" << cap.s.str() << "expected\n" << e);
      l.writeMessage("++", line, fn.c_str(), f.c_str(), n2.c_str(), a, d); e += msgs(cfg, "++", line, fn, f, {ve::quoted(n2), ta, td}); VH_CHECK(c, cap.s.str() == e, "messages", "messages printed as\n" << cap.s.str() << "expected\n" << e);
      l.writeMessage("%s", line, fn.c_str(), f.c_str(), b); e += msgs(cfg, "%s", line, fn, f, {tb}); got = cap.stop(); VH_CHECK(c, got == e, "messages", "messages printed as\n" << got << "expected\n" << e);
      std::string o = out.stop(); VH_CHECK(c, o.empty(), "channel", "the console logger wrote to the standard output: " << o); }
    VH_CHECK(c, std::cerr.good() && std::cerr.flags() == fl && std::cerr.precision() == pr && std::cerr.fill() == ' ' && same(l, cfg), "state", "writing changed the stream or the settings");
    { StreamCapture cap(std::cerr); Capture out(1); ConsoleLogger::writeVarC(line, fn.c_str(), f.c_str(), n1.c_str(), a, n2.c_str(), b); ConsoleLogger::writeVarC(line, fn.c_str(), f.c_str(), n3.c_str(), d); ConsoleLogger::writeMessageC("--", line, fn.c_str(), f.c_str(), n2.c_str(), b, d); ConsoleLogger::writeMessageC("", line, fn.c_str(), f.c_str(), a);
      got = out.stop(); e = varsC(line, fn, f, {{n1, ta}, {n2, tb}, {n3, td}}) + msgsC("--", line, fn, f, {ve::quoted(n2), tb, td}) + msgsC("", line, fn, f, {ta}); VH_CHECK(c, got == e && cap.stop().empty(), "stdio", "the standard output has\n" << got << "expected\n" << e); }
    c.ev("outputs", 4); c.ev("stdio outputs", 4);
}
VH_SECTION(console, 6000, 100000) {
    switch (c.index % 10) {
    case 0: go<int, double, std::string>(c); break; case 1: go<std::vector<double>, bool, Nest>(c); break; case 2: go<Weird, char, std::map<std::string, D>>(c); break; case 3: go<const char*, E, std::tuple<int, std::string>>(c); break; case 4: go<std::string, std::string, std::string>(c); break;
    case 5: go<unsigned long, long long, float>(c); break; case 6: go<Cus, std::vector<std::vector<int>>, GS>(c); break; case 7: go<std::vector<bool>, std::pair<int, double>, std::set<int>>(c); break; case 8: go<Tm<std::string>, Vertex<3, double>, One>(c); break; default: go<Many, std::array<std::string, 3>, short>(c); break;
    }
}
