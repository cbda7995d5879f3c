// The debug macros.
#include "C31.h"
#include <sys/wait.h>
#include <GTMesh/Debug/Debug.h>
using namespace cl;
#define ARGS40(m) m(0), m(1), m(2), m(3), m(4), m(5), m(6), m(7), m(8), m(9), m(10), m(11), m(12), m(13), m(14), m(15), m(16), m(17), m(18), m(19), m(20), m(21), m(22), m(23), m(24), m(25), m(26), m(27), m(28), m(29), m(30), m(31), m(32), m(33), m(34), m(35), m(36), m(37), m(38), m(39)
struct Once { vh::Case& c; long n = 0, want = 0; int operator()(int v) { n++; return v; } };
int c31_undebug(int& evaluated, int& code); // in C31c.cpp
void c31_other(int v); int c31_otherLine(); extern const char* c31_otherFile;
static void thrower(int how) { if (how == 1) throw std::runtime_error("reason \"r\""); if (how == 2) throw std::out_of_range("range"); }
VH_SECTION(macros, 4000, 60000) {
    ConsoleLogger& l = dbg::getDebugConsoleLogger(); VH_CHECK(c, &l == &dbg::getDebugConsoleLogger(), "singleton", "two debug console loggers");
    Cfg cfg; if (c.rng.chance(0.8)) { cfg = rndCfg(c.rng); set(l, cfg); } else l.reset();
    int i = int(c.rng.range(-99, 99)); std::string s; g(c.rng, s); double x = c.rng.real(-1, 1); D o; g(c.rng, o); std::vector<int> v; g(c.rng, v); bool b = c.rng.chance(0.5); int k[40]; for (int& q : k) q = int(c.rng.range(-9, 9)); Once f{c};
    std::string file = __FILE__, fn = __func__, e, eo, d; int ln = 0; c.ev("sequences");
    StreamCapture cap(std::cerr); Capture out(1);
    for (long n = c.rng.range(1, 10); n > 0; n--) { int op = int(c.rng.below(17)); d += " " + std::to_string(op); c.desc("macros" + d);
        switch (op) {
        case 0: ln = __LINE__; DBGVAR(i); e += vars(cfg, ln, fn, file, {{"i", tx(i)}}); break;
        case 1: ln = __LINE__; DBGVAR(i + 1, s, (std::pair<int, double>(i, x))); e += vars(cfg, ln, fn, file, {{"i + 1", tx(i + 1)}, {"s", tx(s)}, {"(std::pair<int, double>(i, x))", tx(std::make_pair(i, x))}}); break;
        case 2: ln = __LINE__; DBGVARCOND(b, o, f(3)); f.want += b; if (b) e += vars(cfg, ln, fn, file, {{"o", tx(o)}, {"f(3)", "3"}}); break;
        case 3: ln = __LINE__; DBGMSG("message", i, s); e += msgs(cfg, "++", ln, fn, file, {ve::quoted("message"), tx(i), tx(s)}); break;
        case 4: ln = __LINE__; DBGCHECK; e += msgs(cfg, "--", ln, fn, file, {ve::quoted("check line")}); break;
        case 5: { int done = 0; DBGTRY(done += f(2); thrower(0)); f.want++; VH_CHECK(c, done == 2, "try", "the code of DBGTRY ran with result " << done); break; }
        case 6: ln = __LINE__; DBGVAR_STDIO(i, s, v); eo += varsC(ln, fn, file, {{"i", tx(i)}, {"s", tx(s)}, {"v", tx(v)}}); break;
        case 7: ln = __LINE__; DBGVARCOND_STDIO(b, f(7), x); f.want += b; if (b) eo += varsC(ln, fn, file, {{"f(7)", "7"}, {"x", tx(x)}}); break;
        case 8: ln = __LINE__; DBGCHECK_STDIO; eo += msgsC("--", ln, fn, file, {ve::quoted("check line")}); break;
        case 9: { bool other = false; if (b) DBGVARCOND(false, f(1)); else other = true; if (b) DBGVARCOND_STDIO(false, f(1)); else other = other && true; VH_CHECK(c, other == !b, "else", "the else branch was taken by the macro"); break; }
#define K(n) k[n]
        case 10: { ln = __LINE__; DBGVAR(ARGS40(K)); NV nv; for (int q = 0; q < 40; q++) nv.push_back({"k[" + std::to_string(q) + "]", tx(k[q])}); e += vars(cfg, ln, fn, file, nv); break; }
        case 11: { ln = __LINE__; DBGVAR_STDIO(ARGS40(K)); NV nv; for (int q = 0; q < 40; q++) nv.push_back({"k[" + std::to_string(q) + "]", tx(k[q])}); eo += varsC(ln, fn, file, nv); break; }
        case 12: for (int q = 0; q < 3; q++) { ln = __LINE__; DBGVARCOND(q == 1, q); } e += vars(cfg, ln, fn, file, {{"q", "1"}}); break;
        case 13: { [&] { fn = __func__; ln = __LINE__; DBGVAR(x); }(); e += vars(cfg, ln, fn, file, {{"x", tx(x)}}); fn = __func__; break; }
        case 14: { int ev = 0, code = 0; int r = c31_undebug(ev, code); VH_CHECK(c, ev == 0 && code == 2 && r == 5, "undebug", "with UNDEBUG the macros evaluated " << ev << " arguments, ran " << code << " of 2 codes and returned " << r); c.ev("undebug"); break; }
        case 15: c31_other(i); e += vars(cfg, c31_otherLine(), "c31_other", c31_otherFile, {{"v", tx(i)}}); break; // another unit shares the settings
        default: ln = __LINE__; DBGVAR(f(9)); f.want++; e += vars(cfg, ln, fn, file, {{"f(9)", "9"}}); break;
        }
        c.ev("macros"); }
    std::string g1 = cap.stop(), g2 = out.stop(); c.distinct(vh::hashStr(e + eo));
    VH_CHECK(c, g1 == e, "console", "the macros printed\n" << g1 << "expected\n" << e); VH_CHECK(c, g2 == eo, "stdout", "the macros printed\n" << g2 << "expected\n" << eo);
    VH_CHECK(c, f.n == f.want, "evaluation", "arguments evaluated " << f.n << " times, expected " << f.want);
    VH_CHECK(c, same(l, cfg), "settings", "the macros changed the settings"); l.reset();
}
VH_SECTION(dbgtry, 24, 300) { // an exception ends the program with status 1 after the message
    int how = 1 + int(c.index % 2), ln = 0; std::string path = c.scratch + "/try" + std::to_string(c.index); Cfg cfg = rndCfg(c.rng); c.distinct(uint64_t(c.index)); std::string fn = __func__;
    FILE* tmp = fopen(path.c_str(), "w"); pid_t p = fork(); ln = __LINE__ + 2;
    if (p == 0) { dup2(fileno(tmp), 2); set(dbg::getDebugConsoleLogger(), cfg);
        DBGTRY(thrower(how); _exit(7)); _exit(8); }
    int st = 0; waitpid(p, &st, 0); fclose(tmp); std::ifstream in(path.c_str()); std::ostringstream t; t << in.rdbuf(); unlink(path.c_str()); c.ev("failures");
    VH_CHECK(c, WIFEXITED(st) && WEXITSTATUS(st) == 1, "status", "after an exception the program ended with status " << st);
    std::string e = msgs(cfg, "!!", ln, fn, __FILE__, {ve::quoted(std::string("something went wrong in try block: ") + (how == 1 ? "reason \"r\"" : "range"))});
    VH_CHECK(c, t.str() == e, "message", "after an exception the program printed\n" << t.str() << "expected\n" << e);
}
