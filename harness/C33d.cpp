// The HTML debug macros: the log is completed at the end of the program.
#include "C33.h"
#include <fcntl.h>
#include <sys/wait.h>
#include <GTMesh/Debug/Debug.h>
void c33_check(vh::Case& c, const std::string& path, const std::vector<Rec>& recs);
#define ARGS40(m) m(0), m(1), m(2), m(3), m(4), m(5), m(6), m(7), m(8), m(9), m(10), m(11), m(12), m(13), m(14), m(15), m(16), m(17), m(18), m(19), m(20), m(21), m(22), m(23), m(24), m(25), m(26), m(27), m(28), m(29), m(30), m(31), m(32), m(33), m(34), m(35), m(36), m(37), m(38), m(39)
VH_SECTION(macros, 48, 600) {
    std::string dir = c.scratch + "/m" + std::to_string(c.index); std::vector<Rec> recs; long group = 0; int used = 0;
    (void)!system(("mkdir -p '" + dir + "'").c_str());
    int i = int(c.rng.range(-1000, 1000)); std::string s; ve::g(c.rng, s); std::vector<double> v = rnd<std::vector<double>>(c.rng); ve::Nest o = rnd<ve::Nest>(c.rng); bool b = c.rng.chance(0.5); long k[40]; for (int q = 0; q < 40; q++) k[q] = c.rng.range(-99, 99);
    std::vector<int> ops; for (long n = c.rng.range(1, 8); n > 0; n--) ops.push_back(int(c.rng.below(7)));
    std::string file = __FILE__; auto add = [&](int line, const std::vector<Rec>& r) { for (Rec x : r) { x.group = group; x.line = line; x.file = file; recs.push_back(x); } group++; used++; };
    auto nr = [](const char* n, const auto& x) { return rec(0, 0, "", n, x); };
    pid_t p = fork(); if (p == 0) { int nul = open("/dev/null", 1); dup2(nul, 2); } if (p == 0) if (chdir(dir.c_str())) _exit(3);
    int line = 0, calls = 0, want = 0; auto f = [&]() { calls++; return i + 2; };
    for (int op : ops) switch (op) {
    case 0: line = __LINE__; if (p == 0) DBGVAR_HTML(i); else add(line, {nr("i", i)}); break;
    case 1: line = __LINE__; if (p == 0) DBGVAR_HTML(s, i + 1, v); else add(line, {nr("s", s), nr("i + 1", i + 1), nr("v", v)}); break;
    case 2: line = __LINE__; if (p == 0) DBGVAR_HTML(s + "\"quoted\\\"" + 'c', o); else add(line, {nr("s + \"\\\"quoted\\\\\\\"\" + 'c'", s + "\"quoted\\\"" + 'c'), nr("o", o)}); break;
    case 3: line = __LINE__; if (p == 0) DBGVARCOND_HTML(b, o.d, (std::pair<std::string, int>("k", 1))); else if (b) add(line, {nr("o.d", o.d), nr("(std::pair<std::string, int>(\"k\", 1))", std::pair<std::string, int>("k", 1))}); break;
    case 4: line = __LINE__; if (p == 0) { DBGVAR_HTML(f(), "literal\n"); want++; } else { char lit[] = "literal\n"; add(line, {nr("f()", i + 2), nr("\"literal\\n\"", std::string(lit))}); } break;
    case 5: { line = __LINE__ + 1;
        if (p == 0) { if (b) DBGVARCOND_HTML(!b, f()); else i++; if (!b) i--; } break; }
    default: line = __LINE__ + 2;
#define K(n) k[n]
        if (p == 0) DBGVAR_HTML(ARGS40(K)); else { std::vector<Rec> r; for (int q = 0; q < 40; q++) r.push_back(nr(("k[" + std::to_string(q) + "]").c_str(), k[q])); add(line, r); } break;
    }
    if (p == 0) { if (calls != want) _exit(4); exit(0); }
    int st = 0; waitpid(p, &st, 0); std::string path = dir + "/DBG.html", t; bool there = slurp(path, t);
    int ex = WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
    std::string d; for (int op : ops) d += std::to_string(op); c.desc("macros " + d); uint64_t h = vh::hashStr(d); for (auto& r : recs) h = vh::hashStr(r.text, h); c.distinct(h);
    VH_CHECK(c, ex != 4, "evaluation", "a macro evaluated its arguments another number of times than once"); VH_CHECK(c, ex == 0, "program", "the logging program ended with " << ex);
    if (used) c33_check(c, path, recs); else VH_CHECK(c, !there, "unused", "a log was created without any record");
    c.ev("macro records", recs.size()); unlink(path.c_str()); rmdir(dir.c_str());
}
