// C34: the page of a HTML log shows and filters the recorded variables. The scripts of the page run in node on a minimal document (C34.js).
#include "json.h"
#include <GTMesh/Debug/HTMLLogger.h>
#include "capture.h"
#include <fstream>
using namespace js;
// JSON text of the recorded values, independent of the exporters
static std::string jt(const std::string& s) { std::string r = "\""; char b[8]; for (char ch : s) if (ch == '"' || ch == '\\') { r += '\\'; r += ch; } else if ((unsigned char)ch < 32) { snprintf(b, 8, "\\u%04x", ch); r += b; } else r += ch; return r + "\""; }
static std::string jt(const char* s) { return jt(std::string(s)); }
static std::string jt(bool b) { return b ? "true" : "false"; }
static std::string jt(int i) { return std::to_string(i); }
static std::string jt(double d) { std::ostringstream o; o.precision(17); o << d; return o.str(); }
template<class T> std::string jt(const std::vector<T>& v) { std::string r = "["; for (const auto& x : v) r += (r.size() > 1 ? "," : "") + jt(x); return r + "]"; }
static std::string jt(const std::map<std::string, int>& v) { std::string r = "["; for (const auto& x : v) r += (r.size() > 1 ? ",{" : "{") + jt(x.first) + ":" + jt(x.second) + "}"; return r + "]"; }
static std::string text(vh::Rng& g) { static const std::vector<std::string> parts{"<b>", "</td>", "&lt;", "&amp", "&", "\"", "'", "\\", "\n", "\t", "<", ">", "</script>", "<!--", "-->", "a", "value", " ", "x < y", "std::vector<int>", "1", "]", "];", "[", "{", "</table>", "&#60;", "%", "$&", "\\u003c", "+"}; std::string r; for (long n = g.range(0, 5); n > 0; n--) r += g.pick(parts); return r; }
struct Page { std::string path, rows, actions; size_t n = 0; };
VH_SECTION(pages, 120, 1500) {
    std::vector<Page> pages; StreamCapture quiet(std::cerr); uint64_t h = 0; std::string desc; std::string list = "[";
    for (int k = 0; k < 6; k++) {
        Page p; p.path = c.scratch + "/p" + std::to_string(k) + ".html"; std::vector<std::string> names{"a", "b", "val[0]", "i < n"}, files{"main.cpp", "/x/y.h"}; if (c.rng.chance(.7)) { names.push_back("n" + text(c.rng)); files.push_back("f" + text(c.rng)); }
        std::vector<int> lines{1, 2, 10, 11, 100000}; HtmlLogger l(p.path.c_str()); l.create(p.path.c_str()); int group = 0;
        auto row = [&](int ln, const std::string& f, const std::string& n, const std::string& v) { p.rows += (p.n++ ? "," : "") + ("[" + std::to_string(group) + "," + std::to_string(ln)) + "," + jt(f) + "," + jt(n) + "," + v + "]"; };
        size_t calls = c.rng.chance(.1) ? 0 : c.rng.below(14) + 1; if (c.rng.chance(.03)) calls = 200;
        for (size_t q = 0; q < calls; q++) {
            int ln = c.rng.pick(lines); const std::string f = c.rng.pick(files), n = c.rng.pick(names), n2 = c.rng.pick(names); int i = int(c.rng.range(-4, 4)), i2 = int(c.rng.range(-4, 12)); double d = double(c.rng.range(-12, 12)) / 4;
            switch (c.rng.below(8)) {
            case 0: l.writeVar(ln, f.c_str(), n.c_str(), i); row(ln, f, n, jt(i)); break;
            case 1: l.writeVar(ln, f.c_str(), n.c_str(), d); row(ln, f, n, jt(d)); break;
            case 2: l.writeVar(ln, f.c_str(), n.c_str(), i, n2.c_str(), d); row(ln, f, n, jt(i)); row(ln, f, n2, jt(d)); break;
            case 3: l.writeVar(ln, f.c_str(), n.c_str(), d, n2.c_str(), i, "b", i2); row(ln, f, n, jt(d)); row(ln, f, n2, jt(i)); row(ln, f, "b", jt(i2)); break;
            case 4: l.writeVar(ln, f.c_str(), n.c_str(), i, "a", i2, "val[0]", i2 * 2, "b", d); row(ln, f, n, jt(i)); row(ln, f, "a", jt(i2)); row(ln, f, "val[0]", jt(i2 * 2)); row(ln, f, "b", jt(d)); break;
            case 5: { std::string t = text(c.rng); l.writeVar(ln, f.c_str(), "t" + n, t); row(ln, f, "t" + n, jt(t)); break; } // filters compare numbers: texts have names of their own
            case 6: { std::vector<double> v; for (size_t e = c.rng.below(4); e > 0; e--) v.push_back(double(c.rng.range(-9, 9)) / 2); l.writeVar(ln, f.c_str(), "v" + n, v, n.c_str(), i); row(ln, f, "v" + n, jt(v)); row(ln, f, n, jt(i)); break; }
            default: { std::map<std::string, int> m; for (size_t e = c.rng.below(3); e > 0; e--) m["k" + text(c.rng)] = i; std::vector<std::string> s(c.rng.below(3), text(c.rng)); l.writeVar(ln, f.c_str(), "m" + n, m, "s", s); row(ln, f, "m" + n, jt(m)); row(ln, f, "s", jt(s)); break; }
            }
            group++;
        }
        l.destroy();
        int filters = 0; for (long n = c.rng.range(1, 14); n > 0; n--) { std::string a; switch (c.rng.below(6)) {
            case 0: a = "[\"line\"," + std::to_string(c.rng.chance(.4) ? -1 : c.rng.chance(.1) ? 7 : c.rng.pick(lines)) + "]"; break;
            case 1: if (filters > 12) continue; a = "[\"add\"]"; filters++; // a new filter is filled in
                a += ",[\"set\"," + std::to_string(filters - 1) + "," + std::to_string(c.rng.below(2)) + "," + jt(c.rng.pick(names)) + "," + std::to_string(c.rng.below(4)) + "," + jt(double(c.rng.range(-12, 12)) / 4) + "," + jt(double(c.rng.range(-4, 20)) / 4) + "]"; break;
            case 2: if (!filters) continue; a = "[\"set\"," + std::to_string(c.rng.below(uint64_t(filters))) + "," + std::to_string(c.rng.below(2)) + "," + jt(c.rng.pick(names)) + "," + std::to_string(c.rng.below(4)) + "," + jt(double(c.rng.range(-12, 12)) / 4) + "," + jt(double(c.rng.range(-4, 20)) / 4) + "]"; break;
            case 3: a = "[\"all\"]"; break;
            default: a = "[\"filter\"]"; }
            p.actions += (p.actions.empty() ? "" : ",") + a; }
        list += (k ? ",\n" : "") + ("{\"path\":" + jt(p.path)) + ",\"rows\":[" + p.rows + "],\"actions\":[" + p.actions + "]}"; h = vh::hashStr(p.rows + p.actions, h); pages.push_back(p);
    }
    list += "]"; c.desc(list); c.distinct(h); c.sample(pages[0].actions.substr(0, 200));
    std::string lf = c.scratch + "/jobs.json"; { std::ofstream o(lf.c_str()); o << list; }
    std::string dir = __FILE__; dir = dir.substr(0, dir.rfind('/')); FILE* p = popen(("node '" + dir + "/C34.js' '" + lf + "' 2>&1").c_str(), "r"); std::string out; char buf[4096]; size_t got; while ((got = fread(buf, 1, sizeof buf, p)) > 0) out.append(buf, got); int rc = pclose(p);
    if (rc) { fprintf(stdout, "C34.js failed: %s\n", out.substr(0, 2000).c_str()); return; } // no events: the check gives no answer
    std::istringstream in(out); std::string line; size_t k = 0;
    while (std::getline(in, line)) { std::istringstream w(line); std::string tag, kind; w >> tag; if (tag == "OK") { uint64_t a, b, d; w >> a >> b >> d; c.ev("pages"); c.ev("shown rows", a); c.ev("filters", b); c.ev("hidden rows", d); } else { w >> kind; std::string rest; std::getline(w, rest); c.abortCase(kind, "page " + std::to_string(k) + ":" + rest); } k++; }
    VH_CHECK(c, k == pages.size(), "harness", "node judged " << k << " pages"); for (auto& q : pages) unlink(q.path.c_str());
}
