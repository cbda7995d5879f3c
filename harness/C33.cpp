// C33: HTML logs hold exactly the recorded variables.
#include "C33.h"
void c33_check(vh::Case& c, const std::string& path, const std::vector<Rec>& recs);
#define checkLog c33_check
static size_t count(const std::string& t, const std::string& w) { size_t n = 0; for (size_t p = t.find(w); p != t.npos; p = t.find(w, p + 1)) n++; return n; }
static J rows(vh::Case& c, const std::string& path, long n) { // the data of the page as the browser sees them
    std::string t; bool there = slurp(path, t);
    VH_CHECK(c, there, "missing", "the log " << path << " of " << n << " records does not exist");
    const std::string e = "];\ncopyData();\nshowData();\n</script>\n</body>\n</html>\n";
    VH_CHECK(c, t.compare(0, 6, "<html>") == 0 && t.size() > e.size() && t.compare(t.size() - e.size(), e.size(), e) == 0, "form", "the page is not complete, it ends with " << t.substr(t.size() > 80 ? t.size() - 80 : 0));
    size_t s = t.find("data = [", t.rfind("<script", t.size() - e.size())); VH_CHECK(c, s != t.npos, "form", "the page has no data"); s += 7;
    std::string body = t.substr(s, t.size() - e.size() + 1 - s), low = body; for (char& ch : low) ch = char(tolower((unsigned char)ch));
    VH_CHECK(c, low.find("</script") == low.npos && low.find("<!--") == low.npos, "script", "the data end the script: " << body.substr(0, 300));
    VH_CHECK(c, count(t, "</script>") == 2 && count(t, "<script") == 2, "script", "the page has other than two scripts");
    Parser p{body, 0, body.size(), true}; J j; try { j = p.document(); } catch (const std::exception& x) { c.abortCase("invalid", std::string("the data are not valid: ") + x.what()); }
    return j;
}
void c33_check(vh::Case& c, const std::string& path, const std::vector<Rec>& recs) {
    J l = rows(c, path, long(recs.size()));
    VH_CHECK(c, l.k == J::array && l.a.size() == recs.size(), "count", "the log has " << l.a.size() << " records, recorded were " << recs.size());
    std::string last; long lastG = -1;
    for (size_t i = 0; i < recs.size(); i++) {
        const J& r = l.a[i]; const Rec& e = recs[i];
        VH_CHECK(c, r.k == J::array && r.a.size() == 5, "record", "record " << i << " has not five items");
        VH_CHECK(c, r.a[3].k == J::text && r.a[3].s == e.name, "name", "record " << i << " of variable " << e.name << " is named " << r.a[3].s);
        VH_CHECK(c, e.same(r.a[4]), "data", "record " << i << " of variable " << e.name << " differs from the value " << e.text);
        VH_CHECK(c, r.a[2].k == J::text && r.a[2].s == e.file && r.a[1].k == J::number && r.a[1].s == vh::str(e.line), "place", "record " << i << " from " << e.file << ":" << e.line << " reads " << r.a[2].s << ":" << r.a[1].s);
        std::string g = r.a[0].s; VH_CHECK(c, r.a[0].k == J::number && atol(g.c_str()) >= 0 && (lastG < 0 || (e.group == lastG ? g == last : atol(g.c_str()) > atol(last.c_str()))), "group", "record " << i << " of call " << e.group << " (previous " << lastG << ") has group " << g << " after " << last);
        last = g; lastG = e.group; c.ev("records");
    }
    c.ev("logs"); if (recs.empty()) c.ev("empty logs");
}
// ---- histories: the model holds the records of every file
struct Model { std::map<std::string, std::vector<Rec>> files; std::string open; std::string first; long group = 0; bool isOpen = false; };
void c33_put(Put& p); void c33_put2(Put& p);
VH_SECTION(histories, 4000, 60000) {
    Model m; std::string d; auto path = [&](int i) { return c.scratch + "/h" + std::to_string(c.index) + "_" + std::to_string(i) + ".html"; };
    m.first = path(0);
    StreamCapture quiet(std::cerr);
    { // older content of the files must disappear
        for (int i = 0; i < 3; i++) if (c.rng.chance(0.5)) std::ofstream(path(i).c_str()) << "old content ]}" << std::string(3000, 'x');
        bool named = c.rng.chance(0.7); std::unique_ptr<HtmlLogger> l(named ? new HtmlLogger(m.first.c_str()) : new HtmlLogger());
        auto rec = [&]() -> std::vector<Rec>& { if (!m.isOpen) { m.isOpen = true; m.open = m.first; m.files[m.open].clear(); } return m.files[m.open]; };
        long n = c.rng.range(1, 14);
        for (long k = 0; k < n; k++) switch (c.rng.below(9)) {
        case 0: { std::string f = path(int(c.rng.below(3))); d += " create" + f.substr(f.size() - 6, 1); l->create(f.c_str()); m.open = f; m.isOpen = true; m.files[f].clear(); break; }
        case 1: { d += " destroy"; bool was = m.isOpen; l->destroy(); m.isOpen = false; if (was) checkLog(c, m.open, m.files[m.open]); if (c.rng.chance(0.3)) { l->destroy(); d += "2"; } break; }
        default: if (!m.isOpen && !named) { l->create(m.first.c_str()); m.open = m.first; m.isOpen = true; m.files[m.first].clear(); }
            d += " write"; Put p{c, *l, rec(), m.group++, c.rng.chance(0.4)}; if (c.rng.chance(0.5)) c33_put(p); else c33_put2(p); }
        c.desc(d); l.reset();
    }
    for (auto& f : m.files) checkLog(c, f.first, f.second);
    { std::string t; if (!m.files.count(m.first)) { bool e = slurp(m.first, t); VH_CHECK(c, !e || t.compare(0, 3, "old") == 0, "unused", "a logger that recorded nothing wrote its file"); c.ev("unused logs"); } }
    for (int i = 0; i < 3; i++) unlink(path(i).c_str());
    uint64_t h = vh::hashStr(d); for (auto& f : m.files) for (auto& r : f.second) h = vh::hashStr(r.text + r.name, h); c.distinct(h); c.ev("histories");
}
// ---- known limitations of the format, each in its own process
template<class T> static void probe(vh::Case& c, const T& v, const char* kind) {
    StreamCapture quiet(std::cerr); std::string f = c.scratch + "/probe.html"; { HtmlLogger l(f.c_str()); l.writeVar(1, "f", "v", v); }
    c.ev("probes"); std::string why; bool ok = true; std::string t; slurp(f, t); size_t s = t.rfind("data = [") + 7, n = t.rfind("];") + 1; std::string b = t.substr(s, n - s); unlink(f.c_str());
    Parser p{b, 0, b.size(), true}; try { p.document(); } catch (const std::exception& e) { ok = false; why = e.what(); }
    VH_CHECK(c, ok, kind, "log with " << kind << ": " << why);
}
VH_SECTION(probe_inf, 3, 3) { double v = c.index ? -INFINITY : NAN; probe(c, v, "nonfinite"); }
VH_SECTION(probe_unknown, 3, 3) { ve::Pod v{1, {2, 3, 4, 5}}; probe(c, v, "unknown-type"); }
