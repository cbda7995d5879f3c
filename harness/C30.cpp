// C30: JSON logs are valid JSON and hold exactly the recorded variables.
#include "C30.h"
void c30_check(vh::Case& c, const std::string& path, const std::vector<Rec>& recs);
#define checkLog c30_check
void c30_check(vh::Case& c, const std::string& path, const std::vector<Rec>& recs) {
    std::string t; bool there = slurp(path, t);
    VH_CHECK(c, there, "missing", "the log " << path << " of " << recs.size() << " records does not exist");
    J j; try { j = parse(t); } catch (const std::exception& e) { c.abortCase("invalid", std::string("the log is not valid JSON: ") + e.what()); }
    VH_CHECK(c, j.k == J::object && j.keys == std::vector<std::string>{"logs"} && j.a[0].k == J::array, "form", "the document is not {\"logs\":[...]}");
    const J& l = j.a[0];
    VH_CHECK(c, l.a.size() == recs.size(), "count", "the log has " << l.a.size() << " records, recorded were " << recs.size());
    std::string last; long lastG = -1;
    for (size_t i = 0; i < recs.size(); i++) {
        const J& r = l.a[i]; const Rec& e = recs[i];
        std::map<std::string, J> m; for (size_t k = 0; k < r.keys.size(); k++) m[r.keys[k]] = r.a[k];
        VH_CHECK(c, r.k == J::object && m.size() == r.keys.size() && m["expr"].k == J::text && m.count("data"), "record", "record " << i << " has not the expected members");
        VH_CHECK(c, m["expr"].s == e.name, "name", "record " << i << " of variable " << e.name << " is named " << m["expr"].s);
        VH_CHECK(c, e.same(m["data"]), "data", "record " << i << " of variable " << e.name << " differs from the value " << e.text);
        if (!e.full) { VH_CHECK(c, r.keys.size() == 2, "record", "record " << i << " has " << r.keys.size() << " members"); continue; }
        VH_CHECK(c, r.keys.size() == 5 && m["file"].k == J::text && m["file"].s == e.file && m["line"].k == J::number && m["line"].s == vh::str(e.line), "place", "record " << i << " from " << e.file << ":" << e.line << " reads " << m["file"].s << ":" << m["line"].s);
        VH_CHECK(c, m["gInd"].k == J::number && atol(m["gInd"].s.c_str()) >= 0 && (lastG < 0 || (e.group == lastG ? m["gInd"].s == last : atol(m["gInd"].s.c_str()) > atol(last.c_str()))), "group", "record " << i << " of call " << e.group << " (previous " << lastG << ") has group " << m["gInd"].s << " after " << last);
        last = m["gInd"].s; lastG = e.group; c.ev("records");
    }
    c.ev("logs"); if (recs.empty()) c.ev("empty logs");
}
// ---- histories: the model holds the records of every file
struct Model { std::map<std::string, std::vector<Rec>> files; std::string open; std::string first; long group = 0; bool isOpen = false; };
void c30_put(Put& p); void c30_put2(Put& p);
VH_SECTION(histories, 4000, 60000) {
    Model m; std::string d; auto path = [&](int i) { return c.scratch + "/h" + std::to_string(c.index) + "_" + std::to_string(i) + ".json"; };
    m.first = path(0);
    { // older content of the files must disappear
        for (int i = 0; i < 3; i++) if (c.rng.chance(0.5)) std::ofstream(path(i).c_str()) << "old content ]}" << std::string(3000, 'x');
        bool named = c.rng.chance(0.7); std::unique_ptr<JSONLogger> l(named ? new JSONLogger(m.first.c_str()) : new JSONLogger());
        auto rec = [&]() -> std::vector<Rec>& { if (!m.isOpen) { m.isOpen = true; m.open = m.first; m.files[m.open].clear(); } return m.files[m.open]; };
        long n = c.rng.range(1, 14);
        for (long k = 0; k < n; k++) switch (c.rng.below(9)) {
        case 0: { std::string f = path(int(c.rng.below(3))); d += " create" + f.substr(f.size() - 6, 1); l->create(f.c_str()); m.open = f; m.isOpen = true; m.files[f].clear(); break; }
        case 1: { d += " destroy"; bool was = m.isOpen; l->destroy(); m.isOpen = false; if (was) checkLog(c, m.open, m.files[m.open]); if (c.rng.chance(0.3)) { l->destroy(); d += "2"; } break; }
        default: if (!m.isOpen && !named) { l->create(m.first.c_str()); m.open = m.first; m.isOpen = true; m.files[m.first].clear(); }
            d += " write"; Put p{c, *l, rec(), m.group++, c.rng.chance(0.4)}; if (c.rng.chance(0.5)) c30_put(p); else c30_put2(p); }
        c.desc(d); l.reset();
    }
    for (auto& f : m.files) checkLog(c, f.first, f.second);
    { std::string t; if (!m.files.count(m.first)) { bool e = slurp(m.first, t); VH_CHECK(c, !e || t.compare(0, 3, "old") == 0, "unused", "a logger that recorded nothing wrote its file"); c.ev("unused logs"); } }
    for (int i = 0; i < 3; i++) unlink(path(i).c_str());
    uint64_t h = vh::hashStr(d); for (auto& f : m.files) for (auto& r : f.second) h = vh::hashStr(r.text + r.name, h); c.distinct(h); c.ev("histories");
}
// ---- known limitations of the format, each in its own process
template<class T> static void probe(vh::Case& c, const T& v, std::function<bool(const J&)> same, const char* kind) {
    std::string f = c.scratch + "/probe.json"; { JSONLogger l(f.c_str()); l.writeVar(1, "f", "v", v); }
    std::string t; slurp(f, t); unlink(f.c_str()); bool ok = false; std::string why = "other data";
    try { J j = parse(t); ok = same(j.a.at(0).a.at(0).a.at(4)); } catch (const std::exception& e) { why = e.what(); }
    c.ev("probes"); VH_CHECK(c, ok, kind, "log with " << kind << ": " << why);
}
VH_SECTION(probe_key, 3, 3) { std::map<int, int> v{{1, 2}, {3, 4}}; probe(c, v, [](const J& j) { return j.a.size() == 2; }, "number-key"); }
VH_SECTION(probe_inf, 3, 3) { double v = c.index ? -INFINITY : NAN; probe(c, v, [](const J&) { return true; }, "nonfinite"); }
VH_SECTION(probe_unknown, 3, 3) { ve::Pod v{1, {2, 3, 4, 5}}; probe(c, v, [](const J&) { return true; }, "unknown-type"); }
VH_SECTION(probe_pointer, 3, 3) { int i = 0; int* v = &i; probe(c, v, [](const J&) { return true; }, "pointer"); }
