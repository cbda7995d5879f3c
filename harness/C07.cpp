// Truncated and malformed mesh files are rejected by an exception, or give a mesh whose references stay inside it.
#define UNDEBUG
#include "io.h"
#include "bignew.h"
#include <unistd.h>
#if defined(VH_SAN)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#endif
struct File { std::string text; size_t need; int kind; }; // need: offset of the last token the mesh depends on; kind 0 VTK 2D, 1 VTK 3D, 2 FPMA
static size_t lastToken(const std::string& t, size_t end) { size_t e = t.find_last_not_of(" \t\r\n", end - 1); return t.find_last_of(" \t\r\n", e) + 1; }
static File make(vh::Case& c) {
    Fmt f = randomFmt(c.rng); File x; x.kind = static_cast<int>(c.rng.below(3));
    if (x.kind == 0) { Std2 s = randomStd2(c.rng); x.text = vtkText<2>(c.rng, f, s.v, s.cells, s.types); x.need = lastToken(x.text, x.text.size()); }
    else if (x.kind == 1) { Std3 s = randomStd3(c.rng); if (s.cells.size() > 40) { s.cells.resize(40); s.types.resize(40); } x.text = vtkText<3>(c.rng, f, s.v, s.cells, s.types); x.need = lastToken(x.text, x.text.size()); }
    else { Ref<3> r = random3(c.rng); x.text = fpmaText(c.rng, f, r); x.need = lastToken(x.text, lastToken(x.text, x.text.size())); } // the last section of the file is not read
    return x;
}
template<class M, class R> void inRange(vh::Case& c, const M& m, R& rd, int kind) {
    typedef typename std::decay<decltype(m.getVertices()[0].getIndex())>::type IT; auto in = [](IT i, size_t n) { return static_cast<size_t>(i) < n; };
    for (size_t i = 0; i < m.getVertices().size(); i++) VH_CHECK(c, in(m.getVertices()[i].getIndex(), m.getVertices().size()) && static_cast<size_t>(m.getVertices()[i].getIndex()) == i, "bad-reference", "index of vertex " << i);
    for (auto& e : m.getEdges()) VH_CHECK(c, in(e.getVertexAIndex(), m.getVertices().size()) && in(e.getVertexBIndex(), m.getVertices().size()), "bad-reference", "edge " << e.getIndex() << " refers to a missing vertex");
    for (auto& f : m.getFaces()) { for (IT x : {f.getCellLeftIndex(), f.getCellRightIndex()}) VH_CHECK(c, x == INVALID_INDEX(IT) || in(x, m.getCells().size()), "bad-reference", "face " << f.getIndex() << " refers to a missing cell"); for (IT x : {f.getNextBElemWRTCL(), f.getNextBElemWRTCR()}) VH_CHECK(c, x == INVALID_INDEX(IT) || in(x, m.getFaces().size()), "bad-reference", "face " << f.getIndex() << " refers to a missing face"); }
    for (auto& k : m.getCells()) VH_CHECK(c, k.getBoundaryElementIndex() == INVALID_INDEX(IT) || in(k.getBoundaryElementIndex(), m.getFaces().size()), "bad-reference", "cell " << k.getIndex() << " refers to a missing face");
    VH_CHECK(c, rd.getCellTypes().template getDataByPos<0>().size() == m.getCells().size(), "type-count", "number of cell types"); (void)kind;
}
template<class M> void edgeRange3(vh::Case& c, const M& m) { for (auto& f : m.getFaces()) for (auto s : f.getSubelements()) VH_CHECK(c, static_cast<size_t>(s) < m.getEdges().size(), "bad-reference", "face " << f.getIndex() << " refers to a missing edge"); }
// true if accepted
template<class IT, class Real, unsigned... Res> bool load(vh::Case& c, const std::string& t, int kind) {
    std::istringstream in(t);
    try {
        if (kind == 0) { UnstructuredMesh<2, IT, Real> m; VTKMeshReader<2> rd; rd.loadFromStream(in, m); inRange(c, m, rd, kind); }
        else if (kind == 1) { UnstructuredMesh<3, IT, Real, Res...> m; VTKMeshReader<3> rd; rd.loadFromStream(in, m); inRange(c, m, rd, kind); edgeRange3(c, m); }
        else { UnstructuredMesh<3, IT, Real, Res...> m; FPMAMeshReader<3> rd; rd.loadFromStream(in, m); inRange(c, m, rd, kind); edgeRange3(c, m); }
        c.ev("accepted"); return true;
    } catch (const vh::CaseFail&) { throw; } catch (const std::exception&) { c.ev("rejected"); return false; }
}
static bool any(vh::Case& c, const std::string& t, int kind) {
    switch (c.rng.below(3)) { case 0: return load<size_t, double>(c, t, kind); case 1: return load<int, float, 12>(c, t, kind); default: return load<unsigned int, double, 64>(c, t, kind); }
}
VH_SECTION(truncated, 250, 4000) {
    File f = make(c); c.distinct(vh::hashStr(f.text)); c.desc(f.text); c.sample(f.text.substr(0, 120)); VH_CHECK(c, (load<size_t, double>(c, f.text, f.kind)), "valid-rejected", "a complete file was rejected");
    std::set<size_t> cuts; size_t head = f.text.find(f.kind == 2 ? "\n" : "CELLS"); if (f.need < 600) for (size_t i = 0; i <= f.need; i++) cuts.insert(i); for (int i = 0; i < 60; i++) cuts.insert(c.rng.below(f.need + 1)); for (int i = 0; i < 20; i++) cuts.insert(c.rng.below(std::min(head, f.need) + 1)); for (size_t i = f.need > 40 ? f.need - 40 : 0; i <= f.need; i++) cuts.insert(i);
    for (size_t k : cuts) { std::string t = f.text.substr(0, k); c.desc(t); VH_CHECK(c, !any(c, t, f.kind), "truncated-accepted", "a file cut after " << k << " of " << f.text.size() << " bytes (the last needed value starts at " << f.need << ") was accepted, kind " << f.kind); }
    c.ev("truncations", cuts.size());
}
struct Tok { size_t b, e; };
static std::vector<Tok> tokens(const std::string& t, size_t from) { std::vector<Tok> r; size_t i = from; while (true) { i = t.find_first_not_of(" \t\r\n", i); if (i == t.npos) break; size_t e = t.find_first_of(" \t\r\n", i); if (e == t.npos) e = t.size(); r.push_back({i, e}); i = e; } return r; }
// any damage: no crash, no dangling reference
VH_SECTION(mutated, 400, 7000) {
    File f = make(c); c.distinct(vh::hashStr(f.text)); static const std::vector<std::string> W{"-1", "x", "1e999", "nan", "0", "1", "3", "4", "5", "6", "8", "100000", "9223372036854775807", "18446744073709551615", "18446744073709551616", "-9223372036854775808", "1.5", "+2", "0x10", "1e2", "POINTS", "CELLS", "CELL_TYPES", "#", "2;3", "\xff\xfe", "--", "42", "12", "7", "255"};
    for (int k = 0; k < 30; k++) {
        std::string t = f.text; int n = static_cast<int>(1 + c.rng.below(2)); std::string what;
        for (; n; n--) { auto tk = tokens(t, 0); if (tk.empty()) break; Tok q = tk[c.rng.chance(.3) ? c.rng.below(std::min<size_t>(tk.size(), 16)) : c.rng.below(tk.size())];
            switch (c.rng.below(6)) { case 0: what += "delete " + t.substr(q.b, q.e - q.b); t.erase(q.b, q.e - q.b); break; case 1: what += "repeat"; t.insert(q.e, " " + t.substr(q.b, q.e - q.b)); break; case 2: { Tok p = tk[c.rng.below(tk.size())]; std::string a = t.substr(p.b, p.e - p.b); what += "copy token " + a; t.replace(q.b, q.e - q.b, a); break; }
                case 3: { size_t i = c.rng.below(t.size()); t[i] = static_cast<char>(c.rng.chance(.5) ? '0' + static_cast<int>(c.rng.below(10)) : static_cast<int>(c.rng.below(256))); what += "byte"; break; }
                default: { const std::string& w = c.rng.pick(W); what += "replace by " + w; t.replace(q.b, q.e - q.b, w); } }
            what += "; "; }
        c.desc(what + "\n" + t); any(c, t, f.kind); c.ev("mutations");
    }
}
// damage that must be noticed
VH_SECTION(rejected, 300, 5000) {
    File f = make(c); c.distinct(vh::hashStr(f.text)); std::string t = f.text, what; size_t n;
    auto swapTok = [&](const std::string& a, const std::string& b) { size_t p = t.rfind(a); t.replace(p, a.size(), b); what = a + " -> " + b; };
    auto count = [&](const std::string& kw) { std::istringstream s(f.text.substr(f.text.rfind(kw) + kw.size())); size_t k = 0; s >> k; return k; };
    if (f.kind < 2) {
        size_t np = count("\nPOINTS"), nc = count("CELLS"); size_t cells = t.rfind("CELLS"), types = t.rfind("CELL_TYPES"); auto ct = tokens(t, cells); auto tt = tokens(t, types);
        switch (c.rng.below(f.kind == 1 ? 10 : 9)) {
        case 9: { // a 3D cell of an unsupported number of vertices
            size_t i = 3, k = c.rng.below(nc); for (size_t q = 0; q < k; q++) i += 1 + static_cast<size_t>(atol(t.c_str() + ct[i].b)); size_t m = static_cast<size_t>(atol(t.c_str() + ct[i].b)), w = c.rng.pick(std::vector<size_t>{1, 2, 3, 5, 7, 9, 10, 12, 27}); if (w == 5) w = 7;
            std::string r = std::to_string(w); for (size_t q = 0; q < w; q++) r += " " + std::to_string(q < m ? static_cast<size_t>(atol(t.c_str() + ct[i + 1 + q].b)) : c.rng.below(np)); t.replace(ct[i].b, ct[i + m].e - ct[i].b, r); what = "cell of " + r.substr(0, 2) + " vertices"; break; }
        case 0: swapTok("\nASCII", c.rng.pick(std::vector<std::string>{"\nBINARY", "\nXML", "\nASC", "\nASCIIX", "\nTEXT", "\n0"})); break; case 1: swapTok("DATASET", "DATASETS"); break; case 2: swapTok("UNSTRUCTURED_GRID", c.rng.pick(std::vector<std::string>{"STRUCTURED_GRID", "POLYDATA", "RECTILINEAR_GRID", "STRUCTURED_POINTS", "FIELD", "UNSTRUCTURED", "GRID"})); break;
        case 3: swapTok("\nPOINTS", "\nPONTS"); break; case 4: swapTok("CELLS", "CELS"); break; case 5: swapTok("CELL_TYPES", "TYPES"); break;
        case 6: { Tok q = tt[2 + c.rng.below(nc)]; std::string w = c.rng.pick(std::vector<std::string>{"0", "1", "2", "4", "6", "15", "42", "-5", "x", "99999999999"}); t.replace(q.b, q.e - q.b, w); what = "cell type " + w; break; }
        case 7: { std::string w = std::to_string(c.rng.chance(.5) ? nc + 1 + c.rng.below(3) : nc - 1); t.replace(tt[1].b, tt[1].e - tt[1].b, w); what = "number of types " + w; break; }
        default: { // an index of a missing vertex
            size_t i = 3, k = c.rng.below(nc); for (size_t q = 0; q < k; q++) i += 1 + static_cast<size_t>(atol(t.c_str() + ct[i].b)); size_t m = static_cast<size_t>(atol(t.c_str() + ct[i].b)); Tok q = ct[i + 1 + c.rng.below(m)]; std::string w = c.rng.pick(std::vector<std::string>{std::to_string(np), std::to_string(np + 7), "4000000", "-1", "y", "1000000000000000000000"}); t.replace(q.b, q.e - q.b, w); what = "vertex " + w + " of " + std::to_string(np); }
        }
    } else {
        auto tk = tokens(t, 0); size_t nv = static_cast<size_t>(atol(t.c_str())), i = 1 + 3 * nv, nf = static_cast<size_t>(atol(t.c_str() + tk[i].b)); size_t lists = i + 1, sel = c.rng.below(nf); i++; size_t fpos = 0;
        for (size_t k = 0; k < nf; k++) { size_t m = static_cast<size_t>(atol(t.c_str() + tk[i].b)); if (k == sel) fpos = i + 1 + c.rng.below(m); i += m + 1; } size_t nc = static_cast<size_t>(atol(t.c_str() + tk[i].b)), cpos = 0; i++; sel = c.rng.below(nc); for (size_t k = 0; k < nc; k++) { size_t m = static_cast<size_t>(atol(t.c_str() + tk[i].b)); if (k == sel) cpos = i + 1 + c.rng.below(m); i += m + 1; } (void)lists; (void)n;
        bool cell = c.rng.chance(.5); size_t lim = cell ? nf : nv; Tok q = tk[cell ? cpos : fpos]; std::string w = c.rng.pick(std::vector<std::string>{std::to_string(lim), std::to_string(lim + 9), "4000000", "-1", "z", "1000000000000000000000"}); t.replace(q.b, q.e - q.b, w); what = (cell ? "face " : "vertex ") + w + " of " + std::to_string(lim);
    }
    c.desc(what + "\n" + t); c.sample(what); VH_CHECK(c, !any(c, t, f.kind), "malformed-accepted", "a malformed file was accepted: " << what << ", kind " << f.kind); c.ev("malformed files");
}
// a failed load from a path releases everything
VH_SECTION(leaks, 40, 300) {
    File f = make(c); c.distinct(vh::hashStr(f.text)); std::string p = c.scratch + (f.kind == 2 ? "/t.fpma" : "/t.vtk"); { std::ofstream o(p, std::ios::binary); o << f.text.substr(0, c.rng.below(f.need)); }
    auto once = [&]() { bool thrown = false; try { if (f.kind == 0) { UnstructuredMesh<2, size_t, double> m; m.load(p); } else { UnstructuredMesh<3, size_t, double> m; m.load(p); } } catch (const std::exception&) { thrown = true; } VH_CHECK(c, thrown, "truncated-accepted", "a truncated file was loaded"); };
    once(); once();
#if defined(VH_SAN)
    size_t a = __sanitizer_get_current_allocated_bytes(); for (int i = 0; i < 4; i++) once(); size_t b = __sanitizer_get_current_allocated_bytes(); VH_CHECK(c, b < a + 200, "leak", "four failed loads left " << b - a << " bytes allocated");
#endif
    c.ev("failed loads", 6); unlink(p.c_str());
}
