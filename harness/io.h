// Independent VTK/FPMA text tools and the comparison of a GTMesh mesh with a reference mesh.
#ifndef VH_IO_H
#define VH_IO_H
#include "meshgen.h"
#include <fstream>
#include <iostream>
using namespace mg;

inline IV canonLoop(IV l) { // rotation/reflection invariant
    size_t n = l.size(); if (!n) return l; IV best;
    for (int d = 0; d < 2; d++) { for (size_t s = 0; s < n; s++) { IV t(n); for (size_t i = 0; i < n; i++) t[i] = l[(s + i) % n]; if (best.empty() || t < best) best = t; } std::reverse(l.begin(), l.end()); }
    return best;
}
// vertex loop of a set of edges; empty if they do not form exactly one cycle
inline IV loopOfEdges(const std::vector<std::pair<long, long>>& ed) {
    IV r; std::vector<char> used(ed.size(), 0); if (ed.size() < 3) return r;
    long first = ed[0].first, cur = ed[0].second; used[0] = 1; r.push_back(static_cast<int>(first));
    for (size_t k = 1; k < ed.size(); k++) {
        r.push_back(static_cast<int>(cur)); bool ok = false;
        for (size_t j = 0; j < ed.size(); j++) if (!used[j] && (ed[j].first == cur || ed[j].second == cur)) { cur = ed[j].first == cur ? ed[j].second : ed[j].first; used[j] = 1; ok = true; break; }
        if (!ok) return IV();
    }
    if (cur != first) return IV();
    std::set<int> s(r.begin(), r.end()); if (s.size() != r.size()) return IV();
    return r;
}
template<unsigned D, class M> void checkVerts(vh::Case& c, const M& m, const Ref<D>& r, double tol) {
    VH_CHECK(c, m.getVertices().size() == r.v.size(), "vertex-count", "the mesh has " << m.getVertices().size() << " vertices, expected " << r.v.size());
    for (size_t i = 0; i < r.v.size(); i++) {
        VH_CHECK(c, static_cast<size_t>(m.getVertices()[i].getIndex()) == i, "vertex-index", "vertex " << i << " has index " << m.getVertices()[i].getIndex());
        for (unsigned k = 0; k < D; k++) { double a = static_cast<double>(m.getVertices()[i][k]), b = r.v[i][k]; VH_CHECK(c, tol == 0 ? a == b : std::fabs(a - b) <= tol * std::max(std::fabs(b), 1e-300) + 0, "vertex-coordinate", "coordinate " << k << " of vertex " << i << " is " << a << " expected " << b); }
        c.ev("vertices compared");
    }
}
template<unsigned D, class M> void checkEdges(vh::Case& c, const M& m, const Ref<D>& r) {
    std::set<std::pair<long, long>> exp, got;
    for (auto& e : r.e[1]) exp.insert({std::min(e[0], e[1]), std::max(e[0], e[1])});
    for (size_t i = 0; i < m.getEdges().size(); i++) {
        const auto& e = m.getEdges()[i]; long a = static_cast<long>(e.getVertexAIndex()), b = static_cast<long>(e.getVertexBIndex());
        VH_CHECK(c, static_cast<size_t>(e.getIndex()) == i, "edge-index", "edge " << i << " has index " << e.getIndex());
        VH_CHECK(c, got.insert({std::min(a, b), std::max(a, b)}).second, "edge-duplicate", "edge " << a << "-" << b << " exists twice");
    }
    VH_CHECK(c, got == exp, "edges", "the mesh has " << got.size() << " edges, expected " << exp.size() << " (or other end vertices)");
    c.ev("edges compared", exp.size());
}
// generic linkage: keys of faces are canonical vertex loops / end pairs
template<unsigned D, class M> void checkLinks(vh::Case& c, const M& m, const std::vector<IV>& meshKey, const Ref<D>& r, const std::vector<IV>& refKey, bool cellIndexIsRef = true) {
    typedef typename std::decay<decltype(m.getVertices()[0].getIndex())>::type IT;
    std::map<IV, size_t> pos; for (size_t i = 0; i < refKey.size(); i++) pos[refKey[i]] = i;
    VH_CHECK(c, meshKey.size() == refKey.size(), "face-count", "the mesh has " << meshKey.size() << " faces, expected " << refKey.size());
    std::set<IV> seen; std::vector<size_t> toRef(meshKey.size());
    for (size_t f = 0; f < meshKey.size(); f++) {
        auto it = pos.find(meshKey[f]);
        VH_CHECK(c, it != pos.end() && seen.insert(meshKey[f]).second, "faces", "face " << f << " with vertices " << vh::strv(meshKey[f]) << (it == pos.end() ? " does not exist in the input" : " exists twice"));
        toRef[f] = it->second; const auto& F = m.getFaces()[f];
        std::multiset<long> e, g;
        if (r.L[it->second] >= 0) e.insert(r.L[it->second]); if (r.R[it->second] >= 0) e.insert(r.R[it->second]);
        bool li = F.getCellLeftIndex() == INVALID_INDEX(IT), ri = F.getCellRightIndex() == INVALID_INDEX(IT);
        if (!li) g.insert(static_cast<long>(F.getCellLeftIndex())); if (!ri) g.insert(static_cast<long>(F.getCellRightIndex()));
        VH_CHECK(c, e == g, "face-cells", "face " << f << " " << vh::strv(meshKey[f]) << " links cells " << vh::strv(g) << " expected " << vh::strv(e));
        VH_CHECK(c, static_cast<size_t>(F.getIndex()) == f, "face-index", "face " << f << " has index " << F.getIndex());
        c.ev("faces compared");
    }
    VH_CHECK(c, m.getCells().size() == r.n(D), "cell-count", "the mesh has " << m.getCells().size() << " cells, expected " << r.n(D));
    for (size_t k = 0; k < r.n(D); k++) {
        const auto& C = m.getCells()[k]; VH_CHECK(c, static_cast<size_t>(C.getIndex()) == k, "cell-index", "cell " << k << " has index " << C.getIndex());
        std::set<size_t> exp(r.e[D][k].begin(), r.e[D][k].end()), got; IT f = C.getBoundaryElementIndex(); size_t steps = 0;
        do { VH_CHECK(c, static_cast<size_t>(f) < meshKey.size() && steps++ < exp.size(), "cell-ring", "boundary of cell " << k << " leaves the mesh or does not close after " << exp.size() << " faces");
             VH_CHECK(c, got.insert(toRef[static_cast<size_t>(f)]).second, "cell-ring", "boundary of cell " << k << " visits a face twice");
             f = m.getFaces()[static_cast<size_t>(f)].getNextBElem(static_cast<IT>(k)); } while (f != C.getBoundaryElementIndex());
        VH_CHECK(c, got == exp, "cell-faces", "cell " << k << " has " << got.size() << " faces, expected " << exp.size() << " (or other ones)");
        c.ev("cells compared");
    }
}
template<class M> void checkMesh(vh::Case& c, const M& m, const Ref<3>& r, double tol = 0) {
    checkVerts<3>(c, m, r, tol); checkEdges<3>(c, m, r);
    std::vector<IV> mk, rk;
    for (size_t f = 0; f < m.getFaces().size(); f++) {
        std::vector<std::pair<long, long>> ed;
        for (auto s : m.getFaces()[f].getSubelements()) { VH_CHECK(c, static_cast<size_t>(s) < m.getEdges().size(), "face-edge-range", "face " << f << " refers to edge " << s); const auto& e = m.getEdges()[static_cast<size_t>(s)]; ed.push_back({static_cast<long>(e.getVertexAIndex()), static_cast<long>(e.getVertexBIndex())}); }
        IV l = loopOfEdges(ed); VH_CHECK(c, !l.empty(), "face-loop", "the edges of face " << f << " do not form a closed loop"); mk.push_back(canonLoop(l));
    }
    for (size_t f = 0; f < r.n(2); f++) rk.push_back(canonLoop(r.loopOf(static_cast<int>(f))));
    checkLinks<3>(c, m, mk, r, rk);
}
template<class M> void checkMesh(vh::Case& c, const M& m, const Ref<2>& r, double tol = 0) {
    checkVerts<2>(c, m, r, tol); checkEdges<2>(c, m, r);
    std::vector<IV> mk, rk;
    for (size_t f = 0; f < m.getEdges().size(); f++) { int a = static_cast<int>(m.getEdges()[f].getVertexAIndex()), b = static_cast<int>(m.getEdges()[f].getVertexBIndex()); mk.push_back(IV{std::min(a, b), std::max(a, b)}); }
    for (auto& e : r.e[1]) rk.push_back(IV{std::min(e[0], e[1]), std::max(e[0], e[1])});
    checkLinks<2>(c, m, mk, r, rk);
}
// vertex loop of a 2D reference cell
inline IV refLoop2(const Ref<2>& r, size_t k) { std::vector<std::pair<long, long>> ed; for (int e : r.e[2][k]) ed.push_back({r.e[1][e][0], r.e[1][e][1]}); return loopOfEdges(ed); }
// VTK type of a 3D reference cell by its shape
inline int shapeOf(const Ref<3>& r, size_t k) {
    size_t nf = r.e[3][k].size(), nv = r.closure(3, static_cast<int>(k), 0).size(), tri = 0, quad = 0;
    for (int f : r.e[3][k]) { tri += r.e[2][f].size() == 3; quad += r.e[2][f].size() == 4; }
    if (nf == 4 && nv == 4 && tri == 4) return 10; if (nf == 6 && nv == 8 && quad == 6) return 12; if (nf == 5 && nv == 6 && tri == 2 && quad == 3) return 13; if (nf == 5 && nv == 5 && tri == 4 && quad == 1) return 14;
    return 42;
}
inline MeshNativeType<3>::ElementType native3(int vtk) { typedef MeshNativeType<3> T; return vtk == 10 ? T::TETRA : vtk == 12 ? T::HEXAHEDRON : vtk == 13 ? T::WEDGE : vtk == 14 ? T::PYRAMID : T::POLYHEDRON; }
inline MeshNativeType<2>::ElementType native2(int vtk) { typedef MeshNativeType<2> T; return vtk == 5 ? T::TRIANGLE : vtk == 9 || vtk == 8 ? T::QUAD : T::POLYGON; }

// ---- independent VTK legacy parser (strict)
// a stream over a text, in some cases already read for a part or to its end: a reader starts at the beginning wherever the stream is
struct Opened : std::istringstream { Opened(vh::Case& c, const std::string& t) : std::istringstream(t) { if (!c.rng.chance(.35)) return; size_t n = c.rng.chance(.3) ? t.size() : c.rng.below(t.size() + 1); for (size_t i = 0; i < n; i++) get(); if (n == t.size()) peek(); c.ev("streams not at their beginning"); } };
struct Vtk {
    std::string title; std::vector<Pt<3>> pts; std::vector<IV> cells; IV types; std::map<std::string, std::vector<double>> scalars, vectors; std::string rest; std::string err; long cellData = -1;
};
inline bool tokNum(std::istream& s, double& d) { std::string t; if (!(s >> t)) return false; char* e = nullptr; d = std::strtod(t.c_str(), &e); return e && *e == 0 && !t.empty(); }
inline bool tokInt(std::istream& s, long& d) { std::string t; if (!(s >> t)) return false; char* e = nullptr; d = std::strtol(t.c_str(), &e, 10); return e && *e == 0 && !t.empty(); }
inline Vtk parseVtk(const std::string& text, bool header = true) {
    Vtk o; std::istringstream s(text); std::string t; long n = 0, tot = 0;
    auto bad = [&](const std::string& m) { if (o.err.empty()) o.err = m; };
    if (header) {
        std::getline(s, t); if (t.compare(0, 22, "# vtk DataFile Version") != 0) { bad("first line is '" + t + "'"); return o; }
        std::getline(s, o.title); std::getline(s, t); if (t != "ASCII") { bad("third line is '" + t + "'"); return o; }
        std::getline(s, t); if (t != "DATASET UNSTRUCTURED_GRID") { bad("dataset line is '" + t + "'"); return o; }
    }
    if (!(s >> t) || t != "POINTS" || !tokInt(s, n) || n < 0 || !(s >> t)) { bad("POINTS section"); return o; }
    o.pts.resize(static_cast<size_t>(n)); for (auto& p : o.pts) for (double& x : p) if (!tokNum(s, x)) { bad("too few or invalid coordinates"); return o; }
    if (!(s >> t) || t != "CELLS" || !tokInt(s, n) || !tokInt(s, tot) || n < 0) { bad("CELLS section expected, found '" + t + "'"); return o; }
    long sum = 0;
    for (long i = 0; i < n; i++) { long k; if (!tokInt(s, k) || k < 1 || k > 1000) { bad("size of cell " + std::to_string(i)); return o; } IV c; for (long j = 0; j < k; j++) { long v; if (!tokInt(s, v) || v < 0 || v >= static_cast<long>(o.pts.size())) { bad("vertex of cell " + std::to_string(i) + " out of range"); return o; } c.push_back(static_cast<int>(v)); } o.cells.push_back(c); sum += k + 1; }
    if (sum != tot) { bad("CELLS declares " + std::to_string(tot) + " numbers but has " + std::to_string(sum)); return o; }
    if (!(s >> t) || t != "CELL_TYPES" || !tokInt(s, n) || n != static_cast<long>(o.cells.size())) { bad("CELL_TYPES section"); return o; }
    for (long i = 0; i < n; i++) { long v; if (!tokInt(s, v)) { bad("cell type"); return o; } o.types.push_back(static_cast<int>(v)); }
    // optional cell data; every array holds as many values as its header promises
    while (s >> t) {
        if (t == "CELL_DATA") { if (!tokInt(s, o.cellData) || o.cellData != static_cast<long>(o.cells.size())) { bad("CELL_DATA count " + std::to_string(o.cellData)); return o; } continue; }
        std::string name, type;
        if (t == "SCALARS") { std::string line; std::getline(s, line); std::istringstream l(line); long nc = 1; if (!(l >> name >> type)) { bad("SCALARS header"); return o; } l >> nc; if (!(s >> t) || t != "LOOKUP_TABLE" || !(s >> t)) { bad("LOOKUP_TABLE after " + name); return o; }
            auto& v = o.scalars[name]; if (!v.empty()) { bad("array " + name + " appears twice"); return o; } for (long i = 0; i < o.cellData * nc; i++) { double d; if (!tokNum(s, d)) { bad("values of " + name); return o; } v.push_back(d); } }
        else if (t == "VECTORS" || t == "TENSORS") { long nc = t == "VECTORS" ? 3 : 9; if (!(s >> name >> type)) { bad(t + " header"); return o; } auto& v = o.vectors[name]; if (!v.empty()) { bad("array " + name + " appears twice"); return o; } for (long i = 0; i < o.cellData * nc; i++) { double d; if (!tokNum(s, d)) { bad("values of " + name); return o; } v.push_back(d); } }
        else { bad("unexpected token '" + t + "'"); return o; }
    }
    return o;
}
// ---- reference -> text, with varied but legal formatting
struct Fmt { std::string nl = "\n"; std::string title = "mesh"; int style = 0; };
inline Fmt randomFmt(Rng& g) { Fmt f; f.nl = g.chance(.25) ? "\r\n" : "\n"; f.title = g.pick(std::vector<std::string>{"mesh", "", "a title with spaces", "ASCII POINTS 3 double", std::string(250, 'x'), "vtk output;1,2"}); f.style = static_cast<int>(g.below(4)); return f; }
inline std::string num(double x, int style) { char b[64]; std::snprintf(b, sizeof b, style == 1 ? "%.16e" : style == 2 ? "%+.17g" : "%.17g", x); return b; }
inline std::string sep(Rng& g, const Fmt& f) { return f.style == 3 ? (g.chance(.2) ? f.nl : std::string(1 + g.below(3), ' ')) : f.style == 2 ? "\t" : " "; }
template<size_t N> std::string vtkText(Rng& g, const Fmt& f, const std::vector<std::array<double, N>>& v, const std::vector<IV>& cells, const IV& types) {
    std::ostringstream o; o << "# vtk DataFile Version 2.0" << f.nl << f.title << f.nl << "ASCII" << f.nl << "DATASET UNSTRUCTURED_GRID" << f.nl << "POINTS " << v.size() << (g.chance(.5) ? " double" : " float") << f.nl;
    for (auto& p : v) { for (double x : p) o << num(x, f.style) << sep(g, f); if (N == 2) o << "0.0"; o << f.nl; }
    size_t tot = 0; for (auto& c : cells) tot += c.size() + 1; if (f.style != 1) o << f.nl;
    o << "CELLS " << cells.size() << " " << tot << f.nl;
    for (auto& c : cells) { o << c.size(); for (int x : c) o << sep(g, f) << x; o << f.nl; }
    if (f.style != 1) o << f.nl; o << "CELL_TYPES " << types.size() << f.nl; for (int t : types) o << t << (f.style == 3 ? " " : f.nl); o << f.nl;
    return o.str();
}
inline std::string fpmaText(Rng& g, const Fmt& f, const Ref<3>& r) {
    std::ostringstream o; o << r.v.size() << f.nl; for (auto& p : r.v) { for (double x : p) o << num(x, f.style) << sep(g, f); o << f.nl; }
    o << r.n(2) << f.nl; for (size_t k = 0; k < r.n(2); k++) { IV l = r.loopOf(static_cast<int>(k)); o << l.size(); for (int x : l) o << sep(g, f) << x; o << f.nl; }
    o << r.n(3) << f.nl; for (auto& c : r.e[3]) { o << c.size(); for (int x : c) o << sep(g, f) << x; o << f.nl; } o << "0" << f.nl;
    return o.str();
}
// standard-cell 3D input as file cells (VTK order), vertices and types
// vertex numbers far apart: i -> i % K + (i / K) * S leaves most vertices unused, but keys made of parts of the numbers collide
inline bool& sparseMode() { static bool b = false; return b; }
struct Sparse { Sparse() { sparseMode() = true; } ~Sparse() { sparseMode() = false; } };
template<unsigned D> inline IV sparseNumbers(Rng& g, std::vector<Pt<D>>& v) { // map of the vertices, v gets the unused ones too
    const size_t n = v.size(), parts = 2 + g.below(2), K = std::max<size_t>(1, (n + parts - 1) / parts), S = std::max(g.pick(std::vector<size_t>{256, 1000, 32768, 65536, 65536, 65536, 100000}), K + 1);
    IV mp(n); std::vector<Pt<D>> w(K + (n - 1) / K * S); for (auto& p : w) for (unsigned k = 0; k < D; k++) p[k] = g.range(-1000, 1000);
    for (size_t i = 0; i < n; i++) { mp[i] = static_cast<int>(i % K + i / K * S); w[static_cast<size_t>(mp[i])] = v[i]; }
    v = w; return mp;
}
struct Std3 { std::vector<Pt<3>> v; std::vector<IV> cells; IV types; Ref<3> ref; };
inline Std3 randomStd3(Rng& g) {
    Gen3 o; o.standard = true; o.merge = false; Poly3 Q = randomQ3(g, o); Std3 s;
    // renumber vertices, shuffle cells, keep only used vertices sometimes
    std::vector<char> used(Q.v.size(), 0); for (auto& c : Q.cells) for (int x : c.vtk) used[static_cast<size_t>(x)] = 1;
    bool keep = g.chance(.3); IV ids; for (size_t i = 0; i < Q.v.size(); i++) if (keep || used[i]) ids.push_back(static_cast<int>(i)); g.shuffle(ids);
    IV mp(Q.v.size(), -1); Poly3 R; for (size_t i = 0; i < ids.size(); i++) { mp[static_cast<size_t>(ids[i])] = static_cast<int>(i); R.v.push_back(Q.v[static_cast<size_t>(ids[i])]); }
    g.shuffle(Q.cells);
    if (sparseMode()) { IV sp = sparseNumbers<3>(g, R.v); for (int& x : mp) if (x >= 0) x = sp[static_cast<size_t>(x)]; }
    for (auto c : Q.cells) {
        for (auto& f : c.faces) for (int& x : f) x = mp[static_cast<size_t>(x)]; for (int& x : c.vtk) x = mp[static_cast<size_t>(x)];
        // admissible rotations of the VTK vertex order
        if (c.type == 12) { size_t k = g.below(4); std::rotate(c.vtk.begin(), c.vtk.begin() + static_cast<long>(k), c.vtk.begin() + 4); std::rotate(c.vtk.begin() + 4, c.vtk.begin() + 4 + static_cast<long>(k), c.vtk.end()); }
        if (c.type == 13) { size_t k = g.below(3); std::rotate(c.vtk.begin(), c.vtk.begin() + static_cast<long>(k), c.vtk.begin() + 3); std::rotate(c.vtk.begin() + 3, c.vtk.begin() + 3 + static_cast<long>(k), c.vtk.end()); }
        if (c.type == 14) std::rotate(c.vtk.begin(), c.vtk.begin() + static_cast<long>(g.below(4)), c.vtk.begin() + 4);
        if (c.type == 10) g.shuffle(c.vtk);
        R.cells.push_back(c); s.cells.push_back(c.vtk); s.types.push_back(c.type);
    }
    s.v = R.v; s.ref = fromPoly3(R); return s;
}
struct Std2 { std::vector<Pt<2>> v; std::vector<IV> cells; IV types; Ref<2> ref; };
inline Std2 randomStd2(Rng& g) {
    Opt2 o; o.nx = static_cast<int>(g.range(1, 6)); o.ny = static_cast<int>(g.range(1, 6)); o.pTri = g.pick(std::vector<double>{0, .3, 1}); o.pMerge = g.pick(std::vector<double>{0, .4, .8}); o.pDrop = g.pick(std::vector<double>{0, 0, .2});
    if (bigMode()) { o.nx = static_cast<int>(g.range(14, 34)); o.ny = static_cast<int>(g.range(14, 34)); o.pMerge = g.pick(std::vector<double>{0, .1}); }
    Poly2 P = randomPoly2(g, o); Affine<2> A = g.chance(.6) ? Affine<2>::random(g) : Affine<2>::identity(); for (auto& p : P.v) p = A(p);
    IV p(P.v.size()); for (size_t i = 0; i < p.size(); i++) p[i] = static_cast<int>(i); g.shuffle(p); std::vector<Pt<2>> nv(P.v.size()); for (size_t i = 0; i < p.size(); i++) nv[static_cast<size_t>(p[i])] = P.v[i]; P.v = nv;
    if (sparseMode()) { IV sp = sparseNumbers<2>(g, P.v); for (int& x : p) x = sp[static_cast<size_t>(x)]; }
    g.shuffle(P.cells); bool flip = g.chance(.3);
    for (auto& c : P.cells) { for (int& x : c) x = p[static_cast<size_t>(x)]; std::rotate(c.begin(), c.begin() + static_cast<long>(g.below(c.size())), c.end()); if (flip && g.chance(.5)) std::reverse(c.begin(), c.end()); }
    Std2 s; s.v = P.v; s.cells = P.cells; for (auto& c : P.cells) s.types.push_back(c.size() == 3 && g.chance(.8) ? 5 : c.size() == 4 && g.chance(.8) ? 9 : 7);
    s.ref = fromPoly2(P, Affine<2>::identity()); return s;
}
template<class M> std::string vtkOut(M& m, VTKMeshWriter<3, typename std::decay<decltype(std::declval<M>().getVertices()[0].getIndex())>::type, double>& w, const MeshDataContainer<MeshNativeType<3>::ElementType, 3>& t, const std::string& title = "t") {
    std::ostringstream o; o.precision(17); w.writeHeader(o, title); w.writeToStream(o, m, t); return o.str();
}
#endif
