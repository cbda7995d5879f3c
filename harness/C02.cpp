#include "io.h"
typedef MeshDataContainer<MeshNativeType<3>::ElementType, 3> CT3;
typedef MeshDataContainer<MeshNativeType<2>::ElementType, 2> CT2;
// reference with arbitrary numbering, orientation and mirrored coordinates
static Ref<3> stdRef(vh::Case& c) {
    Std3 s = randomStd3(c.rng); Ref<3> r = scramble<3>(s.ref, c.rng);
    if (c.rng.chance(.4)) for (auto& p : r.v) p[0] = -p[0];
    double sc = c.rng.pick(std::vector<double>{1, 1, 1e-4, 1e5}); for (auto& p : r.v) for (double& x : p) x *= sc;
    return r;
}
// shape of an exported cell: its face vertex sets as implied by the VTK vertex order
static std::set<std::set<int>> vtkFaces(int type, const IV& v) {
    static const std::map<int, std::vector<IV>> F{{10, {{0,1,2},{0,1,3},{1,2,3},{0,2,3}}}, {12, {{0,1,2,3},{4,5,6,7},{0,1,5,4},{1,2,6,5},{2,3,7,6},{3,0,4,7}}}, {13, {{0,1,2},{3,4,5},{0,1,4,3},{1,2,5,4},{2,0,3,5}}}, {14, {{0,1,2,3},{0,1,4},{1,2,4},{2,3,4},{3,0,4}}}};
    std::set<std::set<int>> r; for (auto& f : F.at(type)) { std::set<int> s; for (int i : f) s.insert(v[static_cast<size_t>(i)]); r.insert(s); } return r;
}
static std::set<IV> vtkLoops(int type, const IV& v) {
    static const std::map<int, std::vector<IV>> F{{10, {{0,1,2},{0,1,3},{1,2,3},{0,2,3}}}, {12, {{0,1,2,3},{4,5,6,7},{0,1,5,4},{1,2,6,5},{2,3,7,6},{3,0,4,7}}}, {13, {{0,1,2},{3,4,5},{0,1,4,3},{1,2,5,4},{2,0,3,5}}}, {14, {{0,1,2,3},{0,1,4},{1,2,4},{2,3,4},{3,0,4}}}};
    std::set<IV> r; for (auto& f : F.at(type)) { IV s; for (int i : f) s.push_back(v[static_cast<size_t>(i)]); r.insert(canonLoop(s)); } return r;
}
static double orient(const std::vector<Pt<3>>& p, int type, const IV& v) { // > 0: base normal points to the remaining vertices
    size_t nb = type == 10 || type == 13 ? 3 : 4; IV base(v.begin(), v.begin() + static_cast<long>(nb)); Pt<3> b{{0,0,0}}, t{{0,0,0}};
    for (size_t i = 0; i < v.size(); i++) { Pt<3>& q = i < nb ? b : t; q = add<3>(q, p[static_cast<size_t>(v[i])]); }
    b = mul<3>(b, 1.0 / static_cast<double>(nb)); t = mul<3>(t, 1.0 / static_cast<double>(v.size() - nb)); Pt<3> d = sub<3>(t, b), n = newell(p, base); return dot<3>(n, d) / (len<3>(n) * len<3>(d));
}
template<class M> void run3(vh::Case& c, const Ref<3>& r) {
    typedef typename std::decay<decltype(std::declval<M>().getVertices()[0].getIndex())>::type IT;
    M m; fill<3>(m, r); m.initializeCenters(); CT3 ct(m); size_t n = r.n(3); IV types(n);
    for (size_t i = 0; i < n; i++) { types[i] = shapeOf(r, i); ct.getDataByPos<0>()[i] = native3(types[i]); c.ev("cells of VTK type " + std::to_string(types[i])); }
    VTKMeshWriter<3, IT, double> w; std::string title = c.rng.pick(std::vector<std::string>{"t", "", "two words"}); std::string text = vtkOut(m, w, ct, title);
    Vtk f = parseVtk(text); VH_CHECK(c, f.err.empty(), "vtk-syntax", "the written file is not valid: " << f.err);
    VH_CHECK(c, f.title == title, "vtk-title", "title '" << f.title << "'");
    VH_CHECK(c, f.pts.size() == r.v.size() && f.cells.size() == n, "vtk-counts", f.pts.size() << " points, " << f.cells.size() << " cells");
    VH_CHECK(c, static_cast<size_t>(w.getNumberOfCells()) == n, "writer-cells", "getNumberOfCells is " << w.getNumberOfCells());
    VH_CHECK(c, w.backwardCellIndexMapping.empty(), "writer-mapping", "cells of standard shape have entries in the tessellation map");
    for (size_t i = 0; i < r.v.size(); i++) VH_CHECK(c, f.pts[i] == r.v[i], "vtk-point", "point " << i);
    int wedge = 0;
    for (size_t i = 0; i < n; i++) {
        VH_CHECK(c, f.types[i] == types[i], "vtk-type", "cell " << i << " of type " << types[i] << " written as " << f.types[i]);
        size_t nv = types[i] == 10 ? 4 : types[i] == 12 ? 8 : types[i] == 13 ? 6 : 5; VH_CHECK(c, f.cells[i].size() == nv, "vtk-cell-size", "cell " << i << " has " << f.cells[i].size() << " vertices");
        std::set<IV> e; for (int x : r.e[3][i]) e.insert(canonLoop(r.loopOf(x)));
        VH_CHECK(c, vtkLoops(types[i], f.cells[i]) == e, "vtk-cell-shape", "the written vertex order " << vh::strv(f.cells[i]) << " of cell " << i << " (type " << types[i] << ") does not describe its faces");
        double o = orient(f.pts, types[i], f.cells[i]);
        if (types[i] == 13) { int s = o > 0 ? 1 : -1; if (wedge == 0) wedge = s; VH_CHECK(c, s == wedge, "vtk-wedge-orientation", "wedge " << i << " is oriented differently than the wedges before it"); }
        else VH_CHECK(c, o > 0, "vtk-orientation", "cell " << i << " of type " << types[i] << " is written inside out");
        c.ev("exported cells");
    }
    // import of the export
    M b; VTKMeshReader<3> rd; std::istringstream in(text); rd.loadFromStream(in, b); checkMesh(c, b, r); auto bt = rd.getCellTypes();
    for (size_t i = 0; i < n; i++) VH_CHECK(c, bt.getDataByPos<0>()[i] == ct.getDataByPos<0>()[i], "round-trip-type", "type of cell " << i);
    // and its export again (imported faces are oriented by the reader)
    b.initializeCenters(); VTKMeshWriter<3, IT, double> w2; Vtk f2 = parseVtk(vtkOut(b, w2, CT3(bt))); VH_CHECK(c, f2.err.empty() && f2.types == f.types && f2.pts == f.pts, "re-export", "second export: " << f2.err);
    for (size_t i = 0; i < n; i++) { VH_CHECK(c, vtkLoops(types[i], f2.cells[i]) == vtkLoops(types[i], f.cells[i]), "re-export-shape", "cell " << i << " changed in the second export"); if (types[i] != 13) VH_CHECK(c, orient(f2.pts, types[i], f2.cells[i]) > 0, "re-export-orientation", "cell " << i << " is written inside out"); }
    c.ev("round trips");
}
VH_SECTION(roundTrip3d, 300, 5000) {
    Ref<3> r = stdRef(c); c.desc(r.text()); c.distinct(r.hash()); c.sample(r.text().substr(0, 150));
    switch (c.rng.below(3)) { case 0: run3<UnstructuredMesh<3, size_t, double>>(c, r); break; case 1: run3<UnstructuredMesh<3, size_t, double, 6>>(c, r); break; default: run3<UnstructuredMesh<3, int, double>>(c, r); }
}
template<class M> void run2(vh::Case& c, const Ref<2>& r) {
    typedef typename std::decay<decltype(std::declval<M>().getVertices()[0].getIndex())>::type IT;
    M m; fill<2>(m, r); CT2 ct(m); size_t n = r.n(2); IV types(n);
    for (size_t i = 0; i < n; i++) { size_t k = r.e[2][i].size(); types[i] = k == 3 && c.rng.chance(.7) ? 5 : k == 4 && c.rng.chance(.7) ? 9 : 7; ct.getDataByPos<0>()[i] = native2(types[i]); }
    VTKMeshWriter<2, IT, double> w; std::ostringstream o; o.precision(17); w.writeHeader(o, "2d"); w.writeToStream(o, m, ct); std::string text = o.str();
    Vtk f = parseVtk(text); VH_CHECK(c, f.err.empty(), "vtk-syntax", "the written file is not valid: " << f.err);
    VH_CHECK(c, f.title == "2d" && f.pts.size() == r.v.size() && f.cells.size() == n && static_cast<size_t>(w.getNumberOfCells()) == n, "vtk-counts", f.pts.size() << " points, " << f.cells.size() << " cells");
    for (size_t i = 0; i < r.v.size(); i++) VH_CHECK(c, (f.pts[i] == Pt<3>{{r.v[i][0], r.v[i][1], 0}}), "vtk-point", "point " << i);
    for (size_t i = 0; i < n; i++) { VH_CHECK(c, f.types[i] == types[i], "vtk-type", "cell " << i); VH_CHECK(c, canonLoop(f.cells[i]) == canonLoop(refLoop2(r, i)), "vtk-cell-loop", "cell " << i << " is written as " << vh::strv(f.cells[i]) << " expected the loop " << vh::strv(refLoop2(r, i))); c.ev("exported cells"); }
    M b; VTKMeshReader<2> rd; std::istringstream in(text); rd.loadFromStream(in, b); checkMesh(c, b, r); auto bt = rd.getCellTypes();
    for (size_t i = 0; i < n; i++) VH_CHECK(c, bt.template getDataByPos<0>()[i] == ct.getDataByPos<0>()[i], "round-trip-type", "type of cell " << i);
    c.ev("round trips");
}
VH_SECTION(roundTrip2d, 400, 6000) {
    Ref<2> r = scramble<2>(random2(c.rng, c.rng.chance(.3)), c.rng); double sc = c.rng.pick(std::vector<double>{1, 1, 1e-6, 1e8}); for (auto& p : r.v) for (double& x : p) x *= sc;
    c.desc(r.text()); c.distinct(r.hash()); c.sample(r.text().substr(0, 150));
    if (c.rng.chance(.6)) run2<UnstructuredMesh<2, size_t, double>>(c, r); else run2<UnstructuredMesh<2, int, double>>(c, r);
}
// mesh.write / mesh.load through files
template<class M> static void files3(vh::Case& c, const std::string& p) {
    Std3 s = randomStd3(c.rng); for (auto& q : s.ref.v) for (double& x : q) x = static_cast<double>(std::lround(x * 64)) / 64; c.desc(s.ref.text()); // six significant digits are enough
    M m; fill<3>(m, s.ref); m.initializeCenters(); CT3 ct(m); for (size_t i = 0; i < s.types.size(); i++) ct.template getDataByPos<0>()[i] = native3(s.types[i]);
    auto w = m.write(p, ct, "hdr"); VH_CHECK(c, w != nullptr, "write", "no writer returned"); M b; auto rd = b.load(p); checkMesh(c, b, s.ref, 1e-5);
    auto bt = rd->getCellTypes(); VH_CHECK(c, bt.template getDataByPos<0>() == ct.template getDataByPos<0>(), "round-trip-type", "types differ");
    auto w2 = b.write(p, *rd, "again"); M d; d.load(p); checkMesh(c, d, s.ref, 1e-5); b.write(p, w2, *rd); d.load(p); checkMesh(c, d, s.ref, 1e-5);
    VH_THROWS(c, m.write(c.scratch + "/nodir/x.vtk", ct), "unwritable", "writing into a missing directory");
}
template<class M> static void files2(vh::Case& c, const std::string& p) {
    Std2 s = randomStd2(c.rng); for (auto& q : s.ref.v) for (double& x : q) x = static_cast<double>(std::lround(x * 64)) / 64; c.desc(s.ref.text());
    M m; fill<2>(m, s.ref); CT2 ct(m); for (size_t i = 0; i < s.types.size(); i++) ct.template getDataByPos<0>()[i] = native2(s.types[i]);
    auto w = m.write(p, ct, "hdr"); VH_CHECK(c, w != nullptr, "write", "no writer returned"); M b; auto rd = b.load(p); checkMesh(c, b, s.ref, 1e-5);
    VH_CHECK(c, rd->getCellTypes().template getDataByPos<0>() == ct.template getDataByPos<0>(), "round-trip-type", "types differ");
    auto w2 = m.write(p); b.load(p); checkMesh(c, b, s.ref, 1e-5); m.write(p, w2, *rd); b.load(p); checkMesh(c, b, s.ref, 1e-5);
    VH_THROWS(c, m.write(c.scratch + "/nodir/x.vtk", ct), "unwritable", "writing into a missing directory");
}
VH_SECTION(files, 90, 800) {
    std::string p = c.scratch + "/m.vtk"; c.distinct(c.rng.u64());
    switch (c.rng.below(6)) {
    case 0: case 1: files3<UnstructuredMesh<3, size_t, double>>(c, p); break; case 2: files3<UnstructuredMesh<3, int, double, 12>>(c, p); break;
    case 3: case 4: files2<UnstructuredMesh<2, size_t, double>>(c, p); break; default: files2<UnstructuredMesh<2, unsigned, double>>(c, p); break; }
    c.ev("files written", 2);
}
VH_SECTION(large3d, 3, 30) { Big big(c.index); Ref<3> r = stdRef(c); c.desc(r.text()); c.distinct(r.hash()); if (c.rng.chance(.5)) run3<UnstructuredMesh<3, size_t, double>>(c, r); else run3<UnstructuredMesh<3, int, double, 6>>(c, r); c.ev("vertices of large meshes", r.v.size()); }
VH_SECTION(large2d, 3, 30) { Big big(c.index); Ref<2> r = scramble<2>(random2(c.rng), c.rng); c.desc(r.text()); c.distinct(r.hash()); if (c.rng.chance(.5)) run2<UnstructuredMesh<2, size_t, double>>(c, r); else run2<UnstructuredMesh<2, unsigned, double>>(c, r); c.ev("vertices of large meshes", r.v.size()); }
