#include "io.h"
typedef MeshDataContainer<MeshNativeType<3>::ElementType, 3> CT3;
static double tet(const Pt<3>& a, const Pt<3>& b, const Pt<3>& d, const Pt<3>& e) { return std::fabs(dot<3>(cross(sub<3>(b, a), sub<3>(d, a)), sub<3>(e, a))) / 6; }
// mode 0: everything polyhedral, 1: mixed, 2: native types where possible
template<class M> void run(vh::Case& c, const Ref<3>& r, int mode, double scale) {
    typedef typename std::decay<decltype(std::declval<M>().getVertices()[0].getIndex())>::type IT;
    M m; fill<3>(m, r); m.template initializeCenters<METHOD_TESSELLATED>(); if (c.rng.chance(.5)) m.initializeCenters();
    CT3 ct(m); size_t n = r.n(3); IV types(n);
    for (size_t i = 0; i < n; i++) { int s = shapeOf(r, i); types[i] = mode == 0 ? 42 : mode == 2 ? s : (c.rng.chance(.5) ? s : 42); ct.getDataByPos<0>()[i] = types[i] == 42 && c.rng.chance(.2) ? MeshNativeType<3>::N_PYRAMID : native3(types[i]); }
    VTKMeshWriter<3, IT, double> w; std::string text = vtkOut(m, w, ct); Vtk f = parseVtk(text);
    VH_CHECK(c, f.err.empty(), "vtk-syntax", "the written file is not valid: " << f.err);
    VH_CHECK(c, static_cast<size_t>(w.getNumberOfCells()) == f.cells.size(), "writer-cells", "getNumberOfCells is " << w.getNumberOfCells() << " of " << f.cells.size());
    VH_CHECK(c, f.pts.size() >= r.v.size(), "vtk-points", "only " << f.pts.size() << " points"); for (size_t i = 0; i < r.v.size(); i++) VH_CHECK(c, f.pts[i] == r.v[i], "vtk-point", "original vertex " << i);
    std::vector<char> used(f.pts.size(), 0); size_t pos = 0, tets = 0;
    for (size_t k = 0; k < n; k++) {
        std::vector<Pt<3>> fc; auto pt = [&](const Vertex<3, double>& v) { return Pt<3>{{v[0], v[1], v[2]}}; };
        if (types[k] != 42) {
            VH_CHECK(c, pos < f.cells.size() && f.types[pos] == types[k], "mixed-type", "exported cell " << pos << " should be cell " << k << " of type " << types[k]);
            VH_CHECK(c, !w.backwardCellIndexMapping.count(static_cast<IT>(pos)), "backward-map", "untouched cell " << k << " (exported as " << pos << ") is in the tessellation map");
            std::set<int> vs(f.cells[pos].begin(), f.cells[pos].end()), e = r.closure(3, static_cast<int>(k), 0); VH_CHECK(c, vs == e, "mixed-cell", "exported cell " << pos << " does not consist of the vertices of cell " << k); pos++; c.ev("untouched cells"); continue;
        }
        // every (face, edge) pair of the cell exactly once
        std::multiset<std::pair<IV, int>> exp, got; double vol = 0;
        for (int x : r.e[3][k]) for (int e : r.e[2][x]) exp.insert({IV{std::min(r.e[1][e][0], r.e[1][e][1]), std::max(r.e[1][e][0], r.e[1][e][1])}, x});
        Pt<3> cc = pt(m.getCells()[k].getCenter()); size_t N = exp.size();
        for (size_t t = 0; t < N; t++, pos++) {
            VH_CHECK(c, pos < f.cells.size() && f.types[pos] == 10 && f.cells[pos].size() == 4, "tessellation", "cell " << k << " should be exported as " << N << " tetrahedra, exported cell " << pos << " is not one");
            auto it = w.backwardCellIndexMapping.find(static_cast<IT>(pos)); VH_CHECK(c, it != w.backwardCellIndexMapping.end() && static_cast<size_t>(it->second) == k, "backward-map", "tetrahedron " << pos << " of cell " << k << " maps to " << (it == w.backwardCellIndexMapping.end() ? -1L : static_cast<long>(it->second)));
            IV e, ap; for (int v : f.cells[pos]) { (static_cast<size_t>(v) < r.v.size() ? e : ap).push_back(v); used[static_cast<size_t>(v)] = 1; } std::sort(e.begin(), e.end());
            VH_CHECK(c, e.size() == 2 && ap.size() == 2 && ap[0] != ap[1], "tessellation", "tetrahedron " << pos << " has vertices " << vh::strv(f.cells[pos]) << " of " << r.v.size() << " original ones");
            int face = -1; // the appended points are the centers of the cell and of one of its faces containing the edge
            for (int d = 0; d < 2 && face < 0; d++) if (f.pts[static_cast<size_t>(ap[static_cast<size_t>(d)])] == cc) { Pt<3> q = f.pts[static_cast<size_t>(ap[static_cast<size_t>(1 - d)])];
                for (int x : r.e[3][k]) if (pt(m.getFaces()[static_cast<size_t>(x)].getCenter()) == q && exp.count({e, x}) > got.count({e, x})) { face = x; break; } }
            VH_CHECK(c, face >= 0, "tessellation-apex", "tetrahedron " << pos << " of cell " << k << " is not made of an edge, the center of its face and the center of the cell");
            got.insert({e, face}); vol += tet(f.pts[static_cast<size_t>(f.cells[pos][0])], f.pts[static_cast<size_t>(f.cells[pos][1])], f.pts[static_cast<size_t>(f.cells[pos][2])], f.pts[static_cast<size_t>(f.cells[pos][3])]); tets++;
        }
        VH_CHECK(c, got == exp, "tessellation-complete", "the tetrahedra of cell " << k << " do not cover every edge of every face once");
        if (r.convex[k]) { double e = r.vol[k] * scale * scale * scale; VH_CHECK(c, std::fabs(vol - e) <= 1e-8 * e, "tessellation-volume", "tetrahedra of cell " << k << " have volume " << vol << " expected " << e); c.ev("volumes compared"); }
        c.ev("tessellated cells"); c.ev("tetrahedra", N);
    }
    VH_CHECK(c, pos == f.cells.size() && w.backwardCellIndexMapping.size() == tets, "cell-count", f.cells.size() << " cells exported, expected " << pos << "; " << w.backwardCellIndexMapping.size() << " of " << tets << " map entries");
    for (size_t i = r.v.size(); i < used.size(); i++) VH_CHECK(c, used[i], "unused-point", "appended point " << i << " is not used");
}
static void dispatch(vh::Case& c, const Ref<3>& r, int mode, double scale) {
    c.desc(r.text()); c.distinct(vh::comb(r.hash(), static_cast<uint64_t>(mode))); c.sample(r.text().substr(0, 150));
    switch (c.rng.below(3)) { case 0: run<UnstructuredMesh<3, size_t, double>>(c, r, mode, scale); break; case 1: if (bigMode()) run<UnstructuredMesh<3, size_t, double, 400>>(c, r, mode, scale); else run<UnstructuredMesh<3, size_t, double, 12>>(c, r, mode, scale); break; default: run<UnstructuredMesh<3, int, double>>(c, r, mode, scale); }
}
VH_SECTION(polyhedral, 220, 4000) {
    Ref<3> r = scramble<3>(random3(c.rng), c.rng); double sc = c.rng.pick(std::vector<double>{1, 1, 1e-4, 1e-7, 1e6}); for (auto& p : r.v) for (double& x : p) x *= sc;
    dispatch(c, r, static_cast<int>(c.rng.below(3)), sc);
}
VH_SECTION(mixed, 160, 3000) {
    Std3 s = randomStd3(c.rng); Ref<3> r = scramble<3>(s.ref, c.rng); double sc = c.rng.pick(std::vector<double>{1, 1e-5}); for (auto& p : r.v) for (double& x : p) x *= sc;
    dispatch(c, r, 1, sc);
}
// the default export (no types given) is polyhedral in 3D and polygonal in 2D
VH_SECTION(defaults, 60, 600) {
    Ref<3> r = scramble<3>(random3(c.rng), c.rng); c.desc(r.text()); c.distinct(r.hash()); UnstructuredMesh<3, size_t, double> m; fill<3>(m, r); m.initializeCenters(); std::string p = c.scratch + "/d.vtk";
    auto w = m.write(p, "title"); auto* vw = dynamic_cast<VTKMeshWriter<3>*>(w.get()); VH_CHECK(c, vw != nullptr, "writer", "no VTK writer returned");
    std::ifstream in(p, std::ios::binary); std::string t((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>()); Vtk f = parseVtk(t); VH_CHECK(c, f.err.empty() && f.title == "title", "vtk-syntax", f.err);
    size_t e = 0; for (auto& k : r.e[3]) for (int x : k) e += r.e[2][static_cast<size_t>(x)].size(); VH_CHECK(c, f.cells.size() == e && vw->getNumberOfCells() == e && vw->backwardCellIndexMapping.size() == e, "default-polyhedral", f.cells.size() << " tetrahedra, expected " << e);
    std::unique_ptr<MeshWriter<3>> w2; m.write(p, w2); VH_CHECK(c, w2 != nullptr, "writer", "null writer not replaced"); m.write(p, w2); std::ifstream in2(p, std::ios::binary); std::string t2((std::istreambuf_iterator<char>(in2)), std::istreambuf_iterator<char>()); Vtk f2 = parseVtk(t2);
    VH_CHECK(c, f2.err.empty() && f2.cells == f.cells && f2.types == f.types, "default-polyhedral", "the export with a reused writer and no types differs: " << f2.err); c.ev("default exports", 3);
}
VH_SECTION(large, 3, 25) { Big big(c.index); Ref<3> r = scramble<3>(random3(c.rng), c.rng); dispatch(c, r, static_cast<int>(c.rng.below(3)), 1); c.ev("vertices of large meshes", r.v.size()); }
