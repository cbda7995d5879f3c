#include "io.h"
#include <unistd.h>
template<class M> void load3(vh::Case& c, M& m, const std::string& text, const Std3& s, double tol) {
    VTKMeshReader<3> rd; Opened in(c, text); rd.loadFromStream(in, m); if (c.rng.chance(.2)) { rd.loadFromStream(in, m); c.ev("streams read twice"); }
    checkMesh(c, m, s.ref, tol);
    auto ct = rd.getCellTypes(); VH_CHECK(c, ct.template getDataByPos<0>().size() == s.types.size(), "cell-types", "one type per cell");
    for (size_t i = 0; i < s.types.size(); i++) { VH_CHECK(c, ct.template getDataByPos<0>()[i] == native3(s.types[i]), "cell-types", "type of cell " << i << " is " << ct.template getDataByPos<0>()[i] << " for VTK type " << s.types[i]); c.ev("types compared"); }
}
template<class M> void load2(vh::Case& c, M& m, const std::string& text, const Std2& s, double tol) {
    VTKMeshReader<2> rd; Opened in(c, text); rd.loadFromStream(in, m); if (c.rng.chance(.2)) { rd.loadFromStream(in, m); c.ev("streams read twice"); }
    checkMesh(c, m, s.ref, tol);
    auto ct = rd.getCellTypes(); VH_CHECK(c, ct.template getDataByPos<0>().size() == s.types.size(), "cell-types", "one type per cell");
    for (size_t i = 0; i < s.types.size(); i++) { VH_CHECK(c, ct.template getDataByPos<0>()[i] == native2(s.types[i]), "cell-types", "type of cell " << i << " for VTK type " << s.types[i]); c.ev("types compared"); }
}
VH_SECTION(import3d, 400, 6000) {
    Std3 s = randomStd3(c.rng); Fmt f = randomFmt(c.rng); std::string t = vtkText<3>(c.rng, f, s.v, s.cells, s.types); c.desc(t); c.distinct(vh::hashStr(t)); c.sample(t.substr(0, 150));
    switch (c.rng.below(4)) {
    case 0: { UnstructuredMesh<3, size_t, double> m; load3(c, m, t, s, 0); load3(c, m, t, s, 0); break; }
    case 1: { UnstructuredMesh<3, size_t, double, 4> m; load3(c, m, t, s, 0); break; }
    case 2: { UnstructuredMesh<3, int, float> m; load3(c, m, t, s, 3e-7); break; }
    default: { UnstructuredMesh<3, unsigned int, long double, 8> m; load3(c, m, t, s, 1e-15); }
    }
}
VH_SECTION(import2d, 400, 6000) {
    Std2 s = randomStd2(c.rng); Fmt f = randomFmt(c.rng); std::string t = vtkText<2>(c.rng, f, s.v, s.cells, s.types); c.desc(t); c.distinct(vh::hashStr(t)); c.sample(t.substr(0, 150));
    if (c.rng.chance(.6)) { UnstructuredMesh<2, size_t, double> m; load2(c, m, t, s, 0); load2(c, m, t, s, 0); } else { UnstructuredMesh<2, int, float> m; load2(c, m, t, s, 3e-7); }
}
VH_SECTION(importPath, 60, 400) {
    Fmt f = randomFmt(c.rng); std::string dir = c.scratch + "/", name = c.rng.pick(std::vector<std::string>{"a.vtk", "some mesh.vtk", "x.y.vtk", "m.fpma.vtk"}); c.distinct(c.rng.u64());
    if (c.rng.chance(.5)) {
        Std3 s = randomStd3(c.rng); std::string t = vtkText<3>(c.rng, f, s.v, s.cells, s.types); { std::ofstream o(dir + name, std::ios::binary); o << t; }
        UnstructuredMesh<3, size_t, double> m; auto rd = m.load(dir + name); VH_CHECK(c, rd != nullptr, "load-reader", "load returned no reader"); checkMesh(c, m, s.ref);
        auto ct = rd->getCellTypes(); for (size_t i = 0; i < s.types.size(); i++) VH_CHECK(c, ct.getDataByPos<0>()[i] == native3(s.types[i]), "cell-types", "type of cell " << i);
        VH_THROWS(c, m.load(dir + "missing.vtk"), "missing-file", "loading a missing file");
    } else {
        Std2 s = randomStd2(c.rng); std::string t = vtkText<2>(c.rng, f, s.v, s.cells, s.types); { std::ofstream o(dir + name, std::ios::binary); o << t; }
        UnstructuredMesh<2, size_t, double> m; auto rd = m.load(dir + name); VH_CHECK(c, rd != nullptr, "load-reader", "load returned no reader"); checkMesh(c, m, s.ref);
        auto ct = rd->getCellTypes(); for (size_t i = 0; i < s.types.size(); i++) VH_CHECK(c, ct.getDataByPos<0>()[i] == native2(s.types[i]), "cell-types", "type of cell " << i);
        VH_THROWS(c, m.load(dir + "missing.vtk"), "missing-file", "loading a missing file");
    }
    unlink((dir + name).c_str()); c.ev("files loaded");
}
// loading a different mesh into an already used object gives the same as a fresh one
VH_SECTION(importReuse, 150, 2000) {
    UnstructuredMesh<3, size_t, double> m; UnstructuredMesh<2, size_t, double> n; VTKMeshReader<3> r3; VTKMeshReader<2> r2; uint64_t h = 0;
    for (int k = 0; k < 3; k++) {
        Fmt f = randomFmt(c.rng);
        Std3 s = randomStd3(c.rng); std::string t = vtkText<3>(c.rng, f, s.v, s.cells, s.types); h = vh::hashStr(t, h + 1); Opened in(c, t); r3.loadFromStream(in, m); checkMesh(c, m, s.ref);
        auto ct = r3.getCellTypes(); VH_CHECK(c, ct.getDataByPos<0>().size() == s.types.size(), "reuse-types", "reader keeps types of an earlier file"); for (size_t i = 0; i < s.types.size(); i++) VH_CHECK(c, ct.getDataByPos<0>()[i] == native3(s.types[i]), "reuse-types", "type of cell " << i);
        Std2 q = randomStd2(c.rng); t = vtkText<2>(c.rng, f, q.v, q.cells, q.types); Opened in2(c, t); r2.loadFromStream(in2, n); checkMesh(c, n, q.ref);
        if (c.rng.chance(.5)) { m.initializeCenters(); m.setupBoundaryCells(); n.initializeCenters(); n.setupBoundaryCells(); }
        c.ev("reloads", 2);
    }
    c.distinct(h);
}
// VTK_PIXEL and VTK_VOXEL number their vertices lexicographically
VH_SECTION(probe_pixel, 20, 20) {
    double w = c.rng.real(1, 3), h = c.rng.real(1, 3); std::vector<Pt<2>> v{{{0, 0}}, {{w, 0}}, {{0, h}}, {{w, h}}}; Fmt f; std::string t = vtkText<2>(c.rng, f, v, {IV{0, 1, 2, 3}}, IV{8}); c.desc(t); c.distinct(vh::hashStr(t));
    UnstructuredMesh<2, size_t, double> m; VTKMeshReader<2> rd; Opened in(c, t); rd.loadFromStream(in, m); std::set<std::pair<long, long>> e; for (auto& x : m.getEdges()) e.insert({std::min<long>(x.getVertexAIndex(), x.getVertexBIndex()), std::max<long>(x.getVertexAIndex(), x.getVertexBIndex())});
    VH_CHECK(c, (e == std::set<std::pair<long, long>>{{0, 1}, {1, 3}, {2, 3}, {0, 2}}), "pixel-order", "a VTK_PIXEL cell is imported with crossing edges");
}
VH_SECTION(probe_voxel, 20, 20) {
    double w = c.rng.real(1, 3); std::vector<Pt<3>> v; for (int i = 0; i < 8; i++) v.push_back(Pt<3>{{(i & 1) * w, ((i >> 1) & 1) * 1., (i >> 2) * 2.}}); Fmt f; std::string t = vtkText<3>(c.rng, f, v, {IV{0, 1, 2, 3, 4, 5, 6, 7}}, IV{11}); c.desc(t); c.distinct(vh::hashStr(t));
    UnstructuredMesh<3, size_t, double> m; VTKMeshReader<3> rd; Opened in(c, t); rd.loadFromStream(in, m); bool ok = m.getEdges().size() == 12;
    for (auto& x : m.getEdges()) { size_t d = x.getVertexAIndex() ^ x.getVertexBIndex(); ok = ok && (d == 1 || d == 2 || d == 4); }
    VH_CHECK(c, ok, "voxel-order", "a VTK_VOXEL cell is imported with crossing edges");
}
// hundreds of vertices: edges and faces are identified by vertex numbers of any size
VH_SECTION(large2d, 3, 30) { Big big(c.index); Std2 s = randomStd2(c.rng); Fmt f = randomFmt(c.rng); std::string t = vtkText<2>(c.rng, f, s.v, s.cells, s.types); c.distinct(vh::hashStr(t)); c.desc(s.ref.text()); if (c.rng.chance(.6)) { UnstructuredMesh<2, size_t, double> m; load2(c, m, t, s, 0); } else { UnstructuredMesh<2, int, float> m; load2(c, m, t, s, 3e-7); } c.ev("vertices of large meshes", s.v.size()); }
VH_SECTION(large3d, 3, 30) { Big big(c.index); Std3 s = randomStd3(c.rng); Fmt f = randomFmt(c.rng); std::string t = vtkText<3>(c.rng, f, s.v, s.cells, s.types); c.distinct(vh::hashStr(t)); c.desc(s.ref.text()); if (c.rng.chance(.6)) { UnstructuredMesh<3, size_t, double> m; load3(c, m, t, s, 0); } else { UnstructuredMesh<3, int, float, 8> m; load3(c, m, t, s, 3e-7); } c.ev("vertices of large meshes", s.v.size()); }
// vertex numbers far apart, so that parts of the numbers coincide
VH_SECTION(sparse2d, 14, 140) { Sparse sp; Std2 s = randomStd2(c.rng); Fmt f = randomFmt(c.rng); std::string t = vtkText<2>(c.rng, f, s.v, s.cells, s.types); c.distinct(vh::hashStr(t)); c.desc(s.ref.n(0) < 3000 ? s.ref.text() : "sparse " + std::to_string(s.ref.n(0))); UnstructuredMesh<2, size_t, double> m; load2(c, m, t, s, 0); c.ev("vertices of large meshes", s.v.size()); }
VH_SECTION(sparse3d, 14, 140) { Sparse sp; Std3 s = randomStd3(c.rng); Fmt f = randomFmt(c.rng); std::string t = vtkText<3>(c.rng, f, s.v, s.cells, s.types); c.distinct(vh::hashStr(t)); c.desc(s.ref.n(0) < 3000 ? s.ref.text() : "sparse " + std::to_string(s.ref.n(0))); UnstructuredMesh<3, unsigned, double> m; load3(c, m, t, s, 0); c.ev("vertices of large meshes", s.v.size()); }
// more elements than 16 bits can number
VH_SECTION(huge2d, 1, 4) {
    int n = 258 + static_cast<int>(c.rng.below(8)); Std2 s; for (int j = 0; j <= n; j++) for (int i = 0; i <= n; i++) s.v.push_back(Pt<2>{{static_cast<double>(i), static_cast<double>(j)}});
    Poly2 P; P.v = s.v; for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) { int a = j * (n + 1) + i; P.cells.push_back(IV{a, a + 1, a + n + 2, a + n + 1}); s.types.push_back(9); } s.cells = P.cells; s.ref = fromPoly2(P, Affine<2>::identity());
    Fmt f = randomFmt(c.rng); std::string t = vtkText<2>(c.rng, f, s.v, s.cells, s.types); c.distinct(vh::hashStr(t)); c.desc("square grid " + std::to_string(n));
    UnstructuredMesh<2, unsigned, double> m; load2(c, m, t, s, 0); c.ev("vertices of large meshes", s.v.size());
}
