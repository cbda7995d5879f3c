#include "io.h"
#include <unistd.h>
#include <sys/stat.h>
struct Fp { std::vector<Pt<3>> v; std::vector<IV> faces, cells; std::string err; };
static Fp parseFpma(const std::string& t) {
    Fp o; std::istringstream s(t); long n, k, x; auto bad = [&](const char* m) { if (o.err.empty()) o.err = m; };
    if (!tokInt(s, n)) { bad("vertex count"); return o; } o.v.resize(static_cast<size_t>(n)); for (auto& p : o.v) for (double& d : p) if (!tokNum(s, d)) { bad("coordinates"); return o; }
    for (int part = 0; part < 2; part++) { if (!tokInt(s, n)) { bad("count"); return o; } for (long i = 0; i < n; i++) { IV l; if (!tokInt(s, k)) { bad("list size"); return o; } for (long j = 0; j < k; j++) { if (!tokInt(s, x)) { bad("index"); return o; } l.push_back(static_cast<int>(x)); } (part ? o.cells : o.faces).push_back(l); } }
    return o;
}
static Ref<3> polyRef(vh::Case& c) { Ref<3> r = scramble<3>(random3(c.rng), c.rng); double sc = c.rng.pick(std::vector<double>{1, 1, 1e-7, 1e6}); for (auto& p : r.v) for (double& x : p) x *= sc; return r; }
template<class M> void imp(vh::Case& c, const Ref<3>& r, const std::string& t, double tol) {
    M m; FPMAMeshReader<3> rd; for (int k = 0; k < 2; k++) { // loading twice gives the same mesh
        Opened in(c, t); rd.loadFromStream(in, m); checkMesh(c, m, r, tol);
        for (size_t f = 0; f < r.n(2); f++) { std::set<int> vs; for (auto s : m.getFaces()[f].getSubelements()) { vs.insert(static_cast<int>(m.getEdges()[s].getVertexAIndex())); vs.insert(static_cast<int>(m.getEdges()[s].getVertexBIndex())); } VH_CHECK(c, vs == r.closure(2, static_cast<int>(f), 0), "face-number", "face " << f << " of the file is another face of the mesh"); }
        auto ct = rd.getCellTypes(); VH_CHECK(c, ct.template getDataByPos<0>().size() == r.n(3), "cell-types", "one type per cell"); for (auto x : ct.template getDataByPos<0>()) VH_CHECK(c, x == MeshNativeType<3>::POLYHEDRON, "cell-types", "an FPMA cell is not a polyhedron");
        c.ev("imports");
    }
}
VH_SECTION(import, 300, 5000) {
    Ref<3> r = polyRef(c); Fmt f = randomFmt(c.rng); std::string t = fpmaText(c.rng, f, r); c.desc(t); c.distinct(vh::hashStr(t)); c.sample(t.substr(0, 120));
    switch (c.rng.below(3)) { case 0: imp<UnstructuredMesh<3, size_t, double>>(c, r, t, 0); break; case 1: imp<UnstructuredMesh<3, size_t, double, 16>>(c, r, t, 0); break; default: imp<UnstructuredMesh<3, int, float>>(c, r, t, 3e-7); }
}
template<class M> void trip(vh::Case& c, const Ref<3>& r) {
    typedef typename std::decay<decltype(std::declval<M>().getVertices()[0].getIndex())>::type IT;
    M m; fill<3>(m, r); FPMAMeshWriter<3, IT, double> w; std::ostringstream o; o.precision(17); w.writeToStream(o, m);
    Fp f = parseFpma(o.str()); VH_CHECK(c, f.err.empty(), "fpma-syntax", "the written file is not valid: " << f.err);
    VH_CHECK(c, f.v == r.v, "fpma-points", "coordinates differ"); VH_CHECK(c, f.faces.size() == r.n(2) && f.cells.size() == r.n(3), "fpma-counts", f.faces.size() << " faces, " << f.cells.size() << " cells");
    for (size_t i = 0; i < f.faces.size(); i++) { VH_CHECK(c, canonLoop(f.faces[i]) == canonLoop(r.loopOf(static_cast<int>(i))), "fpma-face", "face " << i << " is written as " << vh::strv(f.faces[i]) << " expected the loop " << vh::strv(r.loopOf(static_cast<int>(i)))); c.ev("exported faces"); }
    for (size_t i = 0; i < f.cells.size(); i++) { VH_CHECK(c, f.cells[i] == r.e[3][i], "fpma-cell", "cell " << i << " is written with faces " << vh::strv(f.cells[i]) << " expected " << vh::strv(r.e[3][i])); c.ev("exported cells"); }
    M b; FPMAMeshReader<3> rd; std::istringstream in(o.str()); rd.loadFromStream(in, b); checkMesh(c, b, r);
    std::ostringstream o2; o2.precision(17); FPMAMeshWriter<3, IT, double> w2; w2.writeToStream(o2, b); Fp g = parseFpma(o2.str()); VH_CHECK(c, g.err.empty() && g.v == f.v && g.cells == f.cells, "fpma-stable", "second export differs");
    c.ev("round trips");
}
VH_SECTION(roundTrip, 250, 4000) {
    Ref<3> r = polyRef(c); c.desc(r.text()); c.distinct(r.hash()); c.sample(r.text().substr(0, 120));
    switch (c.rng.below(3)) { case 0: trip<UnstructuredMesh<3, size_t, double>>(c, r); break; case 1: trip<UnstructuredMesh<3, size_t, double, 16>>(c, r); break; default: trip<UnstructuredMesh<3, int, double>>(c, r); }
}
VH_SECTION(files, 50, 400) {
    Ref<3> r = scramble<3>(random3(c.rng), c.rng); for (auto& q : r.v) for (double& x : q) x = static_cast<double>(std::lround(x * 64)) / 64; c.desc(r.text()); c.distinct(r.hash());
    UnstructuredMesh<3, size_t, double> m, b, d; fill<3>(m, r); std::string dir = c.scratch + (c.rng.chance(.4) ? "/data.vtk.d" : "/d"); mkdir(dir.c_str(), 0755); std::string p = dir + c.rng.pick(std::vector<std::string>{"/m.fpma", "/m.vtk.fpma", "/a b.fpma"}); auto w = m.write(p); VH_CHECK(c, w != nullptr && dynamic_cast<FPMAMeshWriter<3>*>(w.get()), "writer", "no FPMA writer returned");
    auto rd = b.load(p); VH_CHECK(c, rd != nullptr && dynamic_cast<FPMAMeshReader<3>*>(rd.get()), "reader", "no FPMA reader returned"); checkMesh(c, b, r, 1e-5);
    m.write(p, w, *rd); d.load(p); checkMesh(c, d, r, 1e-5);
    // FPMA -> VTK by changing the file name, the writer is replaced
    m.initializeCenters(); std::string q = c.scratch + "/m.vtk"; m.write(q, w, *rd); VH_CHECK(c, w != nullptr && dynamic_cast<VTKMeshWriter<3>*>(w.get()), "writer-change", "the writer was not replaced by a VTK writer");
    std::ifstream in(q, std::ios::binary); std::string t((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>()); Vtk f = parseVtk(t); VH_CHECK(c, f.err.empty(), "writer-change", "converted file: " << f.err);
    m.write(p, w, *rd); VH_CHECK(c, dynamic_cast<FPMAMeshWriter<3>*>(w.get()), "writer-change", "the writer was not replaced by an FPMA writer"); UnstructuredMesh<3, size_t, double> e; e.load(p); checkMesh(c, e, r, 1e-5);
    // more edges than the storage holds are rejected
    UnstructuredMesh<3, size_t, double, 3> small; size_t big = 0; for (auto& x : r.e[2]) big = std::max(big, x.size()); if (big > 3) { VH_THROWS(c, small.load(p), "capacity", "a face with " << big << " edges fits into 3"); c.ev("capacity rejections"); }
    unlink(p.c_str()); unlink(q.c_str()); c.ev("files written", 4);
}
VH_SECTION(large, 3, 30) {
    Big big(c.index); Ref<3> r = scramble<3>(random3(c.rng), c.rng); Fmt f = randomFmt(c.rng); std::string t = fpmaText(c.rng, f, r); c.desc(r.text()); c.distinct(vh::hashStr(t));
    if (c.rng.chance(.5)) { imp<UnstructuredMesh<3, size_t, double>>(c, r, t, 0); trip<UnstructuredMesh<3, unsigned, double, 400>>(c, r); } else { imp<UnstructuredMesh<3, int, double, 400>>(c, r, t, 0); trip<UnstructuredMesh<3, size_t, double>>(c, r); } c.ev("vertices of large meshes", r.v.size());
}
VH_SECTION(sparse, 12, 120) { // vertex numbers far apart, so that parts of the numbers coincide
    Ref<3> r = scramble<3>(random3(c.rng), c.rng); IV mp = sparseNumbers<3>(c.rng, r.v); for (auto& e : r.e[1]) for (int& x : e) x = mp[static_cast<size_t>(x)];
    Fmt f = randomFmt(c.rng); std::string t = fpmaText(c.rng, f, r); c.desc("sparse " + std::to_string(r.v.size())); c.distinct(vh::hashStr(t));
    imp<UnstructuredMesh<3, unsigned, double>>(c, r, t, 0); trip<UnstructuredMesh<3, size_t, double>>(c, r); c.ev("vertices of large meshes", r.v.size());
}
