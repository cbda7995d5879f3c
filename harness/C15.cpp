#include "scale.h"
#include "GTMesh/UnstructuredMesh/MeshFunctions/EdgesOrientation.h"
VH_SECTION(orient2d, 500, 6000) {
    Ref<2> r = scramble<2>(random2(c.rng), c.rng); c.desc(r.text()); c.distinct(r.hash()); c.sample(r.text().substr(0, 200));
    turns<2>(c, r, [&](const Ref<2>& r) { auto& m = living<2, UnstructuredMesh<2, size_t, double>>(r); m.initializeCenters();
    for (size_t k = 0; k < r.n(2); k++) if (r.convex[k]) { auto rc = refCenters<2>(r)[2][k];
        for (int e : r.e[2][k]) { Pt<2> a = sub<2>(vp<2>(r, r.e[1][static_cast<size_t>(e)][0]), rc), b = sub<2>(vp<2>(r, r.e[1][static_cast<size_t>(e)][1]), rc); double z = a[0] * b[1] - a[1] * b[0]; if (std::fabs(z) < 1e-9) continue;
            bool g1 = edgeIsLeft(m, k, static_cast<size_t>(e)), g2 = edgeIsLeft(m, m.getCells()[k], m.getEdges()[static_cast<size_t>(e)]);
            VH_CHECK(c, g1 == (z > 0) && g2 == (z > 0), "orientation2d", "edge " << e << " of cell " << k << ": reported " << g1 << "/" << g2 << " expected " << (z > 0)); c.ev("edge orientations"); c.ev(z > 0 ? "left edges" : "right edges"); } }
    c.ev("meshes"); });
}
VH_SECTION(orient2dFloat, 60, 600) {
    Ref<2> r = scramble<2>(random2(c.rng), c.rng); c.desc(r.text()); c.distinct(r.hash());
    turns<2>(c, r, [&](const Ref<2>& r) { auto& m = living<2, UnstructuredMesh<2, int, float>>(r); m.initializeCenters();
    for (size_t k = 0; k < r.n(2); k++) if (r.convex[k]) { auto rc = refCenters<2>(r)[2][k];
        for (int e : r.e[2][k]) { Pt<2> a = sub<2>(vp<2>(r, r.e[1][static_cast<size_t>(e)][0]), rc), b = sub<2>(vp<2>(r, r.e[1][static_cast<size_t>(e)][1]), rc); double z = a[0] * b[1] - a[1] * b[0]; if (std::fabs(z) < 1e-2) continue;
            bool g1 = edgeIsLeft(m, static_cast<int>(k), e); VH_CHECK(c, g1 == (z > 0), "orientation2d", "edge " << e << " of cell " << k << ": reported " << g1 << " expected " << (z > 0)); c.ev("edge orientations"); } }
    c.ev("meshes"); });
}
template<class M> void o3(vh::Case& c, const Ref<3>& r, double eps) {
    M& m = living<3, M>(r); m.initializeCenters(); if (c.rng.chance(.3)) { m.setupBoundaryCells(); m.setupBoundaryCellsCenters(); }
    auto rc = refCenters<3>(r); auto all = edgesOrientation(m); auto nrm = m.computeFaceNormals();
    typedef typename std::decay<decltype(m.getVertices()[0].getIndex())>::type IT;
    VH_CHECK(c, all.template getDataByPos<0>().size() == r.n(2), "orientation-count", "one list per face");
    for (size_t f = 0; f < r.n(2); f++) {
        // outward area vector of the left cell (or inward of the only right one)
        Pt<3> n = newell(r.v, r.loopOf(static_cast<int>(f))); double s = r.L[f] >= 0 ? dot<3>(n, sub<3>(rc[2][f], rc[3][static_cast<size_t>(r.L[f])])) : -dot<3>(n, sub<3>(rc[2][f], rc[3][static_cast<size_t>(r.R[f])])); if (s < 0) n = mul<3>(n, -1); n = mul<3>(n, 1 / len<3>(n));
        const std::vector<bool>& o = all.template getDataByPos<0>()[f]; VH_CHECK(c, o.size() == r.e[2][f].size(), "orientation-count", "face " << f << " has " << o.size() << " flags for " << r.e[2][f].size() << " edges");
        std::map<int, int> start; // consistently oriented edges form a closed loop: every vertex starts exactly one
        for (size_t i = 0; i < o.size(); i++) {
            const IV& ed = r.e[1][static_cast<size_t>(r.e[2][f][i])]; double z = dot<3>(cross(sub<3>(vp<3>(r, ed[0]), rc[2][f]), sub<3>(vp<3>(r, ed[1]), rc[2][f])), n);
            if (std::fabs(z) < eps) { start.clear(); break; }
            VH_CHECK(c, o[i] == (z > 0), "orientation3d", "edge " << r.e[2][f][i] << " of face " << f << ": reported " << o[i] << " expected " << (z > 0) << " (triple product " << z << ")");
            start[o[i] ? ed[0] : ed[1]]++; c.ev("edge orientations"); c.ev(z > 0 ? "left edges" : "right edges");
        }
        for (auto& p : start) VH_CHECK(c, p.second == 1, "orientation-loop", "face " << f << ": its oriented edges do not form a loop");
        if (c.rng.chance(.1)) { size_t i = c.rng.below(o.size()); int e = r.e[2][f][i];
            bool g = edgeIsLeft(m, static_cast<IT>(f), static_cast<IT>(e)), g2 = edgeIsLeft(m, m.getFaces()[f], m.getEdges()[static_cast<size_t>(e)], nrm.template getDataByPos<0>()[f]);
            VH_CHECK(c, g == o[i] && g2 == o[i], "orientation-overloads", "the overloads disagree for edge " << e << " of face " << f); c.ev("overload comparisons"); }
    }
    c.ev("meshes");
}
VH_SECTION(orient3d, 300, 4000) { Gen3 o; o.convex = true; o.merge = false; Ref<3> r = scramble<3>(random3(c.rng, o), c.rng); c.desc(r.text()); c.distinct(r.hash()); c.sample(r.text().substr(0, 200)); turns<3>(c, r, [&](const Ref<3>& r) { o3<UnstructuredMesh<3, size_t, double>>(c, r, 1e-9); }); }
VH_SECTION(orient3dReserve, 100, 1000) { Gen3 o; o.convex = true; o.merge = false; Ref<3> r = scramble<3>(random3(c.rng, o), c.rng); c.desc(r.text()); c.distinct(r.hash()); turns<3>(c, r, [&](const Ref<3>& r) { o3<UnstructuredMesh<3, unsigned, double, 12>>(c, r, 1e-9); }); }
// the size of the mesh does not matter for the orientation
VH_SECTION(scaled2d, 80, 800) {
    Ref<2> r = scramble<2>(random2(c.rng), c.rng); double s = pow2(randomScale(c.rng, 60)); c.desc(r.text()); c.distinct(vh::comb(r.hash(), static_cast<uint64_t>(s > 1)));
    UnstructuredMesh<2, size_t, double> a, b; fill<2>(a, r); fill<2>(b, scaled<2>(r, s)); a.initializeCenters(); b.initializeCenters(); auto rc = refCenters<2>(r);
    for (size_t k = 0; k < r.n(2); k++) for (int e : r.e[2][k]) { Pt<2> p = sub<2>(vp<2>(r, r.e[1][static_cast<size_t>(e)][0]), rc[2][k]), q = sub<2>(vp<2>(r, r.e[1][static_cast<size_t>(e)][1]), rc[2][k]); double z = p[0] * q[1] - p[1] * q[0]; if (std::fabs(z) < 1e-9) continue;
        bool x = edgeIsLeft(a, k, static_cast<size_t>(e)), y = edgeIsLeft(b, k, static_cast<size_t>(e)); VH_CHECK(c, x == (z > 0) && y == x, "orientation-scaled", "edge " << e << " of cell " << k << ": " << x << ", in the mesh scaled by " << s << " " << y << ", expected " << (z > 0)); c.ev("scaled orientations"); }
    c.ev("scaled meshes");
}
VH_SECTION(scaled3d, 80, 800) {
    Gen3 o; o.convex = true; o.merge = false; Ref<3> r = scramble<3>(random3(c.rng, o), c.rng); double s = pow2(randomScale(c.rng, 40)); c.desc(r.text()); c.distinct(vh::comb(r.hash(), static_cast<uint64_t>(s > 1)));
    UnstructuredMesh<3, size_t, double> a, b; fill<3>(a, r); fill<3>(b, scaled<3>(r, s)); a.initializeCenters(); b.initializeCenters(); auto rc = refCenters<3>(r);
    auto x = edgesOrientation(a), y = edgesOrientation(b);
    for (size_t f = 0; f < r.n(2); f++) { Pt<3> n = newell(r.v, r.loopOf(static_cast<int>(f))); double A = len<3>(n);
        for (size_t i = 0; i < r.e[2][f].size(); i++) { const IV& ed = r.e[1][static_cast<size_t>(r.e[2][f][i])]; if (std::fabs(dot<3>(cross(sub<3>(vp<3>(r, ed[0]), rc[2][f]), sub<3>(vp<3>(r, ed[1]), rc[2][f])), n)) < 1e-9 * A) continue;
            VH_CHECK(c, x.getDataByPos<0>()[f][i] == y.getDataByPos<0>()[f][i], "orientation-scaled", "edge " << r.e[2][f][i] << " of face " << f << " changes its orientation when the mesh is scaled by " << s); c.ev("scaled orientations"); } }
    c.ev("scaled meshes");
}
VH_SECTION(large3d, 3, 20) { Big big(c.index); Gen3 o; o.convex = true; o.merge = false; Ref<3> r = scramble<3>(random3(c.rng, o), c.rng); c.desc(r.text()); c.distinct(r.hash()); o3<UnstructuredMesh<3, unsigned, double>>(c, r, 1e-8); c.ev("cells of large meshes", r.n(3)); }
