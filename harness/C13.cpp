#include "scale.h"
// sets up the boundary cells in some cases: normals must not depend on it
template<class M> bool maybeBoundary(vh::Case& c, M& m) { if (c.rng.chance(.4)) { m.setupBoundaryCells(); m.setupBoundaryCellsCenters(); c.ev("meshes with boundary cells"); return true; } return false; }
template<class M> void n2(vh::Case& c, const Ref<2>& r, double tol) {
    M& m = living<2, M>(r); m.initializeCenters(); maybeBoundary(c, m);
    auto n = m.computeFaceNormals(); VH_CHECK(c, n.template getDataByPos<0>().size() == r.n(1), "normal-count", "one normal per face");
    std::vector<Pt<2>> sum(r.n(2), Pt<2>{{0, 0}});
    for (size_t f = 0; f < r.n(1); f++) {
        Pt<2> d = sub<2>(vp<2>(r, r.e[1][f][1]), vp<2>(r, r.e[1][f][0])); double l = len<2>(d); Pt<2> e{{d[1] / l, -d[0] / l}};
        VH_CHECK(c, nearP<2>(n.template getDataByPos<0>()[f], e, tol), "normal2d", "edge " << f << " has normal " << ps<2>(n.template getDataByPos<0>()[f]) << " expected " << ps<2>(e)); c.ev("normals");
        if (r.L[f] >= 0 && r.R[f] >= 0) c.ev("interior faces");
    }
    c.ev("meshes");
}
VH_SECTION(normals2d, 400, 5000) { Ref<2> r = scramble<2>(random2(c.rng), c.rng); c.desc(r.text()); c.distinct(r.hash()); c.sample(r.text().substr(0, 200)); turns<2>(c, r, [&](const Ref<2>& r) { n2<UnstructuredMesh<2, size_t, double>>(c, r, 1e-11); }); }
VH_SECTION(normals2dFloat, 100, 1000) { Ref<2> r = scramble<2>(random2(c.rng), c.rng); c.desc(r.text()); c.distinct(r.hash()); turns<2>(c, r, [&](const Ref<2>& r) { n2<UnstructuredMesh<2, int, float>>(c, r, 5e-5); }); }
template<unsigned D, class NV> void checkN(vh::Case& c, const NV& n, const Ref<D>& r, const std::vector<double>& area, double tol, const char* kind) {
    auto rc = refCenters<D>(r); VH_CHECK(c, n.size() == r.n(D - 1), kind, "one normal per face");
    std::vector<Pt<D>> sum(r.n(D)); for (auto& p : sum) p.fill(0);
    for (size_t f = 0; f < n.size(); f++) {
        Pt<D> v; for (unsigned i = 0; i < D; i++) v[i] = n[f][i];
        VH_CHECK(c, vh::nearAbs(len<D>(v), 1, tol), kind, "normal of face " << f << " has length " << len<D>(v));
        IV es; r.down(D - 1, static_cast<int>(f), 1, es);
        for (int e : es) { Pt<D> d = sub<D>(vp<D>(r, r.e[1][static_cast<size_t>(e)][1]), vp<D>(r, r.e[1][static_cast<size_t>(e)][0])); VH_CHECK(c, vh::nearAbs(dot<D>(d, v) / len<D>(d), 0, 20 * tol), kind, "normal of face " << f << " is not perpendicular to its edge " << e << ": cosine " << dot<D>(d, v) / len<D>(d)); }
        double s = D <= 3 ? 1 : -1; // up to 3D from left to right, in higher dimension towards the left cell
        if (r.L[f] >= 0) VH_CHECK(c, s * dot<D>(v, sub<D>(rc[D - 1][f], rc[D][static_cast<size_t>(r.L[f])])) > 0, kind, "normal of face " << f << " points to the wrong side of its left cell " << r.L[f]);
        if (r.R[f] >= 0) VH_CHECK(c, s * dot<D>(v, sub<D>(rc[D - 1][f], rc[D][static_cast<size_t>(r.R[f])])) < 0, kind, "normal of face " << f << " points to the wrong side of its right cell " << r.R[f]);
        if (r.L[f] >= 0) sum[static_cast<size_t>(r.L[f])] = add<D>(sum[static_cast<size_t>(r.L[f])], mul<D>(v, area[f])); else c.ev("faces with a right cell only");
        if (r.R[f] >= 0) sum[static_cast<size_t>(r.R[f])] = add<D>(sum[static_cast<size_t>(r.R[f])], mul<D>(v, -area[f]));
        c.ev("normals");
    }
    for (size_t i = 0; i < sum.size(); i++) { VH_CHECK(c, len<D>(sum[i]) < 100 * tol, kind, "area vectors of cell " << i << " do not cancel: " << ps<D>(sum[i])); c.ev("closed cells"); }
}
template<class M> void n3(vh::Case& c, const Ref<3>& r, double tol) {
    M& m = living<3, M>(r); if (c.rng.chance(.5)) m.initializeCenters(); else m.template initializeCenters<METHOD_TESSELLATED>(); maybeBoundary(c, m);
    std::vector<double> area; for (size_t f = 0; f < r.n(2); f++) area.push_back(len<3>(newell(r.v, r.loopOf(static_cast<int>(f)))));
    auto n = m.computeFaceNormals(); checkN<3>(c, n.template getDataByPos<0>(), r, area, tol, "normal3d");
    auto t = m.template computeFaceNormals<METHOD_TESSELLATED>(); checkN<3>(c, t.template getDataByPos<0>(), r, area, tol, "normal3d-tessellated");
    c.ev("meshes");
}
VH_SECTION(normals3d, 300, 4000) { Gen3 o; o.convex = true; o.merge = false; Ref<3> r = scramble<3>(random3(c.rng, o), c.rng); c.desc(r.text()); c.distinct(r.hash()); c.sample(r.text().substr(0, 200)); turns<3>(c, r, [&](const Ref<3>& r) { n3<UnstructuredMesh<3, size_t, double>>(c, r, 1e-9); }); }
VH_SECTION(normals3dReserve, 100, 1000) { Gen3 o; o.convex = true; o.merge = false; Ref<3> r = scramble<3>(random3(c.rng, o), c.rng); c.desc(r.text()); c.distinct(r.hash()); turns<3>(c, r, [&](const Ref<3>& r) { n3<UnstructuredMesh<3, unsigned, double, 12>>(c, r, 1e-9); }); }
VH_SECTION(normals3dFloat, 60, 600) { Gen3 o; o.convex = true; o.merge = false; o.maxN = 2; Ref<3> r = scramble<3>(random3(c.rng, o), c.rng); c.desc(r.text()); c.distinct(r.hash()); turns<3>(c, r, [&](const Ref<3>& r) { n3<UnstructuredMesh<3, int, float, 12>>(c, r, 1e-3); }); }
template<class M> void n4(vh::Case& c, const Ref<4>& r) {
    M& m = living<4, M>(r); if (c.rng.chance(.5)) { m.initializeCenters(); maybeBoundary(c, m); } auto ms = m.computeElementMeasures(); std::vector<double> area(ms.template getDataByDim<3>().begin(), ms.template getDataByDim<3>().end());
    auto n = m.computeFaceNormals(); checkN<4>(c, n.template getDataByPos<0>(), r, area, 1e-9, "normal4d");
    auto cen = m.computeElementCenters(); auto n2 = computeFaceNormals<METHOD_DEFAULT>(cen, m); checkN<4>(c, n2.template getDataByPos<0>(), r, area, 1e-9, "normal4d-centers"); c.ev("meshes");
}
VH_SECTION(normals4d, 60, 600) { Ref<4> r = scramble<4>(random4(c.rng), c.rng); c.desc(r.text()); c.distinct(r.hash()); turns<4>(c, r, [&](const Ref<4>& r) { n4<UnstructuredMesh<4, size_t, double>>(c, r); }); }
VH_SECTION(normals4dReserve, 30, 300) { Ref<4> r = scramble<4>(random4(c.rng), c.rng); c.desc(r.text()); c.distinct(r.hash()); turns<4>(c, r, [&](const Ref<4>& r) { n4<UnstructuredMesh<4, unsigned, double, 8, 6>>(c, r); }); }
// the size of the mesh does not matter for the normals
template<unsigned D, class M, ComputationMethod meth> void scale(vh::Case& c, const Ref<D>& r, int lim, double tol) {
    double s = pow2(randomScale(c.rng, lim)); M a, b; fill<D>(a, r); fill<D>(b, scaled<D>(r, s)); a.template initializeCenters<meth>(); b.template initializeCenters<meth>();
    auto x = a.template computeFaceNormals<meth>(), y = b.template computeFaceNormals<meth>();
    for (size_t f = 0; f < r.n(D - 1); f++) { VH_CHECK(c, nearRelP<D>(x.template getDataByPos<0>()[f], y.template getDataByPos<0>()[f], 1, 1, tol), "normal-scaled", "normal of face " << f << " is " << ps<D>(x.template getDataByPos<0>()[f]) << ", of the mesh scaled by " << s << " " << ps<D>(y.template getDataByPos<0>()[f])); c.ev("scaled normals"); }
    c.ev("scaled meshes"); c.distinct(vh::comb(r.hash(), static_cast<uint64_t>(s > 1)));
}
VH_SECTION(scaled2d, 60, 800) { Ref<2> r = scramble<2>(random2(c.rng), c.rng); c.desc(r.text()); scale<2, UnstructuredMesh<2, size_t, double>, METHOD_DEFAULT>(c, r, 60, 1e-12); scale<2, UnstructuredMesh<2, int, float>, METHOD_DEFAULT>(c, r, 14, 1e-5); }
VH_SECTION(scaled3d, 60, 800) { Gen3 o; o.convex = true; o.merge = false; Ref<3> r = scramble<3>(random3(c.rng, o), c.rng); c.desc(r.text()); scale<3, UnstructuredMesh<3, size_t, double>, METHOD_DEFAULT>(c, r, 40, 1e-9); scale<3, UnstructuredMesh<3, size_t, double>, METHOD_TESSELLATED>(c, r, 40, 1e-9); }
VH_SECTION(scaled4d, 20, 200) { Ref<4> r = scramble<4>(random4(c.rng), c.rng); c.desc(r.text()); scale<4, UnstructuredMesh<4, size_t, double>, METHOD_DEFAULT>(c, r, 30, 1e-9); }
VH_SECTION(large, 3, 20) { Big big(c.index); Ref<2> r = scramble<2>(random2(c.rng), c.rng); c.desc(r.text()); c.distinct(r.hash()); n2<UnstructuredMesh<2, unsigned, double>>(c, r, 1e-10); Gen3 o; o.convex = true; o.merge = false; Ref<3> q = scramble<3>(random3(c.rng, o), c.rng); c.desc(q.text()); n3<UnstructuredMesh<3, size_t, double>>(c, q, 1e-8); c.ev("cells of large meshes", r.n(2) + q.n(3)); }
