#include "scale.h"
template<unsigned K, unsigned D, class CT> void cmpDim(vh::Case& c, const CT& cen, const std::array<std::vector<Pt<D>>, D + 1>& ref, double tol, const char* kind) {
    auto& v = cen.template getDataByDim<K>();
    VH_CHECK(c, v.size() == ref[K].size(), kind, "centers of dimension " << K << ": " << v.size() << " values for " << ref[K].size() << " elements");
    for (size_t i = 0; i < v.size(); i++) { VH_CHECK(c, nearP<D>(v[i], ref[K][i], tol), kind, "center of element " << i << " of dimension " << K << " is " << ps<D>(v[i]) << " expected " << ps<D>(ref[K][i])); c.ev("centers"); }
}
template<unsigned K, unsigned D> struct CmpAll { template<class CT> static void run(vh::Case& c, const CT& cen, const std::array<std::vector<Pt<D>>, D + 1>& ref, double tol, const char* kind) { cmpDim<K, D>(c, cen, ref, tol, kind); CmpAll<K - 1, D>::run(c, cen, ref, tol, kind); } };
template<unsigned D> struct CmpAll<0, D> { template<class CT> static void run(vh::Case&, const CT&, const std::array<std::vector<Pt<D>>, D + 1>&, double, const char*) {} };
template<unsigned D, class M> void checkStored(vh::Case& c, M& m, const std::array<std::vector<Pt<D>>, D + 1>& ref, double tol) {
    for (size_t i = 0; i < ref[D - 1].size(); i++) VH_CHECK(c, nearP<D>(m.getFaces()[i].getCenter(), ref[D - 1][i], tol), "stored-face-center", "face " << i << " stores " << ps<D>(m.getFaces()[i].getCenter()) << " expected " << ps<D>(ref[D - 1][i]));
    for (size_t i = 0; i < ref[D].size(); i++) VH_CHECK(c, nearP<D>(m.getCells()[i].getCenter(), ref[D][i], tol), "stored-cell-center", "cell " << i << " stores " << ps<D>(m.getCells()[i].getCenter()) << " expected " << ps<D>(ref[D][i]));
    c.ev("stored centers", ref[D].size() + ref[D - 1].size());
}
template<class M, unsigned D> void all(vh::Case& c, const Ref<D>& r, double tol) {
    M& m = living<D, M>(r); auto ref = refCenters<D>(r);
    auto cen = m.computeElementCenters(); CmpAll<D, D>::run(c, cen, ref, tol, "center");
    m.initializeCenters(); checkStored<D>(c, m, ref, tol);
    M m2; fill<D>(m2, r); m2.initializeCenters(cen); checkStored<D>(c, m2, ref, tol);
    auto cen2 = computeCenters<METHOD_DEFAULT>(m); CmpAll<D, D>::run(c, cen2, ref, tol, "center-recomputed"); // independent of the stored centers
    c.ev("meshes");
}
VH_SECTION(centers2d, 400, 5000) { Ref<2> r = scramble<2>(random2(c.rng), c.rng); c.desc(r.text()); c.distinct(r.hash()); c.sample(r.text().substr(0, 200)); turns<2>(c, r, [&](const Ref<2>& r) { all<UnstructuredMesh<2, size_t, double>>(c, r, 1e-11); }); }
VH_SECTION(centers2dFloat, 100, 1000) { Ref<2> r = scramble<2>(random2(c.rng), c.rng); c.desc(r.text()); c.distinct(r.hash()); turns<2>(c, r, [&](const Ref<2>& r) { all<UnstructuredMesh<2, int, float>>(c, r, 2e-5); }); }
VH_SECTION(centers3d, 300, 4000) { Ref<3> r = scramble<3>(random3(c.rng), c.rng); if (c.rng.chance(.4)) r = bend(r, c.rng, .1); c.desc(r.text()); c.distinct(r.hash()); c.sample(r.text().substr(0, 200)); turns<3>(c, r, [&](const Ref<3>& r) { all<UnstructuredMesh<3, size_t, double>>(c, r, 1e-11); }); }
VH_SECTION(centers3dReserve, 100, 1000) { Ref<3> r = scramble<3>(random3(c.rng), c.rng); c.desc(r.text()); c.distinct(r.hash()); turns<3>(c, r, [&](const Ref<3>& r) { all<UnstructuredMesh<3, unsigned, float, 9>>(c, r, 2e-5); }); }
VH_SECTION(centers4d, 80, 800) { Ref<4> r = scramble<4>(random4(c.rng), c.rng); c.desc(r.text()); c.distinct(r.hash()); turns<4>(c, r, [&](const Ref<4>& r) { all<UnstructuredMesh<4, size_t, double>>(c, r, 1e-11); }); }
VH_SECTION(centers4dReserve, 30, 300) { Ref<4> r = scramble<4>(random4(c.rng), c.rng); c.desc(r.text()); c.distinct(r.hash()); turns<4>(c, r, [&](const Ref<4>& r) { all<UnstructuredMesh<4, unsigned, double, 8, 6>>(c, r, 1e-11); }); }

template<class M> void tess(vh::Case& c, const Ref<3>& r, bool planarConvex, double tol) {
    M& m = living<3, M>(r); auto ref = refCenters<3>(r);
    for (size_t f = 0; f < r.n(2); f++) ref[2][f] = tessCenter(r, static_cast<int>(f), ref[2][f]);
    for (size_t k = 0; k < r.n(3); k++) { Pt<3> p{{0, 0, 0}}; for (int f : r.e[3][k]) p = add<3>(p, ref[2][static_cast<size_t>(f)]); ref[3][k] = mul<3>(p, 1.0 / static_cast<double>(r.e[3][k].size())); }
    auto cen = m.template computeElementCenters<METHOD_TESSELLATED>(); CmpAll<3, 3>::run(c, cen, ref, tol, "tessellated-center");
    m.template initializeCenters<METHOD_TESSELLATED>(); checkStored<3>(c, m, ref, tol);
    if (planarConvex) for (size_t f = 0; f < r.n(2); f++) { // the true centroid of a planar convex face
        IV lp = r.loopOf(static_cast<int>(f)); Pt<3> s{{0, 0, 0}}; double A = 0; const Pt<3>& o = r.v[static_cast<size_t>(lp[0])];
        for (size_t i = 1; i + 1 < lp.size(); i++) { const Pt<3>&a = r.v[static_cast<size_t>(lp[i])], &b = r.v[static_cast<size_t>(lp[i + 1])]; double t = triArea(o, a, b); s = add<3>(s, mul<3>(add<3>(add<3>(a, b), o), t / 3)); A += t; }
        VH_CHECK(c, nearP<3>(cen.template getDataByDim<2>()[f], mul<3>(s, 1 / A), 50 * tol), "tessellated-centroid", "tessellated center of planar face " << f << " is " << ps<3>(cen.template getDataByDim<2>()[f]) << ", its centroid is " << ps<3>(mul<3>(s, 1 / A)));
        c.ev("true centroids");
    }
    c.ev("meshes");
}
VH_SECTION(tessellated, 200, 2500) { Gen3 o; o.convex = true; o.merge = false; Ref<3> r = scramble<3>(random3(c.rng, o), c.rng); bool b = c.rng.chance(.4); if (b) r = bend(r, c.rng, .05); c.desc(r.text()); c.distinct(r.hash()); turns<3>(c, r, [&](const Ref<3>& r) { tess<UnstructuredMesh<3, size_t, double, 12>>(c, r, !b, 1e-10); }); }
VH_SECTION(tessellatedDynamic, 60, 600) { Gen3 o; o.convex = true; o.merge = false; Ref<3> r = scramble<3>(random3(c.rng, o), c.rng); c.desc(r.text()); c.distinct(r.hash()); turns<3>(c, r, [&](const Ref<3>& r) { tess<UnstructuredMesh<3, unsigned, double>>(c, r, true, 1e-10); }); }
// the centers of a mesh scaled by a power of two are the scaled centers
template<unsigned K, unsigned D> struct ScaleCmp { template<class CT> static void run(vh::Case& c, const CT& a, const CT& b, double s, double ext, double tol) {
    auto& x = a.template getDataByDim<K>(); auto& y = b.template getDataByDim<K>(); for (size_t i = 0; i < x.size(); i++) { VH_CHECK(c, nearRelP<D>(x[i], y[i], s, ext, tol), "center-scaled", "center of element " << i << " of dimension " << K << " is " << ps<D>(x[i]) << ", scaled by " << s << " it is " << ps<D>(y[i])); c.ev("scaled centers"); }
    ScaleCmp<K - 1, D>::run(c, a, b, s, ext, tol); } };
template<unsigned D> struct ScaleCmp<0, D> { template<class CT> static void run(vh::Case&, const CT&, const CT&, double, double, double) {} };
template<unsigned D, class M, ComputationMethod meth> void scale(vh::Case& c, const Ref<D>& r, int lim, double tol) {
    double s = pow2(randomScale(c.rng, lim)); M a, b; fill<D>(a, r); fill<D>(b, scaled<D>(r, s));
    auto x = a.template computeElementCenters<meth>(), y = b.template computeElementCenters<meth>(); ScaleCmp<D, D>::run(c, x, y, s, extent<D>(r), tol);
    a.template initializeCenters<meth>(); b.template initializeCenters<meth>();
    for (size_t i = 0; i < r.n(D); i++) VH_CHECK(c, nearRelP<D>(a.getCells()[i].getCenter(), b.getCells()[i].getCenter(), s, extent<D>(r), tol), "center-scaled", "stored center of cell " << i << " does not follow the scale " << s);
    c.ev("scaled meshes"); c.distinct(vh::comb(r.hash(), static_cast<uint64_t>(s > 1)));
}
VH_SECTION(scaled2d, 60, 800) { Ref<2> r = scramble<2>(random2(c.rng), c.rng); c.desc(r.text()); scale<2, UnstructuredMesh<2, size_t, double>, METHOD_DEFAULT>(c, r, 60, 1e-12); scale<2, UnstructuredMesh<2, int, float>, METHOD_DEFAULT>(c, r, 16, 1e-5); }
VH_SECTION(scaled3d, 60, 800) { Gen3 o; o.convex = true; o.merge = false; Ref<3> r = scramble<3>(random3(c.rng, o), c.rng); c.desc(r.text()); scale<3, UnstructuredMesh<3, size_t, double>, METHOD_DEFAULT>(c, r, 60, 1e-12); scale<3, UnstructuredMesh<3, size_t, double>, METHOD_TESSELLATED>(c, r, 40, 1e-10); }
VH_SECTION(scaled4d, 20, 200) { Ref<4> r = scramble<4>(random4(c.rng), c.rng); c.desc(r.text()); scale<4, UnstructuredMesh<4, size_t, double>, METHOD_DEFAULT>(c, r, 60, 1e-12); }
VH_SECTION(large, 3, 20) { Big big(c.index); Ref<2> r = scramble<2>(random2(c.rng), c.rng); c.desc(r.text()); c.distinct(r.hash()); all<UnstructuredMesh<2, unsigned, double>>(c, r, 1e-10); Gen3 o; o.convex = true; o.merge = false; Ref<3> q = scramble<3>(random3(c.rng, o), c.rng); c.desc(q.text()); all<UnstructuredMesh<3, size_t, double>>(c, q, 1e-10); tess<UnstructuredMesh<3, int, double, 400>>(c, q, true, 1e-9); c.ev("cells of large meshes", r.n(2) + q.n(3)); }
