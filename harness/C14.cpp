#include "scale.h"
#include "GTMesh/UnstructuredMesh/MeshFunctions/CellsDistance.h"
#include "GTMesh/UnstructuredMesh/MeshFunctions/ComputeCellsCenterDifference.h"
template<unsigned D, class M> void run(vh::Case& c, const Ref<D>& r, double tol) {
    M& m = living<D, M>(r); m.initializeCenters(); auto rc = refCenters<D>(r);
    typedef typename std::decay<decltype(m.getVertices()[0][0])>::type Real; typedef typename std::decay<decltype(m.getVertices()[0].getIndex())>::type IT;
    if (c.rng.chance(.4)) { // any stored centers, not only the computed ones
        for (size_t i = 0; i < r.n(D); i++) for (unsigned k = 0; k < D; k++) { rc[D][i][k] = c.rng.real(-5, 5); m.getCells()[i].getCenter()[k] = static_cast<Real>(rc[D][i][k]); }
        for (size_t i = 0; i < r.n(D - 1); i++) for (unsigned k = 0; k < D; k++) { rc[D - 1][i][k] = c.rng.real(-5, 5); m.getFaces()[i].getCenter()[k] = static_cast<Real>(rc[D - 1][i][k]); }
        c.ev("meshes with arbitrary centers");
    }
    {   // without boundary cells: the missing neighbour is represented by the face center
        const M& cm = m; auto dist = computeCellsDistance(cm); auto dif = computeCellsCenterDifference(cm);
        VH_CHECK(c, dist.template getDataByPos<0>().size() == r.n(D - 1) && dif.template getDataByPos<0>().size() == r.n(D - 1), "distance-count", "one value per face");
        for (size_t f = 0; f < r.n(D - 1); f++) {
            Pt<D> e = sub<D>(r.R[f] >= 0 ? rc[D][static_cast<size_t>(r.R[f])] : rc[D - 1][f], r.L[f] >= 0 ? rc[D][static_cast<size_t>(r.L[f])] : rc[D - 1][f]);
            VH_CHECK(c, vh::near(dist.template getDataByPos<0>()[f], len<D>(e), tol), "distance", "face " << f << " distance " << dist.template getDataByPos<0>()[f] << " expected " << len<D>(e));
            VH_CHECK(c, nearP<D>(dif.template getDataByPos<0>()[f], e, tol), "difference", "face " << f << " center difference " << ps<D>(dif.template getDataByPos<0>()[f]) << " expected " << ps<D>(e)); c.ev("face values", 2);
        }
    }
    m.setupBoundaryCells(); m.setupBoundaryCellsCenters();
    std::vector<Pt<D>> bc; // boundary cell centers: at the face, or moved by the user
    for (auto& b : m.getBoundaryCells()) { Pt<D> p = rc[D - 1][static_cast<size_t>(b.getBoundaryElementIndex())]; if (c.rng.chance(.3)) for (unsigned k = 0; k < D; k++) { p[k] = c.rng.real(-5, 5); b.getCenter()[k] = static_cast<Real>(p[k]); } bc.push_back(p); }
    {
        const M& cm = m; auto dist = computeCellsDistance(cm); auto dif = computeCellsCenterDifference(cm);
        for (size_t f = 0; f < r.n(D - 1); f++) {
            Pt<D> l = r.L[f] >= 0 ? rc[D][static_cast<size_t>(r.L[f])] : bc.at(static_cast<size_t>(extractBoundaryIndex<IT>(m.getFaces()[f].getCellLeftIndex()))), q = r.R[f] >= 0 ? rc[D][static_cast<size_t>(r.R[f])] : bc.at(static_cast<size_t>(extractBoundaryIndex<IT>(m.getFaces()[f].getCellRightIndex())));
            Pt<D> e = sub<D>(q, l);
            VH_CHECK(c, vh::near(dist.template getDataByPos<0>()[f], len<D>(e), tol), "distance-boundary", "face " << f << " distance " << dist.template getDataByPos<0>()[f] << " expected " << len<D>(e));
            VH_CHECK(c, nearP<D>(dif.template getDataByPos<0>()[f], e, tol), "difference-boundary", "face " << f << " center difference " << ps<D>(dif.template getDataByPos<0>()[f]) << " expected " << ps<D>(e)); c.ev("face values with boundary cells", 2);
        }
    }
    c.ev("meshes");
}
#define S(name, D, M, gen, q, t, tol) VH_SECTION(name, q, t) { Ref<D> r = scramble<D>(gen, c.rng); c.desc(r.text()); c.distinct(r.hash()); c.sample(r.text().substr(0, 200)); typedef M Mesh; turns<D>(c, r, [&](const Ref<D>& r) { run<D, Mesh>(c, r, tol); }); }
#define COMMA ,
S(dist2d, 2, UnstructuredMesh<2 COMMA size_t COMMA double>, random2(c.rng), 400, 5000, 1e-11)
S(dist2dInt, 2, UnstructuredMesh<2 COMMA int COMMA float>, random2(c.rng), 150, 2000, 5e-5)
S(dist3d, 3, UnstructuredMesh<3 COMMA size_t COMMA double COMMA 9>, random3(c.rng), 250, 3000, 1e-11)
S(dist3dDyn, 3, UnstructuredMesh<3 COMMA unsigned COMMA double>, random3(c.rng), 100, 1500, 1e-11)
S(dist4d, 4, UnstructuredMesh<4 COMMA size_t COMMA double>, random4(c.rng), 60, 600, 1e-11)
// distances and differences follow the size of the mesh
template<unsigned D, class M> void scale(vh::Case& c, const Ref<D>& r, int lim, double tol) {
    double s = pow2(randomScale(c.rng, lim)); M a, b; fill<D>(a, r); fill<D>(b, scaled<D>(r, s)); a.initializeCenters(); b.initializeCenters(); if (c.rng.chance(.5)) { a.setupBoundaryCells(); a.setupBoundaryCellsCenters(); b.setupBoundaryCells(); b.setupBoundaryCellsCenters(); }
    auto x = computeCellsDistance(a), y = computeCellsDistance(b); auto u = computeCellsCenterDifference(a), v = computeCellsCenterDifference(b);
    for (size_t f = 0; f < r.n(D - 1); f++) {
        VH_CHECK(c, nearRel(x.template getDataByPos<0>()[f] * s, y.template getDataByPos<0>()[f], 0, 100 * tol), "distance-scaled", "distance at face " << f << " is " << x.template getDataByPos<0>()[f] << ", in the mesh scaled by " << s << " " << y.template getDataByPos<0>()[f]);
        VH_CHECK(c, nearRelP<D>(u.template getDataByPos<0>()[f], v.template getDataByPos<0>()[f], s, extent<D>(r), tol), "difference-scaled", "center difference at face " << f << " is " << ps<D>(u.template getDataByPos<0>()[f]) << ", in the mesh scaled by " << s << " " << ps<D>(v.template getDataByPos<0>()[f])); c.ev("scaled face values", 2); }
    c.ev("scaled meshes"); c.distinct(vh::comb(r.hash(), static_cast<uint64_t>(s > 1)));
}
VH_SECTION(scaled2d, 60, 800) { Ref<2> r = scramble<2>(random2(c.rng), c.rng); c.desc(r.text()); scale<2, UnstructuredMesh<2, size_t, double>>(c, r, 60, 1e-12); scale<2, UnstructuredMesh<2, int, float>>(c, r, 14, 1e-5); }
VH_SECTION(scaled3d, 60, 800) { Ref<3> r = scramble<3>(random3(c.rng), c.rng); c.desc(r.text()); scale<3, UnstructuredMesh<3, size_t, double>>(c, r, 60, 1e-12); }
VH_SECTION(scaled4d, 20, 200) { Ref<4> r = scramble<4>(random4(c.rng), c.rng); c.desc(r.text()); scale<4, UnstructuredMesh<4, size_t, double>>(c, r, 60, 1e-12); }
VH_SECTION(large, 3, 20) { Big big(c.index); Ref<2> r = scramble<2>(random2(c.rng), c.rng); c.desc(r.text()); c.distinct(r.hash()); run<2, UnstructuredMesh<2, unsigned, double>>(c, r, 1e-10); Ref<3> q = scramble<3>(random3(c.rng), c.rng); c.desc(q.text()); run<3, UnstructuredMesh<3, int, double>>(c, q, 1e-10); c.ev("cells of large meshes", r.n(2) + q.n(3)); }
