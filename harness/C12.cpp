#include "scale.h"
template<class MS> void edges(vh::Case& c, const MS& ms, size_t n, const std::vector<double>& ref, double tol) {
    VH_CHECK(c, ms.size() == n, "edge-length", "one length per edge");
    for (size_t i = 0; i < n; i++) { VH_CHECK(c, vh::near(ms[i], ref[i], tol), "edge-length", "edge " << i << " has length " << ms[i] << " expected " << ref[i]); c.ev("edge lengths"); }
}
template<unsigned D> std::vector<double> edgeLen(const Ref<D>& r) { std::vector<double> o; for (auto& e : r.e[1]) o.push_back(len<D>(sub<D>(r.v[static_cast<size_t>(e[0])], r.v[static_cast<size_t>(e[1])]))); return o; }
// a point inside a convex element: random convex combination of its vertices, bounded away from the boundary
template<unsigned D> Pt<D> inner(Rng& g, const Ref<D>& r, unsigned k, size_t i, const Pt<D>& center) {
    std::set<int> vs = r.closure(k, static_cast<int>(i), 0); Pt<D> p; p.fill(0); double w = 0; for (int v : vs) { double t = g.real(.2, 1); p = add<D>(p, mul<D>(r.v[static_cast<size_t>(v)], t)); w += t; } p = mul<D>(p, 1 / w);
    return add<D>(mul<D>(p, .5), mul<D>(center, .5));
}
template<class M> void m2(vh::Case& c, Ref<2> r, double tol) {
    M& m = living<2, M>(r); m.initializeCenters();
    auto ms = m.computeElementMeasures(); edges(c, ms.template getDataByDim<1>(), r.n(1), edgeLen<2>(r), tol);
    auto& cm = ms.template getDataByDim<2>(); VH_CHECK(c, cm.size() == r.n(2), "area-count", "one area per cell");
    double total = 0, want = 0;
    for (size_t i = 0; i < r.n(2); i++) if (r.convex[i]) { VH_CHECK(c, vh::near(cm[i], r.vol[i], tol), "area", "cell " << i << " has area " << cm[i] << " expected " << r.vol[i]); total += cm[i]; want += r.vol[i]; c.ev("cell areas"); }
    auto mt = m.template computeElementMeasures<METHOD_TESSELLATED>();
    for (size_t i = 0; i < r.n(2); i++) if (r.convex[i]) VH_CHECK(c, vh::near(mt.template getDataByDim<2>()[i], r.vol[i], tol), "area-tessellated", "cell " << i << " has area " << mt.template getDataByDim<2>()[i] << " expected " << r.vol[i]);
    // exact for any interior center
    auto rc = refCenters<2>(r); for (size_t i = 0; i < r.n(2); i++) if (r.convex[i]) { Pt<2> p = inner<2>(c.rng, r, 2, i, rc[2][i]); m.getCells()[i].setCenter({static_cast<typename std::decay<decltype(cm[0])>::type>(p[0]), static_cast<typename std::decay<decltype(cm[0])>::type>(p[1])}); }
    auto m3 = m.computeElementMeasures();
    for (size_t i = 0; i < r.n(2); i++) if (r.convex[i]) { VH_CHECK(c, vh::near(m3.template getDataByDim<2>()[i], r.vol[i], tol), "area-any-center", "cell " << i << " has area " << m3.template getDataByDim<2>()[i] << " expected " << r.vol[i] << " for another interior center"); c.ev("cell areas"); }
    c.ev("meshes");
}
VH_SECTION(measure2d, 400, 5000) { Ref<2> r = scramble<2>(random2(c.rng, false, c.rng.chance(.7)), c.rng); c.desc(r.text()); c.distinct(r.hash()); c.sample(r.text().substr(0, 200)); turns<2>(c, r, [&](const Ref<2>& r) { m2<UnstructuredMesh<2, size_t, double>>(c, r, 1e-10); }); }
VH_SECTION(measure2dFloat, 100, 1000) { Ref<2> r = scramble<2>(random2(c.rng, false, true), c.rng); c.desc(r.text()); c.distinct(r.hash()); turns<2>(c, r, [&](const Ref<2>& r) { m2<UnstructuredMesh<2, int, float>>(c, r, 1e-4); }); }

template<class M> void m3(vh::Case& c, const Ref<3>& r, double tol) {
    M& m = living<3, M>(r); bool t = c.rng.chance(.5); if (t) m.template initializeCenters<METHOD_TESSELLATED>(); else m.initializeCenters();
    auto rc = refCenters<3>(r);
    for (int round = 0; round < 2; round++) {
        auto ms = round == 0 || c.rng.chance(.5) ? m.computeElementMeasures() : m.template computeElementMeasures<METHOD_TESSELLATED>();
        edges(c, ms.template getDataByDim<1>(), r.n(1), edgeLen<3>(r), tol);
        auto& fa = ms.template getDataByDim<2>(); auto& cv = ms.template getDataByDim<3>();
        VH_CHECK(c, fa.size() == r.n(2) && cv.size() == r.n(3), "measure-count", "one value per element");
        for (size_t f = 0; f < r.n(2); f++) if (r.convex[static_cast<size_t>(r.L[f] >= 0 ? r.L[f] : r.R[f])]) { double a = len<3>(newell(r.v, r.loopOf(static_cast<int>(f)))); VH_CHECK(c, vh::near(fa[f], a, tol), "face-area", "face " << f << " has area " << fa[f] << " expected " << a << " (round " << round << ")"); c.ev("face areas"); }
        for (size_t i = 0; i < r.n(3); i++) if (r.convex[i]) { VH_CHECK(c, vh::near(cv[i], r.vol[i], tol), "volume", "cell " << i << " has volume " << cv[i] << " expected " << r.vol[i] << " (round " << round << ")"); c.ev("cell volumes"); }
        // second round: other interior centers must not change anything
        for (size_t f = 0; f < r.n(2); f++) { Pt<3> p = inner<3>(c.rng, r, 2, f, rc[2][f]); for (unsigned k = 0; k < 3; k++) m.getFaces()[f].getCenter()[k] = p[k]; }
        for (size_t i = 0; i < r.n(3); i++) { Pt<3> p = inner<3>(c.rng, r, 3, i, rc[3][i]); for (unsigned k = 0; k < 3; k++) m.getCells()[i].getCenter()[k] = p[k]; }
    }
    c.ev("meshes");
}
VH_SECTION(measure3d, 300, 4000) { Gen3 o; o.convex = true; o.merge = false; Ref<3> r = scramble<3>(random3(c.rng, o), c.rng); c.desc(r.text()); c.distinct(r.hash()); c.sample(r.text().substr(0, 200)); turns<3>(c, r, [&](const Ref<3>& r) { m3<UnstructuredMesh<3, size_t, double>>(c, r, 1e-9); }); }
VH_SECTION(measure3dReserve, 100, 1000) { Gen3 o; o.convex = true; o.merge = false; Ref<3> r = scramble<3>(random3(c.rng, o), c.rng); c.desc(r.text()); c.distinct(r.hash()); turns<3>(c, r, [&](const Ref<3>& r) { m3<UnstructuredMesh<3, unsigned, double, 12>>(c, r, 1e-9); }); }
VH_SECTION(measure3dFloat, 60, 600) { Gen3 o; o.convex = true; o.merge = false; o.maxN = 2; o.maxLayers = 2; Ref<3> r = scramble<3>(random3(c.rng, o), c.rng); c.desc(r.text()); c.distinct(r.hash()); turns<3>(c, r, [&](const Ref<3>& r) { m3<UnstructuredMesh<3, int, float, 12>>(c, r, 2e-3); }); }
// cells with non-planar faces: the tessellated measures are those of the tetrahedra (edge, face center, cell center)
VH_SECTION(measureBent, 150, 2000) {
    Gen3 o; o.convex = true; o.merge = false; Ref<3> r = bend(scramble<3>(random3(c.rng, o), c.rng), c.rng, .06); c.desc(r.text()); c.distinct(r.hash());
    turns<3>(c, r, [&](const Ref<3>& r) {
    auto& m = living<3, UnstructuredMesh<3, size_t, double>>(r); bool t = c.rng.chance(.5); if (t) m.initializeCenters<METHOD_TESSELLATED>(); else m.initializeCenters();
    auto ms = m.computeElementMeasures<METHOD_TESSELLATED>(); auto& fa = ms.getDataByDim<2>(); auto& cv = ms.getDataByDim<3>();
    std::vector<double> area(r.n(2), 0), vol(r.n(3), 0);
    auto pt = [&](const Vertex<3, double>& v) { return Pt<3>{{v[0], v[1], v[2]}}; };
    for (size_t f = 0; f < r.n(2); f++) for (int e : r.e[2][f]) area[f] += triArea(vp<3>(r, r.e[1][static_cast<size_t>(e)][0]), vp<3>(r, r.e[1][static_cast<size_t>(e)][1]), pt(m.getFaces()[f].getCenter()));
    for (size_t i = 0; i < r.n(3); i++) for (int f : r.e[3][i]) for (int e : r.e[2][static_cast<size_t>(f)]) { Pt<3> fc = pt(m.getFaces()[static_cast<size_t>(f)].getCenter()); vol[i] += std::fabs(dot<3>(cross(sub<3>(vp<3>(r, r.e[1][static_cast<size_t>(e)][0]), fc), sub<3>(vp<3>(r, r.e[1][static_cast<size_t>(e)][1]), fc)), sub<3>(pt(m.getCells()[i].getCenter()), fc))) / 6; }
    for (size_t f = 0; f < r.n(2); f++) { VH_CHECK(c, vh::near(fa[f], area[f], 1e-9), "bent-face-area", "tessellated area of face " << f << " is " << fa[f] << " expected " << area[f]); c.ev("face areas"); }
    for (size_t i = 0; i < r.n(3); i++) { VH_CHECK(c, vh::near(cv[i], vol[i], 1e-9), "bent-volume", "tessellated volume of cell " << i << " is " << cv[i] << ", its tetrahedra have " << vol[i]); c.ev("cell volumes"); }
    c.ev("meshes"); });
}
template<class M> void m4(vh::Case& c, const Ref<4>& r) {
    M& m = living<4, M>(r); auto rc = refCenters<4>(r);
    auto ms = m.computeElementMeasures(); edges(c, ms.template getDataByDim<1>(), r.n(1), edgeLen<4>(r), 1e-10);
    // 2- and 3-dimensional elements: Gram determinants
    auto& a2 = ms.template getDataByDim<2>(); auto& a3 = ms.template getDataByDim<3>(); auto& a4 = ms.template getDataByDim<4>();
    VH_CHECK(c, a2.size() == r.n(2) && a3.size() == r.n(3) && a4.size() == r.n(4), "measure-count", "one value per element");
    auto gram = [&](const std::vector<Pt<4>>& w) { size_t n = w.size(); std::vector<std::vector<double>> G(n, std::vector<double>(n)); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) G[i][j] = dot<4>(w[i], w[j]); double d = 1; for (size_t i = 0; i < n; i++) { d *= G[i][i]; for (size_t j = i + 1; j < n; j++) { double f = G[j][i] / G[i][i]; for (size_t k = i; k < n; k++) G[j][k] -= f * G[i][k]; } } return std::sqrt(std::fabs(d)); };
    auto vecs = [&](unsigned k, size_t i) { // spanning vectors of a simplex or parallelotope
        std::set<int> s = r.closure(k, static_cast<int>(i), 0); IV vs(s.begin(), s.end()); std::vector<Pt<4>> w; bool simplex = vs.size() == k + 1; int o = vs[0];
        if (simplex) { for (size_t j = 1; j < vs.size(); j++) w.push_back(sub<4>(vp<4>(r, vs[j]), vp<4>(r, o))); }
        else { IV es; r.down(k, static_cast<int>(i), 1, es); std::set<int> nb; for (int e : es) { const IV& x = r.e[1][static_cast<size_t>(e)]; if (x[0] == o) nb.insert(x[1]); if (x[1] == o) nb.insert(x[0]); } for (int x : nb) w.push_back(sub<4>(vp<4>(r, x), vp<4>(r, o))); }
        double f = 1; if (simplex) for (unsigned q = 2; q <= k; q++) f *= q; return std::make_pair(w, f); };
    for (size_t i = 0; i < r.n(2); i++) { auto w = vecs(2, i); double a = gram(w.first) / w.second; VH_CHECK(c, vh::near(a2[i], a, 1e-9), "measure-2in4", "2-element " << i << " has measure " << a2[i] << " expected " << a); c.ev("face areas"); }
    for (size_t i = 0; i < r.n(3); i++) { auto w = vecs(3, i); double a = gram(w.first) / w.second; VH_CHECK(c, vh::near(a3[i], a, 1e-9), "measure-3in4", "3-element " << i << " has measure " << a3[i] << " expected " << a); c.ev("cell volumes"); }
    for (size_t i = 0; i < r.n(4); i++) { VH_CHECK(c, vh::near(a4[i], r.vol[i], 1e-9), "measure-4", "4-cell " << i << " has measure " << a4[i] << " expected " << r.vol[i]); c.ev("4D measures"); }
    c.ev("meshes");
}
VH_SECTION(measure4d, 80, 800) { Ref<4> r = scramble<4>(random4(c.rng), c.rng); c.desc(r.text()); c.distinct(r.hash()); turns<4>(c, r, [&](const Ref<4>& r) { m4<UnstructuredMesh<4, size_t, double>>(c, r); }); }
VH_SECTION(measure4dReserve, 30, 300) { Ref<4> r = scramble<4>(random4(c.rng), c.rng); c.desc(r.text()); c.distinct(r.hash()); turns<4>(c, r, [&](const Ref<4>& r) { m4<UnstructuredMesh<4, unsigned, double, 8, 6>>(c, r); }); }
// the measures of a mesh scaled by a power of two are scaled by its powers; in the top dimension the axes may be scaled differently
template<unsigned K, unsigned D> struct ScaleCmp { template<class CT> static void run(vh::Case& c, const CT& a, const CT& b, double s, double tol) {
    auto& x = a.template getDataByDim<K>(); auto& y = b.template getDataByDim<K>(); double p = std::pow(s, static_cast<double>(K));
    for (size_t i = 0; i < x.size(); i++) { VH_CHECK(c, nearRel(x[i] * p, y[i], 0, tol), "measure-scaled", "measure of element " << i << " of dimension " << K << " is " << x[i] << ", of the mesh scaled by " << s << " it is " << y[i]); c.ev("scaled measures"); }
    ScaleCmp<K - 1, D>::run(c, a, b, s, tol); } };
template<unsigned D> struct ScaleCmp<0, D> { template<class CT> static void run(vh::Case&, const CT&, const CT&, double, double) {} };
template<unsigned D, class M, ComputationMethod meth> void scale(vh::Case& c, const Ref<D>& r, int lim, double tol) {
    double s = pow2(randomScale(c.rng, lim)); M a, b; fill<D>(a, r); fill<D>(b, scaled<D>(r, s)); a.template initializeCenters<meth>(); b.template initializeCenters<meth>();
    auto x = a.template computeElementMeasures<meth>(), y = b.template computeElementMeasures<meth>(); ScaleCmp<D, D>::run(c, x, y, s, tol);
    Ref<D> t = r; double f = 1; for (unsigned k = 0; k < D; k++) { double q = pow2(static_cast<int>(c.rng.range(-4, 4))); f *= q; for (auto& p : t.v) p[k] *= q; }
    M d; fill<D>(d, t); d.template initializeCenters<meth>(); auto z = d.template computeElementMeasures<meth>();
    for (size_t i = 0; i < r.n(D); i++) if (r.convex[i]) { VH_CHECK(c, nearRel(x.template getDataByDim<D>()[i] * f, z.template getDataByDim<D>()[i], 0, 3e3 * tol), "measure-stretched", "cell " << i << " has measure " << x.template getDataByDim<D>()[i] << ", stretched by " << f << " it has " << z.template getDataByDim<D>()[i]); c.ev("stretched cells"); }
    c.ev("scaled meshes"); c.distinct(vh::comb(r.hash(), static_cast<uint64_t>(s > 1)));
}
VH_SECTION(scaled2d, 60, 800) { Ref<2> r = scramble<2>(random2(c.rng, false, true), c.rng); c.desc(r.text()); scale<2, UnstructuredMesh<2, size_t, double>, METHOD_DEFAULT>(c, r, 60, 1e-11); scale<2, UnstructuredMesh<2, int, float>, METHOD_DEFAULT>(c, r, 14, 1e-5); scale<2, UnstructuredMesh<2, size_t, double>, METHOD_TESSELLATED>(c, r, 60, 1e-11); }
VH_SECTION(scaled3d, 60, 800) { Gen3 o; o.convex = true; o.merge = false; Ref<3> r = scramble<3>(random3(c.rng, o), c.rng); c.desc(r.text()); scale<3, UnstructuredMesh<3, size_t, double>, METHOD_DEFAULT>(c, r, 40, 1e-9); scale<3, UnstructuredMesh<3, size_t, double>, METHOD_TESSELLATED>(c, r, 40, 1e-9); }
VH_SECTION(scaled4d, 20, 200) { Ref<4> r = scramble<4>(random4(c.rng), c.rng); c.desc(r.text()); scale<4, UnstructuredMesh<4, size_t, double>, METHOD_DEFAULT>(c, r, 30, 1e-9); }
VH_SECTION(large, 3, 20) { Big big(c.index); Ref<2> r = scramble<2>(random2(c.rng, false, true), c.rng); c.desc(r.text()); c.distinct(r.hash()); m2<UnstructuredMesh<2, unsigned, double>>(c, r, 1e-9); Gen3 o; o.convex = true; o.merge = false; Ref<3> q = scramble<3>(random3(c.rng, o), c.rng); c.desc(q.text()); m3<UnstructuredMesh<3, size_t, double>>(c, q, 1e-8); c.ev("cells of large meshes", r.n(2) + q.n(3)); }
