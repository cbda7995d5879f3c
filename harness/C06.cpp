// Reused writers, readers and meshes behave like fresh ones, whatever happened to them before.
#define UNDEBUG
#include <unistd.h>
#include "io.h"
#include "GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h"
struct Q { double p = 0; }; MAKE_ATTRIBUTE_TRAIT(Q, p);
typedef MeshDataContainer<MeshNativeType<3>::ElementType, 3> CT3; typedef MeshDataContainer<MeshNativeType<2>::ElementType, 2> CT2;
template<unsigned D> struct Gen; 
template<> struct Gen<3> { static Ref<3> make(vh::Case& c) { Ref<3> r = c.rng.chance(.4) ? randomStd3(c.rng).ref : random3(c.rng); if (r.n(3) > 14) { std::vector<char> k(r.n(3)); for (auto& x : k) x = c.rng.chance(12. / static_cast<double>(r.n(3))); k[0] = 1; r = select<3>(r, k); } return scramble<3>(r, c.rng); } };
template<> struct Gen<2> { static Ref<2> make(vh::Case& c) { return c.rng.chance(.5) ? randomStd2(c.rng).ref : scramble<2>(random2(c.rng), c.rng); } };
// a fresh object in memory that held the given word before: a member left uninitialised equals it
template<class W> struct Dirty { std::vector<size_t> mem; W* w; explicit Dirty(size_t word) : mem(sizeof(W) / sizeof(size_t) + 1, word), w(new (mem.data()) W) {} ~Dirty() { w->~W(); } };
// one change of a mesh that keeps it valid; the reference is followed where it matters (topology only)
template<unsigned D, class M> std::string mutate(vh::Case& c, M& m, Ref<D>& r) {
    typedef typename std::decay<decltype(m.getVertices()[0].getIndex())>::type IT; Rng& g = c.rng; auto& F = m.getFaces();
    switch (g.below(D == 3 ? 11 : 9)) {
    case 0: { auto& v = m.getVertices()[g.below(m.getVertices().size())]; unsigned k = static_cast<unsigned>(g.below(D)); v[k] = std::nextafter(v[k], g.chance(.5) ? 1e9 : -1e9); r.v[static_cast<size_t>(v.getIndex())][k] = v[k]; return "one coordinate by one ulp"; }
    case 1: { size_t n = 1 + g.below(3); for (; n; n--) { auto& e = m.getEdges()[g.below(m.getEdges().size())]; IT a = e.getVertexAIndex(); e.setVertexAIndex(e.getVertexBIndex()); e.setVertexBIndex(a); std::swap(r.e[1][static_cast<size_t>(e.getIndex())][0], r.e[1][static_cast<size_t>(e.getIndex())][1]); } return "reverse edges"; }
    case 2: { size_t n = 1 + g.below(3); for (; n; n--) F[g.below(F.size())].swapCellsLR(); return "swap the sides of faces"; }
    case 3: { auto& C = m.getCells()[g.below(m.getCells().size())]; C.setBoundaryElementIndex(F[static_cast<size_t>(C.getBoundaryElementIndex())].getNextBElem(C.getIndex())); return "start the boundary of a cell elsewhere"; }
    case 4: { for (auto& v : m.getVertices()) { v[0] = -v[0]; r.v[static_cast<size_t>(v.getIndex())][0] = v[0]; } m.initializeCenters(); return "mirror"; }
    case 5: { for (auto& v : m.getVertices()) std::swap(v[0], v[1]); for (auto& v : r.v) std::swap(v[0], v[1]); m.initializeCenters(); return "exchange axes"; } // keeps all sums of coordinates
    case 6: { Ref<D> q = scramble<D>(r, g); r = q; m.clear(); fill<D>(m, r); m.initializeCenters(); return "renumber"; }
    case 7: { r = Gen<D>::make(c); m.clear(); fill<D>(m, r); m.initializeCenters(); return "another mesh"; }
    case 8: { // swap neighbours in the ring of a cell
        auto& C = m.getCells()[g.below(m.getCells().size())]; IT ci = C.getIndex(), a = C.getBoundaryElementIndex(), b = F[static_cast<size_t>(a)].getNextBElem(ci), d = F[static_cast<size_t>(b)].getNextBElem(ci), e = F[static_cast<size_t>(d)].getNextBElem(ci); if (D == 2 || e == a) return "nothing";
        F[static_cast<size_t>(a)].setNextBElem(d, ci); F[static_cast<size_t>(d)].setNextBElem(b, ci); F[static_cast<size_t>(b)].setNextBElem(e, ci); return "exchange two faces of a ring"; }
    default: break;
    }
    return "";
}
template<class M> std::string mutate3(vh::Case& c, M& m, Ref<3>& r) {
    typedef typename std::decay<decltype(m.getVertices()[0].getIndex())>::type IT; std::string s = mutate<3>(c, m, r); if (!s.empty()) return s; Rng& g = c.rng; auto& f = m.getFaces()[g.below(m.getFaces().size())];
    if (g.chance(.5)) { // rotate or reverse the edges of a face
        std::vector<IT> e; for (auto x : f.getSubelements()) e.push_back(static_cast<IT>(x)); if (g.chance(.5)) std::reverse(e.begin(), e.end()); else std::rotate(e.begin(), e.begin() + static_cast<long>(1 + g.below(e.size() - 1)), e.end());
        for (size_t i = 0; i < e.size(); i++) { f.getSubelements()[i] = e[i]; r.e[2][static_cast<size_t>(f.getIndex())][i] = static_cast<int>(e[i]); } return "reorder the edges of a face"; }
    if (g.chance(.5)) { auto& C = m.getCells()[g.below(m.getCells().size())]; auto x = C.getCenter(); x[g.below(3)] += 1e-3; C.setCenter(x); return "move a cell center"; }
    auto x = f.getCenter(); x[g.below(3)] += 1e-3; f.setCenter(x); return "move a face center";
}
template<class M> void types3(vh::Case& c, const M&, const Ref<3>& r, MeshDataContainer<MeshNativeType<3>::ElementType, 3>& ct) { auto& t = ct.getDataByPos<0>(); t.resize(r.n(3)); for (size_t k = 0; k < r.n(3); k++) t[k] = c.rng.chance(.5) ? MeshNativeType<3>::POLYHEDRON : native3(shapeOf(r, k)); }
template<class M> void run3(vh::Case& c) {
    typedef typename std::decay<decltype(std::declval<M>().getVertices()[0].getIndex())>::type IT; typedef VTKMeshWriter<3, IT, double> W; typedef FPMAMeshWriter<3, IT, double> WF;
    std::vector<Ref<3>> r(2); std::vector<M> m(2); std::vector<CT3> ct(2); for (size_t i = 0; i < 2; i++) { r[i] = Gen<3>::make(c); fill<3>(m[i], r[i]); m[i].initializeCenters(); types3(c, m[i], r[i], ct[i]); } c.distinct(vh::comb(r[0].hash(), r[1].hash())); c.desc(r[0].text());
    W w; WF wf; std::string hist, last;
    for (int step = 0; step < 10; step++) {
        size_t k = c.rng.chance(.8) ? 0 : 1; std::string what; size_t before = m[k].updateSignature(); std::string expBefore = vtkOut(m[k], *std::unique_ptr<W>(new W), ct[k]);
        if (c.rng.chance(.2)) { types3(c, m[k], r[k], ct[k]); what = "change types"; }
        else if (c.rng.chance(.15)) { M copy = m[k]; m[k] = copy; what = "copy"; VH_CHECK(c, sizeof(copy) == 0 || m[k].getSignature() == before, "signature-copied", "the copy has another signature"); }
        else { what = mutate3(c, m[k], r[k]); if (ct[k].template getDataByPos<0>().size() != r[k].n(3) || what == "renumber" || what == "another mesh") types3(c, m[k], r[k], ct[k]); }
        hist += what + "; "; c.desc(hist + r[k].text()); std::unique_ptr<W> fresh(new W); std::unique_ptr<WF> freshF(new WF); std::string e = vtkOut(m[k], *fresh, ct[k]);
        if (c.rng.chance(.3)) { W w2 = w; VH_CHECK(c, vtkOut(m[k], w2, ct[k]) == e, "vtk-copied-writer", "a copied writer exports the old state after: " << what); }
        { size_t sig = m[k].updateSignature(); Dirty<W> d(sig); VH_CHECK(c, vtkOut(m[k], *d.w, ct[k]) == e, "vtk-fresh", "the export of a fresh VTK writer depends on the memory it is created in"); Dirty<WF> df(sig); std::ostringstream a, b; WF wg; df.w->writeToStream(a, m[k]); wg.writeToStream(b, m[k]); VH_CHECK(c, a.str() == b.str(), "fpma-fresh", "the export of a fresh FPMA writer depends on the memory it is created in"); c.ev("fresh writers", 2); }
        std::string g = vtkOut(m[k], w, ct[k]); VH_CHECK(c, g == e, "vtk-stale", "a reused VTK writer exports something else than a fresh one after: " << hist);
        VH_CHECK(c, w.getNumberOfCells() == fresh->getNumberOfCells() && w.backwardCellIndexMapping == fresh->backwardCellIndexMapping, "vtk-stale-map", "cell count or tessellation map of a reused writer differs after: " << hist);
        g = vtkOut(m[k], w, ct[k]); VH_CHECK(c, g == e, "vtk-repeat", "exporting twice gives different files");
        std::ostringstream a, b; a.precision(17); b.precision(17); wf.writeToStream(a, m[k]); freshF->writeToStream(b, m[k]); VH_CHECK(c, a.str() == b.str(), "fpma-stale", "a reused FPMA writer exports something else than a fresh one after: " << hist);
        MeshDataContainer<Q, 3> d(m[k]); for (auto& x : d.template getDataByPos<0>()) x.p = c.rng.real(0, 1); std::ostringstream da, db; VTKMeshDataWriter<3>::writeToStream(da, d, w); VTKMeshDataWriter<3>::writeToStream(db, d, *fresh); VH_CHECK(c, da.str() == db.str(), "data-stale", "the data export of a reused writer differs after: " << hist);
        if (e != expBefore && what != "change types") VH_CHECK(c, m[k].updateSignature() != before, "signature", "the signature of the mesh did not change although its export did: " << what);
        c.ev("re-exports", 3); c.ev("after: " + what);
    }
    c.sample(hist);
}
VH_SECTION(writers3, 160, 2500) { switch (c.rng.below(3)) { case 0: run3<UnstructuredMesh<3, size_t, double>>(c); break; case 1: run3<UnstructuredMesh<3, size_t, double, 16>>(c); break; default: run3<UnstructuredMesh<3, int, double>>(c); } }
template<class M> void run2(vh::Case& c) {
    typedef typename std::decay<decltype(std::declval<M>().getVertices()[0].getIndex())>::type IT; typedef VTKMeshWriter<2, IT, double> W;
    std::vector<Ref<2>> r(2); std::vector<M> m(2); std::vector<CT2> ct(2); auto types = [&](size_t i) { auto& t = ct[i].template getDataByPos<0>(); t.resize(r[i].n(2)); for (size_t k = 0; k < r[i].n(2); k++) { size_t n = r[i].e[2][k].size(); t[k] = c.rng.chance(.5) ? MeshNativeType<2>::POLYGON : n == 3 ? MeshNativeType<2>::TRIANGLE : n == 4 ? MeshNativeType<2>::QUAD : MeshNativeType<2>::POLYGON; } };
    for (size_t i = 0; i < 2; i++) { r[i] = Gen<2>::make(c); fill<2>(m[i], r[i]); types(i); } c.distinct(vh::comb(r[0].hash(), r[1].hash())); c.desc(r[0].text());
    auto out = [&](W& w, size_t k) { std::ostringstream o; o.precision(17); w.writeToStream(o, m[k], ct[k]); return o.str(); }; W w; std::string hist;
    for (int step = 0; step < 12; step++) {
        size_t k = c.rng.chance(.8) ? 0 : 1; size_t before = m[k].updateSignature(); std::unique_ptr<W> f0(new W), f1(new W); std::string eb = out(*f0, k), what; if (c.rng.chance(.15)) { types(k); what = "change types"; } else { what = mutate<2>(c, m[k], r[k]); if (what == "renumber" || what == "another mesh") types(k); }
        hist += what + "; "; c.desc(hist + r[k].text()); std::string e = out(*f1, k); { Dirty<W> d(m[k].updateSignature()); VH_CHECK(c, out(*d.w, k) == e, "vtk-fresh", "the export of a fresh VTK writer depends on the memory it is created in"); c.ev("fresh writers"); } std::string g = out(w, k); VH_CHECK(c, g == e, "vtk-stale", "a reused VTK writer exports something else than a fresh one after: " << hist); VH_CHECK(c, w.getNumberOfCells() == f1->getNumberOfCells() && static_cast<size_t>(w.getNumberOfCells()) == r[k].n(2), "vtk-stale-count", "cell count of a reused writer differs after: " << hist);
        if (e != eb && what != "change types") VH_CHECK(c, m[k].updateSignature() != before, "signature", "the signature of the mesh did not change although its export did: " << what);
        c.ev("re-exports"); c.ev("after: " + what);
    }
    c.sample(hist);
}
VH_SECTION(writers2, 160, 2500) { if (c.rng.chance(.6)) run2<UnstructuredMesh<2, size_t, double>>(c); else run2<UnstructuredMesh<2, int, double>>(c); }
// readers and meshes: good and bad files of both formats in any order
VH_SECTION(readers3, 120, 1800) {
    UnstructuredMesh<3, size_t, double> m, other; VTKMeshReader<3> rv; FPMAMeshReader<3> rf; std::string hist; uint64_t h = 0;
    for (int step = 0; step < 8; step++) {
        Fmt f = randomFmt(c.rng); bool vtk = c.rng.chance(.5); Std3 s; Ref<3> r; std::string t; if (vtk) { s = randomStd3(c.rng); r = s.ref; t = vtkText<3>(c.rng, f, s.v, s.cells, s.types); } else { r = Gen<3>::make(c); t = fpmaText(c.rng, f, r); } h = vh::comb(h, vh::hashStr(t)); auto& x = c.rng.chance(.8) ? m : other;
        if (c.rng.chance(.35)) { // a file that ends too early leaves both usable
            size_t cut = t.size() / 4 + c.rng.below(t.size() / 2); std::istringstream in(t.substr(0, cut)); hist += "truncated; "; try { if (vtk) rv.loadFromStream(in, x); else rf.loadFromStream(in, x); c.abortCase("truncated-accepted", "a file cut in the middle was accepted"); } catch (const vh::CaseFail&) { throw; } catch (const std::exception&) { c.ev("rejected files"); } }
        if (c.rng.chance(.3)) { x.clear(); hist += "clear; "; } c.desc(hist + t); hist += vtk ? "vtk; " : "fpma; "; Opened in(c, t); if (vtk) rv.loadFromStream(in, x); else rf.loadFromStream(in, x); checkMesh(c, x, r);
        size_t sg = x.getSignature(); VH_CHECK(c, x.updateSignature() == sg, "signature-current", "loading left an outdated signature");
        auto ct = vtk ? rv.getCellTypes() : rf.getCellTypes(); VH_CHECK(c, ct.getDataByPos<0>().size() == r.n(3), "reader-types", "the reader keeps types of an earlier file"); for (size_t i = 0; i < r.n(3); i++) VH_CHECK(c, ct.getDataByPos<0>()[i] == (vtk ? native3(s.types[i]) : MeshNativeType<3>::POLYHEDRON), "reader-types", "type of cell " << i);
        x.initializeCenters(); for (size_t i = 0; i < x.getCells().size(); i++) for (unsigned k = 0; k < 3; k++) VH_CHECK(c, std::isfinite(x.getCells()[i].getCenter()[k]), "reload-centers", "center"); if (c.rng.chance(.4)) { x.setupBoundaryCells(); hist += "boundary cells; "; } c.ev("reloads");
    }
    c.distinct(h); c.sample(hist);
}
VH_SECTION(readers2, 100, 1500) {
    UnstructuredMesh<2, size_t, double> m; VTKMeshReader<2> rv; uint64_t h = 0;
    for (int step = 0; step < 8; step++) {
        Fmt f = randomFmt(c.rng); Std2 s = randomStd2(c.rng); std::string t = vtkText<2>(c.rng, f, s.v, s.cells, s.types); h = vh::comb(h, vh::hashStr(t)); c.desc(t);
        if (c.rng.chance(.35)) { std::istringstream in(t.substr(0, t.size() / 4 + c.rng.below(t.size() / 2))); try { rv.loadFromStream(in, m); c.abortCase("truncated-accepted", "a file cut in the middle was accepted"); } catch (const vh::CaseFail&) { throw; } catch (const std::exception&) { c.ev("rejected files"); } }
        Opened in(c, t); rv.loadFromStream(in, m); checkMesh(c, m, s.ref); auto ct = rv.getCellTypes(); VH_CHECK(c, ct.getDataByPos<0>().size() == s.types.size(), "reader-types", "types"); for (size_t i = 0; i < s.types.size(); i++) VH_CHECK(c, ct.getDataByPos<0>()[i] == native2(s.types[i]), "reader-types", "type of cell " << i);
        size_t sg = m.getSignature(); VH_CHECK(c, m.updateSignature() == sg, "signature-current", "loading left an outdated signature");
        if (c.rng.chance(.4)) { m.initializeCenters(); m.setupBoundaryCells(); } c.ev("reloads");
    }
    c.distinct(h);
}
// one writer and several paths: every written file is the one a fresh writer of the format of its name writes for these types and this title
static std::string slurp(const std::string& p) { std::ifstream i(p, std::ios::binary); return std::string(std::istreambuf_iterator<char>(i), std::istreambuf_iterator<char>()); }
template<unsigned D> typename MeshNativeType<D>::ElementType polytope(); template<> MeshNativeType<2>::ElementType polytope<2>() { return MeshNativeType<2>::POLYGON; } template<> MeshNativeType<3>::ElementType polytope<3>() { return MeshNativeType<3>::POLYHEDRON; }
template<unsigned D, class IT> struct Fpma { template<class M, class P> static std::string text(vh::Case&, M&, P&) { return ""; } };
template<class IT> struct Fpma<3, IT> { template<class M, class P> static std::string text(vh::Case& c, M& m, P& w) { typedef FPMAMeshWriter<3, IT, double> F; VH_CHECK(c, dynamic_cast<F*>(w.get()), "path-writer", "no FPMA writer after writing an FPMA file"); F x; std::ostringstream o; x.writeToStream(o, m); return o.str(); } };
template<unsigned D, class M, class CT, class Types> void paths(vh::Case& c, Types types) {
    typedef typename std::decay<decltype(std::declval<M>().getVertices()[0].getIndex())>::type IT; typedef VTKMeshWriter<D, IT, double> W; typedef std::unique_ptr<MeshWriter<D>> P;
    std::vector<M> m(2); std::vector<Ref<D>> r(2); std::vector<CT> ct(2); for (size_t i = 0; i < 2; i++) { r[i] = Gen<D>::make(c); if (c.rng.chance(.2)) { std::vector<char> keep(r[i].n(D), 0); keep[c.rng.below(keep.size())] = 1; r[i] = select<D>(r[i], keep); } fill<D>(m[i], r[i]); m[i].initializeCenters(); types(m[i], r[i], ct[i]); m[i].updateSignature(); }
    c.distinct(vh::comb(r[0].hash(), r[1].hash())); P w; std::string hist; std::vector<std::string> names{"a.vtk", "b.vtk", "a.fpma.vtk"}; if (D == 3) { names.push_back("c.fpma"); names.push_back("d.fpma"); }
    for (int step = 0; step < 8; step++) {
        size_t k = c.rng.below(2); std::string f = c.scratch + "/" + c.rng.pick(names), title = c.rng.chance(.3) ? "" : "t" + std::to_string(c.rng.below(1000)); bool vtk = f.substr(f.size() - 4) == ".vtk"; int how = static_cast<int>(c.rng.below(4));
        if (c.rng.chance(.3)) { r[k] = Gen<D>::make(c); m[k].clear(); fill<D>(m[k], r[k]); m[k].initializeCenters(); types(m[k], r[k], ct[k]); m[k].updateSignature(); hist += "another mesh; "; } else if (c.rng.chance(.2)) types(m[k], r[k], ct[k]);
        hist += std::to_string(how) + " " + f.substr(f.rfind('/') + 1) + "; "; c.desc(hist); CT all; all.allocateData(m[k], polytope<D>()); const CT& used = how == 1 || how == 3 ? all : ct[k];
        if (how == 0) m[k].write(f, w, ct[k], title); else if (how == 1) { if (title.empty()) m[k].write(f, w); else m[k].write(f, w, CT(), title); } else if (how == 2) w = m[k].write(f, ct[k], title); else w = m[k].write(f, title);
        std::string got = slurp(f), want; if (vtk) { W x; std::ostringstream o; x.writeHeader(o, title); x.writeToStream(o, m[k], used); want = o.str(); auto* p = dynamic_cast<W*>(w.get()); VH_CHECK(c, p, "path-writer", "no VTK writer after writing " << f); VH_CHECK(c, static_cast<size_t>(p->getNumberOfCells()) == static_cast<size_t>(x.getNumberOfCells()), "path-cells", "the writer counts other cells after: " << hist); } else want = Fpma<D, IT>::text(c, m[k], w);
        VH_CHECK(c, got == want, "path-file", "the file differs from the one a fresh writer writes, after: " << hist << "\n" << got.substr(0, 300) << "\nexpected\n" << want.substr(0, 300)); c.ev("files written"); unlink(f.c_str());
    }
    c.sample(hist);
}
static void types2(vh::Case& c, const Ref<2>& r, CT2& ct) { auto& t = ct.getDataByPos<0>(); t.resize(r.n(2)); for (size_t k = 0; k < r.n(2); k++) { size_t n = r.e[2][k].size(); t[k] = c.rng.chance(.3) ? MeshNativeType<2>::POLYGON : n == 3 ? MeshNativeType<2>::TRIANGLE : n == 4 ? MeshNativeType<2>::QUAD : MeshNativeType<2>::POLYGON; } }
VH_SECTION(paths2, 60, 800) { typedef UnstructuredMesh<2, size_t, double> M; paths<2, M, CT2>(c, [&](M&, const Ref<2>& r, CT2& ct) { types2(c, r, ct); }); }
VH_SECTION(paths3, 60, 800) { typedef UnstructuredMesh<3, size_t, double> M; typedef UnstructuredMesh<3, int, double, 16> N; if (c.rng.chance(.6)) paths<3, M, CT3>(c, [&](M& m, const Ref<3>& r, CT3& ct) { types3(c, m, r, ct); }); else paths<3, N, CT3>(c, [&](N& m, const Ref<3>& r, CT3& ct) { types3(c, m, r, ct); }); }
