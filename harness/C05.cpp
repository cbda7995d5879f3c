// Export and import of data mapped to cells: values of every exported cell, and back.
#define UNDEBUG
#include "io.h"
#include "GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h"
#include "GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h"
#include "GTMesh/Traits/TraitsBind/TraitsBind.h"
template<unsigned N> struct D { // one quantity of each kind
    double p = 0; int n = 0; Vector<N, double> v; Vector<N * N, double> t; float f = 0; double secret = 0; long skipped = 7;
    const double& getS() const { return secret; } void setS(const double& x) { secret = x; }
    bool operator==(const D& o) const { for (unsigned i = 0; i < N; i++) if (v[i] != o.v[i]) return false; for (unsigned i = 0; i < N * N; i++) if (t[i] != o.t[i]) return false; return p == o.p && n == o.n && f == o.f && secret == o.secret; }
};
template<unsigned N> struct E2 { long long k = 0; Vector<N, float> w; };
template<unsigned N> struct H { std::vector<double> w; std::array<float, N * N> t; std::vector<int> z; int keep = 3; H() : w(N), z(N) { t.fill(0); } }; // indexable members of other types, sized by the user
typedef H<2> H_2; typedef H<3> H_3;
template<unsigned N> struct G { double q = 0; Vector<N, double> u; };
typedef D<2> D_2; typedef D<3> D_3; typedef E2<2> E_2; typedef E2<3> E_3;
MAKE_CUSTOM_TRAIT_IO(D_2, "pressure", &D_2::p, "n", &D_2::n, "vel", &D_2::v, "stress", &D_2::t, "f", &D_2::f, "gs", std::make_pair(&D_2::getS, &D_2::setS));
MAKE_CUSTOM_TRAIT_IO(D_3, "pressure", &D_3::p, "n", &D_3::n, "vel", &D_3::v, "stress", &D_3::t, "f", &D_3::f, "gs", std::make_pair(&D_3::getS, &D_3::setS));
MAKE_NAMED_ATTRIBUTE_TRAIT(H_2, "A_rather_long_name_of_a_quantity_with_units_[kg.m^-3.s^-2]_measured_at_the_center_of_the_cell", w, "ten", t, "z", z); MAKE_NAMED_ATTRIBUTE_TRAIT(H_3, "A_rather_long_name_of_a_quantity_with_units_[kg.m^-3.s^-2]_measured_at_the_center_of_the_cell", w, "ten", t, "z", z);
MAKE_ATTRIBUTE_TRAIT(E_2, k, w); MAKE_ATTRIBUTE_TRAIT(E_3, k, w);
static double rv(Rng& g) { switch (g.below(6)) { case 0: return g.real(-1, 1); case 1: return static_cast<double>(g.range(-5, 5)); case 2: return g.real(-1, 1) * std::pow(10., static_cast<double>(g.range(-300, 300))); case 3: return 0; case 4: return -0.0; default: return g.real(-1e6, 1e6); } }
template<unsigned N> void rnd(Rng& g, D<N>& d) { d.p = rv(g); d.n = static_cast<int>(g.range(-2147483647, 2147483647)); for (unsigned i = 0; i < N; i++) d.v[i] = rv(g); for (unsigned i = 0; i < N * N; i++) d.t[i] = rv(g); d.f = static_cast<float>(g.real(-1e3, 1e3)); d.secret = rv(g); }
template<unsigned N> void rnd(Rng& g, E2<N>& d) { d.k = static_cast<long long>(g.range(-9007199254740991L, 9007199254740991L)); for (unsigned i = 0; i < N; i++) d.w[i] = static_cast<float>(g.real(-1, 1)); }
template<unsigned N> void rnd(Rng& g, G<N>& d) { d.q = rv(g); for (unsigned i = 0; i < N; i++) d.u[i] = rv(g); }
template<unsigned N> void rnd(Rng& g, H<N>& d) { for (auto& x : d.w) x = rv(g); for (auto& x : d.t) x = static_cast<float>(g.real(-1, 1)); for (auto& x : d.z) x = static_cast<int>(g.range(-99, 99)); }
// expected VTK arrays; vectors and tensors of the plane are completed by zeros
typedef std::map<std::string, std::vector<double>> Arr;
template<unsigned N, class V> void putVec(std::vector<double>& o, const V& v) { for (unsigned i = 0; i < N; i++) o.push_back(static_cast<double>(v[i])); if (N == 2) o.push_back(0); }
template<unsigned N, class V> void putTen(std::vector<double>& o, const V& t) { for (unsigned r = 0; r < N; r++) { for (unsigned k = 0; k < N; k++) o.push_back(t[r * N + k]); if (N == 2) o.push_back(0); } if (N == 2) o.insert(o.end(), 3, 0.); }
template<unsigned N> void expect(Arr& s, Arr& v, const D<N>& d) { s["pressure"].push_back(d.p); s["n"].push_back(d.n); putVec<N>(v["vel"], d.v); putTen<N>(v["stress"], d.t); s["f"].push_back(static_cast<double>(d.f)); s["gs"].push_back(d.secret); }
template<unsigned N> void expect(Arr& s, Arr& v, const E2<N>& d) { s["k"].push_back(static_cast<double>(d.k)); putVec<N>(v["w"], d.w); }
template<unsigned N> void expect(Arr& s, Arr& v, const G<N>& d) { s["q"].push_back(d.q); putVec<N>(v["u"], d.u); }
static const char* LONG = "A_rather_long_name_of_a_quantity_with_units_[kg.m^-3.s^-2]_measured_at_the_center_of_the_cell";
template<unsigned N> void expect(Arr&, Arr& v, const H<N>& d) { putVec<N>(v[LONG], d.w); putTen<N>(v["ten"], d.t); putVec<N>(v["z"], d.z); }
static void compareArr(vh::Case& c, const Vtk& f, const Arr& s, const Arr& v) {
    VH_CHECK(c, f.err.empty(), "vtk-syntax", "the written data are not valid: " << f.err); VH_CHECK(c, f.cellData == static_cast<long>(f.cells.size()), "cell-data", "CELL_DATA " << f.cellData << " for " << f.cells.size() << " cells");
    for (int k = 0; k < 2; k++) { const Arr &g = k ? f.vectors : f.scalars, &e = k ? v : s;
        for (auto& x : e) { auto it = g.find(x.first); VH_CHECK(c, it != g.end(), "quantity-missing", "quantity " << x.first << " was not exported as " << (k ? "vector/tensor" : "scalar")); VH_CHECK(c, it->second.size() == x.second.size(), "quantity-size", "quantity " << x.first << " has " << it->second.size() << " values, expected " << x.second.size());
            for (size_t i = 0; i < x.second.size(); i++) VH_CHECK(c, it->second[i] == x.second[i], "exported-value", "value " << i << " of " << x.first << " is " << it->second[i] << " expected " << x.second[i]); c.ev("exported values", x.second.size()); }
        for (auto& x : g) VH_CHECK(c, e.count(x.first), "quantity-extra", "unexpected quantity " << x.first); }
}
template<class A, class B> void sameD(vh::Case& c, const A& a, const B& b, size_t i) { VH_CHECK(c, a == b, "imported-value", "imported data of cell " << i << " differ"); c.ev("imported cells"); }
template<unsigned N> bool operator==(const E2<N>& a, const E2<N>& b) { for (unsigned i = 0; i < N; i++) if (a.w[i] != b.w[i]) return false; return a.k == b.k; }
template<unsigned N> bool operator==(const H<N>& a, const H<N>& b) { return a.w == b.w && a.t == b.t && a.z == b.z; }
template<unsigned N> bool operator==(const G<N>& a, const G<N>& b) { for (unsigned i = 0; i < N; i++) if (a.u[i] != b.u[i]) return false; return a.q == b.q; }
// orig[i]: the cell of the exported cell i
template<unsigned N, class M, class W> void dataTrip(vh::Case& c, const M& m, const std::string& head, W& w, const M& reread, const IV& orig) {
    typedef typename std::decay<decltype(m.getVertices()[0].getIndex())>::type IT; typedef VTKMeshDataWriter<N> DW; typedef VTKMeshDataReader<N, IT> DR;
    auto traitsG = makeTraits<G<N>>("q", &G<N>::q, "u", &G<N>::u); auto traitsD = makeTraits<D<N>>("other", &D<N>::p, "sv", &D<N>::v);
    Arr s, v; std::ostringstream o; o.precision(17); o << head; int var = static_cast<int>(c.rng.below(7));
    auto exp = [&](auto& dc) { for (int k : orig) expect<N>(s, v, dc[static_cast<size_t>(k)]); };
    if (var == 0 || var == 1) { // one container, as mesh data or as a single data container
        MeshDataContainer<D<N>, N> d(m); for (auto& x : d.template getDataByPos<0>()) rnd(c.rng, x); exp(d.template getDataByPos<0>()); auto copy = d;
        if (var == 0) DW::writeToStream(o, d, w); else DW::writeToStream(o, d.template getDataByPos<0>(), w);
        for (size_t i = 0; i < m.getCells().size(); i++) VH_CHECK(c, d.template getDataByPos<0>()[i] == copy.template getDataByPos<0>()[i], "export-changed-data", "exporting changed the data");
        compareArr(c, parseVtk(o.str()), s, v); MeshDataContainer<D<N>, N> b(reread); for (auto& x : b.template getDataByPos<0>()) x.skipped = 99; std::istringstream in(o.str());
        if (c.rng.chance(.5)) DR::readFromStream(in, b); else DR::readFromStream(in, b.template getDataByPos<0>());
        for (size_t i = 0; i < orig.size(); i++) { sameD(c, b.template getDataByPos<0>()[i], d.template getDataByPos<0>()[static_cast<size_t>(orig[i])], i); VH_CHECK(c, b.template getDataByPos<0>()[i].skipped == 99, "untraited-changed", "a member without traits was changed by the import"); }
    } else if (var == 2) { // several traited containers
        MeshDataContainer<std::tuple<D<N>, E2<N>>, N, N> d(m); for (auto& x : d.template getDataByPos<0>()) rnd(c.rng, x); for (auto& x : d.template getDataByPos<1>()) rnd(c.rng, x); exp(d.template getDataByPos<0>()); exp(d.template getDataByPos<1>());
        DW::writeToStream(o, d, w); compareArr(c, parseVtk(o.str()), s, v); MeshDataContainer<std::tuple<D<N>, E2<N>>, N, N> b(reread); std::istringstream in(o.str()); DR::readFromStream(in, b);
        for (size_t i = 0; i < orig.size(); i++) { size_t k = static_cast<size_t>(orig[i]); sameD(c, b.template getDataByPos<0>()[i], d.template getDataByPos<0>()[k], i); sameD(c, b.template getDataByPos<1>()[i], d.template getDataByPos<1>()[k], i); }
    } else if (var == 3) { // containers without traits, mapped to other dimensions, are left out
        MeshDataContainer<std::tuple<double, E2<N>, int, D<N>>, 0, N, N - 1, N> d(m); for (auto& x : d.template getDataByPos<1>()) rnd(c.rng, x); for (auto& x : d.template getDataByPos<3>()) rnd(c.rng, x); exp(d.template getDataByPos<1>()); exp(d.template getDataByPos<3>());
        DW::writeToStream(o, d, w); compareArr(c, parseVtk(o.str()), s, v); MeshDataContainer<std::tuple<double, E2<N>, int, D<N>>, 0, N, N - 1, N> b(reread); for (auto& x : b.template getDataByPos<0>()) x = 5; std::istringstream in(o.str()); DR::readFromStream(in, b);
        for (size_t i = 0; i < orig.size(); i++) { size_t k = static_cast<size_t>(orig[i]); sameD(c, b.template getDataByPos<1>()[i], d.template getDataByPos<1>()[k], i); sameD(c, b.template getDataByPos<3>()[i], d.template getDataByPos<3>()[k], i); } for (auto& x : b.template getDataByPos<0>()) VH_CHECK(c, x == 5, "untraited-changed", "data without traits changed");
    } else if (var == 4) { // bound traits of a class without default ones
        MeshDataContainer<G<N>, N> d(m); for (auto& x : d.template getDataByPos<0>()) rnd(c.rng, x); exp(d.template getDataByPos<0>()); DW::writeToStream(o, bindTraits(d, traitsG), w); compareArr(c, parseVtk(o.str()), s, v);
        MeshDataContainer<G<N>, N> b(reread); std::istringstream in(o.str()); DR::readFromStream(in, bindTraits(b, traitsG)); for (size_t i = 0; i < orig.size(); i++) sameD(c, b.template getDataByPos<0>()[i], d.template getDataByPos<0>()[static_cast<size_t>(orig[i])], i);
    } else if (var == 6) { // dynamically sized members and arrays
        MeshDataContainer<std::tuple<H<N>, E2<N>>, N, N> d(m); for (auto& x : d.template getDataByPos<0>()) rnd(c.rng, x); for (auto& x : d.template getDataByPos<1>()) rnd(c.rng, x); exp(d.template getDataByPos<0>()); exp(d.template getDataByPos<1>());
        DW::writeToStream(o, d, w); compareArr(c, parseVtk(o.str()), s, v); MeshDataContainer<std::tuple<H<N>, E2<N>>, N, N> b(reread); for (auto& x : b.template getDataByPos<0>()) { rnd(c.rng, x); x.keep = 8; } std::istringstream in(o.str()); DR::readFromStream(in, b);
        for (size_t i = 0; i < orig.size(); i++) { size_t k = static_cast<size_t>(orig[i]); sameD(c, b.template getDataByPos<0>()[i], d.template getDataByPos<0>()[k], i); sameD(c, b.template getDataByPos<1>()[i], d.template getDataByPos<1>()[k], i); VH_CHECK(c, b.template getDataByPos<0>()[i].keep == 8, "untraited-changed", "a member without traits was changed by the import"); }
    } else { // bound traits override the default ones of one container only
        MeshDataContainer<std::tuple<E2<N>, D<N>, G<N>>, N, N, N> d(m); for (auto& x : d.template getDataByPos<0>()) rnd(c.rng, x); for (auto& x : d.template getDataByPos<1>()) rnd(c.rng, x); for (auto& x : d.template getDataByPos<2>()) rnd(c.rng, x);
        exp(d.template getDataByPos<0>()); exp(d.template getDataByPos<2>()); for (int k : orig) { s["other"].push_back(d.template getDataByPos<1>()[static_cast<size_t>(k)].p); putVec<N>(v["sv"], d.template getDataByPos<1>()[static_cast<size_t>(k)].v); }
        if (c.rng.chance(.5)) DW::writeToStream(o, bindTraits(d, traitsG, traitsD), w); else DW::writeToStream(o, bindTraits(d, traitsD, traitsG), w); compareArr(c, parseVtk(o.str()), s, v);
        MeshDataContainer<std::tuple<E2<N>, D<N>, G<N>>, N, N, N> b(reread); std::istringstream in(o.str()); if (c.rng.chance(.5)) DR::readFromStream(in, bindTraits(b, traitsG, traitsD)); else DR::readFromStream(in, b, std::tie(traitsD, traitsG));
        for (size_t i = 0; i < orig.size(); i++) { size_t k = static_cast<size_t>(orig[i]); sameD(c, b.template getDataByPos<0>()[i], d.template getDataByPos<0>()[k], i); sameD(c, b.template getDataByPos<2>()[i], d.template getDataByPos<2>()[k], i); VH_CHECK(c, b.template getDataByPos<1>()[i].p == d.template getDataByPos<1>()[k].p && b.template getDataByPos<1>()[i].secret == 0, "imported-value", "bound traits"); }
    }
    c.ev("variant " + std::to_string(var));
}
template<class M> void run3(vh::Case& c, const Ref<3>& r, const IV& types) {
    typedef typename std::decay<decltype(std::declval<M>().getVertices()[0].getIndex())>::type IT;
    M m, b; fill<3>(m, r); m.initializeCenters(); MeshDataContainer<MeshNativeType<3>::ElementType, 3> ct(m); IV orig; bool tess = false;
    for (size_t k = 0; k < r.n(3); k++) { ct.template getDataByPos<0>()[k] = native3(types[k]); size_t n = 1; if (types[k] == 42) { n = 0; for (int f : r.e[3][k]) n += r.e[2][static_cast<size_t>(f)].size(); tess = true; } orig.insert(orig.end(), n, static_cast<int>(k)); }
    VTKMeshWriter<3, IT, double> w; std::string head = vtkOut(m, w, ct); VTKMeshReader<3> rd; std::istringstream in(head); rd.loadFromStream(in, b); VH_CHECK(c, b.getCells().size() == orig.size(), "exported-cells", b.getCells().size() << " cells exported, expected " << orig.size());
    c.ev(tess ? "tessellated exports" : "plain exports"); dataTrip<3>(c, m, head, w, tess ? b : c.rng.chance(.5) ? m : b, orig);
}
VH_SECTION(mixed3, 260, 5000) {
    Std3 s = randomStd3(c.rng); Ref<3> r = scramble<3>(s.ref, c.rng); IV types; double pp = c.rng.pick(std::vector<double>{0, .1, .5, .9}); for (size_t k = 0; k < r.n(3); k++) types.push_back(c.rng.chance(pp) ? 42 : shapeOf(r, k));
    c.desc(r.text() + vh::strv(types)); c.distinct(vh::comb(r.hash(), vh::hashStr(vh::strv(types)))); c.sample("types " + vh::strv(types));
    switch (c.rng.below(3)) { case 0: run3<UnstructuredMesh<3, size_t, double>>(c, r, types); break; case 1: run3<UnstructuredMesh<3, size_t, double, 6>>(c, r, types); break; default: run3<UnstructuredMesh<3, int, double>>(c, r, types); }
}
VH_SECTION(polyhedral3, 100, 2000) {
    Ref<3> r = scramble<3>(random3(c.rng), c.rng); IV types(r.n(3), 42); for (size_t k = 0; k < types.size(); k++) if (c.rng.chance(.3)) types[k] = shapeOf(r, k); c.desc(r.text()); c.distinct(r.hash());
    run3<UnstructuredMesh<3, size_t, double>>(c, r, types);
}
template<class M> void run2(vh::Case& c, const Ref<2>& r, const IV& types) {
    typedef typename std::decay<decltype(std::declval<M>().getVertices()[0].getIndex())>::type IT;
    M m, b; fill<2>(m, r); MeshDataContainer<MeshNativeType<2>::ElementType, 2> ct(m); IV orig; for (size_t i = 0; i < r.n(2); i++) { ct.template getDataByPos<0>()[i] = native2(types[i]); orig.push_back(static_cast<int>(i)); }
    VTKMeshWriter<2, IT, double> w; std::ostringstream o; o.precision(17); w.writeHeader(o, "title"); w.writeToStream(o, m, ct); VTKMeshReader<2> rd; std::istringstream in(o.str()); rd.loadFromStream(in, b); dataTrip<2>(c, m, o.str(), w, c.rng.chance(.5) ? m : b, orig);
}
VH_SECTION(plane, 260, 5000) {
    Std2 s = randomStd2(c.rng); c.desc(s.ref.text()); c.distinct(s.ref.hash()); c.sample(s.ref.text().substr(0, 120));
    if (c.rng.chance(.6)) run2<UnstructuredMesh<2, size_t, double>>(c, s.ref, s.types); else run2<UnstructuredMesh<2, int, double>>(c, s.ref, s.types);
}
// files of other programs: any order of quantities, layout of values, unrelated quantities; defects are reported
template<unsigned N> void foreign(vh::Case& c) {
    typedef VTKMeshDataReader<N, size_t> DR; size_t n = 1 + c.rng.below(30); DataContainer<D<N>, N> d, b; d.resize(n); b.resize(n); for (auto& x : d) rnd(c.rng, x); std::string nl = c.rng.chance(.2) ? "\r\n" : "\n";
    Arr s, v; for (auto& x : d) expect<N>(s, v, x); std::vector<std::string> parts; int layout = static_cast<int>(c.rng.below(3)); const std::string names[] = {"pressure", "n", "f", "gs", "vel", "stress"};
    auto vals = [&](const std::vector<double>& x, size_t row) { std::ostringstream o; o.precision(17); for (size_t i = 0; i < x.size(); i++) o << x[i] << (layout == 0 ? " " : layout == 1 ? nl : (i + 1) % row ? "  " : nl); o << nl; return o.str(); };
    for (auto& x : s) parts.push_back("SCALARS " + x.first + (c.rng.chance(.5) ? " double 1" : " double") + nl + "LOOKUP_TABLE " + (c.rng.chance(.6) ? std::string("default") : "table_" + std::string(c.rng.below(200), 't')) + nl + vals(x.second, 4));
    for (auto& x : v) parts.push_back((x.first == "vel" ? "VECTORS " : "TENSORS ") + x.first + " double" + nl + vals(x.second, x.first == "vel" ? 3 : 9));
    for (int k = static_cast<int>(c.rng.below(3)); k > 0; k--) parts.push_back("SCALARS extra" + std::to_string(k) + " int 1" + nl + "LOOKUP_TABLE default" + nl + vals(std::vector<double>(n, 3), 4));
    c.rng.shuffle(parts); std::string head = "# vtk DataFile Version 2.0" + nl + "t" + nl + "ASCII" + nl + "DATASET UNSTRUCTURED_GRID" + nl + "CELL_DATA " + std::to_string(n) + nl, text = head; for (auto& p : parts) text += p;
    c.desc(text); c.distinct(vh::hashStr(text)); std::istringstream in(text); if (c.rng.chance(.3)) in.get(); // the position of the stream does not matter
    DR::readFromStream(in, b); for (size_t i = 0; i < n; i++) sameD(c, b[i], d[i], i); DR::readFromStream(in, b); for (size_t i = 0; i < n; i++) sameD(c, b[i], d[i], i);
    // one quantity missing
    size_t drop; do drop = c.rng.below(parts.size()); while (parts[drop].find("extra") != std::string::npos); std::string t2 = head; for (size_t i = 0; i < parts.size(); i++) if (i != drop) t2 += parts[i];
    { std::istringstream in2(t2); VH_THROWS(c, DR::readFromStream(in2, b), "missing-quantity", "a file without a quantity of the traits was accepted: " << parts[drop].substr(0, 30)); c.ev("rejected files"); }
    // the last quantity, if needed, ends too early
    if (parts.back().find("extra") == std::string::npos) {
        size_t end = text.find_last_not_of(" \r\n"), st = text.find_last_of(" \n", end); std::string t3 = text.substr(0, st); { std::istringstream in3(t3); VH_THROWS(c, DR::readFromStream(in3, b), "truncated-data", "a file without the last value was accepted"); }
        std::string t4 = text; t4[st + 1] = 'x'; { std::istringstream in4(t4); VH_THROWS(c, DR::readFromStream(in4, b), "invalid-data", "a file with an invalid value was accepted"); } c.ev("rejected files", 2);
    }
}
VH_SECTION(foreignFiles, 200, 4000) { if (c.rng.chance(.5)) foreign<2>(c); else foreign<3>(c); }
VH_SECTION(large, 3, 30) {
    Big big(c.index); Std3 s = randomStd3(c.rng); Ref<3> r = scramble<3>(s.ref, c.rng); IV types; for (size_t k = 0; k < r.n(3); k++) types.push_back(c.rng.chance(.1) ? 42 : shapeOf(r, k)); c.desc(r.text()); c.distinct(r.hash()); run3<UnstructuredMesh<3, unsigned, double>>(c, r, types);
    Std2 q = randomStd2(c.rng); run2<UnstructuredMesh<2, size_t, double>>(c, q.ref, q.types); c.ev("cells of large meshes", r.n(3) + q.ref.n(2));
}
