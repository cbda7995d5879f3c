// C18: mesh data containers: allocation and addressing, homogeneous and typed per dimension.
#include "geo.h"
#include "GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h"
using namespace mg;
namespace {
typedef UnstructuredMesh<3, size_t, double> M3;
typedef UnstructuredMesh<2, unsigned, double> M2;
template<unsigned P> using Pos = std::integer_sequence<unsigned, P>;
template<unsigned K, unsigned D, class DC, class M> void addressing(vh::Case& c, DC& d, const M& m, const Ref<D>& r) {
    typedef typename std::decay<decltype(m.getVertices()[0].getIndex())>::type I;
    const DC& k = d;
    VH_CHECK(c, d.template getDataByDim<K>().size() == r.n(K), "alloc", "dimension " << K << " has " << d.template getDataByDim<K>().size() << " expected " << r.n(K));
    VH_CHECK(c, (std::decay<decltype(d.template getDataByDim<K>())>::type::getMappedDimension() == K), "alloc", "mapped dimension");
    constexpr unsigned pos = DC::template dimensionIndex<K>();
    VH_CHECK(c, DC::template dimensionAt<pos>() == K, "alloc", "dimension at position");
    VH_CHECK(c, (void*)&d.template getDataByPos<pos>() == (void*)&d.template getDataByDim<K>() && (void*)&d[Pos<pos>()] == (void*)&d.template getDataByDim<K>() && (void*)&k[Pos<pos>()] == (void*)&k.template getDataByDim<K>() && (void*)&k.template getDataByPos<pos>() == (void*)&d.template getDataByDim<K>(), "address", "position and dimension disagree");
    for (size_t i = 0; i < r.n(K); i++) {
        auto& e = m.template getElements<K>()[i];
        auto* p = &d.template getDataByDim<K>()[i];
        VH_CHECK(c, &d[e] == p && &k[e] == p && &d.at(e) == p && &k.at(e) == p, "address", "element " << i << " of dimension " << K);
        VH_CHECK(c, (&d[ElementIndex<K, I>(I(i))] == p && &k[ElementIndex<K, I>(I(i))] == p), "address", "index " << i << " of dimension " << K);
        c.ev("addressed");
    }
    if (r.n(K)) { auto e = m.template getElements<K>()[0]; e.setIndex(I(r.n(K))); VH_THROWS(c, d.at(e), "bounds", "at() beyond dimension " << K); VH_THROWS(c, k.at(e), "bounds", "const at() beyond dimension " << K); c.ev("rejected", 2); }
}
template<unsigned K, class DC, class T> void all(vh::Case& c, const DC& d, const T& v, const char* what) { for (auto& x : d.template getDataByDim<K>()) { VH_CHECK(c, x == v, "initial-value", what << " in dimension " << K); c.ev("values"); } }
}
VH_SECTION(homogeneous3d, 100, 1500) {
    Ref<3> r = scramble<3>(random3(c.rng), c.rng); c.desc(r.text()); c.distinct(r.hash()); M3 m; fill<3>(m, r);
    { MeshDataContainer<double, 3> d(m); addressing<3>(c, d, m, r); all<3>(c, d, 0.0, "value"); }
    { MeshDataContainer<int, 0, 1, 2, 3> d(m, 42); addressing<0>(c, d, m, r); addressing<1>(c, d, m, r); addressing<2>(c, d, m, r); addressing<3>(c, d, m, r); all<0>(c, d, 42, "value"); all<1>(c, d, 42, "value"); all<2>(c, d, 42, "value"); all<3>(c, d, 42, "value");
      // writes reach exactly the addressed slot
      int t = 0; std::vector<std::vector<int>> exp(4); for (auto& e : m.getVertices()) { d[e] = t; exp[0].push_back(t++); } for (auto& e : m.getEdges()) { d[e] = t; exp[1].push_back(t++); } for (auto& e : m.getFaces()) { d[e] = t; exp[2].push_back(t++); } for (auto& e : m.getCells()) { d[e] = t; exp[3].push_back(t++); }
      VH_CHECK(c, d.getDataByDim<0>() == exp[0] && d.getDataByDim<1>() == exp[1] && d.getDataByDim<2>() == exp[2] && d.getDataByDim<3>() == exp[3], "slots", "values are mixed");
      // copies are deep, moves keep the values
      MeshDataContainer<int, 0, 1, 2, 3> e(d), f; f = d; e[m.getCells()[0]] = -1; f[m.getFaces()[0]] = -1;
      VH_CHECK(c, d.getDataByDim<3>() == exp[3] && d.getDataByDim<2>() == exp[2] && f.getDataByDim<3>() == exp[3] && e.getDataByDim<2>() == exp[2], "copy", "copies share values");
      MeshDataContainer<int, 0, 1, 2, 3> g(std::move(f)), h; h = std::move(e);
      VH_CHECK(c, g.getDataByDim<3>() == exp[3] && g.getDataByDim<0>() == exp[0] && h.getDataByDim<1>() == exp[1] && h.getDataByDim<2>() == exp[2], "copy", "moved container lost values");
      // allocation after another container
      MeshDataContainer<std::string, 3, 1> s; s.allocateData(d, std::string("init")); VH_CHECK(c, s.getDataByDim<3>().size() == r.n(3) && s.getDataByDim<1>().size() == r.n(1), "alloc", "after another container"); all<3>(c, s, std::string("init"), "value"); all<1>(c, s, std::string("init"), "value");
      MeshDataContainer<float, 0, 2> z; z.allocateData(d); addressing<0>(c, z, m, r); addressing<2>(c, z, m, r); all<2>(c, z, 0.f, "value");
      // reallocation for another mesh keeps existing values and fits the new size
      Ref<3> r2 = random3(c.rng); M3 m2; fill<3>(m2, r2); d.allocateData(m2, 7);
      for (unsigned i = 0; i < r2.n(3); i++) VH_CHECK(c, d.getDataByDim<3>()[i] == (i < exp[3].size() ? exp[3][i] : 7), "realloc", "value " << i);
      addressing<2>(c, d, m2, r2); addressing<0>(c, d, m2, r2); }
    { MeshDataContainer<std::vector<int>, 2, 0> d(m, std::vector<int>{1, 2}); addressing<2>(c, d, m, r); addressing<0>(c, d, m, r); all<2>(c, d, std::vector<int>{1, 2}, "value"); d[m.getFaces()[0]].push_back(3); VH_CHECK(c, r.n(2) < 2 || d.getDataByDim<2>()[1].size() == 2, "slots", "values are shared"); }
    { MeshDataContainer<int, 3, 1> d(m, 5, std::integer_sequence<unsigned, 3, 1>(), int()); addressing<3>(c, d, m, r); addressing<1>(c, d, m, r); all<1>(c, d, 5, "value"); MeshDataContainer<int, 3, 1> e(m, std::integer_sequence<unsigned, 3, 1>(), int()); addressing<1>(c, e, m, r); MakeMeshDataContainer_t<int, std::integer_sequence<unsigned, 1, 2>> g(m); addressing<2>(c, g, m, r); VH_CHECK(c, g.size() == 2, "alloc", "size"); }
}
VH_SECTION(homogeneous2d, 60, 800) {
    Ref<2> r = scramble<2>(random2(c.rng), c.rng); c.desc(r.text()); c.distinct(r.hash()); M2 m; fill<2>(m, r);
    MeshDataContainer<long, 2, 1, 0> d(m, 3L); addressing<2>(c, d, m, r); addressing<1>(c, d, m, r); addressing<0>(c, d, m, r); all<2>(c, d, 3L, "v"); all<0>(c, d, 3L, "v");
    MeshDataContainer<Vertex<2>, 1> e; e.allocateData(m, Vertex<2>{1, 2}); addressing<1>(c, e, m, r); all<1>(c, e, Vertex<2>{1, 2}, "v");
}
VH_SECTION(typed3d, 100, 1500) {
    Ref<3> r = scramble<3>(random3(c.rng), c.rng); c.desc(r.text()); c.distinct(r.hash()); M3 m; fill<3>(m, r);
    typedef MeshDataContainer<std::tuple<int, double, std::string>, 3, 0, 2> T;
    { T d(m); addressing<3>(c, d, m, r); addressing<0>(c, d, m, r); addressing<2>(c, d, m, r); all<3>(c, d, 0, "v"); all<0>(c, d, 0.0, "v"); }
    T d(m, 7, 2.5, std::string("x")); addressing<3>(c, d, m, r); addressing<0>(c, d, m, r); addressing<2>(c, d, m, r); all<3>(c, d, 7, "v"); all<0>(c, d, 2.5, "v"); all<2>(c, d, std::string("x"), "v");
    VH_CHECK(c, T::size() == 3, "alloc", "size");
    d[m.getFaces()[0]] = "y"; T e(d), f; f = d; e[m.getFaces()[0]] = "z";
    VH_CHECK(c, d[m.getFaces()[0]] == "y" && f[m.getFaces()[0]] == "y", "copy", "copies share values");
    T g(std::move(e)), h; h = std::move(f); VH_CHECK(c, g[m.getFaces()[0]] == "z" && h[m.getFaces()[0]] == "y" && h.getDataByDim<0>().size() == r.n(0), "copy", "moved container lost values");
    T k; k.allocateData(d); VH_CHECK(c, k.getDataByDim<3>().size() == r.n(3) && k.getDataByDim<0>().size() == r.n(0) && k.getDataByDim<2>().size() == r.n(2), "alloc", "after another container");
    T l; l.allocateData(d, 1, 2.0, std::string("q")); addressing<2>(c, l, m, r); all<3>(c, l, 1, "v"); all<0>(c, l, 2.0, "v"); all<2>(c, l, std::string("q"), "v");
    T n; n.allocateData(m, 4, 3.0, std::string("w")); all<3>(c, n, 4, "v"); all<2>(c, n, std::string("w"), "v");
}
