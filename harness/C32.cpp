// C32: concurrent read-only use of shared objects and concurrent use of independent ones, under ThreadSanitizer.
#include "C32.h"
#include <GTMesh/Singleton/Singleton.h>
#include <GTMesh/Debug/VariableExport.h>
using namespace ct; using namespace mg;
template<class C> std::string txt(const C& x) { std::ostringstream o; o.precision(17); VariableExport::exportVariable(o, x); return o.str(); }
template<unsigned D, class M> std::string traverse(const M& m) { std::ostringstream o; for (size_t i = 0; i < m.getCells().size(); i++) { o << "c" << i; m.template apply<D, 0>(i, [&](size_t a, size_t b) { o << " " << a << "-" << b; }); } m.template apply<0, D>([&](size_t a, size_t b) { o << " " << a << "-" << b; }); return o.str(); }
template<unsigned K, class M> std::string elem(const M& m) { std::ostringstream o; o.precision(17); for (auto& e : m.template getElements<K>()) o << e.getIndex() << " "; return o.str(); }
template<class M> std::string cells(const M& m) { std::ostringstream o; o.precision(17); for (auto& e : m.getCells()) { o << e.getIndex() << ":"; for (auto x : e.getCenter()) o << x << ","; o << e.getFlag() << " "; auto f = e.getBoundaryElementIndex(); do { o << f << ","; f = m.getFaces()[f].getNextBElem(e.getIndex()); } while (f != e.getBoundaryElementIndex()); } return o.str(); }
struct Dat { double a; int b; std::vector<std::string> c; };
MAKE_ATTRIBUTE_TRAIT(Dat, a, b, c);
template<class M> std::string orient(M& m, std::integral_constant<unsigned, 3>) { auto o = edgesOrientation(m); return txt(o.template getDataByPos<0>()); }
template<class M> std::string orient(M& m, std::integral_constant<unsigned, 2>) { std::ostringstream o; for (auto& cell : m.getCells()) { auto f = cell.getBoundaryElementIndex(); do { o << edgeIsLeft(m, cell.getIndex(), f); f = m.getFaces()[f].getNextBElem(cell.getIndex()); } while (f != cell.getBoundaryElementIndex()); } return o.str(); }
template<unsigned D, class M> std::vector<std::pair<std::string, Op>> queries(const std::shared_ptr<M>& m, const std::shared_ptr<const MeshDataContainer<std::tuple<double, Dat, std::vector<int>>, D, 0, D - 1>>& d, const std::shared_ptr<const BinarySerializer>& ser, const std::string& scratch) {
    std::vector<std::pair<std::string, Op>> q;
#define Q(name, ...) q.emplace_back(name, [=]() -> std::string { return __VA_ARGS__; })
    Q("centers", txt(computeCenters<METHOD_DEFAULT>(*m).template getDataByDim<D>())); Q("tessellated centers", txt(computeCenters<METHOD_TESSELLATED>(*m).template getDataByDim<D - 1>()));
    Q("measures", txt(m->computeElementMeasures().template getDataByDim<D>())); Q("tessellated measures", txt(m->template computeElementMeasures<METHOD_TESSELLATED>().template getDataByDim<D - 1>()));
    Q("normals", txt(m->computeFaceNormals().template getDataByDim<D - 1>())); Q("tessellated normals", txt(m->template computeFaceNormals<METHOD_TESSELLATED>().template getDataByDim<D - 1>()));
    Q("distances", txt(computeCellsDistance(*m).template getDataByDim<D - 1>())); Q("differences", txt(computeCellsCenterDifference(*m).template getDataByDim<D - 1>()));
    Q("connections", txt(m->template connections<D, 0>().template getDataByPos<0>())); Q("original connections", txt(m->template connections<0, D, Order::ORDER_ORIGINAL>().template getDataByPos<0>()));
    Q("neighborhood", txt(m->template neighborhood<D, D - 1, D>().template getDataByPos<0>())); Q("vertex neighborhood", txt(m->template neighborhood<0, D, 0>().template getDataByPos<0>()));
    Q("coloring", txt((m->template coloring<D - 1, D>().template getDataByPos<0>()))); Q("random coloring", txt((m->template coloring<D, 0, METHOD_RANDOM>(7).template getDataByPos<0>())));
    Q("traversal", traverse<D>(*m)); Q("orientation", orient(*m, std::integral_constant<unsigned, D>())); Q("elements", elem<0>(*m) + elem<1>(*m) + elem<D>(*m)); Q("cells", cells(*m));
    Q("container", txt(MeshDataContainer<double, 0, D>(*m, 3.5).template getDataByPos<1>())); Q("copy", cells(M(*m)));
    Q("data", txt(d->template getDataByPos<0>()) + txt(d->template getDataByPos<1>()) + txt(d->template getDataByPos<2>()));
    Q("addressed data", [&] { std::ostringstream o; for (auto& cell : static_cast<const M&>(*m).getCells()) o << (*d)[cell] << " "; for (auto& v : static_cast<const M&>(*m).getVertices()) o << txt(d->at(v)) << " "; return o.str(); }());
    Q("copied data", [&] { auto k = *d; return txt(k.template getDataByPos<1>()); }());
    Q("traits", [&] { std::ostringstream o; const auto t = DefaultIOTraits<Dat>::getTraits(); o << t.template getName<0>() << ","; o << t.template getName<1>() << d->template getDataByPos<1>()[0].b; Dat x = d->template getDataByPos<1>()[0]; t.template setValue<1>(x, 5); o << t.template getValue<1>(x); return o.str(); }());
    Q("serialized data", [&] { BinarySerializer s; s << d->template getDataByPos<0>(); s.write(d->template getDataByPos<2>()); std::vector<double> a; std::vector<std::vector<int>> b; s >> a; s.read(b); return vh::str(s.getData().size()) + txt(a) + txt(b); }());
    Q("copied serializer", [&] { BinarySerializer s = *ser; std::string a; std::vector<double> b; s >> a; s >> b; return a + txt(b) + vh::str(s.getData().size()); }());
#undef Q
    return q;
}
template<unsigned D, class M> void shared(vh::Case& c, const Ref<D>& r) {
    c.desc(r.text()); auto m = std::make_shared<M>(); fill<D>(*m, r); m->initializeCenters(); if (c.rng.chance(0.3)) { m->setupBoundaryCells(); m->setupBoundaryCellsCenters(); }
    auto d = std::make_shared<MeshDataContainer<std::tuple<double, Dat, std::vector<int>>, D, 0, D - 1>>(*m);
    for (auto& x : d->template getDataByPos<0>()) x = c.rng.real(-1, 1); for (auto& x : d->template getDataByPos<1>()) { x.a = c.rng.real(-1, 1); x.b = int(c.rng.below(9)); x.c.assign(c.rng.below(3), "s\"t"); } for (auto& x : d->template getDataByPos<2>()) x.assign(c.rng.below(4), 7);
    auto ser = std::make_shared<BinarySerializer>(); { std::string s = "text"; std::vector<double> v(5, c.rng.unit()); *ser << s; *ser << v; }
    auto q = queries<D, M>(m, d, ser, c.scratch); Group g{c}; int T = int(c.rng.range(2, 8)), n = int(c.rng.range(4, 14));
    bool same = c.rng.chance(0.3); // all threads start with the same operation
    int first = int(c.rng.below(q.size()));
    for (int t = 0; t < T; t++) { g.todo.emplace_back(); g.want.emplace_back(); for (int i = 0; i < n; i++) g.todo[size_t(t)].push_back(q[size_t(same && i == 0 ? first : int(c.rng.below(q.size())))]); }
    // the sequential results are computed after the concurrent run, so that nothing lazily initialized hides a race
    g.run("shared", [&] { for (size_t t = 0; t < g.todo.size(); t++) for (auto& o : g.todo[t]) g.want[t].push_back(o.second()); });
    c.ev("shared meshes");
}
VH_SECTION(shared2d, 120, 2500) { shared<2, UnstructuredMesh<2, size_t, double>>(c, scramble<2>(random2(c.rng), c.rng)); }
VH_SECTION(shared3d, 100, 2000) { Gen3 o; o.maxN = 2; o.maxLayers = 2; if (c.rng.chance(0.5)) shared<3, UnstructuredMesh<3, size_t, double>>(c, scramble<3>(random3(c.rng, o), c.rng)); else shared<3, UnstructuredMesh<3, unsigned, double, 12>>(c, scramble<3>(random3(c.rng, o), c.rng)); }
// every thread works with objects of its own
VH_SECTION(independent, 100, 2000) {
    Group g{c}; int T = int(c.rng.range(2, 8)); std::vector<uint64_t> s; for (int t = 0; t < T; t++) s.push_back(c.rng.u64()); if (c.rng.chance(0.3)) for (auto& x : s) x = s[0];
    for (int t = 0; t < T; t++) { g.todo.push_back(independent(s[size_t(t)], c.scratch, t)); g.want.emplace_back(); vh::Rng r(s[size_t(t)]); r.shuffle(g.todo.back()); }
    g.run("independent", [&] { for (size_t t = 0; t < g.todo.size(); t++) for (auto& o : g.todo[t]) g.want[t].push_back(o.second()); });
}
// one instance of every singleton, constructed once, however many threads ask for it first
static std::atomic<int> born{0};
template<int N> struct Tag { int value; std::vector<int> v; Tag() { born.fetch_add(1, std::memory_order_relaxed); v.assign(5, N); std::this_thread::yield(); value = N; } };
typedef const void* (*Get)(int&);
template<int N> const void* get(int& v) { Tag<N>& t = Singleton<Tag<N>>::getInstance(); v = t.value + t.v[4]; return &t; }
template<int... I> std::vector<Get> table(std::integer_sequence<int, I...>) { return {&get<I>...}; }
VH_SECTION(singleton, 200, 200) {
    static const std::vector<Get> all = table(std::make_integer_sequence<int, 200>()); int k = int(c.index % 200), T = int(c.rng.range(2, 8)), before = born;
    std::vector<const void*> p(size_t(T), nullptr); std::vector<int> v(size_t(T), -1); Gate g(T); std::vector<std::thread> th; bool fresh = true; { static std::set<int> used; fresh = used.insert(k).second; }
    for (int t = 0; t < T; t++) th.emplace_back([&, t] { g.wait(); p[size_t(t)] = all[size_t(k)](v[size_t(t)]); });
    for (auto& t : th) t.join();
    for (int t = 0; t < T; t++) VH_CHECK(c, p[size_t(t)] == p[0] && v[size_t(t)] == 2 * k, "instances", "threads got different or incomplete instances of a singleton");
    VH_CHECK(c, born - before == (fresh ? 1 : 0), "constructed", "a singleton was constructed " << born - before << " times"); c.ev("singletons"); c.distinct(uint64_t(k));
}
