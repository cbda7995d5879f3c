// Operations of one thread on objects of its own.
#define UNDEBUG
#include "C32.h"
#include <unistd.h>
#include <GTMesh/Debug/VariableExport.h>
#include <GTMesh/Debug/JSONLogger.h>
#include <GTMesh/Debug/HTMLLogger.h>
#include <GTMesh/NumericStaticArray/GramSchmidt.h>
#include <GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h>
using namespace mg;
struct Own { double a; Vector<3, double> v; std::vector<int> k; std::string s; };
struct Num { double a; Vector<2, double> v; };
MAKE_ATTRIBUTE_TRAIT(Own, a, v, k, s);
MAKE_ATTRIBUTE_TRAIT(Num, a, v);
template<class C> static std::string txt(const C& x) { std::ostringstream o; o.precision(17); VariableExport::exportVariable(o, x); return o.str(); }
static std::string slurp(const std::string& f) { std::ifstream i(f.c_str(), std::ios::binary); std::ostringstream o; o << i.rdbuf(); unlink(f.c_str()); return o.str(); }
template<unsigned D, class M> std::string sum(const M& m) { std::ostringstream o; o.precision(17); for (auto& v : m.getVertices()) o << v[0] << " " << v[1] << ";"; for (auto& c : m.getCells()) o << c.getBoundaryElementIndex() << " "; for (auto& f : m.getFaces()) o << f.getCellLeftIndex() << "/" << f.getCellRightIndex() << " "; return o.str(); }
namespace ct {
std::vector<std::pair<std::string, Op>> independent(uint64_t seed, const std::string& scratch, int thread) {
    std::vector<std::pair<std::string, Op>> q; std::string base = scratch + "/t" + std::to_string(thread);
    q.emplace_back("vtk", [=] { vh::Rng r(seed); Ref<2> ref = random2(r); UnstructuredMesh<2, size_t, double> m, b; fill<2>(m, ref); m.initializeCenters(); m.setupBoundaryCells();
        MeshDataContainer<MeshNativeType<2>::ElementType, 2> t(m, MeshNativeType<2>::POLYGON); m.write(base + ".vtk", t, "own"); b.load(base + ".vtk"); std::string f = slurp(base + ".vtk"); return sum<2>(b) + f; });
    q.emplace_back("fpma", [=] { vh::Rng r(seed + 1); Gen3 g; g.maxN = 2; g.maxLayers = 2; Ref<3> ref = random3(r, g); UnstructuredMesh<3, size_t, double> m, b; fill<3>(m, ref); m.initializeCenters();
        MeshDataContainer<MeshNativeType<3>::ElementType, 3> t(m, MeshNativeType<3>::POLYHEDRON); m.write(base + ".fpma", t, "own"); b.load(base + ".fpma"); std::string f = slurp(base + ".fpma"); return sum<3>(b) + f; });
    q.emplace_back("vtk3", [=] { vh::Rng r(seed + 2); Gen3 g; g.maxN = 2; g.maxLayers = 2; Ref<3> ref = random3(r, g); UnstructuredMesh<3, unsigned, double, 12> m, b; fill<3>(m, ref); m.initializeCenters();
        MeshDataContainer<MeshNativeType<3>::ElementType, 3> t(m, MeshNativeType<3>::POLYHEDRON); m.write(base + "3.vtk", t, "own"); b.load(base + "3.vtk"); std::string f = slurp(base + "3.vtk"); return sum<3>(b) + f; });
    q.emplace_back("serializer", [=] { vh::Rng r(seed + 3); BinarySerializer s, z; std::vector<Own> v(r.below(6)), w; for (auto& x : v) { x.a = r.unit(); for (auto& y : x.v) y = r.unit(); x.k.assign(r.below(4), 3); x.s = r.str(6, "abc"); } std::map<std::string, double> m{{"a", 1}, {"b", r.unit()}}, n; s << v; s << m; s.saveToFile(base + ".bin"); z.loadFromFile(base + ".bin"); unlink((base + ".bin").c_str()); z >> w; z >> n; return txt(w) + txt(n); });
    q.emplace_back("json", [=] { vh::Rng r(seed + 4); { JSONLogger l((base + ".json").c_str()); for (int i = 0; i < 5; i++) { Own o{r.unit(), {1, 2, 3}, {i}, r.str(5, "ab\"\\")}; l.writeVar(i, "file", "own", o, "i", i); } } return slurp(base + ".json"); });
    q.emplace_back("html", [=] { vh::Rng r(seed + 5); { HtmlLogger l((base + ".html").c_str()); for (int i = 0; i < 5; i++) { Own o{r.unit(), {1, 2, 3}, {i}, r.str(5, "ab\"\\<")}; l.writeVar(i, "file", "own", o, "i", i); } } return slurp(base + ".html"); });
    q.emplace_back("algebra", [=] { vh::Rng r(seed + 6); std::vector<Vector<3, double>> v(3); for (auto& x : v) for (auto& y : x) y = r.real(-1, 1); std::vector<double> n; Num a{r.unit(), {1, 2}}, b{r.unit(), {r.unit(), 4}}; a += b * 2.0; a = a - b; std::string t = txt(a) + txt(max(a)); Vector<3, double> s = v[0] * 2.0 + v[1] - v[2]; return t + txt(s) + txt(s.normEuclid()); });
    q.emplace_back("building", [=] { vh::Rng r(seed + 7); Ref<3> ref = random3(r, Gen3()); UnstructuredMesh<3, size_t, double> m; fill<3>(m, ref); m.setupBoundaryCells(); m.initializeCenters(); m.setupBoundaryCellsCenters(); MeshDataContainer<std::tuple<double, std::string>, 3, 0> d(m); d.template getDataByPos<0>()[0] = 3; auto k = m.coloring<3, 2, METHOD_RANDOM>(5); return sum<3>(m) + txt(k.getDataByPos<0>()) + txt(d.getDataByPos<0>()); });
    return q;
}
}
