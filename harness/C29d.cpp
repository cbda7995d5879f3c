// C29: data mapped to mesh elements, and long values.
#include "C29.h"
#include <GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h>
#include <GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainerTraits/MeshDataContainerIOTraits.h>
namespace ve {
template<class T, unsigned N> struct M<DataContainer<T, N>> { static std::string s(const DataContainer<T, N>& v, Fmt f) { return seq(v.begin(), v.end(), f); } };
template<class T, unsigned I, unsigned... N> std::enable_if_t<I == sizeof...(N), std::string> mdc(const MeshDataContainer<T, N...>&, Fmt) { return " }"; }
template<class T, unsigned I, unsigned... N> std::enable_if_t<(I < sizeof...(N)), std::string> mdc(const MeshDataContainer<T, N...>& v, Fmt f) {
    static const unsigned dims[] = {N...}; return (I ? ", " : "{ ") + at("dim " + std::to_string(dims[I]), m(v.template getDataByPos<I>(), f)) + mdc<T, I + 1, N...>(v, f); }
template<class T, unsigned... N> struct M<MeshDataContainer<T, N...>> { static std::string s(const MeshDataContainer<T, N...>& v, Fmt f) { return mdc<T, 0, N...>(v, f); } };
}
namespace vh {
template<class T, unsigned N> void g(Rng& r, DataContainer<T, N>& v) { v.resize(r.below(6)); for (auto& x : v) ve::g(r, x); }
template<unsigned I, class C> std::enable_if_t<I == C::size()> gmd(Rng&, C&) {}
template<unsigned I, class C> std::enable_if_t<(I < C::size())> gmd(Rng& r, C& v) { g(r, v.template getDataByPos<I>()); gmd<I + 1>(r, v); }
template<class T, unsigned... N> void g(Rng& r, MeshDataContainer<T, N...>& v) { gmd<0>(r, v); }
}
VH_SECTION(meshData, 400, 12000) {
    typedef std::tuple<D, std::string, std::vector<int>> T3;
    switch (c.index % 8) {
    case 0: R(DataContainer<double, 2>); break; case 1: R(DataContainer<Nest, 3>); break; case 2: R(MeshDataContainer<double, 3>); break; case 3: R(MeshDataContainer<int, 0, 1, 2, 3>); break; case 4: R(MeshDataContainer<T3, 3, 2, 3>); break;
    case 5: R(MeshDataContainer<D, 3, 0>); break; case 6: R(MeshDataContainer<std::string, 999, 10, 100, 9>); break; default: R(MeshDataContainer<Vector<3, float>, 2>); break;
    }
}
template<class T> static void longv(vh::Case& c, const T& v, const char* name) {
    std::string e = m(v, Fmt{6}); std::ostringstream o; VariableExport::exportVariable(o, v); VH_CHECK(c, o.str() == e, "long", name << " of " << e.size() << " characters exported as " << o.str().size() << " characters");
    Capture cap(1); VariableExport::exportVariable(v); std::string g = cap.stop(); VH_CHECK(c, g == e, "long-stdio", name << " of " << e.size() << " characters exported as " << g.size() << " characters"); c.ev("long values"); c.distinct(vh::hashStr(e));
}
VH_SECTION(hugeValues, 4, 60) {
    size_t n = c.index % 2 ? 65534 + c.rng.below(5) : 60000 + c.rng.below(80000); c.desc(std::to_string(n)); std::vector<int> v(n); for (auto& x : v) x = int(c.rng.below(100000)); longv(c, v, "vector"); longv(c, std::list<int>(v.begin(), v.end()), "list");
    Idx i; i.v.assign(v.begin(), v.end()); longv(c, i, "indexable"); Tnl t; for (int x : v) t.v.push_back(std::to_string(x)); longv(c, t, "TNL indexable"); std::string s; for (int x : v) s += char(32 + x % 95); longv(c, s, "string"); DataContainer<int, 3> d; d.assign(v.begin(), v.end()); longv(c, d, "data container");
}
