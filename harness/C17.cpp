// C17: sub-element containers, element index wrappers and element storage of the mesh against sequence models.
#include "geo.h"
using namespace mg;
namespace {
template<class C, class I> void same(vh::Case& c, C& s, const std::vector<I>& m, const std::string& h) {
    const C& k = s;
    VH_CHECK(c, size_t(s.size()) == m.size() && size_t(k.getNumberOfSubElements()) == m.size(), "size", "size " << s.size() << " expected " << m.size() << " after" << h);
    std::vector<I> a, b, d; for (I x : s) a.push_back(x); for (I x : k) b.push_back(x); for (auto it = k.cbegin(); it != k.cend(); ++it) d.push_back(*it);
    VH_CHECK(c, a == m && b == m && d == m, "content", vh::strv(a) << " expected " << vh::strv(m) << " after" << h);
    for (size_t i = 0; i < m.size(); i++) VH_CHECK(c, s[i] == m[i] && k[i] == m[i] && s.at(i) == m[i], "content", "element " << i << " after" << h);
    c.ev("observed_states");
}
template<class I, unsigned N> void subs(vh::Case& c) {
    typedef SubelementContainer<I, N> S;
    S s; std::vector<I> m; std::string h;
    int n = int(c.rng.range(1, N ? 3 * (N < 40 ? N : 40) + 5 : 60)), bias = int(c.rng.below(3));
    same(c, s, m, " construction");
    if (N > 255) for (unsigned i = 0; i < N - 3; i++) { s.addSubelement(I(i * 7)); m.push_back(I(i * 7)); }
    for (int i = 0; i < n; i++) {
        I x = c.rng.chance(.1) ? std::numeric_limits<I>::max() : I(c.rng.below(1000));
        int op = int(c.rng.below(6 + bias));
        if (op == 0) { // remove
            unsigned at = unsigned(c.rng.below(m.size() + (c.rng.chance(.2) ? 3 : 0)));
            if (N > 255 && c.rng.chance(.7) && m.size() > 2) at = unsigned(m.size() - 1 - c.rng.below(3));
            h += " remove(" + vh::str(at) + ")";
            if (at < m.size()) { s.removeSubelement(at); m.erase(m.begin() + at); c.ev("removed"); }
            else { VH_THROWS(c, s.removeSubelement(at), "remove", "out of range" << h); c.ev("rejected"); }
        } else if (op == 1) { S t = s; same(c, t, m, h + " copy"); S u; u = t; s = u; h += " copied"; if (m.size()) { t.removeSubelement(0); } c.ev("copies"); }
        else if (op == 2 && m.size()) { size_t at = c.rng.below(m.size()); s[at] = x; m[at] = x; h += " set"; }
        else {
            h += " add";
            if (N && m.size() == N) { VH_THROWS(c, (op & 1 ? s.addSubelement(x) : s.push_back(x)), "overflow", "capacity " << N << h); c.ev("rejected"); }
            else { if (op & 1) s.addSubelement(x); else s.push_back(x); m.push_back(x); c.ev("added"); }
        }
        same(c, s, m, h);
    }
    c.distinct(vh::hashStr(h + vh::strv(m))); c.sample(h.substr(0, 200));
}
template<unsigned D, class I> void index(vh::Case& c) {
    I v = I(c.rng.u64() & 0x7fff), w = I(c.rng.u64() & 0x7fff);
    ElementIndex<D, I> a(v), b(a), d; const ElementIndex<D, I> k(w);
    VH_CHECK(c, I(a) == v && a.index == v && I(b) == v && d.index == I() && (ElementIndex<D, I>::getDimension() == D), "index", "construction from " << v);
    d = w; VH_CHECK(c, I(d) == w && d == k && (a == b) && ((a == d) == (v == w)), "index", "assignment of " << w);
    a = d; b = k; VH_CHECK(c, I(a) == w && I(b) == w, "index", "assignment");
    std::vector<int> arr(0x8000, 3); arr[w] = 4; VH_CHECK(c, arr[k] == 4, "index", "used as a subscript");
    c.ev("indexes");
}
// element storage: addressing by dimension and by typed index, deep copies, fixed and dynamic sub-element storage agree
template<unsigned K, unsigned D, class M> struct Elems { static void run(vh::Case& c, M& m, const Ref<D>& r) {
    const M& k = m; typedef typename std::decay<decltype(m.getVertices()[0].getIndex())>::type I;
    VH_CHECK(c, m.template getElements<K>().size() == r.n(K) && k.template getElements<K>().size() == r.n(K), "elements", "dimension " << K);
    for (size_t i = 0; i < r.n(K); i++) {
        ElementIndex<K, I> ei = I(i);
        VH_CHECK(c, &m.getElement(ei) == &m.template getElements<K>()[i] && &k.getElement(ei) == &k.template getElements<K>()[i] && size_t(k.getElement(ei).getIndex()) == i, "elements", "typed index " << i << " of dimension " << K);
        c.ev("addressed");
    }
    Elems<K - 1, D, M>::run(c, m, r);
} };
template<unsigned D, class M> struct Elems<unsigned(-1), D, M> { static void run(vh::Case&, M&, const Ref<D>&) {} };
template<class M1, class M2> void sameMesh(vh::Case& c, const M1& a, const M2& b, const char* what) {
    VH_CHECK(c, a.getVertices().size() == b.getVertices().size() && a.getEdges().size() == b.getEdges().size() && a.getFaces().size() == b.getFaces().size() && a.getCells().size() == b.getCells().size(), "copy", what << ": sizes differ");
    for (size_t i = 0; i < a.getVertices().size(); i++) VH_CHECK(c, a.getVertices()[i] == b.getVertices()[i] && a.getVertices()[i].getIndex() == b.getVertices()[i].getIndex(), "copy", what << ": vertex " << i);
    for (size_t i = 0; i < a.getEdges().size(); i++) VH_CHECK(c, a.getEdges()[i].getVertexAIndex() == b.getEdges()[i].getVertexAIndex() && a.getEdges()[i].getVertexBIndex() == b.getEdges()[i].getVertexBIndex(), "copy", what << ": edge " << i);
    for (size_t i = 0; i < a.getFaces().size(); i++) {
        auto &x = a.getFaces()[i].getSubelements(); auto &y = b.getFaces()[i].getSubelements();
        VH_CHECK(c, std::vector<size_t>(x.begin(), x.end()) == std::vector<size_t>(y.begin(), y.end()), "copy", what << ": face " << i);
        VH_CHECK(c, a.getFaces()[i].getCellLeftIndex() == b.getFaces()[i].getCellLeftIndex() && a.getFaces()[i].getCellRightIndex() == b.getFaces()[i].getCellRightIndex() && a.getFaces()[i].getNextBElemWRTCL() == b.getFaces()[i].getNextBElemWRTCL() && a.getFaces()[i].getNextBElemWRTCR() == b.getFaces()[i].getNextBElemWRTCR() && a.getFaces()[i].getCenter() == b.getFaces()[i].getCenter(), "copy", what << ": cells of face " << i);
    }
    for (size_t i = 0; i < a.getCells().size(); i++) VH_CHECK(c, a.getCells()[i].getBoundaryElementIndex() == b.getCells()[i].getBoundaryElementIndex() && a.getCells()[i].getCenter() == b.getCells()[i].getCenter(), "copy", what << ": cell " << i);
    c.ev("meshes_compared");
}
}
VH_SECTION(subDynamic, 300, 6000) { if (c.index % 2) subs<size_t, 0>(c); else subs<unsigned short, 0>(c); }
VH_SECTION(subFixed, 600, 12000) { switch (c.index % 4) { case 0: subs<size_t, 1>(c); break; case 1: subs<unsigned, 4>(c); break; case 2: subs<int, 8>(c); break; default: subs<size_t, 20>(c); } }
VH_SECTION(subLarge, 60, 600) { subs<size_t, 300>(c); }
VH_SECTION(elementIndex, 100, 1000) { index<0, size_t>(c); index<2, unsigned>(c); index<3, int>(c); c.distinct(c.rng.u64()); }
VH_SECTION(storage, 120, 1500) {
    Ref<3> r = scramble<3>(random3(c.rng), c.rng); c.desc(r.text()); c.distinct(r.hash());
    typedef UnstructuredMesh<3, size_t, double> Dyn; typedef UnstructuredMesh<3, size_t, double, 24> Fix;
    Dyn m; Fix f; fill<3>(m, r); fill<3>(f, r); m.initializeCenters(); f.initializeCenters();
    Elems<3, 3, Dyn>::run(c, m, r); Elems<3, 3, Fix>::run(c, f, r);
    sameMesh(c, m, f, "fixed against dynamic storage");
    Dyn m2 = m; Fix f2(f); sameMesh(c, m, m2, "copy"); sameMesh(c, f, f2, "fixed copy");
    m2.getVertices()[0][0] += 1; m2.getFaces()[0].getSubelements()[0] += 1; m2.getCells()[0].getCenter()[0] += 1; f2.getFaces()[0].getSubelements()[0] += 1;
    sameMesh(c, m, f, "after a change of the copies");
    Dyn m3; m3 = m; Dyn m4(std::move(m3)); sameMesh(c, m, m4, "moved");
    m4.clear(); VH_CHECK(c, m4.getVertices().empty() && m4.getEdges().empty() && m4.getFaces().empty() && m4.getCells().empty(), "clear", "not empty");
    sameMesh(c, m, f, "after clearing a copy");
}
VH_SECTION(storage2dFloat, 60, 600) {
    Ref<2> r = scramble<2>(random2(c.rng), c.rng); c.desc(r.text()); c.distinct(r.hash());
    typedef UnstructuredMesh<2, int, float> M; M m; fill<2>(m, r); Elems<2, 2, M>::run(c, m, r);
    float a = float(c.rng.real(-3, 3)); m.getVertices()[0] = {a, 2.5f}; VH_CHECK(c, m.getVertices()[0][0] == a && m.getVertices()[0][1] == 2.5f && m.getVertices()[0].getIndex() == 0, "vertex-assign", "vertex is " << m.getVertices()[0][0]);
    m.getVertices()[0] = {a}; VH_CHECK(c, m.getVertices()[0][1] == 0.f, "vertex-assign", "second coordinate stays");
}
