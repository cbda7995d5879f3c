#include "meshgen.h"
using namespace mg;
template<unsigned D> Pt<D> vp(const Ref<D>& r, int i) { return r.v[static_cast<size_t>(i)]; }
// reference centers: mean of boundary-element centers, recursively
template<unsigned D> std::array<std::vector<Pt<D>>, D + 1> refCenters(const Ref<D>& r) {
    std::array<std::vector<Pt<D>>, D + 1> c; c[0] = r.v;
    for (unsigned k = 1; k <= D; k++) for (auto& s : r.e[k]) { Pt<D> p; p.fill(0); for (int x : s) p = add<D>(p, c[k - 1][static_cast<size_t>(x)]); c[k].push_back(mul<D>(p, 1.0 / static_cast<double>(s.size()))); }
    return c;
}
inline double triArea(const Pt<3>& a, const Pt<3>& b, const Pt<3>& c) { return .5 * len<3>(cross(sub<3>(b, a), sub<3>(c, a))); }
// area weighted centroid of the triangles spanned by the edges and the default center
inline Pt<3> tessCenter(const Ref<3>& r, int f, const Pt<3>& c0) {
    Pt<3> s{{0, 0, 0}}; double A = 0;
    for (int e : r.e[2][static_cast<size_t>(f)]) { Pt<3> a = r.v[static_cast<size_t>(r.e[1][static_cast<size_t>(e)][0])], b = r.v[static_cast<size_t>(r.e[1][static_cast<size_t>(e)][1])]; double t = triArea(a, b, c0); s = add<3>(s, mul<3>(add<3>(add<3>(a, b), c0), t / 3)); A += t; }
    return mul<3>(s, 1 / A);
}
template<unsigned D, class V> bool nearP(const V& a, const Pt<D>& b, double tol) { for (unsigned i = 0; i < D; i++) if (!vh::near(a[i], b[i], tol)) return false; return true; }
template<unsigned D, class V> std::string ps(const V& a) { std::ostringstream o; o.precision(17); o << "("; for (unsigned i = 0; i < D; i++) o << a[i] << " "; o << ")"; return o.str(); }
template<unsigned D> std::string ctext(const char* what, const Ref<D>& r) { return std::string(what) + " " + r.text(); }
// bends a mesh: jitters vertices so that the polygonal faces stop being planar
inline Ref<3> bend(Ref<3> r, Rng& g, double amp) { for (auto& p : r.v) for (double& x : p) x += g.real(-amp, amp); return r; }
// drops cells so that some faces have their only cell on the right (scramble swaps sides at random)
