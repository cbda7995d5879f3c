// The same mesh at a very different size: every length, area, volume, direction must follow the scale.
#include "geo.h"
template<unsigned D> Ref<D> scaled(Ref<D> r, double s) { for (auto& p : r.v) p = mul<D>(p, s); return r; }
inline double pow2(int k) { return std::ldexp(1.0, k); }
inline int randomScale(Rng& g, int lim) { int k = static_cast<int>(g.range(lim / 4, lim)); return g.chance(.5) ? k : -k; }
// relative to the larger of the two numbers and the extent the value belongs to
inline bool nearRel(double a, double b, double ext, double tol) { return std::fabs(a - b) <= tol * std::max(std::max(std::fabs(a), std::fabs(b)), ext); }
template<unsigned D, class V> bool nearRelP(const V& a, const V& b, double s, double ext, double tol) { for (unsigned i = 0; i < D; i++) if (!nearRel(a[i] * s, b[i], ext * s, tol)) return false; return true; }
template<unsigned D> double extent(const Ref<D>& r) { double m = 1; for (auto& p : r.v) for (double x : p) m = std::max(m, std::fabs(x)); return m; }
