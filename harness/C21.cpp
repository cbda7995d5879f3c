// C21: Gram-Schmidt orthogonalization against linear-algebra invariants.
#include "vh.h"
#include "GTMesh/NumericStaticArray/GramSchmidt.h"

template<class R> using Mat = std::vector<std::vector<long double>>;
typedef std::vector<std::vector<long double>> M;

// reference: orthogonal residuals of the vectors by modified Gram-Schmidt done twice in long double
static M refGS(const M& v, std::vector<long double>& norms) {
    M q = v; norms.clear();
    M u;
    for (size_t i = 0; i < v.size(); i++) {
        for (int pass = 0; pass < 3; pass++)
            for (auto& w : u) { long double s = 0; for (size_t k = 0; k < w.size(); k++) s += w[k] * q[i][k]; for (size_t k = 0; k < w.size(); k++) q[i][k] -= s * w[k]; }
        long double n = 0; for (auto x : q[i]) n += x * x; n = sqrtl(n);
        norms.push_back(n);
        auto w = q[i]; for (auto& x : w) x /= n; u.push_back(w);
    }
    return q;
}

template<unsigned N, unsigned D, class R> void gs(vh::Case& c) {
    M v; std::vector<long double> nr; M q;
    const int spread = c.rng.chance(.3) ? int(c.rng.range(4, sizeof(R) == 4 ? 20 : 60)) : 3; // the lengths of the vectors differ
    long double scale = std::ldexp(1.0, int(c.rng.range(-12, 12)));
    for (int tries = 0;; tries++) { // reasonably conditioned input: no vector nearly in the span of the others
        v.assign(N, std::vector<long double>(D));
        for (auto& x : v) { long double s = std::ldexp(1.0, int(c.rng.range(-spread, spread))); for (auto& y : x) y = (long double)R(scale * s * c.rng.real(-1, 1)); if (c.rng.chance(0.2)) x[c.rng.below(D)] = 0; }
        q = refGS(v, nr);
        bool ok = true;
        for (unsigned i = 0; i < N; i++) { long double n = 0; for (auto x : v[i]) n += x * x; if (!(nr[i] > 0.15L * sqrtl(n))) ok = false; }
        if (ok) break;
    }
    std::ostringstream o; for (auto& x : v) o << vh::strv(x); c.desc(o.str()); c.distinct(vh::hashStr(o.str()));
    std::array<Vector<D, R>, N> a1, a2; std::vector<Vector<D, R>> b1(N), b2(N);
    for (unsigned i = 0; i < N; i++) for (unsigned k = 0; k < D; k++) a1[i][k] = a2[i][k] = b1[i][k] = b2[i][k] = R(v[i][k]);
    std::array<R, N> na; std::vector<R> nb; if (c.rng.chance(0.5)) nb.assign(c.rng.below(6), R(3));
    na.fill(R(-1));
    gramSchmidt<N, D, size_t, R>(a1);
    gramSchmidt<N, D, size_t, R>(a2, na);
    gramSchmidt<D, size_t, R>(b1);
    gramSchmidt<D, size_t, R>(b2, nb);
    const long double tol = 3000 * (long double)std::numeric_limits<R>::epsilon();
    VH_CHECK(c, nb.size() == N, "norms-size", "norms has " << nb.size());
    for (unsigned i = 0; i < N; i++) {
        for (unsigned k = 0; k < D; k++) {
            VH_CHECK(c, std::fabs(a1[i][k] - q[i][k]) <= tol * nr[i] * 8, "orthogonal", "array: vector " << i << " component " << k << " is " << a1[i][k] << " expected " << q[i][k]);
            VH_CHECK(c, std::fabs(b1[i][k] - q[i][k]) <= tol * nr[i] * 8, "orthogonal", "vector: vector " << i << " component " << k << " is " << b1[i][k] << " expected " << q[i][k]);
            VH_CHECK(c, std::fabs(a2[i][k] - q[i][k] / nr[i]) <= tol * 8, "orthonormal", "array: vector " << i << " component " << k << " is " << a2[i][k] << " expected " << q[i][k] / nr[i]);
            VH_CHECK(c, std::fabs(b2[i][k] - q[i][k] / nr[i]) <= tol * 8, "orthonormal", "vector: vector " << i << " component " << k << " is " << b2[i][k] << " expected " << q[i][k] / nr[i]);
        }
        VH_CHECK(c, std::fabs(na[i] - nr[i]) <= tol * nr[i] * 8, "norm", "array: norm " << i << " is " << na[i] << " expected " << nr[i]);
        VH_CHECK(c, std::fabs(nb[i] - nr[i]) <= tol * nr[i] * 8, "norm", "vector: norm " << i << " is " << nb[i] << " expected " << nr[i]);
        for (unsigned j = 0; j < i; j++) { long double s = 0; for (unsigned k = 0; k < D; k++) s += (long double)a2[i][k] * a2[j][k]; VH_CHECK(c, std::fabs(s) <= tol, "orthonormal", "vectors " << i << "," << j << " product " << s); }
    }
    c.ev("vectors", 4 * N);
}
VH_SECTION(square, 2400, 60000) { switch (c.index % 4) { case 0: gs<1, 1, double>(c); break; case 1: gs<2, 2, double>(c); break; case 2: gs<3, 3, double>(c); break; default: gs<4, 4, double>(c); } }
VH_SECTION(rectangular, 2400, 60000) { switch (c.index % 5) { case 0: gs<1, 3, double>(c); break; case 1: gs<2, 3, double>(c); break; case 2: gs<2, 5, double>(c); break; case 3: gs<3, 5, double>(c); break; default: gs<3, 4, double>(c); } }
VH_SECTION(otherReals, 1200, 30000) { switch (c.index % 4) { case 0: gs<3, 3, float>(c); break; case 1: gs<2, 3, float>(c); break; case 2: gs<3, 3, long double>(c); break; default: gs<4, 4, float>(c); } }
