// C20: vector algebra of Vertex/Vector against component-wise references.
#include "vh.h"
#include "GTMesh/NumericStaticArray/Vector.h"
#include <cstdint>

template<class R> struct Gen {
    static R val(vh::Rng& r) { // floating point: mix of magnitudes, zeros, signs
        switch (r.below(8)) {
        case 0: return R(0);
        case 1: return R(r.range(-5, 5));
        case 2: return R(std::ldexp(r.real(-1, 1), int(r.range(-30, 30))));
        default: return R(r.real(-10, 10));
        }
    }
    static R scalar(vh::Rng& r) { R x; do x = val(r); while (x == R(0)); return x; }
};
template<> struct Gen<int64_t> {
    static int64_t val(vh::Rng& r) { return r.chance(0.5) ? r.range(-9, 9) : r.range(-(1L << 30), 1L << 30); }
    static int64_t scalar(vh::Rng& r) { int64_t x; do x = r.range(-999, 999); while (!x); return x; }
};
template<> struct Gen<int> {
    static int val(vh::Rng& r) { return int(r.range(-3000, 3000)); }
    static int scalar(vh::Rng& r) { int x; do x = int(r.range(-99, 99)); while (!x); return x; }
};

template<unsigned D, class R> void algebra(vh::Case& c) {
    typedef Vertex<D, R> V;
    const bool fl = std::is_floating_point<R>::value;
    const long double eps = fl ? (long double)std::numeric_limits<R>::epsilon() : 0;
    V a, b;
    std::array<R, D> A, B;
    for (unsigned i = 0; i < D; i++) { A[i] = a[i] = Gen<R>::val(c.rng); B[i] = b[i] = Gen<R>::val(c.rng); }
    R s = Gen<R>::scalar(c.rng);
    c.desc(vh::str(D) + "-dim a=" + vh::strv(A) + " b=" + vh::strv(B) + " s=" + vh::str(s));
    c.distinct(vh::hashBytes(&A[0], sizeof(R) * D, vh::hashBytes(&B[0], sizeof(R) * D, vh::hashBytes(&s, sizeof(R) == 16 ? 10 : sizeof(R)))));
    auto same = [&](const V& v, const std::array<R, D>& e, const char* what) {
        for (unsigned i = 0; i < D; i++) VH_CHECK(c, v[i] == e[i], "component", what << " component " << i << " is " << v[i] << " expected " << e[i]);
        c.ev("components", D);
    };
    auto nearv = [&](const V& v, const std::array<long double, D>& e, const char* what) {
        for (unsigned i = 0; i < D; i++) VH_CHECK(c, std::fabs((long double)v[i] - e[i]) <= 4 * eps * std::fabs(e[i]) + 2 * (long double)std::numeric_limits<R>::min() * (fl ? 1 : 0), "component", what << " component " << i << " is " << v[i] << " expected " << e[i]);
        c.ev("components", D);
    };
    std::array<R, D> e;
    const V ca = a, cb = b;
    for (unsigned i = 0; i < D; i++) e[i] = A[i] + B[i];
    same(ca + cb, e, "a+b"); { V t = a; V& r = (t += b); same(t, e, "a+=b"); VH_CHECK(c, &r == &t, "ref", "+= returns another object"); }
    for (unsigned i = 0; i < D; i++) e[i] = A[i] - B[i];
    same(ca - cb, e, "a-b"); { V t = a; V& r = (t -= b); same(t, e, "a-=b"); VH_CHECK(c, &r == &t, "ref", "-= returns another object"); }
    for (unsigned i = 0; i < D; i++) e[i] = A[i] * s;
    same(ca * s, e, "a*s"); same(s * ca, e, "s*a"); { V t = a; t *= s; same(t, e, "a*=s"); }
    for (unsigned i = 0; i < D; i++) e[i] = A[i] + A[i];
    { V t = a; t += t; same(t, e, "a+=a"); same(t, e, "a+=a"); }
    { V t = a; t -= t; e.fill(R(0)); same(t, e, "a-=a"); }
    same(ca, A, "a after the operations"); same(cb, B, "b after the operations");
    long n = c.rng.range(-40, 40); if (!n) n = 3; // an integer operand
    for (unsigned i = 0; i < D; i++) e[i] = A[i] * R(int(n));
    { V t = ca * int(n); same(t, e, "a*int"); t = a; t *= int(n); same(t, e, "a*=int"); }
    // the scalar is one of the components (also for division below)
    unsigned k = unsigned(c.rng.below(D));
    for (unsigned i = 0; i < D; i++) e[i] = A[i] * A[k];
    if (fl || std::fabs((long double)A[k]) < 3000) {
        bool ok = true; // products of int64 components may overflow
        for (unsigned i = 0; i < D; i++) ok = ok && (fl || sizeof(R) == 4 || std::fabs((long double)A[i]) < 1e12L);
        if (ok) { V t = a; t *= t[k]; same(t, e, "a*=a[k]"); t = a * ca[k]; same(t, e, "a*a[k]"); }
    }
    c.ev("aliased", 1);
    if (!fl) { // integer division truncates component-wise
        for (unsigned i = 0; i < D; i++) e[i] = A[i] / s;
        same(ca / s, e, "a/s"); { V t = a; V& r = (t /= s); same(t, e, "a/=s"); VH_CHECK(c, &r == &t, "ref", "/= returns another object"); }
        for (unsigned i = 0; i < D; i++) e[i] = R(A[i] / n);
        same(ca / int(n), e, "a/int"); same(ca / n, e, "a/long"); { V t = a; t /= int(n); same(t, e, "a/=int"); }
        // a floating-point operand: the exact quotient or product is truncated component-wise
        double d = c.rng.pick(std::vector<double>{.5, -.5, 2.5, -1.5, .25, 4, 1.75}); bool fit = true;
        for (unsigned i = 0; i < D; i++) { e[i] = R(A[i] / d); fit = fit && std::fabs(double(A[i])) < 1e8; }
        if (fit) {
            same(ca / d, e, "a/double"); { V t = a; V& r = (t /= d); same(t, e, "a/=double"); VH_CHECK(c, &r == &t, "ref", "/= returns another object"); }
            for (unsigned i = 0; i < D; i++) e[i] = R(A[i] * d);
            same(ca * d, e, "a*double"); { V t = a; t *= d; same(t, e, "a*=double"); }
            c.ev("floating operands of integer vectors");
        }
        if (A[k] != 0) { for (unsigned i = 0; i < D; i++) e[i] = A[i] / A[k]; V t = a; t /= t[k]; same(t, e, "a/=a[k]"); }
    } else if (A[k] != R(0) && std::fabs((long double)A[k]) > 1e-12L) {
        std::array<long double, D> q; for (unsigned i = 0; i < D; i++) q[i] = (long double)A[i] / (long double)A[k];
        V t = a; t /= t[k]; nearv(t, q, "a/=a[k]"); nearv(ca / ca[k], q, "a/a[k]");
    }
    if (fl) {
        std::array<long double, D> q;
        for (unsigned i = 0; i < D; i++) q[i] = (long double)A[i] / (long double)s;
        nearv(ca / s, q, "a/s"); { V t = a; t /= s; nearv(t, q, "a/=s"); }
        for (unsigned i = 0; i < D; i++) q[i] = (long double)A[i] / n;
        nearv(ca / int(n), q, "a/int"); nearv(ca / n, q, "a/long"); { V t = a; t /= int(n); nearv(t, q, "a/=int"); }
        if (n > 0) nearv(ca / (unsigned long)(n), q, "a/size_t");
        double ds = double(s); // an operand of another precision
        for (unsigned i = 0; i < D; i++) q[i] = (long double)A[i] * ds;
        { V t = ca * ds; std::array<long double, D> q2 = q; bool fin = true; for (auto x : q2) fin = fin && std::fabs(x) < (long double)std::numeric_limits<R>::max() / 4; if (fin) nearv(t, q, "a*double"); }
    }
    // scalar product, norm
    long double sp = 0, mag = 0, sq = 0;
    __int128 isp = 0, isq = 0;
    for (unsigned i = 0; i < D; i++) { sp += (long double)A[i] * B[i]; mag += std::fabs((long double)A[i] * B[i]); sq += (long double)A[i] * A[i]; isp += (__int128)(int64_t)(fl ? 0 : A[i]) * (int64_t)(fl ? 0 : B[i]); isq += (__int128)(int64_t)(fl ? 0 : A[i]) * (int64_t)(fl ? 0 : A[i]); }
    R p = ca * cb, pr = cb * ca; V t = a; R ss = t.sumOfSquares(), nn = t.normEuclid();
    if (fl) {
        long double tiny = 4 * D * (long double)std::numeric_limits<R>::min();
        VH_CHECK(c, std::fabs((long double)p - sp) <= 2 * D * eps * mag + tiny, "scalar-product", "a*b is " << p << " expected " << sp);
        VH_CHECK(c, std::fabs((long double)pr - sp) <= 2 * D * eps * mag + tiny, "scalar-product", "b*a is " << pr << " expected " << sp);
        VH_CHECK(c, std::fabs((long double)ss - sq) <= 2 * D * eps * sq + tiny, "sum-of-squares", "sumOfSquares is " << ss << " expected " << sq);
        if (sq > 1e-30) VH_CHECK(c, std::fabs((long double)nn - sqrtl(sq)) <= 2 * D * eps * sqrtl(sq) + tiny, "norm", "norm is " << nn << " expected " << sqrtl(sq));
    } else {
        VH_CHECK(c, (__int128)(int64_t)p == isp && (__int128)(int64_t)pr == isp, "scalar-product", "a*b is " << p << " expected " << (long long)isp);
        VH_CHECK(c, (__int128)(int64_t)ss == isq, "sum-of-squares", "sumOfSquares is " << ss << " expected " << (long long)isq);
    }
    same(t, A, "a after its norm");
    c.ev("products", 4);
    // comparison: equal exactly when all components are equal
    VH_CHECK(c, ca == V(ca) && !(ca != V(ca)), "equality", "a is not equal to its copy");
    for (unsigned i = 0; i < D; i++) { V x = a; x[i] = x[i] + R(1); if (x[i] != A[i]) VH_CHECK(c, !(ca == x) && ca != x && !(x == ca) && x != ca, "equality", "change in component " << i << " is not noticed"); }
    VH_CHECK(c, (ca == cb) == (A == B) && (ca != cb) == (A != B), "equality", "comparison of a and b");
    c.ev("comparisons", D + 2);
    // initializer lists: missing components are zero, superfluous are ignored
    V l0 = {}; for (unsigned i = 0; i < D; i++) VH_CHECK(c, l0[i] == R(0), "init-list", "component " << i << " of {} is " << l0[i]);
    R x = A[0], y = B[0];
    { V l; for (unsigned i = 0; i < D; i++) l[i] = R(7); l = {x, y}; for (unsigned i = 0; i < D; i++) VH_CHECK(c, l[i] == (i == 0 ? x : i == 1 ? y : R(0)), "init-list", "component " << i << " of {x,y} is " << l[i]); }
    { V l = a; std::initializer_list<R> none; V& r = (l = none); VH_CHECK(c, &r == &l, "ref", "= returns another object"); for (unsigned i = 0; i < D; i++) VH_CHECK(c, l[i] == R(0), "init-list", "component " << i << " after the assignment of an empty list is " << l[i]); l = a; l = {x}; for (unsigned i = 0; i < D; i++) VH_CHECK(c, l[i] == (i == 0 ? x : R(0)), "init-list", "component " << i << " after = {x} is " << l[i]); }
    { V l = {x}; for (unsigned i = 0; i < D; i++) VH_CHECK(c, l[i] == (i == 0 ? x : R(0)), "init-list", "component " << i << " of {x} is " << l[i]); }
    { V l = {x, y, R(1), R(2), R(3), R(4), R(5), R(6)}; for (unsigned i = 0; i < D; i++) VH_CHECK(c, l[i] == (i == 0 ? x : i == 1 ? y : R(int(i) - 1)), "init-list", "component " << i << " of an eight element list is " << l[i]); }
    VH_CHECK(c, V::size() == D, "size", "size " << V::size());
    c.ev("lists", 4);
}
VH_SECTION(algebraDouble, 4000, 100000) { switch (c.index % 6) { case 0: algebra<1, double>(c); break; case 1: algebra<2, double>(c); break; case 2: algebra<3, double>(c); break; case 3: algebra<4, double>(c); break; case 4: algebra<5, double>(c); break; default: algebra<7, double>(c); } }
VH_SECTION(algebraFloat, 2000, 50000) { switch (c.index % 4) { case 0: algebra<1, float>(c); break; case 1: algebra<2, float>(c); break; case 2: algebra<3, float>(c); break; default: algebra<6, float>(c); } }
VH_SECTION(algebraLongDouble, 2000, 50000) { switch (c.index % 3) { case 0: algebra<2, long double>(c); break; case 1: algebra<3, long double>(c); break; default: algebra<4, long double>(c); } }
VH_SECTION(algebraInt, 2000, 50000) { switch (c.index % 3) { case 0: algebra<2, int>(c); break; case 1: algebra<3, int>(c); break; default: algebra<5, int>(c); } }
VH_SECTION(algebraInt64, 2000, 50000) { switch (c.index % 3) { case 0: algebra<1, int64_t>(c); break; case 1: algebra<3, int64_t>(c); break; default: algebra<4, int64_t>(c); } }

template<class R> void cross(vh::Case& c) {
    Vector<3, R> a, b;
    for (int i = 0; i < 3; i++) { a[i] = Gen<R>::val(c.rng); b[i] = Gen<R>::val(c.rng); }
    c.desc("a=" + vh::strv(a) + " b=" + vh::strv(b));
    c.distinct(vh::hashStr(vh::strv(a) + vh::strv(b)));
    Vector<3, R> p = vectorProduct(a, b), m = vectorProduct(b, a);
    const long double eps = std::is_floating_point<R>::value ? (long double)std::numeric_limits<R>::epsilon() : 0;
    for (int i = 0; i < 3; i++) {
        int j = (i + 1) % 3, k = (i + 2) % 3;
        long double e = (long double)a[j] * b[k] - (long double)a[k] * b[j], mg = std::fabs((long double)a[j] * b[k]) + std::fabs((long double)a[k] * b[j]);
        VH_CHECK(c, std::fabs((long double)p[i] - e) <= 4 * eps * mg + (eps > 0 ? 1e-37L : 0), "cross", "component " << i << " is " << p[i] << " expected " << e);
        VH_CHECK(c, std::fabs((long double)m[i] + e) <= 4 * eps * mg + (eps > 0 ? 1e-37L : 0), "cross", "component " << i << " of the swapped product is " << m[i]);
    }
    c.ev("products", 6);
}
VH_SECTION(crossProduct, 1500, 50000) { switch (c.index % 3) { case 0: cross<double>(c); break; case 1: cross<float>(c); break; default: cross<int>(c); } }
VH_SECTION(comparisonSpecial, 200, 2000) { // NaN, infinities, signed zero
    double sp[] = {0.0, -0.0, NAN, INFINITY, -INFINITY, 1.0, 4.9e-324};
    Vertex<3> a, b; bool eq = true;
    for (int i = 0; i < 3; i++) { a[i] = sp[c.rng.below(7)]; b[i] = c.rng.chance(0.6) ? a[i] : sp[c.rng.below(7)]; eq = eq && a[i] == b[i]; }
    c.distinct(vh::hashStr(vh::strv(a) + vh::strv(b)));
    VH_CHECK(c, (a == b) == eq && (a != b) == !eq, "equality", vh::strv(a) << " against " << vh::strv(b));
    c.ev("comparisons", 2);
}
