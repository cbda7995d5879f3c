#include "vh.h"
#include <GTMesh/NumericStaticArray/Vector.h>
#include <GTMesh/Traits/Traits.h>
#include <GTMesh/Traits/TraitsAlgorithm/TraitsAlgorithm.h>
#include "C24.h"
#include "C24s.h"
// members whose arithmetic depends on the order of operands: texts (sum) and matrices (product)
namespace {
struct Mat { long a = 1, b = 0, c = 0, d = 1; bool operator==(const Mat& o) const { return a == o.a && b == o.b && c == o.c && d == o.d; } };
inline Mat operator*(const Mat& x, const Mat& y) { return Mat{x.a * y.a + x.b * y.c, x.a * y.b + x.b * y.d, x.c * y.a + x.d * y.c, x.c * y.b + x.d * y.d}; }
}
struct Txt { std::string s; double d; std::string t; };
struct TxtN { Txt a; std::string u; };
struct Mats { Mat m; double d; };
MAKE_ATTRIBUTE_TRAIT(Txt, s, d, t);
MAKE_ATTRIBUTE_TRAIT(TxtN, a, u);
MAKE_ATTRIBUTE_TRAIT(Mats, m, d);
VH_SECTION(ordered, 400, 10000) {
    vh::Rng& g = c.rng; auto txt = [&]() { return Txt{g.str(30, "abc"), double(g.range(-99, 99)), g.str(4, "xyz")}; }; auto mat = [&]() { return Mats{Mat{g.range(-9, 9), g.range(-9, 9), g.range(-9, 9), g.range(-9, 9)}, double(g.range(-9, 9))}; };
    const Txt x = txt(), y = txt(); const TxtN X{x, y.t}, Y{y, x.s}; const Mats p = mat(), q = mat(); c.desc(x.s + "|" + x.t + "|" + y.s + "|" + y.t); c.distinct(vh::hashStr(x.s + y.s + x.t + y.t, uint64_t(p.m.a * 100 + q.m.b)));
    auto okT = [&](const Txt& r, const char* form) { VH_CHECK(c, r.s == x.s + y.s && r.d == x.d + y.d && r.t == x.t + y.t, "order", form << ": " << r.s << " of " << x.s << " and " << y.s); c.ev("ordered operations"); };
    auto okN = [&](const TxtN& r, const char* form) { okT(r.a, form); VH_CHECK(c, r.u == X.u + Y.u, "order", form << ": " << r.u); };
    auto okM = [&](const Mats& r, const char* form) { VH_CHECK(c, r.m == p.m * q.m && r.d == p.d * q.d, "order", "product " << form); c.ev("ordered operations"); };
    Txt a = x, b = y; okT(x + y, "c+c"); okT(a + b, "l+l"); okT(x + Txt(y), "c+r"); okT(Txt(x) + y, "r+c"); okT(Txt(x) + Txt(y), "r+r"); okT(a + Txt(y), "l+r"); okT(Txt(x) + b, "r+l"); { Txt e = x; okT(e += y, "+="); okT(e, "+="); }
    TxtN A = X, B = Y; okN(X + Y, "c+c"); okN(A + TxtN(Y), "l+r"); okN(X + TxtN(Y), "c+r"); okN(TxtN(X) + Y, "r+c"); okN(TxtN(X) + TxtN(Y), "r+r"); { TxtN e = X; e += Y; okN(e, "+="); }
    Mats m = p, n = q; okM(p * q, "c*c"); okM(m * n, "l*l"); okM(p * Mats(q), "c*r"); okM(Mats(p) * q, "r*c"); okM(Mats(p) * Mats(q), "r*r"); okM(m * Mats(q), "l*r"); okM(Mats(p) * n, "r*l"); { Mats e = p; e *= q; okM(e, "*="); }
    VH_CHECK(c, a.s == x.s && b.s == y.s && A.u == X.u && B.u == Y.u && m.m == p.m && n.m == q.m, "operand", "an operand was changed");
}
