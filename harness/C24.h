// C24: arithmetic of traited classes against member-wise references.
#ifdef NSB
NSB // types in a namespace: the operations of nested members must be found as well
#endif
struct D { int tag; double a; int i; };
struct R2 { double a, b; };
struct One { float only; };
struct F3 { float x; double y; long z; short s; };
struct U { unsigned u; double d; unsigned char c; unsigned long l; };
struct VV { double a; Vector<2, double> b; Vector<3, float> c; };
struct N { R2 r; D d; float f; D e; };
struct NV { D d; Vector<3, double> v; VV w; int k; };
template<class R, unsigned DIM> struct Tm { R r; int other; Vector<DIM, R> v; };
class Priv { double p; int q; friend class DefaultArithmeticTraits<Priv>; public: Priv() {} template<class F, class... O> static void zip(F f, O&... o) { f(o.p...); f(o.q...); } };
struct Ref { double x_; int y_; double& x() { return x_; } const double& x() const { return x_; } int& y() { return y_; } int y() const { return y_; } };
struct Split { double all; int ar; int io; };
struct Arr { std::array<float, 3> f; std::vector<double> v; int i; };
struct ArrN { std::vector<D> v; R2 r; std::array<std::array<int, 2>, 2> m; };
struct Many { double m0; int m1; double m2; int m3; double m4; int m5; double m6; int m7; double m8; int m9; float m10; long m11; };
#ifdef NSE
NSE
#endif
MAKE_ATTRIBUTE_TRAIT(D, a, i);
MAKE_ATTRIBUTE_TRAIT_ARITHMETIC(R2, a, b);
MAKE_ATTRIBUTE_TRAIT(One, only);
MAKE_NAMED_ATTRIBUTE_TRAIT(F3, "s", s, "x", x, "z", z, "y", y);
MAKE_ATTRIBUTE_TRAIT(U, u, d, c, l);
MAKE_ATTRIBUTE_TRAIT(VV, a, b, c);
MAKE_ATTRIBUTE_TRAIT(N, r, d, f, e);
MAKE_ATTRIBUTE_TRAIT(NV, d, v, w, k);
MAKE_ATTRIBUTE_TEMPLATE_TRAIT((Tm<R, DIM>), (class R, unsigned DIM), r, v);
MAKE_ATTRIBUTE_TRAIT_ARITHMETIC(Priv, p, q);
MAKE_CUSTOM_TRAIT(Ref, "x", std::make_pair(static_cast<const double& (Ref::*)() const>(&Ref::x), static_cast<double& (Ref::*)()>(&Ref::x)), "y", std::make_pair(static_cast<int (Ref::*)() const>(&Ref::y), static_cast<int& (Ref::*)()>(&Ref::y)));
MAKE_ATTRIBUTE_TRAIT(Split, all);
MAKE_ATTRIBUTE_TRAIT_IO(Split, io);
MAKE_ATTRIBUTE_TRAIT_ARITHMETIC(Split, all, ar);
MAKE_ATTRIBUTE_TRAIT(Arr, f, v, i);
MAKE_ATTRIBUTE_TRAIT(ArrN, v, r, m);
MAKE_ATTRIBUTE_TRAIT(Many, m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11);

namespace {
// reference enumeration of the members (independent of the traits)
template<class T> struct Z { template<class F, class... O> static void zip(F f, O&... o) { f(o...); } };
#define ZB(T) template<> struct Z<T> { template<class F, class... O> static void zip(F f, O&... o) {
#define ZE } };
#define M(m) f(o.m...);
#define MN(T, m) Z<T>::zip(f, o.m...);
#define MV(n, m) for (unsigned k = 0; k < n; k++) f(o.m[k]...);
ZB(D) M(a) M(i) ZE
ZB(R2) M(a) M(b) ZE
ZB(One) M(only) ZE
ZB(F3) M(s) M(x) M(z) M(y) ZE
ZB(U) M(u) M(d) M(c) M(l) ZE
ZB(VV) M(a) MV(2, b) MV(3, c) ZE
ZB(N) MN(R2, r) MN(D, d) M(f) MN(D, e) ZE
ZB(NV) MN(D, d) MV(3, v) MN(VV, w) M(k) ZE
ZB(Priv) Priv::zip(f, o...); ZE
ZB(Ref) M(x_) M(y_) ZE
ZB(Split) M(all) M(ar) ZE
ZB(Many) M(m0) M(m1) M(m2) M(m3) M(m4) M(m5) M(m6) M(m7) M(m8) M(m9) M(m10) M(m11) ZE
ZB(Arr) MV(3, f) { size_t n = std::min({o.v.size()...}); for (size_t k = 0; k < n; k++) f(o.v[k]...); } M(i) ZE
template<class R, unsigned DIM> struct Z<Tm<R, DIM>> { template<class F, class... O> static void zip(F f, O&... o) { M(r) MV(DIM, v) } };
template<> struct Z<ArrN> { template<class F, class... O> static void zip(F f, O&... o) { size_t n = std::min({o.v.size()...}); for (size_t k = 0; k < n; k++) Z<D>::zip(f, o.v[k]...); MN(R2, r) for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) f(o.m[a][b]...); } };

enum Dom { ANY, POS, SMALL };
template<class L> std::enable_if_t<std::is_floating_point<L>::value, L> leaf(vh::Rng& r, Dom d) {
    if (d == POS) return L(r.chance(0.3) ? double(r.range(1, 40)) : r.real(0.01, 30));
    if (d == SMALL) return L(r.real(-4, 4));
    switch (r.below(6)) { case 0: return L(r.range(-3, 3)); case 1: return L(std::ldexp(r.real(-1, 1), int(r.range(-12, 12)))); case 2: return L(double(r.range(-1000, 1000)) / 8); default: return L(r.real(-30, 30)); }
}
template<class L> std::enable_if_t<std::is_integral<L>::value, L> leaf(vh::Rng& r, Dom d) {
    if (d == POS) return L(r.range(1, 60));
    if (d == SMALL) return L(r.range(std::is_signed<L>::value ? -4 : 0, 4));
    return L(std::is_signed<L>::value ? r.range(-60, 60) : r.range(0, 15));
}
template<class T> void fillSize(T&, vh::Case&) {}
inline void fillSize(Arr& t, vh::Case& c) { t.v.resize(1 + c.rng.below(6)); }
inline void fillSize(ArrN& t, vh::Case& c) { t.v.resize(1 + c.rng.below(5)); }
template<class T> T gen(vh::Case& c, Dom d) { T t; fillSize(t, c); Z<T>::zip([&](auto& x) { x = leaf<std::decay_t<decltype(x)>>(c.rng, d); }, t); return t; }
template<class T> std::string show(const T& t) { std::string s = "{"; Z<T>::zip([&](auto& x) { s += vh::str(+x) + " "; }, t); return s + "}"; }
template<class T> uint64_t hashOf(const T& t, uint64_t h = 7) { Z<T>::zip([&](auto& x) { h = vh::hashBytes(&x, sizeof(x), h); }, t); return h; }
template<class T, class F, class... O> T expect(const T& shape, F f, const O&... o) { T e(shape); Z<T>::zip([&](auto& r, auto&... x) { r = std::decay_t<decltype(r)>(f(x...)); }, e, o...); return e; }
template<class L> std::enable_if_t<std::is_floating_point<L>::value, bool> eq(L x, L e, double ulps) { return x == e || std::fabs(double(x) - double(e)) <= ulps * std::fabs(double(e)) * double(std::numeric_limits<L>::epsilon()) + (ulps ? double(std::numeric_limits<L>::min()) : 0); }
template<class L> std::enable_if_t<std::is_integral<L>::value, bool> eq(L x, L e, double) { return x == e; }
template<class T> void same(vh::Case& c, const T& g, const T& e, const char* what, double ulps = 0) {
    uint64_t n = 0;
    Z<T>::zip([&](auto& x, auto& y) { n++; VH_CHECK(c, eq(x, y, ulps), "member", what << ": member " << n - 1 << " is " << +x << " expected " << +y << " in " << show(g)); }, g, e);
    c.ev("members", n);
}
template<class T, class = void> struct HasTag { static int get(const T&) { return 0; } static void set(T&, int) {} };
template<class T> struct HasTag<T, std::enable_if_t<(sizeof(std::declval<T&>().tag) > 0)>> { static int get(const T& t) { return t.tag; } static void set(T& t, int i) { t.tag = i; } };
template<class T> struct HasTag<T, std::enable_if_t<(sizeof(std::declval<T&>().other) > 0)>> { static int get(const T& t) { return t.other; } static void set(T& t, int i) { t.other = i; } };
template<class T> struct HasTag<T, std::enable_if_t<(sizeof(std::declval<T&>().io) > 0)>> { static int get(const T& t) { return t.io; } static void set(T& t, int i) { t.io = i; } };
#define FX [&](auto x)
#define FXY [&](auto x, auto y)
template<class T> struct Tst {
    static T cp(const T& t) { return t; }
    static void begin(vh::Case& c, const T& a, const T& b) { c.desc("a=" + show(a) + " b=" + show(b)); c.distinct(hashOf(a, hashOf(b))); }
    static void add(vh::Case& c) {
        T a = gen<T>(c, ANY), b = gen<T>(c, ANY); const T A(a), B(b); begin(c, a, b);
        T e = expect(a, FXY { return x + y; }, A, B);
        same<T>(c, a + b, e, "a+b"); same<T>(c, A + b, e, "const a+b"); same<T>(c, a + B, e, "a+const b"); same<T>(c, A + B, e, "const a+const b");
        same<T>(c, cp(a) + b, e, "(a)+b"); same<T>(c, cp(a) + B, e, "(a)+const b"); same<T>(c, a + cp(b), e, "a+(b)"); same<T>(c, A + cp(b), e, "const a+(b)"); same<T>(c, cp(a) + cp(b), e, "(a)+(b)");
        { T t(a); HasTag<T>::set(t, 77); T& r = (t += b); same<T>(c, t, e, "a+=b"); VH_CHECK(c, &r == &t && (HasTag<T>::get(t) == 77 || sizeof(T) < 0 || !HasTag<T>::get(t)), "object", "a+=b returns another object or changes other members"); }
        { T t(a); t += t; same<T>(c, t, expect(a, FX { return x + x; }, A), "a+=a"); same<T>(c, a + a, t, "a+a"); }
        T s = expect(a, FXY { return x - y; }, A, B);
        same<T>(c, a - b, s, "a-b"); same<T>(c, A - b, s, "const a-b"); same<T>(c, a - B, s, "a-const b"); same<T>(c, A - B, s, "const a-const b");
        same<T>(c, cp(a) - b, s, "(a)-b"); same<T>(c, cp(a) - B, s, "(a)-const b"); same<T>(c, a - cp(b), s, "a-(b)"); same<T>(c, A - cp(b), s, "const a-(b)"); same<T>(c, cp(a) - cp(b), s, "(a)-(b)");
        { T t(a); HasTag<T>::set(t, 77); T& r = (t -= B); same<T>(c, t, s, "a-=b"); VH_CHECK(c, &r == &t && (HasTag<T>::get(t) == 77 || !HasTag<T>::get(t)), "object", "a-=b returns another object or changes other members"); }
        { T t(a); t -= t; same<T>(c, t, expect(a, FX { return x - x; }, A), "a-=a"); same<T>(c, A - a, t, "a-a"); }
        { const T& r = cp(a) + b; T clobber = cp(b) - a; (void)clobber; same<T>(c, r, e, "kept result of (a)+b"); const T& q = cp(a) - cp(b); T cl2 = cp(b) + a; (void)cl2; same<T>(c, q, s, "kept result of (a)-(b)"); }
        same<T>(c, a, A, "a after the operations"); same<T>(c, b, B, "b after the operations");
        c.ev("binary", 20);
    }
    template<class S> static void scaleBy(vh::Case& c, S s, double u) {
        T a = gen<T>(c, ANY);
        const int m = int(s); // integer members often exact multiples of the divisor
        if (m && c.rng.chance(0.5)) Z<T>::zip([&](auto& x) { typedef std::decay_t<decltype(x)> L; if (!std::is_floating_point<L>::value) { const int k = 60 / std::abs(m); x = L(m * int(c.rng.range(std::is_signed<L>::value ? -k : 0, k))); if (!std::is_signed<L>::value && m < 0) x = 0; } }, a);
        const T A(a); begin(c, a, a); c.desc("a=" + show(a) + " s=" + vh::str(s)); c.distinct(hashOf(a, vh::hashBytes(&s, sizeof(s))));
        T e = expect(a, FX { return x * s; }, A);
        const S cs = s;
        same<T>(c, a * s, e, "a*s", u); same<T>(c, A * s, e, "const a*s", u); same<T>(c, cp(a) * s, e, "(a)*s", u); same<T>(c, A * S(s), e, "a*(s)", u);
        same<T>(c, s * a, e, "s*a", u); same<T>(c, s * A, e, "s*const a", u); same<T>(c, cs * cp(a), e, "s*(a)", u); same<T>(c, S(s) * A, e, "(s)*a", u);
        { T t(a); HasTag<T>::set(t, 5); T& r = (t *= s); same<T>(c, t, e, "a*=s", u); VH_CHECK(c, &r == &t && (HasTag<T>::get(t) == 5 || !HasTag<T>::get(t)), "object", "a*=s returns another object or changes other members"); }
        { const T& r = cp(a) * s; T cl = cp(a) * cs; cl *= S(2); same<T>(c, r, e, "kept result of (a)*s", u); const T& q = s * cp(a); T cl2 = s * cp(cl); (void)cl2; same<T>(c, q, e, "kept result of s*(a)", u); }
        if (s != S(0)) {
            T d = expect(a, FX { return double(x) / double(s); }, A);
            same<T>(c, a / s, d, "a/s", 2 + u); same<T>(c, A / s, d, "const a/s", 2 + u); same<T>(c, cp(a) / s, d, "(a)/s", 2 + u); same<T>(c, A / S(s), d, "a/(s)", 2 + u);
            const T& r = cp(a) / s; T cl = cp(A) / S(3); (void)cl; same<T>(c, r, d, "kept result of (a)/s", 2 + u);
        }
        same<T>(c, a, A, "a after the operations");
        c.ev("scalar", 14);
    }
    static void mul(vh::Case& c) { // element-wise (not for vector members: their product is scalar)
        T a = gen<T>(c, ANY), b = gen<T>(c, ANY); const T A(a), B(b); begin(c, a, b);
        T e = expect(a, FXY { return x * y; }, A, B);
        same<T>(c, a * b, e, "a*b"); same<T>(c, A * b, e, "const a*b"); same<T>(c, a * B, e, "a*const b"); same<T>(c, A * B, e, "const a*const b");
        same<T>(c, A * cp(b), e, "const a*(b)"); same<T>(c, cp(a) * B, e, "(a)*const b"); same<T>(c, a * cp(b), e, "a*(b)"); same<T>(c, cp(a) * b, e, "(a)*b"); same<T>(c, cp(a) * cp(b), e, "(a)*(b)");
        { T t(a); T& r = (t *= b); same<T>(c, t, e, "a*=b"); VH_CHECK(c, &r == &t, "object", "a*=b returns another object"); t = a; t *= t; same<T>(c, t, expect(a, FX { return x * x; }, A), "a*=a"); }
        same<T>(c, a, A, "a after the operations"); same<T>(c, b, B, "b after the operations");
        c.ev("binary", 10);
    }
#define FN(fun, dom, tol) { T a = gen<T>(c, dom); const T A(a); begin(c, a, a); T e = expect(a, FX { using std::fun; return fun(x); }, A); \
        same<T>(c, fun(a), e, #fun "(a)", tol); same<T>(c, fun(A), e, #fun "(const a)", tol); same<T>(c, fun(cp(a)), e, #fun "((a))", tol); \
        { const T& r = fun(cp(a)); T cl = fun(cp(gen<T>(c, dom))); (void)cl; same<T>(c, r, e, "kept result of " #fun "((a))", tol); } same<T>(c, a, A, "a after " #fun); c.ev("functions", 4); }
    static void functions(vh::Case& c) {
        FN(exp, SMALL, 3) FN(log, POS, 3) FN(log2, POS, 3) FN(log10, POS, 3) FN(cbrt, ANY, 3)
    }
    static void sqrts(vh::Case& c) { FN(sqrt, POS, 3) }
    template<class L> static std::enable_if_t<std::is_signed<L>::value || std::is_floating_point<L>::value, L> absref(L x) { return x < 0 ? -x : x; }
    template<class L> static std::enable_if_t<!(std::is_signed<L>::value || std::is_floating_point<L>::value), L> absref(L x) { return x; }
    static void absolute(vh::Case& c) {
        T a = gen<T>(c, ANY); const T A(a); begin(c, a, a);
        T e = expect(a, FX { return Tst::absref(x); }, A);
        same<T>(c, abs(a), e, "abs(a)"); same<T>(c, abs(A), e, "abs(const a)"); same<T>(c, abs(cp(a)), e, "abs((a))");
        const T& r = abs(cp(a)); T cl = abs(gen<T>(c, ANY)); (void)cl; same<T>(c, r, e, "kept result of abs((a))");
        same<T>(c, a, A, "a after abs"); c.ev("functions", 4);
    }
    static void negate(vh::Case& c) {
        T a = gen<T>(c, ANY); const T A(a); begin(c, a, a);
        T e = expect(a, FX { return -x; }, A);
        same<T>(c, -a, e, "-a"); same<T>(c, -A, e, "-const a"); same<T>(c, -cp(a), e, "-(a)");
        const T& r = -cp(a); T cl = -gen<T>(c, ANY); (void)cl; same<T>(c, r, e, "kept result of -(a)");
        same<T>(c, a, A, "a after negation"); c.ev("functions", 4);
    }
    template<class P> static void powers(vh::Case& c, P p, Dom d) {
        T a = gen<T>(c, d); const T A(a); begin(c, a, a); c.desc("a=" + show(a) + " p=" + vh::str(p));
        T e = expect(a, FX { return std::pow(double(x), double(p)); }, A);
        same<T>(c, pow(a, p), e, "pow(a,p)", 4); same<T>(c, pow(A, p), e, "pow(const a,p)", 4); same<T>(c, pow(cp(a), p), e, "pow((a),p)", 4);
        const T& r = pow(cp(a), p); T cl = pow(gen<T>(c, d), p); (void)cl; same<T>(c, r, e, "kept result of pow((a),p)", 4);
        same<T>(c, a, A, "a after pow"); c.ev("functions", 4);
    }
    static void aggregate(vh::Case& c) {
        T a; fillSize(a, c); // multiples of 1/8: the aggregates are exact in every type
        bool neg = c.rng.chance(0.3), pos = !neg && c.rng.chance(0.3);
        Z<T>::zip([&](auto& x) { typedef std::decay_t<decltype(x)> L; long k = c.rng.range(-900, 900); if (neg) k = -1 - std::labs(k); if (pos) k = 1 + std::labs(k); x = std::is_floating_point<L>::value ? L(double(k) / 8) : L(k % 100); }, a);
        const T A(a); c.desc("a=" + show(a)); c.distinct(hashOf(a));
        double mx = -1e300, mn = 1e300, sm = 0;
        Z<T>::zip([&](auto& x) { mx = std::max(mx, double(x)); mn = std::min(mn, double(x)); sm += double(x); }, A);
        VH_CHECK(c, double(max(a)) == mx && double(max(A)) == mx && double(max(cp(a))) == mx, "max", double(max(a)) << " expected " << mx);
        VH_CHECK(c, double(min(a)) == mn && double(min(A)) == mn && double(min(cp(a))) == mn, "min", double(min(a)) << " expected " << mn);
        VH_CHECK(c, double(sum(a)) == sm && double(sum(A)) == sm && double(sum(cp(a))) == sm, "sum", double(sum(a)) << " expected " << sm);
        same<T>(c, a, A, "a after aggregation"); c.ev("aggregates", 9);
    }
    template<class G> static void aliased(vh::Case& c, G mem) { // the scalar is a member of the object
        T a = gen<T>(c, SMALL); const T A(a); begin(c, a, a);
        auto s = mem(a); T e = expect(a, FX { return x * s; }, A);
        { T t(a); t *= mem(t); same<T>(c, t, e, "a*=a.m", 1); t = a; same<T>(c, t * mem(t), e, "a*a.m", 1); same<T>(c, mem(t) * t, e, "a.m*a", 1); same<T>(c, t, A, "a after a*a.m"); }
        if (s != 0) { T t(a); T d = expect(a, FX { return double(x) / double(s); }, A); same<T>(c, t / mem(t), d, "a/a.m", 3); }
        c.ev("aliased", 4);
    }
};
template<class T> void scale(vh::Case& c, bool uns, double u) {
    vh::Rng& r = c.rng;
    switch (r.below(6)) {
    case 0: Tst<T>::scaleBy(c, int(uns ? r.range(0, 12) : r.range(-40, 40)), u); break;
    case 1: Tst<T>::scaleBy(c, double(uns ? r.range(0, 20) : r.range(-60, 60)) / 2, u); break;
    case 2: Tst<T>::scaleBy(c, float(uns ? r.range(0, 20) : r.range(-60, 60)) / 2, u); break;
    case 3: Tst<T>::scaleBy(c, long(uns ? r.range(0, 12) : r.range(-40, 40)), u); break;
    case 4: Tst<T>::scaleBy(c, unsigned(r.range(0, 12)), u); break;
    default: Tst<T>::scaleBy(c, uns ? r.real(0.1, 9) : r.real(-9, 9), u); break;
    }
}
template<class T> void powered(vh::Case& c, bool uns) {
    vh::Rng& r = c.rng;
    switch (r.below(4)) {
    case 0: Tst<T>::powers(c, int(r.range(0, 3)), SMALL); break;
    case 1: Tst<T>::powers(c, double(r.range(0, 3)), SMALL); break;
    case 2: Tst<T>::powers(c, 0.5 * double(r.range(1, 3)), POS); break;
    default: Tst<T>::powers(c, float(r.range(1, 2)), SMALL); break;
    }
}
} // namespace
