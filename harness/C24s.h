// sections of C24 (included by two translation units with different header orders)
#ifndef SUF
#define SUF
#endif
#define SEC(name, q, t) VH_SECTION_X(VH_CAT(name, SUF), q, t)
#define VH_STR2(x) #x
#define VH_STR(x) VH_STR2(x)
#define VH_SECTION_X(name, q, t) static void VH_CAT(vh_sec_, name)(vh::Case&); static vh::Reg VH_CAT(vh_reg_, name)(VH_STR(name), q, t, VH_CAT(vh_sec_, name)); static void VH_CAT(vh_sec_, name)(vh::Case& c)
typedef Tm<float, 2> T2f; typedef Tm<double, 3> T3d;
#define ALLT(f, ...) switch (c.index % 13) { case 0: f<D>(__VA_ARGS__); break; case 1: f<R2>(__VA_ARGS__); break; case 2: f<One>(__VA_ARGS__); break; case 3: f<F3>(__VA_ARGS__); break; case 4: f<N>(__VA_ARGS__); break; case 5: f<Priv>(__VA_ARGS__); break; case 6: f<Ref>(__VA_ARGS__); break; case 7: f<Split>(__VA_ARGS__); break; case 8: f<Many>(__VA_ARGS__); break; \
    case 9: f<VV>(__VA_ARGS__); break; case 10: f<NV>(__VA_ARGS__); break; case 11: f<T2f>(__VA_ARGS__); break; default: f<T3d>(__VA_ARGS__); break; }
#define SCALT(f, ...) switch (c.index % 9) { case 0: f<D>(__VA_ARGS__); break; case 1: f<R2>(__VA_ARGS__); break; case 2: f<One>(__VA_ARGS__); break; case 3: f<F3>(__VA_ARGS__); break; case 4: f<N>(__VA_ARGS__); break; case 5: f<Priv>(__VA_ARGS__); break; case 6: f<Ref>(__VA_ARGS__); break; case 7: f<Split>(__VA_ARGS__); break; case 8: f<Many>(__VA_ARGS__); break; }
namespace {
#define W(name) template<class T> void w_##name(vh::Case& c) { Tst<T>::name(c); }
W(add) W(mul) W(functions) W(sqrts) W(absolute) W(negate) W(aggregate)
} // namespace
SEC(addSub, 650, 26000) { if (c.index % 14 == 13) Tst<U>::add(c); else ALLT(w_add, c); }
SEC(scaling, 1300, 52000) { if (c.rng.chance(0.1)) scale<U>(c, true, 1); else ALLT(scale, c, false, 2); }
SEC(product, 450, 18000) { SCALT(w_mul, c); }
SEC(functions, 300, 9000) { SCALT(w_functions, c); SCALT(w_sqrts, c); }
SEC(absolute, 650, 20000) { if (c.rng.chance(0.1)) Tst<U>::absolute(c); else if (c.rng.chance(0.1)) Tst<Arr>::absolute(c); else ALLT(w_absolute, c); }
SEC(negation, 450, 18000) { SCALT(w_negate, c); }
SEC(power, 650, 20000) { ALLT(powered, c, false); }
SEC(aggregation, 750, 20000) { if (c.rng.chance(0.2)) { if (c.rng.chance(0.5)) Tst<Arr>::aggregate(c); else Tst<ArrN>::aggregate(c); } else ALLT(w_aggregate, c); }
SEC(alias, 500, 20000) {
    switch (c.index % 5) {
    case 0: Tst<D>::aliased(c, [](auto& x) -> auto& { return x.a; }); break;
    case 1: Tst<D>::aliased(c, [](auto& x) -> auto& { return x.i; }); break;
    case 2: Tst<N>::aliased(c, [](auto& x) -> auto& { return x.r.a; }); break;
    case 3: Tst<F3>::aliased(c, [](auto& x) -> auto& { return x.x; }); break;
    default: Tst<NV>::aliased(c, [](auto& x) -> auto& { return x.v[1]; }); break;
    }
}
SEC(plain, 300, 10000) { // numbers and containers of numbers
    vh::Rng& r = c.rng;
    double d = r.real(-9, 9); float f = float(r.real(-9, 9)); int i = int(r.range(-999, 999)); long l = r.range(-(1L << 50), 1L << 50); unsigned u = unsigned(r.range(0, 99));
    c.desc(vh::str(d) + " " + vh::str(f) + " " + vh::str(i) + " " + vh::str(l)); c.distinct(vh::hashBytes(&d, 8, uint64_t(l)));
    VH_CHECK(c, abs(d) == (d < 0 ? -d : d) && abs(f) == (f < 0 ? -f : f) && abs(i) == (i < 0 ? -i : i) && abs(l) == (l < 0 ? -l : l), "abs", abs(d) << " " << abs(f) << " " << abs(i) << " " << abs(l));
    std::vector<double> v(1 + r.below(8)); std::vector<int> w(1 + r.below(8)); std::vector<D> o(1 + r.below(5)); Vector<4, float> q;
    double mx = -1e9, mn = 1e9, sm = 0, ox = -1e9, on = 1e9, os = 0; long wx = -9999, wn = 9999, ws = 0; double qs = 0;
    for (auto& x : v) { x = double(r.range(-99, 99)) / 4; mx = std::max(mx, x); mn = std::min(mn, x); sm += x; }
    for (auto& x : w) { x = int(r.range(-99, 99)); wx = std::max<long>(wx, x); wn = std::min<long>(wn, x); ws += x; }
    for (auto& x : o) { x = gen<D>(c, ANY); x.a = double(r.range(-99, 99)) / 4; ox = std::max({ox, x.a, double(x.i)}); on = std::min({on, x.a, double(x.i)}); os += x.a + x.i; }
    for (unsigned k = 0; k < 4; k++) { q[k] = float(r.range(-99, 99)) / 4; qs += q[k]; }
    VH_CHECK(c, max(v) == mx && min(v) == mn && sum(v) == sm, "container", max(v) << " " << min(v) << " " << sum(v) << " of " << vh::strv(v));
    VH_CHECK(c, max(w) == wx && min(w) == wn && sum(w) == ws, "container", max(w) << " " << min(w) << " " << sum(w) << " of " << vh::strv(w));
    VH_CHECK(c, max(o) == ox && min(o) == on && sum(o) == os && sum(q) == qs, "container", max(o) << " " << min(o) << " " << sum(o) << " expected " << ox << " " << on << " " << os);
    VH_CHECK(c, sum(std::vector<double>()) == 0 && sum(std::vector<int>()) == 0, "empty", "sum of nothing is not zero");
    std::vector<double> av = abs(v), pv = pow(abs(v), 2);
    for (size_t k = 0; k < v.size(); k++) VH_CHECK(c, av[k] == std::fabs(v[k]) && pv[k] == v[k] * v[k] && av.size() == v.size(), "container", "abs/pow of " << v[k] << " is " << av[k] << " " << pv[k]);
    VH_CHECK(c, max(d) == d && min(i) == i && sum(f) == f, "number", "aggregate of a number");
    c.ev("aggregates", 12);
}
