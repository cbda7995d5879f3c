// C22: class traits: macros, names, nested access, mesh data containers.
#include "C22.h"
// ---------------------------------------------------------------- definitions by macros
namespace tr {
struct One { double only; };
struct Named { double a; int b; std::string c; };
class Priv { double a; int b; friend class DefaultTraits<Priv>; public: Priv() : a(1.5), b(2) {} double A() const { return a; } int B() const { return b; } };
struct Cust { double rho; Vector<3, double> p; Vector<3, double> getV() const { return p / rho; } void setV(const Vector<3, double>& v) { p = v * rho; } };
struct Split { int io1, io2, ar1, all; };
struct OnlyIO { int a, b; };
struct OnlyAr { int a, b; };
template<class R, unsigned D> struct Tmp { R r; Vector<D, R> v; std::array<R, D + 1> arr; };
template<class R> struct TmpN { R r; int k; };
template<class R, size_t N> struct TmpC { R r; std::array<R, N> q; R& ref() { return r; } R get() const { return r; } };
template<class R> struct TmpIO { R a, b; };
template<class R> struct TmpAr { R a, b; };
struct Big { int m01, m02, m03, m04, m05, m06, m07, m08, m09, m10, m11, m12, m13; };
struct Max { int m01, m02, m03, m04, m05, m06, m07, m08, m09, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20; };
struct In2 { int z; double w; };
struct In1 { double q; In2 in; int e; };
struct Out { In1 a; int b; In1 c; In2 d; };
struct Base { int b1; double b2; };
struct Derived : Base { int d1; };
inline int dget(const Derived& d) { return d.b1; }
inline int& dref(Derived& d) { return d.b1; }
} // namespace tr
MAKE_ATTRIBUTE_TRAIT(tr::One, only);
MAKE_NAMED_ATTRIBUTE_TRAIT(tr::Named, "first attribute", a, "", b, "third \"quoted\" \\", c);
MAKE_ATTRIBUTE_TRAIT(tr::Priv, a, b);
MAKE_CUSTOM_TRAIT(tr::Cust, "density", &tr::Cust::rho, "velocity", std::make_pair(&tr::Cust::getV, &tr::Cust::setV), "momentum", &tr::Cust::p);
MAKE_ATTRIBUTE_TRAIT(tr::Split, all);
MAKE_ATTRIBUTE_TRAIT_IO(tr::Split, io1, io2);
MAKE_NAMED_ATTRIBUTE_TRAIT_ARITHMETIC(tr::Split, "arithmetic", ar1, "everything", all, "input", io1);
MAKE_NAMED_ATTRIBUTE_TRAIT_IO(tr::OnlyIO, "A", a, "B", b);
MAKE_ATTRIBUTE_TRAIT_ARITHMETIC(tr::OnlyAr, b, a);
MAKE_ATTRIBUTE_TEMPLATE_TRAIT((tr::Tmp<R, D>), (class R, unsigned D), r, v, arr);
MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT((tr::TmpN<R>), (class R), "the k", k, "the r", r);
MAKE_CUSTOM_TEMPLATE_TRAIT((tr::TmpC<R, N>), (class R, size_t N), "q", (&tr::TmpC<R, N>::q), "r", std::make_pair(&tr::TmpC<R, N>::get, &tr::TmpC<R, N>::ref));
MAKE_ATTRIBUTE_TEMPLATE_TRAIT_IO((tr::TmpIO<R>), (class R), b, a);
MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT_ARITHMETIC((tr::TmpAr<R>), (class R), "x", a, "y", b);
MAKE_ATTRIBUTE_TRAIT(tr::Big, m01, m02, m03, m04, m05, m06, m07, m08, m09, m10, m11, m12, m13);
MAKE_ATTRIBUTE_TRAIT(tr::Max, m01, m02, m03, m04, m05, m06, m07, m08, m09, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20);
MAKE_ATTRIBUTE_TRAIT(tr::In2, z, w);
MAKE_ATTRIBUTE_TRAIT(tr::In1, q, in, e);
MAKE_ATTRIBUTE_TRAIT(tr::Out, a, b, c, d);
MAKE_CUSTOM_TRAIT(tr::Derived, "d1", &tr::Derived::d1, "b1", std::make_pair(&tr::dget, &tr::dref));

template<class C, class Tr> static void named(vh::Case& c, const Tr& t, std::vector<std::string> names, const char* what) {
    std::vector<std::string> n1, n2; std::vector<unsigned> idx;
    t.apply([&](unsigned i, auto&, const std::string& n) { idx.push_back(i); n1.push_back(n); });
    t.apply([&](auto&, const std::string& n) { n2.push_back(n); });
    VH_CHECK(c, n1 == names && n2 == names && Tr::size() == names.size(), "name", what << ": " << vh::strv(n1) << " and " << vh::strv(n2) << " expected " << vh::strv(names));
    for (unsigned i = 0; i < idx.size(); i++) VH_CHECK(c, idx[i] == i, "order", what << ": attribute " << i << " has index " << idx[i]);
    c.ev("applied", 2 * names.size());
}
struct Sink { static std::vector<std::pair<unsigned, std::string>>& v() { static std::vector<std::pair<unsigned, std::string>> s; return s; } static std::vector<double>& vals() { static std::vector<double> s; return s; } static const void*& obj() { static const void* o; return o; } };
template<class C, class V> struct Apl {
    template<class Ref> void operator()(unsigned i, Ref& r, const std::string& n) { Sink::v().push_back({i, n}); static_assert(std::is_same<typename std::decay_t<Ref>::typeValue, V>::value, "value type"); Sink::vals().push_back(double(r.getValue(*static_cast<const C*>(Sink::obj())))); }
};
template<class T> static void many(vh::Case& c, int cnt, int base) { // classes of many int members
    T o, m; int* po = reinterpret_cast<int*>(&o); int* pm = reinterpret_cast<int*>(&m);
    for (int i = 0; i < cnt; i++) po[i] = pm[i] = int(c.rng.range(-1000, 1000));
    auto t = DefaultTraits<T>::getTraits();
    std::vector<std::string> names; for (int i = 1; i <= cnt; i++) names.push_back(std::string("m") + char('0' + i / 10) + char('0' + i % 10));
    named<T>(c, t, names, "class of many members");
    std::vector<int> vals; t.apply([&](auto& r, const std::string&) { vals.push_back(r.getValue(o)); });
    VH_CHECK(c, vals == std::vector<int>(pm, pm + cnt), "read", "members " << vh::strv(vals));
    int skip = int(c.rng.below(uint64_t(cnt))), q = base;
    t.apply([&](unsigned i, auto& r, const std::string&) { if (int(i) != skip) { r.setValue(o, q); pm[i] = q; } else { r.getAttr(o)++; pm[i]++; } q += 3; });
    VH_CHECK(c, memcmp(&o, &m, sizeof(T)) == 0, "write", "members after apply");
    Sink::v().clear(); Sink::vals().clear(); Sink::obj() = &o;
    t.template apply<Apl>();
    VH_CHECK(c, int(Sink::v().size()) == cnt, "apply", Sink::v().size() << " members visited");
    for (int i = 0; i < cnt; i++) VH_CHECK(c, Sink::v()[i] == std::make_pair(unsigned(i), names[i]) && Sink::vals()[i] == pm[i], "apply", "member " << i << " is " << Sink::v()[i].second << "=" << Sink::vals()[i]);
    c.ev("get", 2 * cnt); c.ev("set", cnt);
}
VH_SECTION(macros, 150, 5000) {
    c.distinct(c.rng.u64());
    using namespace tr;
    many<Big>(c, 13, int(c.index)); many<Max>(c, 20, int(c.index));
    static_assert(HasDefaultTraits<One>::value && HasDefaultIOTraits<One>::value && HasDefaultArithmeticTraits<One>::value, "inherited defaults");
    static_assert(!HasDefaultTraits<OnlyIO>::value && HasDefaultIOTraits<OnlyIO>::value && !HasDefaultArithmeticTraits<OnlyIO>::value, "IO only");
    static_assert(!HasDefaultTraits<OnlyAr>::value && !HasDefaultIOTraits<OnlyAr>::value && HasDefaultArithmeticTraits<OnlyAr>::value, "arithmetic only");
    static_assert(!HasDefaultTraits<Base>::value && !HasDefaultTraits<int>::value && !HasDefaultIOTraits<std::vector<int>>::value && !HasDefaultArithmeticTraits<Vector<3, double>>::value, "no traits");
    static_assert(!HasDefaultTraits<TmpIO<int>>::value && HasDefaultIOTraits<TmpIO<int>>::value && HasDefaultArithmeticTraits<TmpAr<int>>::value, "template traits");
    named<One>(c, DefaultTraits<One>::getTraits(), {"only"}, "One");
    named<Named>(c, DefaultTraits<Named>::getTraits(), {"first attribute", "", "third \"quoted\" \\"}, "Named");
    named<Cust>(c, DefaultTraits<Cust>::getTraits(), {"density", "velocity", "momentum"}, "Cust");
    named<Split>(c, DefaultTraits<Split>::getTraits(), {"all"}, "Split");
    named<Split>(c, DefaultIOTraits<Split>::getTraits(), {"io1", "io2"}, "Split IO");
    named<Split>(c, DefaultArithmeticTraits<Split>::getTraits(), {"arithmetic", "everything", "input"}, "Split arithmetic");
    named<OnlyIO>(c, DefaultIOTraits<OnlyIO>::getTraits(), {"A", "B"}, "OnlyIO");
    named<OnlyAr>(c, DefaultArithmeticTraits<OnlyAr>::getTraits(), {"b", "a"}, "OnlyAr");
    named<Tmp<float, 2>>(c, DefaultTraits<Tmp<float, 2>>::getTraits(), {"r", "v", "arr"}, "Tmp");
    named<TmpN<int>>(c, DefaultIOTraits<TmpN<int>>::getTraits(), {"the k", "the r"}, "TmpN");
    named<TmpC<int, 3>>(c, DefaultTraits<TmpC<int, 3>>::getTraits(), {"q", "r"}, "TmpC");
    named<TmpIO<int>>(c, DefaultIOTraits<TmpIO<int>>::getTraits(), {"b", "a"}, "TmpIO");
    named<TmpAr<int>>(c, DefaultArithmeticTraits<TmpAr<int>>::getTraits(), {"x", "y"}, "TmpAr");
    named<Derived>(c, DefaultTraits<Derived>::getTraits(), {"d1", "b1"}, "Derived");
    VH_CHECK(c, (DefaultTraits<Tmp<double, 3>>::size() == 3 && DefaultIOTraits<Split>::size() == 2 && DefaultArithmeticTraits<Split>::size() == 3), "size", "size of default traits");
    int i = int(c.rng.range(-99, 99)); double d = c.rng.real(-9, 9); if (d == 0) d = 1;
    Split s{1, 2, 3, 4};
    DefaultIOTraits<Split>::getTraits().setValue<1>(s, i); VH_CHECK(c, s.io1 == 1 && s.io2 == i && s.ar1 == 3 && s.all == 4, "write", "Split IO");
    DefaultArithmeticTraits<Split>::getTraits().setValue<0>(s, i + 1); VH_CHECK(c, s.io1 == 1 && s.io2 == i && s.ar1 == i + 1 && s.all == 4, "write", "Split arithmetic");
    DefaultTraits<Split>::getTraits().getAttr<0>(s) = i + 2; VH_CHECK(c, s.io1 == 1 && s.io2 == i && s.ar1 == i + 1 && s.all == i + 2, "write", "Split default");
    VH_CHECK(c, (&get<0>(s) == &s.ar1 && &get<1>(s) == &s.all && &get<2>(&s) == &s.io1), "address", "get of arithmetic traits");
    Priv p; auto pt = DefaultTraits<Priv>::getTraits(); pt.setValue<1>(p, i); pt.getAttr<0>(p) = d; VH_CHECK(c, p.A() == d && p.B() == i, "write", "private members");
    Cust q; q.rho = d; q.p = {1, 2, 3}; auto ct = DefaultTraits<Cust>::getTraits();
    Vector<3, double> v = ct.getValue<1>(q), e = q.p / d; VH_CHECK(c, v == e, "read", "velocity");
    ct.setValue<1>(q, {d, 1, 2}); VH_CHECK(c, (q.p == Vector<3, double>{d * d, d, 2 * d}) && ct.getValue<2>(q) == q.p && q.rho == d, "write", "velocity");
    Tmp<float, 2> tm{1, {2, 3}, {{4, 5, 6}}}; auto tt = DefaultTraits<Tmp<float, 2>>::getTraits(); tt.setValue<2>(tm, {{7, 8, float(i)}}); tt.getAttr<1>(tm)[1] = float(d);
    VH_CHECK(c, tm.r == 1 && tm.v[0] == 2 && tm.v[1] == float(d) && tm.arr[0] == 7 && tm.arr[2] == float(i), "write", "Tmp");
    TmpC<int, 2> tc{5, {{1, 2}}}; auto tct = DefaultTraits<TmpC<int, 2>>::getTraits(); tct.getAttr<1>(tc) = i; VH_CHECK(c, tc.r == i && tct.getValue<1>(tc) == i && tct.getValue<0>(tc)[1] == 2, "write", "TmpC");
    Derived de; de.b1 = 1; de.b2 = 2; de.d1 = 3; auto dt = DefaultTraits<Derived>::getTraits(); dt.setValue<1>(de, i); dt.setValue<0>(&de, 9); VH_CHECK(c, de.b1 == i && de.b2 == 2 && de.d1 == 9, "write", "Derived");
    // nested access
    Out o{{1, {2, 3}, 4}, 5, {6, {7, 8}, 9}, {10, 11}};
    VH_CHECK(c, (&get<1>(o) == &o.b && &get<0>(o) == &o.a && &get<0, 1>(o) == &o.a.in && &get<0, 1, 0>(o) == &o.a.in.z && &get<0, 1, 1>(&o) == &o.a.in.w && &get<2, 1, 0>(o) == &o.c.in.z && &get<2, 2>(&o) == &o.c.e && &get<3, 1>(o) == &o.d.w && &get<3>(&o) == &o.d), "address", "nested get");
    get<2, 1, 1>(o) = d; VH_CHECK(c, o.c.in.w == d && o.c.in.z == 7 && o.a.in.w == 3, "write", "nested get");
    c.ev("set", 9); c.ev("get", 20);
}
// ---------------------------------------------------------------- mesh data containers
template<unsigned B, unsigned... I> static void dimNames(vh::Case& c, std::integer_sequence<unsigned, I...>) {
    Traits<MeshDataContainer<int, (B + I)...>> t; Traits<MeshDataContainer<int, (B + I)...>> t2(t);
    const char* n[] = {t2.template getName<I>()...};
    for (unsigned i = 0; i < sizeof...(I); i++) VH_CHECK(c, n[i] == "dim " + std::to_string(B + i), "name", "dimension " << B + i << " is named " << n[i]);
    c.ev("names", sizeof...(I));
}
template<unsigned... D> static void mdc(vh::Case& c) {
    typedef MeshDataContainer<double, D...> M; typedef Traits<M> T;
    static_assert(HasDefaultIOTraits<M>::value && HasDefaultArithmeticTraits<M>::value && T::size() == sizeof...(D), "traits of mesh data");
    M m; T t = DefaultIOTraits<M>::getTraits(); T ta = DefaultArithmeticTraits<M>::getTraits(); (void)ta;
    std::vector<std::vector<double>> model(sizeof...(D));
    for (int round = 0; round < 6; round++) {
        size_t w = c.rng.below(sizeof...(D)); size_t n = c.rng.below(9); std::vector<double> v(n); for (auto& x : v) x = c.rng.real(-1, 1);
        bool attr = c.rng.chance(0.5); unsigned k = 0;
        auto f = [&](auto I) {
            if (k++ != w) return; model[w] = v; typename T::template type<decltype(I)::value> dc; dc.resize(n); for (size_t i = 0; i < n; i++) dc[i] = v[i];
            if (attr) t.template getAttr<decltype(I)::value>(m) = dc; else t.template setValue<decltype(I)::value>(m, dc);
        };
        auto all = [&](auto... I) { (f(I), ...); };
        if constexpr (sizeof...(D) == 1) all(std::integral_constant<unsigned, 0>());
        else if constexpr (sizeof...(D) == 2) all(std::integral_constant<unsigned, 0>(), std::integral_constant<unsigned, 1>());
        else all(std::integral_constant<unsigned, 0>(), std::integral_constant<unsigned, 1>(), std::integral_constant<unsigned, 2>());
        const M& cm = m;
        auto chk = [&](auto I) { constexpr unsigned J = decltype(I)::value; if constexpr (J < sizeof...(D)) {
            const auto& x = t.template getValue<J>(cm); VH_CHECK(c, x.size() == model[J].size() && std::equal(x.begin(), x.end(), model[J].begin()), "read", "data at position " << J);
            VH_CHECK(c, &x == &cm.template getDataByPos<J>() && &t.template getAttr<J>(m) == &m.template getDataByPos<J>(), "address", "data at position " << J); c.ev("get", 2); } };
        chk(std::integral_constant<unsigned, 0>()); chk(std::integral_constant<unsigned, 1>()); chk(std::integral_constant<unsigned, 2>());
        c.ev("set");
    }
}
VH_SECTION(meshData, 60, 2000) {
    c.distinct(c.rng.u64());
    switch (c.index % 4) { case 0: mdc<3>(c); break; case 1: mdc<2, 0>(c); break; case 2: mdc<0, 1, 2>(c); break; default: mdc<1, 1, 3>(c); }
    switch (c.index % 6) {
    case 0: dimNames<0>(c, std::make_integer_sequence<unsigned, 32>()); break;
    case 1: dimNames<90>(c, std::make_integer_sequence<unsigned, 32>()); break;
    case 2: dimNames<190>(c, std::make_integer_sequence<unsigned, 24>()); break;
    case 3: dimNames<490>(c, std::make_integer_sequence<unsigned, 24>()); break;
    case 4: dimNames<976>(c, std::make_integer_sequence<unsigned, 24>()); break;
    default: dimNames<32>(c, std::make_integer_sequence<unsigned, 32>()); break;
    }
}
