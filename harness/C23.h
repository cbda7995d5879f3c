// C23: bound traits are selected and honoured at every level.
#include "vh.h"
#include "capture.h"
#include <array>
#include <list>
#include <memory>
#include <tuple>
#include <GTMesh/Traits/Traits.h>
#include <GTMesh/Traits/TraitsBind/TraitsBind.h>
#include <GTMesh/NumericStaticArray/Vector.h>
#include <GTMesh/Debug/VariableExport.h>
namespace b23 {
struct A { int x; double y; std::string n; double half() const { return y / 2; } void setHalf(const double& h) { y = 2 * h; } };
struct B { A a; int k; std::vector<A> as; };
struct C { B b; A a; std::map<int, A> m; std::tuple<A, int, B> t; std::pair<A, B> p; std::array<B, 2> ab; std::list<std::vector<A>> la; bool f; };
struct Q { int q; double r; A a; }; // no default traits
inline double halfOf(const A& a) { return a.y / 2; }
} // namespace b23
MAKE_ATTRIBUTE_TRAIT_IO(b23::A, x, n);
MAKE_NAMED_ATTRIBUTE_TRAIT_ARITHMETIC(b23::A, "arithmetic", y);
MAKE_ATTRIBUTE_TRAIT(b23::B, a, k, as);
MAKE_NAMED_ATTRIBUTE_TRAIT(b23::C, "b", b, "the a", a, "m", m, "t", t, "p", p, "ab", ab, "la", la, "flag", f);
namespace b23 {
// the traits to bind; the number identifies the variant in the model
template<int Cls, int Var, class T> struct Tr { const T& t; static constexpr int cls = Cls, var = Var; };
template<int Cls, int Var, class T> Tr<Cls, Var, T> mk(const T& t) { return Tr<Cls, Var, T>{t}; }
inline const auto& rA1() { static const auto t = makeTraits<A>("X", &A::x); return t; }
inline const auto& rA2() { static const auto t = makeTraits<A>("another X", &A::x); return t; } // the same type as rA1
inline const auto& rA3() { static const auto t = makeTraits<A>("name", &A::n, "Y", &A::y, "half", std::make_pair(&A::half, &A::setHalf)); return t; }
inline const auto& rB1() { static const auto t = makeTraits<B>("members", &B::as, "k", &B::k); return t; }
inline const auto& rB2() { static const auto t = makeTraits<B>("A", &B::a); return t; }
inline const auto& rC1() { static const auto t = makeTraits<C>("pair", &C::p, "list", &C::la, "map", &C::m, "array", &C::ab); return t; }
inline const auto& rC2() { static const auto t = makeTraits<C>("tuple", &C::t, "B", &C::b); return t; }
inline const auto& rQ1() { static const auto t = makeTraits<Q>("q", &Q::q, "a", &Q::a); return t; }
inline const auto& rQ2() { static const auto t = makeTraits<Q>("r", &Q::r); return t; }
inline auto A1() { return mk<0, 1>(rA1()); } inline auto A2() { return mk<0, 2>(rA2()); } inline auto A3() { return mk<0, 3>(rA3()); }
inline auto B1() { return mk<1, 1>(rB1()); } inline auto B2() { return mk<1, 2>(rB2()); }
inline auto C1() { return mk<2, 1>(rC1()); } inline auto C2() { return mk<2, 2>(rC2()); }
inline auto Q1() { return mk<3, 1>(rQ1()); } inline auto Q2() { return mk<3, 2>(rQ2()); }
// ---- the model: var[class] is the first bound variant, 0 the default traits
struct Sel { int var[4]; };
template<class... T> Sel sel(const T&...) { Sel s{{0, 0, 0, 0}}; int cl[] = {T::cls...}, v[] = {T::var...}; for (size_t i = 0; i < sizeof...(T); i++) if (!s.var[cl[i]]) s.var[cl[i]] = v[i]; return s; }
inline std::string m(int v, const Sel&) { return vh::str(v); }
inline std::string num(double v) { std::ostringstream o; o << v; return o.str(); }
inline std::string m(double v, const Sel&) { return num(v); }
inline std::string m(bool v, const Sel&) { return v ? "true" : "false"; }
inline std::string m(const std::string& v, const Sel&) { return "\"" + v + "\""; }
inline std::string m(const A& a, const Sel& s); inline std::string m(const B& a, const Sel& s); inline std::string m(const C& a, const Sel& s); inline std::string m(const Q& a, const Sel& s);
template<class X, class Y> std::string m(const std::pair<X, Y>& p, const Sel& s);
template<class X, class Y, class Z> std::string m(const std::tuple<X, Y, Z>& t, const Sel& s);
template<class It> std::string seq(It b, It e, const Sel& s) { std::string r = "[ "; for (It i = b; i != e; ++i) { if (i != b) r += ", "; r += m(*i, s); } return r + " ]"; }
template<class T> std::string m(const std::vector<T>& v, const Sel& s) { return seq(v.begin(), v.end(), s); }
template<class T> std::string m(const std::list<T>& v, const Sel& s) { return seq(v.begin(), v.end(), s); }
template<class T, size_t N> std::string m(const std::array<T, N>& v, const Sel& s) { return seq(v.begin(), v.end(), s); }
template<class K, class T> std::string m(const std::map<K, T>& v, const Sel& s) { return seq(v.begin(), v.end(), s); }
template<class X, class Y> std::string m(const std::pair<X, Y>& p, const Sel& s) { return "{ " + m(p.first, s) + ": " + m(p.second, s) + "}"; }
template<class X, class Y, class Z> std::string m(const std::tuple<X, Y, Z>& t, const Sel& s) { return "[ " + m(std::get<0>(t), s) + ", " + m(std::get<1>(t), s) + ", " + m(std::get<2>(t), s) + "]"; }
inline std::string at(const char* n, const std::string& v) { return std::string("\"") + n + "\" : " + v; }
inline std::string m(const A& a, const Sel& s) { switch (s.var[0]) { case 0: return "{ " + at("x", m(a.x, s)) + ", " + at("n", m(a.n, s)) + " }"; case 1: return "{ " + at("X", m(a.x, s)) + " }"; case 2: return "{ " + at("another X", m(a.x, s)) + " }"; default: return "{ " + at("name", m(a.n, s)) + ", " + at("Y", m(a.y, s)) + ", " + at("half", m(a.y / 2, s)) + " }"; } }
inline std::string m(const B& b, const Sel& s) { switch (s.var[1]) { case 0: return "{ " + at("a", m(b.a, s)) + ", " + at("k", m(b.k, s)) + ", " + at("as", m(b.as, s)) + " }"; case 1: return "{ " + at("members", m(b.as, s)) + ", " + at("k", m(b.k, s)) + " }"; default: return "{ " + at("A", m(b.a, s)) + " }"; } }
inline std::string m(const C& o, const Sel& s) { switch (s.var[2]) { case 0: return "{ " + at("b", m(o.b, s)) + ", " + at("the a", m(o.a, s)) + ", " + at("m", m(o.m, s)) + ", " + at("t", m(o.t, s)) + ", " + at("p", m(o.p, s)) + ", " + at("ab", m(o.ab, s)) + ", " + at("la", m(o.la, s)) + ", " + at("flag", m(o.f, s)) + " }";
    case 1: return "{ " + at("pair", m(o.p, s)) + ", " + at("list", m(o.la, s)) + ", " + at("map", m(o.m, s)) + ", " + at("array", m(o.ab, s)) + " }"; default: return "{ " + at("tuple", m(o.t, s)) + ", " + at("B", m(o.b, s)) + " }"; } }
inline std::string m(const Q& o, const Sel& s) { switch (s.var[3]) { case 1: return "{ " + at("q", m(o.q, s)) + ", " + at("a", m(o.a, s)) + " }"; default: return "{ " + at("r", m(o.r, s)) + " }"; } }
// ---- random objects
inline void g(vh::Rng& r, int& v) { v = int(r.range(-9999, 9999)); }
inline void g(vh::Rng& r, double& v) { v = double(r.range(-4000, 4000)) / 4; }
inline void g(vh::Rng& r, A& a) { g(r, a.x); g(r, a.y); a.n = r.str(6, "abcXYZ _-"); }
inline void g(vh::Rng& r, B& b) { g(r, b.a); g(r, b.k); b.as.resize(r.below(4)); for (auto& x : b.as) g(r, x); }
inline void g(vh::Rng& r, C& o) { g(r, o.b); g(r, o.a); for (size_t i = r.below(3); i > 0; i--) g(r, o.m[int(r.range(-5, 5))]); g(r, std::get<0>(o.t)); g(r, std::get<1>(o.t)); g(r, std::get<2>(o.t)); g(r, o.p.first); g(r, o.p.second); for (auto& x : o.ab) g(r, x); o.la.resize(r.below(3)); for (auto& l : o.la) { l.resize(r.below(3)); for (auto& x : l) g(r, x); } o.f = r.chance(0.5); }
inline void g(vh::Rng& r, Q& q) { g(r, q.q); g(r, q.r); g(r, q.a); }
// ---- selection: the same object (not a copy) of the first traits of the class
template<class Cls, template<typename> class Def, class Tup, size_t I = 0> struct FirstOf;
template<int K> struct ClsOf; template<> struct ClsOf<0> { typedef A type; }; template<> struct ClsOf<1> { typedef B type; }; template<> struct ClsOf<2> { typedef C type; }; template<> struct ClsOf<3> { typedef Q type; };
template<bool bound> struct Chk { // bound
    template<class S, class Tup, int K, class... T> static void go(vh::Case& c, const Tup& tup, const T&... t) {
        const void* e = nullptr; int cl[] = {T::cls...}; const void* p[] = {(const void*)&t.t...}; int id = -1, ids[] = {T::var...};
        for (size_t i = 0; i < sizeof...(T); i++) if (cl[i] == K) { e = p[i]; id = ids[i]; break; }
        VH_CHECK(c, (const void*)&S::getTraitsInstance(tup) == e, "selected", "the traits selected for class " << K << " are not the first bound ones (variant " << id << ")");
        static_assert(S::valid, "bound traits must be valid");
        c.ev("selected");
    }
};
template<bool hasDef> struct Dfl { template<class S, template<typename> class Def, class Cls, class Tup> static void go(vh::Case& c, const Tup& tup) {
    static_assert(S::valid && std::is_same<typename S::TypeTraits, typename Def<Cls>::traitsType>::value, "default traits expected");
    std::vector<std::string> n1, n2; auto t = S::getTraitsInstance(tup); t.apply([&](auto&, const std::string& n) { n1.push_back(n); }); Def<Cls>::getTraits().apply([&](auto&, const std::string& n) { n2.push_back(n); });
    VH_CHECK(c, n1 == n2 && !n1.empty(), "default", "default traits expected, " << vh::strv(n1) << " found"); c.ev("defaults"); } };
template<> struct Dfl<false> { template<class S, template<typename> class Def, class Cls, class Tup> static void go(vh::Case& c, const Tup&) { static_assert(!S::valid, "neither bound nor default traits"); c.ev("invalid"); } };
template<> struct Chk<false> {};
template<int K, class... T> constexpr bool isBound() { bool b = false; int cl[] = {T::cls...}; for (size_t i = 0; i < sizeof...(T); i++) b = b || cl[i] == K; return b; }
template<int K, bool b> struct One { template<class Tup, class... T> static void go(vh::Case& c, const Tup& tup, const T&... t) { // bound
    typedef typename ClsOf<K>::type Cl;
    Chk<true>::template go<SelectTraitsWithIODefault<Cl, std::decay_t<decltype(t.t)>...>, Tup, K>(c, tup, t...);
    Chk<true>::template go<SelectTraitsWithArithmeticDefault<Cl, std::decay_t<decltype(t.t)>...>, Tup, K>(c, tup, t...);
    Chk<true>::template go<SelectTraitsWithIODefault<Cl, decltype(t.t)...>, Tup, K>(c, tup, t...); // as stored in the binder
    std::tuple<std::decay_t<decltype(t.t)>&...> tied(const_cast<std::decay_t<decltype(t.t)>&>(t.t)...); // as given by std::tie
    Chk<true>::template go<SelectTraitsWithIODefault<Cl, std::decay_t<decltype(t.t)>&...>, decltype(tied), K>(c, tied, t...);
    Chk<true>::template go<SelectTraitsWithArithmeticDefault<Cl, std::decay_t<decltype(t.t)>&...>, decltype(tied), K>(c, tied, t...);
} };
template<int K> struct One<K, false> { template<class Tup, class... T> static void go(vh::Case& c, const Tup& tup, const T&... t) {
    typedef typename ClsOf<K>::type Cl;
    Dfl<HasDefaultIOTraits<Cl>::value>::template go<SelectTraitsWithIODefault<Cl, std::decay_t<decltype(t.t)>...>, DefaultIOTraits, Cl>(c, tup);
    Dfl<HasDefaultIOTraits<Cl>::value>::template go<SelectTraitsWithIODefault<Cl, decltype(t.t)...>, DefaultIOTraits, Cl>(c, tup);
    Dfl<HasDefaultArithmeticTraits<Cl>::value>::template go<SelectTraitsWithArithmeticDefault<Cl, std::decay_t<decltype(t.t)>...>, DefaultArithmeticTraits, Cl>(c, tup);
} };
template<class... T> void select(vh::Case& c, const T&... t) {
    std::tuple<decltype(t.t)...> tup(t.t...);
    One<0, isBound<0, T...>()>::go(c, tup, t...); One<1, isBound<1, T...>()>::go(c, tup, t...); One<2, isBound<2, T...>()>::go(c, tup, t...); One<3, isBound<3, T...>()>::go(c, tup, t...);
}
template<class F> std::string stdio(F f) { Capture cap(1); f(); return cap.stop(); }
template<class O, class... T> void print(vh::Case& c, const char* what, const T&... t) {
    O o; g(c.rng, o); const O& co = o;
    Sel s = sel(t...); std::string e = m(o, s);
    c.desc(std::string(what) + " object " + e); c.distinct(vh::hashStr(e + what));
    auto b = bindTraits(o, t.t...); auto bc = bindTraits(co, t.t...);
    VH_CHECK(c, &b.object == &o && &bc.object == &o, "object", "the binder refers to another object");
    { std::ostringstream os; VariableExport::exportVariable(os, b); VH_CHECK(c, os.str() == e, "stream", what << ": " << os.str() << " expected " << e); }
    { std::ostringstream os; VariableExport::exportVariable(os, bc); VH_CHECK(c, os.str() == e, "stream", what << " const object: " << os.str() << " expected " << e); }
    { auto cp(b); std::ostringstream os; VariableExport::exportVariable(os, std::make_pair(7, cp)); VH_CHECK(c, os.str() == "{ 7: " + e + "}", "stream", what << " in a pair: " << os.str() << " expected " << e); }
    { std::ostringstream os; VariableExport::exportVariable(os, o, b.tupTraits); VH_CHECK(c, os.str() == e, "stream", what << " with the tuple of traits: " << os.str() << " expected " << e); }
    { std::vector<O> v(2, o); std::ostringstream os; VariableExport::exportVariable(os, v, b.tupTraits); VH_CHECK(c, os.str() == "[ " + e + ", " + e + " ]", "stream", what << " in a vector: " << os.str() << " expected " << e); }
    { std::string g = stdio([&] { VariableExport::exportVariable(b); }); VH_CHECK(c, g == e, "stdio", what << ": " << g << " expected " << e); }
    { std::string g = stdio([&] { VariableExport::exportVariable(co, bc.tupTraits); }); VH_CHECK(c, g == e, "stdio", what << " with the tuple of traits: " << g << " expected " << e); }
    c.ev("printed", 7);
}
} // namespace b23
using namespace b23;
#define P(O, ...) print<O>(c, #O ": " #__VA_ARGS__, __VA_ARGS__)
#define S(...) select(c, __VA_ARGS__)
