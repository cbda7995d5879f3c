// C29: exported text of variables against an independent reference.
#include "vh.h"
#include "capture.h"
#include <array>
#include <deque>
#include <forward_list>
#include <list>
#include <memory>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <valarray>
#include <GTMesh/Traits/Traits.h>
#include <GTMesh/NumericStaticArray/Vector.h>
#include <GTMesh/Debug/VariableExport.h>
namespace ve {
enum E { e0, e1, e7 = 7, eneg = -3 };
struct D { double a; int i; };
struct One { std::string s; };
struct Nest { D d; std::vector<D> v; std::string s; std::map<std::string, D> m; std::tuple<int, One> t; bool f; char c; };
struct GS { double v; int k; double get() const { return v; } void set(const double& x) { v = x; } const int& rk() const { return k; } int& rk() { return k; } };
struct Weird { int a; double b; int c; };
struct Split { int io, ar; };
template<class T> struct Tm { T t; std::vector<T> v; };
struct Many { int m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11; };
struct Cus { int q; }; // exported by the user's PrintTo
inline void PrintTo(const Cus& c, std::ostream& o) { o << "<Cus " << c.q << ">"; }
inline void PrintTo(const Cus& c) { printf("<Cus %d>", c.q); }
struct CusV : std::vector<int> {}; // PrintTo precedes the other ways
inline void PrintTo(const CusV& c, std::ostream& o) { o << "CusV" << c.size(); }
inline void PrintTo(const CusV& c) { printf("CusV%zu", c.size()); }
struct Ost { int k; }; // user's operator<<
inline std::ostream& operator<<(std::ostream& o, const Ost& x) { return o << "Ost:" << x.k; }
struct TI : std::vector<int> { int z; }; // traited container: exported as a container
struct Idx { std::vector<double> v; double operator[](size_t i) const { return v[i]; } size_t size() const { return v.size(); } };
struct Tnl { std::vector<std::string> v; const std::string& operator[](int i) const { return v[size_t(i)]; } int getSize() const { return int(v.size()); } };
struct Pod { int x; unsigned char b[4]; }; // nothing known: bytes
} // namespace ve
MAKE_ATTRIBUTE_TRAIT(ve::D, a, i);
MAKE_NAMED_ATTRIBUTE_TRAIT(ve::One, "the \"only\" \\ one", s);
MAKE_ATTRIBUTE_TRAIT(ve::Nest, d, v, s, m, t, f, c);
MAKE_CUSTOM_TRAIT(ve::GS, "val", std::make_pair(&ve::GS::get, &ve::GS::set), "k", std::make_pair(static_cast<const int& (ve::GS::*)() const>(&ve::GS::rk), static_cast<int& (ve::GS::*)()>(&ve::GS::rk)));
MAKE_NAMED_ATTRIBUTE_TRAIT(ve::Weird, "", a, "tab\tnew\nline", b, "\x01\xc3\xa1", c);
MAKE_ATTRIBUTE_TRAIT_ARITHMETIC(ve::Split, ar);
MAKE_ATTRIBUTE_TRAIT_IO(ve::Split, io);
MAKE_ATTRIBUTE_TEMPLATE_TRAIT((ve::Tm<T>), (class T), t, v);
MAKE_ATTRIBUTE_TRAIT(ve::Many, m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11);
MAKE_ATTRIBUTE_TRAIT(ve::TI, z);
namespace ve {
struct Fmt { int prec; };
template<class T> std::string num(const T& v, Fmt f) { std::ostringstream o; o.precision(f.prec); o << v; return o.str(); }
inline std::string quoted(const std::string& s) { std::string r = "\""; for (char c : s) { unsigned char u = (unsigned char)c; if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t"; else if (c == '\r') r += "\\r"; else if (u < 32) { char b[8]; snprintf(b, 8, "\\u%04x", u); r += b; } else r += c; } return r + "\""; }
// ---- reference
template<class T, class = void> struct M;
template<class T> std::string m(const T& t, Fmt f) { return M<T>::s(t, f); }
template<class T> struct M<T, std::enable_if_t<std::is_arithmetic<T>::value>> { static std::string s(const T& v, Fmt f) { return num(v, f); } };
template<> struct M<bool> { static std::string s(bool v, Fmt) { return v ? "true" : "false"; } };
template<> struct M<char> { static std::string s(char v, Fmt) { return quoted(std::string(1, v)); } };
template<> struct M<E> { static std::string s(E v, Fmt f) { return num(int(v), f); } };
template<> struct M<std::string> { static std::string s(const std::string& v, Fmt) { return quoted(v); } };
template<> struct M<const char*> { static std::string s(const char* v, Fmt) { return v ? quoted(v) : "null"; } };
template<> struct M<char*> { static std::string s(const char* v, Fmt) { return v ? quoted(v) : "null"; } };
template<size_t N> struct M<char[N]> { static std::string s(const char (&v)[N], Fmt) { size_t n = 0; while (n < N && v[n]) n++; return quoted(std::string(v, n)); } };
template<class It> std::string seq(It b, It e, Fmt f) { std::string r = "[ "; bool first = true; for (It i = b; i != e; ++i) { if (!first) r += ", "; first = false; r += m(std::decay_t<decltype(*i)>(*i), f); } return r + " ]"; }
#define MSEQ(sig, ...) template<sig> struct M<__VA_ARGS__> { static std::string s(const __VA_ARGS__& v, Fmt f) { return seq(v.begin(), v.end(), f); } };
#define COMMA ,
MSEQ(class T, std::vector<T>) MSEQ(class T, std::list<T>) MSEQ(class T, std::deque<T>) MSEQ(class T, std::set<T>) MSEQ(class T, std::multiset<T>) MSEQ(class T, std::forward_list<T>) MSEQ(class T, std::unordered_set<T>)
MSEQ(class K COMMA class T, std::map<K, T>) MSEQ(class K COMMA class T, std::unordered_map<K, T>) MSEQ(class T COMMA size_t N, std::array<T, N>) MSEQ(, TI)
template<> struct M<std::vector<bool>> { static std::string s(const std::vector<bool>& v, Fmt f) { std::string r = "[ "; for (size_t i = 0; i < v.size(); i++) r += (i ? ", " : "") + std::string(v[i] ? "true" : "false"); return r + " ]"; } };
template<class T> struct M<std::valarray<T>> { static std::string s(const std::valarray<T>& v, Fmt f) { return seq(std::begin(v), std::end(v), f); } };
template<unsigned N, class R> struct M<Vertex<N, R>> { static std::string s(const Vertex<N, R>& v, Fmt f) { std::vector<R> w; for (unsigned i = 0; i < N; i++) w.push_back(v[i]); return m(w, f); } };
template<> struct M<Idx> { static std::string s(const Idx& v, Fmt f) { return m(v.v, f); } };
template<> struct M<Tnl> { static std::string s(const Tnl& v, Fmt f) { return m(v.v, f); } };
template<class A, class B> struct M<std::pair<A, B>> { static std::string s(const std::pair<A, B>& v, Fmt f) { return "{ " + m(static_cast<const std::decay_t<A>&>(v.first), f) + ": " + m(v.second, f) + "}"; } };
template<class Tup, size_t I, size_t N> struct TM { static std::string s(const Tup& t, Fmt f) { return (I ? ", " : "") + m(std::get<I>(t), f) + TM<Tup, I + 1, N>::s(t, f); } };
template<class Tup, size_t N> struct TM<Tup, N, N> { static std::string s(const Tup&, Fmt) { return ""; } };
template<class... T> struct M<std::tuple<T...>> { static std::string s(const std::tuple<T...>& t, Fmt f) { return "[ " + TM<std::tuple<T...>, 0, sizeof...(T)>::s(t, f) + "]"; } };
inline std::string at(const std::string& n, const std::string& v) { return quoted(n) + " : " + v; }
#define MCLS(T, ...) template<> struct M<T> { static std::string s(const T& o, Fmt f) { std::vector<std::string> p{__VA_ARGS__}; std::string r = "{ "; for (size_t i = 0; i < p.size(); i++) r += (i ? ", " : "") + p[i]; return r + " }"; } };
#define A(n) at(#n, m(o.n, f))
MCLS(D, A(a), A(i)) MCLS(One, at("the \"only\" \\ one", m(o.s, f))) MCLS(Nest, A(d), A(v), A(s), A(m), A(t), A(f), A(c)) MCLS(GS, at("val", m(o.v, f)), A(k)) MCLS(Weird, at("", m(o.a, f)), at("tab\tnew\nline", m(o.b, f)), at("\x01\xc3\xa1", m(o.c, f))) MCLS(Split, A(io))
MCLS(Tm<int>, A(t), A(v)) MCLS(Tm<std::string>, A(t), A(v)) MCLS(Tm<Tm<int>>, A(t), A(v)) MCLS(Many, A(m0), A(m1), A(m2), A(m3), A(m4), A(m5), A(m6), A(m7), A(m8), A(m9), A(m10), A(m11))
#undef A
template<> struct M<Cus> { static std::string s(const Cus& c, Fmt f) { return "<Cus " + vh::str(c.q) + ">"; } };
template<> struct M<CusV> { static std::string s(const CusV& c, Fmt f) { return "CusV" + vh::str(c.size()); } };
template<> struct M<Ost> { static std::string s(const Ost& c, Fmt f) { return "Ost:" + vh::str(c.k); } };
template<class T> struct M<T*, std::enable_if_t<!std::is_same<std::remove_cv_t<T>, char>::value>> { static std::string s(T* p, Fmt f) { std::ostringstream o; o << (const void*)p; return o.str(); } };
template<class T> struct M<std::shared_ptr<T>> { static std::string s(const std::shared_ptr<T>& p, Fmt f) { std::ostringstream o; o << (const void*)p.get(); return o.str(); } };
template<> struct M<Pod> { static std::string s(const Pod& p, Fmt f) { std::string r = std::string(typeid(Pod).name()) + "("; const unsigned char* b = (const unsigned char*)&p; for (size_t i = 0; i < sizeof(Pod); i++) { char x[4]; snprintf(x, 4, "%02x", b[i]); r += (i ? " " : "") + std::string(x); } return r + ")"; } };
// ---- random values
template<class T> std::enable_if_t<std::is_integral<T>::value> g(vh::Rng& r, T& v) { v = r.chance(0.15) ? std::numeric_limits<T>::max() : r.chance(0.15) ? std::numeric_limits<T>::min() : r.chance(0.3) ? T(r.u64()) : T(r.below(100)); }
inline void g(vh::Rng& r, bool& v) { v = r.chance(0.5); }
#ifdef VH_VALGRIND // valgrind computes long double as double
#define VH_MAX(T) (sizeof(T) > 8 ? T(std::numeric_limits<float>::max()) : std::numeric_limits<T>::max())
#else
#define VH_MAX(T) std::numeric_limits<T>::max()
#endif
template<class T> std::enable_if_t<std::is_floating_point<T>::value> g(vh::Rng& r, T& v) { switch (r.below(7)) { case 0: v = T(r.range(-9, 9)); break; case 1: v = T(std::ldexp(r.real(-1, 1), int(r.range(-100, 100)))); break; case 2: v = r.chance(0.5) ? std::numeric_limits<T>::infinity() : VH_MAX(T); break; case 3: v = T(-0.0); break; default: v = T(r.real(-1000, 1000)); } }
inline void g(vh::Rng& r, std::string& s) { s.clear(); for (size_t n = r.below(8); n > 0; n--) s += r.chance(0.3) ? "\"\\\n\t\r\x01\x1f'/{}[],:% \x7f"[r.below(19)] : r.chance(0.03) ? '\0' : r.chance(0.1) ? char(128 + r.below(128)) : char(32 + r.below(95)); }
inline void g(vh::Rng& r, E& e) { static const E v[] = {e0, e1, e7, eneg}; e = v[r.below(4)]; }
template<class T> void g(vh::Rng& r, T*& p) { static std::remove_const_t<T> pool[3]; p = r.chance(0.2) ? nullptr : pool + r.below(3); }
inline void g(vh::Rng& r, const char*& p) { static std::string keep[16]; static int k = 0; std::string& s = keep[k++ % 16]; g(r, s); p = r.chance(0.1) ? nullptr : s.c_str(); }
inline void g(vh::Rng& r, char*& p) { const char* q; g(r, q); p = const_cast<char*>(q); }
template<class T> void g(vh::Rng& r, std::shared_ptr<T>& p) { if (r.chance(0.7)) { p = std::make_shared<T>(); } }
template<size_t N> void g(vh::Rng& r, char (&a)[N]) { std::string s; g(r, s); size_t n = r.chance(0.2) ? N : r.below(N); for (size_t i = 0; i < N; i++) a[i] = i < n ? (i < s.size() ? s[i] : 'x') : '\0'; }
template<class T> void g(vh::Rng& r, std::valarray<T>& v); inline void g(vh::Rng& r, std::vector<bool>& v); template<class T> void g(vh::Rng& r, std::set<T>& v); template<class T> void g(vh::Rng& r, std::multiset<T>& v); template<class T> void g(vh::Rng& r, std::unordered_set<T>& v); template<class K, class T> void g(vh::Rng& r, std::unordered_map<K, T>& v); template<unsigned N, class R> void g(vh::Rng& r, Vertex<N, R>& v); inline void g(vh::Rng& r, D& o); inline void g(vh::Rng& r, Cus& o); inline void g(vh::Rng& r, Pod& o); inline void g(vh::Rng& r, Nest& o); inline void g(vh::Rng& r, Idx& o);
template<class A, class B> void g(vh::Rng& r, std::pair<A, B>& p);
template<class... T> void g(vh::Rng& r, std::tuple<T...>& p);
template<class T> void g(vh::Rng& r, std::vector<T>& v); template<class T> void g(vh::Rng& r, std::list<T>& v); template<class T> void g(vh::Rng& r, std::deque<T>& v); template<class T> void g(vh::Rng& r, std::forward_list<T>& v); template<class T, size_t N> void g(vh::Rng& r, std::array<T, N>& v); template<class K, class T> void g(vh::Rng& r, std::map<K, T>& v);
template<class T> void gl(vh::Rng& r, T& v) { v.resize(r.below(5)); for (auto& x : v) g(r, x); }
inline void g(vh::Rng& r, D& o) { g(r, o.a); g(r, o.i); } inline void g(vh::Rng& r, One& o) { g(r, o.s); } inline void g(vh::Rng& r, GS& o) { g(r, o.v); g(r, o.k); } inline void g(vh::Rng& r, Weird& o) { g(r, o.a); g(r, o.b); g(r, o.c); } inline void g(vh::Rng& r, Split& o) { g(r, o.io); g(r, o.ar); }
inline void g(vh::Rng& r, Many& o) { int* p = &o.m0; for (int i = 0; i < 12; i++) g(r, p[i]); } inline void g(vh::Rng& r, Cus& o) { g(r, o.q); } inline void g(vh::Rng& r, Ost& o) { g(r, o.k); } inline void g(vh::Rng& r, Pod& o) { g(r, o.x); for (auto& b : o.b) g(r, b); }
inline void g(vh::Rng& r, Nest& o); template<class T> void g(vh::Rng& r, Tm<T>& o); inline void g(vh::Rng& r, TI& o); inline void g(vh::Rng& r, CusV& o); inline void g(vh::Rng& r, Idx& o); inline void g(vh::Rng& r, Tnl& o);
template<unsigned N, class R> void g(vh::Rng& r, Vertex<N, R>& v) { for (unsigned i = 0; i < N; i++) g(r, v[i]); }
template<class T> void g(vh::Rng& r, std::vector<T>& v) { gl(r, v); } inline void g(vh::Rng& r, std::vector<bool>& v) { v.resize(r.below(9)); for (size_t i = 0; i < v.size(); i++) v[i] = r.chance(0.5); }
template<class T> void g(vh::Rng& r, std::list<T>& v) { gl(r, v); } template<class T> void g(vh::Rng& r, std::deque<T>& v) { gl(r, v); } template<class T> void g(vh::Rng& r, std::forward_list<T>& v) { gl(r, v); }
template<class T> void g(vh::Rng& r, std::valarray<T>& v) { v.resize(r.below(5)); for (auto& x : v) g(r, x); }
template<class T, size_t N> void g(vh::Rng& r, std::array<T, N>& v) { for (auto& x : v) g(r, x); }
template<class C> void gi(vh::Rng& r, C& s) { s.clear(); for (size_t n = r.below(5); n > 0; n--) { typename C::value_type x; g(r, x); s.insert(x); } }
template<class T> void g(vh::Rng& r, std::set<T>& v) { gi(r, v); } template<class T> void g(vh::Rng& r, std::multiset<T>& v) { gi(r, v); } template<class T> void g(vh::Rng& r, std::unordered_set<T>& v) { gi(r, v); }
template<class C> void gm(vh::Rng& r, C& s) { s.clear(); for (size_t n = r.below(4); n > 0; n--) { typename C::key_type k; g(r, k); g(r, s[k]); } }
template<class K, class T> void g(vh::Rng& r, std::map<K, T>& v) { gm(r, v); } template<class K, class T> void g(vh::Rng& r, std::unordered_map<K, T>& v) { gm(r, v); }
template<class A, class B> void g(vh::Rng& r, std::pair<A, B>& p) { g(r, p.first); g(r, p.second); }
template<size_t I, class Tup> std::enable_if_t<I == std::tuple_size<Tup>::value> gt(vh::Rng&, Tup&) {}
template<size_t I, class Tup> std::enable_if_t<(I < std::tuple_size<Tup>::value)> gt(vh::Rng& r, Tup& t) { g(r, std::get<I>(t)); gt<I + 1>(r, t); }
template<class... T> void g(vh::Rng& r, std::tuple<T...>& p) { gt<0>(r, p); }
inline void g(vh::Rng& r, Nest& o) { g(r, o.d); g(r, o.v); g(r, o.s); g(r, o.m); g(r, o.t); g(r, o.f); g(r, o.c); }
template<class T> void g(vh::Rng& r, Tm<T>& o) { g(r, o.t); g(r, o.v); }
inline void g(vh::Rng& r, TI& o) { gl(r, static_cast<std::vector<int>&>(o)); g(r, o.z); } inline void g(vh::Rng& r, CusV& o) { gl(r, static_cast<std::vector<int>&>(o)); } inline void g(vh::Rng& r, Idx& o) { gl(r, o.v); } inline void g(vh::Rng& r, Tnl& o) { gl(r, o.v); }

template<bool stdio> struct Std { template<class T> static void go(vh::Case& c, const T& v, const char* name) { Capture cap(1); VariableExport::exportVariable(v); std::string g = cap.stop(), e = m(v, Fmt{6}); VH_CHECK(c, g == e, "stdio", name << " exported as " << g << " expected " << e); c.ev("stdio"); } };
template<> struct Std<false> { template<class T> static void go(vh::Case&, const T&, const char*) {} };
template<class T, bool stdio = true> void run(vh::Case& c, const char* name) {
    static const int precs[] = {6, 6, 3, 12, 17, 1};
    T v{}; g(c.rng, v); const T& cv = v;
    Fmt f{precs[c.rng.below(6)]}; std::string e = m(cv, f);
    c.desc(std::string(name) + " " + e); c.distinct(vh::hashStr(e + name));
    std::ostringstream o; o.precision(f.prec); bool odd = c.rng.chance(0.2); if (odd) o.fill('*');
    auto fl = o.flags(); char fill = o.fill();
    VariableExport::exportVariable(o, cv);
    VH_CHECK(c, o.str() == e, "stream", name << " exported as " << o.str() << " expected " << e);
    VH_CHECK(c, o.good() && o.flags() == fl && o.fill() == fill && o.precision() == f.prec && o.width() == 0, "state", name << ": the stream is left in another state");
    o << " " << 10 << 255; VariableExport::exportVariable(o, v); // appends, also for a non-const object
    VH_CHECK(c, o.str() == e + " 10255" + e, "append", name << " exported twice as " << o.str() << " expected " << e + " 10255" + e);
    { std::ostringstream o2; o2.precision(f.prec); VariableExport::exportVariable(o2, cv, std::tuple<>()); VH_CHECK(c, o2.str() == e, "tuple", name << " exported with no traits as " << o2.str() << " expected " << e); }
    Std<stdio>::go(c, cv, name);
    c.ev("stream", 3);
}
} // namespace ve
using namespace ve;
#define R(...) run<__VA_ARGS__>(c, #__VA_ARGS__)
#define RS(...) run<__VA_ARGS__, false>(c, #__VA_ARGS__)
