// Random values, equality and user-defined types for the binary serialization monitors (C25-C28).
#ifndef VH_SER_H
#define VH_SER_H
#include "vh.h"
#include <array>
#include <cstring>
#include <deque>
#include <list>
#include <unordered_map>
#include <unordered_set>
#include <valarray>
#include "GTMesh/BinarySerializer/BinarySerializer.h"
#include "GTMesh/NumericStaticArray/Vector.h"
#include "GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h"
#include "GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainerTraits/MeshDataContainerArithmeticTraits.h"

namespace st {
enum Plain { PA, PB = 7, PC = -3 };
enum class Scoped : uint8_t { X = 1, Y = 200 };

struct Flat { double a; int b; char c; };
struct Nested { std::string name; Flat flat; std::vector<Flat> flats; std::map<int, std::string> m; bool flag; };
class Private { // accessed by a reference getter used for reading, too
    std::vector<float> v; long n = 0;
public:
    Private() = default;
    Private(const std::vector<float>& v_, long n_) : v(v_), n(n_) {}
    std::vector<float>& vals() { return v; }
    const std::vector<float>& cvals() const { return v; }
    long& num() { return n; }
    const long& cnum() const { return n; }
};
template<class T, unsigned N> struct Tmpl { T first; std::array<T, N> rest; };
struct Convertible { double x; int y; operator double() const { return x; } explicit operator bool() const { return y != 0; } };
struct Custom { int k; std::string s; }; // BinarySerialize/BinaryDeserialize below
struct CompactS { float f[3]; int i; };  // declared compact: copied bytewise
struct BoundOnly { int id; std::vector<double> v; std::string s; }; // no default traits
struct BoundIn { double keep, drop; };
struct BoundOut { int n; BoundIn in; std::vector<BoundIn> many; std::list<BoundIn> li; std::map<int, BoundIn> m; std::pair<int, BoundIn> p; std::tuple<BoundIn, int> t; std::vector<bool> bits; };
// TNL-like containers
template<class T> struct TArr { // indexable
    std::vector<T> d;
    int getSize() const { return int(d.size()); }
    void setSize(int n) { d.resize(size_t(n)); }
    const T& operator[](int i) const { return d.at(size_t(i)); }
    T& operator[](int i) { return d.at(size_t(i)); }
};
template<class T> struct TComp : TArr<T> { // compact
    const T* getData() const { return this->d.data(); }
    T* getData() { return this->d.data(); }
};
inline void BinarySerialize(BinarySerializer::ByteContainer& d, const Custom& c) {
    BinarySerializer::addNext(d, c.s); BinarySerializer::addNext(d, short(-c.k)); BinarySerializer::addNext(d, c.k);
}
inline void BinaryDeserialize(BinarySerializer::ByteContainerIterator& it, Custom& c) {
    BinarySerializer::readNext(it, c.s); short k = BinarySerializer::readNext<short>(it); BinarySerializer::readNext(it, c.k);
    if (short(-c.k) != k) throw std::runtime_error("custom");
}
} // namespace st
MAKE_ATTRIBUTE_TRAIT(st::Flat, a, b, c);
MAKE_ATTRIBUTE_TRAIT(st::Nested, name, flat, flats, m, flag);
MAKE_CUSTOM_TRAIT(st::Private, "vals", std::make_pair(&st::Private::cvals, &st::Private::vals), "num", std::make_pair(&st::Private::cnum, &st::Private::num));
MAKE_ATTRIBUTE_TEMPLATE_TRAIT((st::Tmpl<T, N>), (typename T, unsigned N), first, rest);
MAKE_ATTRIBUTE_TRAIT_ARITHMETIC(st::Convertible, x, y);
MAKE_ATTRIBUTE_TRAIT(st::BoundIn, keep, drop);
MAKE_ATTRIBUTE_TRAIT(st::BoundOut, n, in, many, li, m, p, t, bits);
namespace Interface { template<> struct Compact<st::CompactS, void> : public std::true_type {}; }

namespace ser {
using vh::Rng;
// ---------- equality
template<class T> bool eqf(T a, T b) { return std::isnan(a) ? std::isnan(b) : (a == b && std::signbit(a) == std::signbit(b)); }
inline bool eq(double a, double b) { return !std::memcmp(&a, &b, sizeof a); }
inline bool eq(float a, float b) { return !std::memcmp(&a, &b, sizeof a); }
inline bool eq(long double a, long double b) { return eqf(a, b); }
template<class T> typename std::enable_if<std::is_integral<T>::value || std::is_enum<T>::value, bool>::type eq(const T& a, const T& b) { return a == b; }
inline bool eq(const st::Flat& a, const st::Flat& b) { return eq(a.a, b.a) && a.b == b.b && a.c == b.c; }
inline bool eq(const st::Convertible& a, const st::Convertible& b) { return eq(a.x, b.x) && a.y == b.y; }
inline bool eq(const st::Custom& a, const st::Custom& b) { return a.k == b.k && a.s == b.s; }
inline bool eq(const st::CompactS& a, const st::CompactS& b) { return eq(a.f[0], b.f[0]) && eq(a.f[1], b.f[1]) && eq(a.f[2], b.f[2]) && a.i == b.i; }
template<class C> auto eq(const C& a, const C& b) -> typename std::enable_if<IsIterable<C>::value, bool>::type;
template<class A, class B> bool eq(const std::pair<A, B>& a, const std::pair<A, B>& b);
template<class... T> bool eq(const std::tuple<T...>& a, const std::tuple<T...>& b);
template<class T> bool eq(const std::valarray<T>& a, const std::valarray<T>& b);
template<class T> bool eq(const st::TArr<T>& a, const st::TArr<T>& b);
template<class T> bool eq(const st::TComp<T>& a, const st::TComp<T>& b);
template<class T, unsigned N> bool eq(const st::Tmpl<T, N>& a, const st::Tmpl<T, N>& b);
template<class A, unsigned... D> bool eq(const MeshDataContainer<A, D...>& a, const MeshDataContainer<A, D...>& b);
inline bool eq(const st::Nested& a, const st::Nested& b);
inline bool eq(const st::Private& a, const st::Private& b);
template<class K, class V> bool eq(const std::unordered_map<K, V>& a, const std::unordered_map<K, V>& b) {
    if (a.size() != b.size()) return false;
    for (auto& p : a) { auto i = b.find(p.first); if (i == b.end() || !eq(p.second, i->second)) return false; }
    return true;
}
template<class K> bool eq(const std::unordered_set<K>& a, const std::unordered_set<K>& b) { return a == b; }
template<class C> auto eq(const C& a, const C& b) -> typename std::enable_if<IsIterable<C>::value, bool>::type {
    if (a.size() != b.size()) return false;
    auto j = b.begin();
    for (auto i = a.begin(); i != a.end(); ++i, ++j) { const auto& x = *i; const auto& y = *j; if (!eq(x, y)) return false; }
    return true;
}
template<class A, class B> bool eq(const std::pair<A, B>& a, const std::pair<A, B>& b) { return eq(a.first, b.first) && eq(a.second, b.second); }
template<class T, size_t I> struct TupEq { static bool f(const T& a, const T& b) { return eq(std::get<I - 1>(a), std::get<I - 1>(b)) && TupEq<T, I - 1>::f(a, b); } };
template<class T> struct TupEq<T, 0> { static bool f(const T&, const T&) { return true; } };
template<class... T> bool eq(const std::tuple<T...>& a, const std::tuple<T...>& b) { return TupEq<std::tuple<T...>, sizeof...(T)>::f(a, b); }
template<class T> bool eq(const std::valarray<T>& a, const std::valarray<T>& b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++) if (!eq(a[i], b[i])) return false;
    return true;
}
template<class T> bool eq(const st::TArr<T>& a, const st::TArr<T>& b) { return eq(a.d, b.d); }
template<class T> bool eq(const st::TComp<T>& a, const st::TComp<T>& b) { return eq(a.d, b.d); }
template<class T, unsigned N> bool eq(const st::Tmpl<T, N>& a, const st::Tmpl<T, N>& b) { return eq(a.first, b.first) && eq(a.rest, b.rest); }
template<class M, unsigned I> struct MdcEq { static bool f(const M& a, const M& b) { return eq(a.template getDataByPos<I - 1>(), b.template getDataByPos<I - 1>()) && MdcEq<M, I - 1>::f(a, b); } };
template<class M> struct MdcEq<M, 0> { static bool f(const M&, const M&) { return true; } };
template<class A, unsigned... D> bool eq(const MeshDataContainer<A, D...>& a, const MeshDataContainer<A, D...>& b) { return MdcEq<MeshDataContainer<A, D...>, sizeof...(D)>::f(a, b); }
inline bool eq(const st::Nested& a, const st::Nested& b) { return a.name == b.name && eq(a.flat, b.flat) && eq(a.flats, b.flats) && eq(a.m, b.m) && a.flag == b.flag; }
inline bool eq(const st::Private& a, const st::Private& b) { return eq(a.cvals(), b.cvals()) && a.cnum() == b.cnum(); }

// ---------- random values
static size_t len(Rng& r) { switch (r.below(8)) { case 0: return 0; case 1: return 1; case 2: return r.below(60); default: return r.below(6); } }
template<class T, class = void> struct G;
template<class T> struct G<T, typename std::enable_if<std::is_floating_point<T>::value>::type> {
    static T make(Rng& r) {
        switch (r.below(10)) {
        case 0: return T(0); case 1: return -T(0);
        case 2: return std::numeric_limits<T>::infinity(); case 3: return -std::numeric_limits<T>::infinity();
        case 4: return std::numeric_limits<T>::quiet_NaN(); case 5: return std::numeric_limits<T>::denorm_min();
        case 6: return std::numeric_limits<T>::max();
        default: return T(std::ldexp(r.real(-1, 1), int(r.range(-100, 100))));
        }
    }
};
template<> struct G<bool> { static bool make(Rng& r) { return r.chance(0.5); } };
template<class T> struct G<T, typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value>::type> {
    static T make(Rng& r) { return r.chance(0.2) ? std::numeric_limits<T>::max() : r.chance(0.2) ? std::numeric_limits<T>::min() : T(r.chance(0.5) ? r.u64() : r.below(9)); }
};
template<> struct G<st::Plain> { static st::Plain make(Rng& r) { return r.pick(std::vector<st::Plain>{st::PA, st::PB, st::PC}); } };
template<> struct G<st::Scoped> { static st::Scoped make(Rng& r) { return r.chance(0.5) ? st::Scoped::X : st::Scoped::Y; } };
template<class Ch> struct G<std::basic_string<Ch>> { static std::basic_string<Ch> make(Rng& r) { std::basic_string<Ch> s(len(r), Ch()); for (auto& x : s) x = r.chance(0.1) ? Ch(0) : Ch(r.below(256)); return s; } };
template<class A, class B> struct G<std::pair<A, B>> { static std::pair<A, B> make(Rng& r) { A a = G<A>::make(r); B b = G<B>::make(r); return std::pair<A, B>(a, b); } };
template<class... T> struct G<std::tuple<T...>> { static std::tuple<T...> make(Rng& r) { (void)r; return std::tuple<T...>{G<T>::make(r)...}; } };
template<class T, size_t N> struct G<std::array<T, N>> { static std::array<T, N> make(Rng& r) { std::array<T, N> a; for (auto& x : a) x = G<T>::make(r); return a; } };
template<unsigned N, class T> struct G<Vertex<N, T>> { static Vertex<N, T> make(Rng& r) { Vertex<N, T> a; for (unsigned i = 0; i < N; i++) a[i] = G<T>::make(r); return a; } };
template<class C> struct GSeq { static C make(Rng& r) { C c; size_t n = len(r); for (size_t i = 0; i < n; i++) c.push_back(G<typename C::value_type>::make(r)); return c; } };
template<class T> struct G<std::vector<T>> : GSeq<std::vector<T>> {};
template<class T> struct G<std::deque<T>> : GSeq<std::deque<T>> {};
template<class T> struct G<std::list<T>> : GSeq<std::list<T>> {};
template<class C, class V> struct GIns { static C make(Rng& r) { C c; size_t n = len(r); for (size_t i = 0; i < n; i++) c.insert(G<V>::make(r)); return c; } };
template<class K, class V> struct G<std::map<K, V>> : GIns<std::map<K, V>, std::pair<K, V>> {};
template<class K, class V> struct G<std::multimap<K, V>> : GIns<std::multimap<K, V>, std::pair<K, V>> {};
template<class K, class V> struct G<std::unordered_map<K, V>> : GIns<std::unordered_map<K, V>, std::pair<K, V>> {};
template<class K> struct G<std::set<K>> : GIns<std::set<K>, K> {};
template<class K> struct G<std::multiset<K>> : GIns<std::multiset<K>, K> {};
template<class K> struct G<std::unordered_set<K>> : GIns<std::unordered_set<K>, K> {};
template<class T> struct G<std::valarray<T>> { static std::valarray<T> make(Rng& r) { std::valarray<T> v(len(r)); for (size_t i = 0; i < v.size(); i++) v[i] = G<T>::make(r); return v; } };
template<class T> struct G<st::TArr<T>> { static st::TArr<T> make(Rng& r) { st::TArr<T> a; a.d = G<std::vector<T>>::make(r); return a; } };
template<class T> struct G<st::TComp<T>> { static st::TComp<T> make(Rng& r) { st::TComp<T> a; a.d = G<std::vector<T>>::make(r); return a; } };
template<> struct G<st::Flat> { static st::Flat make(Rng& r) { return {G<double>::make(r), G<int>::make(r), G<char>::make(r)}; } };
template<> struct G<st::Convertible> { static st::Convertible make(Rng& r) { return {G<double>::make(r), G<int>::make(r)}; } };
template<> struct G<st::Custom> { static st::Custom make(Rng& r) { return {int(r.range(-1000, 1000)), G<std::string>::make(r)}; } };
template<> struct G<st::CompactS> { static st::CompactS make(Rng& r) { return {{G<float>::make(r), G<float>::make(r), 1.5f}, G<int>::make(r)}; } };
template<> struct G<st::Nested> { static st::Nested make(Rng& r) { return {G<std::string>::make(r), G<st::Flat>::make(r), G<std::vector<st::Flat>>::make(r), G<std::map<int, std::string>>::make(r), r.chance(0.5)}; } };
template<> struct G<st::Private> { static st::Private make(Rng& r) { return st::Private(G<std::vector<float>>::make(r), G<long>::make(r)); } };
template<class T, unsigned N> struct G<st::Tmpl<T, N>> { static st::Tmpl<T, N> make(Rng& r) { return {G<T>::make(r), G<std::array<T, N>>::make(r)}; } };
template<class M, unsigned I> struct MdcGen { static void f(M& m, Rng& r) { auto& d = m.template getDataByPos<I - 1>(); d.resize(len(r)); for (auto& x : d) x = G<typename std::decay<decltype(x)>::type>::make(r); MdcGen<M, I - 1>::f(m, r); } };
template<class M> struct MdcGen<M, 0> { static void f(M&, Rng&) {} };
template<class A, unsigned... D> struct G<MeshDataContainer<A, D...>> { static MeshDataContainer<A, D...> make(Rng& r) { MeshDataContainer<A, D...> m; MdcGen<MeshDataContainer<A, D...>, sizeof...(D)>::f(m, r); return m; } };

// ---------- the type list, by index
template<class F> void withType(unsigned i, F& f);
#define VH_SER_TYPES(X) X(bool) X(char) X(signed char) X(unsigned char) X(short) X(unsigned short) X(int) X(unsigned) X(long) X(unsigned long long) X(wchar_t) X(char16_t) \
    X(float) X(double) X(long double) X(st::Plain) X(st::Scoped) X(std::string) X(std::wstring) X(std::vector<double>) X(std::vector<char>) X(std::vector<st::Scoped>) \
    X(std::vector<std::string>) X(std::vector<std::vector<int>>) X(VH_T(std::array<int, 5>)) X(VH_T(std::array<std::string, 3>)) X(std::deque<int>) X(std::deque<std::string>) X(std::list<int>) X(std::list<std::vector<short>>) \
    X(VH_T(std::map<std::string, std::vector<double>>)) X(VH_T(std::map<int, std::map<int, bool>>)) X(VH_T(std::multimap<int, std::string>)) X(VH_T(std::unordered_map<int, std::string>)) \
    X(std::set<std::string>) X(std::multiset<int>) X(std::unordered_set<long>) X(VH_T(std::pair<int, std::string>)) X(VH_T(std::tuple<char, double, std::vector<int>, bool>)) X(std::tuple<>) \
    X(std::valarray<double>) X(std::valarray<std::string>) X(VH_T(Vertex<3, double>)) X(VH_T(Vector<4, float>)) X(VH_T(std::vector<Vertex<2, double>>)) X(VH_T(std::vector<std::array<st::Flat, 2>>)) \
    X(st::Flat) X(st::Nested) X(st::Private) X(VH_T(st::Tmpl<double, 3>)) X(VH_T(st::Tmpl<std::string, 2>)) X(st::Convertible) X(std::vector<st::Convertible>) X(st::Custom) X(std::vector<st::Custom>) \
    X(std::vector<st::CompactS>) X(std::vector<st::Flat>) X(VH_T(std::map<std::string, st::Nested>)) X(st::TArr<std::string>) X(st::TArr<st::Flat>) X(st::TComp<double>) X(std::vector<st::TComp<int>>) \
    X(VH_T(MeshDataContainer<double, 2>)) X(VH_T(MeshDataContainer<std::tuple<int, std::string>, 3, 0>)) X(VH_T(MeshDataContainer<st::Flat, 0, 1, 2>)) X(VH_T(std::pair<st::Flat, std::list<st::Nested>>))
#define VH_T(...) __VA_ARGS__
template<class... T> struct Types {};
#define VH_COMMA_TYPE(...) , __VA_ARGS__
struct None {};
typedef Types<None VH_SER_TYPES(VH_COMMA_TYPE)> All;
template<class F, class L> struct Dispatch;
template<class F> struct Dispatch<F, Types<>> { static void run(unsigned, F&) {} };
template<class F, class T, class... R> struct Dispatch<F, Types<T, R...>> { static void run(unsigned i, F& f) { if (i == 0) f.template operator()<T>(); else Dispatch<F, Types<R...>>::run(i - 1, f); } };
template<class L> struct Tail; template<class T, class... R> struct Tail<Types<T, R...>> { typedef Types<R...> type; enum { n = sizeof...(R) }; };
enum { NTYPES = Tail<All>::n };
template<class F> void withType(unsigned i, F& f) { Dispatch<F, typename Tail<All>::type>::run(i, f); }
// types whose element count is allocated node by node before the elements are read (and std::valarray, which libstdc++ leaves
// dangling when an allocation fails)
struct IsNode { bool res = false;
    template<class T> struct Has : std::false_type {};
    template<class T> void operator()() { res = has((T*)nullptr); }
    template<class T> static bool has(T*) { return false; }
    template<class T> static bool has(std::list<T>*) { return true; }
    template<class T> static bool has(std::deque<T>*) { return true; }
    template<class T> static bool has(std::valarray<T>*) { return true; }
    template<class A, class B> static bool has(std::pair<A, B>*) { return has((A*)nullptr) || has((B*)nullptr); }
};
inline std::set<unsigned> nodeBased() { std::set<unsigned> s; for (unsigned i = 0; i < NTYPES; i++) { IsNode f; withType(i, f); if (f.res) s.insert(i); } return s; }
} // namespace ser
#endif
