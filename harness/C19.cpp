#include "C19.h"
#include "GTMesh/Macros/MacroForEach.h"
#include "GTMesh/Utils/ConstexprFor.h"
#include "GTMesh/Utils/ClassSelector.h"
#include "GTMesh/Traits/FunctionTraits.h"
#include "GTMesh/Traits/CustomTypeTraits.h"
#include "GTMesh/UnstructuredMesh/MeshFunctions/MeshFunctionsDefine.h"
#include "GTMesh/NumericStaticArray/Vector.h"
#include <array>
#include <list>
#include <valarray>
#include <memory>
namespace {
std::vector<const long*> g_log; std::vector<long> g_stat;
struct Log {
    std::vector<size_t> idx; std::vector<const long*> ptr;
    Log() { g_log.clear(); g_stat.clear(); }
    void check(vh::Case& c, const char* w, int n, const long* v, const long* r, size_t k, std::vector<int> want) {
        bool ok = k == want.size() && g_log.size() == k; for (size_t i = 0; ok && i < k; i++) ok = r[i] == 2 * v[want[i]] + 1 && g_log[i] == v + want[i];
        VH_CHECK(c, ok, "foreach", w << " of " << n << " arguments visited " << g_log.size() << " of " << want.size() << " or not in order"); c.ev("iterations"); c.ev("arguments", k); c.distinct(vh::hashBytes(r, k * sizeof(long), vh::hashStr(w)));
    }
    void check2(vh::Case& c, const char* w, int n, const long* v, const long* r, size_t k, long stat) {
        bool ok = k == size_t(n) / 2 && g_log.size() == size_t(n) && (stat < 0 || g_stat.size() == k);
        for (size_t i = 0; ok && i < k; i++) ok = r[i] == 3 * v[2 * i] - v[2 * i + 1] + (stat < 0 ? 0 : 1000003 * stat) && g_log[2 * i] == v + 2 * i && g_log[2 * i + 1] == v + 2 * i + 1 && (stat < 0 || g_stat[i] == stat);
        VH_CHECK(c, ok, "foreach", w << " of " << n << " arguments"); c.ev("iterations"); c.ev("arguments", n); c.distinct(vh::hashBytes(r, k * sizeof(long), vh::hashStr(w)));
    }
    void loop(vh::Case& c, const char* w, const long* v, std::vector<size_t> want) {
        VH_CHECK(c, idx == want, "loop", w << " visited " << vh::strv(idx) << " expected " << vh::strv(want));
        for (auto* p : ptr) VH_CHECK(c, p == v, "loop", w << " argument");
        c.ev("loops");
    }
};
long f1(const long& x) { g_log.push_back(&x); return 2 * x + 1; }
long f2(const long& x, const long& y) { g_log.push_back(&x); g_log.push_back(&y); return 3 * x - y; }
long f3(long s, const long& x, const long& y) { g_stat.push_back(s); g_log.push_back(&x); g_log.push_back(&y); return 3 * x - y + 1000003 * s; }
std::vector<int> all(int n) { std::vector<int> r; for (int i = 0; i < n; i++) r.push_back(i); return r; }
std::vector<int> sel(int n, int from) { std::vector<int> r; for (int i = from; i < n; i += 2) r.push_back(i); return r; }
int narg(const char* s) { return std::atoi(s); }
#define F1(x) f1(x)
#define F2(x, y) f2(x, y)
#define F3(s, x, y) f3(s, x, y)
#define STR_(...) #__VA_ARGS__
#define STR(...) STR_(__VA_ARGS__)
struct Visit { template<size_t I> static void exec(Log& l, const long* const& v) { l.idx.push_back(I); l.ptr.push_back(v); } };
template<int> struct Var {}; template<int I, unsigned M> struct Cand { static constexpr int id = I; static constexpr unsigned mask = M; };
template<class V, class C> struct Fits; template<int B, int I, unsigned M> struct Fits<Var<B>, Cand<I, M>> : std::integral_constant<bool, (M >> B & 1)> {};
struct Rec { int a; };
template<class F, class... E, size_t... I> bool args(std::index_sequence<I...>) { bool ok = true; (void)std::initializer_list<int>{ (ok = ok && std::is_same<typename function_traits<F>::template argument<I>::type, E>::value && std::is_same<typename function_traits<F>::template argument_t<I>, E>::value, 0)... }; return ok; }
template<class F, class R, class... E> void sig(vh::Case& c) {
    VH_CHECK(c, (function_traits<F>::arity == sizeof...(E)) && (std::is_same<typename function_traits<F>::return_type, R>::value) && (args<F, E...>(std::make_index_sequence<sizeof...(E)>())), "signature", __PRETTY_FUNCTION__); c.ev("signatures");
}
#include "C19_gen0.h"
}
VH_SECTION(foreach, 400, 40000) {
    long v[41]; for (long& x : v) x = c.rng.range(0, 1000000000); eaches[c.index % 40](c, v);
}
VH_SECTION(comptime, 20, 1000) { long v[41]; for (long& x : v) x = c.rng.range(0, 1000); sequences(c); loops(c, v); selects(c); signatures(c); c.distinct(c.rng.u64()); }
// what a type is able to do
namespace {
struct Tnl { int operator[](int) const { return 0; } int getSize() const { return 0; } void setSize(int) {} };
struct TnlC { int operator[](int) const { return 0; } int getSize() const { return 0; } };
struct NC { int* begin() { return nullptr; } int* end() { return nullptr; } int& operator[](int); size_t size(); };
struct Half { const int* begin() const { return nullptr; } size_t size() const { return 0; } };
struct Out {}; std::ostream& operator<<(std::ostream& o, const Out&) { return o; }
struct Non {};
template<class T> void is(vh::Case& c, const char* w, bool ex, bool it, bool in, bool rs, bool ti, bool tr, bool ts) {
    VH_CHECK(c, IsExportable<T>::value == ex && IsIterable<T>::value == it && IsIndexable<T>::value == in && IsResizable<T>::value == rs && IsTNLIndexable<T>::value == ti && IsTNLResizable<T>::value == tr && IsTraits<T>::value == ts, "ability", w << " " << IsExportable<T>::value << IsIterable<T>::value << IsIndexable<T>::value << IsResizable<T>::value << IsTNLIndexable<T>::value << IsTNLResizable<T>::value << IsTraits<T>::value); c.ev("abilities");
}
#define IS(T, ...) is<T>(c, #T, __VA_ARGS__)
typedef std::map<int, int> MapT; typedef std::array<double, 3> ArrT; typedef Vector<3, double> VecT; typedef Traits<Rec, int Rec::*> TrT; typedef std::pair<int, int> PairT;
}
VH_SECTION(abilities, 1, 20) {
    //                          export iter index resize tnlI tnlR traits
    IS(int, 1, 0, 0, 0, 0, 0, 0); IS(std::string, 1, 1, 1, 1, 0, 0, 0); IS(char*, 1, 0, 0, 0, 0, 0, 0); IS(std::vector<int>, 0, 1, 1, 1, 0, 0, 0); IS(std::vector<Non>, 0, 1, 1, 1, 0, 0, 0);
    IS(std::list<int>, 0, 1, 0, 1, 0, 0, 0); IS(MapT, 0, 1, 0, 0, 0, 0, 0); IS(std::set<int>, 0, 1, 0, 0, 0, 0, 0); IS(ArrT, 0, 1, 1, 0, 0, 0, 0); IS(std::valarray<int>, 0, 0, 1, 1, 0, 0, 0);
    IS(PairT, 0, 0, 0, 0, 0, 0, 0); IS(Tnl, 0, 0, 0, 0, 1, 1, 0); IS(TnlC, 0, 0, 0, 0, 1, 0, 0); IS(NC, 0, 0, 0, 0, 0, 0, 0); IS(Half, 0, 0, 0, 0, 0, 0, 0); IS(Out, 1, 0, 0, 0, 0, 0, 0); IS(Non, 0, 0, 0, 0, 0, 0, 0); IS(std::unique_ptr<Non>, 0, 0, 0, 0, 0, 0, 0);
    VH_CHECK(c, IsTraits<TrT>::value && !IsIterable<TrT>::value && !IsExportable<TrT>::value, "ability", "traits");
    VH_CHECK(c, IsIndexable<VecT>::value && !IsResizable<VecT>::value && !IsTraits<VecT>::value, "ability", "vector");
    c.distinct(c.rng.u64());
}
