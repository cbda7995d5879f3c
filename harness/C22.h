// C22: class traits: every access form reads and writes exactly the described member.
#ifndef C22_H
#define C22_H
#include "vh.h"
#include <array>
#include <deque>
#include <functional>
#include <list>
#include <memory>
#include "GTMesh/NumericStaticArray/Vector.h"
#include "GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainerTraits/MeshDataContainerArithmeticTraits.h"
#include "GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainerTraits/MeshDataContainerIOTraits.h"
#include "GTMesh/Traits/Traits.h"

// ---------------------------------------------------------------- accessors
template<class V> struct Obj { // guard values around the member under test
    int g0 = 11; V x{}; std::string g1 = "guard"; V y{}; double g2 = 0.5; V w{}; int g3 = 13; mutable long gets = 0; long sets = 0;
    V getX() const { gets++; return x; }
    V getXn() { gets++; return x; }
    const V& crefX() const { gets++; return x; }
    V& refX() { sets++; return x; }
    void setX(V v) { sets++; x = v; }
    void setXr(const V& v) { sets++; x = v; }
    // a second attribute described by accessors of the same types
    V getW() const { gets++; return w; }
    V getWn() { gets++; return w; }
    const V& crefW() const { gets++; return w; }
    V& refW() { sets++; return w; }
    void setW(V v) { sets++; w = v; }
    void setWr(const V& v) { sets++; w = v; }
};
template<class V> V fget(const Obj<V>& o) { o.gets++; return o.x; }
template<class V> V wget(const Obj<V>& o) { o.gets++; return o.w; }
template<class V> V fgetn(Obj<V>& o) { o.gets++; return o.x; }
template<class V> V wgetn(Obj<V>& o) { o.gets++; return o.w; }
template<class V> const V& fcref(const Obj<V>& o) { o.gets++; return o.x; }
template<class V> const V& wcref(const Obj<V>& o) { o.gets++; return o.w; }
template<class V> V& fref(Obj<V>& o) { o.sets++; return o.x; }
template<class V> V& wref(Obj<V>& o) { o.sets++; return o.w; }
template<class V> void fset(Obj<V>& o, V v) { o.sets++; o.x = v; }
template<class V> void wset(Obj<V>& o, V v) { o.sets++; o.w = v; }
template<class V> void fsetr(Obj<V>& o, const V& v) { o.sets++; o.x = v; }
template<class V> void wsetr(Obj<V>& o, const V& v) { o.sets++; o.w = v; }
template<class V> struct FunGet { V operator()(const Obj<V>& o) const { o.gets++; return o.x; } };
template<class V> struct WunGet { V operator()(const Obj<V>& o) const { o.gets++; return o.w; } };
template<class V> struct FunSet { void operator()(Obj<V>& o, const V& v) const { o.sets++; o.x = v; } };
template<class V> struct WunSet { void operator()(Obj<V>& o, const V& v) const { o.sets++; o.w = v; } };
template<class V> struct FunRef { V& operator()(Obj<V>& o) const { o.sets++; return o.x; } };
template<class V> struct WunRef { V& operator()(Obj<V>& o) const { o.sets++; return o.w; } };

static void rnd(vh::Rng& r, double& v) { v = r.chance(0.2) ? 0.0 : r.real(-1e6, 1e6); }
static void rnd(vh::Rng& r, int& v) { v = int(r.u64()); }
static void rnd(vh::Rng& r, char& v) { v = char(r.u64()); }
static void rnd(vh::Rng& r, bool& v) { v = r.chance(0.5); }
static void rnd(vh::Rng& r, unsigned long& v) { v = r.u64(); }
static void rnd(vh::Rng& r, std::string& v) { v = r.str(40, std::string("abc\0\"\\ ", 7)); }
static void rnd(vh::Rng& r, std::vector<int>& v) { v.resize(r.below(20)); for (auto& x : v) rnd(r, x); }
static void rnd(vh::Rng& r, Vector<3, double>& v) { for (unsigned i = 0; i < 3; i++) v[i] = r.real(-9, 9); }
static void rnd(vh::Rng& r, std::shared_ptr<int>& v) { v = r.chance(0.2) ? nullptr : std::make_shared<int>(int(r.u64())); }

// V: member type, D: direct (getAttr), K: constant access, P: pointer overload of setValue/getAttr
template<class V, bool K, bool P, class T> void access(vh::Case& c, const T& t) {
    typedef Obj<V> O;
    static_assert(std::is_same<typename T::template type<1>, V>::value, "value type of the attribute");
    static_assert(std::is_same<typename T::template type<3>, V>::value, "value type of the attribute"); static_assert(T::size() == 4, "number of attributes");
    VH_CHECK(c, std::string(t.template getName<0>()) == "g0" && std::string(t.template getName<1>()) == "the x" && std::string(t.template getName<2>()) == "y" && std::string(t.template getName<3>()) == "w", "name",
             t.template getName<0>() << "," << t.template getName<1>() << "," << t.template getName<2>());
    VH_CHECK(c, HasConstGetAccess<typename T::template memRefType<1>>::value == K && HasConstGetAccess<typename T::template memRefType<3>>::value == K, "const-access", "reported const access");
    std::vector<O> o(1 + c.rng.below(4));
    std::deque<V> m(o.size()), my(o.size()), mw(o.size()); std::vector<int> mg(o.size());
    for (size_t i = 0; i < o.size(); i++) { rnd(c.rng, m[i]); o[i].x = m[i]; rnd(c.rng, my[i]); o[i].y = my[i]; rnd(c.rng, mw[i]); o[i].w = mw[i]; mg[i] = o[i].g0; }
    T copy(t); T moved(T(static_cast<const T&>(t)));
    long n = 5 + long(c.rng.below(25));
    for (long k = 0; k < n; k++) {
        size_t j = c.rng.below(o.size());
        const T& u = k % 3 == 0 ? t : k % 3 == 1 ? copy : moved;
        V v; rnd(c.rng, v);
        auto one = [&](auto I, V O::*x, std::deque<V>& mm) {
        constexpr unsigned A = decltype(I)::value;
        switch (c.rng.below(8)) {
        case 0: case 1: u.template setValue<A>(o[j], v); mm[j] = v; c.ev("set"); break;
        case 2: if constexpr (P) { u.template setValue<A>(&o[j], v); mm[j] = v; c.ev("set"); } break;
        case 3: u.template getReference<A>().setValue(o[j], v); mm[j] = v; c.ev("set"); break;
        case 4: if constexpr (IsDirectAccess<typename T::template memRefType<A>>::value) {
                V& r = u.template getAttr<A>(o[j]); VH_CHECK(c, &r == &(o[j].*x), "address", "getAttr refers to another object"); r = v; mm[j] = v; c.ev("ref"); } break;
        case 5: if constexpr (IsDirectAccess<typename T::template memRefType<A>>::value && P) {
                V& r = u.template getAttr<A>(&o[j]); VH_CHECK(c, &r == &(o[j].*x), "address", "getAttr(pointer) refers to another object"); r = v; mm[j] = v; c.ev("ref"); } break;
        case 6: { size_t q = c.rng.below(o.size()); u.template setValue<A>(o[j], o[q].*x); V tmp = mm[q]; mm[j] = tmp; c.ev("set"); break; } // aliasing, self assignment
        default: u.template getReference<A>().setValue(o[j], u.template getValue<2>(o[j])); mm[j] = my[j]; c.ev("set"); break;
        } };
        switch (c.rng.below(10)) {
        case 0: { u.template setValue<2>(o[j], v); my[j] = v; u.template setValue<0>(&o[j], int(k)); mg[j] = int(k); c.ev("set", 2); break; }
        case 1: u.template getAttr<2>(o[j]) = v; my[j] = v; c.ev("ref"); break;
        case 2: case 3: case 4: one(std::integral_constant<unsigned, 3>(), &O::w, mw); break;
        default: one(std::integral_constant<unsigned, 1>(), &O::x, m); break;
        }
        for (size_t i = 0; i < o.size(); i++) {
            VH_CHECK(c, o[i].x == m[i] && o[i].y == my[i] && o[i].g0 == mg[i] && o[i].w == mw[i] && o[i].g1 == "guard" && o[i].g2 == 0.5 && o[i].g3 == 13, "write", "object " << i << " after operation " << k);
            VH_CHECK(c, u.template getValue<1>(o[i]) == m[i] && u.template getValue<1>(&o[i]) == m[i] && u.template getReference<1>().getValue(o[i]) == m[i], "read", "object " << i << " after operation " << k);
            VH_CHECK(c, u.template getValue<3>(o[i]) == mw[i] && u.template getValue<3>(&o[i]) == mw[i] && u.template getReference<3>().getValue(o[i]) == mw[i], "read", "second attribute of object " << i << " after operation " << k);
            VH_CHECK(c, u.template getValue<2>(o[i]) == my[i] && u.template getValue<0>(o[i]) == mg[i], "read", "neighbour of object " << i);
            if constexpr (K) {
                const O& co = o[i];
                VH_CHECK(c, u.template getValue<1>(co) == m[i] && u.template getValue<1>(&co) == m[i] && u.template getValue<3>(co) == mw[i], "read", "constant object " << i);
            }
            VH_CHECK(c, o[i].x == m[i] && o[i].w == mw[i] && o[i].y == my[i] && o[i].g0 == mg[i], "read-only", "reading changed object " << i);
            c.ev("get", 5);
        }
    }
    c.distinct(vh::comb(c.rng.u64(), sizeof(T)));
}
#define MK(g, s, g2, s2) makeTraits<Obj<V>>("g0", &Obj<V>::g0, "the x", std::make_pair(g, s), "y", &Obj<V>::y, "w", std::make_pair(g2, s2))
template<class V> void kinds(vh::Case& c, int kind) {
    typedef Obj<V> O;
    using namespace std::placeholders;
    c.desc("accessor kind " + std::to_string(kind));
    long calls = 0;
    // accessors of the same type with different state
    auto lg = [](V O::*p) { return [p](const O& o) { o.gets++; return o.*p; }; };
    auto lgn = [](V O::*p) { return [p](O& o) { o.gets++; return o.*p; }; };
    auto ls = [](V O::*p) { return [p](O& o, V v) { o.sets++; o.*p = v; }; };
    auto lr = [](V O::*p) { return [p](O& o) -> V& { o.sets++; return o.*p; }; };
    auto lgc = [&calls](V O::*p) { return [&calls, p](const O& o) { calls++; return o.*p; }; };
    auto lsc = [&calls](V O::*p) { return [&calls, p](O& o, const V& v) { calls++; o.*p = v; }; };
    V O::*X = &O::x; V O::*W = &O::w;
    // stateless lambdas
    auto sg = [](const O& o) { o.gets++; return o.x; }; auto ss = [](O& o, const V& v) { o.sets++; o.x = v; };
    auto sg2 = [](const O& o) { o.gets++; return o.w; }; auto ss2 = [](O& o, const V& v) { o.sets++; o.w = v; };
    switch (kind) {
    case 0: access<V, true, true>(c, makeTraits<O>("g0", &O::g0, "the x", &O::x, "y", &O::y, "w", &O::w)); break;
    case 1: access<V, true, true>(c, MK(&O::getX, &O::setX, &O::getW, &O::setW)); break;
    case 2: access<V, false, true>(c, MK(&O::getXn, &O::setXr, &O::getWn, &O::setWr)); break;
    case 3: access<V, true, true>(c, MK(&O::getX, &O::refX, &O::getW, &O::refW)); break;
    case 4: access<V, true, true>(c, MK(&O::crefX, &O::refX, &O::crefW, &O::refW)); break;
    case 5: access<V, true, true>(c, MK(&fget<V>, &fset<V>, &wget<V>, &wset<V>)); break;
    case 6: access<V, false, true>(c, MK(&fgetn<V>, &fsetr<V>, &wgetn<V>, &wsetr<V>)); break;
    case 7: access<V, true, true>(c, MK(&fcref<V>, &fref<V>, &wcref<V>, &wref<V>)); break;
    case 8: access<V, true, true>(c, MK(lg(X), ls(X), lg(W), ls(W))); break;
    case 9: access<V, false, true>(c, MK(lgn(X), lr(X), lgn(W), lr(W))); break;
    case 10: access<V, true, true>(c, MK(FunGet<V>(), FunSet<V>(), WunGet<V>(), WunSet<V>())); break;
    case 11: access<V, true, true>(c, MK(FunGet<V>(), FunRef<V>(), WunGet<V>(), WunRef<V>())); break;
    case 12: access<V, true, true>(c, MK(lgc(X), lsc(X), lgc(W), lsc(W))); VH_CHECK(c, calls > 0, "calls", "capturing accessors were not called"); break;
    case 13: access<V, true, true>(c, MK(std::bind(&O::getX, _1), std::bind(&O::setX, _1, _2), std::bind(&O::getW, _1), std::bind(&O::setW, _1, _2))); break;
    case 14: access<V, true, false>(c, MK(std::bind(&fget<V>, _1), std::bind(&fset<V>, _1, _2), std::bind(&wget<V>, _1), std::bind(&wset<V>, _1, _2))); break;
    case 15: access<V, true, true>(c, MK((std::function<V(const O&)>(fget<V>)), (std::function<void(O&, const V&)>(fsetr<V>)), (std::function<V(const O&)>(wget<V>)), (std::function<void(O&, const V&)>(wsetr<V>)))); break;
    case 16: access<V, true, true>(c, MK(&O::getX, ls(X), &O::getW, ls(W))); break;
    case 17: access<V, true, true>(c, MK(lg(X), &O::setXr, lg(W), &O::setWr)); break;
    case 18: access<V, true, false>(c, MK(lg(X), std::bind(&fset<V>, _1, _2), lg(W), std::bind(&wset<V>, _1, _2))); break;
    case 19: access<V, true, true>(c, MK(std::bind(&O::crefX, _1), &O::refX, std::bind(&O::crefW, _1), &O::refW)); break;
    case 20: access<V, true, true>(c, MK(sg, ss, sg2, ss2)); break;
    default: access<V, true, true>(c, MK(std::bind(&fget<V>, _1), lr(X), std::bind(&wget<V>, _1), lr(W))); break;
    }
}
#endif
