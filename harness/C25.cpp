// C25: binary serialization round trip of every supported type into any target, exact consumption.
#include "ser.h"
using namespace ser;
typedef BinarySerializer BS;

struct Round {
    vh::Case& c; unsigned idx;
    template<class T> void operator()() {
        const T v = G<T>::make(c.rng);
        T target = G<T>::make(c.rng);
        const size_t pre = c.rng.below(20);
        BS::ByteContainer data;
        for (size_t i = 0; i < pre; i++) data.push_back(BS::Byte(c.rng.below(256)));
        const BS::ByteContainer before = data;
        BS::addNext(data, v);
        VH_CHECK(c, data.size() >= pre && std::equal(before.begin(), before.end(), data.begin()), "prefix", "type " << idx << ": bytes written before were changed");
        const size_t end = data.size();
        c.ev("bytes", end - pre);
        // followed by other data: reading must stop at the end of the value
        const size_t post = c.rng.below(20);
        for (size_t i = 0; i < post; i++) data.push_back(BS::Byte(c.rng.below(256)));
        data.shrink_to_fit();
        c.desc("type " + vh::str(idx) + " of VH_SER_TYPES, " + vh::str(end - pre) + " bytes");
        c.distinct(vh::comb(idx, end > pre ? vh::hashBytes(&data[pre], end - pre) : 1));
        BS::ByteContainerIterator it = data.cbegin() + long(pre);
        const BS::ByteContainer whole = data;
        BS::readNext(it, target);
        VH_CHECK(c, size_t(it - data.cbegin()) == end, "consumed", "type " << idx << ": read " << it - data.cbegin() - long(pre) << " of " << end - pre << " bytes written");
        VH_CHECK(c, eq(target, v), "value", "type " << idx << ": value read differs from the value written");
        VH_CHECK(c, data == whole, "data", "reading changed the data");
        it = data.cbegin() + long(pre);
        T fresh = BS::readNext<T>(it);
        VH_CHECK(c, size_t(it - data.cbegin()) == end && eq(fresh, v), "value", "type " << idx << ": value returned differs from the value written");
        // the object interface
        BS s; s << v; VH_CHECK(c, s.getData().size() == end - pre && std::equal(s.getData().begin(), s.getData().end(), data.begin() + long(pre)), "bytes", "type " << idx << ": operator<< writes other bytes than addNext");
        if (end > pre) { T t2 = G<T>::make(c.rng); s >> t2; VH_CHECK(c, eq(t2, v), "value", "type " << idx << ": operator>> gives another value"); T t3 = s.read<T>(); VH_CHECK(c, eq(t3, v), "value", "type " << idx << ": read<T>() gives another value"); }
        c.ev("values");
    }
};
VH_SECTION(roundtrip, 12000, 200000) {
    Round f{c, unsigned(c.index % NTYPES)};
    withType(f.idx, f);
}
VH_SECTION(large, 40, 400) { // sizes over several reallocations
    std::vector<std::vector<double>> v(c.rng.below(300)); for (auto& x : v) { x.resize(c.rng.below(700)); for (auto& y : x) y = c.rng.unit(); }
    std::map<long, std::string> m; for (size_t i = c.rng.below(4000); i--;) m[long(c.rng.u64())] = G<std::string>::make(c.rng);
    std::vector<st::Nested> n(c.rng.below(300)); for (auto& x : n) x = G<st::Nested>::make(c.rng);
    c.desc("large containers"); c.distinct(vh::comb(v.size(), vh::comb(m.size(), n.size())));
    BS s; s.write(v, m, n);
    decltype(v) v2(7); decltype(m) m2{{1, "x"}}; decltype(n) n2(3); s.read(v2, m2, n2);
    VH_CHECK(c, v2 == v && m2 == m && eq(n2, n), "value", "large containers differ after the round trip");
    c.ev("values", v.size() + m.size() + n.size());
}
// ---------- bound traits
static bool sameIn(const st::BoundIn& a, const st::BoundIn& b, const st::BoundIn& old) { return eq(a.keep, b.keep) && eq(a.drop, old.drop); }
static st::BoundIn mkIn(vh::Rng& r) { return {r.unit(), r.unit()}; }
VH_SECTION(bound, 2000, 40000) {
    auto& r = c.rng;
    auto tIn = makeTraits<st::BoundIn>("keep", &st::BoundIn::keep);
    { // class without default traits
        st::BoundOnly a{G<int>::make(r), G<std::vector<double>>::make(r), G<std::string>::make(r)}, b{1, {2}, "3"};
        auto t = makeTraits<st::BoundOnly>("s", &st::BoundOnly::s, "id", &st::BoundOnly::id, "v", &st::BoundOnly::v);
        BS s; s << bindTraits(a, t); auto bb = bindTraits(b, t); s >> bb;
        VH_CHECK(c, b.id == a.id && eq(b.v, a.v) && b.s == a.s, "bound", "class with bound traits differs after the round trip");
        std::vector<st::BoundOnly> va(len(r), a), vb(len(r)); BS s2; s2 << bindTraits(va, t); auto bv = bindTraits(vb, t); s2 >> bv;
        VH_CHECK(c, vb.size() == va.size(), "bound", "vector size");
        for (auto& x : vb) VH_CHECK(c, x.id == a.id && eq(x.v, a.v) && x.s == a.s, "bound", "element of a vector with bound traits differs");
        std::map<std::string, st::BoundOnly> ma, mb; for (size_t i = len(r); i--;) ma[G<std::string>::make(r)] = a;
        BS s3; s3 << bindTraits(ma, t); auto bm = bindTraits(mb, t); s3 >> bm; VH_CHECK(c, mb.size() == ma.size(), "bound", "map size");
        for (auto& x : mb) VH_CHECK(c, ma.count(x.first) && x.second.id == a.id && eq(x.second.v, a.v) && x.second.s == a.s, "bound", "element of a map with bound traits differs");
        c.ev("bound objects", 1 + va.size() + ma.size());
        c.distinct(vh::hashStr(a.s, vh::comb(uint64_t(a.id), a.v.size())));
    }
    // bound traits override the default ones on every level: the member "drop" of BoundIn must stay untouched
    st::BoundOut a; a.n = G<int>::make(r); a.in = mkIn(r); a.p = {3, mkIn(r)}; a.t = std::make_tuple(mkIn(r), 5);
    for (size_t i = len(r); i--;) a.many.push_back(mkIn(r));
    for (size_t i = len(r); i--;) a.li.push_back(mkIn(r));
    for (size_t i = len(r); i--;) a.m[int(r.below(100))] = mkIn(r);
    st::BoundOut b; b.n = 0; b.in = mkIn(r); b.p = {0, mkIn(r)}; b.t = std::make_tuple(mkIn(r), 0);
    b.many.resize(a.many.size()); for (auto& x : b.many) x = mkIn(r);
    b.li.resize(a.li.size()); for (auto& x : b.li) x = mkIn(r);
    const st::BoundOut old = b;
    auto tOut = makeTraits<st::BoundOut>("in", &st::BoundOut::in, "many", &st::BoundOut::many, "li", &st::BoundOut::li, "m", &st::BoundOut::m, "p", &st::BoundOut::p, "t", &st::BoundOut::t, "n", &st::BoundOut::n);
    BS s; s << bindTraits(a, tOut, tIn) << 77;
    const size_t expect = 8 + 3 * 8 + 8 * (a.many.size() + a.li.size()) + 12 * a.m.size() + 12 + 12 + 4 + 4;
    VH_CHECK(c, s.getData().size() == expect, "bound", "serialized size " << s.getData().size() << " expected " << expect << " for the bound traits");
    auto bb = bindTraits(b, tOut, tIn); s >> bb;
    VH_CHECK(c, s.read<int>() == 77, "bound", "data following the object with bound traits");
    VH_CHECK(c, b.n == a.n && sameIn(b.in, a.in, old.in) && b.p.first == 3 && sameIn(b.p.second, a.p.second, old.p.second) && std::get<1>(b.t) == 5 && sameIn(std::get<0>(b.t), std::get<0>(a.t), std::get<0>(old.t)), "bound", "member with bound traits differs");
    VH_CHECK(c, b.many.size() == a.many.size() && b.li.size() == a.li.size() && b.m.size() == a.m.size(), "bound", "container sizes");
    for (size_t i = 0; i < a.many.size(); i++) VH_CHECK(c, sameIn(b.many[i], a.many[i], old.many[i]), "bound", "element " << i << " of a vector member with bound traits differs");
    for (auto i = a.li.begin(), j = b.li.begin(); i != a.li.end(); ++i, ++j) { auto k = old.li.begin(); std::advance(k, std::distance(a.li.begin(), i)); VH_CHECK(c, sameIn(*j, *i, *k), "bound", "element of a list member with bound traits differs"); }
    for (auto& x : a.m) VH_CHECK(c, b.m.count(x.first) && eq(b.m[x.first].keep, x.second.keep), "bound", "element of a map member with bound traits differs");
    // secondary traits given first / only, the default traits used for the rest
    st::BoundIn i1 = mkIn(r), i2 = mkIn(r), i3 = i2; BS s4; s4 << bindTraits(i1, tIn); auto bi = bindTraits(i2, tIn); s4 >> bi;
    VH_CHECK(c, sameIn(i2, i1, i3) && s4.getData().size() == 8, "bound", "bound traits do not replace the default ones");
    std::vector<std::pair<int, st::BoundIn>> nv(len(r)), nw; for (auto& x : nv) x = {int(r.below(9)), mkIn(r)};
    BS s5; s5 << bindTraits(nv, tIn); auto bn = bindTraits(nw, tIn); s5 >> bn;
    VH_CHECK(c, s5.getData().size() == 8 + 12 * nv.size() && nw.size() == nv.size(), "bound", "vector of pairs with bound traits");
    for (size_t i = 0; i < nv.size(); i++) VH_CHECK(c, nw[i].first == nv[i].first && eq(nw[i].second.keep, nv[i].second.keep), "bound", "pair with bound traits differs");
    c.ev("bound objects", 5 + a.many.size() + a.li.size() + a.m.size() + nv.size());
    c.desc("bound traits");
}
// values written as const/temporary, through write(a, b, ...) and read(a, b, ...)
VH_SECTION(variadic, 500, 5000) {
    auto& r = c.rng; int i = G<int>::make(r); std::string s = G<std::string>::make(r); double d = G<double>::make(r); auto v = G<std::vector<st::Flat>>::make(r); bool b = r.chance(0.5);
    BS x; x.write(i, s, d, v, b); BS y; y << i << s << d << v << b; BS z; z.write(i); z.write(s, d); z << v; z.write(b);
    VH_CHECK(c, x.getData() == y.getData() && x.getData() == z.getData(), "variadic", "write(a,b,...) and operator<< differ");
    int i2; std::string s2; double d2; std::vector<st::Flat> v2; bool b2; x.read(i2, s2, d2, v2, b2);
    VH_CHECK(c, i == i2 && s == s2 && eq(d, d2) && eq(v, v2) && b == b2, "variadic", "read(a,b,...) gives other values");
    y >> i2 >> s2 >> d2 >> v2 >> b2; VH_CHECK(c, i == i2 && s == s2 && eq(d, d2) && eq(v, v2) && b == b2, "variadic", "operator>> gives other values");
    c.ev("values", 5); c.desc("variadic"); c.distinct(vh::hashBytes(x.getData().data(), x.getData().size()));
}
