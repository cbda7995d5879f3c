// C28: damaged binary data are rejected or decoded to some value, never an access outside of the data or the target.
#include "bignew.h"
#include "ser.h"
#include <fstream>
#include <memory>
using namespace ser;
typedef BinarySerializer BS;
static void append(BS::ByteContainer& d, const BS::ByteContainer& x) { d.insert(d.end(), x.begin(), x.end()); }

// fixed-size targets: data of another size must be rejected, the neighbours of the target stay untouched
template<class C> void sized(C& c, size_t n) { c.resize(n); }
template<unsigned N, class T> void sized(Vertex<N, T>&, size_t) {} // the size of a Vertex is stored as unsigned int, hence its own cases
template<class A, class Src> void fixedCase(vh::Case& c, size_t n, const char* what) {
    struct Guarded { unsigned char before[64]; A a; unsigned char after[64]; };
    std::unique_ptr<Guarded> g(new Guarded()); std::memset(g->before, 0xA5, 64); std::memset(g->after, 0xA5, 64);
    typedef typename Src::value_type V;
    const size_t N = g->a.size(); A init; for (size_t i = 0; i < N; i++) init[i] = g->a[i] = G<V>::make(c.rng);
    Src src; sized(src, n); for (auto& x : src) x = G<V>::make(c.rng);
    BS::ByteContainer d; BS::addNext(d, src);
    BS::ByteContainerIterator it = d.cbegin(); bool thrown = false;
    try { BS::readNext(it, g->a); } catch (const std::exception&) { thrown = true; }
    VH_CHECK(c, thrown == (n != N), "fixed-size", what << ": " << n << " stored elements read into " << N << (thrown ? " rejected" : " accepted"));
    for (int i = 0; i < 64; i++) VH_CHECK(c, g->before[i] == 0xA5 && g->after[i] == 0xA5, "fixed-size", what << ": memory around the target was overwritten");
    if (!thrown) for (size_t i = 0; i < N; i++) VH_CHECK(c, eq(g->a[i], src[i]), "fixed-size", what << ": element " << i);
    c.ev(thrown ? "rejected" : "accepted");
    c.desc(std::string(what) + " of " + vh::str(n)); c.distinct(vh::comb(vh::hashBytes(d.data(), d.size()), N));
}
VH_SECTION(fixed, 3000, 30000) {
    size_t n = c.rng.below(12); if (c.rng.chance(0.05)) n = 1000 + c.rng.below(5000);
    switch (c.rng.below(7)) {
    case 0: fixedCase<std::array<int, 4>, std::vector<int>>(c, n, "array<int,4>"); break;
    case 1: fixedCase<std::array<std::string, 3>, std::vector<std::string>>(c, n, "array<string,3>"); break;
    case 2: fixedCase<std::array<double, 1>, std::vector<double>>(c, n, "array<double,1>"); break;
    case 3: switch (c.rng.below(4)) { case 0: fixedCase<Vertex<3, double>, Vertex<1, double>>(c, 1, "Vertex<3>"); break; case 1: fixedCase<Vertex<3, double>, Vertex<3, double>>(c, 3, "Vertex<3>"); break; default: fixedCase<Vertex<3, double>, Vertex<9, double>>(c, 9, "Vertex<3>"); } break;
    case 4: if (c.rng.chance(0.7)) fixedCase<Vector<5, float>, Vector<6, float>>(c, 6, "Vector<5>"); else fixedCase<Vector<5, float>, Vector<5, float>>(c, 5, "Vector<5>"); break;
    case 5: fixedCase<std::array<st::Flat, 2>, std::vector<st::Flat>>(c, n, "array<Flat,2>"); break;
    default: fixedCase<std::array<char, 8>, std::string>(c, n, "array<char,8>");
    }
}
VH_SECTION(nested_fixed, 1000, 10000) { // a fixed-size member somewhere inside the data
    auto& r = c.rng; std::vector<std::pair<int, std::vector<short>>> v(1 + r.below(5)); bool bad = false;
    for (auto& x : v) { x.first = int(r.below(100)); x.second.resize(r.chance(0.8) ? 3 : r.below(7)); for (auto& y : x.second) y = short(r.u64()); bad = bad || x.second.size() != 3; }
    BS s; s << v << std::string("end");
    std::vector<std::pair<int, std::array<short, 3>>> t; bool thrown = false;
    try { s >> t; } catch (const std::exception&) { thrown = true; }
    VH_CHECK(c, thrown == bad, "fixed-size", "vector of arrays: " << (thrown ? "rejected" : "accepted"));
    if (!thrown) VH_CHECK(c, s.read<std::string>() == "end", "fixed-size", "data after the arrays");
    c.ev(thrown ? "rejected" : "accepted"); c.desc("vector of arrays"); c.distinct(vh::hashBytes(s.getData().data(), s.getData().size()));
}
struct HasBool { int a; bool b; double d; };
MAKE_ATTRIBUTE_TRAIT(HasBool, a, b, d);
VH_SECTION(bools, 1500, 10000) { // a stored bool is one byte, 0 or 1
    auto& r = c.rng; BS::Byte x = r.chance(0.3) ? BS::Byte(r.below(2)) : BS::Byte(r.below(256)); bool thrown = false, res = false, expect = x == 1; bool bad = x > 1;
    BS s; const int kind = int(r.below(5)); BS::ByteContainer d;
    try {
        switch (kind) {
        case 0: s << x << 5; res = s.read<bool>(); if (s.read<int>() != 5) c.fail("bool", "data after the bool"); break;
        case 1: { s << 7 << x << 2.5 << 'z'; HasBool h; s >> h; res = h.b; if (h.a != 7 || h.d != 2.5 || s.read<char>() != 'z') c.fail("bool", "members around the bool"); break; }
        case 2: { std::map<int, BS::Byte> m{{1, x}, {2, 1}}; s << m; std::map<int, bool> n; s >> n; res = n[1]; break; }
        case 3: { s << std::make_tuple(1, x, 2); std::tuple<int, bool, int> t; s >> t; res = std::get<1>(t); if (std::get<2>(t) != 2) c.fail("bool", "value after the bool"); break; }
        default: { std::list<BS::Byte> l{1, x, 0}; s << l; std::list<bool> m; s >> m; res = *++m.begin(); }
        }
    } catch (const std::exception&) { thrown = true; }
    VH_CHECK(c, thrown == bad, "bool", "byte " << int(x) << " read as bool (" << kind << ") was " << (thrown ? "rejected" : "accepted"));
    if (!thrown) VH_CHECK(c, res == expect, "bool", "byte " << int(x) << " read as " << res);
    c.ev(thrown ? "rejected" : "accepted"); c.desc("bool byte " + vh::str(int(x)) + " kind " + vh::str(kind)); c.distinct(vh::comb(x, kind));
}
// absurd element counts must end in an exception, not in memory exhaustion or corruption
struct Huge { vh::Case& c; unsigned t; uint64_t n; bool thrown = false;
    template<class T> void operator()() { BS::ByteContainer d; BS::addNext(d, n); for (int i = 0; i < 64; i++) d.push_back(BS::Byte(c.rng.below(4)));
        BS::ByteContainerIterator it = d.cbegin(); T v = G<T>::make(c.rng); try { BS::readNext(it, v); } catch (const std::exception&) { thrown = true; } } };
VH_SECTION(huge_count, 600, 6000) {
    auto& r = c.rng; Huge h{c, 0, 0};
    switch (r.below(3)) { case 0: h.n = ~0ull - r.below(1000); break; case 1: h.n = 1ull << (32 + r.below(32)); break; default: h.n = (1ull << 31) + r.u64() % (1ull << 62); }
    c.desc("element count " + vh::str(h.n));
    switch (r.below(7)) {
    case 0: h.operator()<std::string>(); break; case 1: h.operator()<std::vector<double>>(); break; case 2: h.operator()<std::vector<std::string>>(); break;
    case 3: h.operator()<std::vector<st::Flat>>(); break; case 4: h.operator()<std::vector<char>>(); break; case 5: h.operator()<std::wstring>(); break;
    default: h.operator()<std::array<int, 3>>();
    }
    VH_CHECK(c, h.thrown, "huge", "element count " << h.n << " was accepted");
    c.ev("rejected"); c.distinct(h.n);
}
// byte mutations that keep the length: any outcome, provided every count still fits the data (checked by the parser below)
VH_SECTION(mutated, 4000, 60000) { // no counts in the data: every byte string of the right length decodes or is rejected
    auto& r = c.rng; typedef std::tuple<int, std::pair<double, char>, st::Scoped, long, bool, st::Flat, float> T;
    BS::ByteContainer d; T v = G<T>::make(r); BS::addNext(d, v); const size_t len = d.size();
    for (size_t k = r.below(4) + (r.chance(0.1) ? 20 : 0); k--;) d[r.below(len)] = BS::Byte(r.below(256));
    d.shrink_to_fit(); BS::ByteContainerIterator it = d.cbegin(); T w; bool thrown = false;
    try { BS::readNext(it, w); } catch (const std::exception&) { thrown = true; }
    size_t off = 4 + 8 + 1 + 1 + 8; // of the bool
    VH_CHECK(c, thrown == (d[off] > 1), "mutated", "byte " << int(d[off]) << " of the bool was " << (thrown ? "rejected" : "accepted"));
    if (!thrown) { VH_CHECK(c, it == d.cend(), "mutated", "bytes left"); BS::ByteContainer e; BS::addNext(e, w); VH_CHECK(c, e == d, "mutated", "value read does not represent the data"); }
    c.ev(thrown ? "rejected" : "accepted"); c.desc("mutated tuple"); c.distinct(vh::hashBytes(d.data(), d.size()));
}
// truncated data: every value before the cut is read, the cut one is rejected
struct Cut { vh::Case& c; unsigned t; BS::ByteContainer head;
    template<class T> void operator()() {
        T v = G<T>::make(c.rng); BS full; full << 12345 << v; const size_t n = full.getData().size();
        c.desc("type " + vh::str(t) + " of " + vh::str(n) + " bytes"); if (n == sizeof(int)) return;
        c.distinct(vh::hashBytes(full.getData().data(), n, t));
        const size_t all = n <= 60 ? n : 60; // all cuts of small values, sampled cuts of larger ones
        for (size_t k = 0; k < all; k++) {
            size_t cut = n <= 60 ? k : k < 30 ? k : k < 45 ? n - 1 - (k - 30) : c.rng.below(n);
            BS s; const std::string f = c.scratch + "/cut.bin";
            { std::ofstream o(f, std::ios::binary); o.write((const char*)full.getData().data(), long(cut)); }
            s.loadFromFile(f); const BS::ByteContainer data = s.getData();
            VH_CHECK(c, data.size() == cut, "load", "cut file of " << cut << " bytes loaded as " << data.size());
            int first = 0; bool thrown = false;
            try { s >> first; } catch (const std::exception&) { thrown = true; }
            VH_CHECK(c, thrown == (cut < sizeof(int)), "truncated", "int of " << cut << " bytes " << (thrown ? "rejected" : "accepted"));
            if (thrown) { c.ev("truncated"); continue; }
            VH_CHECK(c, first == 12345, "truncated", "value before the cut");
            if (cut == sizeof(int)) continue; // reading on starts from the beginning
            T w = G<T>::make(c.rng); thrown = false;
            try { s >> w; } catch (const std::exception&) { thrown = true; }
            VH_CHECK(c, thrown, "truncated", "type " << t << " of " << n - sizeof(int) << " bytes cut to " << cut - sizeof(int) << " was accepted");
            VH_CHECK(c, s.getData() == data, "truncated", "data changed by the failed read");
            c.ev("truncated");
        }
    }
};
VH_SECTION(truncated, 1200, 20000) { Cut f{c, unsigned(c.index % NTYPES), {}}; withType(f.t, f); }
VH_SECTION(empty, 100, 500) { // nothing to read at all
    BS s; if (c.rng.chance(0.5)) { s << 3; s.clear(); } int i; std::string x; std::vector<double> v; std::map<int, int> m; st::Nested n;
    VH_THROWS(c, s >> i, "truncated", "int"); VH_THROWS(c, s >> x, "truncated", "string"); VH_THROWS(c, s >> v, "truncated", "vector"); VH_THROWS(c, s >> m, "truncated", "map"); VH_THROWS(c, s >> n, "truncated", "class"); VH_THROWS(c, s.read<bool>(), "truncated", "bool");
    c.ev("truncated", 6); c.desc("empty"); c.distinct(1);
}
// arbitrary damage including the element counts: any outcome, but no access outside (the sanitizer decides) and usable afterwards
struct Damage { vh::Case& c; unsigned t;
    template<class T> void operator()() {
        T v = G<T>::make(c.rng); BS orig; orig << v << 77; BS::ByteContainer d = orig.getData(); c.desc("damaged type " + vh::str(t));
        c.distinct(vh::hashBytes(d.data(), d.size(), t));
        for (int k = 0; k < 6; k++) {
            BS::ByteContainer e = d; int kind = int(c.rng.below(4));
            for (size_t q = 1 + c.rng.below(3); q--;) {
                if (e.empty()) break;
                size_t p = c.rng.below(e.size());
                if (kind == 0) e[p] = BS::Byte(c.rng.below(256)); else if (kind == 1) e.erase(e.begin() + long(p)); else if (kind == 2) e.insert(e.begin() + long(p), BS::Byte(c.rng.below(256))); else e[p] = BS::Byte(e[p] + 1);
            }
            BS s; for (auto x : e) s << x;
            T w = G<T>::make(c.rng); bool thrown = false; try { s >> w; int n; s >> n; } catch (const std::exception&) { thrown = true; }
            VH_CHECK(c, s.getData() == e, "damage", "data changed by reading");
            try { BS again; again << w; c.ev(thrown ? "rejected" : "accepted"); T u; if (!again.getData().empty()) again >> u; } catch (const std::bad_alloc&) {} // whatever was read is a valid object
            // the same target and serializer still work
            s.clear(); s << v; if (!s.getData().empty()) { s >> w; VH_CHECK(c, eq(w, v), "damage", "type " << t << ": target or serializer unusable after reading damaged data"); }
        }
    }
};
VH_SECTION(damaged, 2500, 40000) {
    static const std::set<unsigned> skip = nodeBased(); unsigned t; do t = unsigned(c.rng.below(NTYPES)); while (skip.count(t));
    Damage f{c, t}; withType(t, f);
}
