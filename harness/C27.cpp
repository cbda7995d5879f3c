// C27: saving to and loading from files keeps the data exactly and reports failures.
#include "bignew.h"
#include "ser.h"
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>
using namespace ser;
typedef BinarySerializer BS;
static std::string slurp(const std::string& f) { std::ifstream i(f, std::ios::binary); std::ostringstream o; o << i.rdbuf(); return o.str(); }
static BS::ByteContainer bytes(vh::Rng& r) {
    BS::ByteContainer b; size_t n = r.chance(0.1) ? 0 : r.chance(0.1) ? r.below(200000) : r.below(300);
    for (size_t i = 0; i < n; i++) b.push_back(r.chance(0.3) ? BS::Byte("\n\r\0\x1a\xff"[r.below(5)]) : BS::Byte(r.below(256)));
    return b;
}
static void fill(BS& s, const BS::ByteContainer& b) { for (auto x : b) s << x; }

VH_SECTION(dump, 1500, 20000) {
    auto& r = c.rng; std::string f = c.scratch + "/d" + vh::str(r.below(3)) + ".bin";
    BS s; BS::ByteContainer b = bytes(r); fill(s, b);
    for (size_t i = r.below(b.size() + 1); i-- && i < 50;) s.read<BS::Byte>(); // the read position is irrelevant for saving
    if (r.chance(0.3)) std::ofstream(f) << std::string(r.below(100000), 'x'); // an older, longer file is replaced
    s.saveToFile(f);
    std::string file = slurp(f);
    VH_CHECK(c, file.size() == b.size() && std::equal(b.begin(), b.end(), (const BS::Byte*)file.data()), "save", "file of " << file.size() << " bytes written for " << b.size() << " bytes of data");
    VH_CHECK(c, s.getData() == b, "save", "saving changed the data");
    BS t; BS::ByteContainer other = bytes(r); fill(t, other);
    for (size_t i = r.below(other.size() + 1); i-- && i < 50;) t.read<BS::Byte>();
    BS& l = r.chance(0.2) ? s : t;
    l.loadFromFile(f);
    VH_CHECK(c, l.getData() == b, "load", "loaded " << l.getData().size() << " bytes from a file of " << b.size());
    for (size_t i = 0; i < b.size() && i < 300; i++) { BS::Byte x = l.read<BS::Byte>(); VH_CHECK(c, x == b[i], "rewind", "byte " << i << " read after loading is " << int(x) << " expected " << int(b[i])); }
    c.ev("bytes", b.size()); c.ev("dumps"); c.desc(vh::str(b.size()) + " bytes"); c.distinct(vh::hashBytes(b.data(), b.size(), 7));
}
VH_SECTION(history, 600, 10000) { // histories of typed writes, reads, saves and loads over two serializers and three files
    auto& r = c.rng; struct M { std::vector<long> v; size_t pos = 0; };
    BS s[2]; M m[2]; std::vector<std::vector<long>> files(3); std::vector<bool> exists(3, false); std::string h;
    for (int i = 0; i < 3; i++) ::unlink((c.scratch + "/h" + vh::str(i)).c_str());
    for (int k = 0; k < 60; k++) {
        int i = int(r.below(2)), f = int(r.below(3)); std::string fn = c.scratch + "/h" + vh::str(f);
        switch (r.below(7)) {
        case 0: case 1: { long x = long(r.u64()); s[i] << x; m[i].v.push_back(x); h += 'w'; break; }
        case 2: case 3: if (!m[i].v.empty()) { if (m[i].pos >= m[i].v.size()) m[i].pos = 0; long x = s[i].read<long>(); VH_CHECK(c, x == m[i].v[m[i].pos], "order", "value " << m[i].pos << " of serializer " << i << " after " << h); m[i].pos++; c.ev("reads"); } h += 'r'; break;
        case 4: s[i].saveToFile(fn); files[f] = m[i].v; exists[f] = true; h += 's'; c.ev("dumps"); break;
        case 5: {
            h += 'l'; bool thrown = false; BS::ByteContainer before = s[i].getData();
            try { s[i].loadFromFile(fn); } catch (const std::exception&) { thrown = true; }
            VH_CHECK(c, thrown == !exists[f], "missing", (exists[f] ? "loading an existing file failed" : "loading a missing file was not reported") << " after " << h);
            if (exists[f]) { m[i].v = files[f]; m[i].pos = 0; } else { VH_CHECK(c, s[i].getData() == before, "missing", "failed load changed the data"); c.ev("failures"); }
            c.ev("loads"); break;
        }
        default: if (r.chance(0.2)) { s[i].clear(); m[i] = M(); h += 'c'; }
        }
        VH_CHECK(c, s[i].getData().size() == m[i].v.size() * sizeof(long), "size", "data size after " << h);
    }
    c.desc(h); c.distinct(vh::hashStr(h));
}
VH_SECTION(failures, 200, 1000) { // operations that cannot succeed are reported by exceptions
    auto& r = c.rng; BS s; BS::ByteContainer b = bytes(r); if (b.empty()) b.push_back(1); fill(s, b);
    std::string dir = c.scratch + "/dir"; ::mkdir(dir.c_str(), 0700);
    switch (r.below(6)) {
    case 0: VH_THROWS(c, s.loadFromFile(c.scratch + "/none.bin"), "missing", "missing file"); break;
    case 1: VH_THROWS(c, s.loadFromFile(c.scratch + "/no/such/dir/a.bin"), "missing", "missing directory"); break;
    case 2: VH_THROWS(c, s.loadFromFile(dir), "missing", "a directory"); break;
    case 3: VH_THROWS(c, s.saveToFile(c.scratch + "/no/such/dir/a.bin"), "unwritable", "missing directory"); break;
    case 4: VH_THROWS(c, s.saveToFile(dir), "unwritable", "a directory"); break;
    default: VH_THROWS(c, s.saveToFile("/dev/full"), "full", "a full device, " << b.size() << " bytes");
    }
    VH_CHECK(c, s.getData() == b, "failure", "a failed operation changed the data");
    for (size_t i = 0; i < b.size() && i < 20; i++) VH_CHECK(c, s.read<BS::Byte>() == b[i], "failure", "byte " << i << " after a failed operation");
    c.ev("failures"); c.desc("failing file operation"); c.distinct(vh::hashBytes(b.data(), b.size(), r.u64()));
}
struct TypedFile { vh::Case& c; unsigned t; template<class T> void operator()() {
    T v = G<T>::make(c.rng), w = G<T>::make(c.rng); BS s; s << v; std::string f = c.scratch + "/t.bin"; s.saveToFile(f); BS l; l << w; l.loadFromFile(f);
    VH_CHECK(c, l.getData() == s.getData(), "load", "data of type " << t << " differ after the file round trip");
    if (!s.getData().empty()) { l >> w; VH_CHECK(c, eq(v, w), "value", "value of type " << t << " differs after the file round trip"); }
    c.ev("dumps"); c.desc("type " + vh::str(t)); c.distinct(vh::hashBytes(s.getData().data(), s.getData().size(), t)); } };
VH_SECTION(typed, 1000, 10000) { TypedFile f{c, unsigned(c.index % NTYPES)}; withType(f.t, f); }
