// C26: the serializer is a sequence: reads return the written values in order, whatever is written, copied or reset in between.
#include "ser.h"
#include <memory>
using namespace ser;
typedef BinarySerializer BS;

struct Item { unsigned type; size_t bytes; std::function<bool(BS&, int)> read; };
struct Model { std::vector<Item> items; size_t pos = 0; BS::ByteContainer data; };

struct Write {
    vh::Case& c; BS& s; Model& m; unsigned type;
    template<class T> void operator()() {
        auto v = std::make_shared<T>(G<T>::make(c.rng));
        const size_t before = s.getData().size();
        switch (c.rng.below(2)) { case 0: s << *v; break; default: s.write(*v); }
        Item it; it.type = type; it.bytes = s.getData().size() - before;
        vh::Rng r2(c.rng.u64());
        it.read = [v, r2](BS& x, int how) mutable {
            if (how == 0) { T t = G<T>::make(r2); x >> t; return eq(t, *v); }
            if (how == 1) { T t = G<T>::make(r2); x.read(t); return eq(t, *v); }
            return eq(x.read<T>(), *v);
        };
        if (it.bytes) m.items.push_back(it);
        m.data = s.getData();
    }
};

static std::string hist;
static void readOne(vh::Case& c, BS& s, Model& m, const char* who) {
    if (m.items.empty()) return;
    bool valid = s.isIteratorValid();
    VH_CHECK(c, valid == (m.pos < m.items.size()), "valid", who << ": isIteratorValid() is " << valid << " at value " << m.pos << " of " << m.items.size() << " after " << hist);
    if (m.pos >= m.items.size()) { m.pos = 0; c.ev("wraps"); } // reading on after the last value starts again
    Item& it = m.items[m.pos];
    VH_CHECK(c, it.read(s, int(c.rng.below(3))), "order", who << ": value " << m.pos << " (type " << it.type << ") differs from the value written; after " << hist);
    m.pos++;
    VH_CHECK(c, s.isIteratorValid() == (m.pos < m.items.size()), "valid", who << ": isIteratorValid() after reading value " << m.pos - 1);
    VH_CHECK(c, s.getData() == m.data, "data", who << ": reading changed the data");
    c.ev("reads");
}
VH_SECTION(history, 1500, 30000) {
    auto& r = c.rng;
    BS s; Model m; hist.clear();
    std::vector<std::pair<BS, Model>> copies;
    const long steps = 10 + long(r.below(120));
    // a few types per case, so that equal types follow each other often
    std::vector<unsigned> types; for (size_t i = 1 + r.below(6); i--;) types.push_back(unsigned(r.below(NTYPES)));
    const double pw = r.real(0.2, 0.8);
    for (long k = 0; k < steps; k++) {
        double u = r.unit();
        if (u < 0.04) { hist += "reset "; s.resetIterator(); m.pos = 0; VH_CHECK(c, s.isIteratorValid() == !m.items.empty(), "valid", "after resetIterator"); c.ev("resets"); }
        else if (u < 0.06) { hist += "clear "; s.clear(); m = Model(); VH_CHECK(c, s.getData().empty() && !s.isIteratorValid(), "clear", "data left after clear"); c.ev("clears"); }
        else if (u < 0.08) { hist += "copy "; copies.emplace_back(s, m); c.ev("copies"); }
        else if (u < 0.10 && !copies.empty()) { // continue with a copy, the original dies or is kept
            size_t i = r.below(copies.size()); hist += "assign ";
            if (r.chance(0.5)) s = copies[i].first; else { BS t(std::move(copies[i].first)); s = std::move(t); copies[i].first = s; }
            m = copies[i].second; c.ev("copies");
        }
        else if (u < 0.12) { hist += "resetIfNotValid "; s.resetIteratorIfNotValid(); if (m.pos >= m.items.size()) m.pos = 0; }
        else if (u < 0.20 && !copies.empty()) { auto& p = copies[r.below(copies.size())]; hist += "copyread "; readOne(c, p.first, p.second, "copy"); }
        else if (u < 0.24 && !copies.empty()) { auto& p = copies[r.below(copies.size())]; hist += "copywrite "; unsigned t = types[r.below(types.size())]; Write w{c, p.first, p.second, t}; withType(t, w); VH_CHECK(c, s.getData() == m.data, "data", "writing to a copy changed the original"); }
        else if (r.chance(pw)) { unsigned t = types[r.below(types.size())]; hist += "w" + vh::str(t) + " "; BS::ByteContainer old = m.data; Write w{c, s, m, t}; withType(t, w); VH_CHECK(c, m.data.size() >= old.size() && std::equal(old.begin(), old.end(), m.data.begin()), "append", "writing changed earlier bytes after " << hist); c.ev("writes"); }
        else { hist += "r "; readOne(c, s, m, "serializer"); }
        VH_CHECK(c, s.getData() == m.data, "data", "data differ after " << hist);
    }
    // everything once again from the beginning
    s.resetIterator(); m.pos = 0;
    for (size_t i = m.items.size(); i--;) readOne(c, s, m, "final pass");
    for (auto& p : copies) { p.first.resetIterator(); p.second.pos = 0; for (size_t i = p.second.items.size(); i--;) readOne(c, p.first, p.second, "final pass of a copy"); }
    c.desc(hist.substr(0, 300)); c.distinct(vh::hashStr(hist, vh::hashBytes(m.data.data(), m.data.size())));
}
