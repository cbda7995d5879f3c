#include "meshgen.h"
using namespace mg;

template<unsigned S, unsigned T, unsigned D> std::map<std::pair<long, long>, long> refPaths(const Ref<D>& r) {
    const unsigned hi = S > T ? S : T, lo = S > T ? T : S; std::map<std::pair<long, long>, long> m;
    for (size_t i = 0; i < r.n(hi); i++) { IV o; r.down(hi, static_cast<int>(i), lo, o); for (int x : o) { if (S >= T) m[{static_cast<long>(i), x}]++; else m[{x, static_cast<long>(i)}]++; } }
    return m;
}
// ascending, duplicate-free incidence lists from the reference
template<unsigned S, unsigned T, unsigned D> std::vector<std::set<long>> refConn(const Ref<D>& r) {
    std::vector<std::set<long>> res(r.n(S));
    for (auto& p : refPaths<S, T, D>(r)) res[static_cast<size_t>(p.first.first)].insert(p.first.second);
    return res;
}
template<class V> std::vector<long> idxs(const V& v) { std::vector<long> o; for (auto e : v) o.push_back(static_cast<long>(e.index)); return o; }

template<bool Desc> struct SingleApply {
    template<unsigned S, unsigned T, unsigned D, class M> static void run(vh::Case& c, const M& m, const Ref<D>& r) {
        typedef typename std::decay<decltype(m.getVertices()[0].getIndex())>::type IT;
        for (int t = 0; t < 3 && r.n(S); t++) {
            IT i = static_cast<IT>(c.rng.below(r.n(S)));
            IV exp; r.down(S, static_cast<int>(i), T, exp); std::multiset<long> e(exp.begin(), exp.end()), got; bool origOk = true;
            m.template apply<S, T>(i, [&](IT a, IT b) { origOk = origOk && a == i; got.insert(static_cast<long>(b)); });
            c.ev("single-element visits", got.size());
            VH_CHECK(c, origOk, "apply-origin", "apply on element " << i << " of dim " << S << " reported another origin");
            VH_CHECK(c, got == e, "apply-single", "apply<" << S << "," << T << ">(" << i << ") visited " << vh::strv(got) << " expected " << vh::strv(e));
        }
    }
};
template<> struct SingleApply<false> { template<unsigned S, unsigned T, unsigned D, class M> static void run(vh::Case&, const M&, const Ref<D>&) {} };

template<unsigned S, unsigned T, unsigned D, class M> void checkPair(vh::Case& c, const M& m, const Ref<D>& r) {
    typedef typename std::decay<decltype(m.getVertices()[0].getIndex())>::type IT;
    // traversal: exactly the incidence chains, origin first
    auto exp = refPaths<S, T, D>(r); std::map<std::pair<long, long>, long> got; std::vector<std::pair<long, long>> order;
    m.template apply<S, T>([&](IT a, IT b) { got[{static_cast<long>(a), static_cast<long>(b)}]++; order.push_back({static_cast<long>(a), static_cast<long>(b)}); });
    c.ev("visits", order.size());
    VH_CHECK(c, got == exp, "apply", "apply<" << S << "," << T << "> visited " << order.size() << " pairs, " << got.size() << " distinct; expected " << exp.size() << " distinct");
    SingleApply<(S > T)>::template run<S, T, D>(c, m, r);
    // connections, both orders
    auto ref = refConn<S, T, D>(r);
    auto asc = m.template connections<S, T>();
    auto ori = m.template connections<S, T, ORDER_ORIGINAL>();
    VH_CHECK(c, asc.template getDataByPos<0>().size() == r.n(S) && ori.template getDataByPos<0>().size() == r.n(S), "connections-size", "one list per element of dimension " << S);
    std::vector<std::vector<long>> first(r.n(S)); std::set<std::pair<long, long>> seen;
    for (auto& p : order) if (seen.insert(p).second) first[static_cast<size_t>(p.first)].push_back(p.second);
    for (size_t i = 0; i < r.n(S); i++) {
        std::vector<long> a = idxs(asc.template getDataByPos<0>()[i]), o = idxs(ori.template getDataByPos<0>()[i]), e(ref[i].begin(), ref[i].end());
        VH_CHECK(c, a == e, "connections-ascend", "connections<" << S << "," << T << "> of " << i << " is " << vh::strv(a) << " expected " << vh::strv(e));
        VH_CHECK(c, o == first[i], "connections-original", "original-order connections<" << S << "," << T << "> of " << i << " is " << vh::strv(o) << " expected the first-visit order " << vh::strv(first[i]));
        c.ev("connection lists", 2);
    }
    // original order of a descending query follows the stored boundary
    if (S == T + 1) for (size_t i = 0; i < r.n(S); i++) {
        const IV& st = r.e[S][i]; std::vector<long> w(st.begin(), st.end()), o = idxs(ori.template getDataByPos<0>()[i]);
        VH_CHECK(c, w == o, "connections-stored-order", "original-order boundary of " << i << " (dim " << S << ") is " << vh::strv(o) << " stored " << vh::strv(w));
    }
}
template<unsigned S, unsigned C, unsigned T, unsigned D, class M> void checkNb(vh::Case& c, const M& m, const Ref<D>& r) {
    auto a = refConn<S, C, D>(r); auto b = refConn<C, T, D>(r);
    auto asc = m.template neighborhood<S, C, T>();
    auto ori = m.template neighborhood<S, C, T, ORDER_ORIGINAL>();
    auto o1 = m.template connections<S, C, ORDER_ORIGINAL>(); auto o2 = m.template connections<C, T, ORDER_ORIGINAL>();
    VH_CHECK(c, asc.template getDataByPos<0>().size() == r.n(S) && ori.template getDataByPos<0>().size() == r.n(S), "neighborhood-size", "one list per element");
    for (size_t i = 0; i < r.n(S); i++) {
        std::set<long> e; for (long x : a[i]) for (long y : b[static_cast<size_t>(x)]) if (!(S == T && y == static_cast<long>(i))) e.insert(y);
        std::vector<long> ev(e.begin(), e.end()), g = idxs(asc.template getDataByPos<0>()[i]), o = idxs(ori.template getDataByPos<0>()[i]);
        VH_CHECK(c, g == ev, "neighborhood-ascend", "neighborhood<" << S << "," << C << "," << T << "> of " << i << " is " << vh::strv(g) << " expected " << vh::strv(ev));
        std::vector<long> w; std::set<long> seen;
        for (long x : idxs(o1.template getDataByPos<0>()[i])) for (long y : idxs(o2.template getDataByPos<0>()[static_cast<size_t>(x)])) if (!(S == T && y == static_cast<long>(i)) && seen.insert(y).second) w.push_back(y);
        VH_CHECK(c, o == w, "neighborhood-original", "original-order neighborhood<" << S << "," << C << "," << T << "> of " << i << " is " << vh::strv(o) << " expected " << vh::strv(w));
        c.ev("neighborhood lists", 2); c.ev("neighbors", g.size());
    }
}
template<unsigned S, unsigned C, class M, unsigned D> void checkColor(vh::Case& c, const M& m, const Ref<D>& r) {
    auto a = refConn<S, C, D>(r); std::vector<std::set<long>> conf(r.n(S));
    { std::vector<std::vector<long>> by(r.n(C)); for (size_t i = 0; i < a.size(); i++) for (long x : a[i]) by[static_cast<size_t>(x)].push_back(static_cast<long>(i));
      for (auto& v : by) for (long x : v) for (long y : v) if (x != y) conf[static_cast<size_t>(x)].insert(y); }
    size_t maxdeg = 0; for (auto& s : conf) maxdeg = std::max(maxdeg, s.size());
    auto gr = m.template coloring<S, C>(); auto& G = gr.template getDataByPos<0>();
    VH_CHECK(c, G.size() == r.n(S), "color-size", "one colour per element");
    unsigned gmax = 0;
    for (size_t i = 0; i < G.size(); i++) {
        gmax = std::max(gmax, G[i]); std::set<unsigned> before;
        for (long y : conf[i]) { VH_CHECK(c, G[i] != G[static_cast<size_t>(y)], "color-conflict", "greedy colouring<" << S << "," << C << ">: elements " << i << " and " << y << " touch and share colour " << G[i]); if (y < static_cast<long>(i)) before.insert(G[static_cast<size_t>(y)]); c.ev("conflict pairs"); }
        unsigned want = 0; while (before.count(want)) want++;
        VH_CHECK(c, G[i] == want, "color-first-fit", "greedy colouring<" << S << "," << C << ">: element " << i << " has colour " << G[i] << " although " << want << " is free among lower-numbered conflicting elements");
    }
    VH_CHECK(c, gmax <= maxdeg, "color-count", "greedy uses colour " << gmax << " with at most " << maxdeg << " conflicts");
    auto gr2 = m.template coloring<S, C>();
    VH_CHECK(c, gr2.template getDataByPos<0>() == G, "color-determinism", "greedy colouring differs between two calls");
    // any seed, the special ones included
    unsigned seed = c.rng.chance(.3) ? c.rng.pick(std::vector<unsigned>{0, 1, 2, 5489, 0x7fffffffu, 0x80000000u, 0xffffffffu}) : static_cast<unsigned>(c.rng.u64());
    auto rd = m.template coloring<S, C, METHOD_RANDOM>(seed); auto& Rn = rd.template getDataByPos<0>();
    VH_CHECK(c, Rn.size() == r.n(S), "random-color-size", "one colour per element");
    for (size_t i = 0; i < Rn.size(); i++) {
        VH_CHECK(c, Rn[i] <= gmax, "random-color-range", "random recolouring uses colour " << Rn[i] << ", the greedy one needs " << gmax);
        for (long y : conf[i]) VH_CHECK(c, Rn[i] != Rn[static_cast<size_t>(y)], "random-color-conflict", "random colouring<" << S << "," << C << "> seed " << seed << ": elements " << i << " and " << y << " touch and share colour " << Rn[i]);
        if (Rn[i] != G[i]) c.ev("recoloured elements");
    }
    auto rd2 = m.template coloring<S, C, METHOD_RANDOM>(seed);
    VH_CHECK(c, rd2.template getDataByPos<0>() == Rn, "random-color-determinism", "the same seed gives two different colourings");
    c.ev("colourings", 4); if (gmax >= 16) c.ev("colourings with more than 16 colours");
}
