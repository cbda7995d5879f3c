// C19: iteration macros, trait macros and compile-time loops cover every argument once, in order.
#ifndef C19_H
#define C19_H
#include "vh.h"
#include "GTMesh/Traits/Traits.h"
namespace {
// generic comparison of a traits class with the described members: p order, d direct access, nm names, n number of members
template<class O> struct State {
    vh::Case& c; const char* w; const int* p; const bool* d; const char* const* nm; int n; O o; std::vector<double> m; unsigned i = 0;
    State(vh::Case& c, const char* w, const int* p, const bool* d, const char* const* nm, int n) : c(c), w(w), p(p), d(d), nm(nm), n(n) {}
    void fill(unsigned at) { i = at; m.clear(); for (int k = 0; k <= n; k++) { o.put(k, double(c.rng.range(0, 200))); m.push_back(o.at(k)); } }
    void ok(bool b, const char* kind) { VH_CHECK(c, b, kind, w << " attribute " << i); }
    double next() { return m[p[i]] = double(c.rng.range(0, 200)); }
    void same(const char* kind) { for (int k = 0; k <= n; k++) VH_CHECK(c, o.at(k) == m[k], kind, w << " attribute " << i << " member " << k << " is " << o.at(k) << " expected " << m[k]); }
    void done() { c.ev("attributes"); c.distinct(vh::hashBytes(m.data(), m.size() * sizeof(double), vh::hashStr(w, i))); }
};
template<template<class> class Tr, class O> struct All {
    template<unsigned I> struct At {
        template<class T> static typename std::enable_if<(I < T::size())>::type run(State<O>& s, const T& t) {
            typedef typename T::template type<I> V; O& o = s.o; const O& k = o; s.fill(I);
            s.ok(t.template getName<I>() == std::string(s.nm[I]), "name");
            s.ok(double(t.template getValue<I>(o)) == s.m[s.p[I]] && double(t.template getValue<I>(k)) == s.m[s.p[I]] && double(t.template getValue<I>(&o)) == s.m[s.p[I]] && double(t.template getValue<I>(&k)) == s.m[s.p[I]], "get");
            t.template setValue<I>(o, V(s.next())); s.same("set");
            t.template setValue<I>(&o, V(s.next())); s.same("set");
            typedef std::integral_constant<bool, IsDirectAccess<typename T::template memRefType<I>>::value> D;
            s.ok(D::value == s.d[I], "access");
            direct<T, V>(s, t, D());
            s.done(); At<I + 1>::run(s, t);
        }
        template<class T> static typename std::enable_if<(I >= T::size())>::type run(State<O>&, const T&) {}
        template<class T, class V> static void direct(State<O>& s, const T& t, std::true_type) {
            V& r = t.template getAttr<I>(s.o); s.ok(double(r) == s.m[s.p[I]] && &r == &t.template getAttr<I>(&s.o), "attr");
            r = V(s.next()); s.same("attr");
        }
        template<class T, class V> static void direct(State<O>&, const T&, std::false_type) {}
    };
    static void run(vh::Case& c, const char* w, const int* p, const bool* d, const char* const* nm, int n) {
        c.desc(w);
        auto t = Tr<O>::getTraits(); typedef typename Tr<O>::traitsType T; T u(t);
        VH_CHECK(c, T::size() == Tr<O>::size() && t.size() == Tr<O>::size(), "size", w);
        std::vector<std::string> names; std::vector<unsigned> idx; O o; std::vector<double> vals, want; for (int i = 0; i <= n; i++) o.put(i, double(c.rng.range(0, 200)));
        t.apply([&](unsigned i, const auto& r, const std::string& s) { idx.push_back(i); names.push_back(s); vals.push_back(double(r.getValue(o))); });
        u.apply([&](const auto& r, const std::string& s) { names.push_back(s); vals.push_back(double(r.getValue(o))); });
        VH_CHECK(c, names.size() == 2 * T::size() && idx.size() == T::size(), "apply", w << " visited " << names.size());
        for (unsigned i = 0; i < 2 * T::size(); i++) { unsigned j = i % T::size(); VH_CHECK(c, names[i] == nm[j] && vals[i] == o.at(p[j]) && idx[j] == j, "apply", w << " attribute " << j << " name " << names[i]); }
        State<O> st{c, w, p, d, nm, n}; At<0>::run(st, u); c.ev("traits");
    }
};
}
#endif
