// Random record calls of the HTML logger, see C33.cpp.
#include "json.h"
#include <GTMesh/Debug/HTMLLogger.h>
using namespace js;
struct Put { // one record call of 1..4 random variables
    vh::Case& c; HtmlLogger& l; std::vector<Rec>& to; long group; bool str;
    template<class A> void one() { A a = rnd<A>(c.rng); std::string n = name(c.rng), f = file(c.rng); long ln = c.rng.range(0, 100000); if (str) l.writeVar(int(ln), f, n.c_str(), a); else l.writeVar(int(ln), f.c_str(), n.c_str(), a); to.push_back(rec(group, ln, f, n, a)); }
    template<class A, class B> void two() { A a = rnd<A>(c.rng); B b = rnd<B>(c.rng); std::string n = name(c.rng), n2 = name(c.rng), f = file(c.rng); long ln = c.rng.range(0, 100000); if (str) l.writeVar(int(ln), f, n.c_str(), a, n2.c_str(), b); else l.writeVar(int(ln), f.c_str(), n.c_str(), a, n2.c_str(), b); to.push_back(rec(group, ln, f, n, a)); to.push_back(rec(group, ln, f, n2, b)); }
    template<class A, class B, class C, class D> void four() { A a = rnd<A>(c.rng); B b = rnd<B>(c.rng); C d = rnd<C>(c.rng); D e = rnd<D>(c.rng); std::string n = name(c.rng), f = file(c.rng); long ln = c.rng.range(0, 100000); l.writeVar(int(ln), f.c_str(), n.c_str(), a, "b", b, "c \"\"", d, "d\\", e); to.push_back(rec(group, ln, f, n, a)); to.push_back(rec(group, ln, f, "b", b)); to.push_back(rec(group, ln, f, "c \"\"", d)); to.push_back(rec(group, ln, f, "d\\", e)); }
};
