#include "C08.h"
template<class M> void all3(vh::Case& c, M& m, const Ref<3>& r) {
    checkPair<0,1,3>(c,m,r); checkPair<0,2,3>(c,m,r); checkPair<0,3,3>(c,m,r); checkPair<1,0,3>(c,m,r); checkPair<1,2,3>(c,m,r); checkPair<1,3,3>(c,m,r);
    checkPair<2,0,3>(c,m,r); checkPair<2,1,3>(c,m,r); checkPair<2,3,3>(c,m,r); checkPair<3,0,3>(c,m,r); checkPair<3,1,3>(c,m,r); checkPair<3,2,3>(c,m,r); c.ev("meshes");
}
VH_SECTION(traverse3d, 160, 2500) {
    Ref<3> r = scramble<3>(random3(c.rng), c.rng); c.desc(r.text()); c.distinct(r.hash()); c.sample(r.text().substr(0, 200));
    turns<3>(c, r, [&](const Ref<3>& r) { auto& m = living<3, UnstructuredMesh<3, size_t, double>>(r); all3(c, m, r); }, false);
}
VH_SECTION(traverse3dReserve, 100, 1500) {
    Ref<3> r = scramble<3>(random3(c.rng), c.rng); c.desc(r.text()); c.distinct(r.hash());
    turns<3>(c, r, [&](const Ref<3>& r) { auto& m = living<3, UnstructuredMesh<3, unsigned, double, 9>>(r); all3(c, m, r); }, false);
}
VH_SECTION(large3d, 3, 20) { Big big(c.index); Ref<3> r = scramble<3>(random3(c.rng), c.rng); c.desc(r.text()); c.distinct(r.hash()); UnstructuredMesh<3, size_t, double> m; fill<3>(m, r); all3(c, m, r); c.ev("cells of large meshes", r.n(3)); }
