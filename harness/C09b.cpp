#include "C08.h"
VH_SECTION(neighbors3d, 200, 2500) {
    Ref<3> r = scramble<3>(random3(c.rng), c.rng); c.desc(r.text()); c.distinct(r.hash()); c.sample(r.text().substr(0, 200));
    turns<3>(c, r, [&](const Ref<3>& r) { auto& m = living<3, UnstructuredMesh<3, size_t, double>>(r);
    checkNb<3,2,3>(c,m,r); checkNb<3,0,3>(c,m,r); checkNb<3,1,3>(c,m,r); checkNb<0,1,0>(c,m,r); checkNb<1,2,1>(c,m,r); checkNb<2,3,2>(c,m,r); checkNb<2,1,3>(c,m,r); checkNb<0,3,1>(c,m,r); checkNb<3,1,0>(c,m,r); checkNb<2,0,2>(c,m,r); }, false);
    c.ev("meshes");
}
VH_SECTION(neighbors3dReserve, 80, 800) {
    Ref<3> r = scramble<3>(random3(c.rng), c.rng); c.desc(r.text()); c.distinct(r.hash());
    turns<3>(c, r, [&](const Ref<3>& r) { auto& m = living<3, UnstructuredMesh<3, int, double, 9>>(r);
    checkNb<3,2,3>(c,m,r); checkNb<3,0,3>(c,m,r); checkNb<1,3,1>(c,m,r); checkNb<0,2,3>(c,m,r); }, false);
    c.ev("meshes");
}
VH_SECTION(large3d, 3, 20) { Big big(c.index); Ref<3> r = scramble<3>(random3(c.rng), c.rng); c.desc(r.text()); c.distinct(r.hash()); UnstructuredMesh<3, size_t, double> m; fill<3>(m, r); checkNb<3,2,3>(c,m,r); checkNb<0,1,0>(c,m,r); checkNb<3,0,3>(c,m,r); c.ev("meshes"); c.ev("cells of large meshes", r.n(3)); }
