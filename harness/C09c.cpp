#include "C08.h"
VH_SECTION(neighbors4d, 40, 400) {
    Ref<4> r = scramble<4>(random4(c.rng), c.rng); c.desc(r.text()); c.distinct(r.hash());
    turns<4>(c, r, [&](const Ref<4>& r) { auto& m = living<4, UnstructuredMesh<4, size_t, double>>(r);
    checkNb<4,3,4>(c,m,r); checkNb<4,2,4>(c,m,r); checkNb<3,1,3>(c,m,r); checkNb<0,1,0>(c,m,r); checkNb<2,3,4>(c,m,r); }, false);
    c.ev("meshes");
}
