#include "C08.h"
VH_SECTION(color4d, 40, 300) {
    Ref<4> r = scramble<4>(random4(c.rng), c.rng); c.desc(r.text()); c.distinct(r.hash());
    turns<4>(c, r, [&](const Ref<4>& r) { auto& m = living<4, UnstructuredMesh<4, size_t, double>>(r);
    checkColor<4,3>(c,m,r); checkColor<4,0>(c,m,r); checkColor<3,1>(c,m,r); checkColor<0,4>(c,m,r); }, false);
    c.ev("meshes");
}
