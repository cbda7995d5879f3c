#include "C08.h"
VH_SECTION(traverse4d, 60, 800) {
    Ref<4> r = scramble<4>(random4(c.rng), c.rng); c.desc(r.text()); c.distinct(r.hash()); c.sample(r.text().substr(0, 200));
    turns<4>(c, r, [&](const Ref<4>& r) { auto& m = living<4, UnstructuredMesh<4, size_t, double>>(r);
    checkPair<0,4,4>(c,m,r); checkPair<1,2,4>(c,m,r); checkPair<2,4,4>(c,m,r); checkPair<3,4,4>(c,m,r); checkPair<4,3,4>(c,m,r); checkPair<4,2,4>(c,m,r); checkPair<4,1,4>(c,m,r); checkPair<4,0,4>(c,m,r); checkPair<3,1,4>(c,m,r); checkPair<2,0,4>(c,m,r); checkPair<3,2,4>(c,m,r); }, false);
    c.ev("meshes");
}
VH_SECTION(traverse4dReserve, 30, 400) {
    Ref<4> r = scramble<4>(random4(c.rng), c.rng); c.desc(r.text()); c.distinct(r.hash());
    turns<4>(c, r, [&](const Ref<4>& r) { auto& m = living<4, UnstructuredMesh<4, unsigned, double, 8, 6>>(r);
    checkPair<0,3,4>(c,m,r); checkPair<1,4,4>(c,m,r); checkPair<2,3,4>(c,m,r); checkPair<4,2,4>(c,m,r); checkPair<3,0,4>(c,m,r); }, false);
    c.ev("meshes");
}
