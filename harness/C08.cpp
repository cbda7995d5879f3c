#include "C08.h"
VH_SECTION(traverse2d, 240, 3000) {
    Ref<2> r = scramble<2>(random2(c.rng, c.rng.chance(.3)), c.rng); c.desc(r.text()); c.distinct(r.hash()); c.sample(r.text().substr(0, 200));
    turns<2>(c, r, [&](const Ref<2>& r) { auto& m = living<2, UnstructuredMesh<2, size_t, double>>(r);
    checkPair<0,1,2>(c,m,r); checkPair<0,2,2>(c,m,r); checkPair<1,0,2>(c,m,r); checkPair<1,2,2>(c,m,r); checkPair<2,0,2>(c,m,r); checkPair<2,1,2>(c,m,r); checkPair<1,1,2>(c,m,r); checkPair<2,2,2>(c,m,r); }, false);
    c.ev("meshes");
}
VH_SECTION(traverse2dInt, 60, 600) {
    Ref<2> r = scramble<2>(random2(c.rng), c.rng); c.desc(r.text()); c.distinct(r.hash());
    turns<2>(c, r, [&](const Ref<2>& r) { auto& m = living<2, UnstructuredMesh<2, int, float>>(r);
    checkPair<0,1,2>(c,m,r); checkPair<0,2,2>(c,m,r); checkPair<1,2,2>(c,m,r); checkPair<2,0,2>(c,m,r); checkPair<2,1,2>(c,m,r); }, false);
    c.ev("meshes");
}
VH_SECTION(large2d, 3, 30) { Big big(c.index); Ref<2> r = scramble<2>(random2(c.rng), c.rng); c.desc(r.text()); c.distinct(r.hash()); UnstructuredMesh<2, unsigned, double> m; fill<2>(m, r); checkPair<0,1,2>(c,m,r); checkPair<0,2,2>(c,m,r); checkPair<1,0,2>(c,m,r); checkPair<1,2,2>(c,m,r); checkPair<2,0,2>(c,m,r); checkPair<2,1,2>(c,m,r); c.ev("meshes"); c.ev("cells of large meshes", r.n(2)); }
VH_SECTION(huge2d, 1, 4) { Ref<2> r = scramble<2>(grid2(258 + static_cast<int>(c.rng.below(5))), c.rng); c.desc(r.text()); c.distinct(r.hash()); UnstructuredMesh<2, unsigned, float> m; fill<2>(m, r); checkPair<0,2,2>(c,m,r); checkPair<2,0,2>(c,m,r); checkPair<1,2,2>(c,m,r); c.ev("meshes"); c.ev("cells of large meshes", r.n(2)); }
