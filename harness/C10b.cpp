#include "C08.h"
VH_SECTION(color3d, 160, 2000) {
    Ref<3> r = scramble<3>(random3(c.rng), c.rng); c.desc(r.text()); c.distinct(r.hash()); c.sample(r.text().substr(0, 200));
    turns<3>(c, r, [&](const Ref<3>& r) { auto& m = living<3, UnstructuredMesh<3, size_t, double>>(r);
    checkColor<3,2>(c,m,r); checkColor<3,0>(c,m,r); checkColor<3,1>(c,m,r); checkColor<2,1>(c,m,r); checkColor<0,1>(c,m,r); checkColor<2,3>(c,m,r); checkColor<1,3>(c,m,r); checkColor<0,3>(c,m,r); }, false);
    c.ev("meshes");
}
VH_SECTION(colorFan3, 30, 150) {
    int k = c.rng.chance(.5) ? static_cast<int>(c.rng.range(3, 60)) : static_cast<int>(c.rng.pick(std::vector<int>{16, 17, 32, 33, 34}));
    Ref<3> r = scramble<3>(fan3(k), c.rng); c.desc("fan " + std::to_string(k) + " " + r.text()); c.distinct(r.hash());
    turns<3>(c, r, [&](const Ref<3>& r) { auto& m = living<3, UnstructuredMesh<3, unsigned, double, 4>>(r);
    checkColor<3,1>(c,m,r); checkColor<3,0>(c,m,r); checkColor<2,1>(c,m,r); checkColor<1,2>(c,m,r); }, false);
    c.ev("meshes");
}
VH_SECTION(large3d, 3, 20) { Big big(c.index); Ref<3> r = scramble<3>(random3(c.rng), c.rng); c.desc(r.text()); c.distinct(r.hash()); UnstructuredMesh<3, size_t, double> m; fill<3>(m, r); checkColor<3,2>(c,m,r); checkColor<3,0>(c,m,r); checkColor<2,1>(c,m,r); c.ev("meshes"); c.ev("cells of large meshes", r.n(3)); }
