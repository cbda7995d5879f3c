#include "C08.h"
VH_SECTION(color2d, 400, 4000) {
    Ref<2> r = scramble<2>(random2(c.rng, c.rng.chance(.3)), c.rng); c.desc(r.text()); c.distinct(r.hash()); c.sample(r.text().substr(0, 200));
    turns<2>(c, r, [&](const Ref<2>& r) { auto& m = living<2, UnstructuredMesh<2, size_t, double>>(r);
    checkColor<2,1>(c,m,r); checkColor<2,0>(c,m,r); checkColor<1,0>(c,m,r); checkColor<1,2>(c,m,r); checkColor<0,1>(c,m,r); checkColor<0,2>(c,m,r); }, false);
    c.ev("meshes");
}
VH_SECTION(colorFan, 60, 300) {
    int k = c.rng.chance(.5) ? static_cast<int>(c.rng.range(3, 90)) : static_cast<int>(c.rng.pick(std::vector<int>{15, 16, 17, 31, 32, 33, 63, 64, 65}));
    Ref<2> r = scramble<2>(fan2(k), c.rng); c.desc("fan " + std::to_string(k) + " " + r.text()); c.distinct(r.hash());
    turns<2>(c, r, [&](const Ref<2>& r) { auto& m = living<2, UnstructuredMesh<2, unsigned, float>>(r);
    checkColor<2,0>(c,m,r); checkColor<1,0>(c,m,r); checkColor<0,1>(c,m,r); checkColor<2,1>(c,m,r); }, false);
    c.ev("meshes");
}
VH_SECTION(colorEmpty, 1, 1) {
    c.desc("mesh without elements"); c.distinct(1);
    UnstructuredMesh<2, size_t, double> m;
    VH_CHECK(c, (m.coloring<2,0>().getDataByPos<0>().empty()), "color-empty", "colouring of an empty mesh is not empty");
    VH_CHECK(c, (m.coloring<0,2>().getDataByPos<0>().empty()), "color-empty", "colouring of an empty mesh is not empty");
    VH_CHECK(c, (m.coloring<2,0,METHOD_RANDOM>(3).getDataByPos<0>().empty()), "color-empty", "colouring of an empty mesh is not empty");
}
VH_SECTION(large2d, 3, 20) { Big big(c.index); Ref<2> r = scramble<2>(random2(c.rng), c.rng); c.desc(r.text()); c.distinct(r.hash()); UnstructuredMesh<2, int, double> m; fill<2>(m, r); checkColor<2,1>(c,m,r); checkColor<2,0>(c,m,r); checkColor<0,1>(c,m,r); c.ev("meshes"); c.ev("cells of large meshes", r.n(2)); }
VH_SECTION(huge2d, 1, 3) { Ref<2> r = scramble<2>(grid2(258 + static_cast<int>(c.rng.below(5))), c.rng); c.desc(r.text()); c.distinct(r.hash()); UnstructuredMesh<2, unsigned, float> m; fill<2>(m, r); checkColor<2,0>(c,m,r); c.ev("meshes"); c.ev("cells of large meshes", r.n(2)); }
