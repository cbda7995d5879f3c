// C16: cell/boundary connection of faces as a state machine, boundary-index codec, boundary cells of a mesh.
#include "geo.h"
using namespace mg;

namespace {
template<class I> struct Model { // what the documentation of the connection classes says
    I l, r, nl, nr;
    static I inv() { return std::numeric_limits<I>::max(); }
    Model() : l(inv()), r(inv()), nl(inv()), nr(inv()) {}
    bool setCell(I c) { if (c == inv()) return false; if (l == inv()) { l = c; return true; } if (r == inv()) { r = c; return true; } return false; }
    bool setNext(I n, I c) {
        if (c == inv()) return false;
        if (l == c) { nl = n; return true; }
        if (r == c) { nr = n; return true; }
        if (l == inv()) { l = c; nl = n; return true; }
        if (r == inv()) { r = c; nr = n; return true; }
        return false;
    }
};
template<class I, class F> void compare(vh::Case& c, const F& f, const Model<I>& m, const std::string& hist) {
    VH_CHECK(c, f.getCellLeftIndex() == m.l && f.getCellRightIndex() == m.r, "cells", "left/right " << +f.getCellLeftIndex() << "," << +f.getCellRightIndex() << " expected " << +m.l << "," << +m.r << " after" << hist);
    VH_CHECK(c, f.getNextBElemWRTCL() == m.nl && f.getNextBElemWRTCR() == m.nr, "next", "next left/right " << +f.getNextBElemWRTCL() << "," << +f.getNextBElemWRTCR() << " expected " << +m.nl << "," << +m.nr << " after" << hist);
    VH_CHECK(c, f.cellsOK() == (m.l != m.inv() && m.r != m.inv()), "cellsOK", "after" << hist);
    c.ev("observed_states");
}
template<class I> void machine(vh::Case& c) {
    CellBoundaryConnection<I> f; Model<I> m; std::string hist;
    const I inv = Model<I>::inv(), bnd = I(1) << (std::numeric_limits<I>::digits - 1);
    std::vector<I> pool{0, 1, 2, 3, I(bnd | 0), I(bnd | 1), I(bnd - 1), inv};
    int n = int(c.rng.range(3, 30));
    compare(c, f, m, " construction");
    for (int i = 0; i < n; i++) {
        I cell = c.rng.pick(pool), nx = c.rng.chance(.1) ? inv : I(c.rng.below(100));
        switch (c.rng.below(8)) {
        case 0: { hist += " setCellIndex(" + vh::str(+cell) + ")"; if (cell == m.l || cell == m.r) { if (cell != inv) break; } bool a = f.setCellIndex(cell), b = m.setCell(cell); VH_CHECK(c, a == b, "setCellIndex", "returned " << a << " after" << hist); break; }
        case 1: if (cell == m.r && cell != inv) break; hist += " setLeft(" + vh::str(+cell) + ")"; f.setCellLeftIndex(cell); m.l = cell; break;
        case 2: if (cell == m.l && cell != inv) break; hist += " setRight(" + vh::str(+cell) + ")"; f.setCellRightIndex(cell); m.r = cell; break;
        case 3: case 4: { hist += " setNext(" + vh::str(+nx) + "," + vh::str(+cell) + ")"; bool a = f.setNextBElem(nx, cell), b = m.setNext(nx, cell); VH_CHECK(c, a == b, "setNextBElem", "returned " << a << " after" << hist); break; }
        case 5: hist += " swap"; f.swapCellsLR(); std::swap(m.l, m.r); std::swap(m.nl, m.nr); break;
        case 6: hist += " setNextWRTCL"; f.setNextBElemWRTCL(nx); m.nl = nx; break;
        default: hist += " setNextWRTCR"; f.setNextBElemWRTCR(nx); m.nr = nx; break;
        }
        compare(c, f, m, hist);
        for (I q : pool) { // queries by cell
            bool known = q != inv && (q == m.l || q == m.r);
            if (known) {
                I o = f.getOtherCellIndex(q), nb = f.getNextBElem(q);
                VH_CHECK(c, o == (q == m.l ? m.r : m.l), "getOtherCellIndex", "other than " << +q << " is " << +o << " after" << hist);
                VH_CHECK(c, nb == (q == m.l ? m.nl : m.nr), "getNextBElem", "next of " << +q << " is " << +nb << " after" << hist);
                c.ev("answered_queries", 2);
            } else {
                VH_THROWS(c, f.getOtherCellIndex(q), "getOtherCellIndex", "cell " << +q << " after" << hist);
                VH_THROWS(c, f.getNextBElem(q), "getNextBElem", "cell " << +q << " after" << hist);
                c.ev("rejected_queries", 2);
            }
        }
        compare(c, f, m, hist);
    }
    c.distinct(vh::hashStr(hist)); c.sample(hist);
}
template<class I> void codec(vh::Case& c) {
    const I bnd = I(I(1) << (std::numeric_limits<I>::digits - 1)), inv = std::numeric_limits<I>::max();
    for (int k = 0; k < 200; k++) {
        I i = k < 20 ? I(k % bnd) : k < 40 ? I(bnd - 1 - (k - 20) % bnd) : I(I(c.rng.u64() & uint64_t(bnd - 1)));
        VH_CHECK(c, !isBoundaryIndex(i) && !isInvalidIndex(i), "codec", +i << " is a plain index");
        I b = makeBoundaryIndex(i);
        VH_CHECK(c, isBoundaryIndex(b) && extractBoundaryIndex(b) == i && makeBoundaryIndex(b) == b && extractBoundaryIndex(i) == i, "codec", "boundary form of " << +i);
        VH_CHECK(c, (i == I(bnd - 1)) == isInvalidIndex(b), "codec", "invalid only for the all-ones pattern: " << +i);
        c.ev("indexes");
    }
    VH_CHECK(c, isInvalidIndex(inv) && INVALID_INDEX(I) == inv && BOUNDARY_INDEX(I) == bnd, "codec", "invalid index");
}
template<unsigned D, class M> void boundary(vh::Case& c, const Ref<D>& r) {
    typedef typename std::decay<decltype(std::declval<M>().getVertices()[0].getIndex())>::type I;
    M m; fill<D>(m, r);
    m.initializeCenters();
    auto alone = [&](size_t like) { auto f = m.getFaces().at(like); f.setIndex(I(m.getFaces().size())); f.setCellLeftIndex(INVALID_INDEX(I)); f.setCellRightIndex(INVALID_INDEX(I)); m.getFaces().push_back(f); c.ev("faces_without_cells"); };
    if (c.index % 2) for (size_t k = 1 + c.rng.below(4); k--;) alone(c.rng.below(m.getFaces().size())); // faces which no cell uses
    std::vector<std::pair<I, I>> before; for (auto& f : m.getFaces()) before.push_back({f.getCellLeftIndex(), f.getCellRightIndex()});
    VH_CHECK(c, m.getBoundaryCells().empty(), "boundary-cells", "a mesh starts with boundary cells");
    m.setupBoundaryCells();
    std::map<I, size_t> owner; size_t slots = 0;
    for (auto& f : m.getFaces()) {
        auto b = before[f.getIndex()];
        for (int side = 0; side < 2; side++) {
            I was = side ? b.second : b.first, is = side ? f.getCellRightIndex() : f.getCellLeftIndex();
            if (!isInvalidIndex(was)) { VH_CHECK(c, is == was, "face-cells", "face " << f.getIndex() << " cell " << was << " became " << is); continue; }
            slots++;
            VH_CHECK(c, isBoundaryIndex(is) && !isInvalidIndex(is), "face-cells", "face " << f.getIndex() << " has no boundary cell");
            VH_CHECK(c, owner.emplace(is, f.getIndex()).second, "boundary-cells", "boundary cell " << is << " used twice");
            I k = extractBoundaryIndex(is);
            VH_CHECK(c, size_t(k) < m.getBoundaryCells().size(), "boundary-cells", "face " << f.getIndex() << " refers to boundary cell " << k << " of " << m.getBoundaryCells().size());
            auto& bc = m.getBoundaryCells()[k];
            VH_CHECK(c, bc.getIndex() == is && size_t(bc.getBoundaryElementIndex()) == size_t(f.getIndex()), "boundary-cells", "boundary cell " << k << " belongs to face " << bc.getBoundaryElementIndex() << " index " << bc.getIndex());
            VH_CHECK(c, f.getOtherCellIndex(side ? f.getCellLeftIndex() : f.getCellRightIndex()) == is, "face-cells", "other cell of face " << f.getIndex());
            c.ev("boundary_slots");
        }
        VH_CHECK(c, f.cellsOK(), "face-cells", "face " << f.getIndex() << " is not complete");
    }
    VH_CHECK(c, m.getBoundaryCells().size() == slots, "boundary-cells", m.getBoundaryCells().size() << " boundary cells for " << slots << " boundary sides");
    m.setupBoundaryCellsCenters();
    for (auto& bc : m.getBoundaryCells()) for (unsigned k = 0; k < D; k++) VH_CHECK(c, bc.getCenter()[k] == m.getFaces()[bc.getBoundaryElementIndex()].getCenter()[k], "boundary-centers", "cell " << bc.getIndex());
    // doing it again changes nothing
    size_t nb = m.getBoundaryCells().size();
    std::vector<std::pair<I, I>> mid; for (auto& f : m.getFaces()) mid.push_back({f.getCellLeftIndex(), f.getCellRightIndex()});
    m.setupBoundaryCells();
    VH_CHECK(c, m.getBoundaryCells().size() == nb, "idempotent", "a second setup adds boundary cells");
    for (auto& f : m.getFaces()) VH_CHECK(c, mid[f.getIndex()] == std::make_pair(f.getCellLeftIndex(), f.getCellRightIndex()), "idempotent", "face " << f.getIndex());
    // sides which come later get theirs, the others keep theirs
    if (c.index % 3 == 0) {
        alone(c.rng.below(m.getFaces().size())); m.setupBoundaryCells();
        for (auto& f : m.getFaces()) if (size_t(f.getIndex()) < mid.size()) VH_CHECK(c, mid[f.getIndex()] == std::make_pair(f.getCellLeftIndex(), f.getCellRightIndex()), "later-face", "face " << f.getIndex());
        auto& f = m.getFaces().back();
        VH_CHECK(c, m.getBoundaryCells().size() == nb + 2 && isBoundaryIndex(f.getCellLeftIndex()) && isBoundaryIndex(f.getCellRightIndex()) && f.getCellLeftIndex() != f.getCellRightIndex(), "later-face", "a face added later has cells " << f.getCellLeftIndex() << " " << f.getCellRightIndex());
        for (I s : {f.getCellLeftIndex(), f.getCellRightIndex()}) VH_CHECK(c, size_t(extractBoundaryIndex(s)) >= nb && size_t(extractBoundaryIndex(s)) < nb + 2 && size_t(m.getBoundaryCells().at(extractBoundaryIndex(s)).getBoundaryElementIndex()) == size_t(f.getIndex()), "later-face", "boundary cell " << s);
    }
    // a swapped face keeps the loop around each of its cells
    for (size_t k = 0; k < m.getFaces().size(); k++) if (c.rng.chance(.5)) m.getFaces()[k].swapCellsLR();
    for (auto& cell : m.getCells()) {
        std::set<int> seen; I f = cell.getBoundaryElementIndex();
        do { VH_CHECK(c, seen.insert(int(f)).second && seen.size() <= r.e[D][cell.getIndex()].size(), "loop-after-swap", "cell " << cell.getIndex() << " face " << f << " met twice"); f = m.getFaces().at(f).getNextBElem(cell.getIndex()); } while (f != cell.getBoundaryElementIndex());
        VH_CHECK(c, seen == std::set<int>(r.e[D][cell.getIndex()].begin(), r.e[D][cell.getIndex()].end()), "loop-after-swap", "cell " << cell.getIndex() << " loops over " << vh::strv(seen));
        c.ev("loops");
    }
    // a cleared mesh is empty and can be built again
    m.clear();
    VH_CHECK(c, m.getVertices().empty() && m.getEdges().empty() && m.getFaces().empty() && m.getCells().empty() && m.getBoundaryCells().empty(), "clear", "something is left: " << m.getBoundaryCells().size() << " boundary cells");
    fill<D>(m, r);
    slots = 0; for (auto& f : m.getFaces()) slots += isInvalidIndex(f.getCellLeftIndex()) + isInvalidIndex(f.getCellRightIndex());
    m.setupBoundaryCells();
    VH_CHECK(c, m.getBoundaryCells().size() == slots, "clear", "rebuilt mesh has " << m.getBoundaryCells().size() << " boundary cells, expected " << slots);
    c.ev("meshes");
}
}
VH_SECTION(connectionSizeT, 1200, 20000) { machine<size_t>(c); }
VH_SECTION(connectionUint, 600, 10000) { machine<unsigned>(c); }
VH_SECTION(connectionInt, 600, 10000) { machine<int>(c); }
VH_SECTION(connectionUint16, 600, 10000) { machine<uint16_t>(c); }
VH_SECTION(boundaryCodec, 40, 400) { codec<size_t>(c); codec<uint32_t>(c); codec<uint16_t>(c); codec<uint8_t>(c); codec<int>(c); codec<long>(c); c.distinct(c.rng.u64()); }
VH_SECTION(boundary2d, 150, 2000) { Ref<2> r = scramble<2>(random2(c.rng), c.rng); c.desc(r.text()); c.distinct(r.hash()); if (c.index % 3) boundary<2, UnstructuredMesh<2, size_t, double>>(c, r); else boundary<2, UnstructuredMesh<2, int, float>>(c, r); }
VH_SECTION(boundary3d, 150, 2000) { Ref<3> r = scramble<3>(random3(c.rng), c.rng); c.desc(r.text()); c.distinct(r.hash()); if (c.index % 3) boundary<3, UnstructuredMesh<3, size_t, double>>(c, r); else boundary<3, UnstructuredMesh<3, unsigned, double>>(c, r); }
VH_SECTION(boundary4d, 30, 300) { Ref<4> r = scramble<4>(random4(c.rng), c.rng); c.desc(r.text()); c.distinct(r.hash()); boundary<4, UnstructuredMesh<4, size_t, double>>(c, r); }
VH_SECTION(large, 4, 40) { Big big(c.index); Ref<2> r = scramble<2>(random2(c.rng), c.rng); c.desc(r.text()); c.distinct(r.hash()); boundary<2, UnstructuredMesh<2, unsigned, double>>(c, r); Ref<3> q = scramble<3>(random3(c.rng), c.rng); c.desc(q.text()); boundary<3, UnstructuredMesh<3, int, double>>(c, q); c.ev("cells of large meshes", r.n(2) + q.n(3)); }
VH_SECTION(huge2d, 1, 3) { Ref<2> r = scramble<2>(grid2(258), c.rng); c.desc(r.text()); c.distinct(r.hash()); boundary<2, UnstructuredMesh<2, unsigned, float>>(c, r); c.ev("cells of large meshes", r.n(2)); }
