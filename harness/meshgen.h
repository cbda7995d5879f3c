// Reference meshes: plain index/coordinate tables built without any GTMesh code,
// random generators for 2D/3D/4D, and conversion into GTMesh meshes through the
// public element API.
#ifndef MESHGEN_H
#define MESHGEN_H
#include <memory>
#include "vh.h"
#include <array>
#include "GTMesh/UnstructuredMesh/UnstructuredMesh.h"

namespace mg {
using vh::Rng;
typedef std::vector<int> IV;

template<unsigned D> using Pt = std::array<double, D>;
template<unsigned D> Pt<D> sub(const Pt<D>& a, const Pt<D>& b) { Pt<D> r; for (unsigned i = 0; i < D; i++) r[i] = a[i] - b[i]; return r; }
template<unsigned D> Pt<D> add(const Pt<D>& a, const Pt<D>& b) { Pt<D> r; for (unsigned i = 0; i < D; i++) r[i] = a[i] + b[i]; return r; }
template<unsigned D> Pt<D> mul(const Pt<D>& a, double s) { Pt<D> r; for (unsigned i = 0; i < D; i++) r[i] = a[i] * s; return r; }
template<unsigned D> double dot(const Pt<D>& a, const Pt<D>& b) { double r = 0; for (unsigned i = 0; i < D; i++) r += a[i] * b[i]; return r; }
template<unsigned D> double len(const Pt<D>& a) { return std::sqrt(dot<D>(a, a)); }
inline Pt<3> cross(const Pt<3>& a, const Pt<3>& b) { return Pt<3>{{a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0]}}; }

template<unsigned D>
struct Ref {
    std::vector<Pt<D>> v;
    std::array<std::vector<IV>, D + 1> e;   // e[k][i]: indices of (k-1)-elements; e[1][i] = {A,B}
    IV L, R;                                // cells at the left/right of each face (-1: none)
    std::vector<double> vol;                // measure of each cell, known from the construction
    std::vector<char> convex;               // cell and all its faces are convex
    std::array<std::map<IV, int>, D + 1> key;
    size_t n(unsigned k) const { return k == 0 ? v.size() : e[k].size(); }

    int addVertex(const Pt<D>& p) { v.push_back(p); return static_cast<int>(v.size()) - 1; }
    int addEdge(int a, int b) {
        IV k{std::min(a, b), std::max(a, b)};
        auto it = key[1].find(k);
        if (it != key[1].end()) return it->second;
        int id = static_cast<int>(e[1].size());
        e[1].push_back(IV{a, b}); key[1][k] = id; if (D == 2) { L.push_back(-1); R.push_back(-1); } return id;
    }
    int addElem(unsigned k, const IV& subs) {
        IV s = subs; std::sort(s.begin(), s.end());
        auto it = key[k].find(s);
        if (it != key[k].end()) return it->second;
        int id = static_cast<int>(e[k].size());
        e[k].push_back(subs); key[k][s] = id; if (k == D - 1) { L.push_back(-1); R.push_back(-1); } return id;
    }
    int addLoop(const IV& loop) { // a 2-dimensional element from its vertex loop
        IV ed; for (size_t i = 0; i < loop.size(); i++) ed.push_back(addEdge(loop[i], loop[(i + 1) % loop.size()]));
        return addElem(2, ed);
    }
    int addCell(const IV& faces, double volume, bool conv) {
        int id = static_cast<int>(e[D].size());
        e[D].push_back(faces); vol.push_back(volume); convex.push_back(conv);
        for (int f : faces) { if (L[f] < 0) L[f] = id; else if (R[f] < 0) R[f] = id; else throw std::logic_error("refmesh: face with three cells"); }
        return id;
    }
    // all sub-elements of dimension t of element i of dimension k (with repetition, in traversal order)
    void down(unsigned k, int i, unsigned t, IV& out) const {
        if (k == t) { out.push_back(i); return; }
        for (int s : e[k][i]) { if (k == 1) out.push_back(s); else down(k - 1, s, t, out); }
    }
    std::set<int> closure(unsigned k, int i, unsigned t) const { IV o; down(k, i, t, o); return std::set<int>(o.begin(), o.end()); }
    IV loopOf(int f) const { // vertex loop of a 2-dim element whose edges may be in any order
        const IV& ed = e[2][f];
        IV loop; std::vector<char> used(ed.size(), 0);
        loop.push_back(e[1][ed[0]][0]); int curv = e[1][ed[0]][1]; used[0] = 1;
        while (loop.size() < ed.size()) {
            loop.push_back(curv); bool ok = false;
            for (size_t j = 0; j < ed.size(); j++) if (!used[j]) {
                const IV& x = e[1][ed[j]];
                if (x[0] == curv || x[1] == curv) { curv = x[0] == curv ? x[1] : x[0]; used[j] = 1; ok = true; break; }
            }
            if (!ok) throw std::logic_error("refmesh: face is not a loop");
        }
        return loop;
    }
    std::string text() const {
        std::ostringstream o; o.precision(17);
        o << "D=" << D; for (unsigned k = 0; k <= D; k++) o << " n" << k << "=" << n(k);
        if (n(D) <= 12) {
            o << " verts:"; for (auto& p : v) { o << "("; for (double x : p) o << x << " "; o << ")"; }
            for (unsigned k = 1; k <= D; k++) { o << " e" << k << ":"; for (auto& s : e[k]) { o << "{"; for (int x : s) o << x << " "; o << "}"; } }
            o << " L:"; for (int x : L) o << x << " "; o << " R:"; for (int x : R) o << x << " ";
        }
        return o.str();
    }
    uint64_t hash() const {
        uint64_t h = D; for (auto& p : v) for (double x : p) h = vh::comb(h, vh::hashBytes(&x, 8));
        for (unsigned k = 1; k <= D; k++) for (auto& s : e[k]) for (int x : s) h = vh::comb(h, static_cast<uint64_t>(x) + k * 1000003u);
        return h;
    }
};

// drop elements not used by any cell (keeps vertices if keepV)
template<unsigned D> Ref<D> compact(const Ref<D>& r, bool keepV) {
    std::array<IV, D + 1> mp; Ref<D> o;
    for (unsigned k = 0; k < D; k++) mp[k].assign(r.n(k), keepV && k == 0 ? 1 : 0);
    for (size_t c = 0; c < r.n(D); c++) for (unsigned k = 0; k < D; k++) for (int x : r.closure(D, c, k)) mp[k][x] = 1;
    for (unsigned k = 0; k < D; k++) { int id = 0; for (size_t i = 0; i < r.n(k); i++) if (mp[k][i]) {
        mp[k][i] = id++;
        if (k == 0) o.v.push_back(r.v[i]); else { IV s = r.e[k][i]; for (int& x : s) x = mp[k - 1][x]; o.e[k].push_back(s); }
        if (k == D - 1) { o.L.push_back(r.L[i]); o.R.push_back(r.R[i]); }
    } else mp[k][i] = -1; }
    for (size_t c = 0; c < r.n(D); c++) { IV s = r.e[D][c]; for (int& x : s) x = mp[D - 1][x]; o.e[D].push_back(s); }
    o.vol = r.vol; o.convex = r.convex;
    return o;
}
// keep only the given cells
template<unsigned D> Ref<D> select(const Ref<D>& r, const std::vector<char>& keep, bool keepV = false) {
    Ref<D> t = r; IV mp(r.n(D), -1); t.e[D].clear(); t.vol.clear(); t.convex.clear();
    for (size_t c = 0; c < r.n(D); c++) if (keep[c]) { mp[c] = static_cast<int>(t.e[D].size()); t.e[D].push_back(r.e[D][c]); t.vol.push_back(r.vol[c]); t.convex.push_back(r.convex[c]); }
    for (size_t f = 0; f < r.L.size(); f++) { t.L[f] = r.L[f] < 0 ? -1 : mp[r.L[f]]; t.R[f] = r.R[f] < 0 ? -1 : mp[r.R[f]]; }
    return compact<D>(t, keepV);
}
struct ShuffleOpt { bool number = true, vertices = true, flipEdges = true, swapLR = true, ring = true, subs = true, rotate = true; };
// renumber / reorient / reorder everything that does not change the mesh
template<unsigned D> Ref<D> scramble(const Ref<D>& r, Rng& g, ShuffleOpt opt = ShuffleOpt()) {
    std::array<IV, D + 1> p; // p[k][old] = new
    for (unsigned k = 0; k <= D; k++) { p[k].resize(r.n(k)); for (size_t i = 0; i < p[k].size(); i++) p[k][i] = static_cast<int>(i); if (opt.number && (k || opt.vertices)) g.shuffle(p[k]); }
    Ref<D> o; o.v.resize(r.v.size()); for (size_t i = 0; i < r.v.size(); i++) o.v[p[0][i]] = r.v[i];
    for (unsigned k = 1; k <= D; k++) { o.e[k].resize(r.e[k].size()); for (size_t i = 0; i < r.e[k].size(); i++) {
        IV s = r.e[k][i]; for (int& x : s) x = p[k - 1][x];
        if (k == 1) { if (opt.flipEdges && g.chance(.5)) std::swap(s[0], s[1]); }
        else {
            bool full = (k == D) ? opt.ring : opt.subs;
            if (full) g.shuffle(s);
            else if (opt.rotate) { std::rotate(s.begin(), s.begin() + g.below(s.size()), s.end()); if (g.chance(.5)) std::reverse(s.begin(), s.end()); }
        }
        o.e[k][p[k][i]] = s; } }
    o.L.resize(r.L.size()); o.R.resize(r.R.size());
    for (size_t f = 0; f < r.L.size(); f++) { int l = r.L[f] < 0 ? -1 : p[D][r.L[f]], q = r.R[f] < 0 ? -1 : p[D][r.R[f]]; if (opt.swapLR && g.chance(.5)) std::swap(l, q); o.L[p[D - 1][f]] = l; o.R[p[D - 1][f]] = q; }
    o.vol.resize(r.vol.size()); o.convex.resize(r.convex.size());
    for (size_t c = 0; c < r.vol.size(); c++) { o.vol[p[D][c]] = r.vol[c]; o.convex[p[D][c]] = r.convex[c]; }
    return o;
}

// divides some edges by a new vertex, so that faces and cells have consecutive collinear edges (as next to a finer mesh)
template<unsigned D> Ref<D> splitEdges(Ref<D> r, Rng& g, double p, size_t maxEdges = 9) {
    std::vector<IV> in(r.n(1)); for (size_t f = 0; f < r.e[2].size(); f++) for (int x : r.e[2][f]) in[static_cast<size_t>(x)].push_back(static_cast<int>(f));
    for (size_t x = 0, n = r.n(1); x < n; x++) {
        if (!g.chance(p)) continue;
        bool room = true; for (int f : in[x]) room = room && r.e[2][static_cast<size_t>(f)].size() < maxEdges; if (!room) continue;
        int a = r.e[1][x][0], b = r.e[1][x][1]; double t = g.real(.35, .65);
        int m = r.addVertex(add<D>(r.v[static_cast<size_t>(a)], mul<D>(sub<D>(r.v[static_cast<size_t>(b)], r.v[static_cast<size_t>(a)]), t))), y = static_cast<int>(r.e[1].size());
        r.e[1].push_back(IV{m, b}); r.e[1][x] = IV{a, m}; if (D == 2) { r.L.push_back(r.L[x]); r.R.push_back(r.R[x]); }
        for (int f : in[x]) {
            IV& s = r.e[2][static_cast<size_t>(f)]; size_t i = static_cast<size_t>(std::find(s.begin(), s.end(), static_cast<int>(x)) - s.begin()); const IV& q = r.e[1][static_cast<size_t>(s[(i + s.size() - 1) % s.size()])];
            s.insert(s.begin() + static_cast<long>(q[0] == a || q[1] == a ? i + 1 : i), y);
        }
    }
    for (auto& k : r.key) k.clear();
    return r;
}
template<unsigned D> struct Affine {
    double m[D][D]; Pt<D> t; double det;
    static Affine random(Rng& g, double shift = 3) {
        Affine a; double w[D][D];
        for (unsigned i = 0; i < D; i++) { for (unsigned j = 0; j < D; j++) w[i][j] = (i == j ? g.real(.6, 1.7) : (j > i ? g.real(-.4, .4) : 0)); a.t[i] = g.real(-shift, shift); }
        a.det = 1; for (unsigned i = 0; i < D; i++) a.det *= w[i][i];
        // random rotations
        for (unsigned i = 0; i < D; i++) for (unsigned j = i + 1; j < D; j++) { double th = g.real(0, 6.283185307179586), cs = std::cos(th), sn = std::sin(th);
            for (unsigned k = 0; k < D; k++) { double x = w[i][k], y = w[j][k]; w[i][k] = cs * x - sn * y; w[j][k] = sn * x + cs * y; } }
        for (unsigned i = 0; i < D; i++) for (unsigned j = 0; j < D; j++) a.m[i][j] = w[i][j];
        return a;
    }
    static Affine identity() { Affine a; for (unsigned i = 0; i < D; i++) { for (unsigned j = 0; j < D; j++) a.m[i][j] = i == j; a.t[i] = 0; } a.det = 1; return a; }
    Pt<D> operator()(const Pt<D>& p) const { Pt<D> r = t; for (unsigned i = 0; i < D; i++) for (unsigned j = 0; j < D; j++) r[i] += m[i][j] * p[j]; return r; }
};

// ------------------------------------------------------------------ 2D
inline double shoelace(const std::vector<Pt<2>>& v, const IV& loop) {
    double s = 0; for (size_t i = 0; i < loop.size(); i++) { const Pt<2>& a = v[loop[i]]; const Pt<2>& b = v[loop[(i + 1) % loop.size()]]; s += a[0] * b[1] - a[1] * b[0]; } return s / 2;
}
inline bool convexLoop(const std::vector<Pt<2>>& v, const IV& loop) {
    int sg = 0; size_t n = loop.size();
    for (size_t i = 0; i < n; i++) { Pt<2> a = sub<2>(v[loop[(i + 1) % n]], v[loop[i]]), b = sub<2>(v[loop[(i + 2) % n]], v[loop[(i + 1) % n]]); double z = a[0] * b[1] - a[1] * b[0];
        if (std::fabs(z) < 1e-9) continue; int s = z > 0 ? 1 : -1; if (sg && s != sg) return false; sg = s; }
    return true;
}
struct Poly2 { std::vector<Pt<2>> v; std::vector<IV> cells; };
// within the life of a Big object the random meshes have hundreds to a thousand vertices (1), contain
// polygons of hundreds of edges and cells of hundreds of faces (2) or elements around which hundreds of cells lie (3)
inline int& bigMode() { static int b = 0; return b; }
struct Big { Big(size_t kind = 0) { bigMode() = 1 + static_cast<int>(kind % 3); } ~Big() { bigMode() = 0; } };
struct Opt2 { int nx = 3, ny = 3; double jitter = .25; double pTri = .3; double pMerge = .3; double pDrop = .1; unsigned maxPoly = 9; bool onlyConvex = false; };
// a disk with a ring of convex quadrilaterals around it; the disk is one polygon or a fan of triangles
inline Poly2 disk2(Rng& g) {
    Poly2 P; int k = static_cast<int>(g.range(257, 340)); double w = g.real(0, 6.28), R = g.real(1.2, 2), e = g.real(.6, 1.4);
    for (int l = 0; l < 2; l++) for (int i = 0; i < k; i++) { double t = w + 6.283185307179586 * (i + .3 * std::sin(12.566370614359172 * i / k)) / k, r = l ? R : 1; P.v.push_back(Pt<2>{{r * std::cos(t), e * r * std::sin(t)}}); }
    if (bigMode() == 2) { IV c; for (int i = 0; i < k; i++) c.push_back(i); P.cells.push_back(c); }
    else { P.v.push_back(Pt<2>{{0, 0}}); for (int i = 0; i < k; i++) P.cells.push_back(IV{2 * k, i, (i + 1) % k}); }
    for (int i = 0; i < k; i++) if (!g.chance(.1)) P.cells.push_back(IV{i, k + i, k + (i + 1) % k, (i + 1) % k});
    return P;
}
// random polygonal subdivision as vertex loops (counter-clockwise)
inline Poly2 randomPoly2(Rng& g, const Opt2& o) {
    if (bigMode() > 1 && o.maxPoly > 4) return disk2(g);
    Poly2 P; auto id = [&](int i, int j) { return j * (o.nx + 1) + i; };
    for (int j = 0; j <= o.ny; j++) for (int i = 0; i <= o.nx; i++) P.v.push_back(Pt<2>{{i + g.real(-o.jitter, o.jitter), j + g.real(-o.jitter, o.jitter)}});
    for (int j = 0; j < o.ny; j++) for (int i = 0; i < o.nx; i++) {
        IV q{id(i, j), id(i + 1, j), id(i + 1, j + 1), id(i, j + 1)};
        if (g.chance(o.pTri)) {
            int d = static_cast<int>(g.below(2));
            IV t1{q[d], q[d + 1], q[d + 2]}, t2{q[d], q[d + 2], q[(d + 3) % 4]};
            if (shoelace(P.v, t1) > 1e-3 && shoelace(P.v, t2) > 1e-3) { P.cells.push_back(t1); P.cells.push_back(t2); continue; }
        }
        P.cells.push_back(q);
    }
    // merge neighbours whose common boundary is exactly one edge
    int tries = static_cast<int>(o.pMerge * P.cells.size());
    for (int t = 0; t < tries; t++) {
        size_t a = g.below(P.cells.size()); size_t b = P.cells.size(), ia = 0, ib = 0;
        for (size_t x = 0; x < P.cells.size() && b == P.cells.size(); x++) if (x != a)
            for (size_t i = 0; i < P.cells[a].size() && b == P.cells.size(); i++) for (size_t j = 0; j < P.cells[x].size(); j++)
                if (P.cells[a][i] == P.cells[x][(j + 1) % P.cells[x].size()] && P.cells[a][(i + 1) % P.cells[a].size()] == P.cells[x][j]) { b = x; ia = i; ib = j; break; }
        if (b == P.cells.size()) continue;
        const IV &A = P.cells[a], &B = P.cells[b];
        int shared = 0; for (int x : A) for (int y : B) shared += x == y;
        if (shared != 2 || A.size() + B.size() - 2 > o.maxPoly) continue;
        IV M; for (size_t i = 0; i < A.size(); i++) { M.push_back(A[(ia + 1 + i) % A.size()]); } // starts behind the shared edge, ends at its start
        for (size_t j = 0; j + 2 < B.size(); j++) M.push_back(B[(ib + 2 + j) % B.size()]);
        if (o.onlyConvex && !convexLoop(P.v, M)) continue;
        P.cells[a] = M; P.cells.erase(P.cells.begin() + static_cast<long>(b));
    }
    if (o.pDrop > 0) { std::vector<IV> k; for (auto& c : P.cells) if (!g.chance(o.pDrop)) k.push_back(c); if (!k.empty()) P.cells = k; }
    return P;
}
inline Ref<2> fromPoly2(const Poly2& P, const Affine<2>& A) {
    Ref<2> r; for (auto& p : P.v) r.addVertex(A(p));
    for (auto& c : P.cells) { IV ed; for (size_t i = 0; i < c.size(); i++) ed.push_back(r.addEdge(c[i], c[(i + 1) % c.size()])); r.addCell(ed, std::fabs(shoelace(r.v, c)), convexLoop(r.v, c)); }
    return r;
}
inline Ref<2> random2(Rng& g, bool keepV = false, bool onlyConvex = false) {
    Opt2 o; o.nx = static_cast<int>(g.range(1, 6)); o.ny = static_cast<int>(g.range(1, 6)); o.pTri = g.pick(std::vector<double>{0, .3, 1}); o.pMerge = g.pick(std::vector<double>{0, .4, .8}); o.pDrop = g.pick(std::vector<double>{0, 0, .2}); o.onlyConvex = onlyConvex; if (onlyConvex) o.jitter = .2;
    if (bigMode()) { o.nx = static_cast<int>(g.range(14, 34)); o.ny = static_cast<int>(g.range(14, 34)); o.pMerge = g.pick(std::vector<double>{0, .1}); }
    Poly2 P = randomPoly2(g, o);
    Ref<2> r = compact<2>(fromPoly2(P, g.chance(.5) ? Affine<2>::random(g) : Affine<2>::identity()), keepV);
    return g.chance(.15) ? splitEdges<2>(r, g, g.pick(std::vector<double>{.1, .5})) : r;
}
// k triangles around one vertex (high-valence, colour reserve growth)
inline Ref<2> fan2(int k) {
    Ref<2> r; int c = r.addVertex(Pt<2>{{0, 0}}); for (int i = 0; i < k; i++) { double t = 6.283185307179586 * i / k; r.addVertex(Pt<2>{{std::cos(t), std::sin(t)}}); }
    for (int i = 0; i < k; i++) { int a = 1 + i, b = 1 + (i + 1) % k; IV ed{r.addEdge(c, a), r.addEdge(a, b), r.addEdge(b, c)}; r.addCell(ed, std::fabs(shoelace(r.v, IV{c, a, b})), true); }
    return r;
}

// n*n squares: with n > 256 there are more elements of every dimension than 16 bits can number
inline Ref<2> grid2(int n) {
    Poly2 P; for (int j = 0; j <= n; j++) for (int i = 0; i <= n; i++) P.v.push_back(Pt<2>{{static_cast<double>(i), static_cast<double>(j)}});
    for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) { int a = j * (n + 1) + i; P.cells.push_back(IV{a, a + 1, a + n + 2, a + n + 1}); }
    return fromPoly2(P, Affine<2>::identity());
}
// ------------------------------------------------------------------ 3D
inline Pt<3> newell(const std::vector<Pt<3>>& v, const IV& loop) { // area vector
    Pt<3> s{{0, 0, 0}}; for (size_t i = 1; i + 1 < loop.size(); i++) s = add<3>(s, cross(sub<3>(v[loop[i]], v[loop[0]]), sub<3>(v[loop[i + 1]], v[loop[0]]))); return mul<3>(s, .5);
}
struct Cell3 { std::vector<IV> faces; double vol; bool convex; int type; IV vtk; }; // type: VTK id (10,12,13,14) or 42
struct Opt3 { int layers = 1; double pSplit = .3; double pMerge = 0; };
inline double pyrVol(const std::vector<Pt<3>>& v, const IV& loop, const Pt<3>& apex) {
    double s = 0; for (size_t i = 1; i + 1 < loop.size(); i++) s += std::fabs(dot<3>(cross(sub<3>(v[loop[i]], v[loop[0]]), sub<3>(v[loop[i + 1]], v[loop[0]])), sub<3>(apex, v[loop[0]]))) / 6; return s;
}
struct Poly3 { std::vector<Pt<3>> v; std::vector<Cell3> cells; };
// planar-faced polyhedral mesh: extruded polygons, some cells split into pyramids/tetrahedra over an interior point
inline Poly3 randomPoly3(Rng& g, const Opt2& o2, const Opt3& o3) {
    Poly2 P = randomPoly2(g, o2); Affine<3> A = g.chance(.6) ? Affine<3>::random(g) : Affine<3>::identity();
    Poly3 Q; int n = static_cast<int>(P.v.size()); std::vector<double> z; double h = 0;
    for (int l = 0; l <= o3.layers; l++) { z.push_back(h); h += g.real(.5, 1.5); }
    for (int l = 0; l <= o3.layers; l++) for (auto& p : P.v) Q.v.push_back(A(Pt<3>{{p[0], p[1], z[static_cast<size_t>(l)]}}));
    for (int l = 0; l < o3.layers; l++) for (auto& c : P.cells) {
        Cell3 K; IV bot, top; for (int x : c) { bot.push_back(x + l * n); top.push_back(x + (l + 1) * n); }
        double area = std::fabs(shoelace(P.v, c)); K.vol = area * (z[static_cast<size_t>(l) + 1] - z[static_cast<size_t>(l)]) * std::fabs(A.det); K.convex = convexLoop(P.v, c);
        K.faces.push_back(bot); K.faces.push_back(top);
        for (size_t i = 0; i < c.size(); i++) { size_t j = (i + 1) % c.size(); K.faces.push_back(IV{bot[i], bot[j], top[j], top[i]}); }
        K.type = c.size() == 3 ? 13 : c.size() == 4 ? 12 : 42;
        K.vtk = bot; K.vtk.insert(K.vtk.end(), top.begin(), top.end());
        bool strictly = K.convex; // interior split point needs a convex cell
        if (strictly && g.chance(o3.pSplit)) {
            Pt<3> m{{0, 0, 0}}; for (int x : K.vtk) m = add<3>(m, Q.v[static_cast<size_t>(x)]); m = mul<3>(m, 1.0 / static_cast<double>(K.vtk.size()));
            int mi = static_cast<int>(Q.v.size()); Q.v.push_back(m);
            for (auto& f : K.faces) {
                Cell3 S; S.convex = true; S.vol = pyrVol(Q.v, f, m); S.faces.push_back(f);
                for (size_t i = 0; i < f.size(); i++) S.faces.push_back(IV{f[i], f[(i + 1) % f.size()], mi});
                S.type = f.size() == 3 ? 10 : f.size() == 4 ? 14 : 42; S.vtk = f; S.vtk.push_back(mi);
                Q.cells.push_back(S);
            }
        } else Q.cells.push_back(K);
    }
    return Q;
}
inline IV sortedLoop(IV l) { std::sort(l.begin(), l.end()); return l; }
inline void mergeCells3(Poly3& Q, Rng& g, double p) {
    int tries = static_cast<int>(p * Q.cells.size());
    for (int t = 0; t < tries && Q.cells.size() > 1; t++) {
        size_t a = g.below(Q.cells.size()), b = g.below(Q.cells.size()); if (a == b) continue;
        std::set<IV> sa, sb; for (auto& f : Q.cells[a].faces) sa.insert(sortedLoop(f)); for (auto& f : Q.cells[b].faces) sb.insert(sortedLoop(f));
        int shared = 0; for (auto& f : sa) shared += static_cast<int>(sb.count(f)); if (shared != 1 || sa.size() + sb.size() > 18) continue;
        std::set<int> va, vb; IV sf; for (auto& f : sa) { va.insert(f.begin(), f.end()); if (sb.count(f)) sf = f; } for (auto& f : sb) vb.insert(f.begin(), f.end());
        size_t cm = 0; for (int x : va) cm += vb.count(x); if (cm != sf.size()) continue; // touch elsewhere: not a ball
        Cell3 M; for (auto& f : Q.cells[a].faces) if (!sb.count(sortedLoop(f))) M.faces.push_back(f); for (auto& f : Q.cells[b].faces) if (!sa.count(sortedLoop(f))) M.faces.push_back(f);
        M.vol = Q.cells[a].vol + Q.cells[b].vol; M.convex = false; M.type = 42;
        Q.cells[a] = M; Q.cells.erase(Q.cells.begin() + static_cast<long>(b));
    }
}
// Kuhn tetrahedra of a jittered grid: arbitrary vertex positions stay valid
inline Poly3 kuhn3(Rng& g, int nx, int ny, int nz, double jitter) {
    Poly3 Q; Affine<3> A = Affine<3>::random(g);
    auto id = [&](int i, int j, int k) { return (k * (ny + 1) + j) * (nx + 1) + i; };
    for (int k = 0; k <= nz; k++) for (int j = 0; j <= ny; j++) for (int i = 0; i <= nx; i++) Q.v.push_back(A(Pt<3>{{i + g.real(-jitter, jitter), j + g.real(-jitter, jitter), k + g.real(-jitter, jitter)}}));
    int perm[6][3] = {{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}};
    for (int k = 0; k < nz; k++) for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) for (auto& p : perm) {
        int c[3] = {i, j, k}; IV t{id(c[0], c[1], c[2])}; for (int s = 0; s < 3; s++) { c[p[s]]++; t.push_back(id(c[0], c[1], c[2])); }
        Cell3 S; S.convex = true; S.type = 10; S.vtk = t; S.faces = {IV{t[0],t[1],t[2]}, IV{t[0],t[1],t[3]}, IV{t[1],t[2],t[3]}, IV{t[2],t[0],t[3]}};
        S.vol = pyrVol(Q.v, IV{t[0],t[1],t[2]}, Q.v[static_cast<size_t>(t[3])]); Q.cells.push_back(S);
    }
    return Q;
}
inline Ref<3> fromPoly3(const Poly3& Q) {
    Ref<3> r; for (auto& p : Q.v) r.addVertex(p);
    for (auto& c : Q.cells) { IV f; for (auto& l : c.faces) f.push_back(r.addLoop(l)); r.addCell(f, c.vol, c.convex); }
    return r;
}
struct Gen3 { bool standard = false; bool merge = true; bool planar = true; bool convex = false; int maxLayers = 3; int maxN = 3; bool split = true; };
inline Poly3 randomQ3(Rng& g, const Gen3& o) {
    Poly3 Q;
    if (bigMode() == 1 && g.chance(.3)) Q = kuhn3(g, static_cast<int>(g.range(4, 7)), static_cast<int>(g.range(4, 7)), static_cast<int>(g.range(4, 7)), .15);
    else if (g.chance(.25) && !bigMode()) Q = kuhn3(g, static_cast<int>(g.range(1, 2)), static_cast<int>(g.range(1, 2)), static_cast<int>(g.range(1, 2)), .15);
    else {
        Opt2 a; a.nx = static_cast<int>(g.range(1, o.maxN)); a.ny = static_cast<int>(g.range(1, o.maxN)); a.pTri = g.pick(std::vector<double>{0, .4, 1}); a.pMerge = o.standard ? 0 : g.pick(std::vector<double>{0, .5}); a.pDrop = g.pick(std::vector<double>{0, 0, .25}); a.maxPoly = 7; if (o.standard && bigMode() == 2) a.maxPoly = 4;
        a.onlyConvex = o.convex; if (o.convex || o.standard) a.jitter = .2;
        Opt3 b; b.layers = static_cast<int>(g.range(1, o.maxLayers)); b.pSplit = g.pick(std::vector<double>{0, .3, .6});
        if (bigMode()) { a.nx = static_cast<int>(g.range(5, 11)); a.ny = static_cast<int>(g.range(5, 11)); b.layers = static_cast<int>(bigMode() == 1 ? g.range(3, 6) : g.range(1, 2)); a.pMerge = std::min(a.pMerge, .1); }
        Q = randomPoly3(g, a, b);
        if (o.merge && !o.standard && !o.convex && g.chance(.5)) mergeCells3(Q, g, .6);
    }
    if (g.chance(.3)) { std::vector<Cell3> k; for (auto& c : Q.cells) if (!g.chance(.2)) k.push_back(c); if (!k.empty()) Q.cells = k; }
    return Q;
}
inline Ref<3> random3(Rng& g, const Gen3& o = Gen3()) { Ref<3> r = compact<3>(fromPoly3(randomQ3(g, o)), false); return !o.standard && o.split && g.chance(.15) ? splitEdges<3>(r, g, g.pick(std::vector<double>{.1, .5})) : r; }
// k tetrahedra around one edge
inline Ref<3> fan3(int k) {
    Poly3 Q; Q.v = {Pt<3>{{0,0,0}}, Pt<3>{{0,0,1}}}; for (int i = 0; i < k; i++) { double t = 6.283185307179586 * i / k; Q.v.push_back(Pt<3>{{std::cos(t), std::sin(t), .5}}); }
    for (int i = 0; i < k; i++) { int a = 2 + i, b = 2 + (i + 1) % k; Cell3 S; S.convex = true; S.type = 10; S.vtk = IV{0, 1, a, b}; S.faces = {IV{0,1,a}, IV{0,1,b}, IV{1,a,b}, IV{a,0,b}}; S.vol = pyrVol(Q.v, IV{0,1,a}, Q.v[static_cast<size_t>(b)]); Q.cells.push_back(S); }
    return fromPoly3(Q);
}

// ------------------------------------------------------------------ 4D
inline int simplexElem(Ref<4>& r, const IV& vs) { // all faces of a simplex, returns the element index
    if (vs.size() == 2) return r.addEdge(vs[0], vs[1]);
    IV s; for (size_t i = 0; i < vs.size(); i++) { IV t = vs; t.erase(t.begin() + static_cast<long>(i)); s.push_back(simplexElem(r, t)); }
    return r.addElem(static_cast<unsigned>(vs.size()) - 1, s);
}
inline double det4(std::array<Pt<4>, 4> m) { double d = 1; for (int i = 0; i < 4; i++) { int p = i; for (int j = i; j < 4; j++) if (std::fabs(m[j][i]) > std::fabs(m[p][i])) p = j; if (m[p][i] == 0) return 0; if (p != i) { std::swap(m[p], m[i]); d = -d; } d *= m[i][i]; for (int j = i + 1; j < 4; j++) { double f = m[j][i] / m[i][i]; for (int k = i; k < 4; k++) m[j][k] -= f * m[i][k]; } } return d; }
inline int cubeElem(Ref<4>& r, const IV& base, const IV& axes, const std::function<int(const IV&)>& id) {
    if (axes.size() == 1) { IV q = base; q[axes[0]]++; return r.addEdge(id(base), id(q)); }
    IV s;
    for (size_t i = 0; i < axes.size(); i++) { IV ax = axes; ax.erase(ax.begin() + static_cast<long>(i)); IV q = base; q[axes[i]]++; s.push_back(cubeElem(r, base, ax, id)); s.push_back(cubeElem(r, q, ax, id)); }
    if (axes.size() == 2) { // keep 2-faces as loops: edges are {x0,x1,y0,y1} -> x0,y1,x1,y0
        IV t{s[0], s[2], s[1], s[3]}; s = t; }
    return r.addElem(static_cast<unsigned>(axes.size()), s);
}
inline Ref<4> random4(Rng& g) {
    Ref<4> r; int n[4]; for (int& x : n) x = 1; int tot = 1; for (int t = 0; t < 2; t++) if (g.chance(.4)) { n[g.below(4)]++; } for (int x : n) tot *= x;
    Affine<4> A = Affine<4>::random(g);
    auto id = [&](const IV& c) { int q = 0; for (int i = 3; i >= 0; i--) q = q * (n[i] + 1) + c[static_cast<size_t>(i)]; return q; };
    bool simp = g.chance(.6) ; double jit = simp ? .1 : 0;
    IV c(4, 0); for (c[3] = 0; c[3] <= n[3]; c[3]++) for (c[2] = 0; c[2] <= n[2]; c[2]++) for (c[1] = 0; c[1] <= n[1]; c[1]++) for (c[0] = 0; c[0] <= n[0]; c[0]++) { Pt<4> p; for (int i = 0; i < 4; i++) p[static_cast<size_t>(i)] = c[static_cast<size_t>(i)] + g.real(-jit, jit); r.addVertex(A(p)); }
    for (c[3] = 0; c[3] < n[3]; c[3]++) for (c[2] = 0; c[2] < n[2]; c[2]++) for (c[1] = 0; c[1] < n[1]; c[1]++) for (c[0] = 0; c[0] < n[0]; c[0]++) {
        if (simp) {
            IV p{0, 1, 2, 3};
            do { IV q = c; IV t{id(q)}; for (int s : p) { q[static_cast<size_t>(s)]++; t.push_back(id(q)); }
                IV f; for (size_t i = 0; i < t.size(); i++) { IV u = t; u.erase(u.begin() + static_cast<long>(i)); f.push_back(simplexElem(r, u)); }
                std::array<Pt<4>, 4> m; for (size_t i = 0; i < 4; i++) m[i] = sub<4>(r.v[static_cast<size_t>(t[i + 1])], r.v[static_cast<size_t>(t[0])]);
                r.addCell(f, std::fabs(det4(m)) / 24, true);
            } while (std::next_permutation(p.begin(), p.end()));
        } else {
            IV f; for (int i = 0; i < 4; i++) { IV ax; for (int j = 0; j < 4; j++) if (j != i) ax.push_back(j); IV q = c; q[static_cast<size_t>(i)]++; f.push_back(cubeElem(r, c, ax, id)); f.push_back(cubeElem(r, q, ax, id)); }
            r.addCell(f, std::fabs(A.det), true);
        }
    }
    if (g.chance(.5) && r.n(4) > 1) { std::vector<char> k(r.n(4)); for (auto& x : k) x = g.chance(.6); k[0] = 1; return select<4>(r, k); }
    return compact<4>(r, false);
}

// ------------------------------------------------------------------ into GTMesh
namespace impl {
template<unsigned K, unsigned D> struct FillSubs {
    template<class M> static void run(M& m, const Ref<D>& r) {
        auto& el = m.template getElements<K>(); el.resize(r.e[K].size());
        for (size_t i = 0; i < el.size(); i++) { el[i].setIndex(i); for (int s : r.e[K][i]) el[i].getSubelements().addSubelement(s); }
        FillSubs<K - 1, D>::run(m, r);
    }
};
template<unsigned D> struct FillSubs<1, D> { template<class M> static void run(M&, const Ref<D>&) {} };
}
template<unsigned D, class M> void fill(M& m, const Ref<D>& r) {
    typedef typename std::decay<decltype(m.getVertices()[0].getIndex())>::type IT;
    m.getVertices().resize(r.v.size());
    for (size_t i = 0; i < r.v.size(); i++) { m.getVertices()[i].setIndex(i); for (unsigned k = 0; k < D; k++) m.getVertices()[i][k] = r.v[i][k]; }
    m.getEdges().resize(r.e[1].size());
    for (size_t i = 0; i < r.e[1].size(); i++) { m.getEdges()[i].setIndex(i); m.getEdges()[i].setVertexAIndex(r.e[1][i][0]); m.getEdges()[i].setVertexBIndex(r.e[1][i][1]); }
    impl::FillSubs<D - 1, D>::run(m, r);
    m.getCells().resize(r.n(D));
    for (size_t f = 0; f < r.L.size(); f++) { if (r.L[f] >= 0) m.getFaces()[f].setCellLeftIndex(static_cast<IT>(r.L[f])); if (r.R[f] >= 0) m.getFaces()[f].setCellRightIndex(static_cast<IT>(r.R[f])); }
    for (size_t c = 0; c < r.n(D); c++) {
        m.getCells()[c].setIndex(c); const IV& f = r.e[D][c]; m.getCells()[c].setBoundaryElementIndex(static_cast<IT>(f[0]));
        for (size_t i = 0; i < f.size(); i++) m.getFaces()[f[i]].setNextBElem(static_cast<IT>(f[(i + 1) % f.size()]), static_cast<IT>(c));
    }
}
// One mesh object through several turns: the queries of a property are repeated after its vertices were moved in place, and after it
// was cleared and built again with other numbers (same sizes, same first vertex), so that nothing remembered from before may be used.
struct Turn { int turn = 0; bool inPlace = false; };
inline Turn& theTurn() { static Turn t; return t; }
template<unsigned D, class M> M& living(const Ref<D>& r) {
    static std::unique_ptr<M> m; if (theTurn().turn == 0 || !m) m.reset(new M());
    if (theTurn().inPlace && m->getVertices().size() == r.v.size() && m->getBoundaryCells().empty()) { for (size_t i = 0; i < r.v.size(); i++) for (unsigned k = 0; k < D; k++) m->getVertices()[i][k] = r.v[i][k]; }
    else { m->clear(); fill<D>(*m, r); }
    return *m;
}
template<unsigned D> Ref<D> moved(Ref<D> r, Rng& g) {
    Affine<D> A = Affine<D>::random(g, 0); Pt<D> o = r.v[0]; for (auto& p : r.v) p = add<D>(o, A(sub<D>(p, o))); for (double& x : r.vol) x *= std::fabs(A.det); return r;
}
template<unsigned D, class F> void turns(vh::Case& c, Ref<D> r, F f, bool move = true, double p = .3) {
    theTurn() = Turn(); f(r); if (r.v.empty() || !c.rng.chance(p)) return;
    for (int k = 1; k <= 2; k++) {
        bool in = move && c.rng.chance(.5); ShuffleOpt o; o.vertices = c.rng.chance(.2); r = in ? moved<D>(r, c.rng) : scramble<D>(r, c.rng, o); c.desc(r.text());
        theTurn().turn = k; theTurn().inPlace = in; f(r); c.ev(in ? "meshes moved in place" : "meshes rebuilt with other numbers");
    }
    theTurn() = Turn();
}
} // namespace mg
#endif
