// Meshes of any dimension, built by hand: complexes of convex cells, their incidence and their exact geometry.
#ifndef VERIF_ND_H
#define VERIF_ND_H
#include "sim.h"
#include <algorithm>
#include <cmath>
#include <map>
#include <set>
#include <sstream>
#include <vector>
#include <GTMesh/UnstructuredMesh/UnstructuredMesh.h>

namespace nd {
using sim::Ctx;
typedef std::vector<double> P;
typedef std::vector<size_t> L;

struct Complex {
    unsigned N = 0;
    std::vector<std::vector<L>> bd;      // bd[d][i]: the elements of dimension d - 1 that bound element i
    std::vector<P> pts;
    double volume = 0;
    size_t count(unsigned d) const { return d == 0 ? pts.size() : bd[d].size(); }
    size_t total() const { size_t n = 0; for (unsigned d = 0; d <= N; d++) n += count(d); return n; }
};
inline Complex chain(Ctx& c, size_t maxN) {
    Complex r;
    r.N = 1; r.bd.resize(2);
    size_t n = 1 + c.pick(maxN, "segments");
    double x = 0;
    for (size_t i = 0; i <= n; i++) { r.pts.push_back({x}); x += (double)c.range(1, 4, "spacing"); }
    for (size_t i = 0; i < n; i++) r.bd[1].push_back({i, i + 1});
    r.volume = r.pts.back()[0] - r.pts[0][0];
    return r;
}
inline double determinant(std::vector<P> m) {
    double d = 1;
    for (size_t i = 0; i < m.size(); i++) {
        size_t p = i;
        for (size_t k = i; k < m.size(); k++) if (std::fabs(m[k][i]) > std::fabs(m[p][i])) p = k;
        if (m[p][i] == 0) return 0;
        if (p != i) { std::swap(m[p], m[i]); d = -d; }
        d *= m[i][i];
        for (size_t k = i + 1; k < m.size(); k++) { double f = m[k][i] / m[i][i]; for (size_t j = i; j < m.size(); j++) m[k][j] -= f * m[i][j]; }
    }
    return d;
}
/// Simplices glued over their faces
inline Complex simplices(Ctx& c, unsigned N, size_t maxCells) {
    Complex r;
    r.N = N; r.bd.resize(N + 1);
    std::vector<L> cells(1);
    for (unsigned i = 0; i <= N; i++) {
        P p(N, 0);
        if (i) p[i - 1] = (double)c.range(1, 4, "size");
        r.pts.push_back(p);
        cells[0].push_back(i);
    }
    std::map<L, int> uses;
    auto faceOf = [](const L& cell, size_t skip) { L f; for (size_t i = 0; i < cell.size(); i++) if (i != skip) f.push_back(cell[i]); return f; };
    for (size_t i = 0; i <= N; i++) uses[faceOf(cells[0], i)]++;
    size_t n = c.pick(maxCells, "further simplices");
    for (size_t k = 0; k < n; k++) {
        size_t from = c.pick(cells.size(), "simplex"), skip = c.pick(N + 1, "face");
        L f = faceOf(cells[from], skip);
        if (uses[f] != 1) continue;
        P p(N, 0);       // the opposite vertex mirrored through the middle of the face
        for (unsigned d = 0; d < N; d++) { for (size_t v : f) p[d] += 2 * r.pts[v][d] / f.size(); p[d] -= r.pts[cells[from][skip]][d]; }
        L cell = f;
        cell.push_back(r.pts.size());
        r.pts.push_back(p);
        for (size_t i = 0; i <= N; i++) uses[faceOf(cell, i)]++;
        cells.push_back(cell);
    }
    std::vector<std::map<L, size_t>> id(N + 1);
    for (size_t v = 0; v < r.pts.size(); v++) id[0][L{v}] = v;
    double fact = 1;
    for (unsigned i = 2; i <= N; i++) fact *= i;
    for (auto& cell : cells) {
        for (unsigned d = 1; d <= N; d++) for (unsigned mask = 1; mask < (2u << N); mask++) {
            L s;
            for (unsigned i = 0; i <= N; i++) if (mask >> i & 1) s.push_back(cell[i]);
            if (s.size() != d + 1 || id[d].count(s)) continue;
            L b;
            for (size_t i = 0; i < s.size(); i++) b.push_back(id[d - 1].at(faceOf(s, i)));
            id[d][s] = r.bd[d].size();
            r.bd[d].push_back(b);
        }
        std::vector<P> m;
        for (unsigned i = 1; i <= N; i++) { P row; for (unsigned d = 0; d < N; d++) row.push_back(r.pts[cell[i]][d] - r.pts[cell[0]][d]); m.push_back(row); }
        r.volume += std::fabs(determinant(m)) / fact;
    }
    return r;
}
/// A convex polygon, whole or cut by chords from its first vertex
inline Complex polygon(Ctx& c, size_t maxN) {
    Complex r;
    r.N = 2; r.bd.resize(3);
    size_t n = 3 + c.pick(maxN - 2, "vertices");
    for (size_t i = 0; i < n; i++) { double x = (double)i; r.pts.push_back({x, x * x / 2}); }     // on a parabola
    std::vector<L> cells(1);
    L cur{0, 1};
    for (size_t i = 2; i < n; i++) {
        cells.back().push_back(i);
        if (i + 1 < n && c.chance(1, 3, "chord")) cells.push_back(L{i});
    }
    for (size_t k = 0; k < cells.size(); k++) { L v{0}; if (k == 0) v.push_back(1); v.insert(v.end(), cells[k].begin(), cells[k].end()); cells[k] = v; }
    std::map<std::pair<size_t, size_t>, size_t> id;
    for (auto& v : cells) {
        L b;
        for (size_t i = 0; i < v.size(); i++) {
            auto e = std::minmax(v[i], v[(i + 1) % v.size()]);
            std::pair<size_t, size_t> key(e.first, e.second);
            if (!id.count(key)) { id[key] = r.bd[1].size(); r.bd[1].push_back({key.first, key.second}); }
            b.push_back(id[key]);
            const P &p = r.pts[v[i]], &q = r.pts[v[(i + 1) % v.size()]];
            r.volume += (p[0] * q[1] - p[1] * q[0]) / 2;
        }
        r.bd[2].push_back(b);
    }
    return r;
}
inline Complex product(const Complex& a, const Complex& b) {
    Complex r;
    r.N = a.N + b.N; r.bd.resize(r.N + 1);
    std::vector<std::vector<size_t>> off(a.N + 1, std::vector<size_t>(b.N + 1));
    for (unsigned d = 0; d <= r.N; d++) { size_t n = 0; for (unsigned i = 0; i <= a.N; i++) if (d >= i && d - i <= b.N) { off[i][d - i] = n; n += a.count(i) * b.count(d - i); } }
    auto at = [&](unsigned i, size_t e, unsigned j, size_t f) { return off[i][j] + e * b.count(j) + f; };
    for (auto& p : a.pts) for (auto& q : b.pts) { P x = p; x.insert(x.end(), q.begin(), q.end()); r.pts.push_back(x); }
    for (unsigned d = 1; d <= r.N; d++) for (unsigned i = 0; i <= a.N; i++) if (d >= i && d - i <= b.N) {
        unsigned j = d - i;
        for (size_t e = 0; e < a.count(i); e++) for (size_t f = 0; f < b.count(j); f++) {
            L x;
            if (i) for (size_t s : a.bd[i][e]) x.push_back(at(i - 1, s, j, f));
            if (j) for (size_t s : b.bd[j][f]) x.push_back(at(i, e, j - 1, s));
            r.bd[d].push_back(x);
        }
    }
    r.volume = a.volume * b.volume;
    return r;
}
/// Pyramids over the cells, to one or to both sides
inline Complex cone(Ctx& c, const Complex& a, bool both) {
    Complex r;
    r.N = a.N + 1; r.bd.resize(r.N + 1);
    for (auto p : a.pts) { p.push_back(0); r.pts.push_back(p); }
    for (unsigned d = 1; d <= a.N; d++) r.bd[d] = a.bd[d];
    for (int side = 0; side < (both ? 2 : 1); side++) {
        double h = (double)c.range(1, 3, "height") * (side ? -1 : 1);
        P p = a.pts[c.pick(a.pts.size(), "below the apex")];
        p.push_back(h);
        size_t apex = r.pts.size();
        r.pts.push_back(p);
        L base(a.N + 1);
        for (unsigned d = 0; d <= a.N; d++) base[d] = d + 1 <= a.N ? r.bd[d + 1].size() : r.bd[r.N].size();
        for (unsigned d = 0; d <= a.N; d++) for (size_t e = 0; e < a.count(d); e++) {
            L x{e};
            if (d == 0) x.push_back(apex);
            else for (size_t s : a.bd[d][e]) x.push_back(base[d - 1] + s);
            r.bd[d + 1].push_back(x);
        }
        r.volume += a.volume * std::fabs(h) / r.N;
    }
    return r;
}
inline Complex gen(Ctx& c, unsigned N, size_t room) {
    if (N == 1) return chain(c, room > 30 ? 3 : 1);
    switch (c.pick(N == 2 ? 4 : 5, "kind of complex")) {
    case 1: return cone(c, gen(c, N - 1, room / 2), false);
    case 2: return simplices(c, N, room > 400 ? 12 : 3);
    case 3: return N == 2 ? polygon(c, room > 30 ? 7 : 4) : product(gen(c, N - 2, room / 8), gen(c, 2, room / 8));
    case 4: return cone(c, gen(c, N - 1, room / 4), true);
    default: return product(gen(c, N - 1, room / 3), chain(c, room > 100 ? 2 : 1));
    }
}
/// Moves by a regular map; returns how the volume changes.
inline double move(Ctx& c, Complex& k) {
    std::vector<P> m(k.N, P(k.N, 0));
    P t(k.N);
    for (unsigned i = 0; i < k.N; i++) { m[i][i] = 1; t[i] = (double)c.range(-3, 3, "shift"); }
    for (unsigned s = c.pick(4, "shears"); s > 0; s--) {
        unsigned i = c.pick(k.N, "row"), j = c.pick(k.N, "column");
        double f = (double)c.range(-1, 2, "amount");
        if (i == j) { if (f == 0) continue; for (auto& x : m[i]) x *= f; }
        else for (unsigned q = 0; q < k.N; q++) m[i][q] += f * m[j][q];
    }
    for (auto& p : k.pts) {
        P q = t;
        for (unsigned i = 0; i < k.N; i++) for (unsigned j = 0; j < k.N; j++) q[i] += m[i][j] * p[j];
        p = q;
    }
    double d = std::fabs(determinant(m));
    k.volume *= d;
    return d;
}
/// Numbers the elements of every dimension anew and lists their boundaries in another order.
inline void renumber(Ctx& c, Complex& k) {
    std::vector<L> perm(k.N + 1);
    for (unsigned d = 0; d <= k.N; d++) {
        perm[d].resize(k.count(d));
        for (size_t i = 0; i < perm[d].size(); i++) perm[d][i] = i;
        if (c.chance(1, 2, "renumber")) for (size_t i = perm[d].size(); i > 1; i--) std::swap(perm[d][i - 1], perm[d][c.pick(i, "number")]);
    }
    std::vector<P> pts(k.pts.size());
    for (size_t i = 0; i < pts.size(); i++) pts[perm[0][i]] = k.pts[i];
    k.pts = pts;
    for (unsigned d = 1; d <= k.N; d++) {
        std::vector<L> n(k.bd[d].size());
        for (size_t i = 0; i < n.size(); i++) {
            L b;
            for (size_t s : k.bd[d][i]) b.push_back(perm[d - 1][s]);
            if (c.chance(1, 4, "another order")) for (size_t j = b.size(); j > 1; j--) std::swap(b[j - 1], b[c.pick(j, "place")]);
            n[perm[d][i]] = b;
        }
        k.bd[d] = n;
    }
}
inline Complex make(Ctx& c, unsigned N, size_t room, size_t maxSub) {
    for (int tries = 0;; tries++) {
        Complex k = tries < 6 ? gen(c, N, room) : simplices(c, N, 4);
        size_t sub = 0;
        for (unsigned d = 2; d < N; d++) for (auto& b : k.bd[d]) sub = std::max(sub, b.size());
        if (k.total() > 4000 || sub > maxSub) continue;
        move(c, k);
        renumber(c, k);
        return k;
    }
}
// ------------------------------------------------------------ incidence
struct Inc {
    unsigned N;
    std::vector<size_t> count;
    std::vector<std::vector<std::vector<std::set<size_t>>>> rel;
    explicit Inc(const Complex& k) : N(k.N) {
        for (unsigned d = 0; d <= N; d++) count.push_back(k.count(d));
        rel.assign(N + 1, std::vector<std::vector<std::set<size_t>>>(N + 1));
        for (unsigned a = 0; a <= N; a++) for (unsigned b = 0; b <= N; b++) rel[a][b].resize(count[a]);
        for (unsigned a = 0; a <= N; a++) for (size_t i = 0; i < count[a]; i++) {
            rel[a][a][i].insert(i);
            for (int b = (int)a - 1; b >= 0; b--) for (size_t j : rel[a][b + 1][i]) for (size_t s : k.bd[b + 1][j]) rel[a][b][i].insert(s);
        }
        for (unsigned a = 0; a <= N; a++) for (unsigned b = a + 1; b <= N; b++) for (size_t i = 0; i < count[b]; i++) for (size_t j : rel[b][a][i]) rel[a][b][j].insert(i);
    }
};
// ------------------------------------------------------------ geometry
typedef std::vector<long double> Q;
inline long double dot(const Q& a, const Q& b) { long double s = 0; for (size_t i = 0; i < a.size(); i++) s += a[i] * b[i]; return s; }
/// An orthonormal base of the span of the vectors
inline std::vector<Q> base(std::vector<Q> v, size_t dim) {
    std::vector<Q> r;
    while (r.size() < dim) {
        size_t best = 0;
        for (size_t i = 1; i < v.size(); i++) if (dot(v[i], v[i]) > dot(v[best], v[best])) best = i;
        Q e = v[best];
        long double n = std::sqrt(dot(e, e));
        if (!(n > 0)) break;
        for (auto& x : e) x /= n;
        for (int twice = 0; twice < 2; twice++) for (auto& w : v) { long double s = dot(w, e); for (size_t i = 0; i < w.size(); i++) w[i] -= s * e[i]; }
        r.push_back(e);
    }
    return r;
}
struct Geometry {
    std::vector<std::vector<Q>> centre;                  // by dimension
    std::vector<std::vector<long double>> measure;
    std::vector<Q> normal;                               // of the faces, from left to right
    double scale = 1;
};
inline Q sub(const Q& a, const Q& b) { Q r = a; for (size_t i = 0; i < r.size(); i++) r[i] -= b[i]; return r; }
/// left[f]: a cell of face f and true if the normal points away from it
inline Geometry geometry(const Complex& k, const Inc& inc, const std::vector<std::pair<size_t, bool>>& side) {
    Geometry g;
    unsigned N = k.N;
    g.centre.resize(N + 1); g.measure.resize(N + 1);
    double big = 0;
    for (auto& p : k.pts) { g.centre[0].push_back(Q(p.begin(), p.end())); for (double x : p) big = std::max(big, std::fabs(x)); }
    g.scale = std::max(1.0, big);
    g.measure[0].assign(k.pts.size(), 1);
    auto mean = [&](unsigned d, size_t i) { Q m(N, 0); auto& v = inc.rel[d][0][i]; for (size_t x : v) for (unsigned j = 0; j < N; j++) m[j] += g.centre[0][x][j] / v.size(); return m; };
    auto away = [&](unsigned d, size_t f, const Q& p) { // the part of p - f perpendicular to the element f
        std::vector<Q> v;
        size_t o = *inc.rel[d][0][f].begin();
        for (size_t x : inc.rel[d][0][f]) if (x != o) v.push_back(sub(g.centre[0][x], g.centre[0][o]));
        Q w = sub(p, g.centre[0][o]);
        for (int twice = 0; twice < 2; twice++) for (auto& e : base(v, d)) { long double s = dot(w, e); for (unsigned j = 0; j < N; j++) w[j] -= s * e[j]; }
        return w;
    };
    for (unsigned d = 1; d <= N; d++) for (size_t i = 0; i < k.count(d); i++) {
        Q c(N, 0);
        for (size_t s : k.bd[d][i]) for (unsigned j = 0; j < N; j++) c[j] += g.centre[d - 1][s][j] / k.bd[d][i].size();
        g.centre[d].push_back(c);
        Q p = mean(d, i);
        long double m = 0;
        for (size_t s : k.bd[d][i]) { Q w = away(d - 1, s, p); m += std::sqrt(dot(w, w)) * g.measure[d - 1][s] / d; }
        g.measure[d].push_back(m);
    }
    for (size_t f = 0; f < k.count(N - 1); f++) {
        Q w = away(N - 1, f, mean(N, side[f].first));
        long double n = std::sqrt(dot(w, w)) * (side[f].second ? -1 : 1);
        for (auto& x : w) x /= n;
        g.normal.push_back(w);
    }
    return g;
}
// ------------------------------------------------------------ the mesh
template <unsigned d, unsigned D> struct Mid { // the elements between edges and cells
    template <typename MT> static void build(MT& m, const Complex& k) {
        auto& e = m.template getElements<d>();
        for (size_t i = 0; i < k.bd[d].size(); i++) { e.push_back(i); for (size_t s : k.bd[d][i]) e.back().getSubelements().addSubelement(s); }
        Mid<d + 1, D>::build(m, k);
    }
    template <typename MT> static void dump(const MT& m, std::ostream& o) {
        for (auto& e : m.template getElements<d>()) { o << "e" << d << " " << +e.getIndex() << ":"; const auto& s = e.getSubelements(); for (size_t i = 0; i < s.size(); i++) o << " " << +s[i]; o << "\n"; }
        Mid<d + 1, D>::dump(m, o);
    }
    template <typename MT> static size_t size(const MT& m) { return m.template getElements<d>().size() + Mid<d + 1, D>::size(m); }
};
template <unsigned D> struct Mid<D, D> {
    template <typename MT> static void build(MT&, const Complex&) {}
    template <typename MT> static void dump(const MT&, std::ostream&) {}
    template <typename MT> static size_t size(const MT&) { return 0; }
};
template <typename MT> void build(Ctx& c, MT& m, const Complex& k) {
    constexpr unsigned D = MT::meshDimension();
    typedef typename std::decay<decltype(m.getCells()[0].getIndex())>::type I;
    typedef typename std::decay<decltype(m.getVertices()[0][0])>::type Real;
    for (size_t i = 0; i < k.pts.size(); i++) { Vertex<D, Real> v; for (unsigned j = 0; j < D; j++) v[j] = (Real)k.pts[i][j]; m.getVertices().push_back({(I)i, v}); }
    for (size_t i = 0; i < k.bd[1].size(); i++) m.getEdges().push_back({(I)i, (I)k.bd[1][i][0], (I)k.bd[1][i][1]});
    Mid<2, D>::build(m, k);
    L order(k.bd[D].size());
    for (size_t i = 0; i < order.size(); i++) { order[i] = i; m.getCells().push_back((I)i); }
    if (c.chance(1, 2, "cells in another order")) for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[c.pick(i, "cell")]);
    for (size_t i : order) {
        const L& b = k.bd[D][i];
        m.getCells()[i].setBoundaryElementIndex(b[0]);
        for (size_t j = 0; j < b.size(); j++) {
            if (!m.getFaces()[b[j]].setCellIndex(i)) c.violate("wrong-build", "face %zu does not take cell %zu", b[j], i);
            if (!m.getFaces()[b[j]].setNextBElem(b[(j + 1) % b.size()], i)) c.violate("wrong-build", "face %zu does not take the next face of cell %zu", b[j], i);
        }
    }
}
template <typename MT> std::string dump(const MT& m) {
    constexpr unsigned D = MT::meshDimension();
    std::ostringstream o;
    o.precision(17);
    for (auto& v : m.getVertices()) { o << "v " << +v.getIndex(); for (unsigned j = 0; j < D; j++) o << " " << v[j]; o << "\n"; }
    for (auto& e : m.getEdges()) o << "e " << +e.getIndex() << " " << +e.getVertexAIndex() << " " << +e.getVertexBIndex() << "\n";
    Mid<2, D>::dump(m, o);
    for (auto& f : m.getFaces()) { o << "f " << +f.getCellLeftIndex() << " " << +f.getCellRightIndex() << " " << +f.getNextBElemWRTCL() << " " << +f.getNextBElemWRTCR() << " " << f.getFlag(); for (unsigned j = 0; j < D; j++) o << " " << f.getCenter()[j]; o << "\n"; }
    for (auto* cells : {&m.getCells(), &m.getBoundaryCells()}) for (auto& f : *cells) { o << "c " << +f.getIndex() << " " << +f.getBoundaryElementIndex() << " " << f.getFlag(); for (unsigned j = 0; j < D; j++) o << " " << f.getCenter()[j]; o << "\n"; }
    return o.str();
}
/// Calls f.template call<A, B>() for the drawn dimensions
template <unsigned D, unsigned A = 0, unsigned B = 0, bool Last = (A > D)> struct Dispatch {
    template <typename F> static void go(unsigned a, unsigned b, F& f) {
        if (a == A && b == B) f.template call<A, B>();
        else Dispatch<D, B == D ? A + 1 : A, B == D ? 0 : B + 1>::go(a, b, f);
    }
};
template <unsigned D, unsigned A, unsigned B> struct Dispatch<D, A, B, true> { template <typename F> static void go(unsigned, unsigned, F&) {} };
} // namespace nd
#endif
